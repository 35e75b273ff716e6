"""C03: d:, z: and F: terms = calendar / size / flag oracle; 'now' is pinned by an LD_PRELOAD clock."""
import calendar, datetime, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, build
from mx.common import *

D = datetime.date
MON = mail.MONTHS
SO = None


def setdate(y, m, d):
    return D(y, m, d)


class Spec:
    """A datespec: text, and the days it denotes given a base day (start of it, end of it)."""

    def __init__(self, text, fn, offset=None):
        self.text, self.fn, self.offset = text, fn, offset   # fn(base) -> (first, last)


def yfix(y2):
    return 2000 + y2 if y2 < 70 else 1900 + y2


def casing(r, s):
    return r.choice([s, s.lower(), s.upper()])


def random_spec(r, now, kinds=None):
    """One datespec of every documented notation. The denoted day may depend on a base day."""
    k = r.choice(kinds or ["ymd8", "ymd6", "y4", "y2", "d", "m", "dm", "md", "dmy4", "dmy2", "ymd_m4", "ymd_m2", "my4", "my2", "ym4", "ym2", "rel", "rel"])
    y = r.randint(1971, 2060)
    m = r.randint(1, 12)
    d = r.choice([r.randint(1, 28), r.randint(1, 31)])
    mon = casing(r, MON[m - 1])
    yy = r.choice([y4 for y4 in [r.randint(1971, 1999), r.randint(2000, 2009), r.randint(2032, 2068)]])
    last = lambda Y, M: calendar.monthrange(Y, M)[1]
    if k == "ymd8":
        return Spec("%04d%02d%02d" % (y, m, d), lambda b: (D(y, m, d),) * 2)
    if k == "ymd6":
        return Spec("%02d%02d%02d" % (yy % 100, m, d), lambda b: (D(yy, m, d),) * 2)
    if k == "y4":
        return Spec("%04d" % y, lambda b: (D(y, 1, 1), D(y, 12, 31)))
    if k == "y2":
        return Spec("%02d" % (yy % 100), lambda b: (D(yy, 1, 1), D(yy, 12, 31)))
    if k == "d":
        def f(b):
            Y, M = b.year, b.month
            if d > b.day:
                M -= 1
                if M == 0:
                    Y, M = Y - 1, 12
            return (D(Y, M, d),) * 2
        return Spec(str(d), f)
    if k == "m":
        def f(b):
            Y = b.year - (1 if m > b.month else 0)
            return D(Y, m, 1), D(Y, m, last(Y, m))
        return Spec(mon, f)
    if k in ("dm", "md"):
        def f(b):
            Y = b.year - (1 if (m, d) > (b.month, b.day) else 0)
            return (D(Y, m, d),) * 2
        # one-digit day numbers; a leading zero would read as a year
        return Spec("%d%s" % (d, mon) if k == "dm" else "%s%d" % (mon, d), f)
    if k in ("dmy4", "dmy2"):
        Y = y if k == "dmy4" else yy
        return Spec("%d%s%s" % (d, mon, "%04d" % Y if k == "dmy4" else "%02d" % (Y % 100)), lambda b: (D(Y, m, d),) * 2)
    if k in ("ymd_m4", "ymd_m2"):
        Y = y if k == "ymd_m4" else yy
        return Spec("%s%s%d" % ("%04d" % Y if k == "ymd_m4" else "%02d" % (Y % 100), mon, d), lambda b: (D(Y, m, d),) * 2)
    if k in ("my4", "my2", "ym4", "ym2"):
        Y = y if k.endswith("4") else yy
        ys = "%04d" % Y if k.endswith("4") else "%02d" % (Y % 100)
        return Spec(mon + ys if k[0] == "m" else ys + mon, lambda b: (D(Y, m, 1), D(Y, m, last(Y, m))))
    n = r.choice([0, 1, 2, 3, 5, 10, 26, 52, 90, 365, 400])
    u, days = r.choice([("d", 1), ("w", 7), ("m", 30), ("y", 365)])
    while n * days > (now - D(1970, 1, 3)).days:
        n //= 2
    return Spec("%d%s" % (n, u), lambda b: (now - datetime.timedelta(days=n * days),) * 2, offset=n * days)


def predicted(start, end, single, now):
    """(lo_exclusive, hi_inclusive) days, None for open; for a single period lo is the day before it."""
    if single is not None:
        a, b = single.fn(now)
        return a - datetime.timedelta(days=1), b
    hi = end.fn(now)[1] if end else None
    base = hi if end else now
    lo = start.fn(base)[0] if start else None
    if lo and hi and lo > hi:
        lo, hi = hi, lo
    return lo, hi


def dates_case(ctx):
    r = ctx.rng
    st = mail.Store(ctx)
    now = D(1995, 1, 1) + datetime.timedelta(days=r.randint(0, 40 * 365))
    if r.random() < .3:      # interesting todays: month/year ends, leap days
        now = r.choice([D(2004, 2, 29), D(2000, 2, 29), D(2003, 3, 1), D(2003, 1, 1), D(2010, 12, 31), D(2012, 3, 31), D(2011, 5, 18)])
    tod = r.choice([1, 3600, 43200, 86399, r.randint(1, 86399)])
    off = r.choice([0, 0, 5, -9, 11, -11])          # fixed-offset local time zones
    tz = "XXX%+d" % off if off else "UTC"
    epoch = calendar.timegm(now.timetuple()) + tod + off * 3600
    env = {"TZ": tz, "LD_PRELOAD": SO, "FAKE_NOW": str(epoch)}
    # the questions first, then mail dated around every boundary they have
    qs = []
    for _ in range(tier_n(25, 60)):
        k = r.random()
        s = e = single = None
        if k < .3:
            single = random_spec(r, now, [x for x in ["ymd8", "ymd6", "y4", "y2", "d", "m", "dm", "md", "dmy4", "dmy2",
                                                     "ymd_m4", "ymd_m2", "my4", "my2", "ym4", "ym2"]])
            txt = single.text
        else:
            if k < .5:
                s = random_spec(r, now)
            elif k < .65:
                e = random_spec(r, now)
            else:
                s, e = random_spec(r, now), random_spec(r, now)
            txt = "%s-%s" % (s.text if s else "", e.text if e else "")
        try:
            lo, hi = predicted(s, e, single, now)
        except ValueError:
            continue                                # e.g. 30 of a month that has no 30th
        qs.append((txt, lo, hi))
    days = set()
    one = datetime.timedelta(days=1)
    for _, lo, hi in qs:
        for b in (lo, hi):
            if b:
                days |= {b - one, b, b + one}
    days |= {now, now - one, now + one}
    days = sorted(d for d in days if D(1970, 1, 3) <= d <= D(2100, 1, 1))
    if len(days) > 150:
        days = sorted(r.sample(days, 150))
    msgs = []
    for i, d in enumerate(days):
        m = mail.Msg("d%d" % i, frm="a@bb.cc", subject="x", body="b\n", date=None)
        wd = r.choice(["%s, " % mail.DAYS[d.weekday()], "", "%s,  " % mail.DAYS[d.weekday()]])
        ys = "%04d" % d.year
        if (1970 <= d.year <= 1999 or 2000 <= d.year <= 2069) and r.random() < .2:
            ys = "%02d" % (d.year % 100)
        m.extra = [("Date", "%s%s %s %s %02d:%02d:%02d %s" % (wd, r.choice(["%d", "%02d"]) % d.day, casing(r, MON[d.month - 1]), ys,
                    r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice(["+0000", "-0730", "GMT", "EST", "+1200"])))]
        m.day = d
        msgs.append(m)
        if i % 3 == 0:
            st.add_maildir_msg("md", m)
        elif i % 3 == 1:
            st.add_mh_msg("mh", m)
    st.write_mbox("box", [m for i, m in enumerate(msgs) if i % 3 == 2])
    st.write_rc()
    st.index(env={"TZ": tz})
    for txt, lo, hi in qs:
        got = st.search(["d:" + txt], env=env)
        want = [m for m in msgs if (lo is None or m.day > lo) and (hi is None or m.day <= hi)]
        try:
            compare(ctx, st, ["d:" + txt], got, want, "date search", msgs)
        except core.Violation as v:
            v.detail.update(now=str(now), tod=tod, tz=tz, expected_after=str(lo), expected_until=str(hi))
            raise
        ctx.count("evaluations")
        ctx.count("date_queries")
        if want and len(want) < len(msgs):
            ctx.seen(txt, str(now))
            ctx.sample({"argv": "d:" + txt, "today": str(now), "after": str(lo), "until": str(hi), "matched": len(want)}, 1)


DOC = [  # mairix(1): today is May 18th 2003
    ("20030301-20030425", D(2003, 3, 1), D(2003, 4, 25)), ("030301-030425", D(2003, 3, 1), D(2003, 4, 25)),
    ("mar1-apr25", D(2003, 3, 1), D(2003, 4, 25)), ("Mar1-Apr25", D(2003, 3, 1), D(2003, 4, 25)),
    ("MAR1-APR25", D(2003, 3, 1), D(2003, 4, 25)), ("1mar-25apr", D(2003, 3, 1), D(2003, 4, 25)),
    ("2002", D(2001, 12, 31), D(2002, 12, 31)), ("mar", D(2003, 2, 28), D(2003, 3, 31)), ("oct", D(2002, 9, 30), D(2002, 10, 31)),
    ("21oct-mar", D(2002, 10, 21), D(2003, 3, 31)), ("21apr-mar", D(2002, 4, 21), D(2003, 3, 31)),
    ("21apr-", D(2003, 4, 21), None), ("-21apr", None, D(2003, 4, 21)), ("6w-2w", D(2003, 4, 6), D(2003, 5, 4)),
    ("21apr-1w", D(2003, 4, 21), D(2003, 5, 11)), ("99-11", D(1999, 1, 1), D(2003, 5, 11)),
    ("99oct-1oct", D(1999, 10, 1), D(2002, 10, 1)), ("99oct-01oct", D(1999, 10, 1), D(2001, 10, 31)),
    ("oct99-oct1", D(1999, 10, 1), D(2002, 10, 1)), ("oct99-oct01", D(1999, 10, 1), D(2001, 10, 31)),
]


def doc_case(ctx):
    """The worked examples of the manual page."""
    st = mail.Store(ctx)
    now = D(2003, 5, 18)
    env = {"LD_PRELOAD": SO, "FAKE_NOW": str(calendar.timegm(now.timetuple()) + 45000)}
    one = datetime.timedelta(days=1)
    days = sorted(set(d + k * one for _, a, b in DOC for d in (a, b) if d for k in (-1, 0, 1)))
    msgs = []
    for i, d in enumerate(days):
        m = mail.Msg("d%d" % i, frm="a@bb.cc", subject="x", body="b\n", date=d)
        m.day = d
        msgs.append(st.add_mh_msg("mh", m))
    st.write_rc()
    st.index()
    for txt, lo, hi in DOC:
        got = st.search(["d:" + txt], env=env)
        want = [m for m in msgs if (lo is None or m.day > lo) and (hi is None or m.day <= hi)]
        compare(ctx, st, ["d:" + txt], got, want, "date search (manual example)", msgs)
        ctx.count("evaluations")
        ctx.seen("doc", txt)
    # far relative dates reach everything
    for txt in ("70y-", "999y-", "30000d-", "4000w-", "1000m-"):
        got = st.search(["d:" + txt], env=env)
        compare(ctx, st, ["d:" + txt], got, msgs, "date search (far back)", msgs)
        ctx.count("evaluations")
    # nonsense is refused, not answered
    for txt in ("foo", "32foo", "123", "20111", "1x", "99abc", "-", "1jann", "12345", "1234567"):
        if txt == "-":
            continue
        x = ctx.run(["-f", st.rc, "-r", "d:" + txt], env=env)
        if x.rc in (0, 1) or x.out:
            ctx.violate("bad-date-answered", "d:%s was answered instead of refused" % txt, **x.brief())
        ctx.count("evaluations")


def sweep_case(ctx):
    """One message a day over more than two years; every shorthand that depends on today, at one today."""
    i = int(ctx.case[1:])
    r = ctx.rng
    st = mail.Store(ctx)
    one = datetime.timedelta(days=1)
    todays = [D(y, m, d) for y in (2000, 2001, 2003, 2004, 2005, 2023, 2024, 2025) for m, d in ((1, 1), (1, 10), (1, 31), (2, 1), (2, 28), (3, 1), (3, 30), (12, 31))] + \
             [D(2000, 2, 29), D(2004, 2, 29), D(2024, 2, 29), D(2010, 7, 31), D(2010, 8, 31), D(2010, 5, 15), D(2011, 10, 1), D(2037, 6, 30)]
    now = todays[i % len(todays)]
    env = {"LD_PRELOAD": SO, "FAKE_NOW": str(calendar.timegm(now.timetuple()) + r.choice([1, 43200, 86399]))}
    first = D(now.year - 2, 12, 1)
    part = []
    for k in range((now - first).days + 35):
        m = mail.Msg("d%d" % k, frm="a@bb.cc", subject="x", body="b\n", date=first + k * one)
        m.day = m.date
        part.append(m)
    st.write_mbox("box", part)
    st.write_rc()
    st.index()
    last = lambda Y, M: D(Y, M, calendar.monthrange(Y, M)[1])
    qs = []
    for m in range(1, 13):
        Y = now.year - (1 if m > now.month else 0)
        qs.append((MON[m - 1], D(Y, m, 1) - one, last(Y, m)))
        qs.append(("-" + MON[m - 1], None, last(Y, m)))
        qs.append((MON[m - 1] + "-", D(Y, m, 1), None))
        for y in (now.year - 1, now.year):
            if not 10 <= y % 100 <= 31:
                qs.append(("%s%02d" % (MON[m - 1], y % 100), D(y, m, 1) - one, last(y, m)))
            qs.append(("%d%s" % (y, MON[m - 1].lower()), D(y, m, 1) - one, last(y, m)))
        for d in (1, now.day, now.day + 1, 28, 29, 30, 31):
            try:
                Y2 = now.year - (1 if (m, d) > (now.month, now.day) else 0)
                x = D(Y2, m, d)
                qs.append(("%d%s" % (d, MON[m - 1].lower()), x - one, x))
                qs.append(("%s%d-" % (MON[m - 1], d), x, None))
            except ValueError:
                pass
    for d in range(1, 32):
        Y, M = now.year, now.month
        if d > now.day:
            Y, M = (Y, M - 1) if M > 1 else (Y - 1, 12)
        try:
            x = D(Y, M, d)
        except ValueError:
            continue
        qs += [("%d" % d, x - one, x), ("%d-" % d, x, None), ("-%d" % d, None, x)]
    for n, u, k in [(n, u, k) for n in (1, 2, 3, 7, 12) for u, k in (("d", 1), ("w", 7), ("m", 30))] + [(1, "y", 365)]:
        x = now - n * k * one
        qs += [("%d%s-" % (n, u), x, None), ("-%d%s" % (n, u), None, x)]
    for txt, lo, hi in qs:
        want = [m for m in part if (lo is None or m.day > lo) and (hi is None or m.day <= hi)]
        got = st.search(["d:" + txt], env=env)
        try:
            compare(ctx, st, ["d:" + txt], got, want, "date search", [])
        except core.Violation as v:
            v.detail.update(now=str(now), expected_after=str(lo), expected_until=str(hi))
            raise
        ctx.count("evaluations")
        ctx.count("date_queries")
        if want and len(want) < len(part):
            ctx.seen(txt, str(now))


def size_case(ctx):
    r = ctx.rng
    st = mail.Store(ctx)
    msgs = []
    targets = [200, 201, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 10240, 10241, 65535, 65536, 1048575, 1048576, 1048577]
    targets = sorted(set(targets + [r.randint(200, 5000) for _ in range(20)]))
    for i, t in enumerate(targets):
        m = mail.Msg("z%d" % i, frm="a@bb.cc", subject="x")
        base = len(m.render())
        m.body = ("y" * 60 + "\n") * 20000
        m.body = m.body[:t - base - 1] + "\n"
        (st.add_mh_msg("mh", m) if r.random() < .5 else st.add_maildir_msg("md", m))
        assert m.size == t, (m.size, t)
        msgs.append(m)
    part = []
    for i in range(10):
        part.append(mail.Msg("zz%d" % i, frm="a@bb.cc", subject="x", body="b" * r.randint(1, 3000) + "\n"))
    st.write_mbox("box", part)
    if r.random() < .5:
        st.write_mbox("boxz.gz", [mail.Msg("zy%d" % i, frm="a@bb.cc", subject="x", body="b" * r.randint(1, 900) + "\n") for i in range(4)], comp="gz")
    msgs += [m for b in st.mboxes.values() for m in b]
    st.write_rc()
    st.index()
    sizes = sorted(m.size for m in msgs)

    def size_text(v):
        opts = [str(v)]
        if v % 1024 == 0 and v:
            opts += ["%dk" % (v // 1024), "%dK" % (v // 1024)] * 2
        if v % (1 << 20) == 0 and v:
            opts += ["%dM" % (v >> 20), "%dm" % (v >> 20)] * 2
        return r.choice(opts)
    for _ in range(tier_n(30, 80)):
        pick = lambda: r.choice([r.choice(sizes), r.choice(sizes) + r.choice([-1, 1]), r.randint(1, 8) << 10, r.randint(1, 5000),
                                 r.choice([1, 2, 64, 2048, 4096, 5000]) << 20, 0, 1 << 20])
        lo = hi = None
        k = r.random()
        if k < .25:
            lo = pick()
            txt = size_text(lo) + "-"
        elif k < .5:
            hi = pick()
            txt = ("-" if r.random() < .5 else "") + size_text(hi)
        else:
            lo, hi = pick(), pick()
            txt = size_text(lo) + "-" + size_text(hi)
            lo, hi = min(lo, hi), max(lo, hi)
        got = st.search(["z:" + txt])
        want = [m for m in msgs if (lo is None or m.size > lo) and (hi is None or m.size < hi)]
        compare(ctx, st, ["z:" + txt], got, want, "size search", [])
        ctx.count("evaluations")
        ctx.count("size_queries")
        if want and len(want) < len(msgs):
            ctx.seen("z", txt, len(want))


def flags_case(ctx):
    r = ctx.rng
    st = mail.Store(ctx)
    msgs = []
    md, mh, box = r.choice([("md", "mh", "box"), ("md", "mh", "box"), ("md:2,FS", "mh:2,FRS", "box:2,F"), (":2,FRS/md", ":2,S/mh", ":2,R.box")])   # only the message's own name counts
    for bits in range(8):
        fl = "".join(c for i, c in enumerate("FRS") if bits >> i & 1)
        m = mail.Msg("f%d" % bits, frm="a@bb.cc", subject="x", body="b\n", flags=fl)
        extra = r.choice(["", "P", "T", "DT", "D"])
        name = "1294%06d.%d_1.host:2,%s" % (bits, bits, "".join(sorted(fl + extra)))
        msgs.append(st.add_maildir_msg(md, m, sub=r.choice(["cur", "cur", "new"]), name=name))
        m = mail.Msg("n%d" % bits, frm="a@bb.cc", subject="x", body="b\n", flags="")
        msgs.append(st.add_maildir_msg(md, m, sub="new", name="1295%06d.%d_1.FRShost" % (bits, bits)))
    for i in range(r.choice([0, 1, 3])):
        msgs.append(st.add_mh_msg(mh, mail.Msg("h%d" % i, frm="a@bb.cc", subject="x", body="b\n", flags="")))
    part = []
    for i in range(r.randint(8, 20)):
        fl = "".join(c for c in "FRS" if r.random() < .5)
        m = mail.Msg("b%d" % i, frm="a@bb.cc", subject="x", body="Status: RO\nb\n", flags=fl)
        part.append(m)
    st.write_mbox(box, part, mmdf=r.random() < .3)
    msgs += part
    st.write_rc()
    st.index()
    for rnd in range(2):
        exprs = ["s", "r", "f", "-s", "-r", "-f"]
        for _ in range(tier_n(14, 30)):
            n = r.randint(1, 3)
            parts = ["%s%s" % (r.choice(["", "-"]), r.choice([c, c.upper()])) for c in r.sample("srf", n)]
            exprs.append("".join(parts))
        for ex in exprs:
            conds, neg = [], False
            for ch in ex:
                if ch == "-":
                    neg = True
                else:
                    conds.append((ch.upper(), neg))
                    neg = False
            want = [m for m in msgs if all((c in m.flags) != n for c, n in conds)]
            got = st.search(["F:" + ex])
            compare(ctx, st, ["F:" + ex], got, want, "flag search", msgs)
            ctx.count("evaluations")
            ctx.count("flag_queries")
            if want and len(want) < len(msgs):
                ctx.seen("F", ex, rnd, len(want), len(msgs))
        if rnd == 0:
            # the user reads, answers and flags mail: names and Status headers change
            for m in msgs:
                if m.store == "maildir" and r.random() < .6:
                    m.flags = "".join(c for c in "FRS" if r.random() < .5)
                    d, b = os.path.split(m.path())
                    d = os.path.join(os.path.dirname(d), "cur")
                    nb = b.split(":")[0] + ":2," + "".join(sorted(m.flags))
                    os.rename(m.path(), os.path.join(d, nb))
                    m.loc = ("file", os.path.join(d, nb))
            for m in part:
                if r.random() < .6:
                    m.flags = "".join(c for c in "FRS" if r.random() < .5)
            st.write_mbox(box, part, mmdf=False)
            st.index(*r.choice([(), ("-p",)]))
            ctx.count("flag_changes")


def prepare(exes):
    global SO
    SO = build.preload("faketime")


cases = [("doc", doc_case)] + [("d%03d" % i, dates_case) for i in range(tier_n(400, 3000))] + [("s%03d" % i, sweep_case) for i in range(tier_n(72, 288))] + \
        [("z%03d" % i, size_case) for i in range(tier_n(60, 300))] + [("f%03d" % i, flags_case) for i in range(tier_n(60, 300))]
core.main("C03", cases, prepare=prepare, rule="Date terms: every documented notation, random and boundary 'today's (LD_PRELOAD clock) and fixed-offset zones, mail dated "
          "one day before, on and after every boundary; calendar oracle written from the manual page. Size terms around every exact size with k/M suffixes. "
          "Flag terms over all flag combinations in maildir names and mbox Status headers, before and after the user changes flags. "
          "Non-trivial: neither empty nor everything.",
          assumptions=["local time zone without daylight saving", "dates 1970-2100", "the start day of a two-sided or open range is excluded, as the existing tests fix"],
          min_evals=800)
