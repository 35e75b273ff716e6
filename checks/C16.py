"""C16: IMAP folders are indexed, searched and delivered like local mail; nothing a server says does harm."""
import os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, imapd
from mx.common import *
from mx.imapacct import Account, FOLDERS, alike, check_source_untouched


class ImapStore(mail.Store):
    """A local store whose rc also names IMAP folders."""
    acct = None
    named_local = True
    mformat, mf = "raw", None

    def write_rc(self, mformat=None, mf=None, **kw):
        L = ["base=%s" % self.mail]
        for k, lst in (("maildir", self.maildirs), ("mh", self.mhs), ("mbox", list(self.mboxes))):
            if lst:
                L.append("%s=%s" % (k, ":".join(lst)))
        L += self.acct.rc_lines()
        L += ["mformat=%s" % (mformat or self.mformat), "mfolder=%s" % (mf or self.mfolder), "database=%s" % self.db] + self.extra_rc
        with open(self.rc, "w", encoding="latin-1") as f:
            f.write("\n".join(L) + "\n")


class DateArg:
    def __init__(self, d0, d1):
        self.d0, self.d1 = d0, d1

    def text(self):
        return "d:%s-%s" % (self.d0.strftime("%Y%m%d"), self.d1.strftime("%Y%m%d"))

    def hits(self, m):
        return m.date is not None and self.d0 < m.date <= self.d1


class SizeArg:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def text(self):
        return "z:%s-%s" % ("" if self.lo is None else self.lo, "" if self.hi is None else self.hi)

    def hits(self, m):
        return (self.lo is None or m.size > self.lo) and (self.hi is None or m.size < self.hi)


def setup(ctx, nfolders=3, nmsgs=10, local=True, variant="plain"):
    r = ctx.rng
    st = ImapStore(ctx, variant=variant)
    a = Account(ctx, st)
    st.acct = a
    voc = mail.Vocab(r, r.choice([15, 40]))
    pool = []
    names = alike(r, r.sample(FOLDERS, nfolders))
    for n in names:
        a.add_folder(n)
    for i in range(nmsgs):
        a.add(r.choice(names), mail.random_msg(r, voc, "i%d" % i, pool, big=r.random() < .1))
    a.named = names if r.random() < .6 else r.sample(names, r.randint(1, nfolders))
    loc = fill_store(ctx, st, r.choice([1, 3, 8]), voc, midpool=pool, uid0=1000, comp=(None, "gz")) if local else []
    st.write_rc()
    return st, a, voc, pool, loc


def free_names(a):
    """Names for a result folder: none of the account's (every spelling of INBOX is one folder)."""
    taken = set(a.folders) | set(a.named)
    inbox = any(n.upper() == "INBOX" for n in taken)
    return [x for x in FOLDERS if x not in taken and not (inbox and x.upper() == "INBOX")]


def rand_plan(r):
    p = {"seed": r.randint(1, 1 << 30), "caps_in": r.random() < .5, "order": r.random() < .5, "noise": r.choice([0, 0, .1, .4]), "extra_flags": r.random() < .3,
         "chunk": r.choice([0, 0, 0, 1, 3, 50, 1023, 1024, 1025])}
    return p


def queries(r, voc, msgs, pool, n):
    out = []
    for _ in range(n):
        k = r.random()
        if k < .12:
            ds = sorted(m.date for m in msgs if m.date)
            if len(ds) > 1:
                i, j = sorted(r.sample(range(len(ds)), 2))
                if ds[i] < ds[j]:
                    out.append([DateArg(ds[i], ds[j])])
                    continue
        if k < .24:
            zs = sorted(m.size for m in msgs)
            if zs:
                lo, hi = sorted([r.choice(zs) + r.choice([-1, 0, 1]), r.choice(zs) + r.choice([-1, 0, 1])])
                out.append([SizeArg(*r.choice([(lo, None), (None, hi), (lo, hi + 1)]))])
                continue
        if k < .34 and pool:
            out.append([mail.MidArg(r.choice(pool))])
            continue
        out.append([mail.random_arg(r, voc, msgs) for _ in range(r.choice([1, 1, 2]))])
    return out


def components(msgs):
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    for i, m in enumerate(msgs):
        for d in m.ids():
            par[find(("m", i))] = find(d)
    return [find(("m", i)) for i in range(len(msgs))]


def check_searches(ctx, st, a, voc, pool, live, n, threads=False, hist=None):
    r = ctx.rng
    before = a.read_state()
    open(a.logp, "w").close()
    for args in queries(r, voc, live or [mail.Msg("x", subject="x y")], pool, n) if live else []:
        argv = [x.text() for x in args]
        try:
            got = st.search(argv)
            compare(ctx, st, argv, got, mail.evaluate(args, live), what="imap-search", universe=live)
        except core.Violation as v:
            v.detail["history"] = hist
            raise
        ctx.count("evaluations")
        if any(g[0] == "imap" for g in got):
            ctx.seen(tuple(argv), len(got), len(live))
            ctx.count("imap_hits", sum(g[0] == "imap" for g in got))
    if os.path.exists(st.db):
        got = st.search(["~zzznosuchword"])
        try:
            compare(ctx, st, ["~zzznosuchword"], got, live, what="imap-all", universe=live)
        except core.Violation as v:
            v.detail["history"] = hist
            raise
        ctx.count("evaluations")
    if threads and live:
        comp = components(live)
        for _ in range(3):
            m = r.randrange(len(live))
            args = [mail.random_arg(r, voc, live)]
            hit = {id(x) for x in mail.evaluate(args, live)}
            cs = {c for c, x in zip(comp, live) if id(x) in hit}
            compare(ctx, st, ["-t", args[0].text()], st.search([args[0].text()], flags=("-r", "-t")),
                    [x for c, x in zip(comp, live) if c in cs], what="imap-threads", universe=live)
            ctx.count("evaluations")
    if a.log():
        ctx.violate("imap-needless", "a raw search talked to the server", log=a.log()[:5])


def mirror_case(ctx):
    """A whole account: index, search, threads; greeting and login variants; noise and fragmentation on the wire."""
    r = ctx.rng
    st, a, voc, pool, loc = setup(ctx, r.randint(1, 5), r.choice([0, 1, 6, 15, 40]), variant=r.choice(["plain", "plain", "asan"]))
    if r.random() < .3:
        a.plan.update(greeting="PREAUTH", nocred=True)
    elif r.random() < .4:
        a.plan.update(user=r.choice(["me@host.example", "u s e r", 'q"uote', "back\\slash", "\xe9t\xe9"]), password=r.choice(["p w", 'x"y', "a\\b\\", "{3}", "p\xe4ss", "(", "*%"[:1]]))
    if r.random() < .3 and len(a.named) > 1:
        drop = a.named[0]
        if not re.search(r"[*?\[\]\\:]", drop):
            st.extra_rc.append("omit=%s" % drop)
            a.named = a.named[1:] + [drop]
            a.named_omit = drop
    for n in list(a.folders):                 # some messages flagged for deletion already
        for u, fl, m, d in a.folders[n]["msgs"]:
            if r.random() < .1:
                fl.add(b"\\Deleted")
    st.write_rc()
    a.write(**rand_plan(r))
    if getattr(a, "named_omit", None):
        a.named = [n for n in a.named if n != a.named_omit]
    before = a.read_state()
    rr = st.index()
    check_source_untouched(ctx, a, before, what="index")
    live = a.live() + loc
    if not live:
        return
    check_searches(ctx, st, a, voc, pool, live, tier_n(8, 16), threads=True)
    # indexing again changes nothing and fetches nothing again
    open(a.logp, "w").close()
    st.index(*r.choice([[], ["-F"], ["-p"], ["-v"]]))
    check_source_untouched(ctx, a, before, what="index")
    for e in a.log():
        if e.get("cmd") == "UID" and any("BODY" in str(x) for x in e["args"]):
            ctx.violate("imap-refetch", "an unchanged message was downloaded again", ev=e)
    check_searches(ctx, st, a, voc, pool, live, 3)
    ctx.sample({"folders": a.named, "messages": len(live)}, 1)


def mutate(ctx, a, voc, pool, log, uid0):
    r = ctx.rng
    names = list(a.folders)
    op = r.choice(["add", "add", "add", "expunge", "expunge", "delete", "undelete", "reflag", "renumber", "move", "newfolder", "dropfolder", "unname", "name", "recreate"])
    n = r.choice(names) if names else None
    f = a.folders.get(n)
    if op == "newfolder" or not names:
        c = [x for x in FOLDERS if x not in a.folders]
        if not c:
            return
        n = r.choice(c)
        a.add_folder(n)
        a.named.append(n) if n not in a.named else None
        op = "newfolder"
    elif op == "add":
        for k in range(r.randint(1, 4)):
            a.add(n, mail.random_msg(r, voc, "h%d_%d" % (uid0, k), pool))
    elif op in ("expunge", "delete", "undelete", "reflag", "move") and f["msgs"]:
        i = r.randrange(len(f["msgs"]))
        u, fl, m, d = f["msgs"][i]
        if op == "expunge":
            del f["msgs"][i]
        elif op == "delete":
            fl.add(b"\\Deleted")
        elif op == "undelete":
            fl.discard(b"\\Deleted")
        elif op == "reflag":
            fl ^= {b"\\Seen"}
        else:
            del f["msgs"][i]
            a.add(r.choice(names), m)
    elif op == "renumber":
        f["uidvalidity"] = a.renumber(f["uidvalidity"])
        ms = f["msgs"]
        r.shuffle(ms)
        f["uidnext"] = r.choice([1, 5, f["uidnext"]])
        old, f["msgs"] = ms, []
        for u, fl, m, d in old:
            f["msgs"].append((f["uidnext"], fl, m, d))
            a.place(n, f, f["uidnext"], m, d)
            f["uidnext"] += r.choice([1, 1, 2])
    elif op == "recreate":
        a.add_folder(n)                       # deleted and made anew: same name, other contents
        for k in range(r.randint(0, 3)):
            a.add(n, mail.random_msg(r, voc, "r%d_%d" % (uid0, k), pool))
    elif op == "dropfolder":
        del a.folders[n]
    elif op == "unname" and len(a.named) > 1:
        a.named.remove(r.choice(a.named))
    elif op == "name":
        c = [x for x in names if x not in a.named]
        if not c:
            return
        a.named.append(r.choice(c))
    log.append("%s %s" % (op, n))


def history_case(ctx):
    """Deliveries, expunges, renumbering, folders that come and go: after every index run the answers are those of the account as it is."""
    r = ctx.rng
    st, a, voc, pool, loc = setup(ctx, r.randint(1, 3), r.choice([2, 8, 20]), variant=r.choice(["plain", "plain", "asan"]))
    log = []
    for step in range(tier_n(6, 14)):
        if step:
            for k in range(r.choice([1, 1, 2, 4])):
                mutate(ctx, a, voc, pool, log, step * 10 + k)
        st.write_rc()
        a.write(**rand_plan(r))
        before = a.read_state()
        st.index(*r.choice([[], [], [], ["-p"], ["-F"], ["-v"]]))
        log.append("index")
        check_source_untouched(ctx, a, before, what="index")
        live = a.live() + loc
        check_searches(ctx, st, a, voc, pool, live, 5, hist=log[-30:])
    ctx.sample({"history": log[-12:]}, 1)


# ------------------------------------------------------------------ delivery

def body_of(m):
    if m.store == "imap":
        return m.imap
    if m.store == "mbox":
        return m.bytes
    with open(m.path(), "rb") as f:
        return f.read()


def copies(m):
    """A message of an mbox with or without the empty line that separates it from the next one."""
    return (m.bytes, m.bytes.rstrip(b"\n") + b"\n", m.bytes[:-1] if m.bytes.endswith(b"\n") else m.bytes)


def local_flags(m):
    return set(m.flags) & set("FRS") if m.store == "mbox" or m.store == "maildir" and ":2," in m.path() else set()


def check_delivery(ctx, st, a, fmt, rf, before, want, prior, aug, allowed_missing=(), what=""):
    """prior: bytes already there when augmenting (list of (flags or None, data))."""
    want = list(want)
    miss_ok = {id(m) for m in allowed_missing}
    if fmt == "imap":
        f = a.read_state().get(rf.encode("latin-1"))
        ents = [(m["flags"], m["data"]) for m in f["msgs"]] if f else []
        if f is None and not want and not prior:
            return
        if aug:
            if ents[:len(prior)] != prior:
                ctx.violate("imap-augment", "%s: what was in the result folder is changed" % what)
            ents = ents[len(prior):]
        rest = list(want)
        for fl, d in ents:
            hit = None
            for m in rest:
                if m.store == "imap":
                    if d == m.imap and fl == src_flags(before, m):
                        hit = m
                elif d == body_of(m) or m.store == "mbox" and d in copies(m):
                    wf = {{"S": b"\\Seen", "R": b"\\Answered", "F": b"\\Flagged"}[c] for c in local_flags(m)}
                    if fl == wf:
                        hit = m
                if hit:
                    break
            if hit is None:
                ctx.violate("imap-alien", "%s: the result folder holds a message that is no match, or not its bytes or flags" % what,
                            flags=str(fl), data=d[:400].decode("latin-1"), log=a.log()[-20:])
            rest = [m for m in rest if m is not hit]
    elif fmt in ("maildir", "mh"):
        mf = st.mfolder
        files = []
        for s in (("cur", "new") if fmt == "maildir" else ("",)):
            d = os.path.join(mf, s)
            for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                p = os.path.join(d, n)
                if os.path.isfile(p) and (fmt == "maildir" or n.isdigit()):
                    files.append((s, n, p))
        if aug:
            for p, d in prior:
                if not os.path.exists(p) or open(p, "rb").read() != d:
                    ctx.violate("imap-augment", "%s: entry %s is lost or changed" % (what, p))
            files = [x for x in files if x[2] not in {p for p, d in prior}]
        rest = list(want)
        old = [d for p, d in prior] if aug else []
        for s, n, p in files:
            d = open(p, "rb").read()
            hit = None
            for m in rest:
                if m.store == "imap" and not os.path.islink(p) and d == m.imap:
                    hit = m
                elif m.store in ("maildir", "mh") and os.path.islink(p) and os.path.realpath(p) == os.path.realpath(m.path()):
                    hit = m
                elif m.store == "mbox" and not os.path.islink(p) and d.startswith(b"X-source-folder: ") and d.split(b"\n", 1)[1] in copies(m):
                    hit = m
                if hit:
                    break
            if hit is None:
                ctx.violate("imap-alien", "%s: entry %s is no byte-exact copy of (or link to) a match" % (what, p), data=d[:400].decode("latin-1"))
            rest = [m for m in rest if m is not hit]
        if aug:       # an entry that was there already need not be repeated
            rest = [m for m in rest if m.store == "imap" and m.imap not in old or m.store == "mbox" and not any(m.bytes.rstrip(b"\n") in o for o in old) or
                    m.store in ("maildir", "mh") and body_of(m) not in old]
    else:
        data = open(st.mfolder, "rb").read() if os.path.exists(st.mfolder) else b""
        if aug:
            if not data.startswith(prior):
                ctx.violate("imap-augment", "%s: what was in the result mbox is changed" % what)
            data = data[len(prior):]
        rest, pos = list(want), 0
        while pos < len(data):
            e = data.find(b"\n", pos)
            if not data.startswith(b"From ", pos):
                ctx.violate("imap-alien", "%s: no separator at offset %d of the result mbox" % (what, pos), data=data[max(0, pos - 80):pos + 80].decode("latin-1"))
            pos = e + 1
            hit = None
            for m in rest:
                b = body_of(m)
                if m.store != "imap":
                    b = b"X-source-folder: " + m.path().encode("latin-1") + b"\n" + b
                if data.startswith(b, pos):
                    q = pos + len(b)
                    for k in range(4):
                        if q == len(data) or data.startswith(b"From mairix@mairix", q):
                            hit = (m, q)
                            break
                        if data[q:q + 1] != b"\n":
                            break
                        q += 1
                if hit:
                    break
            if hit is None:
                ctx.violate("imap-alien", "%s: entry at offset %d of the result mbox is no byte-exact copy of a match" % (what, pos), data=data[pos:pos + 400].decode("latin-1"))
            rest = [m for m in rest if m is not hit[0]]
            pos = hit[1]
    rest = [m for m in rest if id(m) not in miss_ok]
    if rest:
        ctx.violate("imap-missing", "%s did not deliver %s" % (what, rest[0].loc), n=len(rest), log=a.log()[-20:])
    ctx.count("deliveries_checked", len(want))


def src_flags(before, m):
    uv, uid, name = m.path().split(":", 2)
    for x in before[name.encode("latin-1")]["msgs"]:
        if x["uid"] == int(uid):
            return x["flags"]


def prior_of(st, a, fmt, rf):
    if fmt == "imap":
        f = a.read_state().get(rf.encode("latin-1"))
        return [(m["flags"], m["data"]) for m in f["msgs"]] if f else []
    if fmt == "mbox":
        return open(st.mfolder, "rb").read() if os.path.exists(st.mfolder) else b""
    out = []
    for d, _, fs in os.walk(st.mfolder):
        for n in fs:
            p = os.path.join(d, n)
            if not n.startswith("."):
                out.append((p, open(p, "rb").read()))
    return out


def deliver_case(ctx):
    r = ctx.rng
    st, a, voc, pool, loc = setup(ctx, r.randint(1, 3), r.choice([3, 10, 20]), variant=r.choice(["plain", "asan"]))
    a.write(**rand_plan(r))
    st.index()
    live = a.live() + loc
    if not live:
        return
    fmt = r.choice(["maildir", "mh", "mbox", "imap", "imap"])
    rf = r.choice(free_names(a)) if fmt == "imap" else None
    if fmt == "imap":
        if r.random() < .6:                   # an existing result folder with old results in it
            a.add_folder(rf)
            for k in range(r.choice([0, 0, 1, 3])):
                a.add(rf, mail.random_msg(r, voc, "old%d" % k))
    st.write_rc(mformat=fmt, mf=rf)
    a.write(**rand_plan(r))
    for step in range(tier_n(4, 8)):
        args = [mail.random_arg(r, voc, live)] if r.random() < .8 else [mail.Arg(None, [[{"neg": True, "kind": "exact", "word": "zzznosuch", "errors": 0, "anchor": False}]])]
        aug = r.random() < .3
        want = mail.evaluate(args, live)
        before = a.read_state()
        open(a.logp, "w").close()
        prior = prior_of(st, a, fmt, rf)
        rr = ctx.run(["-f", st.rc] + (["-a"] if aug else []) + [x.text() for x in args], variant=st.variant, ok=(0, 1))
        if (rr.rc == 0) != bool(want) or b"Matched %d message" % len(want) not in rr.out:
            ctx.violate("imap-count", "search reported %r, exit %d, for %d matches" % (rr.out[-80:], rr.rc, len(want)))
        check_source_untouched(ctx, a, before, rf, what="search %s" % args[0].text())
        check_delivery(ctx, st, a, fmt, rf, before, want, prior, aug, what="search %s into %s" % ([x.text() for x in args], fmt))
        ctx.count("evaluations")
        if any(m.store == "imap" for m in want):
            ctx.seen(fmt, aug, args[0].text(), len(want))
    # excerpts show the headers of the matches
    args = [mail.random_arg(r, voc, live)]
    want = mail.evaluate(args, live)
    rr = ctx.run(["-f", st.rc, "-x", args[0].text()], variant=st.variant, ok=(0, 1))
    blocks = [b for b in rr.out.decode("latin-1").split("---------------------------------\n") if b]
    heads = sorted(b.split("\n", 1)[0] for b in blocks)
    exp = sorted(m.path() if m.store != "mbox" else "mbox:%s [%d,%d)" % m.loc[1:] for m in want)
    if heads != exp:
        ctx.violate("imap-excerpt", "excerpt lists %d, expected %d" % (len(heads), len(exp)), heads=heads[:5], exp=exp[:5])
    for b in blocks:
        for m in want:
            if m.store == "imap" and b.startswith(m.path() + "\n"):
                if m.msgid and m.msgid not in b:
                    ctx.violate("imap-excerpt", "excerpt of %s lacks its Message-ID" % m.path(), block=b)
    ctx.count("evaluations")


def gone_case(ctx):
    """Matches expunged, folders renumbered or removed between indexing and searching: the rest is delivered, nothing wrong is."""
    r = ctx.rng
    st, a, voc, pool, loc = setup(ctx, r.randint(2, 3), r.choice([6, 15]), variant=r.choice(["plain", "asan"]))
    a.write(**rand_plan(r))
    st.index()
    live = a.live() + loc
    missing, oldloc = [], {id(m): m.loc for m in live}
    for _ in range(r.randint(1, 3)):
        names = [n for n in a.named if n in a.folders]
        if not names:
            break
        n = r.choice(names)
        f = a.folders[n]
        k = r.random()
        if k < .3 and f["msgs"]:
            missing.append(f["msgs"].pop(r.randrange(len(f["msgs"])))[2])
        elif k < .8:
            f["uidvalidity"] = a.renumber(f["uidvalidity"])
            r.shuffle(f["msgs"])
            f["msgs"] = [(i + 1, fl, m, d) for i, (u, fl, m, d) in enumerate(f["msgs"])]
            missing += [x[2] for x in f["msgs"]]
        else:
            missing += [x[2] for x in f["msgs"]]
            del a.folders[n]
    fmt = r.choice(["maildir", "mh", "mbox", "imap"])
    rf = r.choice(free_names(a)) if fmt == "imap" else None
    st.write_rc(mformat=fmt, mf=rf)
    a.write(**rand_plan(r))
    before = a.read_state()
    args = [mail.random_arg(r, voc, live)] if r.random() < .5 else [mail.Arg(None, [[{"neg": True, "kind": "exact", "word": "zzznosuch", "errors": 0, "anchor": False}]])]
    want = mail.evaluate(args, live)
    ctx.run(["-f", st.rc] + [x.text() for x in args], variant=st.variant, ok=(0, 1))
    check_source_untouched(ctx, a, before, rf, what="search after the account changed")
    gone = {id(m) for m in missing}
    check_delivery(ctx, st, a, fmt, rf, before, [m for m in want if id(m) not in gone], [] if fmt != "mbox" else b"", False, what="search after the account changed into %s" % fmt)
    ctx.run(["-f", st.rc, "-x"] + [x.text() for x in args], variant=st.variant, ok=(0, 1))
    ctx.count("evaluations")
    ctx.count("gone_matches", len([m for m in want if id(m) in gone]))


# ------------------------------------------------------------------ faults

FAULTS = ["no", "bad", "no-bare", "ok-only", "ok-empty", "tag-only", "bare-untagged", "one-word", "fetch-no-list", "fetch-nil", "sq", "unbalanced", "quote-open", "brace",
          "empty-line", "lf", "garbage", "wrong-tag", "old-tag", "plus", "caps-empty", "caps-list", "long-token", "eof", "eof-partial", "eof-literal", "eof-tag", "bye-eof",
          "huge-literal", "int-literal", "neg-literal", "garbage-eof", "die-after"]


def fault_case(kind, variant):
    def run(ctx):
        r = ctx.rng
        r.seed(ctx.seed * 1000003 + 17)       # the same account for every kind of fault
        st, a, voc, pool, loc = setup(ctx, 2, 5, variant=variant)
        a.named = list(a.folders)
        a.plan["greeting"] = "OK"
        a.plan["caps_in"] = False
        st.write_rc()
        a.write()
        st.index()
        ncmd = len([e for e in a.log() if "cmd" in e])
        live = a.live() + loc
        fresh_state = a.state()
        qs = queries(r, voc, live, pool, 3)
        os.rename(st.db, st.db + ".full")
        for k in range(ncmd + 1):
            if os.path.exists(st.db):
                os.unlink(st.db)
            a.write(faults={str(k): kind})
            before = a.read_state()
            rr = ctx.run(["-f", st.rc], variant=variant, ok=(0, 1, 2, 3, 7), timeout=100)
            what = "index with fault %s at command %d" % (kind, k)
            if not any(e.get("fault") for e in a.log()):
                continue
            check_source_untouched(ctx, a, before, what=what)
            # what is there to be found is right
            if os.path.exists(st.db):
                for args in qs + [[mail.Arg("s", [[{"neg": True, "kind": "exact", "word": r.choice(sorted(m.tokens()["subject"]) or ["zz"]), "errors": 0, "anchor": False}]])] for m in live[:2]]:
                    got = st.search([x.text() for x in args])
                    ok = {m.key() for m in mail.evaluate(args, live)}
                    if not set(got) <= ok:
                        ctx.violate("imap-fault-wrong", "after %s a search returns what does not match" % what, argv=[x.text() for x in args], extra=str(sorted(set(got) - ok)[:3]),
                                    err=rr.err[-2000:].decode("latin-1"))
                    lost = [m.key() for m in mail.evaluate(args, loc) if m.key() not in got]
                    if lost:
                        ctx.violate("imap-fault-local", "after %s local mail is not found" % what, lost=str(lost[:3]))
                    ctx.count("evaluations")
            elif rr.rc == 0:
                ctx.violate("imap-fault-nodb", "%s: exit 0 but no database although there is local mail" % what)
            ctx.seen(kind, k, rr.rc)
            # and the next run, with the server back, puts everything right
            a.write()
            st.index()
            for args in qs:
                argv = [x.text() for x in args]
                try:
                    compare(ctx, st, argv, st.search(argv), mail.evaluate(args, live), what="imap-after-fault", universe=live)
                except core.Violation as v:
                    v.msg += " (after %s)" % what
                    raise
                ctx.count("evaluations")
            compare(ctx, st, ["~zzznosuchword"], st.search(["~zzznosuchword"]), live, what="imap-after-fault", universe=live)
            ctx.count("index_faults")
        # searching with faults: what is delivered is right, what the fault does not touch is delivered
        if os.path.exists(st.db):
            os.unlink(st.db)
        os.rename(st.db + ".full", st.db)
        rf = "Results"
        for fmt in ("maildir", "imap", "mbox", "excerpt"):
            k = -1
            while True:
                k += 1
                for p in (st.mfolder,):
                    if os.path.isdir(p):
                        shutil.rmtree(p)
                    elif os.path.exists(p):
                        os.unlink(p)
                st.write_rc(mformat=fmt, mf=rf if fmt == "imap" else None)
                a.write(faults={str(k): kind})
                s = imapd.load(a.statep)
                s[b"Results"] = {"uidvalidity": "77", "uidnext": 2, "msgs": [{"uid": 1, "flags": set(), "data": b"Subject: old\r\n\r\nold\r\n"}]}
                imapd.save(a.statep, s)
                before = a.read_state()
                rr = ctx.run(["-f", st.rc, "~zzznosuch"], variant=variant, ok=(0, 1, 2, 3, 7), timeout=100)
                if not any(e.get("fault") for e in a.log()):
                    break
                what = "search into %s with fault %s at command %d" % (fmt, kind, k)
                check_source_untouched(ctx, a, before, rf if fmt == "imap" else None, what=what)
                single = kind in ("no", "bad", "no-bare")
                cmds = [e for e in a.log() if "cmd" in e]
                fc = [e for e in cmds if e["n"] == k]
                isfetch = bool(fc) and fc[0]["cmd"] in ("UID", "APPEND")
                if fmt == "excerpt":
                    n = rr.out.decode("latin-1").count("---------------------------------\n")
                    if rr.rc in (0, 1) and n != len(live):
                        ctx.violate("imap-fault-excerpt", "%s lists %d of %d" % (what, n, len(live)))
                elif fmt == "imap":
                    st2 = a.read_state()[b"Results"]["msgs"]
                    old = [m for m in st2 if b"Subject: old" in m["data"]]
                    a_live = [m for m in live]
                    new = [m for m in st2 if b"Subject: old" not in m["data"]]
                    for m in new:
                        if not any(m["data"] == (x.imap if x.store == "imap" else body_of(x)) or x.store == "mbox" and m["data"] in copies(x) for x in a_live):
                            ctx.violate("imap-fault-alien", "%s put a message that is no match into the result folder" % what, data=m["data"][:200].decode("latin-1"))
                    if single and isfetch and len(new) != len(live) - 1:
                        ctx.violate("imap-fault-lost", "%s: %d of %d others delivered" % (what, len(new), len(live) - 1), log=a.log()[-20:])
                else:
                    if rr.rc in (0, 1) or True:
                        check_delivery(ctx, st, a, fmt, None, before, live, [] if fmt != "mbox" else b"", False,
                                       allowed_missing=live if not (single and isfetch) else [m for m in live if m.store == "imap" and m.path().split(":")[1] == fc[0]["args"][1]], what=what)
                ctx.count("evaluations")
                ctx.count("search_faults")
                ctx.seen(kind, fmt, k, rr.rc)
    return run


def login_case(ctx):
    """Refused logins and unsuitable servers: an error exit, no password where it must not go, the database as it was."""
    r = ctx.rng
    st, a, voc, pool, loc = setup(ctx, 1, 3)
    a.named = list(a.folders)
    st.write_rc()
    a.write()
    st.index()
    live = a.live() + loc
    db = open(st.db, "rb").read()
    for kind in ("wrong-password", "bye", "no-credentials", "no-command", "both"):
        a.plan = {"user": "me", "password": "secret", "seed": 1}
        st.extra_rc = []
        if kind == "wrong-password":
            st.write_rc()
            a.write(password="other")
        elif kind == "bye":
            st.write_rc()
            a.write(greeting="BYE")
        elif kind == "no-credentials":
            a.plan["nocred"] = True
            st.write_rc()
            a.write()
        elif kind == "no-command":
            st.write_rc()
            s = open(st.rc, encoding="latin-1").read()
            open(st.rc, "w").write(re.sub(r"imap_pipe=.*", "imap_pipe=exec /nonexistent/command 2>/dev/null", s))
        else:
            st.extra_rc = ["imap_server=127.0.0.1"]
            st.write_rc()
            a.write()
        rr = ctx.run(["-f", st.rc], ok=(2, 7))
        if open(st.db, "rb").read() != db:
            ctx.violate("imap-login-db", "an index run that could not log in (%s) changed the database" % kind)
        st.extra_rc = []
        st.write_rc(mformat="mbox")
        # local matches are still delivered, whatever the server says
        rr = ctx.run(["-f", st.rc, "-r", "~zzznosuch"], ok=(0,))
        ctx.count("evaluations", 2)
        ctx.seen(kind)


def tier(q, t):
    return range(tier_n(q, t))


cases = [("fault-%s" % k, fault_case(k, "asan")) for k in FAULTS]
cases += [("login%d" % i, login_case) for i in tier(2, 6)]
cases += [("mirror%03d" % i, mirror_case) for i in tier(70, 700)]
cases += [("hist%03d" % i, history_case) for i in tier(50, 500)]
cases += [("deliver%03d" % i, deliver_case) for i in tier(50, 500)]
cases += [("gone%03d" % i, gone_case) for i in tier(90, 600)]
core.main("C16", cases, variants=("plain", "asan"),
          rule="mairix talks through imap_pipe to a scripted IMAP server whose mailboxes the monitor knows: indexed set, searches, threads and deliveries are compared with that "
               "knowledge, every command the server receives is checked against the read-only contract, and a fault of every kind is injected at every command. "
               "Non-trivial: a query with IMAP results, a delivery with IMAP matches, or a fault at a distinct command; distinct by query or by fault kind, command and outcome.",
          assumptions=["server supports LITERAL+ and AUTH=PLAIN (mairix requires both)", "IMAP flags are not tracked by mairix: no claim about F: on IMAP mail",
                       "the result folder is not one of the indexed IMAP folders", "a server that stops answering without closing the connection is not part of the quick run"],
          min_evals=1000)
