"""C08: the result folder holds exactly the matches, faithfully, in every format."""
import os, re, stat, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, snap
from mx.common import *
from mx.history import History


def name_flags(p):
    b = os.path.basename(p)
    i = b.find(":2,")
    return "".join(sorted(set(b[i + 3:]) & set("FRS"))) if i >= 0 else ""


def msg_flags(m):
    return name_flags(m.path()) if m.loc[0] == "file" else "".join(sorted(set(m.flags) & set("FRS")))


def odd_render(ctx, m, rng):
    """Bodies that stress byte-exact copying: page-size multiples, trailing blank lines, binary, CRLF."""
    k = rng.choice(["page", "blank", "binary", "crlf", "long"])
    tail = {"blank": b"\n" * rng.randint(1, 3), "binary": bytes(rng.choice(b"\0\x01\xff\x80\x1a \r") for _ in range(40)) + b"\n",
            "crlf": b"a line\r\nanother\r\n", "long": b"x" * rng.choice([1023, 8192, 70000]) + b"\n"}.get(k, b"")
    m.odd = (tail, rng.choice([4096, 8192]) + rng.choice([-1, 0, 0, 1]) if k == "page" else 0)


def copy_ok(data, m):
    hdr = b"X-source-folder: " + m.path().encode("latin-1") + b"\n"
    if not data.startswith(hdr):
        return False
    d = data[len(hdr):]
    return d == m.bytes or (m.bytes.endswith(b"\n\n") and d == m.bytes[:-1])


def read_entries(d, mh):
    out = []
    subs = [""] if mh else ["new", "cur"]
    for s in subs:
        dd = os.path.join(d, s)
        for n in sorted(os.listdir(dd)):
            p = os.path.join(dd, n)
            st = os.lstat(p)
            if mh and not re.match(r"^[0-9]+$", n):
                continue
            if stat.S_ISDIR(st.st_mode):
                continue
            out.append((s, n, p, st))
    return out


def match_entry(ctx, e, by_path, mboxmsgs, hard, mh):
    """The match an entry stands for, or None."""
    s, n, p, st = e
    if stat.S_ISLNK(st.st_mode):
        m = by_path.get(os.path.realpath(p))
        if m is not None and os.path.exists(p):
            return m, "symlink"
        return None, "symlink to %s" % os.readlink(p)
    for q, m in by_path.items():
        try:
            if os.stat(q).st_ino == st.st_ino:
                return m, "hardlink"
        except OSError:
            pass
    with open(p, "rb") as f:
        data = f.read()
    fl = None if mh else name_flags(n)
    cands = [m for m in mboxmsgs if copy_ok(data, m)]
    if cands:
        for m in cands:
            if fl is None or msg_flags(m) == fl:
                return m, "copy"
        return cands[0], "copy"
    return None, "file %r..." % data[:120]


def assign(ctx, entries, live, hard, mh, st):
    by_path = {os.path.realpath(m.path()): m for m in live if m.loc[0] == "file"}
    mbox = [m for m in live if m.loc[0] == "mbox"]
    out = []
    used = set()
    for e in entries:
        m, how = match_entry(ctx, e, by_path, [x for x in mbox if id(x) not in used], hard, mh)
        if m is not None and m.loc[0] == "mbox":
            used.add(id(m))
        out.append((e, m, how))
    return out


def check_dir(ctx, st, args, mf, mh, hard, aug, before, live, want, sort):
    ents = read_entries(mf, mh)
    if aug:
        prev = {e[2]: e for e in before["entries"]}
        now = {e[2]: e for e in ents}
        for p, e in prev.items():
            if p not in now:
                ctx.violate("augment-lost", "%s removed the existing entry %s" % (args, p))
            if before["snap"].get(os.path.relpath(p, mf)) != snap.snap(mf).get(os.path.relpath(p, mf)):
                ctx.violate("augment-altered", "%s altered the existing entry %s" % (args, p),
                            was=str(before["snap"].get(os.path.relpath(p, mf))), now=str(snap.snap(mf).get(os.path.relpath(p, mf))))
        new = [e for e in ents if e[2] not in prev]
        olda = assign(ctx, [e for e in ents if e[2] in prev], live, hard, mh, st)
        newa = assign(ctx, new, want, hard, mh, st)
        covered = set(id(m) for _, m, _ in olda if m is not None)
    else:
        olda, newa, covered = [], assign(ctx, ents, want, hard, mh, st), set()
    seen = set()
    for e, m, how in newa:
        if m is None:
            ctx.violate("alien-entry", "%s put an entry that is not a match into the result folder: %s (%s)" % (args, e[2], how), rc=open(st.rc, encoding="latin-1").read())
        if id(m) in seen:
            ctx.violate("duplicate-entry", "%s delivered %s twice" % (args, m.loc), entry=e[2])
        seen.add(id(m))
        if m.loc[0] == "file":
            if how != ("hardlink" if hard else "symlink"):
                ctx.violate("link-kind", "%s: entry %s is a %s" % (args, e[2], how))
        elif how != "copy":
            ctx.violate("link-kind", "%s: entry %s of an mbox message is a %s" % (args, e[2], how))
        if not mh:
            if name_flags(e[1]) != msg_flags(m):
                ctx.violate("flags", "%s: flags %r of %s arrived as %r in %s" % (args, msg_flags(m), m.loc, name_flags(e[1]), e[1]))
            isnew = os.path.basename(os.path.dirname(m.path())) == "new" if m.loc[0] == "file" else "S" not in msg_flags(m)
            if (e[0] == "new") != isnew:
                ctx.violate("new-cur", "%s: %s message delivered into %s" % (args, "new" if isnew else "read", e[0]), loc=str(m.loc))
    for m in want:
        if id(m) not in seen and id(m) not in covered:
            ctx.violate("missing-entry", "%s did not deliver %s" % (args, m.loc), entries=[x[0][2] + " " + x[2] for x in newa][:20], rc=open(st.rc, encoding="latin-1").read())
    if mh and not aug:
        nums = sorted(int(e[1]) for e in ents)
        if nums != list(range(1, len(want) + 1)):
            ctx.violate("mh-numbers", "%s numbered its %d results %s" % (args, len(want), nums[:10]))
    if mh and sort:
        seq = [m for e, m, _ in sorted(newa, key=lambda t: int(t[0][1]))]
        in_order(ctx, args, seq)
    ctx.count("entries_checked", len(newa))


def in_order(ctx, args, seq):
    ds = [m.date for m in seq if m.date]
    for a, b in zip(ds, ds[1:]):
        if a > b:
            ctx.violate("order", "%s with sort=date delivered %s before %s" % (args, a, b))
    ctx.count("sorted_sequences")


def check_mbox(ctx, st, args, mf, aug, before, want, sort):
    data = open(mf, "rb").read() if os.path.exists(mf) else b""
    if aug:
        if not data.startswith(before["bytes"]):
            ctx.violate("augment-altered", "%s changed what was already in the result mbox" % args)
        data = data[len(before["bytes"]):]
    rest = list(want)
    seq = []
    pos = 0
    while pos < len(data):
        e = data.find(b"\n", pos)
        if not data.startswith(b"From ", pos) or e < 0:
            ctx.violate("mbox-separator", "%s: no separator at offset %d of the result mbox: %r" % (args, pos, data[pos:pos + 80]), done=len(seq))
        pos = e + 1
        best = None
        for m in rest:
            body = m.bytes if m.loc[0] == "mbox" else open(m.path(), "rb").read()
            term = b"" if body.endswith(b"\n\n") else b"\n" if body.endswith(b"\n") else b"\n\n"
            chunk = b"X-source-folder: " + m.path().encode("latin-1") + b"\n" + body + term
            if data.startswith(chunk, pos) and (pos + len(chunk) == len(data) or data.startswith(b"From ", pos + len(chunk))):
                best = (m, chunk)
                break
        if best is None:
            ctx.violate("mbox-entry", "%s: entry at offset %d of the result mbox is no byte-exact copy of a match: %r" % (args, pos, data[pos:pos + 200]), rc=open(st.rc, encoding="latin-1").read())
        rest = [m for m in rest if m is not best[0]]
        seq.append(best[0])
        pos += len(best[1])
    if rest:
        ctx.violate("missing-entry", "%s did not deliver %s into the mbox" % (args, rest[0].loc))
    if sort:
        in_order(ctx, args, seq)
    ctx.count("entries_checked", len(seq))


def check_excerpt(ctx, out, args, want, sort):
    blocks = out.split(b"---------------------------------\n")
    if blocks[0]:
        ctx.violate("excerpt", "excerpt output starts with %r" % blocks[0][:80])
    seq = []
    by = {}
    for m in want:
        k = m.path() if m.loc[0] == "file" else "mbox:%s [%d,%d)" % m.loc[1:]
        by[k] = m
    for b in blocks[1:]:
        head, _, rest = b.partition(b"\n")
        m = by.pop(head.decode("latin-1"), None)
        if m is None:
            ctx.violate("excerpt", "%s -x lists %r, which is not a match (or twice)" % (args, head))
        seq.append(m)
        t = rest.decode("latin-1")
        exp = [("  Subject:    ", m.subject), ("  From:       ", m.frm), ("  Message-ID: ", m.msgid and m.msgid)]
        for h, v in exp[:2]:
            if v and (h + " ".join(v.split())) not in [" ".join(l.split()) if False else h + " ".join(l[len(h):].split()) for l in t.split("\n") if l.startswith(h)]:
                ctx.violate("excerpt-header", "%s -x shows for %s no line %r" % (args, m.loc, h + v), block=t[:600])
        if m.msgid and m.msgid.lower() not in t.lower():
            ctx.violate("excerpt-header", "%s -x shows for %s no Message-ID %r" % (args, m.loc, m.msgid), block=t[:600])
        if m.date and m.date.strftime("%d %b %Y") not in t:
            ctx.violate("excerpt-header", "%s -x shows for %s not the date %s" % (args, m.loc, m.date), block=t[:600])
    if by:
        ctx.violate("excerpt", "%s -x does not list %s" % (args, sorted(by)[:3]))
    if sort:
        in_order(ctx, args, seq)


QUERIES = ["~zzznosuch", "b:a=", "s:e=1", "F:s", "F:-s", "z:600-", "d:2005-", "p:box", "p:md", "zzznosuch"]


def case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, 30)
    st = mail.Store(ctx)
    h = History(ctx, st, voc)
    orig_new = h.new_msg

    def new_msg():
        m = orig_new()
        if r.random() < .25:
            odd_render(ctx, m, r)
        return m
    h.new_msg = new_msg
    inbase = r.random() < .4
    mfs = {f: os.path.join(st.mail if inbase else st.root, "mf_" + f) for f in ("maildir", "mh", "mbox")}
    for _ in range(r.choice([2, 6, 15, 30])):
        h.step([("op_add_file", 3), ("op_new_box", 1)])
    # an mbox whose last message ends without newline
    tb = [h.new_msg(), h.new_msg()]
    h.put_box("tailbox", {"msgs": tb, "comp": None, "mmdf": False})
    p, m = os.path.join(st.mail, "tailbox"), tb[1]
    d = open(p, "rb").read()
    if r.random() < .7 and b"\n\n" in m.bytes[:-2]:    # (a file that ends within a header is no message)
        cut = r.choice([1, 2])
        st.write(p, d[:-cut])
        m.bytes, m.size, m.loc = m.bytes[:-cut], m.size - cut, m.loc[:3] + (m.loc[3] - cut,)
    h.boxes.pop("tailbox")
    base_live = h.live
    h.live = lambda: base_live() + tb
    state = {}
    for rnd in range(tier_n(3, 6)):
        if rnd:
            for _ in range(r.choice([1, 3, 6])):
                h.step([o for o in History.OPS if o[0] not in ("op_drop_folder", "op_restore_folder")])
        st.extra_rc = []
        h.index(*(["-p"] if r.random() < .5 else []))
        for _ in range(tier_n(8, 12)):
            fmt = r.choice(["maildir", "mh", "mbox"])
            sort = r.random() < .4
            st.extra_rc = ["sort=date+"] if sort else []
            st.mfolder = mfs[fmt]
            h.write_rc(mformat=fmt)
            q = [r.choice(QUERIES)] if r.random() < .6 else [mail.random_arg(r, voc, h.live(), allow_path=False).text()]
            if r.random() < .2:
                q.append("F:-s" if r.random() < .5 else "b:a=")
            thr = ["-t"] if r.random() < .25 else []
            state[fmt] = state_of(mfs[fmt])
            locs = st.search(q, ("-r", *thr))
            if state[fmt] != state_of(mfs[fmt]):
                ctx.violate("raw-touched", "a raw search changed the result folder")
            bykey = {x.key(): x for x in h.live()}
            try:
                want = [bykey[l] for l in locs]
            except KeyError as ex:
                ctx.violate("raw-unknown", "raw output lists %s, which is not there" % (ex.args[0],), history=h.log[-20:])
            if sort:
                in_order(ctx, q, want)
            kind = r.choice(["folder", "folder", "folder", "excerpt"])
            if kind == "excerpt":
                res = ctx.run(["-f", st.rc, "-x", *thr, *q], ok=(0, 1))
                check_excerpt(ctx, res.out, q, want, sort)
                if (res.rc == 0) != bool(want):
                    ctx.violate("exit", "-x %s exits %d with %d matches" % (q, res.rc, len(want)))
                if state.get(fmt) != state_of(mfs[fmt]):
                    ctx.violate("excerpt-touched", "an excerpt search changed the result folder")
                ctx.count("evaluations")
                ctx.seen("x", tuple(q), len(want))
                continue
            aug = r.random() < .4
            hard = r.random() < .25
            if aug and os.path.isdir(mfs[fmt]) and r.random() < .3:
                # something of the user's own is in the way
                dd = mfs[fmt] if fmt == "mh" else os.path.join(mfs[fmt], r.choice(["new", "cur"]))
                n = str(r.randint(1, 12)) if fmt == "mh" else "123456789.%d.mairix%s" % (r.randint(0, 40), r.choice(["", ":2,S", ":2,F"]))
                if not os.path.lexists(os.path.join(dd, n)):
                    with open(os.path.join(dd, n), "w") as f:
                        f.write("Subject: mine\n\nkeep me\n")
            if os.path.isdir(mfs[fmt]) and r.random() < .2:
                with open(os.path.join(mfs[fmt], ".mh_sequences" if fmt == "mh" else "tmp/keepme"), "w") as f:
                    f.write("cur: 1\n")
            before = {}
            if fmt == "mbox":
                before["bytes"] = open(mfs[fmt], "rb").read() if os.path.exists(mfs[fmt]) else b""
            elif os.path.isdir(mfs[fmt]):
                before["entries"] = read_entries(mfs[fmt], fmt == "mh")
                before["snap"] = snap.snap(mfs[fmt])
            else:
                before["entries"], before["snap"] = [], {}
            a = ["-f", st.rc] + thr + (["-a"] if aug else []) + (["-H"] if hard else []) + q
            res = ctx.run(a, ok=(0, 1))
            mm = re.findall(rb"Matched (\d+) messages", res.out)
            if len(mm) != 1 or int(mm[0]) != len(want):
                ctx.violate("count", "%s reports %r for %d matches" % (a, res.out[-200:], len(want)))
            if (res.rc == 0) != bool(want):
                ctx.violate("exit", "%s exits %d with %d matches" % (a, res.rc, len(want)))
            try:
                if fmt == "mbox":
                    check_mbox(ctx, st, a, mfs[fmt], aug, before, want, sort)
                else:
                    check_dir(ctx, st, a, mfs[fmt], fmt == "mh", hard, aug, before, h.live(), want, sort)
                    for k in (".mh_sequences", "tmp/keepme"):
                        if k in before["snap"] and snap.snap(mfs[fmt]).get(k) != before["snap"][k]:
                            ctx.violate("bystander", "%s changed %s" % (a, k))
            except core.Violation as v:
                v.detail["history"] = h.log[-30:]
                raise
            ctx.count("evaluations")
            if want:
                ctx.seen(fmt, aug, hard, sort, tuple(q), len(want), rnd)
                ctx.count("deliveries:%s%s%s" % (fmt, "+a" if aug else "", "+H" if hard else ""))
    ctx.sample({"history": h.log[-6:], "last": [str(x) for x in q], "matches": len(want)}, 1)


def state_of(p):
    if os.path.isdir(p):
        return snap.snap(p)
    if os.path.exists(p):
        return open(p, "rb").read()
    return None


cases = [("d%03d" % i, case) for i in range(tier_n(220, 1500))]
if __name__ == "__main__":
    core.main("C08", cases, rule="Sequences of searches (maildir, MH, mbox results; -a, -H, -t, sort=date; raw and excerpt) over changing and purged stores; after each the result "
              "folder is read back and every entry matched against the messages the raw search listed: link target or byte-exact copy, flags, count, order, "
              "what must survive. Non-trivial: distinct (format, options, query, match count).",
              assumptions=["the messages are still where they were indexed"], min_evals=2000)
