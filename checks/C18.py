"""C18: one unreadable, malformed or vanishing message, folder or mbox never costs the others, and is picked up once readable."""
import errno, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, snap, hostile, mboxgen
from mx.common import *
from mx.history import History
from mx.dbfile import Db
from mx.folders import MARKERS

ERRS = {"open": [errno.EACCES, errno.EIO, errno.ENOENT, errno.EMFILE], "stat": [errno.EACCES, errno.ENOENT, errno.EIO, errno.ELOOP], "lstat": [errno.EACCES, errno.ENOENT],
        "opendir": [errno.EACCES, errno.ENOENT, errno.EMFILE, errno.ENOTDIR], "mmap": [errno.ENOMEM, errno.EACCES, errno.ENODEV], "zopen": [errno.EACCES, errno.ENOENT, errno.ENOMEM],
        "tmpfile": [errno.EACCES, errno.ENOSPC, errno.EMFILE]}
PACKED = (".gz", ".bz2", ".xz")


def live_of(path):
    return Db(path).live()[0] if os.path.exists(path) else {}


def affected(loc, p):
    """Is the message stored in, or below, the path that failed?"""
    d, b = os.path.split(p.rstrip("/"))
    if b in MARKERS or b in ("cur", "new", "tmp"):
        p = d                          # what tells that the directory is a folder at all
    return loc[1] == p or loc[1].startswith(p.rstrip("/") + "/")


def index(ctx, st, env=None, *flags):
    return ctx.run(["-f", st.rc] + list(flags), env=env)


def fresh(ctx, st, name):
    p = st.db + "." + name
    if os.path.exists(p):
        os.unlink(p)
    ctx.run(["-f", st.rc], env={"MAIRIX_DATABASE": p}, ok=(0,))
    out = live_of(p)
    if os.path.exists(p):
        os.unlink(p)
    return out


def check_others(ctx, got, want, hit, what, r, det, before=None):
    """Messages the failure does not concern are exactly as they should be; the others are right, as they were before the run, or absent."""
    for k, rec in want.items():
        if not hit(k):
            if got.get(k) != rec:
                ctx.violate("cost-others", "%s: %s is %s" % (what, k, "not indexed" if k not in got else "indexed differently"), run=r.brief(), **det)
        elif k in got and got[k] != rec and (before or {}).get(k) != got[k]:
            ctx.violate("half-read", "%s: the message concerned, %s, is recorded with the wrong content" % (what, k), run=r.brief(), **det)
    for k in got:
        if k not in want and not hit(k):
            ctx.violate("cost-others", "%s: %s is in the database but not on disk" % (what, k), run=r.brief(), **det)


def fault_case(ctx):
    """Every read-side call of an indexing run fails once (or from then on), with the run before and the run after watched."""
    r = ctx.rng
    voc = mail.Vocab(r, r.choice([15, 40]))
    st = mail.Store(ctx)
    h = History(ctx, st, voc)
    for _ in range(r.choice([3, 6, 12])):
        h.step([("op_add_file", 3), ("op_new_box", 2)])
    st_kind = r.choice(["first", "later", "later"])
    if st_kind == "later":
        h.index()
        for _ in range(r.choice([1, 3, 8])):
            h.step()
    if not h.configured():
        h.dropped.clear()
    h.write_rc()
    want = fresh(ctx, st, "fresh")
    if not want:
        return
    start = open(st.db, "rb").read() if os.path.exists(st.db) else None
    before = live_of(st.db)
    log = os.path.join(ctx.root, "log")

    def reset():
        if start is None:
            if os.path.exists(st.db):
                os.unlink(st.db)
        else:
            with open(st.db, "wb") as f:
                f.write(start)
    rr = index(ctx, st, snap.env(log))
    if rr.rc or live_of(st.db) != want:
        ctx.violate("baseline", "indexing without any fault does not give what is on disk", run=rr.brief())
    evs, nth = [], {}
    for e in snap.read_log(log):
        if e.op in ERRS and e.res >= 0 and (e.op == "tmpfile" or e.p1.startswith(st.mail)):
            k = (e.op, e.p1)
            nth[k] = nth.get(k, 0) + 1
            evs.append((e.op, e.p1, nth[k]))
    if not evs:
        ctx.violate("no-events", "the indexer read nothing that the monitor can see")
    ctx.count("read_calls_seen", len(evs))
    plan = [(x, "once") for x in evs] + [((op, p, 0), "always") for op, p in sorted(nth)]
    plan += [(x, "vanish") for x in evs if x[0] != "tmpfile" and os.path.isfile(x[1]) and x[0] in ("stat", "lstat", "open", "zopen")]
    n = tier_n(45, 400)
    if len(plan) > n:
        plan = r.sample(plan, n)
    for (op, p, k), how in plan:
        reset()
        det = {"history": h.log[-15:], "fault": [op, p, k, how], "rc": open(st.rc, encoding="latin-1").read()}
        what = "%s of %s failing (%s %d)" % (op, p[len(st.mail):], how, k)
        hit = (lambda loc: loc[0] == "mbox" and loc[1].endswith(PACKED)) if op == "tmpfile" else (lambda loc: affected(loc, p))
        if how == "vanish":
            s = os.stat(p)
            data = open(p, "rb").read()
            act = "%s:%s:%d:U%s" % (op, p, k, p)
        else:
            act = "%s:%s:%d:E%d" % (op, p, k, r.choice(ERRS[op]))
        # the rule matches substrings: another path that merely starts like this one is concerned too
        twins = [q for o, q in nth if o == op and p in q and q != p]
        if twins and op != "tmpfile":
            base = hit
            hit = lambda loc, base=base, twins=twins: base(loc) or any(affected(loc, q) for q in twins)
            if how == "vanish":
                continue
        rr = index(ctx, st, snap.env(os.path.join(ctx.root, "log2"), act))
        ctx.count("evaluations")
        ctx.count("faults:" + op)
        ctx.seen(op, how, os.path.basename(p)[:3], p.endswith(PACKED), min(k, 4), st_kind)
        if rr.rc != 0:
            ctx.violate("run-aborted", "%s ends the run with status %d" % (what, rr.rc), run=rr.brief(), **det)
        check_others(ctx, live_of(st.db), want, hit, what, rr, det, before)
        if how == "vanish":
            rr = index(ctx, st)
            if not os.path.exists(p):
                check_others(ctx, live_of(st.db), {x: v for x, v in want.items() if not affected(x, p)}, lambda loc: False, what + ", run after it", rr, det)
                with open(p, "wb") as f:
                    f.write(data)
                os.utime(p, ns=(s.st_mtime_ns, s.st_mtime_ns))
        rr = index(ctx, st, None, *r.choice([[], [], ["-p"]]))
        got = live_of(st.db)
        if rr.rc or got != want:
            miss = [k2 for k2 in want if got.get(k2) != want[k2]]
            ctx.violate("not-recovered", "%s: the next run, with everything readable, leaves %d messages missing or wrong, %d extra"
                        % (what, len(miss), len(set(got) - set(want))), wrong=[str(x) for x in miss[:4]], run=rr.brief(), **det)
    ctx.sample({"events": len(evs), "faults": len(plan), "messages": len(want)}, 1)


BAD = [lambda r: b"", lambda r: b"\n", lambda r: b"\n\nno header at all\n", lambda r: b"just text\nwithout any header\n", lambda r: b"Subject: cut", lambda r: b"Subject: x\nTo: y\n",
       lambda r: b"\0" * r.choice([1, 100, 5000]), lambda r: bytes(r.randrange(256) for _ in range(400)), lambda r: b"Subject: " + b"q" * 70000 + b"\n\nx\n",
       lambda r: b"From: a\nContent-Type: multipart/mixed; boundary=never%d\n\n--never%d\n\ntext\n" % (r.randrange(99), r.randrange(99)),
       lambda r: b"Content-Type: multipart/mixed\n\nno boundary\n", lambda r: b"Content-Type: text/plain\nContent-Transfer-Encoding: base64\n\n!!!!====\n",
       lambda r: b": nothing\n:\n\n:\n", lambda r: b" folded first line\n\n", lambda r: b"Date: nonsense\nMessage-ID: none\nReferences: <\n\n", lambda r: b"Content-Type: message/rfc822\n\n",
       lambda r: b"Subject: =?utf-8?q?=?=\n\n=\n", lambda r: b"Subject x\n\nbody\n"]


def bad_case(ctx):
    """Malformed messages, files that are no mail, broken compressed mboxes and odd directory entries beside good mail."""
    r = ctx.rng
    voc = mail.Vocab(r, r.choice([15, 40]))
    st = mail.Store(ctx, variant=ctx.variant)
    good = fill_store(ctx, st, r.choice([4, 12, 25]), voc)
    for f in ("md0", "mh0"):
        if f not in st.maildirs + st.mhs:
            (st.add_maildir_msg if f == "md0" else st.add_mh_msg)(f, mail.random_msg(r, voc, "extra" + f))
            good = [m for m in good] + [None]
    good = [m for m in good if m]
    M = st.mail
    bad, repl = [], 0

    def bad_bytes():
        return r.choice(BAD)(r) if r.random() < .7 else hostile.hostile_message(r)
    for i in range(r.choice([1, 3, 8])):
        k = r.random()
        if k < .5:
            p = M + ("/md0/%s/13%07d.bad%d.h%s" % (r.choice(["cur", "new"]), r.randint(0, 9999999), i, r.choice(["", ":2,S"])) if r.random() < .5 else "/mh0/%d" % (9000 + i))
            st.write(p, bad_bytes())
            bad.append(p)
        elif k < .6:
            p = M + "/mh0/%d" % (8000 + i)
            os.makedirs(p)
        elif k < .7:
            p = M + r.choice(["/md0/cur/dang%d" % i, "/mh0/%d" % (7000 + i)])
            os.symlink("/nonexistent/%d" % i, p)
        else:
            c = r.choice([None, "gz", "bz2", "xz"])
            b = mboxgen.Box(r)
            for _ in range(r.randint(1, 3)):
                b.add(mail.random_msg(r, voc, "b").render())
            d = mboxgen.compress(b.bytes(), c)
            n = "bad%d%s" % (i, "." + c if c else "")
            if c:
                d = r.choice([d[:r.randrange(len(d))], b"", b"not compressed at all\n" * 9, d[:4] + bytes(r.randrange(256) for _ in range(30)) + d[34:], b"\0" * 50])
            else:
                d = r.choice([b"", b"no mail\n" * 50, b"\0" * 300, b"From here nothing\n\n", b"\1\1\1\1\n", b"\1\1\1\1\nFrom x\n"])
            st.write(M + "/" + n, d)
            st.mboxes[n] = []
            bad.append(M + "/" + n)
    # malformed messages amid good ones in one mbox
    for j in range(r.choice([0, 1, 2])):
        out, pos, gm = [], 0, []
        for i in range(r.randint(2, 8)):
            sep = b"From sender@host.example Mon Jan  3 10:%02d:%02d 2011\n" % (i, i)
            if r.random() < .4:
                x = r.choice(BAD)(r)
                while b"\nFrom " in x or x.startswith(b"From "):
                    x = b"x\n"
                if not x.endswith(b"\n"):
                    x += b"\n"
                out += [sep, x, b"\n"]
                pos += len(sep) + len(x) + 1
            else:
                m = mail.random_msg(r, voc, "g%d_%d" % (j, i))
                d = m.render(mbox_flags=True) + b"\n"
                m.loc, m.size, m.store = ("mbox", M + "/mix%d" % j, pos + len(sep), pos + len(sep) + len(d)), len(d), "mbox"
                out += [sep, d]
                pos += len(sep) + len(d)
                gm.append(m)
        st.write(M + "/mix%d" % j, b"".join(out))
        st.mboxes["mix%d" % j] = []
        good += gm
    if r.random() < .3:
        st.maildirs.append("missing_md")
        st.mhs.append("missing_mh")
        st.mboxes["missing_box"] = []
    sv = (st.maildirs, st.mhs, st.mboxes)
    wild = r.random() < .5
    if wild:            # folders found by pattern, with entries among them that are no folders and cannot even be examined
        st.maildirs = sorted({n[:2] + "*" for n in st.maildirs})
        st.mhs = sorted({n[:2] + "*" for n in st.mhs})
        st.mboxes = {n[:2] + "*": [] for n in st.mboxes}
        for n in list(st.maildirs) + list(st.mhs) + list(st.mboxes):
            for i in range(r.choice([0, 1, 2, 4])):
                p = M + "/" + n[:2] + r.choice(["", "0", "zz", "-"]) + "odd%d" % i
                if not os.path.lexists(p):
                    r.choice([lambda: os.symlink("/nonexistent", p), lambda: os.symlink(os.path.basename(p), p), lambda: os.mkfifo(p), lambda: os.makedirs(p + "/x"), lambda: os.symlink("/dev/null", p)])()
                    ctx.count("odd_entries_beside_folders")
    st.write_rc()
    st.maildirs, st.mhs, st.mboxes = sv
    gk = {m.key() for m in good}
    for rnd in range(2):
        st.index(*r.choice([[], [], ["-p"], ["-F"]]))
        for _ in range(4):
            args = [mail.random_arg(r, voc, good) for _ in range(r.choice([1, 1, 2]))]
            argv = [a.text() for a in args]
            got = [g for g in st.search(argv) if g in gk]
            compare(ctx, st, argv, got, mail.evaluate(args, good), what="search-beside-bad", universe=good)
            ctx.count("evaluations")
            ctx.seen(tuple(argv), len(got))
        got = [g for g in st.search(["~zzznosuchword"]) if g in gk]
        compare(ctx, st, ["all"], got, good, what="all-beside-bad", universe=good)
        ctx.count("evaluations")
        ctx.count("bad_entries", len(bad))
    # what was bad becomes good
    for p in bad:
        if "/md0/" in p or "/mh0/" in p:
            m = mail.random_msg(r, voc, "fix%d" % len(good))
            d = m.render()
            if os.path.exists(p):
                d0 = os.stat(p).st_size
            st.write(p, d)
            m.loc, m.size, m.store, m.flags = ("file", p), len(d), "maildir", "S" if p.endswith(":2,S") else ""
            good.append(m)
        else:
            n = p[len(M) + 1:]
            ms = [mail.random_msg(r, voc, "fixb%d_%d" % (len(good), i)) for i in range(2)]
            st.write_mbox(n, ms, comp=n.rsplit(".", 1)[1] if n.endswith(PACKED) else None)
            good += ms
    st.index()
    gk = {m.key() for m in good}
    for _ in range(3):
        args = [mail.random_arg(r, voc, good)]
        argv = [a.text() for a in args]
        compare(ctx, st, argv, [g for g in st.search(argv) if g in gk], mail.evaluate(args, good), what="search-after-repair", universe=good)
        ctx.count("evaluations")
    compare(ctx, st, ["all"], [g for g in st.search(["~zzznosuchword"]) if g in gk], good, what="all-after-repair", universe=good)
    ctx.count("repaired", len(bad))


def search_case(ctx):
    """Matches vanish or become unreadable between indexing and searching: the rest is delivered."""
    r = ctx.rng
    voc = mail.Vocab(r, 15)
    st = mail.Store(ctx)
    msgs = fill_store(ctx, st, r.choice([4, 10, 25]), voc)
    log = os.path.join(ctx.root, "log")
    st.write_rc()
    st.index()
    paths = sorted({m.path() for m in msgs})
    for rep in range(tier_n(6, 20)):
        fmt = r.choice(["maildir", "mh", "mbox", "maildir", "mbox", "excerpt"])
        st.write_rc(mformat=fmt)
        args = [mail.random_arg(r, voc, msgs)] if r.random() < .7 else []
        argv = [a.text() for a in args] or ["~zzznosuchword"]
        want = mail.evaluate(args, msgs) if args else list(msgs)
        gone = r.sample(paths, min(len(paths), r.choice([1, 2, 4])))
        how = r.choice(["remove", "remove", "fault"])
        saved, env = [], None
        if how == "remove":
            for p in gone:
                saved.append((p, open(p, "rb").read(), os.stat(p).st_mtime_ns))
                os.unlink(p)
        else:
            op = r.choice(["open", "stat", "mmap", "zopen"])
            gone = gone[:1]
            env = snap.env(log, "%s:%s:%d:E%d" % (op, gone[0], r.choice([0, 0, 1]), r.choice(ERRS[op])))
            gone = [q for q in paths if gone[0] in q]
        if os.path.isdir(st.mfolder):
            shutil.rmtree(st.mfolder)
        elif os.path.exists(st.mfolder):
            os.unlink(st.mfolder)
        res = ctx.run(["-f", st.rc] + argv, env=env)
        for p, d, t in saved:
            with open(p, "wb") as f:
                f.write(d)
            os.utime(p, ns=(t, t))
        ctx.count("evaluations")
        det = {"argv": argv, "gone": gone, "how": how, "env": str(env), "format": fmt}
        rest = [m for m in want if m.path() not in gone]
        if want and res.rc not in (0, 1) or rest and res.rc != 0:
            ctx.violate("search-aborted", "a search with %d of %d matches out of reach ends with %d" % (len(want) - len(rest), len(want), res.rc), run=res.brief(), **det)
        if fmt == "excerpt":
            for m in rest:
                name = m.path() if m.store != "mbox" else "mbox:%s [%d,%d)" % m.loc[1:]
                if name.encode("latin-1") not in res.out:
                    ctx.violate("search-lost", "%s is missing from the excerpts" % name, run=res.brief(), **det)
            continue
        ents = []
        if fmt == "mbox":
            data = open(st.mfolder, "rb").read() if os.path.exists(st.mfolder) else b""
            ents = [data]
        else:
            for d, ds, fs in os.walk(st.mfolder):
                for x in fs:
                    p = os.path.join(d, x)
                    if os.path.exists(p):
                        with open(p, "rb") as f:
                            ents.append(f.read())
        need = {}
        for m in rest:
            b = m.bytes if m.store == "mbox" else m.render()
            b = b.rstrip(b"\n")
            need[b] = need.get(b, 0) + 1
        for b, n in need.items():
            have = sum(e.count(b) for e in ents) if fmt == "mbox" else sum(b in e for e in ents)
            if have < n:
                ctx.violate("search-lost", "a match that is in reach was not delivered", message=b[:400].decode("latin-1"), run=res.brief(), **det)
        ctx.count("delivered_beside_lost", len(rest))
        ctx.seen(fmt, how, len(rest), len(want))


def with_variant(fn, v):
    def f(ctx):
        ctx.variant = v
        fn(ctx)
    return f


if __name__ == "__main__":
    cases = [("f%03d" % i, fault_case) for i in range(tier_n(90, 500))]
    cases += [("b%03d" % i, with_variant(bad_case, "asan" if i % 8 == 0 else "plain")) for i in range(tier_n(200, 2000))]
    cases += [("s%03d" % i, search_case) for i in range(tier_n(150, 1500))]
    core.main("C18", cases, variants=("plain", "asan"), level="fault_enumeration",
              rule="f: every read-side call (stat, lstat, open, mmap, gz/bz2 open, opendir, tmpfile) on the mail of a recorded run is made to fail once, or always, or has its file removed "
                   "just before; afterwards the decoded database must hold every message not concerned exactly as a clean fresh index does, and the following run must restore the rest. "
                   "b: malformed mail beside good. s: matches that are gone at search time. Distinct: (call, failure mode, kind of file, position).",
              assumptions=["the file a failing call names is the one that fails; a temporary file that cannot be made concerns the compressed mboxes",
                           "no file is truncated while it is being read (that raises SIGBUS in any program that maps files)"], min_evals=800)
