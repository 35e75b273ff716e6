"""C19: a run that cannot do its work says so and leaves the database intact; it never passes for complete."""
import errno, os, resource, shutil, signal, stat, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mx import core, mail, snap
from mx.common import *
from mx.history import History
from mx.dbfile import Db
import C08

READS = ("open", "zopen", "stat", "lstat", "opendir", "mmap", "tmpfile")
SIGNALS = [signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGKILL]


def live_of(path):
    return Db(path).live()[0] if os.path.exists(path) else {}


def content(p):
    return open(p, "rb").read() if os.path.exists(p) else None


def put(p, data):
    if data is None:
        if os.path.exists(p):
            os.unlink(p)
    else:
        with open(p, "wb") as f:
            f.write(data)


def clear_locks(st, keep):
    d = os.path.dirname(st.db)
    for n in os.listdir(d):
        if n.startswith(os.path.basename(st.db)) and n not in keep:
            os.unlink(os.path.join(d, n))


def fresh(ctx, st):
    p = os.path.join(ctx.root, "fresh")
    put(p, None)
    ctx.run(["-f", st.rc], env={"MAIRIX_DATABASE": p}, ok=(0,))
    out = live_of(p)
    put(p, None)
    return out


def limit_files(n):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)          # as under a quota: the write fails
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    return f


def index_case(ctx):
    """An update is stopped or made to fail at every kind of point up to the one where the new database is written."""
    r = ctx.rng
    voc = mail.Vocab(r, r.choice([15, 60, 400]))
    st = mail.Store(ctx)
    plain = r.random() < .6               # (unpacking an mbox takes room as well)
    h = History(ctx, st, voc, links=r.random() < .3, **({"comp": (None,)} if plain else {}))
    for _ in range(r.choice([3, 6, 12])):
        h.step([("op_add_file", 3), ("op_new_box", 2)])
    disk = int(ctx.case[1:]) % 5 == 0
    if r.random() < .85:
        h.index()
        for _ in range(30 if disk else 0):
            h.step([("op_add_file", 3), ("op_new_box", 1)])
        for _ in range(r.choice([1, 3, 8])):
            h.step()
    if not h.configured():
        h.dropped.clear()
    h.write_rc()
    want = fresh(ctx, st)
    if not want:
        return
    start = content(st.db)
    log = os.path.join(ctx.root, "log")
    keep = {os.path.basename(st.db)} if start is not None else set()
    rr = ctx.run(["-f", st.rc], env=snap.env(log), ok=(0,))
    if live_of(st.db) != want:
        ctx.violate("baseline", "indexing without any fault does not give what is on disk", run=rr.brief())
    done = content(st.db)
    evs, nth, wr = [], {}, []
    for e in snap.read_log(log):
        k = (e.op, e.p1)
        nth[k] = nth.get(k, 0) + 1
        if e.op in READS and e.p1.startswith(st.mail):
            evs.append((e.op, e.p1, nth[k]))
        elif e.p1.startswith(st.db) and e.res >= 0 and e.op in ("openw", "openx", "open", "mmap") and "lock" not in os.path.basename(e.p1)[len(os.path.basename(st.db)):]:
            wr.append((e.op, e.p1, nth[k]))
    ctx.count("read_calls_seen", len(evs))
    if not evs:
        ctx.violate("no-events", "the indexer read nothing that the monitor can see")

    def verdict(what, rr, must_fail, signalled=False):
        ctx.count("evaluations")
        now = content(st.db)
        det = dict(history=h.log[-12:], run=rr.brief(), rc=open(st.rc, encoding="latin-1").read())
        if rr.rc == 0:
            if must_fail:
                ctx.violate("no-error", "%s, but the run ends with 0" % what, **det)
            if live_of(st.db) != want:
                ctx.violate("passed-for-complete", "%s: the run ends with 0 but its database is not what is on disk" % what, **det)
        else:
            if now != start:
                ctx.violate("database-changed", "%s: the run ends with %d and leaves the database changed" % (what, rr.rc), was=None if start is None else len(start), now=None if now is None else len(now), **det)
            if rr.rc > 0 and not (rr.err + rr.out).strip() and not signalled:
                ctx.violate("silent", "%s: the run ends with %d without a word" % (what, rr.rc), **det)
        ctx.count("database_compared")

    def resume(what, flags=()):
        rr = ctx.run(["-f", st.rc] + list(flags))
        if rr.rc != 0:
            ctx.violate("not-resumed", "%s: the next run ends with %d" % (what, rr.rc), run=rr.brief(), history=h.log[-12:])
        if live_of(st.db) != want:
            ctx.violate("not-recovered", "%s: after the next run the database is not what is on disk" % what, run=rr.brief(), history=h.log[-12:])
        ctx.count("resumed")

    plan = [("sig", x) for x in r.sample(evs, min(len(evs), tier_n(9, 80)))]
    plan += [("db", x) for x in wr]
    if plain:
        plan += [("size", max(2000, n)) for n in (4096, len(done) - 1, len(done) // 2, len(start or b"") + 1)]      # (room for the message itself)
    pages, had = (len(done) + 4095) // 4096, (len(start or b"") + 4095) // 4096
    if disk and pages - 1 >= max(had, 1):
        plan += [("disk", 4096 * r.choice([pages - 1, max(had, 1)]))]
    plan += [("cfg", k) for k in ("option", "nofolders", "dup", "badrc", "lock")]
    r.shuffle(plan)
    for kind, x in plan:
        put(st.db, start)
        clear_locks(st, keep)
        purge = r.choice([[], [], [], ["-p"], ["-F"], ["-p", "-v"]])
        if kind == "sig":
            op, p, k = x
            s = r.choice(SIGNALS)
            what = "%s at %s no. %d of %s" % (signal.Signals(s).name, op, k, p[len(st.mail):])
            rr = ctx.run(["-f", st.rc] + [f for f in purge if f != "-F"], env=snap.env(os.path.join(ctx.root, "log2"), "%s:%s:%d:K%d" % (op, p, k, s)), crash_ok=True)
            if rr.rc < 0 and -rr.rc not in SIGNALS:
                ctx.check_crash(rr)
            ctx.seen("sig", int(s), op, len(p) - len(st.mail) > 12, rr.rc)
            ctx.count("signals:" + signal.Signals(s).name)
            verdict(what, rr, False, True)
            resume(what, ["--unlock"] if s == signal.SIGKILL else [])
        elif kind == "db":
            op, p, k = x
            e = r.choice([errno.EACCES, errno.EIO, errno.ENOSPC, errno.EROFS] if op != "mmap" else [errno.ENOMEM, errno.EACCES])
            if op == "open" and r.random() < .4:
                e = errno.EMFILE
            what = "%s of the database failing with %s" % (op, errno.errorcode[e])
            rr = ctx.run(["-f", st.rc] + purge, env=snap.env(os.path.join(ctx.root, "log2"), "%s:%s:%d:E%d" % (op, p, k, e)))
            ctx.seen("db", op, k, e, rr.rc)
            ctx.count("database_faults")
            if "-F" not in purge:
                verdict(what, rr, op == "openw")
            resume(what)
        elif kind == "size":
            what = "no room for more than %d bytes" % x
            rr = ctx.run(["-f", st.rc] + purge, preexec=limit_files(x))
            grew = start is None or len(done) > len(start)
            ctx.seen("size", x == 0, grew, rr.rc)
            ctx.count("size_limits")
            if "-F" not in purge:
                verdict(what, rr, False)
            clear_locks(st, keep)
            resume(what)
        elif kind == "disk":
            # a file system of its own, too small by a page for the new database
            what = "a full disk"
            scr = os.path.join(ctx.root, "disk.sh")
            with open(scr, "w") as f:
                f.write('mkdir -p "$1/disk" && mount -t tmpfs -o size=%d none "$1/disk" || exit 99\n'
                        'test ! -e "$2" || cp "$2" "$1/disk/db" || exit 99\nMAIRIX_DATABASE="$1/disk/db" "$3" -f "$4"\nr=$?\n'
                        'rm -f "$2"; test ! -e "$1/disk/db" || cp "$1/disk/db" "$2"\nls -A "$1/disk" >"$1/disk.ls"\nexit $r\n' % x)
            rr = ctx.run([], raw_argv=["unshare", "-Urm", "sh", scr, ctx.root, st.db, ctx.exes["plain"], st.rc])
            if rr.rc == 99 or b"unshare" in rr.err:
                ctx.count("disk_not_available")
                continue
            ctx.count("full_disks")
            ctx.seen("disk", start is None, rr.rc)
            if rr.rc > 128:
                ctx.violate("crash:full-disk", "the run was ended by signal %d for lack of room" % (rr.rc - 128), run=rr.brief())
            verdict(what, rr, False)
            left = open(os.path.join(ctx.root, "disk.ls")).read().split()
            if set(left) - {"db"}:
                ctx.violate("left-behind", "%s: the run leaves %s behind" % (what, left), run=rr.brief())
            resume(what)
        else:
            rc, flags, env = st.rc, [], {}
            bad = os.path.join(ctx.root, "rc2")
            text = open(st.rc, encoding="latin-1").read()
            if x == "option":
                flags = [r.choice(["--nosuchoption", "-Z", "--purgee", "-pv"])]
            elif x == "nofolders":
                text = "".join(l + "\n" for l in text.split("\n") if not l.startswith(("maildir", "mh", "mbox")))
            elif x == "dup":
                m = [n for n in h.boxes if n not in h.dropped]
                if not m:
                    continue
                text += "mbox=%s:./%s:%s\n" % (m[0], m[0], m[0])
            elif x == "badrc":
                rc = os.path.join(ctx.root, "nosuch")
            elif x == "lock":
                env = {"MAIRIX_DATABASE": os.path.join(ctx.root, "nosuchdir", "db")}
            if rc == st.rc:
                with open(bad, "w", encoding="latin-1") as f:
                    f.write(text)
                rc = bad
            what = "run with " + {"option": "an unknown option", "nofolders": "no folders named", "dup": "an mbox named twice", "badrc": "no rc file", "lock": "a database that cannot be made"}[x]
            rr = ctx.run(["-f", rc] + flags, env=env)
            ctx.seen("cfg", x, rr.rc)
            verdict(what, rr, x != "dup")
            resume(what)
    ctx.sample({"kind": "index", "points": [str(p) for p in plan[:4]], "messages": len(want), "database": len(done)}, 1)


LINKERR = [errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EPERM, errno.EDQUOT, errno.EIO, errno.EMLINK]


def search_case(ctx):
    """Every call a search makes to clear and fill its result folder fails once, or always."""
    r = ctx.rng
    voc = mail.Vocab(r, 30)
    st = mail.Store(ctx)
    plain = r.random() < .5
    h = History(ctx, st, voc, **({"comp": (None,)} if plain else {}))
    if plain:
        def new_msg():
            h.uid += 1
            return mail.random_msg(r, voc, "h%d" % h.uid, h.pool, big=r.random() < .5)
        h.new_msg = new_msg
    for _ in range(r.choice([2, 5, 10])):
        h.step([("op_add_file", 3), ("op_new_box", 2)])
    if not h.index() or not os.path.exists(st.db):
        return
    db0 = content(st.db)
    log = os.path.join(ctx.root, "log")
    for fmt in ("maildir", "mh", "mbox"):
        mf = os.path.join(st.root, "mf_" + fmt)
        st.mfolder = mf
        h.write_rc(mformat=fmt)
        hard = fmt != "mbox" and r.random() < .4
        opts = (["-H"] if hard else []) + (["-v"] if r.random() < .15 else []) + (["-t"] if r.random() < .2 else [])
        earlier = [r.choice(["~zzznosuch", "p:m", "z:300-"])]
        q = [r.choice(["~zzznosuch", "~zzznosuch", "p:box", "p:m", "b:a=", "F:-s"])]
        aug = r.random() < .3

        def wipe():
            core._force_rmtree(mf) if os.path.isdir(mf) else (os.path.lexists(mf) and os.unlink(mf))

        def start():
            wipe()
            if fill:
                ctx.run(["-f", st.rc] + opts + earlier, ok=(0, 1))
        fill = r.random() < .75
        live = h.live()
        raw = ctx.run(["-f", st.rc, "-r"] + [o for o in opts if o == "-t"] + q, ok=(0, 1))
        keys = set(mail.parse_raw(raw.out))
        want = [m for m in live if m.key() in keys]
        if not want:
            continue
        args = ["-f", st.rc] + opts + (["-a"] if aug else []) + q
        start()
        put(log, None)
        rr = ctx.run(args, env=snap.env(log), ok=(0,))
        evs, nth = [], {}
        for e in snap.read_log(log):
            p = e.p2 if e.op in ("link", "symlink", "rename") else e.p1
            if p.startswith(mf) and e.op in ("link", "symlink", "openx", "openw", "mkdir", "unlink", "opendir", "rename") and (e.res >= 0):
                nth[(e.op, p)] = nth.get((e.op, p), 0) + 1
                evs.append((e.op, p, nth[(e.op, p)]))
        ctx.count("write_calls_seen", len(evs))
        if not evs and aug:
            continue                      # all there already
        if not evs:
            ctx.violate("no-events", "the search delivered %d matches without a call the monitor can see" % len(want))
        ops = sorted(set(o for o, p, k in evs))
        plan = [(x, "once") for x in r.sample(evs, min(len(evs), tier_n(9, 60)))] + [((o, mf, 0), "always") for o in ops] + [(None, "size")] * (4 if plain else 0)
        for x, how in plan:
            start()
            if how == "size":
                sizes = sorted(len(m.bytes) + len(m.path()) + 20 for m in want if m.loc[0] == "mbox") if fmt != "mbox" else [sum(len(content(m.path()) if m.loc[0] == "file" else m.bytes) for m in want)]
                if not sizes or (aug and (fill or fmt == "mbox")):
                    continue
                lim = r.choice([r.choice(sizes) // 2, r.choice(sizes) - 1 - 40, 4096, sizes[-1] - 41])
                if lim < 1000 or lim >= sizes[-1] - 40:
                    continue
                op, what = "write", "no room for more than %d bytes in a file" % lim
                rr = ctx.run(args, preexec=limit_files(lim))
            else:
                op, p, k = x
                e = r.choice(LINKERR)
                what = "%s of %s failing with %s (%s)" % (op, p[len(mf):], errno.errorcode[e], how)
                rr = ctx.run(args, env=snap.env(os.path.join(ctx.root, "log2"), "%s:%s:%d:E%d" % (op, p, k, e)))
            ctx.count("evaluations")
            ctx.count("faults:" + op)
            ctx.seen(fmt, op, how, aug, hard, fill, len(want) > 1)
            det = dict(run=rr.brief(), query=q, fault=what, history=h.log[-8:])
            if content(st.db) != db0:
                ctx.violate("database-changed", "%s: the search changed the database" % what, **det)
            faulted = how == "size" or any(e.op == "fault" for e in snap.read_log(os.path.join(ctx.root, "log2")))
            put(os.path.join(ctx.root, "log2"), None)
            if faulted:
                if rr.rc in (0, 1):
                    ctx.violate("passed-for-complete", "%s results, %s: the search ends with %d" % (fmt, what, rr.rc), **det)
                if not rr.err.strip():
                    ctx.violate("silent", "%s results, %s: nothing is reported" % (fmt, what), **det)
                ctx.count("reported")
            if fmt != "mbox" and op not in ("mkdir",) and os.path.isdir(mf):
                # what is there is right, and the other matches are there
                ents = C08.read_entries(mf, fmt == "mh")
                by, boxed = {os.path.realpath(m.path()): m for m in live if m.loc[0] == "file"}, [m for m in live if m.loc[0] == "mbox"]
                got = [(e,) + C08.match_entry(ctx, e, by, boxed, hard, True) for e in ents]
                have = set()
                for e, m, knd in got:
                    if m is None:
                        ctx.violate("partial", "%s results, %s: %s is left in the result folder, %s" % (fmt, what, e[2], knd), **det)
                    have.add(m.bytes if m.loc[0] == "mbox" else id(m))
                gone = [m for m in want if (m.bytes if m.loc[0] == "mbox" else id(m)) not in have]
                if how == "size":
                    gone = [m for m in gone if m.loc[0] == "file" or len(m.bytes) + len(m.path()) + 20 <= lim]
                elif how == "always" and op in ("link", "symlink"):
                    gone = [m for m in gone if m.loc[0] != "file"]
                elif how == "always" and op in ("openx", "openw"):
                    gone = [m for m in gone if m.loc[0] != "mbox"]
                elif op in ("link", "symlink", "openx", "openw"):
                    gone = gone[1:]
                if gone:
                    ctx.violate("cost-others", "%s results, %s: %d other matches are not delivered" % (fmt, what, len(gone)), first=str(gone[0].loc), **det)
                ctx.count("entries_checked", len(got))
            # the cause is gone
            rr = ctx.run(args, ok=(0,))
            if not aug:
                if fmt == "mbox":
                    C08.check_mbox(ctx, st, args, mf, False, {}, want, False)
                else:
                    C08.check_dir(ctx, st, args, mf, fmt == "mh", hard, False, {"entries": []}, live, want, False)
                ctx.count("repeated")
        # results that go to the terminal
        for mode in ("-r", "-x"):
            rr = ctx.run([], raw_argv=["/bin/sh", "-c", 'exec "$@" >/dev/full', "sh", ctx.exes["plain"], "-f", st.rc, mode] + q)
            ctx.count("evaluations")
            if rr.rc in (0, 1) or not rr.err.strip():
                ctx.violate("passed-for-complete", "%s with nowhere to write ends with %d" % (mode, rr.rc), run=rr.brief())
        wipe()
    ctx.sample({"kind": "search", "matches": len(want), "query": q, "options": opts}, 1)


cases = [("i%03d" % i, index_case) for i in range(tier_n(120, 900))] + [("s%03d" % i, search_case) for i in range(tier_n(90, 700))]
if __name__ == "__main__":
    core.main("C19", cases, rule="Updates of random stores stopped by a signal at a read call, or failing at the database, for lack of room or for a bad configuration, with the database compared "
              "byte for byte and the next run with a fresh index; searches whose calls for clearing and filling the result folder fail one by one (or always, or for lack of room), with status, message, "
              "what was left and the repeated search examined. Non-trivial: distinct (place, fault, options, outcome).",
              assumptions=["a process that is killed while it writes the new database loses it (it is rewritten in place)"], min_evals=1000)
