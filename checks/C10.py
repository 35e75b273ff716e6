"""C10: one process at a time per database; the lock is always released, and only by its owner."""
import os, random, shutil, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, snap, dbfile
from mx.common import *

DBOPS = ("open", "openw", "openx", "mmap", "mmapw", "ftruncate", "truncate", "unlink", "rename", "chmod")


def audit(ctx, evs, st, forced=(), foreign=False):
    """Offline checker over the merged event log of all processes."""
    lock, db = st.db + ".lock", st.db
    hold, spans = {}, []
    for e in evs:
        if e.res < 0:
            continue
        tgt = e.p2 or e.p1
        if e.op in ("link", "symlink", "openx", "mkdir", "rename") and tgt == lock:
            if e.pid in hold:
                ctx.violate("lock-twice", "process took the lock twice", event=repr(e))
            hold[e.pid] = [e.ns, None, e]
            ctx.count("lock_acquisitions")
            continue
        if e.op == "pre-unlink" and e.p1 == lock and e.pid in hold:
            hold[e.pid][1] = e.ns
            continue
        if (e.op in ("unlink", "rmdir") and e.p1 == lock) or (e.op == "rename" and e.p1 == lock):
            if e.pid not in hold:
                if e.pid in forced:
                    continue
                ctx.violate("foreign-unlock", "a process removed a lock that was not its own", event=repr(e), trace=[repr(x) for x in evs][-40:])
            h = hold.pop(e.pid)
            spans.append((h[0], h[1] or e.ns, e.pid))
            continue
        if e.op in DBOPS and (e.p1 == db or e.p2 == db):
            ctx.count("database_accesses")
            if e.pid not in hold:
                ctx.violate("unlocked-access", "database accessed without holding its lock (%s)" % e.op, event=repr(e),
                            trace=[repr(x) for x in evs if x.pid == e.pid][:60])
        for p in snap.write_targets(e):
            if "/mf_" in p:
                ctx.count("result_folder_writes")
                if e.pid not in hold:
                    ctx.violate("unlocked-output", "result folder written without holding the lock", event=repr(e))
    for pid, h in hold.items():
        spans.append((h[0], h[1] if h[1] else 1 << 62, pid))
    spans.sort()
    for (a, b, p), (a2, b2, p2) in zip(spans, spans[1:]):
        if a2 < b:
            ctx.violate("overlap", "processes %d and %d held the database at the same time" % (p, p2), spans=[str(s) for s in spans],
                        trace=[repr(x) for x in evs if "lock" in x.p1 + x.p2 or x.p1 == db][:80])
    ctx.count("intervals_checked", len(spans))
    return spans


MODES = ["index", "purge", "noop", "fast", "maildir", "mh", "mbox", "augment", "hard", "raw", "excerpt", "thread", "dump"]


class Lab:
    def __init__(self, ctx, n=6):
        self.ctx, self.r = ctx, ctx.rng
        self.st = st = mail.Store(ctx)
        self.voc = mail.Vocab(self.r, 20)
        fill_store(ctx, st, n, self.voc, comp=(None, "gz", "xz"))
        st.add_maildir_msg("md0", mail.random_msg(self.r, self.voc, "first"))
        self.serial = 0
        self.rcs = {}
        st.write_rc()
        st.index()
        for f in ("maildir", "mh", "mbox"):
            st.mfolder = os.path.join(st.root, "mf_" + f)
            st.rc = os.path.join(st.root, "rc_" + f)
            st.write_rc(mformat=f)
            self.rcs[f] = st.rc
        self.log = os.path.join(ctx.root, "events")

    def prepare(self, mode):
        """Pending work for modes that are to write the database."""
        self.serial += 1
        if mode in ("index", "fast", "purge"):
            m = mail.random_msg(self.r, self.voc, "x%d" % self.serial)
            self.st.add_maildir_msg("md0", m)
            if mode == "purge":
                self.victim = getattr(self, "victim", None)
                if self.victim and os.path.exists(self.victim):
                    os.unlink(self.victim)
                self.victim = m.path()

    def args(self, mode, unlock=False):
        a = ["-f", self.rcs[mode if mode in self.rcs else "maildir"]]
        if unlock:
            a.append("--unlock")
        a += {"index": [], "noop": [], "purge": ["-p"], "fast": ["-F"], "maildir": ["~zzz"], "mh": ["~zzz"], "mbox": ["~zzz"], "augment": ["-a", "b:a="],
              "hard": ["-H", "~zzz"], "raw": ["-r", "~zzz"], "excerpt": ["-x", "~zzz"], "thread": ["-t", "-r", "b:a="], "dump": ["-d"]}[mode]
        return a

    def launch(self, mode, act=None, unlock=False, log=None, stdout=subprocess.PIPE):
        e = dict(core.BASE_ENV, MALLOC_PERTURB_=self.ctx.perturb)
        e.update(snap.env(log or self.log, act))
        self.ctx.count("runs")
        return subprocess.Popen([self.ctx.exes["plain"]] + self.args(mode, unlock), env=e, cwd=self.ctx.root, stdin=subprocess.DEVNULL,
                                stdout=stdout, stderr=subprocess.PIPE)

    def finish(self, p, what):
        try:
            out, err = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise core.Inconclusive()
        return p.returncode, out, err

    def state(self):
        s = {}
        for n in os.listdir(self.st.root):
            if n.startswith(("db", "mf_")):
                p = os.path.join(self.st.root, n)
                if n.startswith("db.lock."):
                    continue
                if os.path.islink(p):
                    s[n] = os.readlink(p)
                elif os.path.isdir(p):
                    s[n] = snap.snap(p)
                else:
                    t = os.stat(p)
                    s[n] = (t.st_ino, t.st_mtime_ns, open(p, "rb").read())
        return s

    def clean(self, what, **det):
        """No lock and no lock debris may be left."""
        left = [n for n in os.listdir(self.st.root) if n.startswith("db.lock")]
        if left:
            self.ctx.violate("lock-left", "%s left %s behind" % (what, left), **det)

    def ref_len(self, mode):
        self.prepare(mode)
        self.reset()
        rc, out, err = self.finish(self.launch(mode), mode)
        evs = snap.read_log(self.log)
        if rc not in (0, 1) or not evs:
            self.ctx.violate("reference-run", "undisturbed %s run ended with %d" % (mode, rc), stderr=err.decode("latin-1"))
        self.clean("an undisturbed %s run" % mode)
        audit(self.ctx, evs, self.st)
        return len(evs)

    def reset(self):
        if os.path.exists(self.log):
            os.unlink(self.log)


def wait_for(path, proc, secs=20):
    t = time.time()
    while not os.path.exists(path):
        if proc.poll() is not None:
            return False
        if time.time() - t > secs:
            raise core.Inconclusive()
        time.sleep(.0005)
    return True


def points(ctx, n, quick):
    """Which calls of a run of n calls to disturb: all of them if few enough."""
    if ctx.tier == "thorough" or n <= quick:
        return range(1, n + 1)
    return sorted(ctx.rng.sample(range(1, n + 1), quick))


def pause_case(ctx, modeA):
    """A is stopped at one of its file system calls; meanwhile B tries."""
    lab = Lab(ctx)
    st, r = lab.st, ctx.rng
    lock = st.db + ".lock"
    n = lab.ref_len(modeA)
    for k in points(ctx, n, 80):
        ph = r.choice("PQ")
        f = os.path.join(ctx.root, "meet")
        lab.prepare(modeA)
        lab.reset()
        A = lab.launch(modeA, "*::%d:%s%s" % (k, ph, f))
        paused = wait_for(f, A)
        try:
            if paused:
                held = os.path.exists(lock)
                s0 = lab.state()
                modeB = r.choice(MODES)
                B = lab.launch(modeB)
                rc, out, err = lab.finish(B, modeB)
                if held:
                    det = dict(A=modeA, B=modeB, point=k, stderr=err.decode("latin-1"), trace=[repr(x) for x in snap.read_log(lab.log)][-60:])
                    if rc == 0:
                        ctx.violate("not-excluded", "%s ran although %s held the lock" % (modeB, modeA), **det)
                    if lab.state() != s0:
                        ctx.violate("refused-but-wrote", "%s was refused the lock but changed database, result folder or lock" % modeB, **det)
                    if b"lock" not in err.lower():
                        ctx.violate("silent-refusal", "%s ended with %d without saying that the database is locked" % (modeB, rc), **det)
                    ctx.count("exclusions")
                    ctx.seen("pause", modeA, modeB, k, ph)
                elif rc not in (0, 1) or b"locked" in err:
                    ctx.violate("spurious-lock", "%s failed although no process held the lock" % modeB, A=modeA, point=k, stderr=err.decode("latin-1"))
                os.unlink(f)
        finally:
            if os.path.exists(f):
                os.unlink(f)
        rc, out, err = lab.finish(A, modeA)
        if rc not in (0, 1):
            ctx.violate("delayed-run-failed", "%s delayed at call %d ended with %d" % (modeA, k, rc), stderr=err.decode("latin-1"))
        audit(ctx, snap.read_log(lab.log), st)
        lab.clean("%s paused at call %d" % (modeA, k))
        ctx.count("evaluations")
    dbfile.Db(st.db)


def handover_case(ctx):
    """A fails to get B's lock; before A looks again, B finishes and (sometimes) C takes over."""
    lab = Lab(ctx)
    st, r = lab.st, ctx.rng
    fa, fb, fc = (os.path.join(ctx.root, x) for x in ("ma", "mb", "mc"))
    for i in range(tier_n(12, 40)):
        lab.reset()
        modes = [r.choice(MODES) for _ in range(3)]
        for m in modes:
            lab.prepare(m)
        procs = []
        try:
            # the lock protects the first access to the database file, so pause B there
            B = lab.launch(modes[1], "%s:%s:1:P%s" % ("mmap", "/db", fb) if modes[1] not in ("noop",) else "mmap:/db:1:P" + fb)
            procs.append(B)
            if not wait_for(fb, B):
                lab.finish(B, "B")
                continue
            what = r.choice(["link:.lock:1:Q", "stat:.lock:1:P", "open:.lock:1:P", "open:.lock:1:Q", "unlink:.lock:1:P"])
            A = lab.launch(modes[0], what + fa)
            procs.append(A)
            got = wait_for(fa, A)
            os.unlink(fb)
            lab.finish(B, "B")
            C = None
            if r.random() < .6:
                C = lab.launch(modes[2], "mmap:/db:1:P" + fc)
                procs.append(C)
                if not wait_for(fc, C):
                    rc, _, err = lab.finish(C, "C")
                    if b"locked" in err:
                        ctx.violate("spurious-lock", "C refused although B had finished", stderr=err.decode("latin-1"))
                    C = None
            if got:
                os.unlink(fa)
            ra = lab.finish(A, "A")
            if C and os.path.exists(st.db + ".lock") is False:
                ctx.violate("lock-stolen", "C's lock disappeared while C was at work", A=modes[0], trace=[repr(x) for x in snap.read_log(lab.log)][-60:])
            if C and ra[0] == 0:
                ctx.violate("not-excluded", "A ran although C held the lock", A=modes[0], at=what, trace=[repr(x) for x in snap.read_log(lab.log)][-60:])
            if C:
                os.unlink(fc)
                rc, _, err = lab.finish(C, "C")
                if rc not in (0, 1) or b"locked" in err:
                    ctx.violate("holder-failed", "C ended with %d" % rc, stderr=err.decode("latin-1"))
            audit(ctx, snap.read_log(lab.log), st)
            lab.clean("handover %s" % modes, at=what)
            ctx.count("evaluations")
            ctx.count("handovers")
            ctx.seen("handover", tuple(modes), what, bool(C), got)
        finally:
            for f in (fa, fb, fc):
                if os.path.exists(f):
                    os.unlink(f)
            for p in procs:
                if p.poll() is None:
                    p.kill()
                    p.communicate()


def signal_case(ctx, mode):
    lab = Lab(ctx)
    st, r = lab.st, ctx.rng
    lock = st.db + ".lock"
    n = lab.ref_len(mode)
    SIGS = [signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM]
    good = open(st.db, "rb").read()
    for k in points(ctx, n, 80):
        sig = r.choice(SIGS)
        ph = r.choice("KS")
        lab.prepare(mode)
        lab.reset()
        rc, out, err = lab.finish(lab.launch(mode, "*::%d:%s%d" % (k, ph, sig)), mode)
        evs = snap.read_log(lab.log)
        what = "%s on signal %d at call %d%s" % (mode, sig, k, ph)
        audit(ctx, evs, st)
        if os.path.exists(lock):
            ctx.violate("lock-left", "%s (exit %d) left the database locked" % (what, rc), trace=[repr(x) for x in evs][-15:])
        for x in [x for x in os.listdir(st.root) if x.startswith("db.lock.")]:
            os.unlink(os.path.join(st.root, x))       # debris of a process killed before it installed its handlers is harmless
        rc, out, err = lab.finish(lab.launch("dump"), "after")
        if b"locked" in err:
            ctx.violate("cannot-resume", "after %s the database is locked" % what, stderr=err.decode("latin-1"))
        ctx.count("evaluations")
        ctx.count("signals")
        ctx.seen("sig", mode, sig, k, ph)
        with open(st.db, "wb") as f:                  # an interrupted write is not this property's business
            f.write(good)
    # while another process owns the lock, signals must not take it away
    with open(lock, "w") as f:
        f.write("4242,elsewhere,somebody\n")
    ino = os.stat(lock).st_ino
    lab.reset()
    lab.finish(lab.launch(mode), mode)
    nev = len(snap.read_log(lab.log))
    for k in range(1, nev + 1):
        sig = r.choice(SIGS)
        lab.reset()
        s0 = lab.state()
        rc, out, err = lab.finish(lab.launch(mode, "*::%d:%s%d" % (k, r.choice("KS"), sig)), mode)
        if rc == 0:
            ctx.violate("not-excluded", "%s ran although the database is locked" % mode)
        if not os.path.exists(lock) or os.stat(lock).st_ino != ino:
            ctx.violate("foreign-unlock", "%s, interrupted by signal %d at call %d while another process holds the lock, removed that lock" % (mode, sig, k),
                        trace=[repr(x) for x in snap.read_log(lab.log)][-15:])
        if lab.state() != s0:
            ctx.violate("refused-but-wrote", "%s was locked out and interrupted but wrote" % mode)
        for x in [x for x in os.listdir(st.root) if x.startswith("db.lock.")]:
            os.unlink(os.path.join(st.root, x))
        audit(ctx, snap.read_log(lab.log), st)
        ctx.count("evaluations")
        ctx.count("signals_while_locked_out")
        ctx.seen("sigout", mode, sig, k)
    # --unlock clears it and work resumes
    lab.prepare(mode)
    lab.reset()
    p = lab.launch(mode, unlock=True)
    rc, out, err = lab.finish(p, mode)
    if rc not in (0, 1) or b"locked" in err:
        ctx.violate("unlock-failed", "%s --unlock ended with %d on a stale lock" % (mode, rc), stderr=err.decode("latin-1"))
    audit(ctx, snap.read_log(lab.log), st, forced=(p.pid,))
    lab.clean("%s --unlock" % mode)
    rc, out, err = lab.finish(lab.launch("raw"), "raw")
    if rc != 0:
        ctx.violate("unlock-failed", "search after --unlock ended with %d" % rc, stderr=err.decode("latin-1"))
    ctx.count("forced_unlocks")


def fault_case(ctx, mode):
    """Every file system call of a run fails once: whatever mairix makes of it, the lock is released."""
    lab = Lab(ctx)
    st, r = lab.st, ctx.rng
    n = lab.ref_len(mode)
    good = open(st.db, "rb").read()
    for k in points(ctx, n, 80):
        lab.prepare(mode)
        lab.reset()
        en = r.choice([2, 13, 12, 28, 5])
        rc, out, err = lab.finish(lab.launch(mode, "*::%d:E%d" % (k, en)), mode)
        evs = snap.read_log(lab.log)
        hit = [e for e in evs if e.op == "fault"]
        on_lock = bool(hit) and hit[0].p2.startswith(st.db + ".lock")
        if rc < 0:
            ctx.violate("crash-on-fault", "%s crashed with signal %d when %s failed" % (mode, -rc, hit), stderr=err.decode("latin-1"))
        if not on_lock:
            audit(ctx, evs, st)
            lab.clean("%s with a failing %s" % (mode, hit[:1]))
            ctx.count("evaluations")
            ctx.count("faults")
            ctx.seen("fault", mode, hit[0].p1 if hit else "", k, en, rc)
        else:
            for x in [x for x in os.listdir(st.root) if x.startswith("db.lock")]:
                os.unlink(os.path.join(st.root, x))
        with open(st.db, "wb") as f:
            f.write(good)


def error_case(ctx):
    """Error exits of every kind release the lock."""
    r = ctx.rng
    lab = Lab(ctx)
    st = lab.st
    base = open(lab.rcs["maildir"]).read()
    db = open(st.db, "rb").read()

    def run(what, rc_text, args, want=None, env=None):
        rcf = os.path.join(st.root, "rc_err")
        with open(rcf, "w") as f:
            f.write(rc_text)
        lab.reset()
        e = snap.env(lab.log)
        e.update(env or {})
        res = ctx.run(["-f", rcf] + args, env=e)
        if want is not None and res.rc not in want:
            ctx.violate("error-exit", "%s: ended with %d" % (what, res.rc), run=res.brief())
        evs = snap.read_log(lab.log)
        audit(ctx, evs, st)
        lab.clean(what, run=res.brief())
        ctx.count("evaluations")
        ctx.count("error_exits" if res.rc not in (0, 1) else "other_exits")
        ctx.seen("err", what, res.rc)
    E = (2, 3)
    sub = lambda **kw: "\n".join(l for l in ([l for l in base.split("\n") if l.split("=")[0] not in kw] + ["%s=%s" % (k, v) for k, v in kw.items() if v is not None])) + "\n"
    run("no folders", "base=%s\ndatabase=%s\nmfolder=x\n" % (st.mail, st.db), [], E)
    run("no mfolder", sub(mfolder=None), ["~zzz"], E)
    run("mfolder is source", sub(mfolder="md0"), ["~zzz"], E)
    run("duplicate maildir", base + "maildir=md0\n", [], E)
    run("duplicate mbox", base + "mbox=%s\nmbox=%s\n" % (("boxd",) * 2), [])
    run("long term", base, ["b:" + "x" * 40 + "="], None)
    for q in ("d:junk", "d:1-2-3-4-5", "z:junk", "F:q", "qq:x", "b:x=y", ":", "x:", "d:", "z:", "m:", "p:" + "y" * 64, "t:a/,b", "~"):
        run("query " + q, base, ["-r", q])
    for _ in range(tier_n(60, 300)):          # anything at all may be asked for
        q = "".join(r.choice("tcfsbardzmnpFq") for _ in range(r.choice([0, 1, 1, 2, 3, 8])))
        q = (q + ":" if q else "") + r.choice(["", "x", "a@b.c", "x=", "=", "^x=2", "~x", "2001", "1k-2M", "s", "-r", "x/y,z", "x" * 33 + "=", "junk-", "3d-", "31feb", "=9", "x=99999999999", "\xff"])
        a = [q] + (["b:x"] if r.random() < .2 else [])
        run("query %s" % a, base, r.choice([["-r"], ["-x"], [], ["-t", "-r"]]) + a)
    run("uncreatable mfolder", sub(mfolder="/nonexistent-mx/a/b"), ["~zzz"])
    run("mbox result is a directory", sub(mformat="mbox", mfolder=st.mail), ["~zzz"])
    run("junk imap", base + "imap=x\n", [])
    run("both imap", base + "imap=x\nimap_pipe=false\nimap_server=localhost\n", [], E)
    run("imap pipe ends at once", base + "imap=x\nimap_pipe=exit 0\n", [])
    run("imap pipe false", base + "imap=x\nimap_pipe=false\n", [])
    run("imap search, no server", sub(mformat="imap"), ["~zzz"])
    os.unlink(st.db)
    run("no database: search", base, ["~zzz"], E)
    run("no database: raw", base, ["-r", "~zzz"], E)
    run("no database: dump", base, ["-d"], E)
    os.mkdir(st.db)
    run("database is a directory: index", base, [], E)
    run("database is a directory: search", base, ["-r", "~zzz"], E)
    run("database is a directory: dump", base, ["-d"])
    os.rmdir(st.db)
    for junk in (b"", b"x", b"MX\xa5", b"not a database " * 50, db[:4] + b"\0" * 200, b"MX\xa5\x03" + db[4:]):
        for a in ([], ["-p"], ["-r", "~zzz"], ["-d"]):
            with open(st.db, "wb") as f:
                f.write(junk)
            run("junk database %r %s" % (junk[:8], a), base, a)
    with open(st.db, "wb") as f:
        f.write(db)
    run("afterwards", base, ["-r", "~zzz"], (0,))
    # output pipe closed by the reader
    rd, wr = os.pipe()
    os.close(rd)
    for mode in ("raw", "excerpt", "dump", "maildir"):
        lab.reset()
        p = lab.launch(mode, stdout=wr)
        lab.finish(p, mode)
        audit(ctx, snap.read_log(lab.log), st)
        lab.clean("%s into a closed pipe" % mode)
        ctx.count("evaluations")
        ctx.seen("pipe", mode)
    os.close(wr)


def locked_case(ctx):
    """A lock of whatever looks, also one that cannot be read, keeps every kind of run out until --unlock."""
    r = ctx.rng
    lab = Lab(ctx, 5)
    st = lab.st
    lock = st.db + ".lock"
    exe = os.path.join(ctx.root, "mairix")
    shutil.copy2(ctx.exes["plain"], exe)
    os.chmod(ctx.root, 0o755)
    root = os.geteuid() == 0

    def own():
        for d, ds, fs in os.walk(ctx.root):
            for f in [d] + [os.path.join(d, f) for f in fs]:
                if f != lock:
                    os.lchown(f, 65534, 65534)

    def drop():
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    makers = {"usual": lambda: open(lock, "w").write("4242,host,user\n"), "empty": lambda: open(lock, "w").close(), "binary": lambda: open(lock, "wb").write(os.urandom(300)),
              "long": lambda: open(lock, "w").write("x" * 5000), "no newline": lambda: open(lock, "w").write("1,h,u"),
              "directory": lambda: os.mkdir(lock), "dangling symlink": lambda: os.symlink("/nonexistent-mx", lock), "looping symlink": lambda: os.symlink(lock, lock),
              "hard-linked": lambda: (open(st.db + "-other", "w").write("1,h,u\n"), os.link(st.db + "-other", lock)),
              "unreadable": lambda: (open(lock, "w").write("1,h,u\n"), os.chmod(lock, 0), root and os.lchown(lock, 0, 0))}
    for kind in makers:
        for mode in r.sample(MODES, tier_n(4, len(MODES))):
            lab.prepare(mode)
            if kind == "unreadable" and not root:
                continue
            makers[kind]()
            if root:
                own()
            before, desc = lab.state(), os.lstat(lock)[:3]
            rr = ctx.run(None, raw_argv=[exe] + lab.args(mode), ok=None, preexec=drop if root else None, timeout=60)
            if rr.rc != 1 or not rr.err.strip():
                ctx.violate("lock-ignored", "%s with a lock in place (%s) ended with %d" % (mode, kind, rr.rc), run=rr.brief())
            if not os.path.lexists(lock) or os.lstat(lock)[:3] != desc:
                ctx.violate("foreign-unlock", "%s removed or replaced a lock in place (%s)" % (mode, kind), run=rr.brief())
            if lab.state() != before:
                ctx.violate("locked-write", "%s changed the database or a result folder in spite of a lock (%s)" % (mode, kind), run=rr.brief())
            left = [n for n in os.listdir(st.root) if n.startswith("db.lock.")]
            if left:
                ctx.violate("lock-left", "%s kept out by a lock (%s) left %s behind" % (mode, kind, left))
            if kind == "directory":
                os.rmdir(lock)
            else:
                rr = ctx.run(None, raw_argv=[exe] + lab.args(mode, unlock=True), ok=None, preexec=drop if root else None, timeout=60)
                if rr.rc not in (0, 1) or b"locked" in rr.err:
                    ctx.violate("unlock", "--unlock with %s did not get past a stale lock (%s): %d" % (mode, kind, rr.rc), run=rr.brief())
                lab.clean("%s after --unlock" % mode)
            os.path.exists(st.db + "-other") and os.unlink(st.db + "-other")
            ctx.count("evaluations")
            ctx.count("locks_met")
            ctx.seen("locked", kind, mode)


def stress_case(ctx):
    """Many processes at once with random delays; the merged log is checked offline."""
    lab = Lab(ctx, 10)
    st, r = lab.st, ctx.rng
    lab.reset()
    jobs = []
    for i in range(tier_n(10, 20)):
        procs = []
        for j in range(r.choice([3, 5, 8])):
            m = r.choice(MODES)
            lab.prepare(m)
            act = ";".join("%s::%d:%s%d" % (r.choice(["*", "*", "open", "mmap", "link", "stat", "unlink"]), r.randint(1, 40), r.choice("DA"), r.choice([100, 1000, 5000]))
                           for _ in range(3))
            procs.append((m, lab.launch(m, act)))
            if r.random() < .5:
                time.sleep(r.random() * .004)
        outs = []
        for m, p in procs:
            rc, out, err = lab.finish(p, m)
            refused = b"locked" in err
            if rc not in (0, 1) or (rc and not refused):
                ctx.violate("concurrent-failure", "concurrent %s ended with %d" % (m, rc), stderr=err.decode("latin-1"),
                            trace=[repr(x) for x in snap.read_log(lab.log) if x.pid == p.pid][-30:])
            outs.append((m, refused))
        ctx.count("refused", sum(1 for o in outs if o[1]))
        ctx.count("admitted", sum(1 for o in outs if not o[1]))
        ctx.seen("stress", tuple(outs))
        ctx.count("evaluations")
    sp = audit(ctx, snap.read_log(lab.log), st)
    lab.clean("stress")
    lab.finish(lab.launch("index"), "index")
    live, _ = dbfile.Db(st.db).live()
    disk = set()
    for d, ds, fs in os.walk(os.path.join(st.mail, "md0")):
        disk |= set(os.path.join(d, f) for f in fs)
    have = set(k[1] for k in live if k[0] == "file" and "/md0/" in k[1])
    if disk != have:
        ctx.violate("lost-update", "after concurrent runs and a final index, %d messages of md0 are not indexed / %d ghosts" % (len(disk - have), len(have - disk)))
    ctx.sample({"order of holders": [s[2] for s in sp][:20]}, 1)


def async_case(ctx):
    """Signals from outside at random moments of longer runs, also inside the C library."""
    lab = Lab(ctx, 60)
    st, r = lab.st, ctx.rng
    good = open(st.db, "rb").read()
    for i in range(tier_n(40, 150)):
        mode = r.choice(["index", "purge", "maildir", "mbox", "raw", "excerpt", "dump", "thread"])
        lab.prepare(mode)
        if r.random() < .3 and mode in ("index", "purge"):
            os.unlink(st.db)
        lab.reset()
        p = lab.launch(mode)
        time.sleep(r.random() * .008)
        sig = r.choice([signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM])
        p.send_signal(sig)
        if r.random() < .2:
            p.send_signal(sig)
        try:
            p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            lab.hung = getattr(lab, "hung", 0) + 1
            if lab.hung > 1:
                ctx.violate("hang-on-signal", "%s did not end within 60 s of signal %d (twice)" % (mode, sig))
            for x in [x for x in os.listdir(st.root) if x.startswith("db.lock")]:
                os.unlink(os.path.join(st.root, x))
            continue
        evs = snap.read_log(lab.log)
        audit(ctx, evs, st)
        if os.path.exists(st.db + ".lock"):
            ctx.violate("lock-left", "%s on an asynchronous signal %d (exit %d) left the database locked" % (mode, sig, p.returncode), trace=[repr(x) for x in evs][-15:])
        for x in [x for x in os.listdir(st.root) if x.startswith("db.lock.")]:
            os.unlink(os.path.join(st.root, x))
        with open(st.db, "wb") as f:
            f.write(good)
        ctx.count("evaluations")
        ctx.count("asynchronous_signals")
        ctx.seen("async", mode, sig, len(evs))


def mk(fn, *a):
    def f(ctx):
        fn(ctx, *a)
    return f


reps = tier_n(4, 30)
cases = []
for rep in range(reps):
    cases += [("pause-%s-%d" % (m, rep), mk(pause_case, m)) for m in MODES] + [("signal-%s-%d" % (m, rep), mk(signal_case, m)) for m in MODES] + \
             [("fault-%s-%d" % (m, rep), mk(fault_case, m)) for m in MODES]
cases += [("handover%02d" % i, handover_case) for i in range(tier_n(40, 300))] + [("stress%02d" % i, stress_case) for i in range(tier_n(40, 300))] + \
         [("async%02d" % i, async_case) for i in range(tier_n(24, 200))] + \
         [("locked%d" % i, locked_case) for i in range(tier_n(4, 12))] + [("error%d" % i, error_case) for i in range(tier_n(2, 6))]
if __name__ == "__main__":
    core.main("C10", cases, level="fault_enumeration", rule="Runs of 13 kinds are stopped, signalled (HUP, INT, QUIT, TERM) or made to fail at each of their file system calls while other runs "
              "try to get in; the merged LD_PRELOAD event log is checked offline: hold intervals disjoint, database and result folder touched only by the "
              "holder, locks removed only by their owner, none left. Distinct by (mode, disturbance, call number, outcome).",
              assumptions=["link(2) works on the file system of the database", "SIGKILL and power loss may leave a stale lock (for --unlock)"], min_evals=500)
