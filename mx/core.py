"""Check driver: runs cases in parallel, collects what the monitors saw, decides, writes evidence."""
import ctypes, errno, hashlib, json, multiprocessing as mp, multiprocessing.pool, os, random, resource, select, shutil, signal, subprocess, sys, tempfile, time, traceback

from . import build as _build

HERE = _build.HERE
EVID = os.environ.get("MX_EVID") or os.path.join(HERE, "evidence")
REPLAY = os.path.join(os.environ.get("MX_EVID") or HERE, "replay")
KNOWN = os.path.join(HERE, "known-findings.txt")
TIMEOUT = float(os.environ.get("MX_TIMEOUT", "60"))
FSIZE, MEM, OUTMAX = 512 << 20, 3 << 30, 64 << 20          # what a run may write to one file, map, print


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (1 << 30):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


class Violation(Exception):
    def __init__(self, key, msg, detail=None):
        Exception.__init__(self, msg)
        self.key, self.msg, self.detail = key, msg, detail or {}


class Inconclusive(Exception):
    pass


class Result:
    __slots__ = ("rc", "out", "err", "args", "sig")

    def __init__(self, rc, out, err, args):
        self.rc, self.out, self.err, self.args = rc, out, err, args
        self.sig = -rc if rc < 0 else 0

    def brief(self):
        return {"args": [str(a) for a in self.args], "rc": self.rc, "stdout": self.out[-3000:].decode("latin-1"),
                "stderr": self.err[-6000:].decode("latin-1")}


BASE_ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "HOME": "/nonexistent",
            "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:hard_rss_limit_mb=3000",
            "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1"}


class Ctx:
    """What a case sees."""

    def __init__(self, prop, tier, seed, case, exes):
        self.prop, self.tier, self.seed, self.case, self.exes = prop, tier, seed, case, exes
        h = hashlib.sha256(("%s/%d/%s" % (prop, seed, case)).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.counts, self.sigs, self.samples, self.known = {}, set(), [], set()
        self.root, self.drain = None, False
        self.perturb = str(1 + h[8] % 255)     # every byte glibc malloc hands out or takes back is filled with this

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix="mx%s." % self.prop, dir=_BASE[0] if _BASE else scratch_base())
        return self

    def __exit__(self, *a):
        if self.root:
            if not os.environ.get("MX_KEEP"): _force_rmtree(self.root)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, *sig):
        """Records one distinct, non-trivial observation."""
        self.sigs.add(hashlib.sha1(repr(sig).encode("utf-8", "surrogateescape")).hexdigest()[:16])

    def sample(self, obj, cap=3):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def violate(self, key, msg, **detail):
        raise Violation(key, msg, detail)

    def run(self, args, env=None, cwd=None, variant="plain", exe=None, ok=None, timeout=None, preexec=None,
            stdin=None, raw_argv=None, crash_ok=False):
        """Runs mairix; a crash (signal, sanitizer report, failed assertion) or a hang is always a violation."""
        limit = not exe and not raw_argv and variant == "plain"        # (sanitizers and valgrind need address space)
        exe = exe or self.exes[variant]
        e = dict(BASE_ENV, MALLOC_PERTURB_=self.perturb)
        if env:
            e.update(env)
            e = {k: v for k, v in e.items() if v is not None}
        argv = raw_argv or [exe] + [a.encode("latin-1") if isinstance(a, str) and not a.isascii() and max(a) <= "\xff" else a for a in args]
        for attempt in (0, 1):
            # output goes to memory files, which the limit on file sizes holds for
            with os.fdopen(os.memfd_create("o"), "rb") as fo, os.fdopen(os.memfd_create("e"), "rb") as fe:
                rd, wr = os.pipe() if self.drain else (None, None)
                p = subprocess.Popen(argv, env=e, cwd=cwd or self.root, stdin=stdin or subprocess.DEVNULL, stdout=fo, stderr=fe, preexec_fn=preexec,
                                     pass_fds=(wr,) if self.drain else ())
                if self.drain:
                    os.close(wr)
                if limit:
                    try:
                        resource.prlimit(p.pid, resource.RLIMIT_AS, (MEM, MEM))
                    except OSError:
                        pass
                pfd = os.pidfd_open(p.pid)
                try:
                    ended = select.select([pfd], [], [], timeout or TIMEOUT)[0]
                finally:
                    os.close(pfd)
                    p.kill()
                    p.wait()
                    if self.drain:
                        select.select([rd], [], [], TIMEOUT)       # what mairix started has ended too
                        os.close(rd)
                fo.seek(0)
                fe.seek(0)
                out, err = fo.read(OUTMAX), fe.read(OUTMAX)
            if ended:
                break
            if attempt:
                raise Violation("hang", "mairix did not end within %gs (twice)" % (timeout or TIMEOUT),
                                {"args": [str(a) for a in argv], "stderr": err[-2000:].decode("latin-1")})
        r = Result(p.returncode, out, err, argv)
        self.count("runs")
        if not crash_ok:
            self.check_crash(r)
        if ok is not None and r.rc not in ok:
            raise Violation("exit", "unexpected exit status %d (expected one of %s)" % (r.rc, list(ok)), r.brief())
        return r

    def check_crash(self, r):
        if r.rc < 0 or b"AddressSanitizer" in r.err or b"runtime error:" in r.err or b"Assertion `" in r.err:
            raise Violation("crash:" + crash_key(r.err, r.rc), "mairix crashed (status %d)" % r.rc, r.brief())


def crash_key(err, rc):
    import re
    t = err.decode("latin-1")
    kind = ""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", t)
    if m:
        kind = m.group(1)
    m2 = re.search(r"runtime error: ([^\n]{0,60})", t)
    if m2:
        kind = "ub " + re.sub(r"[-0-9]+", "N", m2.group(1))
    m3 = re.search(r"(\w+\.c):\d+: (\w+): Assertion", t)
    if m3:
        kind = "assert %s %s" % m3.groups()
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?(\w+\.c):\d+", t)
    loc = ",".join("%s" % f for f, _ in fr[:3])
    return "%s@%s" % (kind or "signal %d" % -rc, loc)


def _force_rmtree(p):
    def onerr(fn, path, exc):
        try:
            os.chmod(os.path.dirname(path), 0o700)
            os.chmod(path, 0o700)
            fn(path)
        except OSError:
            pass
    shutil.rmtree(p, onerror=onerr)


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.setpgid(0, 0)                                                   # so that the run can be ended with all it started
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)                # PR_SET_PDEATHSIG
    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, FSIZE))


BUDGET, AFTER = 780, 60       # seconds a quick run may take, and may go on after the first violation
ENVIRONMENT = (errno.ENOSPC, errno.ENOMEM, errno.EAGAIN, errno.EMFILE, errno.ENFILE, errno.EDQUOT)
_BASE = []                    # the scratch directory of this run
_JOBS = []                    # inherited by the forked workers


def _run_case(i):
    prop, tier, seed, case, exes, fn = _JOBS[i]
    ctx = Ctx(prop, tier, seed, case, exes)
    res = {"case": case, "violation": None, "error": None}
    t = time.time()
    try:
        with ctx:
            fn(ctx)
    except Violation as v:
        res["violation"] = {"key": v.key, "msg": v.msg, "detail": v.detail}
    except Inconclusive as e:
        ctx.count("inconclusive")
    except Exception as e:
        if isinstance(e, (MemoryError, BlockingIOError, subprocess.CalledProcessError, _build.BuildError)) or isinstance(e, OSError) and e.errno in ENVIRONMENT:
            res["error"] = traceback.format_exc()
        else:
            # what mairix printed or left behind is not something the monitor can read: for these inputs it always is
            res["violation"] = {"key": "unreadable:%s" % type(e).__name__, "detail": {"traceback": traceback.format_exc()},
                                "msg": "mairix left output the monitor cannot interpret: %s" % e}
    res.update(counts=ctx.counts, sigs=list(ctx.sigs), samples=ctx.samples, wall=time.time() - t, known=sorted(ctx.known))
    return res


def load_known():
    """known-findings.txt: lines 'finding: property=<id> key=<exact violation key> -- <what fails>'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: "):
                head, _, what = line[len("finding: "):].strip().partition(" -- ")
                d = dict(x.split("=", 1) for x in head.split(" ", 1))
                out.append((d["property"], d["key"], what))
    return out


def leave(code):
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)              # (a pool that was ended early is not waited for)


def main(prop, cases, variants=("plain",), level="exploration", rule="", eval_counter="evaluations",
         assumptions=(), min_evals=1, procs=None, prepare=None):
    """cases: list of (case id, function(ctx)). Exits 0, 1 (violation) or 3 (harness error)."""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("MX_CASE")
    if only:
        cases = [c for c in cases if c[0] == only]
    exes = {}
    for v in variants:
        exes[v] = _build.build(v)
    if prepare:
        prepare(exes)
    jobs = [(prop, tier, seed, cid, exes, fn) for cid, fn in cases]
    _JOBS[:] = jobs
    results = []
    procs = procs or min(8, os.cpu_count() or 8)
    _BASE[:] = [tempfile.mkdtemp(prefix="mx%s." % prop, dir=scratch_base())]
    os.chmod(_BASE[0], 0o755)
    limit = float(os.environ.get("MX_BUDGET") or (BUDGET if tier == "quick" else 1e9))
    stop = t0 + limit
    pool = mp.get_context("fork").Pool(procs, initializer=_init_worker)
    try:
        it = pool.imap_unordered(_run_case, range(len(jobs)))
        while len(results) < len(jobs) and time.time() < stop:
            try:
                r = it.next(timeout=max(.1, stop - time.time()))
            except mp.TimeoutError:
                break
            results.append(r)
            if r["violation"]:
                stop = min(stop, time.time() + AFTER)        # other kinds of violation get a while to show
    finally:
        if len(results) < len(jobs):
            pool._worker_handler._state = pool._state = mp.pool.TERMINATE      # no new workers
            time.sleep(.3)
            for w in pool._pool:
                try:
                    os.killpg(w.pid, signal.SIGKILL)
                except OSError:
                    pass
            time.sleep(.3)
        else:
            pool.terminate()
        if not os.environ.get("MX_KEEP"):
            _force_rmtree(_BASE[0])
    results.sort(key=lambda r: str(r["case"]))
    counts, sigs, samples, viol, errs, known_hit = {}, set(), [], [], [], set()
    known = [(k, w) for p, k, w in load_known() if p == prop]
    for r in results:
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
        sigs.update(r["sigs"])
        for s in r["samples"]:
            if len(samples) < 6:
                samples.append(s)
        for k in r["known"]:
            known_hit.add(k)
        if r["violation"]:
            hit = [k for k, w in known if k == r["violation"]["key"]]
            if hit:
                known_hit.add(hit[0])
            else:
                viol.append(r)
        if r["error"]:
            errs.append(r)
    evals = counts.get(eval_counter, 0)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": rule,
                       "samples": samples or ["(none)"], "cases": len(results), "cases_not_run": len(jobs) - len(results), "observed": counts},
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for k, w in known:
        if k in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if viol:
        os.makedirs(os.path.join(REPLAY, prop), exist_ok=True)
        seen = set()
        for r in viol:
            v = r["violation"]
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = os.path.join(REPLAY, prop, "seed%d-%s.json" % (seed, str(r["case"]).replace("/", "_")))
            with open(path, "w") as f:
                json.dump({"property": prop, "case": r["case"], "seed": seed, "tier": tier, "key": v["key"],
                           "message": v["msg"], "detail": v["detail"],
                           "replay": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s MX_CASE=%s python3 checks/%s.py"
                                     % (seed, tier, r["case"], prop)}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  case %s: [%s] %s" % (r["case"], v["key"], v["msg"]))
            if len(seen) >= 8:
                break
        print("%d of %d cases violated" % (len(viol), len(results)))
        leave(1)
    if errs:
        for r in errs[:3]:
            sys.stderr.write("harness error in case %s:\n%s\n" % (r["case"], r["error"]))
        leave(3)
    if evals < min_evals and not only:
        sys.stderr.write("observed too little: %s=%d < %d\n" % (eval_counter, evals, min_evals))
        leave(3)
    print("%s %s seed=%d: held on %d evaluations (%d distinct), %d cases, %d mairix runs, %.1fs"
          % (prop, tier, seed, evals, len(sigs), len(results), counts.get("runs", 0), time.time() - t0))
    leave(0)
