"""C17: settings are resolved the documented way (rc file < environment < command line; expansion; accumulation; errors)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, dbfile, mboxgen
from mx.common import *

FOLD = {"maildir": ["md0", "md1", "sub/md2"], "mh": ["mh0", "mh1", "sub/mh2"], "mbox": ["box0", "box1", "sub/box2"]}
ENV = {"base": "MAIRIX_FOLDER_BASE", "maildir": "MAIRIX_MAILDIR_FOLDERS", "mh": "MAIRIX_MH_FOLDERS", "mbox": "MAIRIX_MBOXEN", "mfolder": "MAIRIX_MFOLDER",
       "database": "MAIRIX_DATABASE"}


class World:
    """Several places that hold folders of the same names, so that it shows where a name was looked up."""

    def __init__(self, ctx):
        self.ctx, self.r, self.n = ctx, ctx.rng, 0
        self.roots = {}
        self.keys = {}                 # folder path -> [(key, uid)]
        for n in ("B1", "B2", "cwd", "home"):
            p = os.path.join(ctx.root, n, "d") if n.startswith("B") else os.path.join(ctx.root, n)
            os.makedirs(p)
            self.roots[n] = p
            for kind in FOLD:
                for f in FOLD[kind]:
                    self.folder(kind, p + "/" + f)
        os.makedirs(os.path.join(ctx.root, "dbs"))
        os.makedirs(os.path.join(ctx.root, "out"))
        os.makedirs(os.path.join(self.roots["cwd"], "dbs"))

    def msg(self):
        self.n += 1
        return ("From: a@b.example\nSubject: everyone unique%d\nMessage-ID: <%d@x>\n\nbody\n" % (self.n, self.n)).encode()

    def folder(self, kind, p):
        ks = self.keys[p] = []
        if kind == "mbox":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            b = mboxgen.Box(self.r)
            for _ in range(self.r.randint(1, 2)):
                b.add(self.msg())
            with open(p, "wb") as f:
                f.write(b.bytes())
            ks += [("mbox", p, a, z) for a, z in b.ext]
            return
        for s in ("cur", "new", "tmp") if kind == "maildir" else ("",):
            os.makedirs(os.path.join(p, s), exist_ok=True)
        if kind == "mh":
            open(p + "/.mh_sequences", "w").close()
        for k in range(self.r.randint(1, 2)):
            q = p + "/cur/1294156%d.%d.h:2,S" % (self.r.randint(100, 999), k) if kind == "maildir" else p + "/%d" % (k + 1)
            with open(q, "wb") as f:
                f.write(self.msg())
            ks.append(("file", q))


def files(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            p = os.path.join(d, x)
            if os.path.islink(p):
                out[p] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                out[p] = ("d",)
            else:
                with open(p, "rb") as f:
                    out[p] = ("f", f.read())
    return out


class Speller:
    """Writes a value the ways an rc file allows."""

    def __init__(self, r, home, env):
        self.r, self.home, self.env, self.k = r, home, env, 0

    def var(self, val):
        for n, v in self.env.items():
            if v == val and self.r.random() < .5 and n.startswith("MXV"):
                return n
        self.k += 1
        n = "MXV" + self.r.choice(["", "_", "a", "9", "_Z_"]) + str(self.k)
        self.env[n] = val
        return n

    def spell(self, v):
        r = self.r
        pre = ""
        if v.startswith(self.home + "/") and r.random() < .6:
            pre, v = "~/", v[len(self.home) + 1:]
        segs = [v]                     # literal text at even places, a variable's name at odd ones
        while r.random() < .4:
            i = r.randrange(0, len(segs), 2)
            t = segs[i]
            if not t:
                continue
            a = r.randint(0, len(t) - 1)
            z = r.randint(a + 1, len(t))
            segs[i:i + 1] = [t[:a], self.var(t[a:z]), t[z:]]
        if r.random() < .1:
            segs += ["MX_NOT_SET", ""]
        out = pre
        for i, t in enumerate(segs):
            if i % 2 == 0:
                out += t
            else:
                nxt = segs[i + 1] or ("$" if i + 2 < len(segs) else "")
                out += "${%s}" % t if r.random() < .5 or re.match(r"[A-Za-z0-9_]", nxt) else "$" + t
        return out


def rc_text(r, lines):
    """Lays the settings out: case of the key, blank lines, comments, order kept."""
    out = []
    for key, val in lines:
        while r.random() < .3:
            out.append(r.choice(["", "   ", "\t", "# a comment", "  # base=/nowhere", "#maildir=md0:md1", "; mfolder=x", "! database=/x", "% comment", "#", "junk=1", "unknown_setting"]))
        k = "".join(c.upper() if r.random() < .3 else c for c in key) if r.random() < .4 else key
        s = k if val is None else k + "=" + val
        s = r.choice(["", "", "", " ", "\t", "   "]) + s
        if r.random() < .15:
            s += r.choice(["#", "# note", ";x=y", "%"])
        out.append(s)
    return "\n".join(out) + ("" if r.random() < .2 else "\n")


def fresh_db(w):
    r = w.r
    return r.choice([os.path.join(w.ctx.root, "dbs", "db%d"), os.path.join(w.ctx.root, "home", ".mairix_db%d"), os.path.join(w.ctx.root, "B1", "d", "db%d"), "dbs/rel%d", "./here%d"]) % r.randint(0, 9)


def gen(w, tag):
    """One configuration: what stands where, and what has to come of it."""
    r, R = w.r, w.roots
    c = {"rc": [], "env": {}, "conf": {}, "error": None}
    sp = Speller(r, R["home"], c["env"])
    conf = c["conf"]

    def put(key, val, raw=False):
        c["rc"].append((key, val if raw or val is None else sp.spell(val)))
    # base
    if r.random() < .93:
        for v in [R[r.choice(["B1", "B2", "home"])] for _ in range(r.choice([1, 1, 1, 2]))]:
            put("base", v)
            conf["base"] = v
    if r.random() < .3:
        conf["base"] = c["env"][ENV["base"]] = R[r.choice(["B1", "B2"])]
    # folders
    for kind in FOLD:
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            fs = []
            for _ in range(r.choice([1, 1, 2])):
                f = r.choice(FOLD[kind])
                fs.append(f if r.random() < .7 else R[r.choice(list(R))] + "/" + f)
            parts = [sp.spell(fs[0])] + [re.sub("^~", R["home"], sp.spell(f)) for f in fs[1:]]
            c["rc"].append((kind, ":".join(parts)))
            conf[kind] = conf.get(kind, []) + fs
        if r.random() < .25:
            conf[kind] = [r.choice(FOLD[kind]) if r.random() < .7 else R[r.choice(list(R))] + "/" + r.choice(FOLD[kind]) for _ in range(r.choice([1, 2]))]
            c["env"][ENV[kind]] = ":".join(conf[kind])
    # database
    if r.random() < .93:
        for v in [fresh_db(w) for _ in range(r.choice([1, 1, 1, 2]))]:
            put("database", v)
            conf["database"] = v
    if r.random() < .3:
        conf["database"] = c["env"][ENV["database"]] = fresh_db(w)
    # where results go
    def mf():
        n = "mf_%s%d" % (tag, r.randint(0, 9))
        return r.choice([n, n, "sub/" + n, os.path.join(w.ctx.root, "out", n), "./" + n, R["home"] + "/" + n])
    if r.random() < .85:
        for v in [mf() for _ in range(r.choice([1, 1, 2]))]:
            put("mfolder", v)
            conf["mfolder"] = v
    if r.random() < .3:
        conf["mfolder"] = c["env"][ENV["mfolder"]] = mf()
    conf["mformat"] = "maildir"
    if r.random() < .75:
        for v in [r.choice(["maildir", "mh", "mbox", "raw", "excerpt"]) for _ in range(r.choice([1, 1, 2]))]:
            put("mformat", v.upper() if r.random() < .15 else v, raw=True)
            conf["mformat"] = v
    if r.random() < .2:
        put("nochecks", None)
    if r.random() < .2:
        put("follow_mbox_symlinks", None)
    if r.random() < .2:
        put("sort", "date+", raw=True)
    # scalars may stand anywhere; the last of each counts
    rest = list(c["rc"])
    order, byk = [], {}
    for kv in rest:
        byk.setdefault(kv[0], []).append(kv)
    while byk:
        k = r.choice(sorted(byk))
        order.append(byk[k].pop(0))
        if not byk[k]:
            del byk[k]
    c["text"] = rc_text(r, order)
    return c


def resolve(w, c):
    conf = c["conf"]
    base = conf.get("base")
    keys = []
    for kind in FOLD:
        for f in conf.get(kind, []):
            p = f if f.startswith("/") else (base or "") + "/" + f
            keys.append((kind, p))
    return keys


def case(ctx):
    r = ctx.rng
    w = World(ctx)
    cwd = w.roots["cwd"]
    for rep in range(tier_n(10, 25)):
        c = gen(w, "r%d_" % rep)
        conf = c["conf"]
        where = resolve(w, c)
        if len({p for k, p in where}) != len(where):
            continue                            # one folder named twice: refused (C14)
        env = dict(c["env"], HOME=w.roots["home"])
        rcp = r.choice([os.path.join(ctx.root, "rc"), os.path.join(w.roots["home"], ".mairixrc"), os.path.join(cwd, "my.rc")])
        with open(rcp, "w") as f:
            f.write(c["text"])
        if rcp.endswith(".mairixrc") and r.random() < .7:
            opt = []
        else:
            opt = [r.choice(["-f", "--rcfile"]), "my.rc" if rcp.endswith("my.rc") and r.random() < .5 else rcp]
        det = {"rc_text": c["text"], "env": c["env"], "options": opt, "resolved": {k: str(v) for k, v in conf.items()}}
        before = files(ctx.root)
        db = conf.get("database")
        dbp = os.path.join(cwd, db) if db else None
        err = not conf.get("base") or not db or not where
        res = ctx.run(opt + r.choice([[], [], ["-v"], ["-Q"], ["--verbose"], ["--no-integrity-checks"]]), env=env, cwd=cwd)
        ctx.count("evaluations")
        after = files(ctx.root)
        new = {p for p in after if after[p] != before.get(p)} | {p for p in before if p not in after}
        if err:
            ctx.count("errors")
            if res.rc != 2:
                ctx.violate("no-error", "base, database or all folders are missing, but indexing exits with %d" % res.rc, run=res.brief(), **det)
            if new:
                ctx.violate("error-wrote", "an indexing run that ends in an error changed %s" % sorted(new)[:4], run=res.brief(), **det)
            ctx.seen("error", bool(conf.get("base")), bool(db), bool(where), "MAIRIX_DATABASE" in env)
            continue
        if res.rc != 0:
            ctx.violate("exit", "indexing ended with %d" % res.rc, run=res.brief(), **det)
        dbp = os.path.normpath(dbp)
        if new - {dbp}:
            ctx.violate("wrote-elsewhere", "indexing changed %s" % sorted(new - {dbp})[:4], run=res.brief(), **det)
        want = set()
        for kind, p in where:
            want |= set(w.keys[p])
        if not os.path.exists(dbp):
            ctx.violate("no-database", "no database at %s" % dbp, run=res.brief(), **det)
        got = set(dbfile.Db(dbp).live()[0])
        if got != want:
            ctx.violate("wrong-folders", "indexed %d messages of other folders, missed %d" % (len(got - want), len(want - got)),
                        missing=[str(x) for x in sorted(want - got, key=str)[:4]], extra=[str(x) for x in sorted(got - want, key=str)[:4]], run=res.brief(), **det)
        ctx.seen("index", tuple(sorted(c["env"])) if len(c["env"]) < 4 else len(c["env"]), len(want), len(c["rc"]), dbp[len(ctx.root):][:6])
        for _ in range(r.choice([1, 2, 3])):
            search(ctx, w, c, opt, env, cwd, want, det, rep)
        if rep == 0 and ctx.case.endswith("0"):
            ctx.sample({"rc": c["text"].split("\n"), "env": c["env"], "messages": len(want)}, 1)
        if r.random() < .5:
            os.unlink(dbp)


def search(ctx, w, c, opt, env, cwd, want, det, rep):
    r, conf = ctx.rng, c["conf"]
    fmt, mf = conf["mformat"], conf.get("mfolder")
    args = list(opt)
    x = []
    if r.random() < .3:
        mf = r.choice(["o%d_%d" % (rep, r.randint(0, 3)), os.path.join(ctx.root, "out", "o%d" % rep), "./oc%d" % rep])
        x.append([r.choice(["-o", "--mfolder"]), mf])
    if r.random() < .3:
        x.append([r.choice(["-r", "--raw-output"])])
        fmt = "raw"
    if r.random() < .2:
        x.append([r.choice(["-x", "--excerpt-output"])])
        fmt = fmt if ["-r"] in x or ["--raw-output"] in x else "excerpt"
    r.shuffle(x)
    for o in x:
        args += o
    args += r.choice([["everyone"], ["s:everyone"], ["-t", "everyone"], ["--threads", "s:everyone"], ["--", "everyone"]])
    before = files(ctx.root)
    res = ctx.run(args, env=env, cwd=cwd)
    after = files(ctx.root)
    ctx.count("evaluations")
    new = {p for p in after if after[p] != before.get(p)} | {p for p in before if p not in after}
    det = dict(det, options=args)
    if fmt in ("raw", "excerpt"):
        if new:
            ctx.violate("raw-wrote", "%s output changed %s" % (fmt, sorted(new)[:3]), run=res.brief(), **det)
        if res.rc != 0:
            ctx.violate("exit", "search ended with %d" % res.rc, run=res.brief(), **det)
        if fmt == "raw":
            if sorted(mail.parse_raw(res.out), key=str) != sorted(want, key=str):
                ctx.violate("raw", "raw output is not the list of all messages", run=res.brief(), **det)
        elif res.out.count(b"\n  Subject:") != len(want):
            ctx.violate("excerpt", "excerpt output does not show all messages", run=res.brief(), **det)
        ctx.seen(fmt, len(x), rep)
        return
    if not mf:
        if res.rc != 2:
            ctx.violate("no-error", "no result folder is set, but the search exits with %d" % res.rc, run=res.brief(), **det)
        if new:
            ctx.violate("error-wrote", "a search that ends in an error changed %s" % sorted(new)[:3], run=res.brief(), **det)
        ctx.seen("nomfolder", fmt)
        return
    p = mf if mf.startswith("/") else os.path.normpath(os.path.join(cwd, mf)) if mf.startswith("./") else conf["base"] + "/" + mf
    if res.rc != 0:
        ctx.violate("exit", "search ended with %d" % res.rc, run=res.brief(), **det)
    bad = [q for q in new if q != p and not q.startswith(p + "/")]
    if bad:
        ctx.violate("wrote-elsewhere", "results should go to %s, but %s changed" % (p, sorted(bad)[:3]), run=res.brief(), **det)
    if fmt == "mbox":
        ok = os.path.isfile(p) and open(p, "rb").read().count(b"\nSubject: everyone") == len(want)
    elif fmt == "mh":
        ok = os.path.isdir(p) and sum(n.isdigit() for n in os.listdir(p)) == len(want)
    else:
        ok = all(os.path.isdir(p + "/" + s) for s in ("cur", "new", "tmp")) and sum(len(os.listdir(p + "/" + s)) for s in ("cur", "new")) == len(want)
    if not ok:
        ctx.violate("results", "the %d matches are not in %s as %s" % (len(want), p, fmt), there=[q for q in after if q.startswith(p)][:10], run=res.brief(), **det)
    if fmt == "mbox":
        os.unlink(p)
    else:
        import shutil
        shutil.rmtree(p)
    ctx.seen(fmt, mf[:2], len(x), rep)


def errors_case(ctx):
    """Errors on the command line and in the rc file: an error exit, nothing changed, no lock left, later runs work."""
    r = ctx.rng
    w = World(ctx)
    cwd = w.roots["cwd"]
    db = os.path.join(ctx.root, "dbs", "db")
    good = "base=%s\nmaildir=md0\nmbox=box0\nmfolder=mf\ndatabase=%s\n" % (w.roots["B1"], db)
    rc = os.path.join(ctx.root, "rc")
    env = {"HOME": w.roots["home"]}
    have = r.random() < .5
    with open(rc, "w") as f:
        f.write(good)
    if have:
        ctx.run(["-f", rc], env=env, cwd=cwd, ok=(0,))
    long_line = "maildir=" + "x" * r.choice([4085, 4086, 4088, 4095, 5000, 20000]) + "\n"
    bad = [(good, ["-f"]), (good, ["-f", rc, "-o"]), (good, ["-f", rc, "--mfolder"]), (good, ["-f", rc, "-Z"]), (good, ["-f", rc, "--no-such-option"]),
           (good, ["-f", rc, "--force-hash-key-new-database"]), (good, ["-f", rc, "--force-hash-key-new-database", "xyz"]), (good, ["-f", os.path.join(ctx.root, "missing")]),
           (good, []), (long_line + good, ["-f", rc]), (good + long_line, ["-f", rc, "everyone"]), (good.replace("base=", "bass="), ["-f", rc]),
           (good.replace("database=", "data="), ["-f", rc, "-d"]), (good.replace("mfolder=mf\n", ""), ["-f", rc, "everyone"]),
           (good.replace("maildir=", "#maildir=").replace("mbox=", "#mbox="), ["-f", rc]), ("", ["-f", rc]), ("\n\n#x\n", ["-f", rc]),
           (good.replace(db, w.roots["B1"]), ["-f", rc]), (good.replace(db, ctx.root + "/no/such/dir/db"), ["-f", rc])]
    if not have:
        bad += [(good, ["-f", rc, "everyone"]), (good, ["-f", rc, "-r", "everyone"]), (good, ["-f", rc, "-t", "everyone"]), (good, ["-f", rc, "-d"])]
    r.shuffle(bad)
    for text, args in bad:
        with open(rc, "w") as f:
            f.write(text)
        before = files(ctx.root)
        res = ctx.run(args, env=env, cwd=cwd, variant=ctx.variant)
        after = files(ctx.root)
        ctx.count("evaluations")
        ctx.count("errors")
        if res.rc == 0:
            ctx.violate("no-error", "%s exits with 0 although it cannot work" % args, rc_text=text[:300], run=res.brief())
        if not res.err:
            ctx.violate("silent-error", "%s fails without a message" % args, rc_text=text[:300], run=res.brief())
        if before != after:
            ctx.violate("error-wrote", "%s fails but changed %s" % (args, sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))[:4]), run=res.brief())
        ctx.seen("cli", tuple(a.replace(ctx.root, "") for a in args), have, len(text))
    for a in (["-h"], ["--help"], ["-V"], ["--version"]):
        before = files(ctx.root)
        res = ctx.run(["-f", rc] + a, env=env, cwd=cwd)
        if res.rc != 0 or not res.out:
            ctx.violate("help", "%s ended with %d" % (a, res.rc), run=res.brief())
        if before != files(ctx.root):
            ctx.violate("help", "%s changed something" % a)
    with open(rc, "w") as f:
        f.write(good)
    ctx.run(["-f", rc], env=env, cwd=cwd, ok=(0,))
    got = set(dbfile.Db(db).live()[0])
    want = set(w.keys[w.roots["B1"] + "/md0"] + w.keys[w.roots["B1"] + "/box0"])
    if got != want:
        ctx.violate("after-errors", "indexing after refused runs gives the wrong messages")


def with_variant(fn, v):
    def f(ctx):
        ctx.variant = v
        fn(ctx)
    return f


if __name__ == "__main__":
    cases = [("s%03d" % i, case) for i in range(tier_n(1500, 10000))]
    cases += [("e%03d" % i, with_variant(errors_case, "asan" if i % 4 == 0 else "plain")) for i in range(tier_n(12, 60))]
    core.main("C17", cases, variants=("plain", "asan"),
              rule="One evaluation per index or search run under a generated rc file, environment and command line: what was indexed, where the database and the results "
                   "landed, and that nothing else in the scratch tree changed, must be what an independent resolver says; error cases must exit non-zero with a message and change "
                   "nothing. Distinct: configuration shape (which sources set what) and outcome.",
              assumptions=["values hold no comment characters (#!;%) and no '$' of their own", "a tilde is expanded at the start of a value only",
                           "a folder named twice is C14's business"], min_evals=1000)
