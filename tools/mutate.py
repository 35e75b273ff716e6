#!/usr/bin/env python3
"""Development helper: mutation campaign against the checks (no check uses it; nothing is applied to /repo).
  mutate.py gen OUTDIR N SEED [FILES...]   make N source mutants in scratch copies, keep those that compile, change the
                                           object code and pass the stable tests, as OUTDIR/<k>.diff
  mutate.py run OUTDIR [CHECKS...]         run the checks on each kept mutant until one reports; OUTDIR/result.txt
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {"search.c": 16, "db.c": 14, "rfc822.c": 16, "mbox.c": 14, "tok.c": 4, "reader.c": 3, "writer.c": 6, "dates.c": 5,
         "dirscan.c": 5, "glob.c": 5, "mairix.c": 8, "expandstr.c": 2, "dotlock.c": 3, "nvp.c": 5, "imap.c": 10,
         "imapinterface.c": 6, "xzfile.c": 1, "hash.c": 1}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


OPS = [
    (r"(?<![<>=!\-+&|])<(?![<=])", ["<="]), (r"(?<![<>=!\-])>(?![>=])", [">="]), (r"<=", ["<"]), (r"(?<!>)>=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"\+\+", ["--"]), (r"(?<=[\w\])] )\+ (?=\w)", ["- "]), (r"(?<=[\w\])] )- (?=\w)", ["+ "]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.\"%])([2-9]|[1-9]\d+)(?![\w.\"])", ["N+1", "N-1"]),
    (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"(?<=if )\((?=!)", ["(!"]), (r"(?<=[(&| ])!(?=[\w(])", [""]),
    (r"\+= ", ["= "]), (r"\|= ", ["= "]), (r"& ~", ["& "]), (r"\bstrcmp\b", ["strcasecmp"]), (r"\bstrncmp\b", ["strncasecmp"]),
    (r"\bstrncasecmp\b", ["strncmp"]), (r"\bstrcasecmp\b", ["strcmp"]), (r"\bstrchr\b", ["strrchr"]), (r"\bstrrchr\b", ["strchr"]),
    (r"\bmin\b", ["max"]), (r"\btolower\b", ["toupper"]), (r"O_EXCL", ["0"]), (r"\blstat\b", ["stat"]),
]
SKIP = re.compile(r"^\s*(#|\*|/\*|//|assert)|printf|fputs|perror|report_error|out_of_mem|\bassert\s*\(|usage|verbose|^\s*(static|struct|extern|typedef|enum|case|int|char|unsigned|size_t|off_t|void)\b[^=(]*;?\s*$|^\S.*\(.*$")


def mutants(path, rng):
    lines = open(path, encoding="latin-1").read().split("\n")
    incomment = False
    cand = []
    for i, l in enumerate(lines):
        if incomment:
            if "*/" in l:
                incomment = False
            continue
        s = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group(0)), l)
        if "/*" in s:
            incomment = True
            continue
        if SKIP.search(l) or not l.startswith((" ", "\t")) or not l.strip():
            continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\0" * (len(m.group(0)) - 2) + '"', s)
        code = re.sub(r"'(\\.|[^'\\])'", lambda m: "'" + "\0" * (len(m.group(0)) - 2) + "'", code)
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                for r in reps:
                    t = m.group(0)
                    if r == "N+1":
                        r2 = str(int(t) + 1)
                    elif r == "N-1":
                        r2 = str(int(t) - 1)
                    else:
                        r2 = r
                    cand.append((i, l[:m.start()] + r2 + l[m.end():]))
        st = l.strip()
        if st.endswith(";") and not st.startswith(("return", "break", "continue", "goto", "free", "}", "for", "else", "do", "while")) \
                and not re.match(r"^(struct|int|char|unsigned|const|static|size_t|off_t|time_t|FILE|enum|va_list|long|off_t|md5_byte_t|struct stat)\b", st) \
                and st.count("(") == st.count(")") and lines[i - 1].rstrip().endswith((";", "{", "}")):
            for _ in range(2):
                cand.append((i, re.match(r"\s*", l).group(0) + ";"))
    rng.shuffle(cand)
    for i, nl in cand:
        if nl != lines[i]:
            yield i, lines[i], nl, "\n".join(lines[:i] + [nl] + lines[i + 1:])


def worker(args):
    k, f, orig, new, text, out = args
    w = tempfile.mkdtemp(prefix="mutw.", dir="/dev/shm")
    try:
        r = w + "/repo"
        sh("cp -a /repo %s" % r)
        bs = open("/opt/vp/build.sh").read().replace("/repo", r)
        ts = open("/opt/vp/test.sh").read().replace("/repo", r).replace("/opt/vp/build.sh", w + "/build.sh")
        open(w + "/build.sh", "w").write(bs)
        open(w + "/test.sh", "w").write(ts)
        o = f[:-2] + ".o"
        fl = "-O1 -w -DHAS_STDINT_H -DHAS_INTTYPES_H -DUSE_GZIP_MBOX -DUSE_BZIP_MBOX -DUSE_XZ_MBOX -DUSE_OPENSSL"
        sh("cd %s && gcc %s -c %s -o %s/a.o" % (r, fl, f, w))
        open(os.path.join(r, f), "w", encoding="latin-1").write(text)
        c = sh("cd %s && gcc %s -c %s -o %s/b.o" % (r, fl, f, w))
        if c.returncode:
            return "nocompile"
        if open(w + "/a.o", "rb").read() == open(w + "/b.o", "rb").read():
            return "same"
        try:
            t = sh("ulimit -f 500000 -v 8000000; bash %s/test.sh %s/o.json" % (w, w), timeout=400)
            j = json.load(open(w + "/o.json"))
        except Exception:
            return "killed"
        if len(j["passed"]) != 41:
            return "killed"
        d = sh("git -C %s diff" % r).stdout
        open("%s/%03d.diff" % (out, k), "w", encoding="latin-1").write(d)
        return "kept"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def gen(out, n, seed, files):
    os.makedirs(out, exist_ok=True)
    rng = random.Random(seed)
    pool = {f: mutants("/repo/" + f, random.Random("%s/%s" % (seed, f))) for f in files or FILES}
    names = list(pool)
    jobs = []
    while len(jobs) < n:
        f = rng.choices(names, [FILES.get(x, 3) for x in names])[0]
        try:
            i, orig, nl, text = next(pool[f])
        except StopIteration:
            names.remove(f)
            continue
        jobs.append((len(jobs), f, orig, nl, text, out))
    from collections import Counter
    c = Counter()
    with cf.ProcessPoolExecutor(int(os.environ.get("PROCS", "8"))) as ex:
        for j, r in zip(jobs, ex.map(worker, jobs)):
            c[r] += 1
    print(dict(c))


ORDER = {"search.c": "C01 C02 C03 C08 C09 C04 C06 C16 C07 C15", "db.c": "C05 C06 C15 C04 C12 C01 C18 C03 C16",
         "rfc822.c": "C12 C13 C03 C11 C18 C04 C16 C15", "mbox.c": "C13 C05 C15 C06 C09 C14 C18", "tok.c": "C01 C15 C05 C06",
         "reader.c": "C15 C01 C05 C11", "writer.c": "C15 C01 C05 C06", "dates.c": "C03", "dirscan.c": "C14 C05 C18",
         "glob.c": "C14 C08 C11", "mairix.c": "C17 C08 C07 C10 C14 C09 C16", "expandstr.c": "C17 C11", "dotlock.c": "C10 C17",
         "nvp.c": "C12 C11", "imap.c": "C16", "imapinterface.c": "C16", "xzfile.c": "C13 C18 C11", "hash.c": "C15 C01"}
ALL = ["C%02d" % i for i in range(1, 25)]


def run(out, only):
    res = open(out + "/result.txt", "a")
    done = set(l.split()[0] for l in open(out + "/result.txt"))
    for name in sorted(os.listdir(out)):
        if not name.endswith(".diff") or name in done:
            continue
        d = open(os.path.join(out, name), encoding="latin-1").read()
        f = re.search(r"^\+\+\+ b/(\S+)", d, re.M).group(1)
        w = tempfile.mkdtemp(prefix="mutr.", dir="/dev/shm")
        try:
            r = w + "/repo"
            sh("cp -a /repo %s" % r)
            a = sh("git -C %s apply %s" % (r, os.path.abspath(os.path.join(out, name))))
            if a.returncode:
                res.write("%s NOAPPLY\n" % name)
                continue
            order = ORDER.get(f, "").split()
            order += [c for c in ALL if c not in order]
            if os.environ.get("RELATED"):
                order = ORDER.get(f, "").split()
            if only:
                order = only
            hit = None
            t0 = time.time()
            for c in order:
                if not os.path.exists("%s/checks/%s.py" % (HERE, c)):
                    continue
                k = sh("timeout -k 5 900 python3 checks/%s.py" % c, cwd=HERE, env=dict(os.environ, MX_REPO=r, MX_EVID=w + "/ev", MX_TIMEOUT="10"))
                if k.returncode == 1 and "VIOLATION" in k.stdout:
                    v = [l for l in k.stdout.splitlines() if l.startswith("  case")]
                    hit = "%s %s" % (c, (v or [""])[0][:150])
                    break
                if k.returncode not in (0, 1):
                    res.write("# %s %s rc=%d %s\n" % (name, c, k.returncode, k.stdout[-300:].replace("\n", "|")))
            ch = [l for l in d.splitlines() if l[:1] in "+-" and l[:3] not in ("+++", "---")]
            ln = re.search(r"^@@ -(\d+)", d, re.M).group(1)
            res.write("%s %s %s:%s %ds %s\n" % (name, "CAUGHT " + hit if hit else "MISSED", f, ln, time.time() - t0, " => ".join(x.strip() for x in ch)))
            res.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)
            b = HERE + "/.cache/bin"
            for x in os.listdir(b) if os.path.isdir(b) else ():
                if os.path.getmtime(os.path.join(b, x)) > t0 - 1:
                    shutil.rmtree(os.path.join(b, x), ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
    else:
        run(sys.argv[2], sys.argv[3:])
