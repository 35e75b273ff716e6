"""Builds mairix variants out of tree from /repo's current working tree."""
import hashlib, os, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get("MX_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".cache")

VARIANTS = {
    # name: (CC, CFLAGS)
    "plain": ("gcc", "-O1 -g"),
    "asan": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
                    "-fno-sanitize-recover=all -include " + os.path.join(HERE, "shim", "mapcopy.h")),
    "tracecov": ("clang", "-O1 -g -fprofile-instr-generate -fcoverage-mapping"),
}
SHIMS = ["shim/mapcopy.h"]
SKIP_DIRS = {".git", "_build", "test", "old_docs"}


class BuildError(Exception):
    pass


def _sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if not (rel == "." and d in SKIP_DIRS))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            out.append(os.path.relpath(p, REPO))
    return out


def _is_product(rel):
    """Build products that may lie around in /repo: never copied (they could be stale)."""
    b = os.path.basename(rel)
    if b.endswith((".o", ".output", ".report")) or rel in ("Makefile", "config.log", "version.h"):
        return True
    if rel in ("mairix", "dfasyn/dfasyn", "datescan.c", "datescan.h", "fromcheck.c", "fromcheck.h",
               "nvpscan.c", "nvpscan.h", "dfasyn/parse.c", "dfasyn/parse.h", "dfasyn/scan.c"):
        return True
    return False


def tree_hash():
    h = hashlib.sha256()
    for rel in SHIMS:
        h.update(open(os.path.join(HERE, rel), "rb").read())
    for rel in _sources():
        if _is_product(rel):
            continue
        h.update(rel.encode() + b"\0")
        with open(os.path.join(REPO, rel), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def _copy_sources(src):
    for rel in _sources():
        if _is_product(rel):
            continue
        d = os.path.join(src, rel)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(os.path.join(REPO, rel), d)


FUZZ_FLAGS = "-O1 -g -w -fsanitize=address,undefined -fno-sanitize=function -fno-sanitize-recover=all"


def build_fuzz():
    """The in-process libFuzzer target, or None where its use of mairix's internal functions does not compile."""
    harness = os.path.join(HERE, "fuzz", "fuzz_mail.c")
    key = hashlib.sha256((tree_hash() + FUZZ_FLAGS).encode() + open(harness, "rb").read()).hexdigest()[:24]
    dest = os.path.join(CACHE, "bin", "fuzz-" + key)
    exe = os.path.join(dest, "fuzz_mail")
    if os.path.exists(exe):
        return exe
    scratch = tempfile.mkdtemp(prefix="mxbuild.")
    try:
        src = os.path.join(scratch, "src")
        _copy_sources(src)
        env = dict(os.environ, CC="clang", CFLAGS=FUZZ_FLAGS + " -fsanitize=fuzzer-no-link", LC_ALL="C")
        for k in ("MAKEFLAGS", "MFLAGS", "CPPFLAGS", "LDFLAGS"):
            env.pop(k, None)

        def run(cmd):
            r = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, timeout=600, shell=isinstance(cmd, str))
            if r.returncode:
                raise BuildError(r.stdout.decode("utf-8", "replace")[-3000:])
        run(["sh", "./configure"])
        run(["make", "-C", "dfasyn", "CC=gcc", "CFLAGS=-O1"])
        run(["make", "datescan.c", "datescan.h", "fromcheck.c", "fromcheck.h", "nvpscan.c", "nvpscan.h", "version.h"])
        run(["make", "-j8", "all"])
        defs = "-DHAS_STDINT_H -DHAS_INTTYPES_H -DUSE_GZIP_MBOX -DUSE_BZIP_MBOX -DUSE_XZ_MBOX -DUSE_OPENSSL"
        fl = FUZZ_FLAGS + " -fsanitize=fuzzer-no-link " + defs
        run("objcopy --redefine-sym main=mairix_main mairix.o")
        run("clang %s -I. -c %s -o fuzz_mail.obj" % (fl, harness))
        libs = ""
        for line in open(os.path.join(src, "Makefile")):
            if line.startswith("LIBS="):
                libs = line[5:].strip()
        run("clang %s -fsanitize=fuzzer -Wl,--wrap=exit -o fuzz_mail fuzz_mail.obj *.o %s" % (FUZZ_FLAGS, libs))
        os.makedirs(dest, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        shutil.copy2(os.path.join(src, "fuzz_mail"), tmp)
        os.rename(tmp, exe)
        return exe
    except (BuildError, subprocess.TimeoutExpired) as e:
        sys.stderr.write("in-process target not built (process-level workload only): %s\n" % str(e)[-600:])
        return None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def build(variant="plain", extra_cflags="", configure_args=()):
    """Returns the path of a mairix binary built from /repo's current tree."""
    cc, cflags = VARIANTS[variant]
    cflags = (cflags + " " + extra_cflags).strip()
    key = hashlib.sha256(("%s|%s|%s|%s" % (tree_hash(), cc, cflags, configure_args)).encode()).hexdigest()[:24]
    dest = os.path.join(CACHE, "bin", "%s-%s" % (variant, key))
    exe = os.path.join(dest, "mairix")
    if os.path.exists(exe):
        return exe
    scratch = tempfile.mkdtemp(prefix="mxbuild.")
    try:
        src = os.path.join(scratch, "src")
        _copy_sources(src)
        env = dict(os.environ, CC=cc, CFLAGS=cflags, LC_ALL="C")
        for k in ("MAKEFLAGS", "MFLAGS", "CPPFLAGS", "LDFLAGS"):
            env.pop(k, None)
        log = []

        def run(cmd):
            r = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, timeout=600)
            log.append(r.stdout.decode("utf-8", "replace"))
            if r.returncode:
                raise BuildError("%s failed:\n%s" % (cmd, "".join(log)[-4000:]))
        run(["sh", "./configure", *configure_args])
        # dfasyn only generates tables: build it uninstrumented so its own leaks cannot stop a build
        run(["make", "-C", "dfasyn", "CC=gcc", "CFLAGS=-O1"])
        run(["make", "datescan.c", "datescan.h", "fromcheck.c", "fromcheck.h", "nvpscan.c", "nvpscan.h", "version.h"])
        run(["make", "-j8", "all"])
        os.makedirs(dest, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        shutil.copy2(os.path.join(src, "mairix"), tmp)
        os.rename(tmp, exe)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return exe


def build_dfasyn(variant="plain"):
    """The scanner generator itself."""
    cflags = "-O1 -g" if variant == "plain" else "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
    key = hashlib.sha256(("dfasyn|%s|%s" % (tree_hash(), cflags)).encode()).hexdigest()[:24]
    dest = os.path.join(CACHE, "bin", "dfasyn-%s-%s" % (variant, key))
    exe = os.path.join(dest, "dfasyn")
    if os.path.exists(exe):
        return exe
    scratch = tempfile.mkdtemp(prefix="mxbuild.")
    try:
        src = os.path.join(scratch, "src")
        _copy_sources(src)
        env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS", "CPPFLAGS", "LDFLAGS", "CFLAGS")}
        r = subprocess.run(["make", "-C", "dfasyn", "CC=gcc", "CFLAGS=" + cflags], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=600)
        if r.returncode:
            raise BuildError(r.stdout.decode("utf-8", "replace")[-3000:])
        os.makedirs(dest, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        shutil.copy2(os.path.join(src, "dfasyn", "dfasyn"), tmp)
        os.rename(tmp, exe)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return exe


def preload(name):
    """Builds /verif/preload/<name>.c into a shared object."""
    src = os.path.join(HERE, "preload", name + ".c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    dest = os.path.join(CACHE, "so", "%s-%s.so" % (name, h))
    if not os.path.exists(dest):
        os.makedirs(os.path.dirname(dest), exist_ok=True)
        tmp = dest + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"], check=True)
        os.rename(tmp, dest)
    return dest


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "asan"]:
        t = time.time()
        print(v, build(v), "%.1fs" % (time.time() - t))
