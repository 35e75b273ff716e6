"""C11: sanitizers and assertions stay silent on hostile mail, mboxes, queries, rc files and histories."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, hostile, build
from mx.common import *
from mx.history import History

SAN = "asan"


def store(ctx, variant=SAN):
    return mail.Store(ctx, variant=variant)


def put_messages(ctx, st, n):
    r = ctx.rng
    for i in range(n):
        data = hostile.hostile_message(r)
        if r.random() < .1:          # sizes at page boundaries
            pad = 4096 - len(data) % 4096
            data += b"x" * pad if r.random() < .5 else b""
        k = i % 2
        m = mail.Msg("h%d" % i)
        m.render = lambda mbox_flags=False, d=data: d
        if k:
            st.add_mh_msg("mh0", m)
        else:
            m.flags = r.choice(["", "S", "FRS"])
            st.add_maildir_msg("md0", m)
        ctx.count("hostile_messages")
        ctx.seen("m", len(data), data[:40], data[-20:])


def put_mboxes(ctx, st, n, tag=""):
    r = ctx.rng
    for i in range(n):
        data = hostile.hostile_mbox(r, r.choice([0, 1, 3, 10]))
        comp = r.choice([None, None, "gz", "bz2", "xz"])
        name = "hb%s%d%s%s" % (tag, i, "n" * r.choice([0, 0, 1, 5, 16, 31, 40, 100, 180]), "." + comp if comp else "")
        if r.random() < .3:
            data += b"From a@b.example Mon Jan  3 10:00:00 2011\nSubject: cut\nContent-Type: multipart/mixed; boundary=zz\n\n--zz\n\n" + b"x\n" * r.choice([0, 3, 20000])
        st.write(os.path.join(st.mail, name), hostile.compress(r, data, comp) if comp else data)
        st.mboxes[name] = []
        ctx.count("hostile_mboxes")
        ctx.seen("b", len(data), data[:40], data[-20:])


ANY = (0, 1, 2, 3)


def exercise(ctx, st, nq=3):
    """Searches of every output kind over whatever was indexed."""
    r = ctx.rng
    if not os.path.exists(st.db):
        return
    run = lambda *a: ctx.run(["-f", st.rc, *a], variant=st.variant, ok=ANY)
    run("-r", "~zzz")
    run("-x", r.choice(["~zzz", "b:a=", "s:e=1"]))
    run("-t", "-r", r.choice(["~zzz", "b:a=", "m:x=2"]))
    for _ in range(nq):
        qs = [hostile.hostile_query(r) for _ in range(r.choice([1, 1, 2]))]
        qs = [q.replace("\0", "") for q in qs]
        run("-r", "--", *qs)
        ctx.count("hostile_queries")
        ctx.seen("q", tuple(qs))
    for fmt in ("maildir", "mh", "mbox"):
        if r.random() < .5:
            st.mfolder = os.path.join(st.root, "mf_" + fmt)
            st.write_rc(mformat=fmt)
            run(*(["-a"] if r.random() < .4 else []), "~zzz")
    if r.random() < .3:
        run("-d")
    ctx.count("evaluations")


def mail_case(ctx):
    r = ctx.rng
    st = store(ctx)
    put_messages(ctx, st, tier_n(40, 80))
    put_mboxes(ctx, st, 4)
    st.write_rc()
    st.index(ok=ANY)
    exercise(ctx, st)
    # second round: damage some of it, update, purge
    for root, dirs, files in os.walk(st.mail):
        for f in files:
            p = os.path.join(root, f)
            if f.startswith("."):
                continue
            k = r.random()
            if k < .15:
                os.unlink(p)
            elif k < .35:
                st.write(p, hostile.mutate(r, open(p, "rb").read(), r.choice([1, 3])))
    put_mboxes(ctx, st, 1, "x")
    st.write_rc()
    st.index(*(["-p"] if r.random() < .5 else []), ok=ANY)
    exercise(ctx, st)
    ctx.sample({"stores": [len(os.listdir(st.mail))], "rc": open(st.rc, encoding="latin-1").read()[:300]}, 1)


def query_case(ctx):
    r = ctx.rng
    st = store(ctx)
    voc = mail.Vocab(r, 60)
    fill_store(ctx, st, 25, voc, midpool=[])
    st.write_rc()
    st.index()
    for _ in range(tier_n(60, 200)):
        qs = [hostile.hostile_query(r).replace("\0", "") for _ in range(r.choice([1, 1, 2, 3]))]
        ctx.run(["-f", st.rc, r.choice(["-r", "-r", "-x", "-t"]), "--", *qs] if r.random() < .9 else
                ["-f", st.rc, "-t", "-r", "--", *qs], variant=SAN, ok=ANY)
        ctx.count("hostile_queries")
        ctx.count("evaluations")
        ctx.seen("q", tuple(qs))


def history_case(ctx):
    """The histories of C05/C06 under the sanitizers, thread and excerpt searches included."""
    r = ctx.rng
    st = store(ctx)
    voc = mail.Vocab(r, 40)
    h = History(ctx, st, voc)
    for _ in range(r.choice([1, 6, 20])):
        h.step([("op_add_file", 3), ("op_new_box", 1)])
    h.index(ok=ANY)
    for _ in range(tier_n(6, 12)):
        for _ in range(r.choice([1, 2, 5])):
            h.step()
        if not h.configured():
            continue
        h.index(*(["-p"] if r.random() < .35 else []), *(["-v"] if r.random() < .1 else []))
        if os.path.exists(st.db):
            st.search(["~zzz"])
            st.search(["b:a="], ("-t", "-r"))
            ctx.run(["-f", st.rc, "-x", "~zzz"], variant=SAN, ok=ANY)
            if r.random() < .4:
                fmt = r.choice(["maildir", "mh", "mbox"])
                st.mfolder = os.path.join(st.root, "mf_" + fmt)
                h.st.write_rc(mformat=fmt)
                ctx.run(["-f", st.rc, *(["-a"] if r.random() < .4 else []), "b:a="], variant=SAN, ok=ANY)
        ctx.count("evaluations")
        ctx.count("history_steps")
        ctx.seen("h", h.log[-1], len(h.log), len(h.live()))


RCKEYS = ["base", "maildir", "folders", "mh", "mh_folders", "mbox", "mboxen", "omit", "mformat", "mfolder", "database", "nochecks", "follow_mbox_symlinks",
          "sort", "imap", "imap_server", "imap_username", "imap_password", "vfolder", "vformat", "junk"]


def rc_case(ctx):
    """Arbitrary rc files; run as an unprivileged user in its own scratch directory because rc files name paths to write to."""
    r = ctx.rng
    if os.getuid() != 0:
        raise core.Inconclusive()
    root = ctx.root
    exe = os.path.join(root, "mairix")
    shutil.copy2(ctx.exes[SAN], exe)
    voc = mail.Vocab(r, 20)
    st = store(ctx)
    fill_store(ctx, st, 8, voc)
    os.makedirs(os.path.join(st.mail, "plain"))

    def own(p):
        for d, ds, fs in os.walk(p):
            os.lchown(d, 65534, 65534)
            for f in fs:
                os.lchown(os.path.join(d, f), 65534, 65534)
    own(root)
    os.chmod(root, 0o755)

    def drop(uid=65534):
        os.setgroups([])
        os.setgid(65534)
        os.setuid(uid)
    values = [st.mail, st.mail + "/md0", "md0", "mh0", "*", "md*", "...", "md...", "m[dh]0", "[", "[a", "[^", "m[a-z]*", "?" * 40, "*" * 40, "a" * 40 + "*", "box*", ":", "::", "", " ", "$HOME", "$", "${", "${X",
              "${NOPE}", "$NOPE/x", "$BASEV", "${BASEV}/md0", "~", "~/x", "~nosuchuser/x", "a\\:b", "\\", "x\\", "maildir", "mh", "mbox", "raw", "excerpt", "imap", "date", "yes", "../mail/md0", "./md0", "db2", "mf2", "\xe9",
              "=", "==", "#x", "a b", "\t", "x" * 2000]
    for _ in range(tier_n(25, 80)):
        L = []
        if r.random() < .8:
            L.append("base=%s" % st.mail)
        if r.random() < .8:
            L.append("database=%s" % r.choice([st.db, "dbrel"]))
        if r.random() < .6:
            L.append("mfolder=%s" % r.choice(["mf", st.root + "/mfx"]))
        for _ in range(r.choice([1, 3, 6])):
            k = r.choice(RCKEYS)
            L.append(r.choice([k + "=", k + "=", k + " = ", " " + k + "=", k, k.upper() + "="]) + "".join(r.choice(values) + r.choice(["", "", ":"]) for _ in range(r.choice([0, 1, 1, 2, 3]))))
        if r.random() < .3:
            L.append(r.choice(["#comment", "", "   ", "\t# x", "nonsense", "=", "\xff\xfe"]))
        r.shuffle(L)
        t = r.choice(["\n", "\n", "\n", "\r\n"]).join(L) + r.choice(["\n", "", "\n\n"])
        if r.random() < .15:
            i = r.randrange(len(t) + 1)
            t = t[:i] + r.choice(["\0", "\n", "=", "$", "\\", ""]) + t[i + r.choice([0, 1, 5]):]
        with open(st.rc, "wb") as f:
            f.write(t.encode("latin-1"))
        for a in (["-f", st.rc], ["-f", st.rc, "-r", "~zzz"], ["-f", st.rc, "~zzz"]):
            if r.random() < .2:              # somebody without a home directory
                ctx.run(a, exe=exe, ok=ANY, preexec=lambda: drop(54321), cwd=st.root, env={"HOME": None, "BASEV": st.mail})
                ctx.count("homeless_runs")
            ctx.run(a, exe=exe, ok=ANY, preexec=drop, cwd=st.root, env={"HOME": st.root, "BASEV": st.mail})
            ctx.count("evaluations")
        ctx.count("hostile_rc_files")
        ctx.seen("rc", t)


def glob_case(ctx):
    """Wildcards of every shape against directory trees."""
    r = ctx.rng
    st = store(ctx)
    names = ["".join(r.choice("abc-.[]01") for _ in range(r.choice([1, 3, 8, 40]))) for _ in range(12)]
    for n in names:
        if n in (".", ".."):
            continue
        st.add_maildir_msg(n, mail.Msg("x", subject="s"))
    for _ in range(tier_n(25, 80)):
        pat = "".join(r.choice(["a", "b", "c", "*", "?", "[ab]", "[^a]", "[a-c]", "[", "]", "-", "[]", "[]a]", "[^]a]", "[a-", "[-a]", "\\", "...", "x" * 33, "a" * 64, "/"]) for _ in range(r.choice([1, 2, 4, 8])))
        om = "".join(r.choice(["a", "b", "*", "?", "[ab]", "[^a", "[", "a" * 40]) for _ in range(r.choice([0, 1, 3])))
        with open(st.rc, "w") as f:
            f.write("base=%s\nmaildir=%s\n%smfolder=%s\ndatabase=%s\n" % (st.mail, pat, "omit=%s\n" % om if om else "", st.mfolder, st.db))
        ctx.run(["-f", st.rc], variant=SAN, ok=ANY)
        ctx.count("globs")
        ctx.count("evaluations")
        ctx.seen("g", pat, om)


def valgrind_case(ctx):
    """Uninitialised data: the unsanitized binary under memcheck over a history with hostile mail."""
    r = ctx.rng
    st = store(ctx, "plain")
    vg = ["valgrind", "--error-exitcode=99", "-q", "--track-origins=no", "--undef-value-errors=yes"]

    def run(*a):
        res = ctx.run([], raw_argv=vg + [ctx.exes["plain"], "-f", st.rc, *a], env={"MALLOC_PERTURB_": None}, timeout=300)
        if res.rc == 99:
            import re
            t = res.err.decode("latin-1")
            fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (\w+) \((\w+\.c):", t)
            kind = (re.search(r"==\d+== ([A-Z][^\n]{0,50})", t) or [0, "?"])[1]
            ctx.violate("memcheck:%s@%s" % (kind, ",".join(f for f, _ in fr[:2])), "valgrind: %s" % kind, **res.brief())
        ctx.count("valgrind_runs")
        ctx.count("evaluations")
        return res
    if r.random() < .5:
        put_messages(ctx, st, 12)
        put_mboxes(ctx, st, 3)
        st.write_rc()
        run()
        if os.path.exists(st.db):
            run("-r", "~zzz")
            run("-x", "~zzz")
            st.write_rc(mformat="mbox")
            run("~zzz")
    else:
        voc = mail.Vocab(r, 30)
        h = History(ctx, st, voc)
        for _ in range(8):
            h.step([("op_add_file", 2), ("op_new_box", 1)])
        h.write_rc()
        run()
        h.note_indexed()
        for _ in range(3):
            for _ in range(r.choice([1, 3])):
                h.step()
            if not h.configured():
                continue
            h.write_rc()
            run(*(["-p"] if r.random() < .4 else []))
            h.note_indexed()
            if os.path.exists(st.db):
                run("-r", "-t", "b:a=")


def fuzz_case(ctx):
    """Coverage-guided search for inputs (in-process target); what it finds counts once the real program fails on it too."""
    r = ctx.rng
    exe = FUZZ[0]
    if not exe:
        ctx.count("fuzz_not_built")
        return
    corp, art = os.path.join(ctx.root, "corpus"), os.path.join(ctx.root, "art")
    os.makedirs(corp)
    os.makedirs(art)
    for i in range(60):
        with open(os.path.join(corp, "s%02d" % i), "wb") as f:
            k = r.random()
            f.write(b"\0" + hostile.hostile_message(r)[:4000] if k < .7 else
                    b"\2" + b"; ".join(hostile.param(r) for _ in range(r.choice([1, 2, 5]))) if k < .85 else
                    b"\3" + bytes(r.choice(b"ab*?[]^-x") for _ in range(r.choice([2, 10, 80]))) if k < .95 else
                    b"\4" + r.choice([b"1jan-31dec", b"2w-1w", b"jan00-", b"-20030101", b"99", b"feb", b"3d", b"31feb2004"]))
    env = dict(core.BASE_ENV, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="")
    n = tier_n(25000, 1500000)
    try:
        p = subprocess.run([exe, "-seed=%d" % r.randint(1, 1 << 30), "-runs=%d" % n, "-max_len=%d" % r.choice([300, 2000, 6000]), "-timeout=20", "-rss_limit_mb=2500",
                            "-max_total_time=%d" % tier_n(60, 3000), "-artifact_prefix=%s/" % art, "-print_final_stats=1", "-dict=" + os.path.join(build.HERE, "fuzz", "mail.dict"), corp],
                           env=env, cwd=ctx.root, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=tier_n(120, 4000))
        import re
        m = re.findall(rb"stat::number_of_executed_units: (\d+)", p.stderr)
        ctx.count("fuzz_executions", int(m[-1]) if m else 0)
        m = re.findall(rb"cov: (\d+) ft: (\d+)", p.stderr)
        if m:
            ctx.count("fuzz_features", int(m[-1][1]))
    except subprocess.TimeoutExpired:
        ctx.count("fuzz_timeouts")
    found = [open(os.path.join(art, f), "rb").read() for f in sorted(os.listdir(art)) if not f.startswith("slow-unit")]
    ctx.count("fuzz_found", len(found))
    st = store(ctx)
    new = [open(os.path.join(corp, f), "rb").read() for f in sorted(os.listdir(corp)) if not f.startswith("s")]
    r.shuffle(new)
    i = 0
    for d in found + new[:tier_n(200, 2000)]:       # the inputs that reached something new run through the whole program
        if not d:
            continue
        k, d = d[0] & 7, d[1:]
        if k == 2:
            d = r.choice([b"Content-Type: ", b"Content-Disposition: "]) + d.replace(b"\n", b" ") + b"\nSubject: x\n\nbody\n"
        if k in (3, 4):
            g = d[:len(d) // 2] if k == 3 else b""
            with open(st.rc, "wb") as f:
                f.write(b"base=%s\nmaildir=%s:md0\nmh=mh0\nmfolder=%s\ndatabase=%s\n" % (st.mail.encode(), g.replace(b"\n", b"").replace(b"/", b""), st.mfolder.encode(), st.db.encode()))
            ctx.run(["-f", st.rc], variant=SAN, ok=ANY)
            if k == 4 and os.path.exists(st.db):
                ctx.run(["-f", st.rc, "-r", b"d:" + d.replace(b"\0", b"")], variant=SAN, ok=ANY)
        else:
            m = mail.Msg("f%d" % i)
            m.render = lambda mbox_flags=False, d=d: d
            st.add_mh_msg("mh0", m)
            i += 1
            ctx.seen("f", d[:200])
    if i:
        st.write_rc()
        st.index(ok=ANY)
        exercise(ctx, st)
    ctx.count("evaluations")


FUZZ = [None]


def prepare(exes):
    FUZZ[0] = build.build_fuzz()


cases = ([("fz%02d" % i, fuzz_case) for i in range(tier_n(8, 8))] + [("vg%02d" % i, valgrind_case) for i in range(tier_n(16, 80))] + [("m%03d" % i, mail_case) for i in range(tier_n(80, 900))] +
         [("q%02d" % i, query_case) for i in range(tier_n(16, 120))] + [("h%03d" % i, history_case) for i in range(tier_n(40, 400))] +
         [("rc%02d" % i, rc_case) for i in range(tier_n(16, 100))] + [("g%02d" % i, glob_case) for i in range(tier_n(16, 100))])
if __name__ == "__main__":
    core.main("C11", cases, variants=("asan", "plain"), prepare=prepare, rule="Hostile inputs (damaged MIME mail, mboxes, compressed files, queries, rc files, wildcards) and histories run "
              "under AddressSanitizer+UBSan with read-only mappings replaced by exact-size heap blocks, and under valgrind memcheck; a coverage-guided "
              "fuzzer of the parsers supplies further inputs, which count once the real program fails on them; any report, "
              "assertion failure, fatal signal or hang is a violation. Distinct by input contents.",
              assumptions=["leaks are not violations"], min_evals=200)
