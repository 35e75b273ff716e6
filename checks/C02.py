"""C02: substring / approximate terms = Sellers edit distance against every indexed word."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail
from mx.common import *

ALPHA = "abc"
EDIT = "abcxyz019_"


def mutate(r, s, k):
    s = list(s)
    for _ in range(k):
        op = r.randrange(3)
        if op == 0 and s:
            s[r.randrange(len(s))] = r.choice(EDIT)
        elif op == 1:
            s.insert(r.randint(0, len(s)), r.choice(EDIT))
        elif s:
            del s[r.randrange(len(s))]
    return "".join(s)


def one_case(ctx):
    r = ctx.rng
    st = mail.Store(ctx)
    # words: random over a tiny alphabet (many near misses), long words, repeats
    ws = set()
    for _ in range(r.choice([10, 40, 120])):
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 15, 20, 29, 30, 31, 32, 33, 40, 64, 65, 90])
        ws.add("".join(r.choice(ALPHA + ("xyz01_" if r.random() < .2 else "")) for _ in range(n)))
    ws = sorted(ws)
    voc = mail.Vocab(r, 20)
    voc.words = ws
    msgs = fill_store(ctx, st, r.choice([3, 12, 30]), voc, folders=3)
    for m in msgs:
        m.__dict__.pop("_tok", None)
    st.write_rc()
    st.index()
    pathset = sorted(set(m.path() for m in msgs))
    for _ in range(tier_n(45, 80)):
        args = []
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.random()
            prefix = None if k < .3 else "".join(r.sample("tcfsbnarp", r.choice([1, 1, 2, 3])))
            a = mail.Arg(prefix, [])
            for _ in range(r.choice([1, 1, 1, 2])):
                g = []
                for _ in range(r.choice([1, 1, 2])):
                    errors = r.choice([0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 9])
                    src = r.choice(ws)
                    if "p" in (prefix or "") and r.random() < .7:
                        src = r.choice(pathset)
                    ln = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 20, 29, 30, 31])
                    i = r.randint(0, max(0, len(src) - ln))
                    pat = src[i:i + ln]
                    delta = r.choice([0, errors, errors, errors + 1])
                    pat = mutate(r, pat, delta)
                    pat = "".join(c for c in pat if c not in "/,=~^: \t")[:31]
                    if not pat:
                        pat = r.choice(ALPHA)
                    if r.random() < .1 and "p" not in (prefix or ""):
                        pat = pat.upper()
                    g.append({"neg": r.random() < .15, "kind": "sub", "word": pat, "errors": errors,
                              "anchor": errors == 0 and r.random() < .35})
                a.groups.append(g)
            args.append(a)
        argv = [a.text() for a in args]
        got = st.search(argv)
        want = mail.evaluate(args, msgs)
        compare(ctx, st, argv, got, want, "substring search", msgs)
        ctx.count("evaluations")
        t = args[0].groups[0][0]
        ctx.count("errors=%d" % t["errors"])
        ctx.count("len=%d" % len(t["word"]))
        if t["anchor"]:
            ctx.count("anchored")
        if want and len(want) < len(msgs):
            ctx.seen(tuple(argv), len(want))
            ctx.sample({"argv": argv, "matched": len(want), "of": len(msgs)}, 1)
    # every pattern that can be told apart at word level: one message per word, one field
    # and too long strings are refused
    for ln in (32, 33, 40, 64, 100, 300):
        pat = "".join(r.choice(ALPHA) for _ in range(ln))
        for q in ("b:%s=" % pat, "%s=2" % pat, "p:%s" % pat):
            x = ctx.run(["-f", st.rc, "-r", q])
            if x.rc in (0, 1) or x.out:
                ctx.violate("too-long-answered", "a %d-character substring was answered instead of refused" % ln, **x.brief())
            ctx.count("refused_too_long")
        ctx.count("evaluations")


def grid_case(ctx):
    """One word per message: the verdict for each (pattern, word, errors) triple is observed separately."""
    r = ctx.rng
    st = mail.Store(ctx)
    ws = []
    while len(ws) < 60:
        w = "".join(r.choice("ab" if r.random() < .7 else "abc") for _ in range(r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 31, 32, 33, 40])))
        if w not in ws:
            ws.append(w)
    msgs = [mail.Msg("g%d" % i, frm="q@qq.qq", subject=w, body="zz\n") for i, w in enumerate(ws)]
    st.write_mbox("grid", msgs)
    st.write_rc()
    st.index()
    for _ in range(tier_n(60, 150)):
        errors = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7])
        ln = r.choice([1, 2, 3, 4, 5, 6, 8, 11, 16, 24, 30, 31])
        pat = "".join(r.choice("ab" if r.random() < .8 else "abc") for _ in range(ln))
        if r.random() < .6:
            src = r.choice(ws)
            pat = mutate(r, src[:31], r.choice([0, errors, errors + 1]))[:31] or "a"
        t = {"neg": False, "kind": "sub", "word": pat, "errors": errors, "anchor": errors == 0 and r.random() < .4}
        a = mail.Arg("s", [[t]])
        argv = [a.text()]
        got = st.search(argv)
        want = mail.evaluate([a], msgs)
        compare(ctx, st, argv, got, want, "substring search", msgs)
        ctx.count("evaluations")
        ctx.count("word_verdicts", len(ws))
        if want and len(want) < len(msgs):
            ctx.seen(argv[0], len(want))


cases = [("r%03d" % i, one_case) for i in range(tier_n(220, 1200))] + [("g%03d" % i, grid_case) for i in range(tier_n(150, 900))]
core.main("C02", cases, rule="Vocabularies over tiny alphabets (many near misses, words up to 90 letters) and file paths; patterns of 1..31 characters cut from "
          "them and mutated by 0..N+1 edits, with 0..9 allowed errors, anchored or not, in every field; verdict compared with a Sellers "
          "edit-distance oracle. Non-trivial: result neither empty nor everything; distinct by query.",
          assumptions=["'^str=N' with N>=1 is not exercised: the program documents anchoring and approximation separately"], min_evals=500)
