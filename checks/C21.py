"""C21: a scanner made by dfasyn recognises exactly what its description says, whatever the options."""
import os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import build, core, nfa
from mx.common import *

MAIN = r'''
#include <stdio.h>
#include <stdlib.h>
%s
static int seen[70000], queue[70000], nq;
static void visit(int s) { if (s >= 0 && s < 70000 && !seen[s]) { seen[s] = 1; queue[nq++] = s; } else if (s >= 70000) { printf("far state %%d\n", s); exit(0); } }
int main(void) {
  int i, k, n;
  int ent[] = { %s };
  printf("E"); for (i = 0; i < %d; i++) { printf(" %%d", ent[i]); visit(ent[i]); } printf("\n");
  for (k = 0; k < nq; k++) {
    int s = queue[k];
    printf("S %%d", s);
    %s
    printf("\nR");
#if %d
    for (i = 0; i < 256; i++) { n = %snext_state(s, %s); printf(" %%d", n); if (!(%s)) visit(n); }
#endif
    for (i = 0; i < %d; i++) { n = %snext_state(s, i); printf(" %%d", n); if (!(%s)) visit(n); }
    printf("\nX %%d %%d %%d\n", %snext_state(s, -1), %snext_state(s, %d), %snext_state(s, 1000000));
  }
  return 0;
}
'''


def variant(r):
    o = []
    if r.random() < .4:
        o.append(r.choice(["-u", "--uncompressed-tables"]))
    if r.random() < .4:
        o.append(r.choice(["-ud", "--uncompressed-dfa"]))
    header = r.random() < .45
    inline = r.random() < .55
    if inline:
        o.append(r.choice(["-I", "--inline-function"]))
    if r.random() < .15:
        o.append(r.choice(["-v", "--verbose"]))
    return o, header, inline


def cc(ctx, args, cwd):
    p = subprocess.run(["gcc", "-w"] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin-1")


def check_variant(ctx, d, auto, k, asan):
    r = ctx.rng
    entries, states, sym_class, live = auto
    dirn = os.path.join(ctx.root, "v%d" % k)
    os.mkdir(dirn)
    src = os.path.join(dirn, "in.nfa")
    with open(src, "wb") as f:
        f.write(d.text.encode("latin-1"))
    opts, header, inline = variant(r)
    inline = inline and header
    prefix = d.prefix
    if r.random() < .5:
        prefix = "c%d" % k
        opts += [r.choice(["-p", "--prefix"]), prefix]
    if header:
        opts += [r.choice(["-ho", "--header-output"]), "gen.h"]
    if r.random() < .3:
        opts += [r.choice(["-r", "--report"]), "report"]
    to_file = r.random() < .7
    if to_file:
        opts += [r.choice(["-o", "--output"]), "gen.c"]
    parts = [opts, ["in.nfa"]]
    if r.random() < .3:
        parts.reverse()
    det = {"description": d.text, "options": opts}
    res = ctx.run(sum(parts, []), cwd=dirn, exe=ctx.exes["dfasyn-asan" if asan else "dfasyn"])
    ctx.count("generated")
    if d.ambiguous:
        ctx.count("ambiguous")
        ctx.count("evaluations")
        if res.rc == 0:
            ctx.violate("ambiguity-accepted", "a description with two attributes active at once is accepted", **dict(det, **res.brief()))
        return
    if res.rc != 0:
        ctx.violate("refused", "a valid description is refused (exit %d)" % res.rc, **dict(det, **res.brief()))
    if not to_file:
        with open(os.path.join(dirn, "gen.c"), "wb") as f:
            f.write(res.out)
    if not d.entries and not live[entries[0][1]]:
        ctx.count("nothing_to_recognise")
        return
    gen = open(os.path.join(dirn, "gen.c"), encoding="latin-1").read()
    hdr = open(os.path.join(dirn, "gen.h"), encoding="latin-1").read() if header else ""
    # token numbers come from the macros
    num = {}
    for m in re.finditer(r"^#define (\w+?)_+(TK\d+) (\d+)$", gen + "\n" + hdr, re.M):
        num[m.group(2)] = int(m.group(3))
    if sorted(num) != sorted(d.tokens) or sorted(num.values()) != list(range(len(num))):
        ctx.violate("token-macros", "the macros for the tokens are not those declared", found=sorted(num.items())[:10], **det)
    pu = prefix + "_" if prefix else ""
    if d.uses_chars and not re.search(r"\b%schar2tok\[256\]" % pu, gen):
        ctx.violate("no-char-table", "no table for characters although the description has some", **det)
    chars = "char2tok" in gen
    ents = ", ".join(("theentries." if d.entrystruct else pu) + e for e, _ in entries) if d.entries else "0"
    names = [pu + (g or "attr") for g, _, _ in d.groups]
    early = "0"
    pr = "".join('printf(" %%ld", (long) %s[s]);' % n for n in names)
    nt = len(d.tokens)
    body = MAIN % ("#include \"gen.h\"" if header else "#include \"gen.c\"", ents, max(1, len(d.entries)), pr, 1 if chars else 0, pu, pu + "char2tok[i]", early,
                   nt, pu, early, pu, pu, nt + 256, pu)
    with open(os.path.join(dirn, "main.c"), "w") as f:
        f.write(body)
    san = ["-fsanitize=address,undefined"] if r.random() < .15 else []
    rc, out = cc(ctx, ["-O0", "-o", "scan", "main.c"] + (["gen.c"] if header else []) + san, dirn)
    if rc:
        ctx.violate("does-not-compile", "what dfasyn wrote does not compile", compiler=out[-2000:], **det)
    p = ctx.run([], cwd=dirn, exe=os.path.join(dirn, "scan"), crash_ok=True)
    if p.rc:
        ctx.violate("scanner-fault", "the generated scanner reads outside its tables (status %d)" % p.rc, stderr=p.err[-2000:].decode("latin-1"), **det)
    L = p.out.decode().split("\n")
    if L[0][:1] != "E":
        ctx.violate("scanner", "unexpected output %r" % L[0], **det)
    ge = [int(x) for x in L[0].split()[1:]]
    attrs, rows = {}, {}
    order = [num["TK%d" % i] for i in range(nt)]
    for i in range(1, len(L) - 2, 3):
        a = L[i].split()
        s = int(a[1])
        attrs[s] = tuple(int(x) for x in a[2:])
        row = [int(x) for x in L[i + 1].split()[1:]]
        base = 256 if chars else 0
        rows[s] = (row[:256] if chars else [-1] * 256) + [row[base + j] for j in order]
        if L[i + 2].split()[1:] != ["-1"] * 3:
            ctx.violate("foreign-symbol", "a symbol that does not exist leads from state %d to %s" % (s, L[i + 2]), **det)
    ctx.count("generated_states", len(attrs))
    # walk both automata together
    todo, done, route = [], set(), {}
    for (e, k0), g in zip(entries, ge):
        if g < 0:
            if live[k0]:
                ctx.violate("entry", "entry %r is no state although something is recognised from it" % e, **det)
            continue
        todo.append((k0, g))
        route[k0, g] = e
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        k0, g = x
        if attrs[g] != states[k0][0]:
            ctx.violate("attribute", "after %s the attributes are %s instead of %s" % (route[x], attrs[g], states[k0][0]), **det)
        ctx.count("evaluations")
        if states[k0][1]:
            ctx.count("early_states")
            continue
        row, nxt = rows[g], states[k0][2]
        for sym, c in enumerate(sym_class):
            want, got = nxt.get(c, -1), row[sym]
            if got < 0 or want < 0:
                if got >= 0 or want >= 0 and live[want]:
                    ctx.violate("transition", "after %s, %s leads %s" % (route[x], "token %d" % (sym - 256) if sym > 255 else "character %d" % sym,
                                "on although nothing matches" if got >= 0 else "nowhere although the description has a match"), **det)
                continue
            if (want, got) not in route:
                route[want, got] = (route[x] + " " + ("T%d" % (sym - 256) if sym > 255 else "%02x" % sym))[-300:]
                todo.append((want, got))
        ctx.count("transitions", len(sym_class))
    ctx.count("pairs", len(done))
    ctx.seen(len(done), len(states), tuple(sorted(x for x in opts if x[0] == "-")), len(d.tokens), tuple(s[0] for s in states[:6]))


def case_of(shape, n):
    def case(ctx):
        r = ctx.rng
        made = 0
        while made < n:
            d = nfa.Desc(random.Random(r.randint(0, 1 << 60)), shape)
            try:
                auto = d.automaton(120 if shape == "wide" else 250 if shape != "huge" else 400)
            except nfa.TooBig:
                ctx.count("too_big")
                continue
            made += 1
            for k in range(3):
                check_variant(ctx, d, auto, made * 10 + k, r.random() < .25)
            ctx.sample({"description": d.text[:1500], "dfa_states": len(auto[1])}, 1)
    return case


BAD = [
    ("empty file", ""), ("no block", "tokens A B\ndefattr 0\nattr 1 : T\n"),
    ("block without states", "block b {\n}\ndefattr 0\n"), ("only instances", "block a {\n state s\n [a] = T\n}\nblock b {\n x : a\n}\nattr 1 : T\ndefattr 0\n"),
    ("unknown token", "block b {\n state s\n  FOO = T\n}\nattr 1 : T\ndefattr 0\n"),
    ("token twice", "tokens A B A\nblock b {\n state s\n  A = T\n}\nattr 1 : T\ndefattr 0\n"),
    ("unknown block", "block b {\n x : nosuch\n state s\n  [a] = T\n}\nattr 1 : T\ndefattr 0\n"),
    ("unknown inline block", "block b {\n state s\n  <nosuch:in->out> = T\n}\nattr 1 : T\ndefattr 0\n"),
    ("block twice", "block b {\n state s\n}\nblock b {\n state s\n  [a] = T\n}\nattr 1 : T\ndefattr 0\n"),
    ("no defattr", "block b {\n state s\n  [a] = T\n}\nattr 1 : T\n"),
    ("no defattr in a group", "block b {\n state s\n  [a] = T\n}\nattr 1 : T\ndefattr 0\ngroup g {\n attr 2 : T\n}\n"),
    ("unclosed block", "block b {\n state s\n  [a] = T\nattr 1 : T\ndefattr 0\n"), ("stray character", "block b {\n state s\n  [a] = T\n}\n@\nattr 1 : T\ndefattr 0\n"),
    ("unclosed class", "block b {\n state s\n  [a = T\n}\nattr 1 : T\ndefattr 0\n"), ("missing arrow", "block b {\n state s\n  [a] [b] t\n}\nattr 1 : T\ndefattr 0\n"),
    ("tag set and defined", "tag T = U\nblock b {\n state s\n  [a] = T\n}\nattr 1 : T\ndefattr 0\n"),
    ("expression cut off", "block b {\n state s\n  [a] = T\n}\nattr 1 : T &\ndefattr 0\n"),
    ("a block within itself", "block b {\n x : b\n state s\n  [a] = T\n}\nattr 1 : T\ndefattr 0\n"),
    ("inline block within itself", "block b {\n state s\n  <b:s->s> = T\n}\nattr 1 : T\ndefattr 0\n"),
    ("tags defined by each other", "tag A = B\ntag B = ~A\nblock b {\n state s\n  [a] = T\n}\nattr 1 : A\ndefattr 0\n"),
    ("a tag defined by itself", "tag A = T & A\nblock b {\n state s\n  [a] = T\n}\nattr 1 : A | T\ndefattr 0\n"),
    ("two entrystructs", "entrystruct a b\nentrystruct c d\nblock b {\n state s entry e\n  [a] = T\n}\nattr 1 : T\ndefattr 0\n"),
]


def bad_case(ctx):
    for what, text in BAD:
        p = os.path.join(ctx.root, "bad.nfa")
        with open(p, "w") as f:
            f.write(text)
        for exe in ("dfasyn", "dfasyn-asan"):
            for opts in ([], ["-u"], ["-ud", "-r", "rep"]):
                res = ctx.run(opts + ["-o", "bad.c", p], exe=ctx.exes[exe])
                ctx.count("evaluations")
                ctx.count("refusals")
                if res.rc == 0:
                    ctx.violate("bad-accepted", "a description that is wrong (%s) is accepted" % what, text=text, **res.brief())
        ctx.seen(what)


def prepare(exes):
    for v in ("plain", "asan"):
        exes["dfasyn" + ("-asan" if v == "asan" else "")] = build.build_dfasyn(v)


if __name__ == "__main__":
    cases = [("g%03d" % i, case_of("any", 6)) for i in range(tier_n(100, 1500))] + [("d%03d" % i, case_of("dense", 4)) for i in range(tier_n(40, 300))] + \
            [("w%03d" % i, case_of("wide", 3)) for i in range(tier_n(8, 150))] + [("a%03d" % i, case_of("abbrevs", 4)) for i in range(tier_n(8, 150))] + [("bad", bad_case)] + \
            [("h%03d" % i, case_of("huge", 1)) for i in range(tier_n(2, 10))]
    core.main("C21", cases, variants=(), prepare=prepare,
              rule="One evaluation per pair of a state of the generated scanner and a set of states of the description, reached by the same input, whose attributes and all "
                   "258-560 transitions are compared. Distinct: by sizes, options and first attributes.",
              assumptions=["no more than 32767 states", "no tags on both of two instances whose state names coincide"], min_evals=3000)
