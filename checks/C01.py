"""C01: word/boolean/path/message-ID search = reference evaluator over the generated mail."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail
from mx.common import *


def ask(ctx, st, args, msgs, flags=("-r",)):
    argv = [a.text() for a in args]
    got = st.search(argv, flags)
    want = mail.evaluate(args, msgs)
    compare(ctx, st, argv, got, want, universe=msgs)
    ctx.count("evaluations")
    ctx.count("matches", len(want))
    if want and len(want) < len(msgs):
        ctx.seen(tuple(argv), len(want), len(msgs))
        ctx.count("queries_with_partial_result")
        ctx.sample({"argv": argv, "matched": len(want), "of": len(msgs)}, 1)


def random_case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, r.choice([20, 60, 150]))
    st = mail.Store(ctx)
    n = r.choice([1, 2, 5, 15, 40, 90])
    pool = []
    msgs = fill_store(ctx, st, n, voc, midpool=pool, big=r.random() < .2)
    # let some messages share a Message-ID and refer to each other forwards
    for m in msgs:
        if r.random() < .15 and pool:
            m.refs.append(r.choice(pool))
    rewrite(st, msgs)
    st.write_rc()
    st.index(hash_key=r.choice([None, 0, 1, r.randint(0, 2 ** 31)]))
    for _ in range(tier_n(30, 60)):
        k = r.random()
        if k < .12 and pool:
            mid = r.choice(pool)
            mid = mid.upper() if r.random() < .3 else mid
            if r.random() < .1:
                mid = mid[:-1]
            args = [mail.MidArg(mid)]
            if r.random() < .3:
                args.append(mail.random_arg(r, voc, msgs))
        else:
            args = [mail.random_arg(r, voc, msgs) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        ask(ctx, st, args, msgs)


def rewrite(st, msgs):
    """Writes the messages again after their contents were edited."""
    for m in msgs:
        m.__dict__.pop("_tok", None)
        if m.loc[0] == "file":
            data = m.render()
            st.write(m.loc[1], data)
            m.size = len(data)
    for name in list(st.mboxes):
        comp = name.rsplit(".", 1)[1] if "." in name else None
        st.write_mbox(name, st.mboxes[name], comp=comp, mmdf=name.split(".")[0].endswith("m"))


def W(word, prefix=None, neg=False):
    return mail.Arg(prefix, [[{"neg": neg, "kind": "exact", "word": word, "errors": 0, "anchor": False}]])


def gaps_case(ctx):
    """Posting lists with gaps of every encoding width, over a single large mbox plus a few files."""
    r = ctx.rng
    st = mail.Store(ctx)
    n = tier_n(17000, 40000)
    special = {}
    for i in range(n):
        special[i] = []
    # words at controlled index gaps around every encoding boundary
    for name, gap in (("g1", 1), ("g126", 126), ("g127", 127), ("g128", 128), ("g129", 129), ("g255", 255), ("g256", 256),
                      ("g257", 257), ("g4000", 4000), ("g16382", 16382), ("g16383", 16383), ("g16384", 16384), ("g16385", 16385)):
        start = r.choice([0, 1, 5, 100])
        for i in range(start, n, gap):
            special[i].append("w" + name)
    for t in range(40):
        w = "rnd%d" % t
        for i in r.sample(range(n), r.randint(1, 60)):
            special[i].append(w)
    msgs = []
    for i in range(n):
        msgs.append(mail.Msg("g%d" % i, frm="x@yy.zz", subject="s", body=" ".join(special[i]) + "\n"))
    st.write_mbox("big", msgs)
    st.write_rc()
    st.index(hash_key=7)
    names = sorted(set(w for i in special for w in special[i]))
    for w in names:
        ask(ctx, st, [W(w, "b")], msgs)
    ask(ctx, st, [W("wg128"), W("wg127", "b", True)], msgs)
    ctx.count("large_collection_messages", n)


def words_case(ctx):
    """A vocabulary that makes every word table grow many times."""
    r = ctx.rng
    st = mail.Store(ctx)
    n, per = 12, tier_n(2600, 20000)
    allw, msgs = [], []
    for i in range(n):
        ws = ["v%dx%s" % (i, format(r.getrandbits(40), "x")) for _ in range(per)]
        subj = ws[:120]
        m = mail.Msg("w%d" % i, frm="a@bb.cc", subject=" ".join(subj),
                     to=[", ".join("%s@h%s.org" % (w, w[-3:]) for w in ws[120:240])],
                     body="\n".join(" ".join(ws[j:j + 12]) for j in range(240, per, 12)) + "\n")
        m.msgid = "mid%d@x.org" % i
        m.refs = ["r%d.%d@x.org" % (i, j) for j in range(200)]
        msgs.append(m)
        allw.append(ws)
        (st.add_mh_msg if i % 2 else st.add_maildir_msg)("f%d" % (i % 2), m)
    st.write_rc()
    st.index(hash_key=r.randint(0, 1 << 30))
    for _ in range(tier_n(120, 400)):
        i = r.randrange(n)
        j = r.choice([0, 119, 120, 239, 240, per - 1, r.randrange(per)])
        ask(ctx, st, [W(allw[i][j])], msgs)
        ctx.seen("w", i, j)
    for i in range(n):
        ask(ctx, st, [mail.MidArg("mid%d@x.org" % i)], msgs)
        ask(ctx, st, [mail.MidArg("r%d.%d@x.org" % (i, r.randrange(200)))], msgs)
    ctx.count("distinct_words", n * per)


def bytes_case(ctx):
    """Every byte value between two words, in every field: it separates them or it does not."""
    r = ctx.rng
    st = mail.Store(ctx)
    msgs = []
    for b in range(256):
        if b in (10, 13):
            continue
        c = chr(b)
        t = "le%02xft%sri%02xght" % (b, c, b)
        h = "x" if not b else t                # (a null character makes a header unparsable)
        m = mail.Msg("b%d" % b, frm="x@yy.zz" if c in "<>" else h, subject=h, to=["q@yy.zz" if c in "<>" else h], body=t + "\n")
        m.msgid, m.refs = None, []
        msgs.append(m)
        st.add_maildir_msg("f", m)
    st.write_rc()
    st.index(hash_key=r.randint(0, 99))
    for b in range(256):
        if b in (10, 13):
            continue
        for w in ("le%02xft" % b, "ri%02xght" % b):
            for f in r.sample(["b", "s", "f", "t", None], 3):
                ask(ctx, st, [W(w, f)], msgs)
                ctx.seen("byte", b, w[0], f)
    for c in "_+-.@":
        for f in ("b", "s", "f", "t"):
            ask(ctx, st, [W("le%02xft%sri%02xght" % (ord(c), c, ord(c)), f)], msgs)


# pairs whose full hash is the same for key 7
COLLIDE = [("k0586cbf6", "k019773d8"), ("k01a7effd", "k0593d245")]
COLLIDE_ID = [("i009f8e25@h.org", "i05df65de@h.org"), ("i03d051ee@h.org", "i02175f3d@h.org"), ("i004c3752@h.org", "i00355304@h.org"),
              ("i0342c94d@h.org", "i03569006@h.org"), ("i03a1b313@h.org", "i00a0d3a4@h.org"), ("i04357600@h.org", "i05770264@h.org")]


def collide_case(ctx):
    """Words, addresses and message-IDs that the hash does not tell apart are still different ones."""
    r = ctx.rng
    st = mail.Store(ctx)
    msgs = []
    for i in range(60):
        ws = [r.choice(p) for p in COLLIDE + COLLIDE_ID if r.random() < .4]
        m = mail.Msg("c%d" % i, frm=r.choice(ws) if ws and r.random() < .6 else "a@bb.cc", subject=" ".join(w for w in ws if "@" not in w) or "s",
                     to=[", ".join(w for w in ws if "@" in w) or "d@ee.ff"], body=" ".join(ws) + "\n")
        ids = [r.choice(p) for p in COLLIDE_ID if r.random() < .3]
        m.msgid = ids.pop() if ids else "u%d@h.org" % i
        m.refs = ids
        msgs.append(m)
        (st.add_mh_msg if i % 2 else st.add_maildir_msg)("f%d" % (i % 2), m)
        if i == 30 and r.random() < .5:
            st.write_rc()
            st.index(hash_key=7)
    st.write_rc()
    if os.path.exists(st.db):
        st.index()
    else:
        st.index(hash_key=7)
    for p in COLLIDE + COLLIDE_ID:
        for w in p:
            for f in ("b", "s", "f", "t", None, "a"):
                ask(ctx, st, [W(w, f)], msgs)
            if "@" in w:
                ask(ctx, st, [mail.MidArg(w)], msgs)
            ctx.seen("collide", w)


cases = [("r%03d" % i, random_case) for i in range(tier_n(600, 3000))]
cases = [("collide%d" % i, collide_case) for i in range(tier_n(4, 12))] + [("bytes%d" % i, bytes_case) for i in range(tier_n(1, 3))] + [("gaps%d" % i, gaps_case) for i in range(tier_n(1, 3))] + [("words%d" % i, words_case) for i in range(tier_n(2, 6))] + cases
core.main("C01", cases, rule="Random collections (maildir, MH, mbox, MMDF, compressed) with known contents are indexed by the real binary; "
          "random queries of the whole grammar are answered by it and by a reference evaluator over the generated contents. "
          "Non-trivial: the expected result is neither empty nor everything; distinct by query text and sizes.",
          assumptions=["C locale, UTC", "messages rendered by the generator are parsed by no code of the project on the oracle side"],
          min_evals=500)
