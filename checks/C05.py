"""C05: after any history of mail changes, incremental indexing = indexing from scratch = what is on disk."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail
from mx.common import *
from mx.history import History
from mx.dbfile import Db


def queries(r, voc, msgs, h):
    out = []
    for _ in range(6):
        out.append([mail.random_arg(r, voc, msgs) for _ in range(r.choice([1, 1, 2]))])
    if h.pool:
        out.append([mail.MidArg(r.choice(h.pool))])
    # a word that only a recently changed message has
    return out


def check_state(ctx, h, st, voc):
    r = ctx.rng
    live = h.live()
    if not os.path.exists(st.db):
        if live:
            ctx.violate("no-database", "no database written although %d messages exist" % len(live), log=h.log[-30:])
        return
    allq = queries(r, voc, live or [mail.Msg("x", subject="x y")], h) if live else []
    for args in allq:
        argv = [a.text() for a in args]
        try:
            got = st.search(argv)
            compare(ctx, st, argv, got, mail.evaluate(args, live), what="search-after-update", universe=live)
        except core.Violation as v:
            v.detail["history"] = h.log[-40:]
            raise
        ctx.count("evaluations")
        if got:
            ctx.seen(tuple(argv), len(got), len(live))
    got = st.search(["~zzznosuchword"])
    try:
        compare(ctx, st, ["~zzznosuchword"], got, live, what="all-live", universe=live)
    except core.Violation as v:
        v.detail["history"] = h.log[-40:]
        raise
    ctx.count("evaluations")


def check_fresh(ctx, h, st):
    """Decoded incremental database = decoded database built from scratch over the same mail."""
    if not h.live() or not os.path.exists(st.db):
        return
    fresh = st.db + ".fresh"
    if os.path.exists(fresh):
        os.unlink(fresh)
    ctx.run(["-f", st.rc, "--force-hash-key-new-database", str(ctx.rng.randint(0, 1 << 31))], env={"MAIRIX_DATABASE": fresh}, ok=(0,))
    a, ta = Db(st.db).live()
    b, tb = Db(fresh).live()
    if a != b:
        diff = []
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k) != b.get(k):
                diff.append({"loc": str(k), "incremental": brief(a.get(k), b.get(k)), "fresh": brief(b.get(k), a.get(k))})
        ctx.violate("incremental-differs", "decoded incremental database differs from a fresh one in %d messages" % len(diff),
                    diff=diff[:4], history=h.log[-40:])
    ctx.count("fresh_comparisons")
    ctx.count("evaluations")
    ctx.count("messages_compared", len(a))
    # threads may be coarser (dead messages still link), never finer
    for t in tb:
        if not any(t <= u for u in ta):
            ctx.violate("thread-split", "a thread of the fresh database is split in the incremental one", thread=[str(x) for x in t],
                        history=h.log[-40:])


def brief(x, y):
    if x is None:
        return None
    if y is None:
        return "present"
    d = {}
    for k in x:
        if k != "fields" and x[k] != y[k]:
            d[k] = str(x[k])
    for k in x["fields"]:
        if x["fields"][k] != y["fields"][k]:
            d[k + "(only here)"] = sorted(x["fields"][k] - y["fields"][k])[:10]
    return d


OPS = History.OPS + [("op_partial_box", 2)]


def case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, r.choice([15, 40, 120]))
    st = mail.Store(ctx)
    fast = r.random() < .2            # histories without in-place rewrites may use -F
    h = History(ctx, st, voc, allow_inplace=not fast, links=r.random() < .4)
    for _ in range(r.choice([1, 4, 15])):
        h.step([("op_add_file", 3), ("op_new_box", 1)])
    flags = r.choice([[], [], ["-Q"], ["-v"]]) + (["-F"] if fast else [])
    h.index(*flags, hash_key=r.choice([None, 0, 5]))
    check_state(ctx, h, st, voc)
    for _ in range(tier_n(8, 14)):
        for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
            h.step(OPS)
        if not h.configured():
            continue
        fl = list(flags)
        if r.random() < .25:
            fl.append("-p")
        h.index(*fl)
        check_state(ctx, h, st, voc)
        if r.random() < .4:
            check_fresh(ctx, h, st)
        if r.random() < .2:           # nothing changed: nothing may change
            before = open(st.db, "rb").read() if os.path.exists(st.db) else None
            h.index(*[f for f in fl if f != "-p"])
            after = open(st.db, "rb").read() if os.path.exists(st.db) else None
            if before != after:
                d1 = Db(st.db).live()
                check_state(ctx, h, st, voc)
            ctx.count("noop_reindex")
    check_fresh(ctx, h, st)
    ctx.sample({"history": h.log[-12:], "live": len(h.live())}, 1)


def growth_case(ctx):
    """Many small increments: arrays and posting lists grow across reloads (sizes around 128/256 and beyond)."""
    r = ctx.rng
    voc = mail.Vocab(r, 40)
    st = mail.Store(ctx)
    h = History(ctx, st, voc, comp=(None,))
    for step in range(tier_n(14, 30)):
        for _ in range(r.choice([1, 20, 40, 60])):
            h.step([("op_add_file", 8), ("op_append_box", 1), ("op_new_box", 1), ("op_remove_file", 1)])
        h.index(*(["-p"] if r.random() < .2 else []))
        check_state(ctx, h, st, voc)
    check_fresh(ctx, h, st)
    ctx.count("growth_messages", len(h.live()))


cases = [("grow%d" % i, growth_case) for i in range(tier_n(3, 12))] + [("h%03d" % i, case) for i in range(tier_n(400, 3000))]
core.main("C05", cases, rule="Random histories of deliveries, removals, renames, rewrites and mbox edits with index runs between them; after each "
          "run searches are compared with the modelled mail and the decoded database with one built from scratch. "
          "Non-trivial: query with a non-empty result; distinct by query and collection size.",
          assumptions=["every change alters the modification time or the size of the file"],
          min_evals=1000)
