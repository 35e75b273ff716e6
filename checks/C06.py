"""C06: removed messages stop matching; -p drops exactly them and changes no answer."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail
from mx.common import *
from mx.history import History
from mx.dbfile import Db

REMOVALS = [("op_remove_file", 8), ("op_expunge_box", 4), ("op_truncate_box", 3), ("op_delete_box", 1), ("op_drop_folder", 1), ("op_reflag", 2),
            ("op_rewrite_file", 2), ("op_move", 2), ("op_edit_in_box", 1)]
SMALL = [[("op_remove_file", 1)], [("op_remove_file", 1)], [("op_expunge_box", 1)], [("op_truncate_box", 1)], [("op_delete_box", 1)], [("op_drop_folder", 1)]]
ADDS = [("op_add_file", 4), ("op_append_box", 2), ("op_new_box", 2), ("op_restore_folder", 1)]


def qset(ctx, h, n):
    r = ctx.rng
    src = h.live() + h.gone[-40:]
    out = [["~zzznosuch"]]
    for _ in range(n):
        k = r.random()
        m = r.choice(src)
        if k < .25 and m.msgid:
            q = ["m:" + m.msgid]
        elif k < .35:
            q = ["p:" + os.path.basename(m.folder)]
        else:
            q = [mail.random_arg(r, h.voc, src, allow_path=False).text() for _ in range(r.choice([1, 1, 2]))]
        out.append(q)
    return out


def answers(ctx, h, qs):
    res = []
    livek = set(m.key() for m in h.live())
    for q in qs:
        for fl in (("-r",), ("-t", "-r")):
            got = h.st.search(q, fl)
            if len(set(got)) != len(got):
                ctx.violate("duplicate", "%s %s lists a message twice" % (fl, q), history=h.log[-40:])
            if not set(got) <= livek:
                ctx.violate("dead-match", "%s %s returned removed messages" % (fl, q), extra=[str(x) for x in sorted(set(got) - livek, key=str)[:5]],
                            history=h.log[-40:])
            res.append(frozenset(got))
            ctx.count("evaluations")
    if res[0] != livek:
        ctx.violate("live-lost", "live messages no longer found", missing=[str(x) for x in sorted(livek - res[0], key=str)[:5]], history=h.log[-40:])
    return res


def model(ctx, h, n):
    r = ctx.rng
    live = h.live()
    if not live:
        return
    for _ in range(n):
        args = [mail.random_arg(r, h.voc, live)]
        argv = [a.text() for a in args]
        try:
            compare(ctx, h.st, argv, h.st.search(argv), mail.evaluate(args, live), what="search-after-purge", universe=live)
        except core.Violation as v:
            v.detail["history"] = h.log[-40:]
            raise
        ctx.count("evaluations")


def note_gone(h, before):
    now = set(id(m) for m in h.live())
    h.gone += [m for m in before if id(m) not in now]


def case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, r.choice([15, 40, 120]))
    st = mail.Store(ctx)
    h = History(ctx, st, voc)
    h.gone = []
    for _ in range(r.choice([2, 8, 30])):
        h.step([("op_add_file", 3), ("op_new_box", 1)])
    h.index(hash_key=r.choice([None, 3]))
    for rnd in range(tier_n(4, 8)):
        before = h.live()
        kill = r.choice(["some", "some", "many", "all"])
        if kill == "all" and r.random() < .5:
            for _ in range(200):
                if not h.step([("op_remove_file", 5), ("op_delete_box", 1)]):
                    break
        else:
            for _ in range(r.choice([1, 2, 5]) if kill == "some" else 20):
                h.step(REMOVALS)
        if not h.configured():
            h.dropped.clear()
        note_gone(h, before)
        if r.random() < .3:
            h.step(ADDS)
        h.index()
        if not os.path.exists(st.db):
            continue
        # a few more disappear, run by run, while the dead ones pile up
        for _ in range(r.choice([0, 0, 1, 2, 5])):
            before = h.live()
            if not before:
                break
            for _ in range(r.choice([1, 1, 1, 3])):
                h.step(r.choice(SMALL))
            if not h.configured():
                h.dropped.clear()
            note_gone(h, before)
            h.index(*(["-F"] if r.random() < .1 else []))
            answers(ctx, h, [["~zzznosuch"]])
            ctx.count("removals_without_purge")
        qs = qset(ctx, h, 6) if (h.live() or h.gone) else [["~zzznosuch"]]
        a0 = answers(ctx, h, qs)
        model(ctx, h, 3)
        ndead = sum(1 for m in Db(st.db).msgs if m["type"] == "dead")
        h.index("-p", *(["-Q"] if r.random() < .3 else []))
        a1 = answers(ctx, h, qs)
        for q, x, y in zip([q for q in qs for _ in (0, 1)], a0, a1):
            if x != y:
                ctx.violate("purge-changed-answer", "purging changed the answer to %s: %d -> %d matches" % (q, len(x), len(y)),
                            lost=[str(z) for z in sorted(x - y, key=str)[:5]], gained=[str(z) for z in sorted(y - x, key=str)[:5]], history=h.log[-40:])
        model(ctx, h, 3)
        d = Db(st.db)
        dead = [i for i, m in enumerate(d.msgs) if m["type"] == "dead"]
        if dead or d.n != len(h.live()):
            ctx.violate("purge-incomplete", "after -p the database has %d entries (%d dead) for %d messages" % (d.n, len(dead), len(h.live())), history=h.log[-40:])
        live1, _ = d.live()
        ctx.count("purges")
        ctx.count("entries_purged", ndead)
        if ndead:
            ctx.seen(ndead, d.n, rnd, len(h.log))
        # purging again changes nothing
        h.index("-p")
        if Db(st.db).live()[0] != live1:
            ctx.violate("purge-not-idempotent", "purging twice differs from purging once", history=h.log[-40:])
        # and updating afterwards works
        for _ in range(r.choice([1, 3])):
            h.step(ADDS)
        h.index(*(["-p"] if r.random() < .3 else []))
        if os.path.exists(st.db):
            model(ctx, h, 3)
            answers(ctx, h, [["~zzznosuch"]])
    ctx.sample({"history": h.log[-10:], "live": len(h.live())}, 1)


cases = [("p%03d" % i, case) for i in range(tier_n(200, 1500))]
core.main("C06", cases, rule="Histories of removals in every storage format; answers to word, message-ID, path and thread queries are recorded before and "
          "after purging and compared with each other and with the modelled mail; the decoded database must hold exactly the live messages. "
          "Non-trivial: the purge dropped at least one entry.",
          assumptions=["as C05"], min_evals=1000)
