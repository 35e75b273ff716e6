"""C04: -t returns exactly the union of the threads of the live matches, after any history."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail
from mx.common import *
from mx.history import History


class Union:
    def __init__(self):
        self.p = {}

    def find(self, a):
        self.p.setdefault(a, a)
        while self.p[a] != a:
            self.p[a] = self.p[self.p[a]]
            a = self.p[a]
        return a

    def join(self, ids):
        ids = list(ids)
        for b in ids[1:]:
            self.p[self.find(ids[0])] = self.find(b)


def component(idsets):
    u = Union()
    for s in idsets:
        u.join(s)
    return u


def expand(u, hits, live):
    """Messages of `live` in the same component as one of `hits`."""
    roots = set()
    for m in hits:
        for i in m.ids():
            roots.add(u.find(i))
    hs = set(id(m) for m in hits)
    return [m for m in live if id(m) in hs or any(u.find(i) in roots for i in m.ids())]


class Threads(History):
    """Messages with dense reference graphs."""

    def new_msg(self):
        r = self.rng
        self.uid += 1
        m = mail.random_msg(r, self.voc, "t%d" % self.uid, None)
        m.body = self.voc.text(1, 4) + "\n"
        m.atts = []
        m.irt, m.refs, m.msgid = None, [], None
        world = self.world
        if r.random() < .9:
            m.msgid = r.choice(world) if r.random() < .35 else "own%d@h.org" % self.uid
            if r.random() < .4 and m.msgid not in world:
                world.append(m.msgid)
        k = r.random()
        if k < .55:
            m.irt = r.choice(world)
        if r.random() < .45:
            m.refs = [r.choice(world) for _ in range(r.randint(1, 4))]
        if m.irt and r.random() < .2:
            # forms seen in the wild
            m.extra.append(("References", "<%s>\n\t<%s>" % (r.choice(world), r.choice(world))))
            m.refs = []
            import re
            m.more = set(re.findall(r"<([^>]*)>", m.extra[-1][1]))
        return m


_ids = mail.Msg.ids


def ids(self):
    return _ids(self) | set(x.lower() for x in getattr(self, "more", ()))


mail.Msg.ids = ids


def run(ctx, h, *flags):
    if not h.configured():
        return False
    before = getattr(h, "seen_locs", {})
    h.index(*flags)
    live = h.live()
    now = {m.loc: frozenset(m.ids()) for m in live}
    any_new = any(before.get(k) != v for k, v in now.items()) or any(k not in before for k in now)
    # a file may have been rewritten with the same ids: also new
    h.resident += [s for k, s in now.items()]
    if any_new or not before:
        h.computed = list(h.resident)
    else:
        h.computed += [s for s in now.values()]
    if "-p" in flags:
        h.resident = list(now.values())
    h.seen_locs = now
    return os.path.exists(h.st.db)


def ask(ctx, h, args):
    live = h.live()
    st = h.st
    argv = [a.text() for a in args]
    hits = mail.evaluate(args, live)
    lower = expand(component(m.ids() for m in live), hits, live)
    upper = expand(component(h.computed), hits, live)
    got = st.search(argv, ("-t", "-r"))
    gs = set(got)
    if len(gs) != len(got):
        ctx.violate("duplicate", "-t lists a message twice", argv=argv, history=h.log[-40:])
    lo, hi, allk = set(m.key() for m in lower), set(m.key() for m in upper), set(m.key() for m in live)
    ctx.count("evaluations")
    if not lo <= gs:
        ctx.violate("thread-missing", "-t %s misses %d thread members" % (argv, len(lo - gs)), argv=argv, missing=[str(x) for x in sorted(lo - gs, key=str)[:5]],
                    history=h.log[-40:], db=open(st.rc, encoding="latin-1").read())
    if not gs <= hi:
        ctx.violate("thread-extra", "-t %s returns %d unrelated messages" % (argv, len(gs - hi)), argv=argv, extra=[str(x) for x in sorted(gs - hi, key=str)[:5]],
                    history=h.log[-40:], dead=bool(gs - allk))
    if len(lo) > len(hits):
        ctx.count("expanding_queries")
        ctx.count("thread_members_added", len(lo) - len(hits))
        ctx.seen(tuple(argv), len(hits), len(lo), len(live))
    if len(lo) == len(hi):
        ctx.count("exactly_decided")
    # the plain query must agree with the evaluator too
    if ctx.rng.random() < .2:
        compare(ctx, st, argv, st.search(argv), hits, universe=live)


def queries(ctx, h, n):
    r = ctx.rng
    live = h.live()
    if not live:
        return
    for _ in range(n):
        k = r.random()
        if k < .4:
            ask(ctx, h, [mail.MidArg(r.choice(h.world))])
        elif k < .6:
            m = r.choice(live)
            if m.msgid:
                ask(ctx, h, [mail.MidArg(m.msgid)])
        else:
            ask(ctx, h, [mail.random_arg(r, h.voc, live) for _ in range(r.choice([1, 1, 2]))])


def case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, r.choice([30, 80]))
    st = mail.Store(ctx)
    h = Threads(ctx, st, voc, comp=(None, None, "gz"))
    h.world = ["w%d@x.example" % i for i in range(r.choice([3, 8, 25]))]
    h.resident, h.computed = [], []
    purge = r.random() < .6
    for _ in range(r.choice([1, 5, 20])):
        h.step([("op_add_file", 3), ("op_new_box", 1)])
    if run(ctx, h):
        queries(ctx, h, 6)
    for _ in range(tier_n(6, 10)):
        for _ in range(r.choice([1, 1, 2, 4, 10])):
            h.step()
        if run(ctx, h, *(["-p"] if purge and r.random() < .4 else [])):
            queries(ctx, h, 5)
    ctx.sample({"history": h.log[-8:], "live": len(h.live())}, 1)


def chain_case(ctx):
    """Long chains delivered in hostile orders: forwards, backwards, shuffled, with the middle missing."""
    r = ctx.rng
    voc = mail.Vocab(r, 30)
    st = mail.Store(ctx)
    h = Threads(ctx, st, voc)
    h.world = ["c%d@x.example" % i for i in range(200)]
    h.resident, h.computed = [], []
    n = r.choice([3, 10, 60, 150])
    order = list(range(n))
    k = r.choice(["fwd", "rev", "shuffle", "evenodd"])
    if k == "rev":
        order.reverse()
    elif k == "shuffle":
        r.shuffle(order)
    elif k == "evenodd":
        order = order[::2] + order[1::2]
    hole = set(r.sample(range(n), r.randint(0, n // 4)))
    msgs = {}
    for i in range(n):
        m = mail.Msg("c%d" % i, frm="a@bb.cc", subject="chain", body="n%d\n" % i)
        m.msgid = "c%d@x.example" % i
        if i:
            m.irt = "c%d@x.example" % (i - 1)
        msgs[i] = m
    order = [i for i in order if i not in hole]
    while order:
        take = r.choice([1, 5, len(order)])
        for i in order[:take]:
            add(h, st, msgs[i])
        order = order[take:]
        if run(ctx, h):
            for _ in range(3):
                m = r.choice(h.live())
                ask(ctx, h, [mail.Arg("b", [[{"neg": False, "kind": "exact", "word": m.body.strip(), "errors": 0, "anchor": False}]])])
    ctx.count("chains")


def hub_case(ctx):
    """Sparse graphs in which every join counts: a few IDs shared by several messages each, every thread asked for,
    over many hash keys (which decide the order in which IDs are joined) and message orders."""
    r = ctx.rng
    st = mail.Store(ctx)
    n = r.choice([4, 6, 9, 14, 25, 60])
    hubs = r.randint(1, max(2, n // 3))
    msgs = []
    for i in range(n):
        m = mail.Msg("g%d" % i, frm="a@bb.cc", subject="graph", body="n%d\n" % i)
        if r.random() < .9:
            m.msgid = "own%d@x.example" % i
        msgs.append(m)
    for k in range(hubs):
        for m in r.sample(msgs, min(n, r.choice([2, 3, 3, 4, 5, 8]))):
            how = r.random()
            if how < .2 and not m.irt:
                m.irt = "hub%d@x.example" % k
            else:
                m.refs.append("hub%d@x.example" % k)
    for _ in range(r.randint(0, n // 2)):
        a, b = r.choice(msgs), r.choice(msgs)
        if b.msgid:
            a.refs.append(b.msgid)
    for m in msgs:
        r.shuffle(m.refs)
    u = component(m.ids() for m in msgs)
    for _ in range(tier_n(4, 8)):
        r.shuffle(msgs)
        for f in (st.db,):
            if os.path.exists(f):
                os.unlink(f)
        if r.random() < .7:
            st.write_mbox("box", msgs)
        else:
            half = len(msgs) // 2
            st.write_mbox("box", msgs[:half])
            st.write_mbox("box2", msgs[half:])
        st.write_rc()
        st.index(hash_key=r.randrange(1 << 30))
        done = set()
        for m in msgs:
            comp = expand(u, [m], msgs)
            k = frozenset(x.uid for x in comp)
            if k in done and r.random() < .7:
                continue
            done.add(k)
            got = st.search(["b:" + m.body.strip()], ("-t", "-r"))
            ctx.count("evaluations")
            compare(ctx, st, ["-t", "b:" + m.body.strip()], got, comp, what="thread search", universe=msgs)
            if len(comp) > 1:
                ctx.count("exactly_decided")
                ctx.count("thread_members_added", len(comp) - 1)
                ctx.seen("hub", n, hubs, len(comp), len(done))
        for f in list(st.mboxes):
            os.unlink(os.path.join(st.mail, f))
        st.mboxes.clear()
    ctx.count("hub_graphs")


def add(h, st, m):
    if h.rng.random() < .5:
        m.folder = "mh0"
        st.add_mh_msg("mh0", m)
    else:
        m.folder = "md0"
        st.add_maildir_msg("md0", m)
    h.files.append(m)


cases = [("hub%03d" % i, hub_case) for i in range(tier_n(120, 1500))] + [("chain%02d" % i, chain_case) for i in range(tier_n(24, 200))] + [("t%03d" % i, case) for i in range(tier_n(400, 2500))]
core.main("C04", cases, rule="Random reference graphs delivered, removed, rewritten and purged over many index runs; each -t answer must contain the "
          "message-ID connectivity closure over live messages and lie inside the closure over all messages the index still knew when it last "
          "computed threads. Non-trivial: the thread closure is larger than the set of hits; distinct by query and set sizes.",
          assumptions=["message-IDs are compared case-insensitively", "a removed message that was not purged may still connect its thread"],
          min_evals=1000)
