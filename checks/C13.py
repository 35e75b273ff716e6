"""C13: every mbox message is indexed once, with its exact extent and its own words."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, dbfile, mboxgen
from mx.common import *


class M:
    """A message to put in an mbox: bytes, plus the words only it has (head, body)."""

    def __init__(self, data, subj, body, absent=()):
        self.data, self.subj, self.body, self.absent = data, subj, set(body), set(absent)


def make(r, voc, uid, kind):
    """kind: plain, lookalike, embedded (mbox inside a MIME part), truncated (multipart without its end), empty, headless."""
    subj, w1, w2 = "zqsubj%s" % uid, "zqfirst%s" % uid, "zqlast%s" % uid
    top = "Subject: %s %s\nFrom: a@b.example\nMessage-ID: <%s@x>\n" % (subj, voc.word(), uid)
    if r.random() < .1:
        top = ">From someone Mon Jan  3 10:00:00 2011\n" + top
    if kind == "empty":
        return M((top + "\n").encode(), subj, ())
    if kind == "headers":                       # no blank line at all
        return M(top.encode(), subj, ())
    nul = r.choice([" \0", "\0\0", "\0\n"]) if r.random() < .12 else ""      # text may hold null characters
    text = voc.body(0, r.choice([5, 40, 400])) if r.random() < .95 else ""
    if kind == "plain":
        return M((top + "\n%s%s\n%s %s" % (w1, nul, text, w2) + r.choice(["", "\n", "\n\n"])).encode(), subj, (w1, w2))
    if kind == "lookalike":
        L = [w1]
        for _ in range(r.randint(1, 8)):
            L += [r.choice(mboxgen.LOOKALIKES), voc.word() + nul]
        return M((top + "\n" + "\n".join(L) + "\n" + w2 + "\n").encode(), subj, (w1, w2))
    b = "bnd%s" % uid
    head = top + 'MIME-Version: 1.0\nContent-Type: multipart/mixed; boundary="%s"\n\n' % b
    if kind == "truncated":
        return M((head + "preamble\n\n--%s\nContent-Type: text/plain\n\n%s\n" % (b, w1)).encode(), subj, ())
    out, ws = ["preamble%s\n" % nul if r.random() < .5 else ""], []
    if kind == "embedded" and r.random() < .3:
        out.append(mboxgen.from_line(r).decode() + "\npreamble text\n")
    n = r.randint(1, 3)
    for i in range(n):
        w = "zqpart%d%s" % (i, uid)
        ct = r.choice(["text/plain", "text/plain; charset=utf-8", "text/html", "message/rfc822"])
        inner = ""
        if ct == "message/rfc822":
            inner = "Subject: in%s\n\n" % w
        inner += w + nul + "\n"
        if kind == "embedded" and (i == 0 or r.random() < .5):
            for k in range(r.randint(1, r.choice([2, 8, 25]))):
                inner += "\n%s\nSubject: embedded\n\nsome embedded text\n" % mboxgen.from_line(r).decode()
        inner += "end" + w + "\n"
        ws += [w, "end" + w]
        out.append("--%s\nContent-Type: %s\n\n%s" % (b, ct, inner))
    out.append("--%s--\n" % b)
    if r.random() < .3:
        out.append("epilogue\n")
    return M((head + "".join(out)).encode(), subj, ws)


KINDS = ["plain", "plain", "plain", "lookalike", "lookalike", "embedded", "embedded", "truncated", "empty", "headers"]


def build_box(ctx, voc, k, n, mmdf=False, crlf=False, kinds=KINDS):
    r = ctx.rng
    box = mboxgen.Box(r, mmdf, crlf)
    msgs = []
    if not mmdf and r.random() < .15:
        box.raw(r.choice([b"\n", b"\n\n", b"junk before the first message\n\n"]))
        ctx.count("junk_before_first")
    for i in range(n):
        kind = r.choice(kinds)
        m = make(r, voc, "%sx%d" % (k, i), kind)
        if mmdf:
            if kind in ("truncated",):
                m = make(r, voc, "%sx%d" % (k, i), "plain")
            if not m.data.endswith(b"\n"):
                m.data += b"\n"
        if kind == "truncated" and i + 90 < n:
            pass
        box.add(m.data, last=i + 1 == n)
        msgs.append(m)
        ctx.count("kind_" + kind)
    return box, msgs


def verify(ctx, st, boxes, what):
    """boxes: {path: (Box, [M])}; compares the decoded database and searches."""
    db = dbfile.Db(st.db)
    live, _ = db.live()
    want = {}
    for p, (box, msgs) in boxes.items():
        for (s, e), m in zip(box.ext, msgs):
            want[("mbox", p, s, e)] = (m, box)
    ctx.count("evaluations", len(want))
    if set(live) != set(want):
        miss, extra = sorted(set(want) - set(live), key=str), sorted(set(live) - set(want), key=str)
        k = (miss or extra)[0]
        det = {}
        if miss:
            det["message"] = want[miss[0]][0].data.decode("latin-1")[:3000]
            blob = want[miss[0]][1].bytes()
            det["separator"] = blob[max(0, k[2] - 200):k[2]].decode("latin-1")
        ctx.violate("extents", "%s: %d messages missing, %d extents that are no message" % (what, len(miss), len(extra)),
                    missing=[str(x) for x in miss[:4]], extra=[str(x) for x in extra[:4]], **det)
    owner = {}
    for k, (m, _) in want.items():
        got = live[k]["fields"]
        ctx.count("evaluations")
        if m.subj not in got["subject"] or not m.body <= got["body"]:
            ctx.violate("words", "%s: words of a message are not indexed with it" % what, where=str(k), subject=sorted(got["subject"]),
                        missing=sorted(m.body - got["body"])[:10], message=m.data.decode("latin-1")[:3000])
        ctx.seen(m.data, k[2:])
    # nobody else's words
    seen = {}
    for k, v in live.items():
        for w in v["fields"]["body"] | v["fields"]["subject"]:
            if w.startswith(("zq", "endzq")):
                if w in seen:
                    ctx.violate("shared", "%s: %r is indexed with two messages" % (what, w), one=str(k), other=str(seen[w]))
                seen[w] = k


def case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, 80)
    st = mail.Store(ctx, variant=ctx.variant)
    boxes = {}
    for i in range(r.randint(2, 7)):
        mmdf = r.random() < .25
        crlf = not mmdf and r.random() < .15
        n = r.choice([1, 2, 3, 8, 20, 45])
        kinds = KINDS if not crlf else ["plain", "lookalike", "empty"]
        box, msgs = build_box(ctx, voc, "b%d" % i, n, mmdf, crlf, kinds)
        c = r.choice([None, None, "gz", "bz2", "xz"])
        name = "box%d%s" % (i, "." + c if c else "")
        p = os.path.join(st.mail, name)
        st.write(p, mboxgen.compress(box.bytes(), c, r if c and r.random() < .5 else None))
        st.mboxes[name] = []
        boxes[p] = (box, msgs)
        ctx.count("mbox_%s%s%s" % (c or "plain", "_mmdf" if mmdf else "", "_crlf" if crlf else ""))
    st.write_rc()
    st.index()
    verify(ctx, st, boxes, "mbox")
    want = {m.subj: ("mbox", p, s, e) for p, (box, msgs) in boxes.items() for (s, e), m in zip(box.ext, msgs)}
    for w in r.sample(sorted(want), min(3, len(want))):
        got = st.search(["s:" + w])
        ctx.count("evaluations")
        if got != [want[w]]:
            ctx.violate("search", "s:%s finds %s, not %s" % (w, got, want[w]))
    if ctx.case.endswith("0"):
        p, (box, msgs) = sorted(boxes.items())[0]
        ctx.sample({"mbox": p.rsplit("/", 1)[1], "extents": box.ext[:4], "head": box.bytes()[:160].decode("latin-1")}, 1)


def separators(ctx):
    """Many messages, one separator form each; nothing but separators varies."""
    r = ctx.rng
    st = mail.Store(ctx, variant=ctx.variant)
    voc = mail.Vocab(r, 30)
    box, msgs = build_box(ctx, voc, "s", 150, crlf=ctx.case.endswith("3"), kinds=["plain", "lookalike"])
    p = os.path.join(st.mail, "box")
    st.write(p, box.bytes())
    st.mboxes["box"] = []
    st.write_rc()
    st.index()
    verify(ctx, st, {p: (box, msgs)}, "separator forms")


def copies(ctx):
    """One content, plain and compressed in every way (also big): identical answers."""
    r = ctx.rng
    st = mail.Store(ctx, variant=ctx.variant)
    voc = mail.Vocab(r, 80)
    big = ctx.case.endswith("0")
    box, msgs = build_box(ctx, voc, "c", r.randint(1, 30), mmdf=r.random() < .25)
    if big:
        # 8 MiB is what one read of the decompressor hands over: land before, on and after multiples of it
        target = r.choice([1, 2, 3]) * (8 << 20) + r.choice([-1, 0, 1, 17, 4096])
        box, msgs = mboxgen.Box(r), []
        i = 0
        while box.pos < target - 100000:
            m = make(r, voc, "c%d" % i, "plain")
            m.data += b"\n" + (b"%s " % voc.word().encode()) * r.randint(0, 60000)
            box.add(m.data)
            msgs.append(m)
            i += 1
        m = make(r, voc, "c%d" % i, "empty")
        before = box.pos
        box.raw(b"From a@b.example Mon Jan  3 10:00:00 2011\n")
        s = box.pos
        body = m.data + b"x" * (target - s - len(m.data) - 1) + b"\n"
        box.raw(body)
        box.ext.append((s, box.pos))
        msgs.append(m)
        ctx.count("boxes_over_8MiB")
    forms = [("plain", box.bytes())]
    for c in ("gz", "bz2", "xz"):
        if big and c != ("gz", "bz2", "xz")[int(ctx.case[-2]) % 3]:
            continue
        forms.append(("one." + c, mboxgen.compress(box.bytes(), c, None if not big else None)))
        forms.append(("many." + c, mboxgen.compress(box.bytes(), c, r)))
    if not big and r.random() < .3:
        forms.append(("plain.gz", box.bytes())) if False else None
    boxes = {}
    for n, b in forms:
        p = os.path.join(st.mail, n)
        st.write(p, b)
        st.mboxes[n] = []
        boxes[p] = (box, msgs)
    # words would be shared between copies: check them one by one
    for n, b in forms:
        st.mboxes = {n: []}
        st.write_rc()
        if os.path.exists(st.db):
            os.unlink(st.db)
        st.index()
        verify(ctx, st, {os.path.join(st.mail, n): (box, msgs)}, "copy %s" % n)
        ctx.count("copies_compared")


def with_variant(fn, v):
    def f(ctx):
        ctx.variant = v
        fn(ctx)
    return f


if __name__ == "__main__":
    cases = [("k%03d" % i, with_variant(copies, "plain")) for i in range(0, tier_n(60, 300))]
    cases += [("m%03d" % i, with_variant(case, "plain")) for i in range(tier_n(500, 4000))]
    cases += [("s%03d" % i, with_variant(separators, "plain")) for i in range(tier_n(60, 800))]
    cases += [("a%03d" % i, with_variant(case, "asan")) for i in range(tier_n(24, 150))]
    core.main("C13", cases, variants=("plain", "asan"),
              rule="One evaluation per generated mbox message whose extent and words were compared with the generator's record. "
                   "Distinct and non-trivial: distinct (message bytes, extent).",
              assumptions=["bodies outside multiparts hold no line that is itself a complete separator", "multiparts with embedded separators hold at most 99 of them",
                           "mbox files below 2 GiB"], min_evals=3000)
