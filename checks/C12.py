"""C12: words are indexed as a reader sees them, whatever the MIME encoding."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, mime, dbfile
from mx.common import *


class Raw(mail.Msg):
    """A message given by its bytes and what a reader sees in it."""

    def __init__(self, uid, data, exp):
        mail.Msg.__init__(self, uid)
        self.data, self.exp = data, exp

    def render(self, mbox_flags=False):
        return self.data

    def tokens(self):
        return self.exp


def place(ctx, st, msgs):
    r = ctx.rng
    k = 0
    rest = list(msgs)
    while rest:
        n = r.randint(1, 10)
        part, rest = rest[:n], rest[n:]
        kind = r.choice(["maildir", "maildir", "mh", "mbox", "mboxz"])
        if kind == "maildir":
            for m in part:
                st.add_maildir_msg("md%d" % r.randint(0, 1), m)
        elif kind == "mh":
            for m in part:
                st.add_mh_msg("mh0", m)
        else:
            c = r.choice(["gz", "xz", "bz2"]) if kind == "mboxz" else None
            st.write_mbox("box%d%s" % (k, "." + c if c else ""), part, comp=c, mmdf=r.random() < .3)
            k += 1
    st.write_rc()


def check(ctx, st, msgs, what):
    live, _ = dbfile.Db(st.db).live()
    if set(live) != set(m.key() for m in msgs):
        miss = [m for m in msgs if m.key() not in live]
        ctx.violate("messages", "%d of %d messages are not in the index with their own extent" % (len(miss), len(msgs)),
                    missing=[str(m.key()) for m in miss[:3]], example=miss[0].data.decode("latin-1")[:4000] if miss else "",
                    extra=[str(k) for k in set(live) - set(m.key() for m in msgs)][:3])
    for m in msgs:
        got = live[m.key()]["fields"]
        for f in ("to", "cc", "from", "subject", "body", "att"):
            ctx.count("evaluations")
            if got[f] != m.exp[f]:
                ctx.violate("words:%s" % f, "%s: words of field %s differ from what a reader sees" % (what, f),
                            missing=sorted(m.exp[f] - got[f])[:10], extra=sorted(got[f] - m.exp[f])[:10],
                            message=m.data.decode("latin-1")[:6000], where=str(m.key()))
            if m.exp[f]:
                ctx.count("fields_with_words")
                ctx.count("words_seen", len(m.exp[f]))
        ctx.seen(m.data)


def case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, r.choice([40, 200]))
    st = mail.Store(ctx, variant=ctx.variant)
    msgs = []
    for i in range(tier_n(50, 80)):
        g = mime.Gen(r, voc)
        h, b, vis = g.message()
        data = g.join(h, b)
        if not data.endswith(b"\n") and r.random() < .5:
            data += b"\n"
        if r.random() < .2:
            data = data.replace(b"\n", b"\r\n")
            ctx.count("crlf_messages")
        ctx.count("multiparts", data.lower().count(b"multipart/"))
        ctx.count("encoded_words", data.count(b"=?"))
        msgs.append(Raw("r%d" % i, data, mime.expected(vis)))
    crlf = [m for m in msgs if b"\r\n" in m.data or not m.data.endswith(b"\n")]
    rest = [m for m in msgs if m not in crlf]
    for m in crlf:
        st.add_maildir_msg("md0", m)
    place(ctx, st, rest)
    st.index()
    check(ctx, st, msgs, "generated message")
    for _ in range(6):
        a = mail.random_arg(r, voc, msgs, allow_path=False)
        compare(ctx, st, [a.text()], st.search([a.text()]), mail.evaluate([a], msgs), universe=None)
        ctx.count("searches")
    if ctx.case.endswith("0"):
        ctx.sample({"message": msgs[0].data.decode("latin-1")[:600], "expected": {k: sorted(v)[:6] for k, v in msgs[0].exp.items()}}, 1)


def same_content(ctx):
    """One content, many encodings: all must give the same words."""
    r = ctx.rng
    voc = mail.Vocab(r, 60)
    st = mail.Store(ctx, variant=ctx.variant)
    g = mime.Gen(r, voc)
    text = g.text(5, r.choice([20, 400]))
    subj = g.plain_phrase(2, 10)
    name = g.filename()
    exp = {"to": set(), "cc": set(), "from": mail.addr_words("a@b.example"), "subject": mail.words(subj), "body": mail.words(text), "att": {mail.ascii_lower(name)}}
    msgs = []
    for i in range(40):
        body, cte = [g.enc_none, g.enc_b64, g.enc_qp, g.enc_uu][i % 4](text.encode("latin-1"))
        h = [("From", "a@b.example"), ("Subject", g.phrase(subj)), ("MIME-Version", "1.0"), ("Content-Type", "text/plain; charset=utf-8"),
             ("Content-Disposition", "attachment" + g.params(name))]
        if cte:
            h.append(("Content-Transfer-Encoding", cte))
        r.shuffle(h)
        data = g.join(h, body)
        depth = r.choice([0, 0, 1, 2, 5, 20])
        for d in range(depth):                # wrap it up, with nothing else to see
            b = "b%dx%d" % (d, r.randint(0, 999))
            inner = [x for x in h if x[0].lower().startswith("content-")] if d == 0 else wrap
            data = b"--%s\n" % b.encode() + g.join(inner, body if d == 0 else wbody) + b"\n--%s--\n" % b.encode()
            wrap = [("Content-Type", "multipart/mixed; boundary=%s" % b)]
            wbody = data
        if depth:
            top = [x for x in h if not x[0].lower().startswith("content-")] + wrap
            data = g.join(top, wbody)
        if r.random() < .25:
            data = data.replace(b"\n", b"\r\n")
        m = Raw("s%d" % i, data, exp)
        st.add_maildir_msg("md0", m)
        msgs.append(m)
    st.write_rc()
    st.index()
    check(ctx, st, msgs, "re-encoded message")
    ctx.count("contents_reencoded")


def with_variant(fn, v):
    def f(ctx):
        ctx.variant = v
        fn(ctx)
    return f


if __name__ == "__main__":
    cases = [("m%03d" % i, with_variant(case, "plain")) for i in range(tier_n(800, 4000))]
    cases += [("s%03d" % i, with_variant(same_content, "plain")) for i in range(tier_n(300, 1200))]
    cases += [("a%03d" % i, with_variant(case if i % 2 else same_content, "asan")) for i in range(tier_n(40, 150))]
    core.main("C12", cases, variants=("plain", "asan"),
              rule="Each generated message is a random encoding (transfer encodings, RFC 2047/2231, folding, header order, nesting, line ends) of known "
                   "content; the words decoded from the database for every field must equal the reader's. Non-trivial and distinct: distinct message bytes.",
              assumptions=["bytes outside ASCII separate words (C locale)", "parts carry at most one header of each Content- kind",
                           "HTML without entities, comments, scripts or styles"], min_evals=3000)
