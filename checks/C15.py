"""C15: the database file is always internally consistent, true to the mail, and reproducible."""
import calendar, hashlib, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail
from mx.common import *
from mx.history import History
from mx.dbfile import Db


def verify(ctx, st, live_msgs, log=(), purged=False, pairs=None):
    """Decodes the database (all structural invariants) and compares it with the mail on disk."""
    if not os.path.exists(st.db):
        if live_msgs:
            ctx.violate("no-database", "no database although %d messages exist" % len(live_msgs), history=list(log)[-30:])
        return None
    try:
        db = Db(st.db)
        live, threads = db.live()
    except core.Violation as v:
        v.detail["history"] = list(log)[-40:]
        raise
    want = {m.key(): m for m in live_msgs}
    if set(live) != set(want):
        ctx.violate("messages", "the database lists other messages than the mail holds", history=list(log)[-40:],
                    missing=[str(x) for x in sorted(set(want) - set(live), key=str)[:5]], extra=[str(x) for x in sorted(set(live) - set(want), key=str)[:5]])
    for k, m in want.items():
        rec = live[k]
        ctx.count("evaluations")
        exp = dict(m.tokens())
        exp["id1"] = {m.msgid.lower()} if m.msgid else set()     # own Message-ID
        exp["id0"] = m.ids()                                      # everything that links it to its thread
        bad = {}
        for f, ws in exp.items():
            got = set(w.lower() for w in rec["fields"][f])
            if got != ws:
                bad[f] = {"missing": sorted(ws - got)[:5], "extra": sorted(got - ws)[:5]}
        if rec["size"] != m.size:
            bad["size"] = (rec["size"], m.size)
        fl = "".join(sorted(m.flags)) if m.store == "mbox" or m.store == "maildir" and k[1].split("/")[-2] == "cur" else ""
        if rec["flags"] != fl:
            bad["flags"] = (rec["flags"], fl)
        if m.date and rec["date"] != calendar.timegm((m.date.year, m.date.month, m.date.day, 0, 0, 0)):
            bad["date"] = (rec["date"], str(m.date))
        if k[0] == "file":
            s = os.stat(k[1])
            if rec["mtime"] != int(s.st_mtime):
                bad["mtime"] = (rec["mtime"], s.st_mtime)
        elif rec["ck"] != hashlib.md5(m.bytes).digest():
            bad["checksum"] = "differs from that of the message's bytes"
        if bad:
            ctx.violate("record:" + ",".join(sorted(bad)), "the record of a message differs from the mail on disk", where=str(k), differences=bad,
                        message=m.render(k[0] == "mbox").decode("latin-1")[:1500], history=list(log)[-40:])
        ctx.seen(k, rec["size"], rec["flags"], db.n)
    # the state of each mbox as of the scan
    boxes = {}
    for m in live_msgs:
        if m.key()[0] == "mbox":
            boxes.setdefault(m.key()[1], []).append(m)
    names = [p for p, n, c in db.mboxes if p is not None]
    if len(names) != len(set(names)):
        ctx.violate("mbox-twice", "an mbox has two entries in the database", names=names)
    for i, (p, n, c) in enumerate(db.mboxes):
        if p in boxes:
            s = os.stat(p)
            # a mere touch may go unrecorded (the next run then looks again), be it to a later time or an earlier one;
            # but no time the file never had may stand there
            if n != len(boxes[p]) or db.mfsize[i] != s.st_size or not (db.mmtime[i] == int(s.st_mtime) or pairs is None or (p, db.mmtime[i], s.st_size) in pairs):
                ctx.violate("mbox-record", "the record of an mbox differs from the file", path=p, recorded=[n, db.mmtime[i], db.mfsize[i]],
                            actual=[len(boxes[p]), s.st_mtime, s.st_size], history=list(log)[-40:])
            ctx.count("mboxes_checked")
    if purged and db.n != len(live):
        ctx.violate("purge", "%d entries for %d messages after a purge" % (db.n, len(live)), history=list(log)[-40:])
    ctx.count("databases_decoded")
    ctx.count("tokens_decoded", sum(len(t) for t in db.tables.values()))
    return live, threads


def reproducible(ctx, st, live_msgs, log):
    """Fresh databases: same whatever the hash key and whatever fresh memory holds."""
    r = ctx.rng
    key = r.randint(0, 2 ** 31)
    blobs, lives = [], []
    for k, p in ((key, "17"), (key, "170"), (key, "0"), (r.choice([0, 1, 2 ** 32 - 1, r.randint(0, 2 ** 32 - 1)]), "99")):
        f = st.db + ".f"
        if os.path.exists(f):
            os.unlink(f)
        ctx.run(["-f", st.rc, "--force-hash-key-new-database", str(k)], env={"MAIRIX_DATABASE": f, "MALLOC_PERTURB_": p}, ok=(0,))
        blobs.append(open(f, "rb").read())
        lives.append(Db(f).live())
        os.unlink(f)
    ctx.count("evaluations")
    if not blobs[0] == blobs[1] == blobs[2]:
        ctx.violate("uninitialised", "the database written depends on the contents of fresh memory",
                    first_difference=next((i for i in range(min(map(len, blobs[:3]))) if len({b[i] for b in blobs[:3]}) > 1), None))
    if lives[0] != lives[3]:
        ctx.violate("hash-key", "the decoded database depends on the hash key", history=list(log)[-40:])
    ctx.count("reproductions")


def history_case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, r.choice([15, 40, 120, 400]))
    st = mail.Store(ctx, variant=ctx.variant)
    h = History(ctx, st, voc)
    for _ in range(r.choice([1, 4, 15, 60])):
        h.step([("op_add_file", 3), ("op_new_box", 1)])
    h.index(hash_key=r.choice([None, 0, 5, 2 ** 32 - 1]))
    verify(ctx, st, h.live(), h.log, pairs=h.pairs)
    for _ in range(tier_n(8, 14)):
        for _ in range(r.choice([1, 1, 2, 3, 6, 15])):
            h.step()
        if not h.configured():
            continue
        fl = ["-p"] if r.random() < .3 else []
        before = open(st.db, "rb").read() if os.path.exists(st.db) else b""
        h.index(*fl)
        if fl and h.live():
            changed = open(st.db, "rb").read() != before
            verify(ctx, st, h.live(), h.log, pairs=h.pairs)
            res = verify(ctx, st, h.live(), h.log, purged=changed, pairs=h.pairs)
        else:
            verify(ctx, st, h.live(), h.log, pairs=h.pairs)
    if h.configured() and h.live():
        reproducible(ctx, st, h.live(), h.log)


def big_case(ctx):
    """Posting lists whose gaps need every encoding length, through reloads, appends and purges."""
    r = ctx.rng
    st = mail.Store(ctx, variant=ctx.variant)
    boxes = {}
    gaps = [1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 16382, 16383, 16384, 16385, 20000, 32767, 32768]
    words = ["gap%d" % i for i in range(12)]
    total = [0]
    nxt = {w: r.choice([0, 0, 1, 127, 128, 16384]) for w in words}

    def make(n, name):
        b = boxes.setdefault(name, [])
        with open(os.path.join(st.mail, name), "ab") as f:
            pos = f.tell()
            for _ in range(n):
                ws = []
                i = total[0]
                total[0] += 1
                for w in words:
                    if nxt[w] <= i:
                        ws.append(w)
                        nxt[w] = i + r.choice(gaps)
                subj = " ".join(ws) if i % 2 else ""
                sep = b"From a@b.example Mon Jan  3 10:00:00 2011\n"
                body = ("Subject: %s\nMessage-ID: <%d@x>\n\nnum%d %s\n\n" % (subj, i, i % 1000, " ".join(ws))).encode()
                f.write(sep + body)
                b.append((pos + len(sep), pos + len(sep) + len(body), frozenset(ws) | {"num%d" % (i % 1000)}, frozenset(ws) if i % 2 else frozenset(), i))
                pos += len(sep) + len(body)
        st.mboxes[name] = []
        t = st.tick()
        os.utime(os.path.join(st.mail, name), (t, t))

    def check(what):
        db = Db(st.db)
        live, _ = db.live()
        want = {}
        for name, b in boxes.items():
            p = os.path.join(st.mail, name)
            for s, e, ws, su, i in b:
                want[("mbox", p, s, e)] = (ws, su, i)
        if set(live) != set(want):
            ctx.violate("big:messages", "%s: %d messages missing, %d extra" % (what, len(set(want) - set(live)), len(set(live) - set(want))))
        for k, (ws, su, i) in want.items():
            f = live[k]["fields"]
            if f["body"] != ws or f["subject"] != su or f["id0"] != {"%d@x" % i} or f["id1"] != {"%d@x" % i}:
                ctx.violate("big:words", "%s: words of message %d are wrong" % (what, i), body=sorted(f["body"]), expected=sorted(ws), subject=sorted(f["subject"]),
                            ids=sorted(f["id0"]), where=str(k))
        ctx.count("evaluations", len(want))
        ctx.count("big_messages", len(want))
        ctx.seen(what, len(want), total[0])
        for w in r.sample(words, 3):
            got = st.search(["b:" + w])
            exp = {k for k, v in want.items() if w in v[0]}
            if set(got) != exp or len(got) != len(exp):
                ctx.violate("big:search", "%s: b:%s finds %d messages of %d" % (what, w, len(got), len(exp)))
            ctx.count("evaluations")
        n = r.randint(0, 999)
        got = st.search(["s:%s,%s" % tuple(r.sample(words, 2)), "b:num%d" % n])

    sizes = [3, 200, 17000, 33000, 65536]
    make(r.choice(sizes), "box0")
    make(r.choice(sizes), "box1")
    make(r.choice(sizes[:3]), "box2")
    st.write_rc(mformat="raw")
    st.index()
    check("first index")
    for step in range(4):
        k = r.random()
        if k < .35:
            make(r.choice([1, 5, 300, 17000]), r.choice(sorted(boxes)))
            what = "append"
        elif k < .6:
            make(r.choice([1, 130, 17000]), "box%d" % (10 + step))
            what = "new mbox"
        elif len(boxes) > 1:
            n = r.choice(sorted(boxes))
            os.unlink(os.path.join(st.mail, n))
            del boxes[n], st.mboxes[n]
            what = "mbox removed"
        else:
            continue
        st.write_rc(mformat="raw")
        fl = ["-p"] if r.random() < .5 else []
        st.index(*fl)
        check(what + " ".join(fl))
    st.index("-p")
    check("purge")


def refusal_case(ctx):
    """A file that is not a database of this version: refused by every mode, and left as it was."""
    r = ctx.rng
    voc = mail.Vocab(r, 30)
    st = mail.Store(ctx, variant=ctx.variant)
    msgs = fill_store(ctx, st, 12, voc)
    st.write_rc()
    st.index()
    good = open(st.db, "rb").read()
    bad = []
    for i in range(4):
        for v in (0, 255, good[i] ^ 1, r.randint(0, 255)):
            if v != good[i]:
                bad.append(("magic byte %d = %d" % (i, v), good[:i] + bytes([v]) + good[i + 1:]))
    for v in range(0, 9):
        if v != good[3]:
            bad.append(("version %d" % v, good[:3] + bytes([v]) + good[4:]))
    bad.append(("reversed endianness", good[:4] + good[4:8][::-1] + good[8:]))
    for v in (0, 0x44332210, 0xffffffff):
        bad.append(("endian word %x" % v, good[:4] + struct.pack("=I", v) + good[8:]))
    bad.append(("text", b"this is no database at all\n" * 30))
    bad.append(("zeros", bytes(len(good))))
    bad.append(("random", bytes(r.randrange(256) for _ in range(600))))
    bad.append(("an mbox", b"From a@b.example Mon Jan  3 10:00:00 2011\nSubject: x\n\n" + b"text\n" * 60))
    for n in (1, 4, 39, 40, 100, 159):
        bad.append(("only %d bytes" % n, good[:n]))
    modes = [[], ["-p"], ["-F"], ["-Q"], ["-d"], ["-r", "s:x"], ["s:x"], ["-x", "s:x"], ["-t", "s:x"], ["-a", "s:x"]]
    extra = mail.random_msg(r, voc, "late")
    st.add_maildir_msg("md0", extra) if "md0" in st.maildirs else st.add_maildir_msg("md9", extra)
    st.write_rc()
    for what, blob in bad:
        for mode in r.sample(modes, 4):
            with open(st.db, "wb") as f:
                f.write(blob)
            before = sorted(os.listdir(st.root))
            res = ctx.run(["-f", st.rc] + mode, variant=ctx.variant)
            ctx.count("evaluations")
            ctx.count("refusals")
            if res.rc == 0 or res.rc == 1:
                ctx.violate("accepted", "a database file with %s is accepted" % what, **res.brief())
            if open(st.db, "rb").read() != blob:
                ctx.violate("overwritten", "a file with %s in place of the database is overwritten" % what, **res.brief())
            ctx.seen(what, tuple(mode))
    with open(st.db, "wb") as f:
        f.write(good)
    st.index()
    verify(ctx, st, msgs + [extra])


def with_variant(fn, v):
    def f(ctx):
        ctx.variant = v
        fn(ctx)
    return f


if __name__ == "__main__":
    cases = [("b%03d" % i, with_variant(big_case, "plain")) for i in range(tier_n(10, 120))]
    cases += [("h%03d" % i, with_variant(history_case, "plain")) for i in range(tier_n(200, 2500))]
    cases += [("r%03d" % i, with_variant(refusal_case, "plain")) for i in range(tier_n(8, 60))]
    cases += [("a%03d" % i, with_variant(history_case, "asan")) for i in range(tier_n(8, 60))]
    core.main("C15", cases, variants=("plain", "asan"),
              rule="One evaluation per message record of a decoded database compared with the mail on disk (words of every field, size, mtime, date, flags, "
                   "extent, checksum), after every index and purge run of random histories; plus refusals of foreign files. Distinct: distinct records.",
              assumptions=["a foreign file has wrong magic, version or byte order, or is shorter than a header", "same assumptions on histories as C05"], min_evals=5000)
