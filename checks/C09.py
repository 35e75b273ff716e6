"""C09: bytes of a changed mbox are never delivered as the indexed message."""
import bz2, gzip, hashlib, io, lzma, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, snap
from mx.common import *


def pack(blob, comp):
    if comp == "gz":
        b = io.BytesIO()
        with gzip.GzipFile(fileobj=b, mode="wb", mtime=0) as g:
            g.write(blob)
        return b.getvalue()
    return bz2.compress(blob) if comp == "bz2" else lzma.compress(blob) if comp == "xz" else blob


def unpack(path, comp):
    d = open(path, "rb").read()
    return gzip.decompress(d) if comp == "gz" else bz2.decompress(d) if comp == "bz2" else lzma.decompress(d) if comp == "xz" else d


def modify(r, blob, msgs):
    """One change to an mbox; returns (new bytes, what)."""
    k = r.choice(["flip", "flip", "flip-tail", "flip-mid", "flip-first", "flip-last", "flip-sep", "insert", "delete-byte", "append", "append-blank", "truncate", "truncate-msg",
                  "drop-msg", "drop-first", "swap", "same-length", "status", "empty", "nothing", "shift-back", "zero", "case", "rotate"])
    m = r.choice(msgs)
    s, e = m.loc[2], m.loc[3]
    b = bytearray(blob)
    if k.startswith("flip") and e > len(b):
        k = "append"
    if k == "flip":
        i = r.randrange(s, e)
        b[i] = (b[i] + r.randint(1, 255)) % 256
    elif k == "flip-tail":
        i = r.randrange(max(s, e - 100), e)
        b[i] = (b[i] + r.randint(1, 255)) % 256
    elif k == "flip-mid":
        i = (s + e) // 2
        b[i] ^= 1
    elif k == "flip-first":
        b[s] ^= 0x20
    elif k == "flip-last":
        b[e - 1] ^= 1 << r.randrange(8)
    elif k == "flip-sep":
        if s >= 10:
            b[s - 10] = ord("9")
    elif k == "insert":
        i = r.randrange(len(b) + 1)
        b[i:i] = r.choice([b"x", b"\n", b"\n\n", b"Subject: other\n"])
    elif k == "delete-byte":
        i = r.randrange(len(b))
        del b[i:i + r.choice([1, 2, 80])]
    elif k == "append":
        b += b"From new@host.example Mon Jan  3 10:00:00 2011\nSubject: appended\n\nbody\n"
    elif k == "append-blank":
        b += b"\n"
    elif k == "truncate":
        del b[r.randrange(len(b)):]
    elif k == "truncate-msg":
        del b[r.choice([e - 1, s, s + 1, max(0, s - 1)]):]
    elif k == "drop-msg":
        del b[max(0, s - 30):e]
    elif k == "drop-first":
        del b[0:msgs[0].loc[3]]
    elif k == "swap" and len(msgs) > 1:
        o = r.choice(msgs)
        x, y = (m, o) if m.loc[2] < o.loc[2] else (o, m)
        if x is not y:
            nb = blob[:x.loc[2]] + blob[y.loc[2]:y.loc[3]] + blob[x.loc[3]:y.loc[2]] + blob[x.loc[2]:x.loc[3]] + blob[y.loc[3]:]
            b = bytearray(nb)
    elif k == "same-length":
        o = bytearray(blob[s:e])
        i = o.find(b"\n\n")
        for j in range(max(i, 0), len(o)):
            if 97 <= o[j] <= 122:
                o[j] = 97 + (o[j] - 97 + 1) % 26
        b[s:e] = o
    elif k == "status":
        b[s:s] = b"Status: RO\n"
    elif k == "empty":
        b = bytearray()
    elif k == "shift-back":
        del b[0:r.randint(1, 60)]
    elif k == "zero":
        b[s:e] = b"\0" * (e - s)
    elif k == "case":
        b[s:e] = bytes(b[s:e]).swapcase()
    elif k == "rotate":
        o = bytes(b[s:e])
        n = r.randint(1, max(1, len(o) - 1))
        b[s:e] = o[n:] + o[:n]
    return bytes(b), k


def case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, 25)
    st = mail.Store(ctx)
    files = [mail.random_msg(r, voc, "f%d" % i) for i in range(3)]
    for m in files:
        st.add_maildir_msg("md0", m)
    boxes = {}
    for k in range(r.choice([1, 2, 3])):
        c = r.choice([None, None, None, "gz", "bz2", "xz"])
        n = "box%d%s" % (k, "." + c if c else "")
        ms = [mail.random_msg(r, voc, "b%d_%d" % (k, i)) for i in range(r.choice([1, 2, 4, 8]))]
        if r.random() < .2:
            ms[0].odd = (b"", 4096)
        elif r.random() < .25:
            n_fill = r.choice([1100, 4100, 9000, 33000, 66000, 140000] + [1100000] * (r.random() < .1))
            r.choice(ms).odd = (b"a line of filler text in a longer message, number seven\n" * (n_fill // 55), 0)
        st.write_mbox(n, ms, comp=c, mmdf=r.random() < .2)
        boxes[n] = (ms, c)
    st.write_rc()
    st.index(*(["-v"] if r.random() < .1 else []))
    orig = {n: unpack(os.path.join(st.mail, n), c) for n, (ms, c) in boxes.items()}
    stats = {n: os.stat(os.path.join(st.mail, n)) for n in boxes}
    for rnd in range(tier_n(10, 25)):
        intact, stale, unknown, gone, kinds = [], [], [], [], []
        for n, (ms, c) in boxes.items():
            p = os.path.join(st.mail, n)
            if os.path.lexists(p):
                os.rmdir(p) if os.path.isdir(p) else os.unlink(p)
            k = r.random()
            if k < .06:
                kinds.append("deleted")
                gone += ms
                continue
            if k < .09:
                os.mkdir(p)
                kinds.append("directory")
                unknown += ms
                continue
            blob, what = orig[n], "nothing"
            for _ in range(r.choice([1, 1, 1, 2])):
                blob, what = modify(r, blob, ms) if blob else (blob, what)
            data = pack(blob, c)
            if c and r.random() < .2:
                what = "damaged"
                i = r.randrange(len(data))
                data = r.choice([data[:i], data[:i] + bytes([data[i] ^ 0x55]) + data[i + 1:], b""])
                unknown += ms
            else:
                for m in ms:
                    (intact if blob[m.loc[2]:m.loc[3]] == m.bytes else stale).append(m)
            kinds.append(what)
            st.write(p, data)
            if r.random() < .5:          # unchanged mtime: staleness must not be judged by the clock
                os.utime(p, ns=(stats[n].st_mtime_ns, stats[n].st_mtime_ns))
        for mode in r.sample(["maildir", "mh", "mbox", "excerpt"], 2):
            st.mfolder = os.path.join(st.root, "mf_" + mode)
            st.write_rc(mformat=mode if mode != "excerpt" else "maildir")
            q = r.choice([["~zzznosuch"], ["~zzznosuch"], ["b:a="], ["p:box"]])
            from_raw = set(st.search(q))
            want = [m for m in files + intact if m.key() in from_raw]
            bad = [m for m in stale if m.key() in from_raw]
            maybe = [m for m in unknown if m.key() in from_raw]
            res = ctx.run(["-f", st.rc] + (["-x"] if mode == "excerpt" else []) + q, ok=(0, 1))
            det = dict(kinds=kinds, mode=mode, query=q, run=res.brief())
            got = delivered(ctx, st, mode, res, files + [m for ms, _ in boxes.values() for m in ms], det)
            for m in got:
                if m in bad:
                    ctx.violate("stale-delivered", "%s: stale message %s delivered" % (mode, m.loc), **det)
                if m not in want and m not in maybe:
                    ctx.violate("not-a-match", "%s: %s delivered" % (mode, m.loc), **det)
            if len(got) != len(set(id(m) for m in got)):
                ctx.violate("duplicate", "%s: a message delivered twice" % mode, **det)
            for m in want:
                if m not in got:
                    ctx.violate("intact-lost", "%s: intact message %s not delivered" % (mode, m.loc), **det)
            warned = b"checksums failed" in res.err or b"indexing mode" in res.err
            lost = [m for m in gone if m.key() in from_raw]
            if (bad or lost) and not warned:
                ctx.violate("no-warning", "%s: %d stale matches but no warning" % (mode, len(bad) + len(lost)), **det)
            if not bad and not lost and not maybe and warned:
                ctx.violate("spurious-warning", "%s: warning although nothing matched is stale" % mode, **det)
            ctx.count("evaluations")
            ctx.count("stale_matches", len(bad))
            ctx.count("intact_matches", len(want))
            if bad:
                ctx.seen(tuple(kinds), mode, len(bad), len(want))
    ctx.sample({"kinds": kinds, "stale": len(stale), "intact": len(intact)}, 1)
    # re-indexing puts things right
    for n, (ms, c) in boxes.items():
        p = os.path.join(st.mail, n)
        if os.path.isdir(p):
            os.rmdir(p)
        st.write(p, pack(orig[n] + b"From late@host.example Mon Jan  3 10:00:00 2011\nSubject: late%d\n\nx\n" % len(ms), c))
    st.index()
    st.mfolder = os.path.join(st.root, "mf_fin")
    st.write_rc(mformat="mbox")
    res = ctx.run(["-f", st.rc, "~zzznosuch"], ok=(0,))
    if b"checksums failed" in res.err:
        ctx.violate("warning-after-reindex", "stale warning although the indexer has just run", run=res.brief())


def collide_case(ctx):
    """Same-length replacements whose checksum agrees with the indexed one in part: only a full comparison tells them apart."""
    r = ctx.rng
    st = mail.Store(ctx)
    kind = r.choice(["first4", "last4", "zero", "mid4"])
    sub = "collide %d" % r.randint(0, 1 << 30)
    h = ("From: a@host.example\nSubject: %s\n\n" % sub).encode()
    pre = hashlib.md5(h)
    cut = {"first4": slice(0, 4), "last4": slice(12, 16), "mid4": slice(6, 10), "zero": slice(0, 1)}[kind]
    seen, pair, i = {}, None, r.randint(0, 10 ** 6)
    while not pair:
        i += 1
        t = b"nonce %012d\n" % i
        d = pre.copy()
        d.update(t)
        g = d.digest()[cut]
        if kind == "zero" and g != b"\0":
            continue
        if g in seen:
            pair = (seen[g], t)
        seen[g] = t
    a, b = (h + x for x in pair)
    sep = b"From sender@host.example Mon Jan  3 10:00:00 2011\n"
    box = os.path.join(st.mail, "box")
    st.mboxes["box"] = []
    st.write(box, sep + a)
    st.write_rc()
    st.index()
    st.write(box, sep + b)
    for mode in ("maildir", "mh", "mbox", "excerpt"):
        st.mfolder = os.path.join(st.root, "mf_" + mode)
        st.write_rc(mformat=mode if mode != "excerpt" else "maildir")
        res = ctx.run(["-f", st.rc] + (["-x"] if mode == "excerpt" else []) + ["s:collide"], ok=(0, 1))
        for root, _, names in os.walk(st.mfolder):
            for n in names:
                if b"nonce" in open(os.path.join(root, n), "rb").read():
                    ctx.violate("stale-delivered", "%s: a message whose checksum agrees only in part (%s) delivered as the match" % (mode, kind), run=res.brief())
        if mode != "excerpt" and b"checksums failed" not in res.err and b"indexing mode" not in res.err:
            ctx.violate("no-warning", "%s: no warning for a replaced message" % mode, run=res.brief())
        ctx.count("evaluations")
        ctx.count("partial_collisions")
    st.index()
    if len(st.search(["s:collide"])) != 1:
        ctx.violate("reindex", "after re-indexing the replaced message is not found")
    got = st.search([pair[1].decode().split()[1]])
    if len(got) != 1:
        ctx.violate("reindex", "a rewritten message whose checksum agrees in part is not indexed anew", kind=kind)
    ctx.seen(kind)


def delivered(ctx, st, mode, res, universe, det):
    """Every delivered thing must be a byte-exact message; returns the messages."""
    mf, out = st.mfolder, []
    files = {os.path.realpath(m.path()): m for m in universe if m.loc[0] == "file"}
    mbox = [m for m in universe if m.loc[0] == "mbox"]

    def by_copy(data, term=False):
        for m in mbox:
            hdr = b"X-source-folder: " + m.path().encode("latin-1") + b"\n"
            if data.startswith(hdr):
                d = data[len(hdr):]
                alts = [m.bytes, m.bytes[:-1] if m.bytes.endswith(b"\n\n") else m.bytes]
                if term:
                    alts = [m.bytes + (b"" if m.bytes.endswith(b"\n\n") else b"\n" if m.bytes.endswith(b"\n") else b"\n\n")]
                if d in alts and m not in out:
                    return m
        return None
    if mode in ("maildir", "mh"):
        for root, dirs, fs in os.walk(mf):
            for f in fs:
                p = os.path.join(root, f)
                if os.path.islink(p):
                    m = files.get(os.path.realpath(p))
                else:
                    m = by_copy(open(p, "rb").read())
                if m is None:
                    ctx.violate("wrong-bytes", "%s: entry %s is not byte-for-byte an indexed message" % (mode, p),
                                entry=open(p, "rb").read()[:2000].decode("latin-1") if os.path.exists(p) else os.readlink(p), **det)
                out.append(m)
    elif mode == "mbox":
        data = open(mf, "rb").read() if os.path.exists(mf) else b""
        FR = b"From mairix@mairix"
        parts = re.split(rb"(?m)^From mairix@mairix[^\n]*\n", data)
        if parts[0]:
            ctx.violate("wrong-bytes", "result mbox starts with %r" % parts[0][:100], **det)
        for d in parts[1:]:
            m = by_copy(d, True)
            if m is None:
                for p, x in files.items():
                    b = open(p, "rb").read()
                    t = b"" if b.endswith(b"\n\n") else b"\n"
                    if d == b"X-source-folder: " + x.path().encode("latin-1") + b"\n" + b + t:
                        m = x
            if m is None:
                ctx.violate("wrong-bytes", "entry of the result mbox is not byte-for-byte an indexed message: %r" % d[:300], **det)
            out.append(m)
    else:
        by = {}
        for m in universe:
            by[m.path() if m.loc[0] == "file" else "mbox:%s [%d,%d)" % m.loc[1:]] = m
        for b in res.out.split(b"---------------------------------\n")[1:]:
            head, _, rest = b.partition(b"\n")
            m = by.get(head.decode("latin-1"))
            if m is None:
                ctx.violate("wrong-location", "excerpt of unknown %r" % head, **det)
            if rest.strip():
                if m.subject and " ".join(m.subject.split()) not in " ".join(rest.decode("latin-1").split()):
                    ctx.violate("wrong-bytes", "excerpt of %s shows other headers" % (m.loc,), block=rest.decode("latin-1"), **det)
                out.append(m)
    return out


cases = [("s%03d" % i, case) for i in range(tier_n(400, 2500))] + [("c%02d" % i, collide_case) for i in range(tier_n(16, 60))]
if __name__ == "__main__":
    core.main("C09", cases, rule="Mboxes (plain, gz, bz2, xz; From_ and MMDF) are changed behind the index in 22 ways (bit flips, shifts, same-length rewrites, truncation, deletion, "
              "swaps, damaged compression, with and without a changed mtime), then searched in every format; every delivered entry must be byte-exact, intact "
              "matches must all arrive and the warning must appear exactly when a matched message was stale. Non-trivial: at least one stale match.",
              assumptions=["MD5 collisions are out of scope"], min_evals=3000)
