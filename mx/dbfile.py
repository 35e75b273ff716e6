"""Independent decoder and structural checker of the database file (format: reader.h)."""
import hashlib, struct
from .core import Violation

TABLES = [("to", 16), ("cc", 19), ("from", 22), ("subject", 25), ("body", 28), ("att", 31)]
MSGID = 34
TYPES = {0: "dead", 1: "file", 2: "mbox", 3: "imap"}


class Bad(Violation):
    def __init__(self, key, msg):
        Violation.__init__(self, "db:" + key, "database file: " + msg)


class Db:
    def __init__(self, path):
        with open(path, "rb") as f:
            d = self.data = f.read()
        self.size = len(d)
        if len(d) < 160:
            raise Bad("short", "only %d bytes" % len(d))
        if d[:4] != b"MX\xa5\x04":
            raise Bad("magic", "magic %r" % d[:4])
        h = self.h = struct.unpack_from("=40I", d, 0)
        if h[1] != 0x44332211:
            raise Bad("endian", "endian word %x" % h[1])
        self.n = n = h[2]
        self.claims = [(0, 160, "header")]
        self.types = self.bytes_at(h[3], n, "type/flag table")
        self.cdata = self.words(h[4], n, "message path table")
        self.mtime = self.words(h[5], n, "mtime table")
        self.msize = self.words(h[6], n, "size table")
        self.date = self.words(h[7], n, "date table")
        self.tid = self.words(h[8], n, "thread table")
        self.nmbox = h[9]
        self.mpath = self.words(h[10], self.nmbox, "mbox paths")
        self.mcount = self.words(h[11], self.nmbox, "mbox entries")
        self.mmtime = self.words(h[12], self.nmbox, "mbox mtimes")
        self.mfsize = self.words(h[13], self.nmbox, "mbox sizes")
        self.mck = self.words(h[14], self.nmbox, "mbox checksum offsets")
        self.hash_key = h[15]
        self.mboxes = []
        for i in range(self.nmbox):
            p = self.cstr(self.mpath[i], "mbox path") if self.mpath[i] else None
            ck = self.bytes_at(self.mck[i], 16 * self.mcount[i], "mbox checksums")
            self.mboxes.append((p, self.mcount[i], [ck[16 * j:16 * j + 16] for j in range(self.mcount[i])]))
        self.msgs = []
        for i in range(n):
            tf = self.types[i]
            ty = TYPES.get(tf & 7)
            if ty is None:
                raise Bad("type", "message %d has type %d" % (i, tf & 7))
            fl = "".join(c for c, b in (("F", 32), ("R", 16), ("S", 8)) if tf & b)
            m = {"type": ty, "flags": fl, "date": self.date[i], "tid": self.tid[i], "size": self.msize[i]}
            if ty in ("file", "imap"):
                m["path"] = self.cstr(self.cdata[i], "message path")
                m["mtime"] = self.mtime[i]
                m["loc"] = (ty, m["path"])
            elif ty == "mbox":
                mbi, msgi = self.mbox_ref(self.cdata[i])
                if mbi >= self.nmbox:
                    raise Bad("mboxref", "message %d names mbox %d of %d" % (i, mbi, self.nmbox))
                p, cnt, cks = self.mboxes[mbi]
                if p is None:
                    raise Bad("mboxref-dead", "live message %d is in dead mbox %d" % (i, mbi))
                if msgi >= cnt:
                    raise Bad("mboxref-range", "message %d is number %d of %d in its mbox" % (i, msgi, cnt))
                m.update(path=p, start=self.mtime[i], mbox=mbi, msgi=msgi, ck=cks[msgi],
                         loc=("mbox", p, self.mtime[i], self.mtime[i] + self.msize[i]))
            else:
                m["loc"] = None
            self.msgs.append(m)
        self.tables = {}
        for name, base in TABLES:
            self.tables[name] = self.toktable(base, name)
        k = MSGID
        cnt = h[k]
        toks = self.words(h[k + 1], cnt, "msgid tokens")
        e0 = self.words(h[k + 2], cnt, "msgid chain 0")
        e1 = self.words(h[k + 3], cnt, "msgid chain 1")
        self.msgid0, self.msgid1 = {}, {}
        for i in range(cnt):
            t = self.cstr(toks[i], "message-ID")
            if t in self.msgid0:
                raise Bad("dup-token", "message-ID %r appears twice" % t)
            self.msgid0[t] = self.posting(e0[i], "message-ID " + t, False)
            self.msgid1[t] = self.posting(e1[i], "message-ID " + t, True)
        self.check_overlap()

    # ---- primitives with bounds checks
    def words(self, off, n, what):
        a = off * 4
        if n and (off < 40 or a + 4 * n > self.size):
            raise Bad("bounds", "%s [%d..%d) outside file of %d bytes" % (what, a, a + 4 * n, self.size))
        if n:
            self.claims.append((a, a + 4 * n, what))
        return struct.unpack_from("=%dI" % n, self.data, a) if n else ()

    def bytes_at(self, off, n, what):
        if n and (off < 160 or off + n > self.size):
            raise Bad("bounds", "%s [%d..%d) outside file of %d bytes" % (what, off, off + n, self.size))
        if n:
            self.claims.append((off, off + n, what))
        return self.data[off:off + n]

    def cstr(self, off, what):
        if off < 160 or off >= self.size:
            raise Bad("bounds", "%s at %d outside file of %d bytes" % (what, off, self.size))
        e = self.data.find(b"\0", off)
        if e < 0:
            raise Bad("unterminated", "%s at %d not terminated" % (what, off))
        self.claims.append((off, e + 1, what))
        return self.data[off:e].decode("latin-1")

    def mbox_ref(self, off):
        return struct.unpack("=II", self.bytes_at(off, 8, "mbox reference"))

    def posting(self, off, what, may_be_empty):
        p, d, out, acc, first = off, self.data, [], 0, True
        if off < 160 or off >= self.size:
            raise Bad("bounds", "postings of %s at %d outside file" % (what, off))
        while True:
            if p >= self.size:
                raise Bad("posting-end", "postings of %s run off the file" % what)
            x = d[p]
            if x == 0xff:
                p += 1
                break
            if x & 0xc0 == 0xc0:
                inc = ((x & 0x3f) << 24) | (d[p + 1] << 16) | (d[p + 2] << 8) | d[p + 3]
                p += 4
            elif x & 0x80:
                inc = ((x & 0x7f) << 8) | d[p + 1]
                p += 2
            else:
                inc = x
                p += 1
            if not first and inc == 0:
                raise Bad("posting-order", "postings of %s not strictly ascending" % what)
            acc += inc
            first = False
            if acc >= self.n:
                raise Bad("posting-range", "postings of %s name message %d of %d" % (what, acc, self.n))
            out.append(acc)
        self.claims.append((off, p, "postings"))
        if not out and not may_be_empty:
            raise Bad("posting-empty", "postings of %s are empty" % what)
        return out

    def toktable(self, base, name):
        n = self.h[base]
        toks = self.words(self.h[base + 1], n, name + " tokens")
        encs = self.words(self.h[base + 2], n, name + " encodings")
        t = {}
        for i in range(n):
            s = self.cstr(toks[i], name + " token")
            if s in t:
                raise Bad("dup-token", "%s word %r appears twice" % (name, s))
            t[s] = self.posting(encs[i], "%s word %r" % (name, s), False)
        return t

    def check_overlap(self):
        c = sorted(set(self.claims))
        for (a, b, w), (a2, b2, w2) in zip(c, c[1:]):
            if a2 < b:
                raise Bad("overlap", "%s [%d,%d) overlaps %s [%d,%d)" % (w, a, b, w2, a2, b2))

    # ---- content
    def live(self):
        """{loc: {size,date,flags,fields...}} of live messages, plus threads as a set of frozensets of locs."""
        per = [dict((f, set()) for f in list(self.tables) + ["id0", "id1"]) for _ in range(self.n)]
        for f, t in self.tables.items():
            for w, ps in t.items():
                for i in ps:
                    per[i][f].add(w)
        for name, t in (("id0", self.msgid0), ("id1", self.msgid1)):
            for w, ps in t.items():
                for i in ps:
                    per[i][name].add(w)
        out, threads = {}, {}
        for i, m in enumerate(self.msgs):
            if m["type"] == "dead":
                continue
            if m["loc"] in out:
                raise Bad("dup-message", "message %s is in the database twice" % (m["loc"],))
            rec = {"size": m["size"], "date": m["date"], "flags": m["flags"], "mtime": m.get("mtime"), "ck": m.get("ck"),
                   "fields": {k: frozenset(v) for k, v in per[i].items()}}
            out[m["loc"]] = rec
            threads.setdefault(m["tid"], set()).add(m["loc"])
        return out, set(frozenset(t) for t in threads.values())
