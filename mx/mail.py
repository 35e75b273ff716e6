"""Generated mail with known contents, scratch mail stores, and the reference evaluator for searches."""
import bz2, datetime, gzip, lzma, os, random, re, shutil, string
from .core import Violation

WORDCH = set(string.ascii_letters + string.digits + "_")
ADDRCH = WORDCH | set("+-.@")
FIELDS = ("to", "cc", "from", "subject", "body", "att", "path")
LETTER = {"t": ("to",), "c": ("cc",), "f": ("from",), "s": ("subject",), "b": ("body",), "n": ("att",),
          "p": ("path",), "a": ("to", "cc", "from"), "r": ("to", "cc")}
MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
DAYS = "Mon Tue Wed Thu Fri Sat Sun".split()


def ascii_lower(s):
    return "".join(c.lower() if c.isascii() else c for c in s)


def runs(text, chars):
    out, cur = set(), []
    for ch in text:
        if ch in chars:
            cur.append(ch)
        elif cur:
            out.add("".join(cur).lower())
            cur = []
    if cur:
        out.add("".join(cur).lower())
    return out


def words(text):
    return runs(text, WORDCH)


def addr_words(text):
    return runs(text, WORDCH) | runs(text, ADDRCH)


class Msg:
    """One message: what it says (fields) and where it lives (loc)."""

    def __init__(self, uid, to=(), cc=(), frm="", subject="", date=None, msgid=None, irt=None, refs=(),
                 body="", atts=(), flags="", extra=()):
        self.uid = uid
        self.to, self.cc, self.frm, self.subject = list(to), list(cc), frm, subject
        self.date, self.msgid, self.irt, self.refs = date, msgid, irt, list(refs)
        self.body, self.atts, self.flags, self.extra = body, list(atts), flags, list(extra)
        self.loc = None          # ("file", path) or ("mbox", path, start, end)
        self.size = None

    def headers(self, mbox_flags=False):
        h = []
        if self.frm:
            h.append(("From", self.frm))
        for t in self.to:
            h.append(("To", t))
        for t in self.cc:
            h.append(("Cc", t))
        if self.subject:
            h.append(("Subject", self.subject))
        if self.date:
            d = self.date
            h.append(("Date", "%s, %d %s %04d 12:34:56 +0000" % (DAYS[d.weekday()], d.day, MONTHS[d.month - 1], d.year)))
        st = random.Random("style %s" % self.uid)
        if self.msgid:
            h.append(("Message-ID", st.choice(["<%s>"] * 8 + [" <%s> ", "<%s> (added by x)"]) % self.msgid))
        if self.irt:
            h.append(("In-Reply-To", st.choice(["<%s>"] * 6 + ["Your message of \"Mon, 1 Jan\" <%s>", "<%s> from x at y", "x's mail\n\t<%s>"]) % self.irt))
        if self.refs:
            h.append(("References", st.choice([" ", " ", " ", "", "\n ", "\n\t", ", ", " x "]).join("<%s>" % r for r in self.refs)))
        if mbox_flags:
            on = [c for c, f in (("R", "S"), ("A", "R"), ("F", "F")) if f in self.flags]
            a, b = (on[:1] if "R" in on else [], [c for c in on if c != "R"]) if st.random() < .6 else (on[:1], on[1:])
            if st.random() < .15:
                a, b = b, a
            for name, on, other in (("Status", a, "OUNTd "), ("X-Status", b, "DTON ")):
                x = on + [c for c in other if st.random() < .25]
                st.shuffle(x)
                if x:
                    h.insert(st.randint(0, len(h)), (st.choice([name, name, name.upper(), name.lower()]), "".join(x)))
        return h + self.extra

    def render(self, mbox_flags=False):
        lines = ["%s: %s" % kv for kv in self.headers(mbox_flags)]
        body = self.body
        if self.atts:
            b = "=_bnd_%s" % self.uid
            lines += ["MIME-Version: 1.0", 'Content-Type: multipart/mixed; boundary="%s"' % b]
            parts = ["Content-Type: text/plain\n\n%s" % body]
            for name in self.atts:
                parts.append('Content-Type: application/octet-stream\nContent-Disposition: attachment; filename="%s"\n\n'
                             'zzattachmentdata\n' % name)
            body = "".join("--%s\n%s" % (b, p if p.endswith("\n") else p + "\n") for p in parts) + "--%s--\n" % b
        text = "\n".join(lines) + "\n\n" + body
        if not text.endswith("\n"):
            text += "\n"
        d = text.encode("latin-1")
        odd = self.__dict__.get("odd")          # (bytes to append, size to pad to)
        if odd:
            d += odd[0]
            if len(d) < odd[1]:
                d += b"p" * (odd[1] - len(d) - 1) + b"\n"
        return d

    # ---- what a reader would call its words
    def tokens(self):
        t = self.__dict__.get("_tok")
        if t is None:
            to, cc = "\n".join(self.to), "\n".join(self.cc)
            t = {"to": addr_words(to), "cc": addr_words(cc), "from": addr_words(self.frm),
                 "subject": words(self.subject), "body": words(self.body),
                 "att": set(ascii_lower(a) for a in self.atts)}
            self._tok = t
        return t

    def ids(self):
        s = set(self.refs)
        if self.msgid:
            s.add(self.msgid)
        if self.irt:
            s.add(self.irt)
        return set(x.lower() for x in s)

    def path(self):
        return self.loc[1]

    def key(self):
        return self.loc


def parse_raw(out, what="search"):
    """Decodes -r output into a list of locations."""
    res = []
    for line in out.decode("latin-1").split("\n"):
        if not line:
            continue
        m = re.match(r"^mbox:(.*) \[(-?\d+),(-?\d+)\)$", line)
        if m:
            res.append(("mbox", m.group(1), int(m.group(2)), int(m.group(3))))
        elif line.startswith("/"):
            res.append(("file", line))
        elif re.match(r"^\d+:\d+:", line):
            res.append(("imap", line))
        else:
            raise Violation("raw-output", "unparsable line in raw output: %r" % line)
    return res


class Store:
    """A scratch mail store with an rc file; knows what is in it."""

    def __init__(self, ctx, name="s", variant="plain"):
        self.ctx, self.variant = ctx, variant
        self.root = os.path.join(ctx.root, name)
        self.mail = os.path.join(self.root, "mail")
        self.db = os.path.join(self.root, "db")
        self.mfolder = os.path.join(self.root, "mf")
        self.rc = os.path.join(self.root, "rc")
        os.makedirs(self.mail)
        self.conf = {}           # folder settings: list of (key, value)
        self.lines = []
        self.maildirs, self.mhs, self.mboxes = [], [], {}
        self.clock = 1300000000
        self.extra_rc = []
        self.mh_next = {}
        self.md_next = 0

    # ---- building
    def tick(self):
        self.clock += 7
        return self.clock

    def write(self, path, data, mtime=None):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
        t = mtime or self.tick()
        os.utime(path, (t, t))

    def add_maildir_msg(self, folder, msg, sub=None, name=None):
        d = os.path.join(self.mail, folder)
        for s in ("cur", "new", "tmp"):
            os.makedirs(os.path.join(d, s), exist_ok=True)
        if folder not in self.maildirs:
            self.maildirs.append(folder)
        self.md_next += 1
        sub = sub or ("cur" if msg.flags else "new")
        host = ("host", "host", "h-o.st,S=%d" % self.md_next, "h%s o%nst", "host,S=12,W=13")[self.md_next % 5]
        n = name or "%d.%d_%d.%s%s" % (1294156254 + self.md_next, 1000 + self.md_next, self.md_next, host,
                                       ":2," + "".join(sorted(msg.flags)) if sub == "cur" else "")
        p = os.path.join(d, sub, n)
        data = msg.render()
        self.write(p, data)
        msg.loc, msg.size = ("file", p), len(data)
        msg.store = "maildir"
        return msg

    def add_mh_msg(self, folder, msg, num=None):
        d = os.path.join(self.mail, folder)
        os.makedirs(d, exist_ok=True)
        if folder not in self.mhs:
            self.mhs.append(folder)
            with open(os.path.join(d, ".mh_sequences"), "w") as f:
                f.write("cur: 1\n")
        n = num or self.mh_next.get(folder, 1)
        self.mh_next[folder] = max(n, self.mh_next.get(folder, 0)) + 1
        p = os.path.join(d, str(n))
        data = msg.render()
        self.write(p, data)
        msg.loc, msg.size = ("file", p), len(data)
        msg.store = "mh"
        return msg

    def write_mbox(self, name, msgs, from_lines=None, comp=None, mmdf=False):
        """(Re)writes an mbox file; sets every message's extent."""
        p = os.path.join(self.mail, name)
        out, pos = [], 0
        for i, m in enumerate(msgs):
            sep = b"\1\1\1\1\n" if mmdf else (from_lines[i] if from_lines else
                                             b"From sender@host.example Mon Jan  3 10:%02d:%02d 2011\n" % (i % 60, i % 59))
            data = m.render(mbox_flags=True)
            if mmdf:
                body = data
                out += [sep, body, b"\1\1\1\1\n"]
                start = pos + 5
                end = start + len(body)
                pos = end + 5
            else:
                body = data + (b"\n" if i + 1 < len(msgs) else b"")
                out += [sep, body]
                start = pos + len(sep)
                end = start + len(body)
                pos = end
            m.loc, m.size = ("mbox", p, start, end), end - start
            m.store = "mbox"
            m.bytes = body
        blob = b"".join(out)
        if comp == "gz":
            import io
            b = io.BytesIO()
            with gzip.GzipFile(fileobj=b, mode="wb", mtime=0) as g:
                g.write(blob)
            blob = b.getvalue()
        elif comp == "bz2":
            blob = bz2.compress(blob)
        elif comp == "xz":
            blob = lzma.compress(blob)
        self.write(p, blob)
        self.mboxes[name] = list(msgs)
        return p

    def write_rc(self, mformat="maildir", **kw):
        L = ["base=%s" % self.mail]
        for k, lst in (("maildir", self.maildirs), ("mh", self.mhs), ("mbox", list(self.mboxes))):
            if lst:
                L.append("%s=%s" % (k, ":".join(x.replace(":", "\\:") for x in lst)))
        L.append("mformat=%s" % kw.get("mformat", mformat))
        L.append("mfolder=%s" % self.mfolder)
        L.append("database=%s" % self.db)
        L += self.extra_rc
        with open(self.rc, "w") as f:
            f.write("\n".join(L) + "\n")

    # ---- running
    def index(self, *flags, ok=(0,), hash_key=None, env=None):
        a = ["-f", self.rc] + list(flags)
        if hash_key is not None and not os.path.exists(self.db):
            a += ["--force-hash-key-new-database", str(hash_key)]
        return self.ctx.run(a, variant=self.variant, ok=ok, env=env)

    def search(self, args, flags=("-r",), ok=(0, 1), env=None):
        """Raw search: the list of matching locations; also checks exit status against the number of matches."""
        r = self.ctx.run(["-f", self.rc] + list(flags) + list(args), variant=self.variant, ok=ok, env=env)
        locs = parse_raw(r.out)
        if (r.rc == 0) != bool(locs):
            raise Violation("exit-vs-matches", "exit status %d with %d matches" % (r.rc, len(locs)), r.brief())
        return locs


# ------------------------------------------------------------------ reference evaluator

def term_hits(term, msg, fields):
    """term: dict(neg, kind in exact|sub, word, errors, anchor)."""
    if term["kind"] == "exact":
        w = ascii_lower(term["word"])
        hit = False
        for f in fields:
            if f == "path":
                hit = hit or term["word"] in msg.path()
            else:
                hit = hit or w in msg.tokens()[f]
    else:
        hit = False
        for f in fields:
            if f == "path":
                hit = hit or approx(term["word"], msg.path(), term["errors"], term["anchor"])
            else:
                w = ascii_lower(term["word"])
                for tok in msg.tokens()[f]:
                    if approx(w, tok, term["errors"], term["anchor"]):
                        hit = True
                        break
            if hit:
                break
    return (not hit) if term["neg"] else hit


def approx(pat, text, errors, anchor):
    """Is some substring (prefix, if anchored and errors==0) of text within `errors` edits of pat? (Sellers)"""
    if errors == 0:
        return text.startswith(pat) if anchor else pat in text
    return sellers(pat, text) <= errors


_sell = {}


def sellers(pat, text):
    k = (pat, text)
    v = _sell.get(k)
    if v is None:
        if pat in text:
            v = 0
        else:
            m = len(pat)
            col = list(range(m + 1))
            v = m
            for ch in text:
                prev, col[0] = col[0], 0
                for i in range(1, m + 1):
                    cur = col[i]
                    x = prev + (pat[i - 1] != ch)
                    if cur + 1 < x:
                        x = cur + 1
                    if col[i - 1] + 1 < x:
                        x = col[i - 1] + 1
                    col[i] = x
                    prev = cur
                if col[m] < v:
                    v = col[m]
        if len(_sell) > 400000:
            _sell.clear()
        _sell[k] = v
    return v


class Arg:
    """One search argument: prefix letters + OR of AND groups."""

    def __init__(self, prefix, groups):
        self.prefix, self.groups = prefix, groups

    def text(self):
        gs = []
        for g in self.groups:
            ts = []
            for t in g:
                s = ("~" if t["neg"] else "") + ("^" if t.get("anchor") else "") + t["word"]
                if t["kind"] == "sub":
                    s += "=" + (str(t["errors"]) if t["errors"] else "")
                ts.append(s)
            gs.append(",".join(ts))
        body = "/".join(gs)
        return body if self.prefix is None else self.prefix + ":" + body

    def fields(self):
        if self.prefix is None:
            return ("to", "cc", "from", "subject", "body")
        out = []
        for ch in self.prefix:
            for f in LETTER[ch]:
                if f not in out:
                    out.append(f)
        return tuple(out)

    def hits(self, msg):
        fl = self.fields()
        return any(all(term_hits(t, msg, fl) for t in g) for g in self.groups)


class MidArg:
    def __init__(self, mid):
        self.mid = mid

    def text(self):
        return "m:" + self.mid

    def hits(self, msg):
        return bool(msg.msgid) and msg.msgid.lower() == self.mid.lower()


def evaluate(args, msgs):
    return [m for m in msgs if all(a.hits(m) for a in args)]


# ------------------------------------------------------------------ random contents

SYL = "ba be bo ka ke ko la le lo ma me mo na ne no ra re ro sa se so ta te to xi zu".split()


# whatever is no letter, digit or underscore separates words (the last ones: quotes, dashes and blanks of UTF-8 text)
SEPS = [", ", ".", "-", " (", ") ", "'", "+", "@", ": ", "\t", "!", "*", " \xe9 ", "/", "&"] * 2 + \
       [";", "=", "[", "]", "{", "}", "|", "\\", "#", "$", "%", "^", "~", "`", '"', "<", ">", "?", "\x0b", "\x7f",
        " \xe2\x80\x9c", "\xe2\x80\x9d ", "\xe2\x80\x93", "\xc2\xa0", "\xc2\xbb", "\xa0"]


class Vocab:
    def __init__(self, rng, n=60):
        self.rng = rng
        ws = set()
        while len(ws) < n:
            k = rng.random()
            if k < 0.6:
                w = "".join(rng.choice(SYL) for _ in range(rng.randint(1, 4)))
            elif k < 0.7:
                w = rng.choice(SYL) + str(rng.randint(0, 99))
            elif k < 0.78:
                w = "_".join(rng.choice(SYL) for _ in range(2))
            elif k < 0.84:
                w = str(rng.randint(0, 9999))
            elif k < 0.9:
                w = rng.choice(string.ascii_lowercase)
            elif k < 0.96 and ws:
                b = rng.choice(sorted(ws))
                w = b + rng.choice(["s", "x", "1", "_", b])
            else:
                w = "".join(rng.choice(SYL) for _ in range(rng.randint(12, 40)))
            ws.add(w)
        self.words = sorted(ws)

    def word(self):
        w = self.rng.choice(self.words)
        k = self.rng.random()
        return w.upper() if k < 0.08 else w.capitalize() if k < 0.25 else w

    def text(self, lo, hi, seps=" "):
        r = self.rng
        n = r.randint(lo, hi)
        out = []
        for i in range(n):
            out.append(self.word())
            k = r.random()
            out.append(" " if k < .7 else r.choice(SEPS)
                       if seps == "all" else r.choice(seps))
        return "".join(out).strip()

    def addr(self):
        r = self.rng
        local = self.word()
        if r.random() < .5:
            local += r.choice([".", "-", "+", "_"]) + self.word()
        host = "%s.%s" % (self.word(), r.choice(["org", "example", "co.uk"]))
        a = "%s@%s" % (local, host)
        k = r.random()
        if k < .4:
            return a
        if k < .8:
            return "%s %s <%s>" % (self.word(), self.word(), a)
        return '"%s, %s" <%s>' % (self.word(), self.word(), a)

    def body(self, lo, hi):
        r = self.rng
        lines = []
        n = r.randint(lo, hi)
        while n > 0:
            k = r.randint(1, 9)
            t = self.text(k, k, "all")
            if t.startswith(("From ", "from ")):
                t = ">" + t
            lines.append(t)
            n -= k
        return "\n".join(lines) + "\n"


def random_msg(rng, voc, uid, midpool=None, big=False, dates=True):
    ids = midpool if midpool is not None else []
    m = Msg(uid,
            to=[", ".join(voc.addr() for _ in range(rng.randint(1, 3))) for _ in range(rng.choice([0, 1, 1, 1, 2]))],
            cc=[", ".join(voc.addr() for _ in range(rng.randint(1, 2))) for _ in range(rng.choice([0, 0, 1, 2]))],
            frm=voc.addr() if rng.random() < .95 else "",
            subject=voc.text(1, 6, "all") if rng.random() < .95 else "",
            body=voc.body(1, 200 if big else 30) if rng.random() < .97 else "",
            flags="".join(f for f in "FRS" if rng.random() < .35))
    if rng.random() < .95:
        m.msgid = "%s.%s@%s" % (rng.choice(voc.words), uid, rng.choice(["Mail.example", "h.org"]))
    if ids and rng.random() < .5:
        m.irt = rng.choice(ids)
    if ids and rng.random() < .4:
        m.refs = [rng.choice(ids) for _ in range(rng.randint(1, 3))]
    if m.msgid and midpool is not None:
        midpool.append(m.msgid)
    if dates and rng.random() < .97:
        m.date = datetime.date(1990, 1, 1) + datetime.timedelta(days=rng.randint(0, 47 * 365))
    if rng.random() < .15:
        m.atts = ["%s%s.%s" % (voc.word(), rng.choice(["", "-1", "_x", "%d" % rng.randint(0, 99)]), rng.choice(["pdf", "TXT", "jpg"]))
                  for _ in range(rng.randint(1, 2))]
    return m


def random_arg(rng, voc, msgs, allow_path=True, subs=False):
    if rng.random() < .3:
        prefix = None
    else:
        letters = "tcfsbarn" + ("p" if allow_path else "")
        prefix = "".join(rng.sample(letters, rng.choice([1, 1, 1, 2, 2, 3])))
    arg = Arg(prefix, [])
    fl = arg.fields()

    def pick():
        k = rng.random()
        m = rng.choice(msgs)
        if k < .6:
            f = rng.choice(fl)
            if f == "path":
                p = m.path()
                i = rng.randrange(len(p))
                w = p[i:i + rng.randint(1, 14)]
            else:
                toks = sorted(m.tokens()[f])
                if not toks:
                    return voc.word()
                w = rng.choice(toks)
        elif k < .75:
            allt = sorted(set().union(*m.tokens().values()))
            w = rng.choice(allt) if allt else voc.word()
        elif k < .9:
            w = voc.word()
        else:
            w = voc.word() + rng.choice(["x", "q", "s", "_"])
        if "p" not in (prefix or "") and rng.random() < .2:
            w = w.upper()
        return w

    def clean(w):
        w = re.sub(r"[/,=~^: \t]", "", w)
        return w or "zz"
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        g = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            w = clean(pick())
            if "p" in (prefix or "") and len(w) > 31:
                w = w[:31]
            g.append({"neg": rng.random() < .2, "kind": "exact", "word": w, "errors": 0, "anchor": False})
        arg.groups.append(g)
    return arg
