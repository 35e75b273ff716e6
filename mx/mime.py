"""Logical mail content and its many equivalent MIME encodings."""
import base64, binascii, re
from . import mail

PREFIXED = .25
DECOY = "zzdecoy"


class Gen:
    def __init__(self, rng, voc):
        self.r, self.voc, self.n = rng, voc, 0

    def decoy(self):
        self.n += 1
        return "%s%d" % (DECOY, self.n)

    # ------------------------------------------------------------ contents
    def text(self, lo=1, hi=25):
        r, out = self.r, []
        nul = r.random() < .1
        for _ in range(r.randint(lo, hi)):
            out.append(self.voc.word())
            k = r.random()
            out.append(r.choice(["\0", " \0 ", "\0\0"]) if nul and r.random() < .2 else " " if k < .6 else "\n" if k < .8 else
                       r.choice([", ", ".", "-", " \xe9", "\xc3\xa9", "'", "=", "= ", " (", ") ", "\t", "?", "=?", "!", "--", "\n\n", "_"]))
        s = "".join(out)
        # no line that could be a separator or boundary
        s = re.sub(r"(?m)^(--|From )", r"x\1", s).rstrip("\n ") + "\n"
        if r.random() < .3:                  # ends within a word
            s = re.sub(r"[^A-Za-z0-9]+\Z", "", s)
        return s

    def html(self):
        r, vis = self.r, []
        out = ["<html><head></head><body class='%s'>" % self.decoy() if r.random() < .7 else ""]
        for _ in range(r.randint(1, 15)):
            w = self.voc.word()
            vis.append(w)
            k = r.random()
            if k < .3:
                out.append("<p class=\"%s\">%s</p>" % (self.decoy(), w))
            elif k < .5:
                out.append(" <a href=\"http://%s/%s\">%s</a>\n" % (self.decoy(), self.decoy(), w))
            elif k < .6:
                out.append("<br>%s<br/>" % w)
            elif k < .7:
                out.append("<img\n src=%s\n alt='%s'\n> %s" % (self.decoy(), self.decoy(), w))
            else:
                out.append(" " + w + r.choice([" ", ", ", "\n"]))
        return "".join(out) + r.choice(["</body></html>\n", "\n"]), " ".join(vis)

    # ------------------------------------------------------------ transfer encodings
    def enc_none(self, b):
        return b, self.r.choice([None, None, "7bit", "8bit", "8BIT", "binary", "7Bit", "BINARY"])

    def enc_b64(self, b):
        r = self.r
        s = base64.b64encode(b).decode()
        w = r.choice([4, 5, 19, 60, 72, 76, 76, 76, 10 ** 6])
        lines = [s[i:i + w] for i in range(0, len(s), w)] or [""]
        if r.random() < .2:                  # what is outside the alphabet does not count
            lines = [r.choice(["", " ", "\t", "  ", "> "]) + l + r.choice(["", " ", "\t", "!"]) for l in lines]
        return ("\n".join(lines) + "\n").encode(), r.choice(["base64", "Base64", "BASE64"])

    def enc_qp(self, b):
        r, out, col = self.r, [], 0
        dens = r.choice([0, .05, .3, 1])
        soft = r.choice([0, .02, .2])
        brk = r.choice([["=\n"], ["=\n", "= \n", "=\t\n", "=  \t \n"]])    # blanks added at line ends in transit
        for i, c in enumerate(b):
            ch = chr(c)
            if ch == "\n":
                out.append("\n")
                col = 0
                continue
            nxt = b[i + 1:i + 2]
            must = c < 32 and ch != "\t" or c > 126 or ch == "=" or (ch in " \t" and nxt in (b"\n", b""))
            if must or r.random() < dens:
                h = "%02X" % c
                e = "=" + h                       # RFC 2045: upper case is required
            else:
                e = ch
            if col + len(e) > 75 or r.random() < soft:
                out.append(r.choice(brk))
                col = 0
            out.append(e)
            col += len(e)
        if not b.endswith(b"\n"):
            out.append(r.choice(["\n", "=\n"]))
        return "".join(out).encode("latin-1"), r.choice(["quoted-printable", "Quoted-Printable", "QUOTED-PRINTABLE"])

    def enc_uu(self, b):
        r = self.r
        lines = ["begin 644 %s.txt" % self.decoy()]
        for i in range(0, len(b), 45):
            l = binascii.b2a_uu(b[i:i + 45], backtick=r.random() < .5).decode().rstrip("\n")
            if r.random() < .2:
                l = l + "A"                       # the checksum character some encoders add
            lines.append(l)
        lines += [r.choice(["`", " "]), "end", ""]
        return "\n".join(lines).encode("latin-1"), r.choice(["x-uuencode", "X-UUENCODE"])

    def leaf_body(self, text):
        b = text.encode("latin-1")
        f = self.r.choice([self.enc_none, self.enc_none, self.enc_b64, self.enc_b64, self.enc_qp, self.enc_qp, self.enc_uu])
        return f(b)

    # ------------------------------------------------------------ parts: (headers, body bytes, {field: visible text})
    def leaf(self):
        r = self.r
        k = r.random()
        vis = {"body": "", "att": []}
        if k < .45:
            t = self.text()
            ct = r.choice(["text/plain", "text/plain", "TEXT/PLAIN", "Text/Plain; charset=us-ascii", "text/plain; charset=\"utf-8\"; format=flowed",
                           "text/plain;charset=utf-8", "text/plain ;\n\tcharset=iso-8859-1", "text/plain;", "text/plain; charset=\"\"",
                           "text/plain; x-note=\"caf\xe9 \\\"au\\\" lait\"", "text/plain; x-note=caf\xc3\xa9"])
            vis["body"] = t
        elif k < .65:
            t, v = self.html()
            ct = r.choice(["text/html", "Text/HTML; charset=utf-8", "text/html;charset=\"utf-8\""])
            vis["body"] = v
        else:
            t = "%s %s\n%s\n" % (self.decoy(), self.decoy(), self.decoy())
            ct = r.choice(["application/octet-stream", "image/png", "text/x-diff", "text/calendar; method=REQUEST", "application/pdf", "audio/x-foo",
                           "text/css", "text/richtext", "message/delivery-status", "message/external-body; access-type=x",
                           "application/vnd.oasis.opendocument.text", "text/plainish", "text/htmlx", "image/jpeg; x-name=\"%s \xc3\xa9\"" % self.decoy(),
                           "image/jpeg; x=\"\"", "application/zip; x=\"a\\\\\\\"b\\;c\""])
        body, cte = self.leaf_body(t)
        h = [("Content-Type", ct)]
        if cte:
            h.append(("Content-Transfer-Encoding", cte))
        if r.random() < .35:
            name = self.filename()
            d = r.choice(["attachment", "attachment", "attachment", "Attachment", "ATTACHMENT", "inline"])
            if d == "inline":
                h.append(("Content-Disposition", r.choice(["inline", "inline; filename=\"%s\"" % self.decoy()])))
                if "filename" in h[-1][1]:
                    pass
            else:
                if r.random() < .2 and not ct.endswith(";"):
                    h[0] = ("Content-Type", ct + r.choice(["; name=", ";name=", "; Name=", ";\n NAME="]) + self.quoted(name))
                    h.append(("Content-Disposition", d))
                else:
                    if r.random() < .2 and not ct.endswith(";"):
                        h[0] = ("Content-Type", ct + "; name=" + self.decoy())
                    h.append(("Content-Disposition", d + self.params(name)))
                vis["att"].append(name)
        if ct == "text/plain" and h[0][1] == ct and r.random() < .3:         # what there is when nothing is said
            del h[0]
        if r.random() < .3:
            h.append(("Content-Description", self.decoy()))
        if r.random() < .2:
            h.append(("Content-ID", "<%s@x>" % self.decoy()))
        r.shuffle(h)
        return h, body, vis

    def filename(self):
        r = self.r
        n = self.voc.word() + r.choice(["", " ", "-", "_", ".", "(1)", "'s "]) + self.voc.word() + r.choice([".pdf", ".TXT", ".tar.gz", ""])
        if r.random() < .1:
            n = n * r.randint(2, 12)
        if r.random() < .25:
            k = r.randint(0, len(n))
            n = n[:k] + r.choice(["\xc3\xa9", "\xe9", '"', "\\", '\\"', ";", "=", "\xd1\x84\xd1\x8b", "'", "%"]) + n[k:]
        return n.strip()

    def quoted(self, name):
        r = self.r
        if re.match(r"^[A-Za-z0-9._\x80-\xff-]+$", name) and r.random() < .5:
            return name
        p = r.choice([0, 0, .1])             # a backslash says: the next character as it is
        return '"%s"' % "".join("\\" + c if c in '\\"' or r.random() < p else c for c in name)

    def pct(self, s):
        r = self.r
        return "".join(c if re.match(r"[A-Za-z0-9._-]", c) and r.random() < .8 else
                       ("%%%02X" if r.random() < .8 else "%%%02x") % ord(c) for c in s)

    def params(self, name):
        r = self.r
        f = r.choice(["filename", "filename", "filename", "Filename", "FILENAME"])
        cs = r.choice(["utf-8''", "us-ascii''", "UTF-8''", "iso-8859-1'en'", "utf-8'en-GB'", "''"])
        k = r.random()
        sep = lambda: r.choice([";", "; ", ";\n ", ";\n\t", " ; "])
        other = lambda: r.choice(["", "", sep() + "size=1234", sep() + "creation-date=\"Wed, 12 Feb 1997 16:29:51 -0500\"", sep() + "x=%s" % self.decoy(), sep() + 'x=""',
                                  sep() + 'x="%s;\\"\\\\ filename=%s \xe9"' % (self.decoy(), self.decoy())])
        if k < .4:
            p = sep() + f + "=" + self.quoted(name)
        elif k < .6:
            p = sep() + f + "*=" + cs + self.pct(name)
        else:
            n = min(len(name), r.choice([2, 2, 3, 5, 13]))
            cuts = sorted(r.sample(range(1, len(name)), n - 1)) if len(name) > n - 1 and n > 1 else []
            segs = [name[a:b] for a, b in zip([0] + cuts, cuts + [len(name)])]
            ext = r.random() < .5
            p = ""
            for i, s in enumerate(segs):
                if ext and (i == 0 or r.random() < .6 or not s.strip() == s):
                    p += sep() + "%s*%d*=%s" % (f, i, (cs if i == 0 else "") + self.pct(s))
                else:
                    p += sep() + "%s*%d=%s" % (f, i, self.quoted(s))
        return other() + p + other()

    def boundary(self, outer):
        r = self.r
        if outer and r.random() < PREFIXED:
            self.n += 1                      # extends an outer one, yet differs from every other
            return r.choice(outer) + r.choice(["1", "x", "-1", "=_", ".a"]) + "n%d" % self.n
        n = r.randint(1, 50)
        return "".join(r.choice("0123456789abcXYZ'()+_,-./:=?") for _ in range(n)) + "Q%d" % r.randint(0, 10 ** 6)

    def multipart(self, depth, outer):
        r = self.r
        b = self.boundary(outer)
        parts, vis = [], {"body": [], "att": [], "to": [], "cc": [], "from": [], "subject": []}
        for _ in range(r.randint(1, 4)):
            h, body, v = self.part(depth + 1, outer + [b])
            parts.append(self.join(h, body))
            merge(vis, v)
        out = []
        pads = [b""] if r.random() < .85 else [b"", b" ", b"\t", b"  \t "]      # blanks added at line ends in transit
        if r.random() < .5:
            out.append(("%s This is a MIME message. %s\n\n" % (self.decoy(), self.decoy())).encode())
        for p in parts:
            if not p.endswith(b"\n"):
                p += b"\n"
            out.append(b"--" + b.encode() + r.choice(pads) + b"\n" + p)
        out.append(b"--" + b.encode() + b"--" + r.choice(pads) + b"\n")
        if r.random() < .3:
            out.append(("%s\n" % self.decoy()).encode())
        q = '"%s"' % b if not re.match(r"^[A-Za-z0-9]+$", b) or r.random() < .5 else b
        sub = r.choice(["mixed", "alternative", "related", "Mixed", "signed; micalg=pgp-sha1", "report; report-type=x"])
        ct = "%s/%s%s%s=%s%s" % (r.choice(["multipart", "multipart", "Multipart", "MULTIPART"]), sub, r.choice([";", "; ", ";\n\t", " ; "]),
                                 r.choice(["boundary", "boundary", "Boundary", "BOUNDARY"]), q, r.choice(["", "", "; type=\"text/html\"", ";"]))
        h = [("Content-Type", ct)]
        if r.random() < .3:
            h.append(("Content-Transfer-Encoding", r.choice(["7bit", "8bit", "binary"])))
        return h, b"".join(out), vis

    def part(self, depth, outer):
        r = self.r
        k = r.random()
        if depth >= 6 or k < .6:
            if k < .08:                       # headers are optional in a part
                t = self.text()
                return [], t.encode("latin-1"), {"body": t}
            return self.leaf()
        if k < .8:
            return self.multipart(depth, outer)
        h, b, v = self.message(depth + 1, outer)
        hd = [("Content-Type", r.choice(["message/rfc822", "Message/RFC822", "message/rfc822; name=\"%s\"" % self.decoy()]))]
        if r.random() < .3:
            hd.append(("Content-Transfer-Encoding", r.choice(["7bit", "8bit"])))
        if r.random() < .2:
            n = self.filename()
            hd.append(("Content-Disposition", "attachment" + self.params(n)))
            v.setdefault("att", []).append(n)
        return hd, self.join(h, b), v

    def join(self, h, body):
        return b"".join(self.head(k, v) for k, v in h) + b"\n" + body

    def head(self, k, v):
        r = self.r
        x = r.random()
        k = k.lower() if x < .1 else k.upper() if x < .2 else k
        return ("%s:%s%s\n" % (k, r.choice([" ", " ", " ", "", "  ", "\t"]), v)).encode("latin-1")

    # ------------------------------------------------------------ headers
    def ew(self, b):
        """Encodes bytes as one encoded-word."""
        r = self.r
        cs = r.choice(["utf-8", "UTF-8", "ISO-8859-1", "us-ascii", "utf-8*en", "windows-1252"])
        if r.random() < .5:
            return "=?%s?%s?%s?=" % (cs, r.choice("bB"), base64.b64encode(b).decode())
        dens = r.choice([0, .3, 1])
        out = []
        for c in b:
            ch = chr(c)
            if ch == " ":
                out.append(r.choice(["_", "=20"]))
            elif ch.isascii() and ch.isalnum() and r.random() >= dens:
                out.append(ch)
            else:
                out.append(("=%02X" if r.random() < .8 else "=%02x") % c)
        return "=?%s?%s?%s?=" % (cs, r.choice("qQ"), "".join(out))

    def phrase(self, text):
        """One of the ways to write `text` (words separated by single blanks) in a header."""
        r = self.r
        if r.random() < .35:
            return self.fold(text)
        toks = text.split(" ")
        out, i = [], 0
        while i < len(toks):
            if r.random() < .4:
                out.append(toks[i])
                i += 1
                continue
            n = r.randint(1, 4)
            t = " ".join(toks[i:i + n])
            i += n
            b = t.encode("latin-1")
            ws = []
            while b:                           # one logical run, cut anywhere into adjacent encoded-words
                k = r.choice([1, 3, 10, 40, 45, len(b)])
                ws.append(self.ew(b[:k]))
                b = b[k:]
            run = ws[0]
            for w in ws[1:]:
                run += r.choice([" ", " ", "\n ", "\n\t", "  ", "\n  "]) + w
            if out and out[-1].startswith("=?"):
                # two runs that touch would be joined: put the blank inside the second one
                run = re.sub("^", "", self.ew(b" ") + " " + run)
            out.append(run)
        s = out[0]
        for t in out[1:]:
            s += r.choice([" ", " ", " ", "\n ", "\n\t"]) + t
        return s

    def fold(self, text):
        return "".join(self.r.choice(["\n ", "\n\t", "\n   "]) if c == " " and self.r.random() < .15 else c for c in text)

    def plain_phrase(self, lo, hi):
        r = self.r
        ws = []
        for _ in range(r.randint(lo, hi)):
            w = self.voc.word()
            k = r.random()
            ws.append(w if k < .75 else w + r.choice([",", "!", "-" + self.voc.word(), "'s", "\xe9", "\xc3\xa9t", ".", "_x", ":", "(y)"]))
        return " ".join(ws)

    def addrlist(self):
        r = self.r
        vis, wire = [], []
        for _ in range(r.randint(1, 3)):
            a = "%s@%s.example" % (self.voc.word() + r.choice(["", ".x", "-y", "+tag", "_z"]), self.voc.word())
            if r.random() < .6:
                # a phrase may not hold specials unless encoded: use words only
                p = " ".join(self.voc.word() for _ in range(r.randint(1, 3)))
                vis.append("%s <%s>" % (p, a))
                wire.append("%s%s<%s>" % (self.phrase(p), r.choice([" ", "\n "]), a))
            elif r.random() < .4:
                p = [self.voc.word() for _ in range(3)]
                p = r.choice(['"%s, %s (%s)" <%%s>', '%s %s: %%s, %s;', "%%s (%s %s-%s)", '"%s <%s> %s" <%%s>']) % tuple(p) % a
                vis.append(p)
                wire.append(self.fold(p))
            else:
                vis.append(a)
                wire.append(a)
        return ", ".join(vis), r.choice([", ", ",\n ", ",\n\t", ","]).join(wire)

    def message(self, depth=0, outer=()):
        """A whole message: (headers, body, visible)."""
        r = self.r
        vis = {"to": [], "cc": [], "from": [], "subject": [], "body": [], "att": []}
        h = []
        v, w = self.addrlist()
        h.append(("From", w))
        vis["from"].append(v)
        for f, n in (("To", r.choice([0, 1, 1, 2])), ("Cc", r.choice([0, 0, 1, 2]))):
            for _ in range(n):
                v, w = self.addrlist()
                h.append((f, w))
                vis[f.lower()].append(v)
        if r.random() < .95:
            s = self.plain_phrase(1, 8)
            h.append(("Subject", self.phrase(s)))
            vis["subject"].append(s)
        for _ in range(r.randint(0, 3)):
            h.append((r.choice(["X-Mailer", "Received", "X-Subject", "Reply-To", "Return-Path", "Sender", "X-To", "Bcc", "Comments",
                                "Tomorrow", "Subjects", "List-Id", "Organization", "Resent-To", "Resent-From", "Ccx"]),
                      self.fold("%s %s@%s.example; %s" % (self.decoy(), self.decoy(), self.decoy(), self.decoy()))))
        h.append(("Date", "Mon, 03 Jan 2011 10:00:00 +0000"))
        if r.random() < .9:
            self.n += 1
            h.append(("Message-ID", "<id%d.%d@x.example>" % (depth, self.n)))
        k = r.random()
        if k < .2:
            t = self.text()
            body, v = t.encode("latin-1"), {"body": t}
        else:
            h.append(("MIME-Version", "1.0"))
            if k < .4:
                ph, body, v = self.leaf()
            elif depth < 5:
                ph, body, v = self.multipart(depth, list(outer))
            else:
                ph, body, v = self.leaf()
            h += ph
        merge(vis, v)
        r.shuffle(h)
        # several To/Cc headers keep their relative order: irrelevant for words
        return h, body, vis


def merge(a, b):
    for k, v in b.items():
        x = v if isinstance(v, list) else [v]
        a.setdefault(k, []).extend(x)


def expected(vis):
    e = {}
    for f in ("to", "cc", "from"):
        e[f] = set().union(set(), *(mail.addr_words(t) for t in vis.get(f, [])))
    for f in ("subject", "body"):
        e[f] = set().union(set(), *(mail.words(t) for t in vis.get(f, [])))
    e["att"] = set(mail.ascii_lower(a) for a in vis.get("att", []))
    return e
