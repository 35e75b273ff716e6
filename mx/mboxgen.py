"""Mboxes with known extents: separator lines, look-alikes, embedded mboxes."""
import bz2, gzip, io, lzma
from .mail import DAYS, MONTHS

ADDRS = ["sender@host.example", "a@bc", "a@b", "root@x", "x.y-z+tag@sub.dom.example", "root", "MAILER-DAEMON", "<a@host.example>", "<root>", '"a b"@host.example',
         '"quoted:@<>"@host.example', "user_1@[10.1.2.3]", "@relay.example:user@host.example", "o'neil@host.example", "foo!bar!baz", "-", "=?x?=@host.example",
         "user%site@host.example", "a/b=c@host.example", "1234@host.example", "'x'@h.example", "^caret@h.example", "{x}|y~z@host.example"]
ZONES = ["PST", "+0100", "-0800", "GMT", "MET DST", "UTC", "EST5EDT", "Z", "Met"]


def from_line(r, crlf=False):
    """A separator line in one of the standard forms."""
    d, m = r.choice(DAYS), r.choice(MONTHS)
    day, y = r.randint(1, 28), r.randint(1990, 2037)
    t = "%02d:%02d:%02d" % (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
    if r.random() < .15:
        t = t[:5]
    k = r.random()
    day_s = r.choice(["%2d", "%2d", "%02d", "%d"]) % day
    if crlf:
        return ("From - %s %s %s %s %d" % (d, m, day_s, t, y)).encode()
    if k < .45:
        dt = "%s %s %s %s %d" % (d, m, day_s, t, y)
    elif k < .6:
        dt = "%s %s %s %s %s %d" % (d, m, day_s, t, r.choice(ZONES), y)
    elif k < .75:
        dt = "%s %s %s %s %d %s" % (d, m, day_s, t, y, r.choice(ZONES))
    elif k < .9:
        dt = "%s, %s %s %d %s %s" % (d, day_s, m, y, t, r.choice(ZONES))
    else:
        dt = "%s, %s %s %02d %s %s" % (d, day_s, m, y % 100, t, r.choice(ZONES))
    a = r.choice(ADDRS) if r.random() < .7 else ""
    if not a:
        a = r.choice(ADDRS[:4])
    s = "From %s%s%s" % (a, r.choice([" ", " ", "  ", "\t"]), dt)
    if r.random() < .1 and k < .6:
        s += " remote from " + r.choice(["host", "a.b.example", "my_host"])
    return s.encode()


LOOKALIKES = [
    "From here on the text goes on", "From a@b.example", "From ", "From", "From a@b.example Mon", "From a@b.example Mon Jan  3", "From: a@b.example",
    "From a@b.example Mon Jan  3 10:00:00", "From a@b.example Mon Jan  3 2011", "From a@b.example 3 Jan 2011 10:00:00",
    "From the desk of Mon Jan  3 10:00:00 2011", ">From a@b.example Mon Jan  3 10:00:00 2011", " From a@b.example Mon Jan  3 10:00:00 2011",
    "FROM a@b.example Mon Jan  3 10:00:00 2011", "from a@b.example Mon Jan  3 10:00:00 2011", "From\ta@b.example Mon Jan  3 10:00:00 2011",
    "From a@b.example mon jan  3 10:00:00 2011", "From a@b.example Mon Jan 333 10:00:00 2011", "From a@b.example Mon Jan  3 1:00:00 2011",
    "From a@b.example Mon Jan  3 10:00:00 201", "xFrom a@b.example Mon Jan  3 10:00:00 2011", "From a@b.example Monday Jan  3 10:00:00 2011",
    "From a b c d e f", "From a@b@c Mon Jan  3 10:00:00 2011", "From a@b.example, Mon Jan  3 10:00:00 2011", "From From a@b.example Mon Jan  3 10:00:00 2011",
    "From a@b.example Mon Jan x3 10:00:00 2011", "From me to you in 2011", "From 10:00:00 to 11:00:00 on Mon Jan  3 2011",
    "Some text From a@b.example Mon Jan  3 10:00:00 2011", "\1\1\1", "\1\1\1\1\1x", "\1\1\1\1\1", "\1" * 8, "\1" * 9, "\1\1\1\1 ", "x\1\1\1\1", " \1\1\1\1", "\1\1\1 \1", "\1", "From a@b.example Mon Jan  3 10-00-00 2011",
    "From a@b.example Mon Jan  3 10:00:00 in 2011",
]


class Box:
    """Accumulates the bytes of an mbox and the extents of its messages."""

    def __init__(self, r, mmdf=False, crlf=False):
        self.r, self.mmdf, self.crlf = r, mmdf, crlf
        self.out, self.pos, self.ext = [], 0, []

    def raw(self, b):
        self.out.append(b)
        self.pos += len(b)

    def add(self, data, last=False):
        r = self.r
        if self.mmdf:
            self.raw(b"\1\1\1\1\n")
            s = self.pos
            self.raw(data)
            self.ext.append((s, self.pos))
            self.raw(b"\1\1\1\1\n")
        else:
            nl = b"\r\n" if self.crlf else b"\n"
            self.raw(from_line(r, self.crlf) + nl)
            s = self.pos
            if self.crlf:
                data = data.replace(b"\n", b"\r\n")
            self.raw(data)
            if not data.endswith(b"\n"):
                self.raw(nl) if not last else None
            if not (last and r.random() < .3):
                self.raw(nl * r.choice([1, 1, 1, 1, 0, 2, 5]))
            self.ext.append((s, self.pos))

    def bytes(self):
        return b"".join(self.out)


def compress(b, kind, r=None):
    """The whole as one member, or (r given) as several in a row."""
    if r is None or len(b) < 2:
        parts = [b]
    else:
        cuts = sorted(r.sample(range(1, len(b)), min(len(b) - 1, r.choice([1, 2, 5]))))
        parts = [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])]
    if kind == "gz":
        out = []
        for p in parts:
            f = io.BytesIO()
            with gzip.GzipFile(fileobj=f, mode="wb", mtime=0, compresslevel=r.choice([1, 6, 9]) if r else 6) as g:
                g.write(p)
            out.append(f.getvalue())
        return b"".join(out)
    if kind == "bz2":
        return b"".join(bz2.compress(p, r.choice([1, 9]) if r else 9) for p in parts)
    if kind == "xz":
        return b"".join(lzma.compress(p, preset=r.choice([0, 6]) if r else 6) for p in parts)
    return b
