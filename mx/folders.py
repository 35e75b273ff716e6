"""Reference model of the folder settings (mairixrc(5)): which messages are to be indexed."""
import os, re, stat

MARKERS = [".xmhcache", ".mh_sequences", ".sylpheed_cache", ".sylpheed_mark", ".claws_cache", ".claws_mark", ".marks", ".overview", "cmeta", "summary",
           ".mew-summary", "index"]


class Glob:
    """The documented glob syntax; '*' stops at '/' and '**' does not. Matching is a set-of-positions walk."""

    def __init__(self, pat):
        self.items, i = [], 0            # ("one", set or None) | ("many", crosses slashes?)
        while i < len(pat):
            c = pat[i]
            if c == "*":
                two = pat[i:i + 2] == "**"
                self.items.append(("many", two))
                i += two
            elif c == "?":
                self.items.append(("one", None))
            elif c == "[":
                j, chars = i + 1, set()
                if pat[j] == "]":
                    chars.add("]")
                    j += 1
                while pat[j] != "]":
                    if pat[j + 1] == "-" and pat[j + 2] != "]":
                        chars.update(chr(x) for x in range(ord(pat[j]), ord(pat[j + 2]) + 1))
                        j += 3
                    else:
                        chars.add(pat[j])
                        j += 1
                self.items.append(("one", chars))
                i = j
            else:
                self.items.append(("one", {c}))
            i += 1

    def match(self, s):
        here = {0}                       # how much of s the items so far can have used
        for k, x in self.items:
            nxt = set()
            if k == "one":
                for p in here:
                    if p < len(s) and (x is None or s[p] in x):
                        nxt.add(p + 1)
            else:
                for p in here:
                    while p not in nxt:
                        nxt.add(p)
                        if p < len(s) and (x or s[p] != "/"):
                            p += 1
            here = nxt
        return len(s) in here


def glob_re(pat):
    return Glob(pat)


def is_wild(s):
    return any(c in s for c in "[*?")


def mh_name(n):
    return re.match(r"^[0-9]+\.?\Z", n) is not None


def isdir(p):
    return os.path.isdir(p)


def packed(p):
    return p.endswith((".gz", ".bz2", ".xz")) and p.rsplit(".", 1)[1]


class Model:
    def __init__(self, base, omit, follow):
        self.base, self.follow = base, follow
        self.omit = [glob_re(o) for o in omit]
        self.found = []            # (kind, folder path, certain?)

    def omitted(self, rel):
        return any(o.match(rel) for o in self.omit)

    def wanted(self, kind, p):
        if kind == "maildir":
            return isdir(p) and all(isdir(os.path.join(p, s)) for s in ("cur", "new", "tmp"))
        if kind == "mh":
            return isdir(p) and any(os.path.isfile(os.path.join(p, m)) for m in MARKERS)
        if os.path.islink(p) and not self.follow:
            return False
        return os.path.isfile(p)

    def spec(self, kind, s):
        if s.startswith("/"):
            full, bl = s, 0
        else:
            full, bl = self.base + "/" + s, len(self.base) + 1
        deep = full.endswith("...")
        if deep:
            full = full[:-3]
        d, n = full.rsplit("/", 1)
        if is_wild(n):
            g = glob_re(n)
            try:
                names = os.listdir(d or "/")
            except OSError:
                names = []
            for x in sorted(names):
                if g.match(x):
                    p = d + "/" + x
                    if self.omitted(p[bl:]):
                        if deep:
                            self.walk(kind, p, bl, deep, False, top=True)
                        continue
                    self.walk(kind, p, bl, deep, True, top=True)
        else:
            self.walk(kind, full, bl, deep, True, top=True)

    def walk(self, kind, p, bl, deep, certain, top=False):
        """certain: no directory above was itself omitted (below such a one the manual is not clear)."""
        if not os.path.exists(p):
            return
        want = self.wanted(kind, p)
        hit = want and not self.omitted(p[bl:])
        if hit:
            self.found.append((kind, p, certain))
        if deep and isdir(p):
            for x in sorted(os.listdir(p)):
                q = p + "/" + x
                if kind == "maildir" and want and x in ("cur", "new", "tmp"):
                    continue
                if kind == "mh" and mh_name(x):
                    continue
                om = self.omitted(q[bl:])
                self.walk(kind, q, bl, True, certain and not om)

    def messages(self, mbox_ext):
        """-> (certain keys, possible keys, duplicated?)."""
        sure, maybe, dup = set(), set(), False
        seen = set()
        for kind, p, certain in self.found:
            if (kind, p) in seen:
                dup = True
            seen.add((kind, p))
            if kind == "mbox":
                real = os.path.realpath(p)
                ks = []
                if packed(p) == packed(real):          # how it is packed is told from the name used
                    ks = [("mbox", p, a, b) for a, b in mbox_ext.get(real, ())]
            else:
                ks = []
                dirs = [p + "/new", p + "/cur"] if kind == "maildir" else [p]
                for d in dirs:
                    for x in os.listdir(d):
                        if kind == "mh" and not mh_name(x):
                            continue
                        if os.path.isfile(d + "/" + x):
                            ks.append(("file", d + "/" + x))
            for k in ks:
                if kind != "mbox" and k in seen:
                    dup = True
                seen.add(k)
                maybe.add(k)
                if certain:
                    sure.add(k)
        return sure, maybe, dup
