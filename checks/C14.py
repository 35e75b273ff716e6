"""C14: exactly the configured folders are indexed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, dbfile, mboxgen, folders
from mx.common import *

NAMES = ["foo", "foobar", "fooa", "foo1", "bar", "bar1", "Bar", "ba", "b", "a", "zed_9", "a-b", "x.y", ".hid", ".foo", "f]o", "spam", "spam2005", "inbox.old",
         "list", "archive", "archive-2011", "archive-2012", "12", "7", "new", "cur", "tmp", "z", "x y", "co:lon", "foo~", "foo,v", "=eq", "back\\slash", "^hat",
         "a_rather_long_folder_name_with_more_than_thirty_two_characters", "a_rather_long_folder_name_with_more_than_thirty_two_characterz",
         "a_rather_long_folder_name_with_more_than_thirty_one_characters_", "l" * 64, "l" * 65, "l" * 33, "d[ab]e", "st*r", "caf\udce9"]


class Tree:
    def __init__(self, ctx, root):
        self.ctx, self.r, self.root = ctx, ctx.rng, root
        self.ext, self.n, self.dirs, self.files, self.links = {}, 0, [], [], 0
        os.makedirs(root)

    def msg(self):
        self.n += 1
        return ("Subject: unique%d\nFrom: a@b.example\nMessage-ID: <%d@x>\n\nbody %d\n" % (self.n, self.n, self.n)).encode()

    def put(self, p, data):
        with open(os.fsencode(p), "wb") as f:
            f.write(data)
        self.ctx_files = True

    def mbox(self, p):
        box = mboxgen.Box(self.r, mmdf=self.r.random() < .15)
        for _ in range(self.r.choice([1, 1, 2, 3])):
            box.add(self.msg())
        kind = p.rsplit(".", 1)[1] if p.endswith((".gz", ".bz2", ".xz")) else None
        self.put(p, mboxgen.compress(box.bytes(), kind))
        self.ext[os.path.realpath(p)] = box.ext

    def aside(self, p, isdir):
        """A symlink at p to a directory or file kept outside the tree."""
        self.asides = getattr(self, "asides", 0) + 1
        q = "%s.aside/%d" % (self.root, self.asides)
        os.makedirs(q if isdir else os.path.dirname(q), exist_ok=True)
        if not isdir:
            self.put(q, b"")
        os.symlink(q, p)
        self.ctx.count("symlinked_parts")

    def fill_maildir(self, p):
        for s in ("cur", "new", "tmp"):
            if self.r.random() < .06 and not os.path.lexists(os.path.join(p, s)):
                self.aside(os.path.join(p, s), True)
            else:
                os.makedirs(os.path.join(p, s), exist_ok=True)
        for s in ("cur", "new"):
            for _ in range(self.r.choice([0, 1, 2])):
                n = "%d.%d.host%s" % (1294156254 + self.n, self.n, r_choice(self.r, ["", ":2,S", ":2,"]))
                self.put(os.path.join(p, s, n), self.msg())
        if self.r.random() < .3:
            self.put(os.path.join(p, "tmp", "1294156254.%d.tmp" % self.n), self.msg())
        if self.r.random() < .3:
            self.put(os.path.join(p, r_choice(self.r, ["1", "dovecot-uidlist", "stray"])), self.msg())
        if self.r.random() < .2:
            os.makedirs(os.path.join(p, "cur", "subdir"), exist_ok=True)
            self.put(os.path.join(p, "cur", "subdir", "1294156254.1.h"), self.msg())

    def fill_mh(self, p):
        k = self.r.random()
        mark = os.path.join(p, r_choice(self.r, folders.MARKERS))
        if k < .8:
            self.put(mark, b"")
        elif k < .86:
            self.aside(mark, False)
        elif k < .9:
            r_choice(self.r, [os.makedirs, lambda x: os.symlink("nowhere", x), lambda x: os.mkfifo(x)])(mark)
        for _ in range(self.r.choice([0, 1, 2, 3])):
            n = str(self.r.randint(1, 10 ** self.r.choice([1, 2, 9, 20]))) + r_choice(self.r, ["", "", "", "."])
            if not os.path.exists(os.path.join(p, n)):
                self.put(os.path.join(p, n), self.msg())
        for n in ("1~", "#2", ",3", "5x", "x5", "6.bak", "7..", ".8", "9 ", "-1", "+1", "0x1", "1,2", "\udcb2"):
            if self.r.random() < .15:
                self.put(os.path.join(p, n), self.msg())

    def grow(self, p, depth):
        r = self.r
        names = r.sample(NAMES, r.randint(2, 9) if depth else r.randint(5, 16))
        for n in names:
            q = p + "/" + n
            if os.path.lexists(q):
                continue
            k = r.random()
            if k < .3:
                if r.random() < .25:
                    q += r_choice(r, [".gz", ".bz2", ".xz"])
                self.mbox(q)
                self.files.append(q)
            elif k < .36:
                self.put(q, r_choice(r, [b"", b"no mail in here\n", b"From here on nothing\n\nx\n", b"\x80\x81\x00" * 50]))
                self.files.append(q)
            elif k < .42:
                t = r_choice(r, self.files + self.dirs + ["/nonexistent/x", "."]) if self.files or self.dirs else "nowhere"
                # no cycles: only links to files, to nothing, or to directories that are not above
                if os.path.isdir(t) and os.path.realpath(q).startswith(os.path.realpath(t) + "/") or t == ".":
                    t = "nowhere"
                if os.path.isdir(t) and any(os.path.islink(os.path.join(d, x)) for d, ds, fs in os.walk(t) for x in ds):
                    t = "nowhere"
                if os.path.isdir(t):
                    self.links += 1
                    if self.links > 3:
                        t = "nowhere"
                os.symlink(t, q)
            elif k < .62:
                os.makedirs(q)
                self.fill_maildir(q)
                self.dirs.append(q)
                if depth < 3 and r.random() < .4:
                    self.grow(q, depth + 1)
            elif k < .82:
                os.makedirs(q)
                self.fill_mh(q)
                self.dirs.append(q)
                if depth < 3 and r.random() < .4:
                    self.grow(q, depth + 1)
            else:
                os.makedirs(q)
                self.dirs.append(q)
                if depth < 3:
                    self.grow(q, depth + 1)


def r_choice(r, l):
    return l[r.randrange(len(l))]


def ok_name(s):
    """Names the rc file can hold: no comment characters; nothing that means expansion."""
    return not any(c in s for c in "#!;%$\n") and s == s.strip()


def wildify(r, n):
    """A wildcard that may or may not match n."""
    k = r.random()
    if k < .15:
        return "*"
    cs = list(n)
    out, i = [], 0
    while i < len(cs):
        x = r.random()
        c = cs[i]
        if x < .12:
            out.append("?")
        elif x < .24:
            out.append("*")
            i += r.choice([0, 1, 2, 5, 40])
        elif x < .36 and c not in "]-[:\\^":
            out.append(r.choice(["[%s]" % c, "[a%s]" % c, "[%s-%s]" % (c, chr(min(126, ord(c) + 2))) if c.isalnum() and c.lower() not in "yz89" else "[%s]" % c,
                                 "[]%s]" % c, "[%s-]" % c, "[x%sq]" % c, "[0-9a-z]", "[A-Z]", "[]]", "[_-]"]))
        elif c in "[*?":
            out.append("?")
        else:
            out.append(c)
        i += 1
    s = "".join(out)
    if r.random() < .2:
        s += "*"
    return s.replace("**", "*") or "*"


def esc(s):
    return s.replace(":", "\\:")


def case(ctx):
    r = ctx.rng
    st = mail.Store(ctx, variant=ctx.variant)
    os.rmdir(st.mail)
    base = st.mail
    t = Tree(ctx, base)
    t.grow(base, 0)
    other = os.path.join(st.root, "elsewhere")
    t2 = Tree(ctx, other)
    t2.n = 100000
    t2.grow(other, 1)
    ext = dict(t.ext)
    ext.update(t2.ext)
    follow = r.random() < .4
    for rep in range(tier_n(12, 20)):
        specs, omit = [], []
        for _ in range(r.choice([1, 2, 3, 5])):
            kind = r.choice(["maildir", "mh", "mbox"])
            pool = t.dirs + t.files + [base + "/" + r.choice(NAMES)]
            p = r.choice(pool) if r.random() < .85 else r.choice(t2.dirs + t2.files + [other])
            s = p
            if r.random() < .5:
                d, n = s.rsplit("/", 1)
                s = d + "/" + wildify(r, n)
            if r.random() < .5:
                s += "..."
            if s.startswith(base + "/") and r.random() < .8:
                s = s[len(base) + 1:]
            if not ok_name(s) or s in ("...",) or "\\:" in s or s.endswith("\\") or "~" in s.split("/")[0]:
                continue
            # an ellipsis right after a name that ends in dots could be read two ways
            if s.rstrip(".") + "..." != s and s.rstrip(".") != s:
                continue
            specs.append((kind, s))
        if not specs:
            continue
        pre = folders.Model(base, [], follow)
        for kind, s in specs:
            pre.spec(kind, s)
        hits = [p for _, p, _ in pre.found]
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            p = r.choice(hits) if hits and r.random() < .8 else r.choice(t.dirs + t.files)
            s = p[len(base) + 1:] if p.startswith(base + "/") and r.random() < .8 else p
            comps = s.split("/")
            for i in range(len(comps)):
                x = r.random()
                if x < .3:
                    comps[i] = wildify(r, comps[i])
                elif x < .45:
                    comps[i] = comps[i][:r.randint(0, len(comps[i]))] + "**"
                    comps = comps[:i + 1] if r.random() < .5 else comps
                if i + 1 >= len(comps):
                    break
            s = "/".join(comps)
            bad = any(c in s for c in "#!;%$~") or s != s.strip() or "\\" in s
            # brackets only where they are a class
            plain = "[" in s and not folders_ok(s)
            if s and not bad and not plain:
                omit.append(s)
        m = folders.Model(base, omit, follow)
        for kind, s in specs:
            m.spec(kind, s)
        sure, maybe, dup = m.messages(ext)
        lines = ["base=%s" % base, "mformat=raw", "database=%s" % st.db]
        conf = {}
        for kind, s in specs:
            conf.setdefault(kind, []).append(esc(s))
        for kind in conf:
            i = 0
            while i < len(conf[kind]):
                k = r.choice([1, 1, 2, 3])
                lines.append("%s=%s" % (kind, ":".join(conf[kind][i:i + k])))
                i += k
        i = 0
        while i < len(omit):
            k = r.choice([1, 2])
            lines.append("omit=%s" % ":".join(esc(o) for o in omit[i:i + k]))
            i += k
        if follow:
            lines.append("follow_mbox_symlinks")
        r.shuffle(lines)
        with open(os.fsencode(st.rc), "wb") as f:
            f.write(os.fsencode("\n".join(lines) + "\n"))
        if os.path.exists(st.db):
            os.unlink(st.db)
        res = ctx.run(["-f", st.rc], variant=ctx.variant)
        ctx.count("evaluations")
        if len(maybe) > len(sure) and not dup and res.rc != 0:
            # what lies below an omitted directory may make folders appear twice
            ctx.count("unclear")
            continue
        if dup:
            ctx.count("folders_named_twice")
            if res.rc == 0 and len(maybe) == len(sure):
                check_once(ctx, st, maybe, res, lines)
            continue
        if res.rc != 0:
            ctx.violate("refused", "indexing exits with %d although no folder is named twice" % res.rc, rc_file=lines, **res.brief())
        if not os.path.exists(st.db):
            got = set()
        else:
            got = set(dbfile.Db(st.db).live()[0])
            got = {tuple(os.fsdecode(x.encode("latin-1")) if isinstance(x, str) else x for x in k) for k in got}
        if not sure <= got or not got <= maybe:
            ctx.violate("folders", "%d messages of configured folders not indexed, %d others indexed" % (len(sure - got), len(got - maybe)),
                        missing=[str(x) for x in sorted(sure - got, key=str)[:5]], extra=[str(x) for x in sorted(got - maybe, key=str)[:5]],
                        rc_file=lines, tree=listing(base) + listing(other), **res.brief())
        ctx.count("messages_expected", len(sure))
        ctx.count("messages_omitted", len(pre.messages(ext)[1] - maybe))
        ctx.count("uncertain_messages", len(maybe) - len(sure))
        if sure:
            ctx.seen(tuple(sorted(specs)), tuple(omit), len(sure))
        if rep == 0 and ctx.case.endswith("0"):
            ctx.sample({"rc": lines, "messages": len(sure)}, 1)


def check_once(ctx, st, maybe, res, lines):
    if not os.path.exists(st.db):
        return
    live = dbfile.Db(st.db).live()[0]
    got = list(live)
    if len(got) > len(maybe):
        ctx.violate("twice", "messages of a folder named twice are indexed twice", rc_file=lines, **res.brief())


def folders_ok(s):
    """Is every '[' in s part of a closed class?"""
    try:
        folders.glob_re(s)
        return True
    except Exception:
        return False


def listing(root):
    out = []
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            p = os.path.join(d, x)
            out.append(p[len(root):] + (" -> " + os.readlink(p) if os.path.islink(p) else "/" if os.path.isdir(p) else ""))
    return out[:400]


def with_variant(fn, v):
    def f(ctx):
        ctx.variant = v
        fn(ctx)
    return f


if __name__ == "__main__":
    cases = [("f%03d" % i, with_variant(case, "plain")) for i in range(tier_n(1200, 6000))]
    cases += [("a%03d" % i, with_variant(case, "asan")) for i in range(tier_n(24, 150))]
    core.main("C14", cases, variants=("plain", "asan"),
              rule="One evaluation per (generated tree, folder settings): the set of indexed messages must equal that of the reference model walking the same "
                   "tree. Distinct and non-trivial: distinct settings that select at least one message.",
              assumptions=["folders below a directory that itself matches omit= may or may not be indexed (the manual is not clear)",
                           "no symlink cycles; classes are closed and hold ascending ranges", "names without the rc file's comment characters"], min_evals=500)
