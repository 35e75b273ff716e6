"""C20: the dump shows the whole database as it is, and showing it changes nothing."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, imapacct
from mx.common import *
from mx.history import History
from mx.dbfile import Db

TABLES = [("To", "to"), ("Cc", "cc"), ("From", "from"), ("Subject", "subject"), ("Body", "body"), ("Attachment names", "att")]
FLAGS = ((" flagged", "F"), (" replied", "R"), (" seen", "S"))


class Dump:
    """What a dump says, read back from its text."""

    def __init__(self, text):
        self.L = text.split("\n")
        self.i = 0
        m = self.need(r"Dump of (.*)")
        self.name = m.group(1)
        n = int(self.need(r"(\d+) messages").group(1))
        self.msgs = [self.message(i) for i in range(n)]
        self.blank()
        self.boxes = []
        if self.peek() == "MBOX INFORMATION":
            self.i += 1
            n = int(self.need(r"(\d+) mboxen").group(1))
            for i in range(n):
                m = self.need(r" *(\d+): (?:(dead)|(\d+) msgs in (.*))")
                if int(m.group(1)) != i:
                    raise ValueError("mbox %d listed as %s" % (i, m.group(1)))
                self.boxes.append(None if m.group(2) else (int(m.group(3)), m.group(4)))
            self.blank()
        self.key = int(self.need(r"Hash key ([0-9a-f]{8})").group(1), 16)
        self.blank()
        self.tables = {}
        for title, name in TABLES:
            self.need(r"-+")
            self.need(re.escape("Contents of <%s> table" % title))
            self.tables[name] = self.chain()
        self.need(r"-+")
        self.need(re.escape("Contents of <Message Ids> table"))
        self.need("Chain 0")
        self.id0 = self.chain()
        self.need("Chain 1")
        self.id1 = self.chain()
        self.need(r"-+")
        self.blank()
        if self.i != len(self.L):
            raise ValueError("text after the end: %r" % self.L[self.i:][:3])

    def peek(self):
        return self.L[self.i] if self.i < len(self.L) else None

    def need(self, pat):
        s = self.peek()
        m = re.fullmatch(pat, s) if s is not None else None
        if not m:
            raise ValueError("line %d is %r, expected /%s/" % (self.i + 1, s, pat))
        self.i += 1
        return m

    def blank(self):
        while self.i < len(self.L) and not self.L[self.i]:
            self.i += 1

    def message(self, i):
        m = self.need(r" *(\d+): (.*)")
        if int(m.group(1)) != i:
            raise ValueError("message %d listed as %s" % (i, m.group(1)))
        s, fl = m.group(2), ""
        for word, c in FLAGS:
            if s.endswith(word):
                s, fl = s[:-len(word)], fl + c
        if s == "DEAD":
            return ("dead",), "".join(sorted(fl))
        for ty, pat in (("file", r"FILE (.*), size=(-?\d+), tid=(\d+)"), ("imap", r"IMAP (.*), tid=(\d+)"),
                        ("mbox", r"MBOX (\d+), msg (\d+), offset=(\d+), size=(\d+), tid=(\d+)")):
            m = re.fullmatch(pat, s)
            if m:
                return (ty,) + tuple(x if ty != "mbox" and k == 0 else int(x) for k, x in enumerate(m.groups())), "".join(sorted(fl))
        raise ValueError("message line %r" % s)

    def chain(self):
        n, t = int(self.need(r"(\d+) entries").group(1)), []
        for i in range(n):
            m = self.need(r"Word (\d+) : <(.*)>")
            if int(m.group(1)) != i:
                raise ValueError("word %d listed as %s" % (i, m.group(1)))
            nums = []
            first = True
            while True:
                s = self.peek()
                if s is None or not re.fullmatch(r"[ \d]*", s) or (not s and not first):
                    break
                nums += [int(x) for x in s.split()]
                self.i += 1
                first = False
            t.append((m.group(2), nums))
        return t


def expected(db):
    msgs = []
    for i, m in enumerate(db.msgs):
        ty = m["type"]
        x = ("dead",) if ty == "dead" else ("file", m["path"], m["size"], m["tid"]) if ty == "file" else ("imap", m["path"], m["tid"]) if ty == "imap" else \
            ("mbox", m["mbox"], m["msgi"], m["start"], m["size"], m["tid"])
        msgs.append((x, "".join(sorted(m["flags"]))))
    return msgs


def snapshot(st):
    out = {}
    for base, dirs, files in os.walk(st.root):
        for f in files + dirs:
            p = os.path.join(base, f)
            s = os.lstat(p)
            out[p] = (s.st_ino, s.st_mode, s.st_size, s.st_mtime_ns)
    return out


def check_dump(ctx, st, history=None, env=None, extra=()):
    path = (env or {}).get("MAIRIX_DATABASE") or st.db
    before, blob = snapshot(st), open(path, "rb").read()
    res = ctx.run(["-f", st.rc] + list(extra) + [ctx.rng.choice(["-d", "--dump"])], env=env, ok=(0,))
    text = res.out.decode("latin-1")
    det = {"history": history}
    if open(path, "rb").read() != blob or {k: v for k, v in snapshot(st).items()} != before and not only_dir_times(before, snapshot(st), path):
        ctx.violate("dump-changes", "dumping the database changed something", **res.brief())
    db = Db(path)
    try:
        d = Dump(text)
    except ValueError as e:
        ctx.violate("dump-text", "the dump is not what it should be: %s" % e, text=text[:2000], **det)
    if d.name != path:
        ctx.violate("dump-name", "the dump is of %r instead of %r" % (d.name, path), **det)
    exp = expected(db)
    if d.msgs != exp:
        k = [i for i in range(min(len(exp), len(d.msgs))) if exp[i] != d.msgs[i]]
        ctx.violate("dump-messages", "the dump lists %d messages of %d; first difference %s" % (len(d.msgs), len(exp), [(d.msgs[i], exp[i]) for i in k[:1]]), **det)
    ctx.count("evaluations", len(exp))
    ctx.count("messages", len(exp))
    boxes = [(c, p) if p is not None else None for p, c, _ in db.mboxes]
    if d.boxes != boxes:
        ctx.violate("dump-mboxes", "the dump lists mboxes %r instead of %r" % (d.boxes[:6], boxes[:6]), **det)
    ctx.count("mboxes", len(boxes))
    if d.key != db.hash_key:
        ctx.violate("dump-key", "hash key %x instead of %x" % (d.key, db.hash_key), **det)
    for what, got, want in [(n, d.tables[n], db.tables[n]) for _, n in TABLES] + [("message-IDs", d.id0, db.msgid0), ("references", d.id1, db.msgid1)]:
        if len(got) != len(want) or dict(got) != want:
            g = dict(got)
            k = [w for w in sorted(set(g) | set(want)) if g.get(w) != want.get(w)]
            ctx.violate("dump-words", "table %s: %d words of %d; %s" % (what, len(got), len(want), [(w, g.get(w), want.get(w)) for w in k[:2]]), **det)
        ctx.count("evaluations", len(want))
        ctx.count("words", len(want))
        ctx.count("postings", sum(len(x) for x in want.values()))
        for w, x in want.items():
            if len(x) > 16:
                ctx.count("long_lists")
    for t, fl in exp:
        ctx.seen(t, fl)
    ctx.count("dumps")


def only_dir_times(a, b, path):
    """The lock comes and goes beside the database."""
    dirs = {os.path.dirname(path)}
    return set(a) == set(b) and all(a[k] == b[k] or k in dirs for k in a)


def case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, r.choice([5, 30, 120]))
    st = mail.Store(ctx)
    h = History(ctx, st, voc, links=r.random() < .3)
    for _ in range(r.choice([1, 5, 20, 60])):
        h.step([("op_add_file", 5), ("op_new_box", 1)])
    h.index(hash_key=r.choice([None, 0, 5, 1 << 31, (1 << 32) - 1]))
    for _ in range(tier_n(4, 8)):
        if os.path.exists(st.db):
            env = {"MAIRIX_DATABASE": st.db} if r.random() < .2 else None
            check_dump(ctx, st, h.log[-20:], env, r.choice([[], [], ["-v"], ["-Q"], ["-F"], ["-o", "elsewhere"]]))
        for _ in range(r.choice([1, 3, 8])):
            h.step()
        if h.configured():
            h.index(*(["-p"] if r.random() < .2 else []))
    if os.path.exists(st.db):
        check_dump(ctx, st, h.log[-20:])


def imap_case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, 30)
    st = mail.Store(ctx)
    acct = imapacct.Account(ctx, st)
    names = imapacct.alike(r, r.sample(imapacct.FOLDERS, r.randint(1, 3)))
    for n in names:
        acct.add_folder(n)
        acct.named.append(n)
    n = 0
    for step in range(3):
        for _ in range(r.randint(1, 8)):
            n += 1
            acct.add(r.choice(names), mail.random_msg(r, voc, "i%d" % n, []))
        if r.random() < .5:
            fill_store(ctx, st, r.randint(1, 5), voc, uid0=100 + n * 50)
        for f in acct.folders.values():
            if f["msgs"] and r.random() < .3:
                f["msgs"].pop(r.randrange(len(f["msgs"])))
        acct.write()
        st.extra_rc[:] = acct.rc_lines()
        st.write_rc()
        ctx.run(["-f", st.rc] + (["-p"] if r.random() < .3 else []), ok=(0,))
        if os.path.exists(st.db):
            check_dump(ctx, st)


def none_case(ctx):
    """Nothing to dump, or something else in place of the database: an error exit and nothing written."""
    r = ctx.rng
    st = mail.Store(ctx)
    st.add_maildir_msg("md0", mail.random_msg(r, mail.Vocab(r, 5), "u0", []))
    st.write_rc()
    for what in ("missing", "empty", "short", "text", "directory"):
        p = os.path.join(st.root, "db-" + what)
        if what == "directory":
            os.mkdir(p)
        elif what != "missing":
            with open(p, "wb") as f:
                f.write({"empty": b"", "short": b"MX\xa5\x04", "text": b"hello\n" * 100}[what])
        a = snapshot(st)
        res = ctx.run(["-f", st.rc, "-d"], env={"MAIRIX_DATABASE": p})
        ctx.count("evaluations")
        if res.rc == 0:
            ctx.violate("dump-of-nothing", "dumping a database that is %s succeeds" % what, **res.brief())
        b = snapshot(st)
        if not only_dir_times(a, b, p):
            ctx.violate("dump-writes", "dumping a database that is %s wrote something" % what, new=[str(x) for x in set(b) - set(a)], **res.brief())
        ctx.seen(what)


if __name__ == "__main__":
    cases = [("h%03d" % i, case) for i in range(tier_n(150, 2000))] + [("i%03d" % i, imap_case) for i in range(tier_n(16, 150))] + [("none", none_case)]
    core.main("C20", cases, rule="One evaluation per message, mbox and word of a dump compared with the independently decoded database file. Distinct: distinct message records.",
              assumptions=["no newline or '>' at the end of a line in paths and message-IDs"], min_evals=5000)
