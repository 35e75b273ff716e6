"""Random histories of mail changes over a Store, with a model of what is on disk."""
import os, random, shutil
from . import mail
from .core import Violation


class History:
    """Mutates a mail store as delivery agents and mail readers do, and knows the resulting live messages."""

    def __init__(self, ctx, st, voc, midpool=None, ids=True, mbox_ok=True, comp=(None, None, "gz", "bz2", "xz"), allow_inplace=True, links=False):
        self.ctx, self.st, self.voc, self.rng = ctx, st, voc, ctx.rng
        self.pool = midpool if midpool is not None else []
        self.files = []                 # live file messages (Msg)
        self.boxes = {}                 # name -> dict(msgs, comp, mmdf)
        self.indexed = {}               # name -> list of (start, end, bytes) as of the last index run
        self.uid = 0
        self.comp = comp
        self.mbox_ok = mbox_ok
        self.allow_inplace = allow_inplace
        self.ever = []                  # every id-set that was on disk at some index run
        self.log = []
        self.dropped = set()            # folders currently not configured
        self.nbox = 0
        r = random.Random(self.rng.random())
        pre = lambda: "" if r.random() < .75 else r.choice(["new/", "cur/", "new/cur/", "tmp/", "a b/", "x/new/", "new:2,FRS/", "cur:2,S/", "12/"])
        self.mdnames = [pre() + "md%d" % i for i in range(3)]
        self.mhnames = [pre() + "mh%d" % i for i in range(2)]
        self.links = links              # mboxes may be reached through symlinks
        self.pairs = set()
        if links and "follow_mbox_symlinks" not in st.extra_rc:
            st.extra_rc.append("follow_mbox_symlinks")
        self.ghost = []                 # messages removed from disk since the last index run

    # ---- messages
    def new_msg(self):
        self.uid += 1
        return mail.random_msg(self.rng, self.voc, "h%d" % self.uid, self.pool)

    def live(self):
        out = [m for m in self.files if m.folder not in self.dropped]
        for n, b in self.boxes.items():
            if n not in self.dropped:
                out += b["msgs"]
        return out

    # ---- mbox helpers
    def blob(self, b):
        """Uncompressed bytes and extents for a list of messages (each ends in a blank line, save perhaps the last)."""
        out, pos, ext = [], 0, []
        for i, m in enumerate(b["msgs"]):
            data = m.render(mbox_flags=True)
            if b["mmdf"]:
                s = pos + 5
                out += [b"\1\1\1\1\n", data, b"\1\1\1\1\n"]
                e = s + len(data)
                pos = e + 5
            else:
                sep = b"From sender@host.example Mon Jan  3 10:%02d:%02d 2011\n" % (m.sepno % 60, m.sepno % 59)
                if i + 1 < len(b["msgs"]) or not b.get("open"):
                    data += b"\n"
                s = pos + len(sep)
                out += [sep, data]
                e = s + len(data)
                pos = e
            ext.append((s, e, data))
        return b"".join(out), ext

    def put_box(self, name, b):
        for m in b["msgs"]:
            if not hasattr(m, "sepno"):
                m.sepno = self.rng.randint(0, 5000)
        b["open"] = not b["mmdf"] and self.rng.random() < .25
        blob, ext = self.blob(b)
        for m, (s, e, d) in zip(b["msgs"], ext):
            m.loc, m.size, m.bytes, m.store, m.folder = ("mbox", os.path.join(self.st.mail, name), s, e), e - s, d, "mbox", name
        p = os.path.join(self.st.mail, name)
        if self.links and not os.path.lexists(p) and self.rng.random() < .2:
            real = os.path.join(self.st.root, "kept", "%d%s" % (self.nbox, "." + b["comp"] if b["comp"] else ""))
            os.makedirs(os.path.dirname(real), exist_ok=True)
            os.symlink(real, p)
            self.ctx.count("symlinked_boxes")
        self.write_as_agent(p, self.pack(blob, b["comp"]))
        self.boxes[name] = b
        if name not in self.st.mboxes:
            self.st.mboxes[name] = []
        return True

    @staticmethod
    def pack(blob, comp):
        if comp == "gz":
            import gzip, io
            o = io.BytesIO()
            with gzip.GzipFile(fileobj=o, mode="wb", mtime=0) as g:
                g.write(blob)
            return o.getvalue()
        if comp == "bz2":
            import bz2
            return bz2.compress(blob)
        if comp == "xz":
            import lzma
            return lzma.compress(blob)
        return blob

    def write_as_agent(self, p, data):
        """Sometimes within the second of the change before, so that only the size tells (a (time, size) pair never comes back)."""
        t = None
        if os.path.exists(p) and self.rng.random() < .25:
            s = os.stat(p)
            o = int(s.st_mtime)
            self.pairs.add((p, o, s.st_size))
            if (p, o, len(data)) not in self.pairs:
                t = o
                self.ctx.count("same_second_changes")
        elif os.path.exists(p) and self.rng.random() < .3:       # put back from elsewhere, with the time it had there
            t = int(os.stat(p).st_mtime) - self.rng.choice([1, 60, 86400, 400000000])
            if (p, t, len(data)) in self.pairs:
                t = None
            else:
                self.ctx.count("changes_back_in_time")
        self.st.write(p, data, t)
        self.pairs.add((p, int(os.stat(p).st_mtime), len(data)))

    # ---- operations; each returns a description or None when not applicable
    def op_add_file(self):
        m = self.new_msg()
        if self.rng.random() < .5:
            f = self.rng.choice(self.mdnames)
            self.st.add_maildir_msg(f, m)
        else:
            f = self.rng.choice(self.mhnames)
            self.st.add_mh_msg(f, m)
        m.folder = f
        self.files.append(m)
        return "add %s" % m.path()

    def pick_file(self):
        c = [m for m in self.files]
        return self.rng.choice(c) if c else None

    def op_remove_file(self):
        m = self.pick_file()
        if not m:
            return None
        os.unlink(m.path())
        self.files.remove(m)
        return "remove %s" % m.path()

    def op_reflag(self):
        c = [m for m in self.files if m.store == "maildir"]
        if not c:
            return None
        m = self.rng.choice(c)
        m.flags = "".join(f for f in "FRS" if self.rng.random() < .5)
        base = os.path.basename(m.path()).split(":")[0]
        new = os.path.join(self.st.mail, m.folder, "cur", base + ":2," + m.flags)
        if new == m.path():
            return None
        os.rename(m.path(), new)
        old = m.path()
        m.loc = ("file", new)
        return "rename %s -> %s" % (old, new)

    def op_move(self):
        m = self.pick_file()
        if not m:
            return None
        old = m.path()
        if self.rng.random() < .5:
            f = self.rng.choice(self.mdnames)
            self.st.add_maildir_msg(f, m)
        else:
            m.flags = ""
            f = self.rng.choice(self.mhnames)
            self.st.add_mh_msg(f, m)
        if m.path() != old:
            os.unlink(old)
        m.folder = f
        return "move %s -> %s" % (old, m.path())

    def op_rewrite_file(self):
        """New contents under an old name (MH renumbering, draft saved again)."""
        if not self.allow_inplace:
            return None
        m = self.pick_file()
        if not m:
            return None
        n = self.new_msg()
        n.flags, n.folder, n.store, n.loc = m.flags, m.folder, m.store, m.loc
        data = n.render()
        lack = os.path.getsize(m.path()) - len(data)
        if 0 < lack < 5000 and self.rng.random() < .5:           # fill up to the size it had
            n.body = n.body.rstrip("\n") + " " * lack + "\n"
            data = n.render()
            self.ctx.count("same_size_changes" if lack + len(data) - os.path.getsize(m.path()) == lack else "other_size_changes")
        self.write_as_agent(m.path(), data)
        n.size = len(data)
        self.files[self.files.index(m)] = n
        return "rewrite %s" % m.path()

    def op_swap_mh(self):
        if not self.allow_inplace:
            return None
        c = [m for m in self.files if m.store == "mh"]
        if len(c) < 2:
            return None
        a, b = self.rng.sample(c, 2)
        pa, pb = a.path(), b.path()
        if os.stat(pa).st_mtime == os.stat(pb).st_mtime:
            return None
        os.rename(pa, pa + ".t")
        os.rename(pb, pa)
        os.rename(pa + ".t", pb)
        a.loc, b.loc = b.loc, a.loc
        a.folder, b.folder = b.folder, a.folder
        return "swap %s %s" % (pa, pb)

    def op_new_box(self):
        if not self.mbox_ok:
            return None
        self.nbox += 1
        c = self.rng.choice(self.comp)
        gone = [n for n in self.st.mboxes if n not in self.boxes]
        if gone and self.rng.random() < .4:
            name = self.rng.choice(gone)
            c = name.rsplit(".", 1)[1] if "." in name else None
        else:
            name = "box%d%s" % (self.nbox, "." + c if c else "")
        b = {"msgs": [self.new_msg() for _ in range(self.rng.randint(1, 6))], "comp": c, "mmdf": self.rng.random() < .25}
        return "new box %s" % name if self.put_box(name, b) else None

    def edit_box(self, what, fn):
        if not self.boxes:
            return None
        name = self.rng.choice(sorted(self.boxes))
        b = self.boxes[name]
        nb = dict(b, msgs=list(b["msgs"]))
        if fn(nb) is False:
            return None
        old = [(m, m.loc, m.size, getattr(m, "bytes", None)) for m in b["msgs"]]
        if not self.put_box(name, nb):
            return None
        for m, *_ in old:
            if m not in nb["msgs"]:
                pass
        return "%s %s" % (what, name)

    def op_append_box(self):
        def f(b):
            for _ in range(self.rng.randint(1, 4)):
                b["msgs"].append(self.new_msg())
        return self.edit_box("append to", f)

    def op_expunge_box(self):
        def f(b):
            if not b["msgs"]:
                return False
            for _ in range(self.rng.choice([1, 1, 2, 3])):
                if b["msgs"]:
                    b["msgs"].pop(self.rng.randrange(len(b["msgs"])))
        return self.edit_box("expunge from", f)

    def op_truncate_box(self):
        def f(b):
            if not b["msgs"]:
                return False
            b["msgs"] = b["msgs"][:self.rng.randrange(len(b["msgs"]))]
        return self.edit_box("truncate", f)

    def op_insert_box(self):
        def f(b):
            b["msgs"].insert(self.rng.randint(0, len(b["msgs"])), self.new_msg())
        return self.edit_box("insert into", f)

    def op_edit_in_box(self):
        def f(b):
            if not b["msgs"]:
                return False
            i = self.rng.randrange(len(b["msgs"]))
            n = self.new_msg()
            b["msgs"][i] = n
        return self.edit_box("replace in", f)

    def op_same_length_box(self):
        """A message is rewritten without anything behind it moving."""
        def f(b):
            if not b["msgs"]:
                return False
            i = self.rng.randrange(len(b["msgs"]))
            m, n = b["msgs"][i], self.new_msg()
            if self.rng.random() < .3 and ("F" in m.flags) != ("R" in m.flags):
                import copy
                n = copy.copy(m)
                n.flags = m.flags.replace("F", "x").replace("R", "F").replace("x", "R")
            else:
                n.flags = ""
                n.sepno = getattr(m, "sepno", 0)
                want = len(m.render(mbox_flags=True))
                if n.atts or not n.body.endswith("\n"):
                    return False
                have = len(n.render(mbox_flags=True))
                if have < want:
                    n.body = n.body[:-1] + " " * (want - have) + "\n"
                elif len(n.body) - (have - want) >= 2:
                    n.body = n.body[:len(n.body) - 1 - (have - want)] + "\n"
                else:
                    return False
                n.__dict__.pop("_tok", None)
                if len(n.render(mbox_flags=True)) != want:
                    return False
            b["msgs"][i] = n
        return self.edit_box("same-length rewrite in", f)

    def op_partial_box(self):
        """The indexer runs while a message is being delivered to an mbox: it sees only part of it."""
        c = [n for n in sorted(self.boxes) if n not in self.dropped and not self.boxes[n]["comp"]]
        if not c:
            return None
        name = self.rng.choice(c)
        nb = dict(self.boxes[name], msgs=list(self.boxes[name]["msgs"]))
        m = self.new_msg()
        nb["msgs"].append(m)
        self.put_box(name, nb)
        p = os.path.join(self.st.mail, name)
        full = open(p, "rb").read()
        cut = self.rng.randint(max(0, m.loc[2] - 40), max(m.loc[2], m.loc[3] - 1))
        self.st.write(p, full[:cut])
        self.index(*self.rng.choice([(), (), ("-p",)]))
        self.write_as_agent(p, full)
        return "partial delivery of %d/%d bytes to %s" % (cut, len(full), name)

    def op_status_box(self):
        """A mail reader marks messages: Status headers appear, everything behind shifts."""
        def f(b):
            if not b["msgs"]:
                return False
            i = self.rng.randrange(len(b["msgs"]))
            import copy
            m = copy.copy(b["msgs"][i])
            m.flags = "".join(x for x in "FRS" if self.rng.random() < .5)
            b["msgs"][i] = m
        return self.edit_box("status in", f)

    def op_delete_box(self):
        if not self.boxes:
            return None
        name = self.rng.choice(sorted(self.boxes))
        os.unlink(os.path.join(self.st.mail, name))
        del self.boxes[name]
        return "delete %s" % name

    def op_drop_folder(self):
        c = [f for f in self.st.maildirs + self.st.mhs + sorted(self.boxes) if f not in self.dropped]
        if len(c) < 2:
            return None
        f = self.rng.choice(c)
        self.dropped.add(f)
        return "drop %s from rc" % f

    def op_restore_folder(self):
        if not self.dropped:
            return None
        f = self.rng.choice(sorted(self.dropped))
        self.dropped.discard(f)
        return "restore %s" % f

    OPS = [("op_add_file", 6), ("op_remove_file", 4), ("op_reflag", 3), ("op_move", 2), ("op_rewrite_file", 2), ("op_swap_mh", 1),
           ("op_new_box", 3), ("op_append_box", 4), ("op_expunge_box", 4), ("op_truncate_box", 2), ("op_insert_box", 2),
           ("op_edit_in_box", 2), ("op_same_length_box", 2), ("op_status_box", 3), ("op_delete_box", 1), ("op_drop_folder", 1), ("op_restore_folder", 2)]

    def step(self, ops=None):
        names = [n for n, w in (ops or self.OPS) for _ in range(w)]
        for _ in range(30):
            n = self.rng.choice(names)
            d = getattr(self, n)()
            if d:
                self.log.append(d)
                self.ctx.count("op:" + n[3:])
                return d
        return None

    # ---- indexing
    def write_rc(self, **kw):
        st = self.st
        sv = (st.maildirs, st.mhs, st.mboxes)
        st.maildirs = [f for f in st.maildirs if f not in self.dropped]
        st.mhs = [f for f in st.mhs if f not in self.dropped]
        st.mboxes = {f: 0 for f in st.mboxes if f not in self.dropped}
        st.write_rc(**kw)
        st.maildirs, st.mhs, st.mboxes = sv

    def configured(self):
        return any(f not in self.dropped for f in self.st.maildirs + self.st.mhs + list(self.st.mboxes))

    def index(self, *flags, ok=(0,), **kw):
        self.write_rc()
        r = self.st.index(*flags, ok=ok, **kw)
        self.log.append("index " + " ".join(flags))
        self.note_indexed()
        return r

    def note_indexed(self):
        live = self.live()
        for m in live:
            self.ever.append(frozenset(m.ids()))
        for name in list(self.indexed):
            if name not in self.boxes or name in self.dropped:
                del self.indexed[name]
        for name, b in self.boxes.items():
            if name not in self.dropped:
                self.indexed[name] = [(m.loc[2], m.loc[3], m.bytes) for m in b["msgs"]]
        for m in live:
            m.indexed_once = True
