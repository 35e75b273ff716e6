"""C07: source mail is never modified; an indexed folder is never used as result folder."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mx import core, mail, snap
from mx.common import *
from mx.history import History
from mx.imapacct import Account, FOLDERS, alike, check_source_untouched


class Watch:
    """Runs mairix with the file event log on and compares the store before and after."""

    def __init__(self, ctx, st, writable):
        self.ctx, self.st, self.writable = ctx, st, [os.path.realpath(w) for w in writable]
        self.log = os.path.join(ctx.root, "events")

    def allowed(self, p, cwd):
        if p.endswith("(deleted)"):
            return True
        q = os.path.normpath(os.path.join(cwd, p))
        q = os.path.join(os.path.realpath(os.path.dirname(q)), os.path.basename(q))
        if not (q + "/").startswith(os.path.realpath(self.ctx.root) + "/"):
            return True                        # a temporary file elsewhere is not the user's mail
        return any(q == w or q.startswith(w + "/") for w in self.writable) or q.startswith(os.path.realpath(self.st.db))

    def shot(self):
        s = snap.snap(self.st.mail, self.writable)
        for w in self.writable:                # creating the result folder itself touches its parent
            k = os.path.relpath(os.path.dirname(w), os.path.realpath(self.st.mail))
            if k in s:
                s[k] = s[k][:2]
        return s

    def run(self, args, ok, cwd=None, env=None, unchanged=True, writes_ok=True):
        ctx, st = self.ctx, self.st
        if os.path.exists(self.log):
            os.unlink(self.log)
        before = self.shot()
        e = snap.env(self.log)
        e.update(env or {})
        r = ctx.run(args, ok=None, cwd=cwd, env=e)
        after = self.shot()
        d = snap.diff(before, after)
        if d:
            ctx.violate("source-changed", "%s changed the mail folders: %s" % (args, d[0][:300]), changes=d[:10], rc=open(st.rc, encoding="latin-1").read(), run=r.brief())
        evs = snap.read_log(self.log)
        n = 0
        for ev in evs:
            for p in snap.write_targets(ev):
                n += 1
                if not self.allowed(p, cwd or ctx.root):
                    ctx.violate("write-outside", "%s: %s on %s" % (args, ev.op, p), event=repr(ev), rc=open(st.rc, encoding="latin-1").read(), run=r.brief())
                if not writes_ok and not p.startswith((st.db, os.path.realpath(st.db))) and not p.endswith("(deleted)"):
                    ctx.violate("write-before-refusal", "%s was refused but wrote %s" % (args, p), event=repr(ev))
        if not evs:
            raise core.Inconclusive()
        ctx.count("write_events", n)
        ctx.count("file_events", len(evs))
        ctx.count("snapshots_compared")
        ctx.count("evaluations")
        if ok is not None and r.rc not in ok:
            ctx.violate("exit", "%s ended with %d" % (args, r.rc), run=r.brief(), rc=open(st.rc, encoding="latin-1").read())
        return r


def history_case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, 30)
    st = mail.Store(ctx)
    h = History(ctx, st, voc)
    where = r.choice(["out", "base"])
    if where == "base":
        st.mfolder = os.path.join(st.mail, "results")
    w = Watch(ctx, st, [st.mfolder])
    for _ in range(r.choice([4, 10, 20])):
        h.step([("op_add_file", 3), ("op_new_box", 1)])
    readonly = r.random() < .3
    fmt = None
    for k in range(tier_n(6, 15)):
        if k:
            for _ in range(r.choice([0, 1, 3])):
                h.step()
        if not h.configured():
            h.dropped.clear()
        h.write_rc(mformat="maildir")
        flags = [f for f, p in (("-p", .4), ("-F", .2), ("-v", .1), ("-Q", .1)) if r.random() < p]
        w.run(["-f", st.rc] + flags, (0,))
        h.note_indexed()
        if "-F" in flags:
            # a fast index may overlook rewritten files; bring the model's assumptions back in step
            w.run(["-f", st.rc], (0,))
        if not os.path.exists(st.db):
            continue
        for _ in range(5):
            if r.random() < .25:
                core._force_rmtree(st.mfolder) if os.path.isdir(st.mfolder) else (os.path.exists(st.mfolder) and os.unlink(st.mfolder))
            nf = r.choice(["maildir", "mh", "mbox"])
            if fmt != nf:
                core._force_rmtree(st.mfolder) if os.path.isdir(st.mfolder) else (os.path.exists(st.mfolder) and os.unlink(st.mfolder))
                fmt = nf
            h.write_rc(mformat=fmt)
            flags = [f for f, p in (("-a", .35), ("-H", .3), ("-t", .3), ("-v", .1)) if r.random() < p]
            mode = r.choice([[], [], [], [], ["-r"], ["-x"], ["-d"]])
            q = [r.choice(["~zzznosuch", "b:a=", "s:%s" % voc.word(), voc.word(), "F:s", "F:-f", "z:100-2000", "p:cur", "zzznosuch"])]
            if mode == ["-d"]:
                q, flags = [], []
            rr = w.run(["-f", st.rc] + mode + flags + q, (0,) if mode == ["-d"] else (0, 1))
            ctx.seen(fmt, tuple(mode), tuple(flags), q[0] if q else "", rr.rc, k, len(h.log))
            # mail that disappears or changes between indexing and searching must not be "repaired" either
            if r.random() < .2:
                h.step([("op_remove_file", 2), ("op_truncate_box", 1), ("op_status_box", 1), ("op_reflag", 1)])
    ctx.sample({"history": h.log[-8:], "mfolder": where}, 1)


def spellings(ctx, st, name, isdir):
    """(label, mfolder value, cwd, rc edits) for every way to name the folder mail/<name>."""
    B, root = st.mail, st.root
    T = os.path.join(B, name)
    out = [("relative", name, None), ("absolute", T, None), ("dot", os.path.join(B, ".", name), None), ("slashes", B + "//" + name, None),
           ("updown", B + "/../" + os.path.basename(B) + "/" + name, None), ("rel-updown", "../" + os.path.basename(B) + "/" + name, None),
           ("rel-dot", "x/../" + name if os.path.isdir(os.path.join(B, "x")) else ".//" + name, None),
           ("cwd", "./" + name, B), ("cwd-up", "./../" + os.path.basename(B) + "/" + name, B)]
    if isdir:
        out += [("trailing", T + "/", None), ("trailing-dot", T + "/.", None), ("rel-trailing", name + "/", None)]
    link = os.path.join(root, "lnk")
    os.path.lexists(link) or os.symlink(T, link)
    out.append(("symlink", link, None))
    rlink = os.path.join(root, "rlnk")
    os.path.lexists(rlink) or os.symlink(os.path.relpath(T, root), rlink)
    out.append(("relative-symlink", rlink, None))
    plink = os.path.join(root, "plnk")
    os.path.lexists(plink) or os.symlink(B, plink)
    out.append(("symlinked-parent", os.path.join(plink, name), None))
    if not isdir:
        hl = os.path.join(root, "hardlnk")
        os.path.lexists(hl) or os.link(T, hl)
        out.append(("hardlink", hl, None))
    return out


def refuse_case(ctx):
    r = ctx.rng
    voc = mail.Vocab(r, 20)
    st = mail.Store(ctx)
    for i in range(4):
        for f in ("md0", "md1"):
            st.add_maildir_msg(f, mail.random_msg(r, voc, "%s%d" % (f, i)))
        for f in ("mh0", "mh1"):
            st.add_mh_msg(f, mail.random_msg(r, voc, "%s%d" % (f, i)))
    for i, c in enumerate([None, "gz", "bz2", "xz", None]):
        st.write_mbox("box%d%s" % (i, "." + c if c else ""), [mail.random_msg(r, voc, "b%d%d" % (i, j)) for j in range(3)], comp=c)
    os.makedirs(st.mail + "/x")
    for m in range(2):
        st.add_maildir_msg("sub/deep/md%d" % m, mail.random_msg(r, voc, "d%d" % m))
    st.write_mbox("sub/boxen/inner", [mail.random_msg(r, voc, "ib%d" % j) for j in range(2)])
    targets = [(n, True) for n in st.maildirs + st.mhs] + [(n, False) for n in st.mboxes]
    spec = r.choice(["literal", "glob", "recurse", "lines", "abs", "env"])
    env = {}
    L = ["base=%s" % (st.mail if r.random() < .7 else st.root + "/plnk")]
    if spec == "literal":
        L += ["maildir=md0:md1:sub/deep/md0:sub/deep/md1", "mh=mh0:mh1", "mbox=" + ":".join(st.mboxes)]
    elif spec == "glob":
        L += ["maildir=md*:sub/deep/m?[01]", "mh=mh[0-9]", "mbox=box*:sub/boxen/*"]
    elif spec == "recurse":
        L += ["maildir=md0...:md1:sub...", "mh=mh0...:mh1", "mbox=box0:" + ":".join(n for n in st.mboxes if n != "box0" and not n.startswith("sub")) + ":sub/boxen..."]
    elif spec == "lines":
        L += ["maildir=md0", "mh=mh0", "mbox=box0", "maildir=md1:sub/deep/md0", "mbox=" + ":".join(n for n in st.mboxes if n != "box0"), "mh=mh1", "maildir=sub/deep/md1"]
    elif spec == "abs":
        L += ["maildir=" + ":".join(os.path.join(st.mail, n) for n in st.maildirs), "mh=" + ":".join(os.path.join(st.mail, n) for n in st.mhs),
              "mbox=" + ":".join(os.path.join(st.mail, n) for n in st.mboxes)]
    else:
        env = {"MAIRIX_MAILDIR_FOLDERS": ":".join(st.maildirs), "MAIRIX_MH_FOLDERS": ":".join(st.mhs), "MAIRIX_MBOXEN": ":".join(st.mboxes)}
    L += ["database=%s" % st.db]
    os.symlink(st.mail, os.path.join(st.root, "plnk"))
    outside = os.path.join(st.root, "mf")

    def rc(mfolder, fmt):
        with open(st.rc, "w") as f:
            f.write("\n".join(L + (["mfolder=%s" % mfolder] if mfolder else []) + ["mformat=%s" % fmt]) + "\n")
    rc(outside, "maildir")
    w = Watch(ctx, st, [])
    w.run(["-f", st.rc], (0,), env=env)
    w.writable = []
    n = len(mail.parse_raw(ctx.run(["-f", st.rc, "-r", "~zzz"], env=env, ok=(0,)).out))
    want = sum(1 for _ in range(8)) + 8 + 15 + 2 + 2
    if n != want:
        ctx.violate("setup", "indexed %d messages of %d" % (n, want), rc=open(st.rc, encoding="latin-1").read())
    for name, isdir in (targets if ctx.tier == "thorough" else r.sample(targets, 4)):
        for x in ("lnk", "rlnk", "hardlnk"):
            if os.path.lexists(os.path.join(st.root, x)):
                os.unlink(os.path.join(st.root, x))
        for label, val, cwd in spellings(ctx, st, name, isdir):
            fmt = r.choice(["maildir", "mh", "mbox"])
            route = r.choice(["rc", "env", "-o"])
            flags = [f for f, p in (("-a", .4), ("-H", .2), ("-t", .2)) if r.random() < p]
            e = dict(env)
            a = ["-f", st.rc] + flags
            rc(val if route == "rc" else r.choice([None, outside]), fmt)
            if route == "env":
                e["MAIRIX_MFOLDER"] = val
            elif route == "-o":
                a += ["-o", val]
            rr = w.run(a + ["~zzznosuch"], None, cwd=cwd, env=e, writes_ok=False)
            if rr.rc in (0, 1):
                ctx.violate("not-refused", "result folder %s (%s spelling of indexed folder %s, %s format, %s) was accepted" % (val, label, name, fmt, route),
                            rc=open(st.rc, encoding="latin-1").read(), run=rr.brief())
            ctx.count("refusals")
            ctx.seen(label, isdir, fmt, route, tuple(flags), spec)
    # places inside an indexed folder where messages live, and results that would be redirected there
    boxy = ["mbox"]
    inside = []
    for name in r.sample(st.maildirs, 2):
        have = [os.path.join(name, d, f) for d in ("cur", "new") for f in os.listdir(os.path.join(st.mail, name, d))]
        inside += [("subdir", os.path.join(name, d), None) for d in ("cur", "new", "tmp")]
        inside += [("subdir-trailing", os.path.join(name, r.choice(["cur", "new"])) + r.choice(["/", "/."]), None)]
        inside += [("message", r.choice(have), None), ("new-entry", os.path.join(name, r.choice(["cur", "new"]), r.choice(["77", "77.x.y", "res"])), None)]
        inside += [("redirect", (r.choice(["cur", "new"]), os.path.join(name, r.choice(["cur", "new"]))), ["maildir"])]
        inside += [("symlinked-subdir", ("", os.path.join(name, r.choice(["cur", "new"]))), None), ("symlinked-message", ("", r.choice(have)), None)]
    for name in r.sample(st.mhs, 1):
        have = [os.path.join(name, f) for f in os.listdir(os.path.join(st.mail, name)) if f.isdigit()]
        inside += [("message", r.choice(have), None), ("new-entry", os.path.join(name, "7777"), boxy), ("symlinked-message", ("", r.choice(have)), None),
                   ("redirect", (r.choice(["cur", "new"]), name), ["maildir"])]
    for k, (label, val, fmts) in enumerate(inside if ctx.tier == "thorough" else r.sample(inside, 12)):
        if isinstance(val, tuple):
            own = os.path.join(st.root, "res%d" % k)
            if val[0]:
                for d in ("cur", "new", "tmp"):
                    d == val[0] or os.makedirs(os.path.join(own, d))
            target = os.path.join(st.mail, val[1])
            if r.random() < .5:
                target = os.path.relpath(target, own if val[0] else st.root)
            os.symlink(target, os.path.join(own, val[0]) if val[0] else own)
            val = own
        elif r.random() < .5:
            val = os.path.join(st.mail, val)
        fmt = r.choice(fmts or ["maildir", "mh", "mbox"])
        route = r.choice(["rc", "env", "-o"])
        flags = [f for f, p in (("-a", .4), ("-H", .2), ("-t", .2)) if r.random() < p]
        e = dict(env)
        rc(val if route == "rc" else r.choice([None, outside]), fmt)
        if route == "env":
            e["MAIRIX_MFOLDER"] = val
        rr = w.run(["-f", st.rc] + flags + (["-o", val] if route == "-o" else []) + ["~zzznosuch"], None, env=e, writes_ok=False)
        if rr.rc in (0, 1):
            ctx.violate("inside-not-refused", "result folder %s (%s of an indexed folder, %s format, %s) was accepted" % (val, label, fmt, route),
                        rc=open(st.rc, encoding="latin-1").read(), run=rr.brief())
        ctx.count("inside_refusals")
        ctx.seen("inside", label, fmt, route, tuple(flags), spec)
    # positive control: other folders are accepted, those nested in an indexed folder among them
    nested = [os.path.join(r.choice(st.maildirs), "sub"), os.path.join(r.choice(st.mhs), r.choice(["sub", "98", "cur"])), "."]
    for val in nested:
        for fmt in ("maildir", "mh"):
            mf = os.path.join(st.mail, val)
            if val != ".":
                os.makedirs(mf)
            rc(None, fmt)
            rr = ctx.run(["-f", st.rc, "-o", r.choice([mf, val]), "zzznosuch"], env=env, ok=None)
            if rr.rc != 1:
                ctx.violate("nested-refused", "result folder %s (%s) is not an indexed folder but ended with %d" % (val, fmt, rr.rc), run=rr.brief(),
                            rc=open(st.rc, encoding="latin-1").read())
            if val != ".":
                core._force_rmtree(mf)
            ctx.count("nested_controls")
    for fmt in ("maildir", "mh", "mbox"):
        mf = os.path.join(st.mail, "x", "res_" + fmt)
        rc(None, fmt)
        w.writable = [os.path.realpath(mf)]
        snapdir = os.stat(os.path.join(st.mail, "x"))
        os.makedirs(mf) if fmt != "mbox" else open(mf, "w").close()
        w.run(["-f", st.rc, "-o", r.choice([mf, "x/res_" + fmt]), "~zzznosuch"], (0,), env=env) if fmt != "mbox" else \
            w.run(["-f", st.rc, "-a", "-o", mf, "~zzznosuch"], (0,), env=env)
        ctx.count("accepted_controls")
    w.writable = []


def imap_case(ctx):
    """IMAP results: an indexed IMAP folder is refused as result folder, any other is accepted."""
    r = ctx.rng
    voc = mail.Vocab(r, 20)
    st = mail.Store(ctx)
    a = Account(ctx, st)
    names = alike(r, r.sample(FOLDERS, r.randint(2, 4)))
    for n in names:
        a.add_folder(n)
        for i in range(r.randint(1, 4)):
            a.add(n, mail.random_msg(r, voc, "%s%d" % (names.index(n), i)))
    a.named = r.sample(names, r.randint(1, len(names)))
    if r.random() < .5:
        st.add_maildir_msg("md0", mail.random_msg(r, voc, "loc"))
    omit = ["omit=nothing*"] if r.random() < .3 else []

    def rc(mfolder, fmt):
        L = ["base=%s" % st.mail] + (["maildir=md0"] if st.maildirs else []) + a.rc_lines() + omit
        with open(st.rc, "w", encoding="latin-1") as f:
            f.write("\n".join(L + (["mfolder=%s" % mfolder] if mfolder else []) + ["mformat=%s" % fmt, "database=%s" % st.db]) + "\n")
    rc(os.path.join(st.root, "mf"), "raw")
    a.write()
    w = Watch(ctx, st, [a.dir])
    w.run(["-f", st.rc], (0,))
    check_source_untouched(ctx, a, a.read_state(), None, what="index")
    for n in a.named + [n for n in names if n not in a.named]:
        vals = [n]
        if n.upper() == "INBOX":
            vals += ["INBOX", "inbox", "Inbox", "iNBOX"]
        for val in vals:
            route = r.choice(["rc", "env", "-o"])
            flags = [f for f, p in (("-a", .4), ("-t", .2)) if r.random() < p]
            same = n in a.named or (n.upper() == "INBOX" and any(x.upper() == "INBOX" for x in a.named))
            rc(val if route == "rc" else r.choice([None, "Elsewhere"]), "imap")
            a.write()
            before = a.read_state()
            w.writable = [] if same else [os.path.realpath(a.dir)]       # the server's own files
            rr = w.run(["-f", st.rc] + flags + (["-o", val] if route == "-o" else []) + ["~zzznosuch"], None,
                       env={"MAIRIX_MFOLDER": val.encode("latin-1")} if route == "env" else {}, writes_ok=not same)
            check_source_untouched(ctx, a, before, None if same else val, what="a search into %r" % val)
            if same and rr.rc in (0, 1):
                ctx.violate("imap-not-refused", "the indexed IMAP folder %r was accepted as result folder (%r, %s)" % (n, val, route), run=rr.brief())
            if not same and rr.rc != 0:
                ctx.violate("imap-refused", "the IMAP folder %r is not indexed but was refused as result folder (%r, %s)" % (n, val, route), run=rr.brief())
            ctx.count("imap_refusals" if same else "imap_controls")
            ctx.seen("imap", val, route, tuple(flags), same)


cases = [("s%03d" % i, history_case) for i in range(tier_n(150, 800))] + [("r%03d" % i, refuse_case) for i in range(tier_n(48, 240))] + [("i%03d" % i, imap_case) for i in range(tier_n(40, 200))]
if __name__ == "__main__":
    core.main("C07", cases, rule="Random mail stores and change histories; around every index, purge, dump and search run (every result format, -a, -H, -t) the folders are "
              "snapshot (contents, names, modes, mtimes, inodes) and every successful write-side call seen by the LD_PRELOAD log must fall in the "
              "database, its locks or the result folder. Result folders that are indexed folders, spelt every way, or places in them where messages live (cur, new, tmp, a message, a result maildir whose cur is a symlink to them) must be refused with nothing written, while folders nested in an indexed folder are accepted; so must indexed IMAP folders for IMAP results, as the fake server's state and log of commands show. "
              "Non-trivial: distinct (format, flags, query, outcome) or (spelling, kind, format, route) tuples.",
              assumptions=["the result folder is not inside an indexed folder except as a nested folder of its own, or a place where that folder's messages live",
                           "the result folder is not a hard link to a message file of an indexed maildir or MH folder"], min_evals=500)
