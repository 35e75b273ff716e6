"""The modelled IMAP account: what the server (mx/imapd.py) holds, as the monitor knows it."""
import json, os, pickle, sys
from . import mail, imapd
from .core import Violation

HERE = os.path.dirname(os.path.abspath(__file__))
FOLDERS = ["INBOX", "Sent", "lists/mairix", "lists.perl", "My Mail", "a b  c", 'say "hi"', "back\\slash", "&AOk-t&AOk-", "caf\xe9", "x" * 90, "co:lon", "(paren)", "100", "[Gmail]/All Mail",
           "star*", "Inbox", "'q'", "{5}", "a/b/c/d", "Trash"]


def alike(r, names):
    """Some of the names replaced by ones that extend, cut or nest another."""
    names = list(names)
    for i in range(1, len(names)):
        b = names[i - 1]
        if r.random() < .4:
            n = r.choice([b + "2", b + "/sub", b + " ", b + ".x", b[:-1], b.swapcase(), b + b])
            n = n.strip()
            if n and n not in names and n.upper() != "INBOX":
                names[i] = n
    if r.random() < .3:
        names.reverse()
    return names


class Account:
    def __init__(self, ctx, st, dirname="imap"):
        self.ctx, self.st, self.r = ctx, st, ctx.rng
        ctx.drain = True
        self.dir = os.path.join(ctx.root, dirname)
        os.makedirs(self.dir)
        self.statep, self.logp, self.planp = [os.path.join(self.dir, x) for x in ("state", "log", "plan")]
        self.folders = {}        # name -> {"uidvalidity", "uidnext", "msgs": [(uid, set of flags, Msg, bytes)]}
        self.named = []          # folders named in the rc
        self.plan = {"user": "me", "password": "secret", "seed": self.r.randint(1, 1 << 30), "caps_in": self.r.random() < .5}
        self.vnext = self.r.choice([1, 1, 1, 123456, 1234567890, 4294960000])

    def renumber(self, old):
        """A UIDVALIDITY never used so far; often one that looks much like the old one."""
        k = self.r.random()
        used = set(f["uidvalidity"] for f in self.folders.values()) | getattr(self, "vals", set())
        v = old + self.r.choice("0123456789") if k < .45 else old[:-1] if k < .6 else old[:-1] + self.r.choice("0123456789") if k < .75 else \
            self.r.choice("123") + old if k < .8 else self.newval()
        if v in used or not v or not 0 < int(v) < 1 << 32 or v[0] == "0":
            v = self.newval()
        self.vals = used | {v, old}
        return v

    def newval(self):
        self.vnext += self.r.randint(1, 90)
        return str(self.vnext)

    def add_folder(self, name):
        v, self.ever = self.newval(), getattr(self, "ever", set())
        if name not in self.ever and self.folders and self.r.random() < .25:
            v = self.r.choice(list(self.folders.values()))["uidvalidity"]      # folders made in the same second often share it
        self.ever.add(name)
        self.folders[name] = {"uidvalidity": v, "uidnext": self.r.choice([1, 1, 9, 99, 4294960000]), "msgs": []}

    def data_of(self, m):
        d = m.render()
        if getattr(m, "lf", None) is None:
            m.lf = self.r.random() < .15
            m.noeol = bool(m.body.strip()) and self.r.random() < .1
        if not m.lf:
            d = d.replace(b"\n", b"\r\n")
        if m.noeol:
            d = d.rstrip(b"\r\n")
        return d

    def add(self, name, m):
        f = self.folders[name]
        fl = set()
        for x in ("\\Seen", "\\Answered", "\\Flagged", "$Label1", "\\Draft"):
            if self.r.random() < .3:
                fl.add(x.encode())
        f["uidnext"] += self.r.choice([0, 0, 0, 1, 7])
        d = self.data_of(m)
        f["msgs"].append((f["uidnext"], fl, m, d))
        m.imap = d
        self.place(name, f, f["uidnext"], m, d)
        f["uidnext"] += 1
        return m

    def place(self, name, f, uid, m, d):
        m.loc, m.size, m.store = ("imap", "%s:%d:%s" % (f["uidvalidity"], uid, name)), len(d), "imap"

    def live(self):
        out = []
        for n in self.named:
            if n in self.folders:
                out += [m for uid, fl, m, d in self.folders[n]["msgs"] if b"\\Deleted" not in fl]
        return out

    # ---- what the server sees
    def state(self):
        return {n.encode("latin-1"): {"uidvalidity": f["uidvalidity"], "uidnext": f["uidnext"],
                                      "msgs": [{"uid": u, "flags": set(fl), "data": d} for u, fl, m, d in f["msgs"]]}
                for n, f in self.folders.items()}

    def write(self, **plan):
        p = dict(self.plan, **plan)
        imapd.save(self.statep, self.state())
        with open(self.planp, "w") as f:
            json.dump(p, f)
        open(self.logp, "w").close()

    def read_state(self):
        return imapd.load(self.statep)

    def log(self):
        with open(self.logp) as f:
            return [json.loads(l) for l in f if l.strip()]

    def rc_lines(self, named=None):
        def esc(n):
            return n.replace(":", "\\:")
        L = []
        ns = list(self.named if named is None else named)
        while ns:
            k = self.r.randint(1, len(ns))
            L.append("imap=" + ":".join(esc(n) for n in ns[:k]))
            ns = ns[k:]
        L.append("imap_pipe=exec %s -I -S %s %s %s %s" % ("/usr/bin/python3", os.path.join(HERE, "imapd.py"), self.statep, self.logp, self.planp))
        if self.plan.get("user") is not None and not self.plan.get("nocred"):
            L += ["imap_username=%s" % self.plan["user"], "imap_password=%s" % self.plan["password"]]
        return L


WRITES = {"STORE", "EXPUNGE", "APPEND", "CREATE", "DELETE", "RENAME", "COPY", "SELECT", "CLOSE", "SUBSCRIBE", "UNSUBSCRIBE", "SETACL"}


def check_source_untouched(ctx, acct, before, result_folder=None, what="run"):
    """Nothing but the result folder changed, and nothing that could change another folder was asked of the server."""
    after = acct.read_state()
    rf = result_folder.encode("latin-1") if result_folder is not None else None
    for n in set(before) | set(after):
        if n != rf and before.get(n) != after.get(n):
            ctx.violate("imap-source-modified", "%s changed the IMAP folder %r" % (what, n), log=acct.log()[-30:])
    for e in acct.log():
        if e.get("protocol_error"):
            ctx.violate("imap-protocol", "%s: mairix sent the server something that is not IMAP" % what, log=acct.log()[-30:])
        if e.get("unknown"):
            ctx.violate("imap-protocol", "%s: mairix sent an unknown command %s" % (what, e["unknown"]), log=acct.log()[-30:])
        c = e.get("cmd")
        if not c:
            continue
        ctx.count("imap_commands")
        sub = e["args"][0].upper() if c == "UID" and e["args"] else None
        if c in ("SELECT", "APPEND", "CREATE") and e["args"][0] != result_folder:
            ctx.violate("imap-write-command", "%s sent %s for %r, which is not the result folder" % (what, c, e["args"][0]), log=acct.log()[-30:])
        if c in ("STORE", "EXPUNGE", "CLOSE", "DELETE", "RENAME") and e["sel"] != result_folder:
            ctx.violate("imap-write-command", "%s sent %s while %r was selected" % (what, c, e["sel"]), log=acct.log()[-30:])
        if sub in ("STORE", "EXPUNGE") and e["sel"] != result_folder:
            ctx.violate("imap-write-command", "%s sent UID %s while %r was selected" % (what, sub, e["sel"]), log=acct.log()[-30:])
        if sub == "COPY" and e["args"][2] != result_folder:
            ctx.violate("imap-write-command", "%s copied into %r" % (what, e["args"][2]), log=acct.log()[-30:])
