"""A small IMAP4rev1 server on stdin/stdout, driven by a state file, a plan and a log. Run through imap_pipe=.

state : pickle {folder name (bytes): {"uidvalidity": str, "uidnext": int, "msgs": [{"uid": int, "flags": set, "data": bytes}]}}
plan  : json   {"user","password","greeting","caps_in","chunk","noise","order","seed","faults":{"<n>": kind},"readonly"}
log   : one json line per command received (after the literals were read), and one per mutation.
"""
import json, os, pickle, random, sys, time

CAPS = b"IMAP4rev1 LITERAL+ AUTH=PLAIN UIDPLUS"


def load(path):
    with open(path, "rb") as f:
        return pickle.load(f)


def save(path, state):
    with open(path + ".tmp", "wb") as f:
        pickle.dump(state, f)
    os.rename(path + ".tmp", path)


class Gone(Exception):
    pass


class Server:
    def __init__(self, statep, logp, planp):
        self.statep, self.log = statep, open(logp, "a")
        self.state = load(statep)
        with open(planp) as f:
            self.plan = json.load(f)
        self.r = random.Random(self.plan.get("seed", 1))
        self.faults = self.plan.get("faults", {})
        self.n = 0
        self.buf = b""
        self.sel, self.rw, self.auth = None, False, False

    # ---------------------------------------------------------------- transport
    def read_exact(self, n):
        while len(self.buf) < n:
            d = os.read(0, 65536)
            if not d:
                raise Gone()
            self.buf += d
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def read_line(self):
        while b"\n" not in self.buf:
            d = os.read(0, 65536)
            if not d:
                raise Gone()
            self.buf += d
        i = self.buf.index(b"\n")
        r, self.buf = self.buf[:i], self.buf[i + 1:]
        return r[:-1] if r.endswith(b"\r") else r

    def send(self, data):
        c = self.plan.get("chunk", 0)
        if not c:
            self.raw(data)
            return
        i = 0
        while i < len(data):
            k = self.r.randint(1, c)
            self.raw(data[i:i + k])
            i += k
            if self.r.random() < .02:
                time.sleep(0.0005)

    def raw(self, data):
        while data:
            n = os.write(1, data)
            data = data[n:]

    def note(self, **kw):
        self.log.write(json.dumps(kw) + "\n")
        self.log.flush()

    # ---------------------------------------------------------------- parsing what the client says
    def command(self):
        line = self.read_line()
        toks, pos, lits = [], 0, 0
        stack = [toks]
        while True:
            if pos >= len(line):
                break
            ch = line[pos:pos + 1]
            if ch == b" ":
                pos += 1
            elif ch == b'"':
                pos += 1
                s = b""
                while True:
                    if pos >= len(line):
                        return None
                    c = line[pos:pos + 1]
                    pos += 1
                    if c == b'"':
                        break
                    if c == b"\\":
                        c = line[pos:pos + 1]
                        pos += 1
                        if c not in (b'"', b"\\"):
                            return None
                    s += c
                if any(x >= 0x80 or x in (0, 10, 13) for x in s):
                    return None
                stack[-1].append(s)
            elif ch == b"{":
                e = line.index(b"}", pos)
                spec = line[pos + 1:e]
                if e != len(line) - 1 or not spec.endswith(b"+") or not spec[:-1].isdigit():
                    return None
                lits += 1
                stack[-1].append(self.read_exact(int(spec[:-1])))
                line, pos = self.read_line(), 0
            elif ch == b"(":
                stack.append([])
                pos += 1
            elif ch == b")":
                if len(stack) < 2:
                    return None
                l = stack.pop()
                stack[-1].append(l)
                pos += 1
            else:
                e = pos
                while e < len(line) and line[e:e + 1] not in (b" ", b"(", b")", b'"'):
                    e += 1
                stack[-1].append(Atom(line[pos:e]))
                pos = e
        return toks if len(stack) == 1 else None

    # ---------------------------------------------------------------- noise and faults
    def noise(self):
        if self.r.random() < self.plan.get("noise", 0):
            f = self.state.get(self.sel) if self.sel is not None else None
            opts = [b"* OK still here\r\n", b"* NO disk nearly full (92%)\r\n", b"* OK [ALERT] system \"shutdown\" in (60) minutes {soon}\r\n"]
            if f is not None:
                opts += [b"* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)\r\n", b"* 0 RECENT\r\n",
                         b"* %d EXISTS\r\n" % len(f["msgs"]), b"* SEARCH\r\n", b"* BYEBYE\r\n"]
                if f["msgs"]:
                    i = self.r.randrange(len(f["msgs"]))
                    opts.append(b"* %d FETCH (FLAGS (%s))\r\n" % (i + 1, b" ".join(sorted(f["msgs"][i]["flags"]))))
            self.send(self.r.choice(opts))

    def fault(self, tag):
        """What to do instead of (or around) the answer to command self.n; None: answer normally."""
        k = self.faults.get(str(self.n))
        if k is None:
            return None
        self.note(fault=k, n=self.n)
        t = tag or b"*"
        simple = {
            "no": t + b" NO [UNAVAILABLE] not now\r\n", "bad": t + b" BAD what?\r\n", "no-bare": t + b" NO\r\n",
            "ok-only": t + b" OK done\r\n", "ok-empty": t + b" OK\r\n", "tag-only": t + b" \r\n",
            "bare-untagged": b"* \r\n" + t + b" OK done\r\n", "one-word": b"* BYE\r\n* FETCH\r\n* 1\r\n* 1 FETCH\r\n" + t + b" OK done\r\n",
            "fetch-no-list": b"* 1 FETCH ()\r\n* 1 FETCH (UID)\r\n* 1 FETCH (UID (1))\r\n* 1 FETCH (FLAGS 1 UID 1 BODY[] 12)\r\n* 1 FETCH 12\r\n* (1) FETCH (UID 1)\r\n"
                             + t + b" OK done\r\n",
            "fetch-nil": b"* 1 FETCH (UID 1 BODY[] NIL FLAGS NIL)\r\n" + t + b" OK done\r\n",
            "sq": b"* OK [\r\n* OK []\r\n* OK [UIDVALIDITY\r\n* OK [UIDVALIDITY]\r\n* OK [UIDVALIDITY (1)]\r\n* OK [(X)]\r\n* [X] y\r\n* 1 [EXISTS]\r\n* (1) EXISTS\r\n"
                  + t + b" OK [X]\r\n",
            "unbalanced": b"* 1 FETCH (UID 1 FLAGS (\\Seen\r\n* 1 FETCH UID 1))))\r\n* ]]]\r\n" + t + b" OK )]) done (((\r\n",
            "quote-open": b"* OK \"unfinished\r\n" + t + b" OK \"too\r\n", "brace": b"* OK {x\r\n* OK {}x\r\n" + t + b" OK {\r\n",
            "empty-line": b"\r\n" + t + b" OK done\r\n", "lf": b"\n\n\n" + t + b" OK done\r\n", "garbage": b"\0\xff\x80%%% garbage\r\n" + t + b" OK done\r\n",
            "wrong-tag": b"t99999999999999999999 OK done\r\n", "old-tag": b"t0 OK done\r\n", "plus": b"+ go on\r\n" + t + b" OK done\r\n",
            "caps-empty": b"* CAPABILITY\r\n" + t + b" OK [CAPABILITY] done\r\n", "caps-list": b"* CAPABILITY (IMAP4rev1)\r\n" + t + b" OK [CAPABILITY (x)] done\r\n",
            "long-token": b"* OK " + b"x" * 70000 + b"\r\n* " + b"(" * 3000 + b"\r\n" + t + b" OK done\r\n",
        }
        eof = {
            "eof": b"", "eof-partial": b"* 1 FETCH (UID 1 BO", "eof-literal": b"* 1 FETCH (UID 1 BODY[] {500}\r\nSubject: hal", "eof-tag": t,
            "bye-eof": b"* BYE going down\r\n", "huge-literal": b"* 1 FETCH (UID 1 BODY[] {999999999999999}\r\nabc", "int-literal": b"* 1 FETCH (UID 1 BODY[] {2147483647}\r\nabc",
            "neg-literal": b"* 1 FETCH (UID 1 BODY[] {4294967290}\r\nabc\r\n", "garbage-eof": b"\xff\xfe\0\0\r\r\r",
        }
        if k in simple:
            self.send(simple[k])
            return True
        if k in eof:
            self.send(eof[k])
            raise Gone()
        if k == "die-after":
            return "die-after"
        if k.startswith("noise"):
            self.send(b"* OK something\r\n* 23 EXISTS\r\n* 1 RECENT\r\n")
            return None
        raise ValueError(k)

    # ---------------------------------------------------------------- main loop
    def serve(self):
        try:
            self.session()
        except (Gone, BrokenPipeError):
            pass
        self.note(end=True)

    def session(self):
        p = self.plan
        caps = b"[CAPABILITY " + CAPS + b"] "
        pre = p.get("greeting", "OK") == "PREAUTH"
        if pre:
            self.auth = True
        f = self.fault(None)
        if f is not True:
            if p.get("greeting") == "BYE":
                self.send(b"* BYE no service\r\n")
                raise Gone()
            self.send(b"* " + (b"PREAUTH " if pre else b"OK ") + (caps if p.get("caps_in") else b"") + b"server ready (test) \"quoted\r\n")
        if f == "die-after":
            raise Gone()
        while True:
            toks = self.command()
            self.n += 1
            if toks is None or len(toks) < 2:
                self.note(n=self.n, bad=True)
                self.send(b"* BAD cannot parse\r\n")
                self.note(protocol_error=True)
                raise Gone()
            tag, name = toks[0], toks[1].upper()
            args = toks[2:]
            self.note(n=self.n, cmd=name.decode("latin-1"), args=[show(a) for a in args], sel=show(self.sel) if self.sel is not None else None, auth=self.auth)
            self.noise()
            f = self.fault(tag)
            if f is True:
                continue
            self.dispatch(tag, name, args)
            if f == "die-after":
                raise Gone()
            if name == b"LOGOUT":
                raise Gone()

    def ok(self, tag, text=b"completed"):
        self.noise()
        self.send(tag + b" OK " + text + b"\r\n")

    def no(self, tag, text=b"failed"):
        self.send(tag + b" NO " + text + b"\r\n")

    def dispatch(self, tag, name, args):
        if name == b"CAPABILITY":
            self.send(b"* CAPABILITY " + CAPS + b"\r\n")
            return self.ok(tag)
        if name == b"LOGOUT":
            self.send(b"* BYE logging out\r\n")
            return self.ok(tag)
        if name == b"LOGIN":
            if len(args) == 2 and args[0] == self.plan.get("user", "").encode("latin-1") and args[1] == self.plan.get("password", "").encode("latin-1"):
                self.auth = True
                return self.ok(tag, b"[CAPABILITY " + CAPS + b"] welcome" if self.plan.get("caps_in") else b"welcome")
            return self.no(tag, b"[AUTHENTICATIONFAILED] go away")
        if not self.auth:
            return self.send(tag + b" BAD log in first\r\n")
        if name in (b"EXAMINE", b"SELECT"):
            f = self.state.get(bytes(args[0]))
            if f is None:
                self.sel = None
                return self.no(tag, b"[NONEXISTENT] no such folder")
            self.sel, self.rw = bytes(args[0]), name == b"SELECT"
            lines = [b"* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft $Label1)\r\n", b"* %d EXISTS\r\n" % len(f["msgs"]), b"* 0 RECENT\r\n",
                     b"* OK [UIDVALIDITY %s] UIDs valid\r\n" % f["uidvalidity"].encode(), b"* OK [UIDNEXT %d] next\r\n" % f["uidnext"],
                     b"* OK [PERMANENTFLAGS (\\Deleted \\Seen \\*)] Limited\r\n"]
            if f["msgs"]:
                lines.append(b"* OK [UNSEEN 1] Message 1 is first unseen\r\n")
            if self.plan.get("order"):
                self.r.shuffle(lines)
            self.send(b"".join(lines))
            return self.ok(tag, b"[READ-WRITE] done" if self.rw else b"[READ-ONLY] done")
        if name == b"CREATE":
            n = bytes(args[0])
            if n in self.state:
                return self.no(tag, b"[ALREADYEXISTS] exists")
            self.state[n] = {"uidvalidity": str(1700000000 + len(self.state)), "uidnext": 1, "msgs": []}
            self.note(mut="create", folder=show(n))
            save(self.statep, self.state)
            return self.ok(tag)
        if name == b"APPEND":
            n = bytes(args[0])
            if n not in self.state:
                return self.no(tag, b"[TRYCREATE] no such folder")
            flags = set(bytes(x) for x in args[1]) if len(args) > 2 and isinstance(args[1], list) else set()
            self.add(n, flags, bytes(args[-1]))
            self.note(mut="append", folder=show(n))
            return self.ok(tag)
        if name == b"LIST":
            for n in self.state:
                self.send(b'* LIST () "/" "%s"\r\n' % n)
            return self.ok(tag)
        if self.sel is None:
            return self.send(tag + b" BAD select first\r\n")
        f = self.state.get(self.sel)
        if name == b"STORE" and args[0] == b"1:*":
            if not f["msgs"]:
                return self.send(tag + b" BAD no messages\r\n")
            if not self.rw:
                return self.no(tag, b"read-only")
            for i, m in enumerate(f["msgs"]):
                m["flags"].add(bytes(args[2]) if not isinstance(args[2], list) else bytes(args[2][0]))
                self.send(b"* %d FETCH (FLAGS (%s))\r\n" % (i + 1, b" ".join(sorted(m["flags"]))))
            self.note(mut="store", folder=show(self.sel))
            save(self.statep, self.state)
            return self.ok(tag)
        if name == b"EXPUNGE":
            if not self.rw:
                return self.no(tag, b"read-only")
            i = 0
            while i < len(f["msgs"]):
                if b"\\Deleted" in f["msgs"][i]["flags"]:
                    del f["msgs"][i]
                    self.send(b"* %d EXPUNGE\r\n" % (i + 1))
                else:
                    i += 1
            self.note(mut="expunge", folder=show(self.sel))
            save(self.statep, self.state)
            return self.ok(tag)
        if name == b"UID" and args and args[0].upper() == b"FETCH":
            return self.uid_fetch(tag, f, args[1], args[2:])
        if name == b"UID" and args and args[0].upper() == b"COPY":
            n = bytes(args[2])
            if n not in self.state:
                return self.no(tag, b"[TRYCREATE] no such folder")
            for m in list(f["msgs"]):
                if str(m["uid"]).encode() == bytes(args[1]):
                    self.add(n, set(m["flags"]) - {b"\\Recent"}, m["data"])
                    self.note(mut="copy", folder=show(n))
            return self.ok(tag, b"[COPYUID 1 1 1] done")
        self.note(unknown=name.decode("latin-1"))
        self.send(tag + b" BAD unknown command\r\n")

    def add(self, n, flags, data):
        t = self.state[n]
        t["msgs"].append({"uid": t["uidnext"], "flags": flags, "data": data})
        t["uidnext"] += 1
        save(self.statep, self.state)

    def uid_fetch(self, tag, f, which, items):
        if which == b"1:*":
            want = list(enumerate(f["msgs"]))
        else:
            want = [(i, m) for i, m in enumerate(f["msgs"]) if str(m["uid"]).encode() == bytes(which)]
        names = []
        for it in items:
            names += it if isinstance(it, list) else [it]
        names = [bytes(x).upper() for x in names]
        if self.plan.get("order"):
            self.r.shuffle(want)
        for i, m in want:
            out = [b"UID %d" % m["uid"]]
            if b"FLAGS" in names or self.plan.get("extra_flags"):
                out.append(b"FLAGS (" + b" ".join(sorted(m["flags"])) + b")")
            if b"BODY[]" in names and b"\\Seen" not in m["flags"] and self.rw:
                m["flags"].add(b"\\Seen")
                self.note(mut="seen", folder=show(self.sel))
            if b"BODY.PEEK[]" in names or b"BODY[]" in names:
                out.append(b"BODY[] {%d}\r\n" % len(m["data"]) + m["data"])
            if self.plan.get("order"):
                self.r.shuffle(out)
            self.noise()
            self.send(b"* %d FETCH (" % (i + 1) + b" ".join(out) + b")\r\n")
        self.ok(tag)


class Atom(bytes):
    pass


def show(x):
    if isinstance(x, list):
        return [show(y) for y in x]
    return x.decode("latin-1") if len(x) < 300 else "<%d bytes>" % len(x)


if __name__ == "__main__":
    Server(*sys.argv[1:4]).serve()
