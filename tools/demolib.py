"""Scratch mail store for a demonstration: everything lives in a temporary directory that is removed at the end."""
import atexit, os, shutil, subprocess, sys, tempfile

MAIRIX = os.path.join(os.getcwd(), "mairix")
ROOT = tempfile.mkdtemp(prefix="mxdemo.")
atexit.register(shutil.rmtree, ROOT, True)
os.makedirs(ROOT + "/mail")


def put(rel, text, mtime=None):
    p = os.path.join(ROOT, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("latin-1"))
    if mtime:
        os.utime(p, (mtime, mtime))
    return p


def maildir(name):
    for s in ("cur", "new", "tmp"):
        os.makedirs(os.path.join(ROOT, "mail", name, s), exist_ok=True)


def msg(body="hello\n", frm="a@b.example", to="c@d.example", subject="subj", mid=None, extra=""):
    h = "From: %s\nTo: %s\nSubject: %s\nDate: Mon, 03 Jan 2011 10:00:00 +0000\n" % (frm, to, subject)
    if mid:
        h += "Message-ID: <%s>\n" % mid
    return h + extra + "\n" + body


SEP = "From a@b.example Mon Jan  3 10:00:00 2011\n"


def rc(*lines, mformat="maildir"):
    put("rc", "base=%s/mail\nmfolder=%s/mf\nmformat=%s\ndatabase=%s/db\n" % (ROOT, ROOT, mformat, ROOT) + "\n".join(lines) + "\n")


def run(*args, env=None, timeout=60):
    e = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C", "HOME": ROOT}
    e.update(env or {})
    r = subprocess.run([MAIRIX, "-f", ROOT + "/rc"] + list(args), env=e, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=ROOT)
    return r.returncode, r.stdout.decode("latin-1"), r.stderr.decode("latin-1")


def index(*a):
    rc_, o, e = run(*a)
    expect(rc_ == 0, "indexing ended with %d: %s" % (rc_, e))


def search(*a):
    """Sorted raw matches."""
    return sorted(l for l in run("-r", *a)[1].splitlines() if l)


def expect(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


# a one-folder, one-message IMAP server to speak over a pipe: IMAPD % (UIDVALIDITY, path of the message)
IMAPD = '''import sys
val, path = %r, %r
o, i = sys.stdout.buffer, sys.stdin.buffer
def say(s):
    o.write(s if isinstance(s, bytes) else (s + "\\r\\n").encode())
    o.flush()
say("* PREAUTH [CAPABILITY IMAP4rev1 LITERAL+] ready")
while 1:
    l = i.readline().decode().split()
    if not l:
        break
    t, c = l[0], " ".join(l[1:]).upper()
    if c.startswith("CAPABILITY"):
        say("* CAPABILITY IMAP4rev1 LITERAL+")
    elif c.startswith(("EXAMINE", "SELECT")):
        say("* FLAGS ()"); say("* 1 EXISTS"); say("* OK [UIDVALIDITY " + val + "] x")
    elif c.startswith("UID FETCH") and "BODY" in c:
        d = open(path, "rb").read()
        say(b"* 1 FETCH (UID 5 BODY[] {%%d}\\r\\n" %% len(d) + d + b")\\r\\n")
    elif c.startswith("UID FETCH"):
        say("* 1 FETCH (UID 5 FLAGS ())")
    elif c.startswith("LOGOUT"):
        say("* BYE x")
    say(t + " OK done")
    if c.startswith("LOGOUT"):
        break
'''
