"""Pieces shared by the checks."""
import os
from . import mail
from .core import Violation


def tier_n(quick, thorough):
    return thorough if os.environ.get("VERIF_TIER") == "thorough" else quick


def fill_store(ctx, st, n, voc, kinds=("maildir", "mh", "mbox"), big=False, midpool=None, nmax_mbox=12, folders=2,
               comp=(None, None, None, "gz", "bz2", "xz"), uid0=0):
    """n random messages spread over folders; returns them."""
    rng = ctx.rng
    msgs = [mail.random_msg(rng, voc, "u%d" % (uid0 + i), midpool if midpool is not None else [], big=big) for i in range(n)]
    rest = list(msgs)
    pool = []
    k = 0
    while rest:
        kind = rng.choice(kinds)
        take = min(len(rest), rng.randint(1, nmax_mbox))
        part, rest = rest[:take], rest[take:]
        if kind == "maildir":
            f = "md%d" % rng.randint(0, folders - 1)
            for m in part:
                st.add_maildir_msg(f, m, sub=None if rng.random() < .9 else "new")
        elif kind == "mh":
            f = "mh%d" % rng.randint(0, folders - 1)
            for m in part:
                st.add_mh_msg(f, m)
        else:
            c = rng.choice(comp)
            mmdf = rng.random() < .25
            st.write_mbox("box%d%s%s" % (k, "m" if mmdf else "", "." + c if c else ""), part, comp=c, mmdf=mmdf)
            k += 1
    return msgs


def compare(ctx, st, argv, got, want_msgs, what="search", universe=None):
    """Set comparison with no duplicates allowed."""
    want = {m.key(): m for m in want_msgs}
    gs = set(got)
    if len(gs) != len(got):
        dup = sorted(str(g) for g in gs if got.count(g) > 1)
        raise Violation("duplicate", "%s %s lists a message more than once" % (what, argv), {"dup": dup[:5], "rc": open(st.rc, encoding="latin-1").read()})
    if gs != set(want):
        missing = sorted(set(want) - gs, key=str)
        extra = sorted(gs - set(want), key=str)
        det = {"argv": argv, "missing": [str(x) for x in missing[:5]], "extra": [str(x) for x in extra[:5]],
               "n_expected": len(want), "n_got": len(gs), "rc": open(st.rc, encoding="latin-1").read()}
        if missing:
            det["missing_message"] = want[missing[0]].render().decode("latin-1")[:3000]
        for m in (universe or []):
            if extra and m.key() == extra[0]:
                det["extra_message"] = m.render().decode("latin-1")[:3000]
        raise Violation("wrong-result:" + what, "%s %s: %d missing, %d extra" % (what, argv, len(missing), len(extra)), det)
