"""Random scanner descriptions for dfasyn: their text, and what they mean (dfasyn.5) worked out independently."""

KEYWORDS = {"state", "abbrev", "define", "tokens", "prefix", "block", "type", "entry", "entrystruct", "attr", "early", "defattr", "tag", "group"}
PREC = {"?": 0, "|": 1, "^": 2, "&": 3, "!": 4, "t": 5}


# ---- character classes
def char_text(r, c):
    """One of the ways to write character number c inside square brackets."""
    ways = ["\\x%02x" % c, "\\x%02X" % c, "\\%03o" % c]
    if c <= 26:
        ways += ["^" + chr(64 + c)] * 2
    named = {10: "\\n", 13: "\\r", 12: "\\f", 9: "\\t", 0x5c: "\\\\", 0x2d: "\\-", 0x5d: "\\]", 0x5e: "\\^"}
    if c in named:
        ways += [named[c]] * 4
    elif c >= 32 and c != 127:
        ways += [chr(c)] * 8
    return r.choice(ways)


EDGE = [0, 1, 9, 10, 13, 30, 31, 32, 33, 34, 35, 45, 47, 48, 57, 63, 64, 65, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 122, 126, 127, 128, 159, 160, 191, 223, 224, 254, 255]


def simple_class(r, pool):
    s, t, a0 = set(), [], None
    for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
        a = r.choice(pool) if r.random() < .8 else r.choice(EDGE)
        a0 = a0 if t else a
        if r.random() < .3:
            b = min(255, a + r.choice([0, 1, 2, 10, 31, 32, 64, 255])) if r.random() < .7 else r.choice([x for x in EDGE if x >= a])
            s |= set(range(a, b + 1))
            t.append(char_text(r, a) + "-" + char_text(r, b))
        else:
            s.add(a)
            t.append(char_text(r, a))
    if t[0][0] == "^":                   # (would be read as the start of a negated class)
        t[0] = "\\x%02x" % a0 + t[0][2:]
    if r.random() < .15:
        return frozenset(range(256)) - s, "[^" + "".join(t) + "]"
    return frozenset(s), "[" + "".join(t) + "]"


def char_class(r, pool):
    s, t = simple_class(r, pool)
    k = r.random()
    if k < .15:
        return frozenset(range(256)) - s, r.choice(["~", "!"]) + t
    if k < .35:
        s2, t2 = simple_class(r, pool)
        return s - s2, t + r.choice(["~", " ~ ", "!"]) + t2
    return s, t


# ---- boolean expressions over tags
def rand_expr(r, tags, depth):
    k = r.random()
    if depth == 0 or k < .25:
        return ("t", r.choice(tags))
    if k < .45:
        return ("!", rand_expr(r, tags, depth - 1))
    if k < .9:
        return (r.choice("&|^"), rand_expr(r, tags, depth - 1), rand_expr(r, tags, depth - 1))
    return ("?",) + tuple(rand_expr(r, tags, depth - 1) for _ in range(3))


def expr_text(r, e, need=0):
    p = PREC[e[0]]
    if e[0] == "t":
        s = e[1]
    elif e[0] == "!":
        s = r.choice("!~") + expr_text(r, e[1], 4)
    elif e[0] == "?":
        s = expr_text(r, e[1], 1) + " ? " + expr_text(r, e[2], 0) + " : " + expr_text(r, e[3], 0)
    else:
        s = expr_text(r, e[1], p) + r.choice(["", " "]) + e[0] + r.choice(["", " "]) + expr_text(r, e[2], p + 1)
    return "(" + s + ")" if p < need or r.random() < .05 else s


def expr_value(e, on, derived):
    o = e[0]
    if o == "t":
        return expr_value(derived[e[1]], on, derived) if e[1] in derived else e[1] in on
    if o == "!":
        return not expr_value(e[1], on, derived)
    a = expr_value(e[1], on, derived)
    if o == "?":
        return expr_value(e[2] if a else e[3], on, derived)
    b = expr_value(e[2], on, derived)
    return (a and b) if o == "&" else (a or b) if o == "|" else a != b


# ---- the description
class Desc:
    """tokens, abbrevs {name: [stimulus]}, blocks [(name, instances, states)], entries, groups."""

    def __init__(self, r, shape="any"):
        self.r, self.shape = r, shape
        self.tokens, self.abbrevs, self.blocks, self.derived = [], [], [], {}
        self.prefix = r.choice([None, None, "px"])
        self.passthrough = r.random() < .5
        nt = r.choice([0, 0, 1, 3, 8]) if shape != "wide" else r.choice([0, 250, 260, 300])
        self.tokens = ["TK%d" % i for i in range(nt)]
        self.pool = r.sample(range(256), r.choice([1, 2, 4])) + r.sample(EDGE, r.choice([1, 3])) + [97, 98]
        self.text_parts = []
        self.nstates = 0
        self.tags = ["T%d" % i for i in range(r.choice([1, 2, 4, 7]))]
        self.tail = "_" * r.choice([250, 500, 900, 1020, 2000]) if r.random() < .06 else ""      # long names
        self.make()

    # stimuli: ("tok", n) ("cls", set) ("abb", index) ("eps",) ("inl", block index, in, out)
    def stimulus(self, blocks_ok, nabb):
        r = self.r
        k = r.random()
        if self.tokens and k < (.35 if self.shape != "wide" else .8):
            i = r.randrange(len(self.tokens))
            return ("tok", i), self.tokens[i]
        if nabb and k < .5:
            i = r.randrange(nabb)
            name = self.abbrevs[i][0]
            last = max(j for j in range(nabb) if self.abbrevs[j][0] == name)
            return ("abb", last), name
        if blocks_ok and k < .62:
            b = r.randrange(blocks_ok)
            names = self.state_names(b)
            i, o = r.choice(names), r.choice(names)
            return ("inl", b, i, o), "<%s:%s->%s>" % (self.blocks[b][0], i, o)
        if k < .66:
            return ("eps",), ""
        s, t = char_class(r, self.pool)
        return ("cls", s), t

    def stimuli(self, blocks_ok, nabb):
        n = self.r.choice([1, 1, 1, 2, 3]) if self.shape != "wide" else self.r.choice([1, 5, 40])
        l = [self.stimulus(blocks_ok, nabb) for _ in range(n)]
        return [a for a, _ in l], " | ".join(t for _, t in l)

    def state_names(self, b):
        name, inst, states = self.blocks[b]
        return [s[0] for s in states] or ["in"]

    def make(self):
        r = self.r
        out = []
        if self.tokens:
            k = r.randint(0, len(self.tokens))
            out.append("tokens " + " ".join(self.tokens[:k]) if k else "")
            if k < len(self.tokens):
                out.append(r.choice(["tokens ", "Tokens ", "TOKENS "]) + "\n ".join(self.tokens[k:]))
        nb = r.choice([1, 1, 2, 3, 4]) if self.shape != "huge" else 1
        entries_style = r.choice(["none", "none", "one", "many"])
        self.entries = []
        for bi in range(nb):
            na = 0 if self.shape == "huge" else r.choice([0, 1, 2]) if self.shape != "abbrevs" else r.choice([10, 30, 40])
            for _ in range(na):
                ab, t = self.stimuli(bi, len(self.abbrevs))
                name = "AB%d" % len(self.abbrevs)
                if self.abbrevs and r.random() < .1:
                    name = r.choice(self.abbrevs)[0]         # redefined: later uses mean the new one
                self.abbrevs.append((name, ab))
                out.append("%s %s = %s" % (r.choice(["abbrev", "Abbrev", "ABBREV"]), name, t))
            out.append(self.block(bi, nb, entries_style))
        if self.prefix:
            out.insert(r.randrange(len(out) + 1), "prefix " + self.prefix)
        self.entrystruct = self.entries and r.random() < .3
        if self.entrystruct:
            out.append("%s Entries_t theentries" % r.choice(["entrystruct", "EntryStruct", "ENTRYSTRUCT", "Entrystruct"]))
        out.append(self.attributes())
        if self.passthrough:
            out.insert(0, "%{\n/* [ text passed through ] \" # { */\nenum { " + ", ".join("%s=%d" % x for x in sorted(self.values.items())) + " };\n%}")
        self.text = "\n".join(x for x in out if x) + "\n"
        if r.random() < .2:
            self.text = self.text.replace("\n", "  # a comment: block { state \"\n", 1) if not self.passthrough else self.text

    def huge(self):
        """One deterministic block with so many transitions that positions in the tables need more than 16 bits."""
        r = self.r
        n, w = r.choice([300, 340]), r.choice([230, 256])
        chars = sorted(r.sample(range(256), w))
        lines, states = ["block huge {"], []
        for i in range(n):
            lines.append("  state s%d" % i)
            trans = []
            if r.random() < .4:
                tg = [r.choice(self.tags)]
                lines.append("    = %s" % tg[0])
                trans.append(([[("eps",)]], None, tg))
            for c in chars:
                d = "s%d" % r.randrange(n)
                trans.append(([[("cls", frozenset([c]))]], [d], None))
                lines.append("    [\\x%02x] -> %s" % (c, d))
            states.append(("s%d" % i, trans))
        lines.append("}")
        self.blocks.append(("huge", [], states))
        self.last_state = (0, states[-1][0])
        return "\n".join(lines)

    def block(self, bi, nb, entries_style):
        r = self.r
        if self.shape == "huge":
            return self.huge()
        name = "blk%d" % bi + self.tail
        inst = []
        lines = ["%s %s {" % (r.choice(["block", "Block", "BLOCK"]), name)]
        if bi:
            for i in range(r.choice([0, 0, 1, 2])):
                m = r.randrange(bi)
                inst.append(("i%d" % i + self.tail, m))
                lines.append("  i%d%s : %s" % (i, self.tail, self.blocks[m][0]))
        n = r.choice([1, 2, 3, 5, 8])
        names = ["s%d" % i + self.tail for i in range(n)]
        if r.random() < .3:
            names.append("undeclared")
        for iname, m in inst:
            for s in self.state_names(m):
                names.append(iname + "." + s)
        states = []
        self.blocks.append((name, inst, states))
        decl = [x for x in names if x != "undeclared" and (x[0] == "s" or r.random() < .6)]
        if r.random() < .2:
            decl.append(r.choice(decl))          # declared twice: merged
        r.shuffle(decl)
        dests = names
        for s in decl:
            ent = None
            if entries_style == "one" and bi == nb - 1 and not self.entries or entries_style == "many" and r.random() < .3 or \
               entries_style == "many" and bi == nb - 1 and s == decl[-1] and not self.entries:
                ent = "ent%d" % len(self.entries)
                self.entries.append((ent, bi, s))
            lines.append("  %s %s%s" % (r.choice(["state", "State", "STATE"]), s, " %s %s" % (r.choice(["entry", "Entry", "ENTRY"]), ent) if ent else ""))
            trans = []
            for _ in range(r.choice([0, 1, 1, 2, 3]) if self.shape != "dense" else r.choice([3, 8, 20])):
                seq = [self.stimuli(bi, len(self.abbrevs)) for _ in range(r.choice([1, 1, 1, 2, 3]))]
                st = " ; ".join(t for _, t in seq)
                if r.random() < .3:
                    tg = r.sample(self.tags, min(len(self.tags), r.choice([1, 1, 2])))
                    trans.append(([a for a, _ in seq], None, tg))
                    lines.append("    %s = %s" % (st, ", ".join(tg)))
                else:
                    ds = [r.choice(dests) for _ in range(r.choice([1, 1, 1, 2]))]
                    trans.append(([a for a, _ in seq], ds, None))
                    lines.append("    %s -> %s" % (st, ", ".join(ds)))
            states.append((s, trans))
        self.last_state = (bi, decl[-1])
        lines.append("}")
        return "\n".join(lines)

    def attributes(self):
        r = self.r
        out = []
        usable = list(self.tags)
        for i in range(r.choice([0, 0, 1, 2])):
            e = rand_expr(r, usable, 2)
            self.derived["D%d" % i] = e
            usable.append("D%d" % i)
            out.append("tag D%d = %s" % (i, expr_text(r, e)))
        self.groups = []            # (name or None, [(attr, expr, early)], defattr)
        self.values = {}
        self.risky = r.random() < .15
        for gi in range(r.choice([1, 1, 2, 3])):
            gname = None if gi == 0 else "grp%d" % gi
            attrs, lines = [], []
            before = []
            for i in range(r.choice([1, 2, 3, 5])):
                if not self.passthrough:
                    an = str(10 * gi + i + 1)
                else:
                    an = "AT%d_%d" % (gi, i)
                    self.values[an] = r.randint(-5, 300)
                early = r.random() < .15
                e = ("t", r.choice(usable)) if r.random() < .6 else rand_expr(r, usable, r.choice([1, 2, 3]))
                if not self.risky:
                    for b in before:
                        e = ("&", e, ("!", b))
                before.append(e)
                if not attrs and not self.risky and i == 0 and r.random() < .3 and self.passthrough and self.tags[0] not in self.values:
                    an, e = self.tags[0], ("t", self.tags[0])
                    before[-1] = e
                    self.values[an] = r.randint(-5, 300)
                    lines.append("%sattr %s" % (r.choice(["early ", "Early "]) if early else "", an))
                else:
                    lines.append("%s%s %s : %s" % ("early " if early else "", r.choice(["attr", "Attr", "ATTR"]), an, expr_text(r, e)))
                attrs.append((an, e, early))
            k = r.random()
            if k < .1:
                da = attrs[0][0]
            elif self.passthrough:
                da = "NONE%d" % gi
                self.values[da] = r.randint(-9, 9)
            else:
                da = str(r.choice([0, 99, 100 + gi]))
            lines.append("%s %s" % (r.choice(["defattr", "DefAttr", "DEFATTR", "Defattr"]), da))
            if r.random() < .5:
                lines.append("type %s" % r.choice(["short", "int", '"signed int"', "long"]))
            r.shuffle(lines)
            out.append("\n".join(lines) if gname is None else "group %s {\n%s\n}" % (gname, "\n".join(lines)))
            self.groups.append((gname, attrs, da))
        r.shuffle(out)
        return "\n".join(out)

    # ---- meaning
    def elaborate(self, bi):
        """name -> [edges [(symbols or None, dest)], tags]"""
        st = {}

        def get(n):
            if n not in st:
                st[n] = [[], set()]
                self.nstates += 1
                if self.nstates > 1200:
                    raise TooBig()
            return st[n]

        def put(prefix, b):
            for n, (edges, tags) in self.elaborate(b).items():
                s = get(prefix + "." + n)
                s[0] += [(sym, prefix + "." + d) for sym, d in edges]
                s[1] |= tags
        fresh = [0]

        def add(src, alts, dst):
            get(dst)
            self.nedges += len(alts)
            if self.nedges > 100000:
                raise TooBig()
            for a in alts:
                if a[0] == "eps":
                    get(src)[0].append((None, dst))
                elif a[0] == "tok":
                    get(src)[0].append((frozenset([256 + a[1]]), dst))
                elif a[0] == "cls":
                    get(src)[0].append((a[1], dst))
                elif a[0] == "abb":
                    add(src, self.abbrevs[a[1]][1], dst)
                else:
                    fresh[0] += 1
                    p = "%inl" + str(fresh[0])
                    put(p, a[1])
                    get(src)[0].append((None, p + "." + a[2]))
                    get(p + "." + a[2])
                    get(p + "." + a[3])[0].append((None, dst))
        name, inst, states = self.blocks[bi]
        for iname, m in inst:
            put(iname, m)
        for s, trans in states:
            get(s)
            for seq, dests, tags in trans:
                cur = s
                for alts in (seq[:-1] if dests else seq):
                    fresh[0] += 1
                    n = "%int" + str(fresh[0])
                    add(cur, alts, n)
                    cur = n
                if dests:
                    for d in dests:
                        add(cur, seq[-1], d)
                else:
                    get(cur)[1].update(tags)
        return st

    def automaton(self, limit):
        """Subset automaton over 256 characters + tokens: (entries, states [attrs, early, {symbol class: next}], symbol -> class, live)."""
        want = [(e, b, s) for e, b, s in self.entries] or [("", self.last_state[0], self.last_state[1])]
        self.nstates = 0
        blocks = {}
        for b in range(len(self.blocks)):
            self.nstates = self.nedges = 0
            st = self.elaborate(b)              # (also the blocks that are not used: dfasyn builds them all)
            if any(b == x for _, x, _ in want):
                blocks[b] = st
        ids, edges, tags = {}, [], []
        for b, st in blocks.items():
            for n in st:
                ids[b, n] = len(ids)
        edges = [[] for _ in ids]
        eps = [[] for _ in ids]
        tags = [set() for _ in ids]
        sets = {}
        for b, st in blocks.items():
            for n, (ed, tg) in st.items():
                i = ids[b, n]
                tags[i] = tg
                for sym, d in ed:
                    if sym is None:
                        eps[i].append(ids[b, d])
                    else:
                        edges[i].append((sets.setdefault(sym, len(sets)), ids[b, d]))
        self.uses_chars = any(min(s, default=999) < 256 for s in sets)
        # symbols that no set tells apart
        sig, classes = {}, []
        nsym = 256 + len(self.tokens)
        member = [[] for _ in range(nsym)]
        for s, k in sets.items():
            for x in s:
                member[x].append(k)
        sym_class = []
        for x in range(nsym):
            t = frozenset(member[x])
            if t not in sig:
                sig[t] = len(classes)
                classes.append(t)
            sym_class.append(sig[t])

        if len(ids) * (len(self.tokens) + len(classes)) > 300000 or len(ids) > 1500:      # (dfasyn's tables would be too large)
            raise TooBig()

        def closure(s):
            s, todo = set(s), list(s)
            while todo:
                for d in eps[todo.pop()]:
                    if d not in s:
                        s.add(d)
                        todo.append(d)
            return frozenset(s)
        states, index, todo = [], {}, []
        self.ambiguous = False

        def state(s):
            if s not in index:
                if len(states) >= limit:
                    raise TooBig()
                index[s] = len(states)
                on = set()
                for i in s:
                    on |= tags[i]
                attrs, early, nondef = [], False, False
                for g, al, da in self.groups:
                    act = [(a, ea) for a, e, ea in al if expr_value(e, on, self.derived)]
                    if len(act) > 1:
                        self.ambiguous = True
                    if act:
                        early |= act[0][1]
                    attrs.append(self.value(act[0][0] if act else da))
                    nondef |= bool(act) and act[0][0] != da
                states.append([tuple(attrs), early, {}, nondef])
                todo.append((s, index[s]))
            return index[s]
        entries = [(e, state(closure([ids[b, s]]))) for e, b, s in want]
        while todo:
            s, k = todo.pop()
            if states[k][1]:
                continue
            by = {}
            for i in s:
                for st, d in edges[i]:
                    by.setdefault(st, set()).add(d)
            for c, t in enumerate(classes):
                n = set()
                for st in t:
                    n |= by.get(st, set())
                if n:
                    states[k][2][c] = state(closure(n))
        live = [x[3] for x in states]
        again = True
        while again:
            again = False
            for k, x in enumerate(states):
                if not live[k] and any(live[d] for d in x[2].values()):
                    live[k] = again = True
        return entries, states, sym_class, live

    def value(self, a):
        return self.values[a] if a in self.values else int(a)


class TooBig(Exception):
    pass
