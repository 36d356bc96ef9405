"""Grammars of nom parsers, and the equivalence of the languages they accept.

A parser's meaning is kept as three languages of whole inputs: S(p, K) - p succeeds and what is left is
in K -, F(p) - p fails and the caller may try something else -, H(p) - p fails for good.  They are
Boolean combinations of "next character is in C, and then ..." (ordered choice is S(a) or F(a) and S(b),
repetition a fixpoint), kept as decision diagrams whose derivatives by characters are again such
diagrams.  Two grammars are compared by exploring their derivatives side by side.

Recursion (a logical expression inside a logical expression, an argument inside an argument) is cut by
letters that stand for any text of that kind; the bodies are compared separately (induction)."""
import functools, re
from terms import *
from facts import Facts
import engine
from engine import TYPED
import load

RES = "core::result::Result"
OPT = "core::option::Option"
NERR = "nom::internal::Err"
TOP = 0x10FFFF
LETTER = 0x200000


class Giveup(Exception):
    pass


# -------------------------------------------------------------------- character sets
class Cs:
    """A set of characters (and letters) as sorted disjoint intervals."""
    table = {}

    def __new__(cls, ivs):
        out = []
        for lo, hi in sorted(ivs):
            if lo > hi:
                continue
            if out and lo <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(out[-1][1], hi))
            else:
                out.append((lo, hi))
        k = tuple(out)
        r = cls.table.get(k)
        if r is None:
            r = object.__new__(cls)
            r.ivs = k
            cls.table[k] = r
        return r

    def __or__(self, o):
        return Cs(self.ivs + o.ivs)

    def __and__(self, o):
        return Cs([(max(a, c), min(b, d)) for a, b in self.ivs for c, d in o.ivs if max(a, c) <= min(b, d)])

    def minus(self, o):
        out = list(self.ivs)
        for c, d in o.ivs:
            nxt = []
            for a, b in out:
                if d < a or b < c:
                    nxt.append((a, b))
                    continue
                if a < c:
                    nxt.append((a, c - 1))
                if d < b:
                    nxt.append((d + 1, b))
            out = nxt
        return Cs(out)

    def __bool__(self):
        return bool(self.ivs)

    def __contains__(self, c):
        return any(a <= c <= b for a, b in self.ivs)

    def size(self):
        return sum(b - a + 1 for a, b in self.ivs)

    def pick(self):
        """A readable member."""
        best = None
        for a, b in self.ivs:
            for lo, hi in ((0x61, 0x7a), (0x30, 0x39), (0x41, 0x5a), (0x21, 0x7e), (0x20, 0x20), (0, TOP)):
                if max(a, lo) <= min(b, hi):
                    k = ((0x61, 0x30, 0x41, 0x21, 0x20, 0).index(lo), max(a, lo))
                    best = k if best is None else min(best, k)
                    break
        return best[1] if best else self.ivs[0][0]

    def single(self):
        return self.ivs[0][0] if len(self.ivs) == 1 and self.ivs[0][0] == self.ivs[0][1] else None

    def __repr__(self):
        return "[" + "".join(chr_name(a) if a == b else chr_name(a) + "-" + chr_name(b) for a, b in self.ivs) + "]"


def chr_name(c):
    if c >= LETTER:
        return LETTERS_REV.get(c, "?")
    return chr(c) if 0x20 <= c < 0x7f else "\\u{%x}" % c


LETTERS, LETTERS_REV = {}, {}


def letter(name):
    if name not in LETTERS:
        LETTERS[name] = LETTER + len(LETTERS)
        LETTERS_REV[LETTERS[name]] = "\u00ab" + name + "\u00bb"
    return LETTERS[name]


ANY = Cs([(0, 0xD7FF), (0xE000, TOP)])
NONE_ = Cs([])
EVERY = Cs([(0, 0xD7FF), (0xE000, TOP), (LETTER, LETTER + 63)])


def cs(*xs):
    return Cs([(ord(x[0]), ord(x[-1])) for x in xs])


DIGIT = cs("09")
LOWER, UPPER = cs("az"), cs("AZ")
ALPHA = LOWER | UPPER
HEX = DIGIT | cs("af") | cs("AF")
BLANK = cs(" ", "\t", "\r", "\n")
SP = cs(" ", "\t")

NOM_SETS = {"multispace": BLANK, "space": SP, "digit": DIGIT, "alpha": ALPHA, "alphanumeric": ALPHA | DIGIT,
            "hex_digit": HEX, "oct_digit": cs("07")}


# -------------------------------------------------------------------- decision diagrams
class Bdd:
    def __init__(self):
        self.node = {}            # (v, hi, lo) -> id
        self.of = [None, None]
        self.atoms = []           # atom number -> atom
        self.num = {}
        self.memo = {}

    def atom(self, a):
        n = self.num.get(a)
        if n is None:
            n = self.num[a] = len(self.atoms)
            self.atoms.append(a)
        return self.mk(n, 1, 0)

    def mk(self, v, hi, lo):
        if hi == lo:
            return hi
        k = (v, hi, lo)
        r = self.node.get(k)
        if r is None:
            r = self.node[k] = len(self.of)
            self.of.append(k)
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.of[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x > 1 and self.of[x][0] == v:
                return self.of[x][1 if b else 2]
            return x
        r = self.mk(v, self.ite(co(f, 1), co(g, 1), co(h, 1)), self.ite(co(f, 0), co(g, 0), co(h, 0)))
        self.memo[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x > 1 and x not in seen:
                seen.add(x)
                v, h, l = self.of[x]
                out.add(v)
                st += [h, l]
        return out

    def map(self, f, sub, memo):
        """Replace every atom by sub(atom)."""
        if f <= 1:
            return f
        r = memo.get(f)
        if r is None:
            v, h, l = self.of[f]
            r = memo[f] = self.ite(sub(self.atoms[v]), self.map(h, sub, memo), self.map(l, sub, memo))
        return r


# -------------------------------------------------------------------- languages
class Lang:
    """Languages by their first character: a node says whether (and with which result) the empty word
    belongs to it and, per class of characters, what may follow: a diagram over suspended
    continuations.  0 is the empty language, 1 the set of all words."""

    def __init__(self):
        self.D = Bdd()
        self.of, self.num = [], {}
        self.memo = {}
        self.mk(0, (), 0)
        self.mk(1, (), 1)

    def mk(self, eps, trans, other):
        groups = {}
        for c, f in trans:
            if f != other and c:
                groups[f] = groups[f] | c if f in groups else c
        k = (eps, tuple(sorted(((c, f) for f, c in groups.items()), key=lambda x: x[0].ivs)), other)
        r = self.num.get(k)
        if r is None:
            r = self.num[k] = len(self.of)
            self.of.append(k)
        return r

    def atom(self, a):
        if a[0] == "eps":
            return self.mk(1 if a[2] is None else self.D.atom(("tag",) + a[2:]), (), 0)
        c, th = a[1], a[2]
        return self.mk(0, ((c, 1 if th is None else self.D.atom(th)),), 0)

    def pointwise(self, name, op, x, y):
        if x > y:
            x, y = y, x
        k = (name, x, y)
        r = self.memo.get(k)
        if r is None:
            ex, tx, ox = self.of[x]
            ey, ty, oy = self.of[y]
            out = []
            rest_y = list(ty)
            for c, f in tx:
                left = c
                for d, g in ty:
                    i = left & d
                    if i:
                        out.append((i, op(f, g)))
                        left = left.minus(d)
                if left:
                    out.append((left, op(f, oy)))
            allx = Cs([iv for c, _ in tx for iv in c.ivs])
            for d, g in ty:
                left = d.minus(allx)
                if left:
                    out.append((left, op(ox, g)))
            r = self.memo[k] = self.mk(op(ex, ey), out, op(ox, oy))
        return r

    def AND(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1 or a == b:
            return b
        if b == 1:
            return a
        return self.pointwise("and", self.D.AND, a, b)

    def OR(self, a, b):
        if a == 1 or b == 1:
            return 1
        if a == 0 or a == b:
            return b
        if b == 0:
            return a
        return self.pointwise("or", self.D.OR, a, b)

    def NOT(self, a):
        k = ("not", a)
        r = self.memo.get(k)
        if r is None:
            e, t, o = self.of[a]
            N = self.D.NOT
            r = self.memo[k] = self.mk(N(e), [(c, N(f)) for c, f in t], N(o))
        return r

    def node(self, f):
        """The node of a diagram over suspended continuations."""
        if f <= 1:
            return f
        k = ("node", f)
        r = self.memo.get(k)
        if r is None:
            v, h, l = self.D.of[f]
            n = evaluate(self.D.atoms[v])
            r = self.memo[k] = self.OR(self.AND(n, self.node(h)), self.AND(self.NOT(n), self.node(l)))
        return r

    def step(self, f, c):
        """The derivative of a diagram by a character."""
        if f <= 1:
            return f
        _, trans, other = self.of[self.node(f)]
        for d, g in trans:
            if c in d:
                return g
        return other


# -------------------------------------------------------------------- texts with a known form
class Dfa:
    """A small automaton on character classes: start 0, delta[state] = [(Cs, state)], accepting."""

    def __init__(self, delta, acc):
        self.delta, self.acc = delta, acc


@functools.lru_cache(None)
def number_dfa():
    d, z, nz = DIGIT, cs("0"), cs("19")
    D = {0: [(cs("-"), 1), (z, 2), (nz, 3)], 1: [(z, 2), (nz, 3)], 2: [(cs("."), 4), (cs("e") | cs("E"), 6)],
         3: [(d, 3), (cs("."), 4), (cs("e") | cs("E"), 6)], 4: [(d, 5)], 5: [(d, 5), (cs("e") | cs("E"), 6)],
         6: [(cs("+") | cs("-"), 7), (d, 8)], 7: [(d, 8)], 8: [(d, 8)]}
    return Dfa(D, {2, 3, 5, 8})


SIGNED = {"parseint:i%d" % b: 2 ** (b - 1) - 1 for b in (8, 16, 32, 64, 128)}


def symmetric_limit(c, n, most):
    """L such that c is -L <= n <= L, for numbers n up to `most` from zero."""
    for k in sorted({abs(x.a[0].a[0]) for x in all_terms(c) if x.op == "ge0" and x.a[0].op == "lin"}):
        for lim in (k, k - 1):
            if not 0 < lim <= most:
                continue
            f = Facts().assume(ge0(add(n, num(lim))), True).assume(ge0(sub(num(lim), n)), True)
            if f.simp(c) is TRUE and Facts().assume(ge0(sub(n, num(lim + 1))), True).simp(c) is FALSE \
                    and Facts().assume(ge0(sub(num(-lim - 1), n)), True).simp(c) is FALSE:
                return lim
    return None


@functools.lru_cache(None)
def int_dfa(limit, leading_zeros=True, plus=True):
    """Decimal texts `str::parse::<iN>` reads as a value in -limit..limit."""
    s = str(limit)
    n = len(s)
    D = {0: [(cs("-") | (cs("+") if plus else NONE_), "s"), (cs("0"), "z"), ], "s": [(cs("0"), "z")], "z": [(cs("0"), "z")]}
    # states: (k, cmp) after k significant digits, cmp in '<','=','>' with the prefix of the limit
    acc = {"z"}

    def first(q):
        for c in "123456789":
            m = "=" if c == s[0] else "<" if c < s[0] else ">"
            D[q].append((cs(c), (1, m)))
    for q in (0, "s", "z"):
        first(q)
    for k in range(1, n + 1):
        for m in "<=>":
            st = (k, m)
            if k < n or m != ">":
                acc.add(st)
            D[st] = []
            if k == n:
                continue
            if m != "=":
                D[st].append((DIGIT, (k + 1, m)))
            else:
                for c in "0123456789":
                    D[st].append((cs(c), (k + 1, "=" if c == s[k] else "<" if c < s[k] else ">")))
    return Dfa(D, acc)


# -------------------------------------------------------------------- continuations
class K:
    pass


class Grammar:
    """The grammar of one tree (functions of prog), sharing diagrams with another through `bdd`."""

    def __init__(self, cx, bdd, mode=None):
        import engine
        self.cx, self.ev, self.prog, self.bdd = cx, engine.Engine(cx.prog), cx.prog, bdd
        self.parsers = {f.id for f in self.prog.fns.values() if f.kind != "Closure" and parser_output(f) is not None}
        self.types = {type_name(parser_output(self.prog.fns[i])) for i in self.parsers}
        self.integers = {f.id for f in self.prog.fns.values() if f.kind != "Closure" and f.name == "from_str"
                         and f.self_head and load.short(f.self_head) == "Integer"}
        self.ev.anchors = set(cx.engine.anchors) | self.parsers | self.integers
        self.mode = mode                 # None: acceptance only; else the ADT whose values are compared
        self.store = {}
        self.parted, self.sites, self.preds, self.keep = {}, {}, {}, set()
        self.bodies = {}
        self.memoS, self.memoF, self.memoH = {}, {}, {}
        self.ks = {}
        self.thunks = {}
        self.classes = {}                # variable -> class of characters it stands for
        self.listfacts = {}
        self.called = set()
        self.cut = {}                    # function id -> letter name
        self.depth = 0
        self.busy = set()
        self.root = self.ev.new_frame(next(iter(self.prog.fns.values())), {})

    # ------------------------------------------------------------ evaluation of parser code
    def session(self, fn):
        ev = self.ev
        saved = (getattr(ev, "st", None), ev.stack)
        from engine import State
        ev.st = State(dict(self.store), Facts(), ())
        ev.stack = [self.root]
        try:
            made = getattr(ev, "made", 0)
            r = fn()
            if getattr(ev, "made", 0) != made or not isinstance(r, T) or not all(x.op in PURE for x in all_terms(r)):
                self.store.update(ev.st.store)       # (places the result still refers to)
            return r
        finally:
            ev.st, ev.stack = saved

    def apply(self, f, args):
        """The value of calling the function value f."""
        if f.op == "fn" and f.a[0].endswith("{constructor#0}") or f.op != "clo" and f.op != "fn":
            pass
        from engine import Diverge
        try:
            return self.session(lambda: self.ev.simp(self.ev.call_value(f, list(args))))
        except Diverge:
            return BOT

    def run_local(self, fid, args):
        from engine import Diverge
        if fid is None:
            raise Giveup("no body")
        fn = self.prog.fns[fid]
        self.called.add(fid)
        try:
            return self.session(lambda: self.ev.simp(self.ev.run_fn(fn, list(args), {})))
        except Diverge:
            return BOT

    # ------------------------------------------------------------ parsers
    def head(self, p):
        """(name, arguments) of a parser value."""
        if p.op == "app":
            n = p.a[0].lstrip("?") if isinstance(p.a[0], str) else ""
            return n, list(p.a[1:])
        if p.op == "fn":
            return p.a[0], None
        return p.op, None

    def local(self, p):
        if p.op == "fn" and p.a[0] in self.prog.fns:
            return p.a[0]
        if p.op == "fn" and p.a[1] in self.prog.fns:
            return p.a[1]
        return None

    def form(self, p):
        """The parser as one of a few primitive forms."""
        r = self.bodies.get(("form", p))
        if r is None:
            r = self.bodies[("form", p)] = self._form(p)
        return r

    def lits(self, t):
        if t.op == "lit":
            return t.a[0]
        if t is NIL:
            return ""
        if is_num(t):
            return chr(t.a[0])
        if t.op == "chr":
            return t.a[0]
        raise Giveup("not a constant text: " + show(t)[:80])

    def _form(self, p):
        if p.op == "tup":
            return ("seq", list(p.a), "tup")
        if p.op == "const" and p.a[0] == "static":
            return self._form(self.session(lambda: self.ev.force_static(p)))
        n, a = self.head(p)
        if self.local(p) is not None or p.op == "clo" or p.op == "app" and p.a[0] == "localcall":
            return ("body", p)
        if p.op == "app" and n == "letter":
            return ("class", Cs([(letter(a[0]),) * 2]))
        if p.op == "app" and a is not None and n == "call":
            raise Giveup("a parser made by an unknown function")
        if not n.startswith("nom::"):
            if n.startswith("core::str") or n.startswith("alloc::"):
                raise Giveup("not a parser: " + n)
        b = n.rsplit("::", 1)[-1]
        if a is None:
            for base, c in NOM_SETS.items():
                if b == base + "0":
                    return ("while", c, 0, None)
                if b == base + "1":
                    return ("while", c, 1, None)
            if b == "anychar":
                return ("class", ANY)
            if b == "eof":
                return ("eof",)
            if b == "rest":
                return ("while", ANY, 0, None)
            if b in ("newline", "tab"):
                return ("class", cs("\n" if b == "newline" else "\t"))
            if b in ("fail",):
                return ("fail",)
            raise Giveup("parser " + n)
        if n.startswith("nom::internal::Parser::") or n.startswith("nom::internal::") and b in ("map", "and", "or"):
            if b == "map":
                return ("map", a[0], a[1])
            if b == "and":
                return ("seq", [a[0], a[1]], "tup")
            if b == "or":
                return ("alt", [a[0], a[1]])
            if b == "into":
                return self._form(a[0])
            raise Giveup("parser " + n)
        if b == "char" and "complete" in n:
            return ("class", cs(self.lits(a[0])))
        if b == "tag":
            s = self.lits(a[0])
            return ("seq", [mk("app", "nom::character::complete::char", num(ord(c))) for c in s], lit(s))
        if b in ("tag_no_case",):
            s = self.lits(a[0])
            raise Giveup("tag_no_case")
        if b == "one_of":
            return ("class", Cs([(ord(c), ord(c)) for c in self.lits(a[0])]))
        if b == "none_of":
            return ("class", ANY.minus(Cs([(ord(c), ord(c)) for c in self.lits(a[0])])))
        if b == "satisfy":
            return ("class", self.class_of(a[0]))
        if b in ("take_while", "take_while1"):
            return ("while", self.class_of(a[0]), int(b[-1] == "1"), None)
        if b in ("take_till", "take_till1"):
            return ("while", ANY.minus(self.class_of(a[0])), int(b[-1] == "1"), None)
        if b in ("is_a", "is_not"):
            c = Cs([(ord(x), ord(x)) for x in self.lits(a[0])])
            return ("while", c if b == "is_a" else ANY.minus(c), 1, None)
        if b == "take_while_m_n":
            if not (is_num(a[0]) and is_num(a[1])):
                raise Giveup("take_while_m_n with bounds that are not constant")
            return ("while", self.class_of(a[2]), a[0].a[0], a[1].a[0])
        if b == "take":
            if not is_num(a[0]):
                raise Giveup("take")
            return ("while", ANY, a[0].a[0], a[0].a[0])
        if b == "pair":
            return ("seq", a[:2], "tup")
        if b == "tuple":
            xs = a[0].a if len(a) == 1 and a[0].op == "tup" else a
            return ("seq", list(xs), "tup")
        if b == "preceded":
            return ("seq", a[:2], (1,))
        if b == "terminated":
            return ("seq", a[:2], (0,))
        if b == "delimited":
            return ("seq", a[:3], (1,))
        if b == "separated_pair":
            return ("seq", a[:3], (0, 2))
        if b == "alt":
            xs = a[0].a if a[0].op == "tup" else a
            return ("alt", list(xs))
        if b in ("opt", "not", "peek", "cut", "recognize", "all_consuming", "many0", "many1", "complete", "success",
                 "value", "map", "map_res", "map_opt", "verify", "context", "consumed", "into", "cond"):
            if b in ("complete", "into"):
                return self._form(a[0])
            if b == "context":
                return self.form(a[1])
            return (b,) + tuple(a)
        if b in ("fold_many0", "fold_many1"):
            return ("fold", a[0], a[1], a[2], int(b[-1]))
        if b in ("separated_list0", "separated_list1"):
            return ("seplist", a[0], a[1], int(b[-1]))
        if b in ("many0_count", "many1_count"):
            return ("fold", a[0], None, None, int(b[4]))
        raise Giveup("parser " + n)

    # ------------------------------------------------------------ predicates on characters
    def class_of(self, f):
        k = ("class", f)
        if k not in self.bodies:
            v = V("chr?")
            TYPED[v] = "char"
            if f.op in ("clo", "fn"):
                t = self.apply(f, [v])
            elif f.op == "lit" or f is NIL:
                t = None
                self.bodies[k] = Cs([(ord(x), ord(x)) for x in self.lits(f)])
            elif is_num(f) or f.op == "chr":
                c = ord(self.lits(f))
                t = None
                self.bodies[k] = Cs([(c, c)])
            else:
                raise Giveup("predicate " + show(f)[:80])
            if t is not None:
                self.bodies[k] = self.solve(t, v)
        return self.bodies[k]

    def solve(self, t, v):
        if t is TRUE:
            return ANY
        if t is FALSE or t is BOT:
            return NONE_
        if t.op == "ite":
            c = self.solve(t.a[0], v)
            return (c & self.solve(t.a[1], v)) | (ANY.minus(c) & self.solve(t.a[2], v))
        if t.op == "ge0":
            c, m = as_lin(t.a[0])
            if set(m) == {v}:
                k = m[v]
                if k > 0:       # k*x + c >= 0
                    return ANY & Cs([(max(0, -(c // k)), TOP)]) if c < 0 else ANY
                return ANY & Cs([(0, c // -k)]) if c >= 0 else NONE_
        if t.op == "app" and t.a[0] == "eq" and t.a[1] is v and is_num(t.a[2]):
            return Cs([(t.a[2].a[0],) * 2])
        if t.op == "app" and t.a[0] in UNICODE and t.a[1] is v:
            return ANY & unicode_class(t.a[0])
        raise Giveup("character predicate " + show(t)[:100])

    # ------------------------------------------------------------ diagrams
    def step(self, c, k, val, txt, n):
        if not c:
            return 0
        if k.mark is not None:
            r = 0
            for c2, q in k.mark[0].delta.get(k.mark[1], ()):
                if c & c2:
                    r = self.bdd.OR(r, self.bdd.atom(("step", c & c2, self.thunk(self.shift(k, q), val, txt, n))))
            return r
        return self.bdd.atom(("step", c, self.thunk(k, val, txt, n)))

    def thunk(self, k, val, txt, n):
        return (self, k, val, txt, n)

    def fails(self, c):
        """The next character is not in c (or there is none)."""
        return self.bdd.NOT(self.bdd.atom(("step", c, None)))


def V(n):
    return mk("var", n)


UNICODE = {"char_is_numeric": ("Nd", "Nl", "No"), "char_is_alphabetic": ("Lu", "Ll", "Lt", "Lm", "Lo", "Nl"),
           "char_is_alphanumeric": ("Lu", "Ll", "Lt", "Lm", "Lo", "Nl", "Nd", "No"), "char_is_control": ("Cc",),
           "char_is_lowercase": ("Ll",), "char_is_uppercase": ("Lu",), "char_is_whitespace": None}


@functools.lru_cache(None)
def unicode_class(name):
    import unicodedata
    cats = UNICODE[name]
    if cats is None:
        return Cs([(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029),
                   (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)])
    return Cs([(i, i) for i in range(TOP + 1) if unicodedata.category(chr(i)) in cats])


PARSER_CALLS = ("call", "?nom::internal::Parser::parse")
AST = ("Query", "QuerySegment", "Segment", "Selector", "Name", "Index", "Slice", "Filter", "LogicalOrExpr", "LogicalAndExpr",
       "BasicExpr", "ExistExpr", "ComparisonExpr", "Comparable", "ComparisonOperator", "Literal", "SingularQuery",
       "SingularQuerySegment", "FunctionExpr", "FunctionExprArg", "Integer", "Number", "QuerySegmentKind", "QueryKind")
TEXTUAL = ("str", "char", "String", "u8", "u16", "u32", "u64", "i64", "tuple", "Quotes")


def type_name(t):
    """Short name of the value type of a parser function's output, or None."""
    if t is None:
        return None
    while t[0] == "ref":
        t = t[2]
    if t[0] == "adt":
        return t[1].rsplit("::", 1)[-1]
    if t[0] == "prim":
        return t[1]
    if t[0] == "tuple":
        return "tuple" if t[1] else "unit"
    return t[0]


def parser_output(fn):
    """The value type T of a function returning Result<(&str, T), nom::Err<_>>."""
    o = fn.output
    if o and o[0] == "adt" and o[1] == RES and len(o[2]) == 2:
        ok_, er = o[2]
        if er[0] == "adt" and er[1] == NERR and ok_[0] == "tuple" and len(ok_[1]) == 2:
            return ok_[1][1]
    return None


class NeedSplit(Exception):
    """The continuation of a character depends on which part of its class it is in."""

    def __init__(self, var, part):
        self.var, self.part = var, part


class Kont:
    __slots__ = ("kind", "d", "depth", "id", "mark", "wants_value", "wants_text")

    def __repr__(self):
        return "K%d:%s" % (self.id, self.kind)


class G2(Grammar):
    def k(self, kind, *d):
        key = (kind,) + d
        r = self.ks.get(key)
        if r is None:
            r = Kont()
            r.kind, r.d, r.id = kind, d, len(self.ks)
            ms = {x.mark for x in d if isinstance(x, Kont) and x.mark}
            if kind == "mark":
                ms.add((d[0], d[1]))
            if len(ms) > 1:
                raise Giveup("a number within a number")
            r.mark = next(iter(ms), None)
            r.depth = 1 + max([x.depth for x in d if isinstance(x, Kont)], default=0)
            if r.depth > 600:
                raise Giveup("recursion that is not cut")
            if len(self.ks) > 400000:
                raise Giveup("too many continuations")
            r.wants_value = self.wants_value(kind, d)
            r.wants_text = self.wants_text(kind, d)
            self.ks[key] = r
        return r

    def wants_value(self, kind, d):
        """Does the continuation look at the value it is given?"""
        if kind in ("top", "const", "recognize", "hseq", "hloop", "hlist", "listn", "declared", "hbind"):
            return False
        if kind == "ret":
            return d[0] is None or d[0] in self.keep
        if kind in ("res", "verify", "final", "bind"):
            return True
        if kind == "while":
            return d[5].wants_value
        if kind == "seq":
            ps, i, vals, tx, comb, ctx, up = d
            return up.wants_value and (comb == "tup" or isinstance(comb, tuple) and i - 1 in comb)
        if kind == "loop":
            return d[4] is not None
        if kind == "list1":
            return d[3].wants_value
        if kind == "folded":
            return False
        up = [x for x in d if isinstance(x, Kont)]
        return any(x.wants_value for x in up)

    def wants_text(self, kind, d):
        if kind in ("recognize", "consumed"):
            return d[0].wants_value or d[0].wants_text
        if kind in ("top", "hseq", "hloop", "hlist", "listn", "declared", "loop", "list1"):
            return False
        if kind == "while":
            return d[5].wants_text or d[5].wants_value
        return any(x.wants_text for x in d if isinstance(x, Kont))

    @property
    def TOPK(self):
        return self.k("top")

    def var(self, kind, n, typ=None):
        v = V("%s@%d" % (kind, n)) if self.mode else V(kind)
        if typ:
            TYPED[v] = typ
        return v, (n + 1 if self.mode else n)

    def apart(self, vals, val, txt):
        """Without numbers on the variables, values read one after the other would be the same."""
        old = {x.a[0] for y in vals for x in fvars(y)}
        m = {}
        for x in sorted(set(fvars(val)) | set(fvars(txt)), key=lambda x: x.a[0]):
            if x.a[0] in old:
                i = 2
                while "%s@%d" % (x.a[0].split("@")[0], i) in old:
                    i += 1
                m[x] = v = V("%s@%d" % (x.a[0].split("@")[0], i))
                if x in TYPED:
                    TYPED[v] = TYPED[x]
                if x in self.classes:
                    self.classes[v] = self.classes[x]
                if x in self.sites:
                    self.sites.setdefault(v, set()).update(self.sites[x])
        if not m:
            return val, txt
        for x in list(all_terms(val)) + list(all_terms(txt)):
            if x.op == "app" and x.a[0] == "hexval" and x.a[1] in m and x in self.classes:
                y = mk("app", "hexval", m[x.a[1]])
                TYPED[y] = "u8"
                self.classes[y] = self.classes[x]
        return replace(val, m), replace(txt, m)

    def charvar(self, c, n, site):
        s = c.single()
        if s is not None and s <= TOP:
            return num(s), lit(chr(s)), n
        v, n = self.var("c%d.%d" % (id_of(c), id_of(site) if site in self.parted else 0), n, "char")
        self.classes[v] = c
        self.sites.setdefault(v, set()).add(site)
        return v, unit(v), n

    def blocks(self, c, site):
        """The class in the parts later conditions distinguish."""
        out = [c]
        for p in self.parted.get(site, ()):
            out = [y for x in out for y in (x & p, x.minus(p)) if y]
        return out

    def split(self, v, part):
        """Analyse again with the characters read at v's sites split."""
        c = self.classes[v]
        part = part & c
        if not part or part is c:
            return
        for site in self.sites[v]:
            if part not in self.parted.setdefault(site, []):
                self.parted[site].append(part)
        raise NeedSplit(v, part)

    def restart(self):
        for t in (self.memoS, self.memoF, self.memoH, self.ks, self.thunks):
            t.clear()
        self.busy.clear()
        for k in [k for k in self.bodies if isinstance(k, tuple) and k and k[0] in ("shift", "star", "simp")]:
            del self.bodies[k]
        self.classes.clear()
        self.sites.clear()
        self.listfacts.clear()

    # ------------------------------------------------------------ continuations
    def run(self, k, val, txt, n):
        """The diagram of continuation k after a value."""
        kind, d = k.kind, k.d
        B = self.bdd
        if not k.wants_value:
            val = UNIT
        if not k.wants_text:
            txt = NIL
        if kind == "top":
            return 1
        if kind == "final":
            return B.atom(("eps", self, self.final(val, txt)))
        if kind == "rest":          # d[0]: a function on diagrams: what may follow
            return self.S(d[0], d[1], self.TOPK, n)
        if kind == "seq":
            ps, i, vals, tx, comb, ctx, up = d
            if comb == "tup" or isinstance(comb, tuple) and i - 1 in comb:
                if vals and not self.mode:
                    val, txt = self.apart(vals, val, txt)
                vals = vals + (val,)
            tx = cat(tx, txt)
            if i == len(ps):
                if not up.wants_value:
                    val = UNIT
                elif comb == "tup":
                    val = tup(*vals)
                elif isinstance(comb, tuple):
                    val = vals[0] if len(comb) == 1 else tup(*vals)
                else:
                    val = comb
                return self.run(up, self.simp(val), tx, n)
            return self.S(ps[i], ctx, self.k("seq", ps, i + 1, vals, tx, comb, ctx, up), n)
        if kind == "hseq":
            ps, i, ctx = d
            return self.Hseq(ps, i, ctx)
        if kind == "some":
            return self.run(d[0], some(val), txt, n)
        if kind == "const":
            return self.run(d[1], d[0], txt, n)
        if kind == "recognize":
            return self.run(d[0], txt, txt, n)
        if kind == "consumed":
            return self.run(d[0], tup(txt, val), txt, n)
        if kind == "end":
            return B.AND(B.atom(("eps", self, None)), self.run(d[0], val, txt, n))
        if kind == "map":
            if not d[1].wants_value:
                return self.run(d[1], UNIT, txt, n)
            return self.run(d[1], self.simp(self.apply(d[0], [val])), txt, n)
        if kind == "res":           # map_res / map_opt
            f, up, which = d
            r = self.simp(self.apply(f, [val]))
            return self.cases(r, is_variant(r, *which), lambda r: self.run(up, self.simp(proj(r, which[0], which[1], 0)), txt, n))
        if kind == "verify":
            f, up = d
            r = self.simp(self.apply(f, [val]))
            return self.cases(val, r, lambda v: self.run(up, v, txt, n))
        if kind == "mark":
            return self.run(d[2], val, txt, n) if d[1] in d[0].acc else 0
        if kind == "loop":
            return self.star(*(d[:4] + (d[4], d[5] or self.holds_on(d[4], val))), first=False)
        if kind == "hloop":
            return self.hstar(*d)
        if kind == "list1":
            return self.listrest(*(d + (1, val, n)))
        if kind == "listn":
            return self.listrest(*(d[:-1] + (2, None, d[-1])))
        if kind == "hlist":
            return self.hlist(*d)
        if kind == "while":
            c, lo, hi, cnt, tx, up, site = d
            return self.whiles(c, lo, hi, cnt, cat(tx, txt) if hi is not None else txt, up, n, site)
        if kind == "bind":
            t, call, cur, depth, ctx, up, tx, ty = d
            new = V("in%d" % (depth + 1))
            t2 = self.simp(replace(t, {call: ok(tup(new, val))}))
            return self.outcome("S", t2, new, depth + 1, ctx, up, cat(tx, txt), n, ty)
        if kind == "hbind":
            t, call, cur, depth, ctx, ty = d
            new = V("in%d" % (depth + 1))
            t2 = self.simp(replace(t, {call: ok(tup(new, val))}))
            return self.outcome("H", t2, new, depth + 1, ctx, None, NIL, n, ty)
        if kind == "ret":
            ty, up = d
            return self.ret(ty, up, val, txt, n)
        if kind == "number":
            v, up = d
            return self.run(up, v, txt, n)
        if kind == "folded":
            return self.run(d[1], *self.folded(d[0], val, txt, n))
        if kind == "retail":
            return self.run(d[1], val, cat(d[0], txt), n)
        if kind == "declared":
            return self.declared(d[0], txt, n)
        raise AssertionError(kind)

    def folded(self, p, val, txt, n):
        v, n = self.var("folded", n)
        return v, txt, n

    def simp(self, t):
        k = ("simp", t)
        r = self.bodies.get(k)
        if r is None:
            r = self.rewrite(Facts().simp(t))
            if not any(x.op == "var" and x in self.listfacts for x in all_terms(t)):
                self.bodies[k] = r
        return r

    def ret(self, ty, up, val, txt, n):
        """Leaving a parser function: forget what the comparison does not need."""
        if ty is not None and ty not in self.keep:
            val, n = self.var(ty, n)
        return self.run(up, val, txt, n)

    # ------------------------------------------------------------ conditions on values
    def rewrite(self, t):
        """Numbers read from digits whose classes are known."""
        apps = [x for x in all_terms(t) if x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("parseint:")]
        if apps:
            m = {}
            for x in apps:
                r = self.radix(x)
                if r is not None:
                    m[x] = r
            if m:
                t = Facts().simp(replace(t, m))
        apps = [x for x in all_terms(t) if x.op == "app" and x.a[0] == "from_utf16"]
        m = {x: r for x in apps for r in (self.utf16(x.a[1]),) if r is not None}
        if m:
            t = Facts().simp(replace(t, m))
        return self.ranges(t)

    def utf16(self, s):
        """String::from_utf16 of code units whose ranges are known."""
        us = []
        for p in parts(s):
            if p.op != "unit":
                return None
            us.append(p.a[0])
        out, i = [], 0
        while i < len(us):
            lo, hi = self.bound(us[i], -1), self.bound(us[i], 1)
            if hi < 0xD800 or lo >= 0xE000:
                out.append(unit(us[i]))
                i += 1
                continue
            if lo >= 0xDC00 and hi <= 0xDFFF:
                return err(V("utf16 error"))
            if not (lo >= 0xD800 and hi <= 0xDBFF):
                return None
            if i + 1 == len(us):
                return err(V("utf16 error"))
            l2, h2 = self.bound(us[i + 1], -1), self.bound(us[i + 1], 1)
            if l2 >= 0xDC00 and h2 <= 0xDFFF:
                out.append(unit(add(num(0x10000 - 0xD800 * 0x400 - 0xDC00), add(mul(us[i], num(0x400)), us[i + 1]))))
                i += 2
            elif h2 < 0xDC00 or l2 > 0xDFFF:
                return err(V("utf16 error"))
            else:
                return None
        return ok(cat(*out))

    def radix(self, x):
        from engine import PRIM_RANGE
        ty, s, rx = x.a[0].split(":")[1], x.a[1], x.a[2]
        if not is_num(rx):
            return None
        ds = []
        for p in parts(s):
            if p.op == "lit":
                ds += [num(ord(c)) for c in p.a[0]]
            elif p.op == "unit":
                ds.append(p.a[0])
            else:
                return None
        if not ds or len(ds) > 8:
            return None
        total = num(0)
        digits = Cs([(ord(c), ord(c)) for c in "0123456789abcdefABCDEF" if int(c, 16) < rx.a[0]]) if rx.a[0] <= 16 else None
        if digits is None:
            return None
        for i, d in enumerate(ds):
            if isinstance(self.classes.get(d), Cs) and self.classes[d].single() is not None:
                d = num(self.classes[d].single())
            if i == 0 and len(ds) > 1:
                if d is num(43):
                    continue
                if not is_num(d) and isinstance(self.classes.get(d), Cs) and Cs([(43, 43)]) & self.classes[d]:
                    return None
            if is_num(d):
                if d.a[0] not in digits:
                    return err(V("parse error"))
                v = num(int(chr(d.a[0]), rx.a[0]))
            else:
                c = self.classes.get(d)
                if c is None or c.minus(digits):
                    if c is not None and not (c & digits):
                        return err(V("parse error"))
                    return None
                v = mk("app", "hexval", d)
                TYPED[v] = "u8"
                vals = [int(chr(y), 16) for a, b in c.ivs for y in range(a, b + 1)]
                self.classes[v] = (min(vals), max(vals))
                if min(vals) == max(vals):
                    v = num(vals[0])
            total = add(mul(total, num(rx.a[0])), v)
        hi = PRIM_RANGE[ty][1]
        if self.bound(total, 1) > hi:
            return None
        return ok(total)

    def bound(self, t, sign):
        c, m = as_lin(t)
        tot = c
        for x, k in m.items():
            r = self.classes.get(x)
            if not isinstance(r, tuple):
                if isinstance(r, Cs):
                    r = (r.ivs[0][0], r.ivs[-1][1])
                elif TYPED.get(x) == "char":
                    r = (0, TOP)
                else:
                    return float("inf") * sign
            tot += k * (r[1] if k * sign > 0 else r[0])
        return tot

    def ranges(self, t):
        """Decide order tests on characters and on numbers read from digits."""
        m = {}
        for x in all_terms(t):
            if x.op == "ge0":
                if self.bound(x.a[0], -1) >= 0:
                    m[x] = TRUE
                elif self.bound(x.a[0], 1) < 0:
                    m[x] = FALSE
            elif x.op == "exists" and not fv(x):
                r = self.list_atom(x)
                if r is not None:
                    m[x] = TRUE if r else FALSE
            elif x.op == "app" and x.a[0] == "eq" and is_num(x.a[2]):
                if self.bound(x.a[1], 1) < x.a[2].a[0] or self.bound(x.a[1], -1) > x.a[2].a[0]:
                    m[x] = FALSE
                elif x.a[1] in self.classes and isinstance(self.classes[x.a[1]], Cs) and x.a[2].a[0] not in self.classes[x.a[1]]:
                    m[x] = FALSE
                elif x.a[1] in self.classes and isinstance(self.classes[x.a[1]], Cs) and self.classes[x.a[1]].single() == x.a[2].a[0]:
                    m[x] = TRUE
            elif x.op == "app" and x.a[0] == "len" and x.a[1].op == "var" and x.a[1].a[0].startswith("w"):
                m[x] = add(num(1), mk("app", "len", mk("app", "tail", x.a[1])))
        if m:
            t = Facts().simp(replace(t, m))
        return t

    def list_atom(self, x):
        n = x.a[1]
        if n.op == "app" and n.a[0] == "len" and n.a[1] in self.listfacts:
            a, pred, bad = self.listfacts[n.a[1]]
            b = bv(x.a[0])
            mine = replace(x.a[3], {elt(n.a[1], b): V("element?")})
            if x.a[2] is not num(1) or occurs(mine, lambda y: y is b):
                raise Giveup("condition on a list: " + show(x)[:200])
            if pred is None:
                self.preds[a] = mine
                raise NeedSplit(n.a[1], mine)
            if mine is pred:
                return bad
        return None

    def holds_on(self, pred, val):
        if pred is None:
            return False
        t = self.simp(replace(pred, {V("element?"): val}))
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        self.look_into(t)
        raise Giveup("condition on list elements: " + show(t)[:200])

    def cases(self, r, cond, fn):
        cond = self.simp(cond)
        if cond is TRUE:
            return fn(r)
        if cond is FALSE or cond is BOT:
            return 0
        for x in all_terms(cond):
            if x.op == "ge0" or x.op == "app" and x.a[0] == "eq":
                self.split_on(x)
        self.look_into(cond)
        raise Giveup("condition on a parsed value: " + show(cond)[:300])

    # ------------------------------------------------------------ success
    def S(self, p, ctx, k, n):
        key = (p, ctx, k, n)
        r = self.memoS.get(key)
        if r is None:
            if key in self.busy:
                raise Giveup("left recursion")
            self.busy.add(key)
            try:
                r = self._S(p, ctx, k, n)
            finally:
                self.busy.discard(key)
            self.memoS[key] = r
        return r

    def F(self, p, ctx):
        key = (p, ctx)
        r = self.memoF.get(key)
        if r is None:
            r = self.memoF[key] = self.bdd.NOT(self.bdd.OR(self.S(p, ctx, self.TOPK, 0), self.H(p, ctx)))
        return r

    def _S(self, p, ctx, k, n):
        B = self.bdd
        f = self.form(p)
        t = f[0]
        if t == "class":
            return self.oneof(f[1], k, n, (p, 0))
        if t == "while":
            return self.whiles(f[1], f[2], f[3], 0, NIL, k, n, p)
        if t == "eof":
            return B.AND(B.atom(("eps", self, None)), self.run(k, NIL, NIL, n))
        if t == "fail":
            return 0
        if t == "seq":
            if not f[1]:
                return self.run(k, UNIT if f[2] == "tup" else f[2], NIL, n)
            return self.S(f[1][0], ctx, self.k("seq", tuple(f[1]), 1, (), NIL, f[2], ctx, k), n)
        if t == "alt":
            r, rest = 0, 1
            for q in f[1]:
                r = B.OR(r, B.AND(rest, self.S(q, ctx, k, n)))
                rest = B.AND(rest, self.F(q, ctx))
                if rest == 0:
                    break
            return r
        if t == "opt":
            return B.OR(self.S(f[1], ctx, self.k("some", k), n), B.AND(self.F(f[1], ctx), self.run(k, NONE, NIL, n)))
        if t == "not":
            return B.AND(self.F(f[1], ctx), self.run(k, UNIT, NIL, n))
        if t == "peek":
            v, n = self.var("peeked", n)
            return B.AND(self.S(f[1], ctx, self.TOPK, n), self.run(k, v, NIL, n))
        if t == "cut":
            return self.S(f[1], ctx, k, n)
        if t == "recognize":
            return self.S(f[1], ctx, self.k("recognize", k), n)
        if t == "consumed":
            return self.S(f[1], ctx, self.k("consumed", k), n)
        if t == "all_consuming":
            return self.S(f[1], ctx, self.k("end", k), n)
        if t == "success":
            return self.run(k, f[1], NIL, n)
        if t == "value":
            return self.S(f[2], ctx, self.k("const", f[1], k), n)
        if t == "map":
            return self.S(f[1], ctx, self.k("map", f[2], k), n)
        if t in ("map_res", "map_opt"):
            tp = self.text_predicate(f[2], (RES, "Ok") if t == "map_res" else (OPT, "Some"))
            if tp is not None:
                return self.filtered(f[1], ctx, tp, k, n)
            if t == "map_res" and self.is_declaration(f[2]):
                return self.S(f[1], ctx, self.k("declared", k), n)
            return self.S(f[1], ctx, self.k("res", f[2], k, (RES, "Ok") if t == "map_res" else (OPT, "Some")), n)
        if t == "verify":
            return self.S(f[1], ctx, self.k("verify", f[2], k), n)
        if t == "many0":
            return self.star(f[1], ctx, k, n, None, False, kind="L")
        if t == "many1":
            raise Giveup("many1")
        if t == "fold":
            if f[4]:
                raise Giveup("fold_many1")
            return self.star(f[1], ctx, self.k("folded", p, k), n, None, False, kind="fold")
        if t == "seplist":
            sep, a, lo = f[1:]
            r = self.S(a, ctx, self.k("list1", sep, a, ctx, k), n)
            if not lo:
                r = B.OR(r, B.AND(self.F(a, ctx), self.run(k, NIL, NIL, n)))
            return r
        if t == "body":
            return self.body("S", f[1], ctx, k, n)
        if t == "local":
            return self.body("S", f[1], ctx, k, n)
        raise Giveup("parser form " + t)

    def look_into(self, t):
        """Analyse again with the values kept that t depends on."""
        new = {x.a[0].split('@')[0] for x in fvars(t)} & self.types - self.keep
        if new:
            self.keep |= new
            raise NeedSplit(None, new)

    def split_on(self, x):
        """Split a character on whose class an undecided order test depends."""
        if x.op != "ge0":
            vs = list(fvars(x))
            if len(vs) == 1 and vs[0] in self.sites:
                self.split(vs[0], self.solve(x, vs[0]))
            return
        c0, m = as_lin(x.a[0])
        for y, k in sorted(m.items(), key=lambda z: (-abs(z[1]), z[0].uid)):
            v, f = (y.a[1], lambda ch: int(chr(ch), 16)) if y.op == "app" and y.a[0] == "hexval" else (y, lambda ch: ch)
            if v not in self.sites:
                continue
            rest = sub(x.a[0], mul(num(k), y))
            lo, hi = self.bound(rest, -1), self.bound(rest, 1)
            for good in (lambda t: k * t + lo >= 0, lambda t: k * t + hi < 0):
                part = []
                for a, b in self.classes[v].ivs:
                    if f(a) == a:           # monotone: find the boundary
                        l2, h2 = a, b
                        if good(a) == good(b):
                            if good(a):
                                part.append((a, b))
                            continue
                        while h2 - l2 > 1:
                            mid = (l2 + h2) // 2
                            if good(mid) == good(a):
                                l2 = mid
                            else:
                                h2 = mid
                        part.append((a, l2) if good(a) else (h2, b))
                    else:
                        part += [(ch, ch) for ch in range(a, b + 1) if good(f(ch))]
                self.split(v, Cs(part))

    def oneof(self, c, k, n, site):
        B = self.bdd
        r = 0
        for b in self.blocks(c, site):
            v, tx, m = self.charvar(b, n, site)
            r = B.OR(r, self.step(b, k, v, tx, m))
        return r

    def whiles(self, c, lo, hi, cnt, tx, k, n, site):
        B = self.bdd
        if hi is not None and cnt >= hi:
            return self.run(k, tx, tx, n)
        cap = max(lo, 1)
        nxt = min(cnt + 1, cap) if hi is None else cnt + 1
        if hi is None:
            w, m = self.var("w%d" % id_of(c), n)
            r = self.step(c, self.k("while", c, lo, hi, nxt, NIL, k, None), w, w, n)
            out = (tx, m) if cnt else (NIL, n)
            if cnt:
                out = (w, m)
        else:
            r = 0
            for b in self.blocks(c, (site, cnt)):
                v, u, m = self.charvar(b, n, (site, cnt))
                r = B.OR(r, self.step(b, self.k("while", c, lo, hi, nxt, tx, k, site), v, u, m))
            out = (tx, n)
        if cnt >= lo:
            r = B.OR(r, B.AND(self.fails(c), self.run(k, out[0], out[0], out[1])))
        return r

    def star(self, a, ctx, k, n, pred, bad, kind="L", first=True):
        """Zero or more a; `bad` records whether some element so far meets the condition a later test
        asks about (found out on the way; the analysis then starts again)."""
        B = self.bdd
        pred = self.preds.get(a)
        lk = (("star", a, ctx, k, n), bad)
        r = self.memoS.get(lk)
        if r is None:
            v, m = self.var("L%s%s%d" % ("-" if bad else "", self.element_form(a, ctx), id_of(a)), n)
            self.listfacts[v] = (a, pred, bad)
            out = self.run(k, v, self.var("t*", n)[0], m)
            if lk in self.busy:
                raise Giveup("repetition of a parser that may read nothing")
            self.busy.add(lk)
            try:
                go = self.S(a, ctx, self.k("loop", a, ctx, k, n, pred, bad), n)
            finally:
                self.busy.discard(lk)
            r = self.memoS[lk] = B.OR(go, B.AND(self.F(a, ctx), out))
        return r

    def element_form(self, a, ctx):
        return ""

    def listrest(self, sep, a, ctx, k, count, v1, n):
        B = self.bdd
        ps = (sep, a)
        key = ("sa", sep, a)
        q = self.bodies.get(key)
        if q is None:
            q = self.bodies[key] = mk("tup", sep, a)
        if count == 1:
            val, m = unit(v1), n
        else:
            x, m = self.var("elements" + self.element_form(a, ctx), n)
            val = cat(unit(V("element1")), unit(V("element2")), x)
        go = self.S(q, ctx, self.k("listn", sep, a, ctx, k, n), n)
        return B.OR(go, B.AND(self.F(q, ctx), self.run(k, val, self.var("t*", n)[0], m)))

    # ------------------------------------------------------------ texts of a known form
    def text_predicate(self, f, which=(RES, "Ok")):
        """(automaton, value) when f reads a number from the whole text."""
        key = ("tp", f)
        if key not in self.bodies:
            self.bodies[key] = self._text_predicate(f, which)
        return self.bodies[key]

    def _text_predicate(self, f, which):
        s = V("whole text")
        try:
            r = Facts().simp(self.apply(f, [s]))
        except Exception:
            return None
        apps = sorted({x for x in all_terms(r) if x.op == "app" and isinstance(x.a[0], str) and len(x.a) >= 2 and x.a[1] is s
                       and (x.a[0].startswith("parse") or x.a[0].startswith("@"))}, key=lambda x: x.uid)
        if len(apps) != 1:
            return None
        x = apps[0]
        limit = None
        if x.a[0] == "parse:serde_json::number::Number":
            d, v = number_dfa(), V("Number")
        elif x.a[0].startswith("@") and x.a[0][1:] in self.integers:
            limit, v = 2 ** 53 - 1, V("Integer")
            n = proj(v, engine.INT_ADT, "Integer", 0)
        elif x.a[0] in SIGNED and x.a[2] is num(10):
            limit = SIGNED[x.a[0]]
            v = n = V(x.a[0][9:])
            engine.TYPED[v] = x.a[0][9:]
        else:
            return None
        good = self.simp(replace(r, {x: ok(v)}))
        fail = self.simp(replace(r, {x: err(V("number error"))}))
        yes, no = self.simp(is_variant(good, *which)), self.simp(is_variant(fail, *which))
        if no is not FALSE:
            return None
        if yes is not TRUE:
            limit = limit and symmetric_limit(yes, n, limit)
            if limit is None:
                return None
            good = Facts().assume(ge0(add(n, num(limit))), True).assume(ge0(sub(num(limit), n)), True).simp(good)
        if limit is not None:
            d = int_dfa(42 if self.small and limit == 2 ** 53 - 1 else limit)
        return d, self.simp(proj(good, which[0], which[1], 0)), v

    def filtered(self, p, ctx, tp, k, n):
        d, val, v = tp
        return self.S(p, ctx, self.k("mark", d, 0, self.k("number", val, k)), n)

    def shift(self, k, q):
        """The continuation with its automaton in state q."""
        key = ("shift", k, q)
        r = self.bodies.get(key)
        if r is None:
            if k.kind == "mark":
                r = self.k("mark", k.d[0], q, k.d[2])
            else:
                r = self.k(k.kind, *[self.shift(x, q) if isinstance(x, Kont) and x.mark else x for x in k.d])
            self.bodies[key] = r
        return r

    # ------------------------------------------------------------ failure for good
    def H(self, p, ctx):
        key = (p, ctx)
        r = self.memoH.get(key)
        if r is None:
            if ("H", key) in self.busy:
                raise Giveup("left recursion")
            self.busy.add(("H", key))
            try:
                r = self._H(p, ctx)
            finally:
                self.busy.discard(("H", key))
            self.memoH[key] = r
        return r

    def _H(self, p, ctx):
        B = self.bdd
        f = self.form(p)
        t = f[0]
        if t in ("class", "while", "eof", "fail", "success"):
            return 0
        if t == "seq":
            return self.Hseq(tuple(f[1]), 0, ctx)
        if t == "alt":
            r, rest = 0, 1
            for q in f[1]:
                r = B.OR(r, B.AND(rest, self.H(q, ctx)))
                rest = B.AND(rest, self.F(q, ctx))
            return r
        if t == "cut":
            return B.NOT(self.S(f[1], ctx, self.TOPK, 0))
        if t in ("many0", "fold"):
            return self.hstar(f[1], ctx)
        if t == "seplist":
            sep, a, lo = f[1:]
            return B.OR(self.H(a, ctx), self.S(a, ctx, self.k("hlist", sep, a, ctx), 0))
        if t in ("body", "local"):
            return self.body("H", f[1], ctx, None, 0)
        if t in ("opt", "not", "peek", "recognize", "consumed", "all_consuming", "map", "map_res", "map_opt", "verify"):
            return self.H(f[1], ctx)
        if t == "value":
            return self.H(f[2], ctx)
        raise Giveup("parser form " + t)

    def Hseq(self, ps, i, ctx):
        if i >= len(ps):
            return 0
        h = self.H(ps[i], ctx)
        if i + 1 == len(ps) or not self.may_cut(ps[i + 1:], ctx):
            return h
        return self.bdd.OR(h, self.S(ps[i], ctx, self.k("hseq", ps, i + 1, ctx), 0))

    def may_cut(self, ps, ctx):
        """Can any of these fail for good?  (They cannot when their diagrams say so at once.)"""
        for q in ps:
            f = self.form(q)
            if f[0] in ("class", "while", "eof", "fail", "success"):
                continue
            return True
        return False

    def hstar(self, a, ctx):
        key = ("hstar", a, ctx)
        r = self.memoH.get(key)
        if r is None:
            if key in self.busy:
                raise Giveup("repetition of a parser that may read nothing")
            self.busy.add(key)
            h = self.H(a, ctx)
            if h == 0 and not self.may_cut((a,), ctx):
                r = 0
            else:
                r = self.bdd.OR(h, self.S(a, ctx, self.k("hloop", a, ctx), 0))
            self.busy.discard(key)
            self.memoH[key] = r
        return r

    def hlist(self, sep, a, ctx):
        key = ("hlist", sep, a, ctx)
        r = self.memoH.get(key)
        if r is None:
            if key in self.busy:
                raise Giveup("repetition of a parser that may read nothing")
            self.busy.add(key)
            B = self.bdd
            q = mk("tup", sep, a)
            r = B.OR(self.H(q, ctx), self.S(q, ctx, self.k("hlist", sep, a, ctx), 0))
            self.busy.discard(key)
            self.memoH[key] = r
        return r

    # ------------------------------------------------------------ functions
    def body(self, what, p, ctx, k, n):
        B = self.bdd
        fid, args, at = self.target(p)
        fn = self.prog.fns.get(fid) if fid else None
        ty = type_name(parser_output(fn)) if fn is not None and fn.kind != "Closure" else None
        if fid in self.cut and fid and self.is_cut(fid, ty, ctx):
            c = Cs([(letter(self.cut[fid]),) * 2])
            if what == "H":
                hs, he = self.hard.get(fid, (NONE_, 0))
                return B.mk(he, ((hs.minus(c), 1),), 0)
            v, m = self.var(ty, n)
            return self.step(c, k, v, self.var("t", n)[0], m)
        return self.body_of(what, p, ctx, k, n, fid, args, at, ty)

    def body_of(self, what, p, ctx, k, n, fid, args, at, ty):
        if ty in ("Selector", "LogicalOrExpr", "FunctionExprArg"):
            ctx = ctx | {ty}
        if fid in self.roots:
            ctx = ctx - {"root"}
        key = ("body", p)
        t = self.bodies.get(key)
        if t is None:
            if fid is not None:
                self.called.add(fid)
            else:
                raise Giveup("parser " + show(p)[:200])
            inp = V("in0")
            if p.op == "clo":
                t = self.apply(p, [inp])
            elif args is not None:
                vals = list(args)
                vals[at] = inp
                t = self.run_local(fid, vals)
            else:
                t = self.run_local(fid, [inp])
            t = self.bodies[key] = self.simp(t)
        up = self.k("ret", ty, k) if k is not None else None
        if ty == "FunctionExpr":
            ctx = ctx | {"fn"}
        elif "fn" in ctx:
            ctx = ctx - {"fn"}
        return self.outcome(what, t, V("in0"), 0, ctx, up, NIL, n, ty)

    def is_cut(self, fid, ty, ctx):
        if "root" in ctx and fid in self.roots:
            return False
        if fid in self.always:
            return True
        if ty == "FunctionExprArg":
            return True
        return bool(ctx & {"Selector", "LogicalOrExpr"})

    roots = ()
    always = ()
    small = True
    hard = {}        # function id -> what it fails for good on: (first characters, the empty text)

    def target(self, p):
        if p.op == "app" and p.a[0] == "localcall":
            return p.a[1], p.a[2], p.a[3]
        if p.op == "clo":
            return p.a[0], None, None
        return self.local(p), None, None

    def outcome(self, what, t, cur, depth, ctx, k, tx, n, ty):
        """The S or H language of a function's result term t, reading on at position cur."""
        B = self.bdd
        t = self.simp(t)
        if t is BOT:
            return 0
        if t.op == "con" and t.a[0] == RES:
            if t.a[1] == "Err":
                e = self.simp(is_variant(t.a[2], NERR, "Failure"))
                if what == "S":
                    return 0
                if e is TRUE:
                    return 1
                if e is FALSE or not (t.a[2].op == "con"):
                    if e is not FALSE and "entry" not in ctx:
                        raise Giveup("error value " + show(t.a[2])[:100])
                    return 0
                raise Giveup("error value " + show(t.a[2])[:100])
            v = t.a[2]
            if v.op == "tup" and len(v.a) == 2 and v.a[0].op == "var" and v.a[0].a[0].startswith("in"):
                if v.a[0] is not cur:
                    raise Giveup("a parser that reads the same text twice")
                return self.run(k, v.a[1], tx, n) if what == "S" else 0
            if "entry" in ctx:
                return self.run(k, v, tx, n) if what == "S" else 0
            raise Giveup("parser result " + show(v)[:100])
        call = self.next_call(t)
        if call is not None:
            p, pos = self.call_of(call)
            if pos is not cur:
                raise Giveup("a parser that reads the same text twice")
            if call is t and what == "S":
                return self.S(p, ctx_in(ctx), self.k("retail", tx, k), n)
            if call is t:
                return self.H(p, ctx_in(ctx))
            c2 = ctx_in(ctx)
            e = con(RES, "Err", con(NERR, "Error", V("parser error")))
            h = con(RES, "Err", con(NERR, "Failure", V("parser error")))
            probe = self.simp(replace(t, {call: ok(tup(V("in?"), V("value?")))}))
            if not occurs(probe, lambda x: x is V("in?")) and (occurs(probe, lambda x: x is cur)):
                # looks ahead only
                val = V("value?")
                good = B.AND(self.S(p, c2, self.TOPK, n), self.outcome(what, probe, cur, depth, ctx, k, tx, n, ty))
            elif what == "S":
                good = self.S(p, c2, self.k("bind", t, call, cur, depth, ctx, k, tx, ty), n)
            else:
                good = self.S(p, c2, self.k("hbind", t, call, cur, depth, ctx, ty), n)
            soft = self.outcome(what, replace(t, {call: e}), cur, depth, ctx, k, tx, n, ty)
            hard = self.outcome(what, replace(t, {call: h}), cur, depth, ctx, k, tx, n, ty)
            r = good
            if soft:
                r = B.OR(r, B.AND(self.F(p, c2), soft))
            if hard:
                r = B.OR(r, B.AND(self.H(p, c2), hard))
            return r
        if t.op == "ite":
            if "fn" in ctx:
                return self.declared_leaf(what, t, cur, depth, ctx, k, tx, n, ty)
            raise Giveup("condition in a parser: " + show(t.a[0])[:200])
        raise Giveup("parser result " + show(t)[:200])

    def call_of(self, c):
        if c.a[0] in PARSER_CALLS:
            return c.a[1], c.a[2]
        fid = c.a[0][1:]
        fn = self.prog.fns[fid]
        at = [i for i, t in enumerate(fn.inputs) if t[0] == "ref" and t[2] == ("prim", "str")]
        args = list(c.a[1:])
        pos = [i for i in at if args[i].op == "var" and args[i].a[0].startswith("in")]
        if len(pos) != 1:
            raise Giveup("call of " + fid)
        if len(args) == 1:
            return mk("fn", fid, fid, ()), args[0]
        i = pos[0]
        rest = tuple(a for a in args)
        return mk("app", "localcall", fid, rest[:i] + (NIL,) + rest[i + 1:], i), args[i]

    def is_call(self, x):
        return x.op == "app" and (x.a[0] in PARSER_CALLS and x.a[2].op == "var" and x.a[2].a[0].startswith("in")
                                  or isinstance(x.a[0], str) and x.a[0].startswith("@") and x.a[0][1:] in self.parsers
                                  and any(y.op == "var" and y.a[0].startswith("in") for y in x.a[1:] if isinstance(y, T)))

    def next_call(self, t):
        """The call to be run first: one whose position is already known."""
        cs_ = [x for x in all_terms(t) if self.is_call(x)]
        if not cs_:
            return None
        return min(cs_, key=lambda x: (sum(1 for y in all_terms(x) if self.is_call(y)), x.uid))

    # ------------------------------------------------------------ declared functions
    def is_declaration(self, f):
        """Does f turn a function's name and arguments into a function expression?"""
        fn = self.prog.fns.get(f.a[0] if f.op == "clo" else self.local(f))
        o = None if fn is None else closure_output(fn) if fn.kind == "Closure" else fn.output
        if not (o and o[0] == "adt" and o[1] == RES and type_name(o[2][0]) == "FunctionExpr"):
            return False
        # it makes the function expression, it does not look at one
        return type_name(fn.body["params"][-1]["ty"]) != "FunctionExpr"

    def declared(self, up, txt, n):
        """After a function's text: a letter tells the type it is declared with."""
        B = self.bdd
        r = 0
        for ty in ("Value", "Logical", "Nodelist"):
            c = Cs([(letter("declared %s" % ty),) * 2])
            r = B.OR(r, self.step(c, up, self.fexpr(ty), NIL, n))
        return r

    def fexpr(self, ty):
        adt = next(a for a in self.prog.adts if a.endswith("::FunctionExpr"))
        d = self.prog.adts[adt]
        names = [f[0] for f in d["variants"][0][1]]
        tys = next(a for a in self.prog.adts if a.endswith("::FunctionArgType"))
        vs = [con(tys, ty) if x == "return_type" else V("function " + x) for x in names]
        return con(adt, d["variants"][0][0], *vs)

    def declared_leaf(self, what, t, cur, depth, ctx, k, tx, n, ty):
        raise Giveup("declaration of a function")


PURE = {"app", "var", "const", "unit", "tup", "con", "lin", "cat", "lit", "ite", "is", "ge0", "true", "false", "tproj", "proj", "chr",
        "bot", "num", "nil", "not", "and", "or"}


def ctx_in(ctx):
    return ctx - {"entry"}


def closure_output(fn):
    return fn.body["expr"].get("ty")


_ids = {}


def id_of(c):
    return _ids.setdefault(c, len(_ids))


def of_id(i):
    return next((c for c, j in _ids.items() if j == i), None)


# -------------------------------------------------------------------- exploration
def fvars(t):
    return {x for x in all_terms(t) if x.op == "var"}


def evaluate(th):
    g, k, val, txt, n = th
    key = ("thunk", k, val, txt, n)
    r = g.thunks.get(key)
    if r is None:
        r = g.thunks[key] = g.run(k, val, txt, n)
    return r


class Explorer:
    """Whether two diagrams denote one language."""

    def __init__(self, lang, limit=200000, seconds=240, every=EVERY, values=False, modes=None, same=None):
        self.same = same             # (classes of the text's characters, end, end) -> the ends are the same
        self.L, self.limit, self.seconds, self.every = lang, limit, seconds, every
        self.modes = modes           # mode -> [(characters that may come next, mode after them)]; -1: an end
        self.values = values          # only differences in the values of texts both accept
        self.states = self.edges = 0

    def differ(self, x, y):
        """None when the languages of two nodes are equal; else (witness, the first accepts it)."""
        import time
        from collections import deque
        L = self.L
        t0 = time.time()
        back = {}
        q = deque()

        def visit(nx, ny, mode, s):
            (e1, t1, o1), (e2, t2, o2) = L.of[nx], L.of[ny]
            if e1 != e2 and not (self.values and (e1 == 0 or e2 == 0)) and mode in ends:
                w = []
                while s is not None:
                    s, c = back[s]
                    w.append(c)
                if self.same is None or not self.same(w[::-1], e1, e2):
                    return [c.pick() for c in reversed(w)], e1, e2
            done = NONE_
            succ = []
            for c, f in t1:
                left = c
                for d, g in t2:
                    if left & d:
                        succ.append((f, g, left & d))
                        left = left.minus(d)
                if left:
                    succ.append((f, o2, left))
                done = done | c
            for d, g in t2:
                if d.minus(done):
                    succ.append((o1, g, d.minus(done)))
                done = done | d
            succ.append((o1, o2, self.every.minus(done)))
            for f, g, c in succ:
                if f == g or not c or self.values and (f == 0 or g == 0):
                    continue
                for cs, m in modes[mode]:
                    cc = c & cs
                    if not cc:
                        continue
                    self.edges += 1
                    if (f, g, m) not in back:
                        back[(f, g, m)] = (s, cc)
                        q.append((f, g, m))
            return None
        modes, ends = self.modes or ({0: [(self.every, 0)]}, {0})
        r = visit(x, y, 0, None)
        while r is None and q:
            s = q.popleft()
            self.states += 1
            if self.states > self.limit or time.time() - t0 > self.seconds:
                raise Giveup("too many derivatives (%d)" % self.states)
            r = visit(L.node(s[0]), L.node(s[1]), s[2], s)
        return r


def fvars(t):
    return {x for x in all_terms(t) if x.op == "var"}
