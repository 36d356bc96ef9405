"""C17: what string literals denote: the value of the code's parser against the grammar's, character
by character."""
import c_parse
import c_struct
import time
from c_parse import *
from c_struct import analyse3, at_end, bits_of, Level, readable, END
from tagged import *

HEXES = Cs([(ord("0"), ord("9")), (ord("a"), ord("f")), (ord("A"), ord("F"))])
BACK, U = Cs([(92, 92)]), Cs([(ord("u"), ord("u"))])
TEXT = Cs([(0, TOP)])
APART = [Cs([(ord(x), ord(x))]) for x in "\"'\\/"]
QUOTES = APART[0] | APART[1] | APART[2] | APART[3]


class G4(G3):
    """Characters are variables named by their place in the text; values are terms over them."""

    def text_of(self, t):
        t = self.simp(t)
        if any(x.op == "ite" for x in all_terms(t)):
            try:
                self.stuck(t, "text")
            except Giveup:
                pass
        m = {}
        for x in fvars(t):
            if x not in self.classes or "@" not in x.a[0]:
                raise Giveup("text " + show(t)[:100])
            s = self.classes[x].single() if isinstance(self.classes[x], Cs) else None
            m[x] = num(s) if s is not None else V("char@" + x.a[0].split("@")[1])
        for x in m.values():
            if x.op == "var":
                TYPED[x] = "char"
        return cat(*[unit(num(ord(c))) if x.op == "lit" else x for x in parts(replace(t, m)) for c in (x.a[0] if x.op == "lit" else " ")])

    def test(self, t, p):
        if len(p) == 1 and p[0][0] == "text":
            return self.text_of(t)
        return super().test(t, p)

    def pointless(self, ty):
        return ty in ("Number", "Integer") and not self.wanted.get(ty)

    def placed(self, c, n, site):
        s = c.single()
        if s is not None and s <= TOP:
            return num(s)
        v = V("c%d.%d@%d" % (id_of(c), id_of(site) if site in self.parted else 0, n))
        TYPED[v] = "char"
        self.classes[v] = c
        self.sites.setdefault(v, set()).add(site)
        return v

    def oneof(self, c, k, n, site):
        r = 0
        for b in self.single(self.blocks(c, site)):
            v = self.placed(b, n, site)
            r = self.bdd.OR(r, self.stepm(b, "", k, v, unit(v), n + 1))
        return r

    def single(self, cs):
        """Classes with the few characters that are no hexadecimal digits apart."""
        out = []
        for c in cs:
            out += [x for x in APART if x & c]
            c = c.minus(QUOTES)
            rest = c.minus(HEXES)
            if 0 < sum(b - a + 1 for a, b in rest.ivs) <= 16:
                out += [Cs([(x, x)]) for a, b in rest.ivs for x in range(a, b + 1)]
                c = c & HEXES
            if c:
                out.append(c)
        return out

    def whiles(self, c, lo, hi, cnt, tx, k, n, site):
        B = self.bdd
        if hi is not None and cnt >= hi:
            return self.run(k, tx, tx, n)
        r = 0
        for b in self.single(self.blocks(c, (site, cnt))):
            v = self.placed(b, n, (site, cnt))
            r = B.OR(r, self.stepm(b, "", self.k("while", c, lo, hi, cnt + 1, cat(tx, unit(v)), k, site), UNIT, NIL, n + 1))
        if cnt >= lo:
            r = B.OR(r, B.AND(self.fails(c), self.run(k, tx, tx, n)))
        return r

    def short(self, t):
        return t

    def is_text(self, t):
        return t is NIL or all(p.op in ("lit", "unit") and (p.op == "lit" or self.type_of(p.a[0]) is None) for p in parts(t))

    def k(self, kind, *d):
        return G2.k(self, kind, *d)

    def folded3(self, step, acc, val):
        t = self.simp(self.apply(step, [acc, val]))
        if size(t) > 4000:
            raise Giveup("fold")
        return t if self.is_text(t) or t.op not in ("cat", "unit", "lit", "var") else self.reduced(t)


class G5(G3):
    """Which marked characters a text is made of; others are of no interest."""

    def word(self, t):
        out = ""
        for p in parts(t):
            if p.op == "lit" or p.op == "unit" and not fvars(p.a[0]):
                continue
            if p.op == "unit":
                x = p.a[0]
                if x.op == "var" and x in self.classes:
                    out += var_word(x.a[0])
                elif all(y.op == "var" and y in self.classes for y in fvars(x)):
                    if any(var_word(y.a[0]) for y in fvars(x)):
                        out += "x"
                else:
                    return None
            elif p.op == "var" and has_tail(p.a[0]):
                out += var_word(p.a[0])
            elif p.op == "app" and p.a[0] in CHANGES and self.changes(p):
                return "x"
            else:
                return None
        return self.capped(out)


# ---------------------------------------------------------------- texts looked at
def literal_modes(prefix, suffix, items, markable=None, digits=None):
    """Texts prefix + a string literal of up to `items` characters and escapes + suffix.
    digits: the only ones of escapes with four digits.
    markable: the marks that may be put on characters that stand for themselves, in order; then any
    number of characters and escapes."""
    modes = {}
    quotes = Cs([(34, 34), (39, 39)])

    def one(ch):
        return Cs([(ord(ch), ord(ch))])
    for i, ch in enumerate(prefix):
        modes[("p", i)] = [(one(ch), ("p", i + 1) if i + 1 < len(prefix) else "open")]
    first = ("p", 0) if prefix else "open"
    modes["open"] = [(quotes, ("in", 0, 0))]
    todo, seen = [("in", 0, 0)], set()
    close = ("s", 0) if suffix else "end"
    for i, ch in enumerate(suffix):
        modes[("s", i)] = [(one(ch), ("s", i + 1) if i + 1 < len(suffix) else "end")]
    modes["end"] = []
    marks = markable or ""
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        kind, i, j = m[0], m[1], m[2]
        nxt = []
        if kind == "in":
            if markable is None and i >= items:
                nxt.append((TEXT, close))
            else:
                step = i + 1 if markable is None else i
                nxt.append((TEXT.minus(BACK), ("in", step, j)))
                if j < len(marks):
                    nxt.append((shifted(TEXT.minus(QUOTES), marks[j]), ("in", step, j + 1)))
                nxt.append((BACK, ("esc", i, j)))
                if j == len(marks):
                    nxt.append((quotes, close))
        elif kind == "esc":
            step = i + 1 if markable is None else i
            nxt.append((TEXT.minus(U), ("in", step, j)))
            nxt.append((U, ("hex", i, j, 4)))
        elif kind == "hex":
            q = m[3]
            ch = TEXT if digits is None else one(digits[-q])
            if q > 1:
                nxt.append((ch, ("hex", i, j, q - 1)))
            else:
                step = i + 1 if markable is None else i
                nxt.append((ch, ("in", step, j)))
                if markable is None and digits is None:
                    nxt.append((TEXT, ("low", i, j)))     # a pair of escapes counts as one
        elif kind == "low":
            nxt.append((BACK, ("low2", i, j)))
        elif kind == "low2":
            nxt.append((U, ("low3", i, j, 4)))
        elif kind == "low3":
            nxt.append((TEXT, ("low3", i, j, m[3] - 1) if m[3] > 1 else ("in", i + 1, j)))
        modes[m] = nxt
        todo += [x for _, x in nxt if isinstance(x, tuple) and x[0] in ("in", "esc", "hex", "low", "low2", "low3")]
    return modes, {"end"}, first


NAME = path(("field", "segments", "Vec"), ("elem", 0, "QuerySegment"), ("field", "segment", "Segment"), ("variant", "LongHand", 0, "Vec"),
            ("elem", 0, "Selector"), ("variant", "Name", 0, "Name"), ("field", "0", "String"))
LEFT = path(("field", "0", "Vec"), ("elem", 0, "LogicalAndExpr"), ("field", "0", "Vec"), ("elem", 0, "BasicExpr"),
            ("variant", "Relation", 0, "ComparisonExpr"), ("field", "left", "Comparable"), ("variant", "Literal", 0, "Literal"),
            ("variant", "String", 0, "String"))
ARG = path(("variant", "Literal", 0, "Literal"), ("variant", "String", 0, "String"))


def explore(cx, make, lv, p, modes, values, word=None, seconds=100):
    def go(g, L):
        g.soft = True
        g.prepare([(lv.typ, p)], {"char"})
        k = g.k("obs", lv.follow)
        x, y = g.S(lv.a, lv.ctx, k, 0), g.S(lv.b, lv.ctx, k, 0)
        if word is not None:
            until, out = time.time() + seconds, []
            for t in word:
                if time.time() > until:
                    break
                try:
                    out.append((t,) + tuple(bits_of(L, at_end(L, n, t)) for n in (x, y)))
                except Giveup:
                    continue
            return out
        m, ends, first = modes
        m = dict(m)
        m[0] = m[first]

        def same(cs, x, y):
            x, y = bits_of(L, x), bits_of(L, y)
            if x is None or y is None or not isinstance(x[0], T):
                return False
            m = {}
            for i, c in enumerate(cs):
                v = V("char@%d" % i)
                if c.single() is not None:
                    m[v] = num(c.single())
                elif not c.minus(HEXES):
                    ds = {int(chr(ch), 16) for a, b in c.ivs for ch in range(a, b + 1)}
                    if len(ds) == 1:
                        m[mk("app", "hexval", v)] = num(ds.pop())
            x, y = Constants(m).of(x[0]), Constants(m).of(y[0])
            return x is y
        e = Explorer(L, seconds=seconds, every=EVERYM, values=values, modes=(m, ends), same=same)
        r = e.differ(x, y)
        cx.count("derivative states", e.states)
        cx.count("derivative edges", e.edges)
        return None if r is None else (r[0], bits_of(L, r[1]), bits_of(L, r[2]))
    return analyse3(cx, go, lv.full(), lv.roots, lv.lets(), lv.hard, make)


def as_text(t, word):
    """The text a term stands for, the characters of the text being known."""
    m = {x: num(word[int(x.a[0].split("@")[1])]) for x in fvars(t) if "@" in x.a[0]}
    out = ""
    for q in parts(Constants(m).of(t)):
        if q.op == "lit":
            out += q.a[0]
        elif q.op == "unit" and is_num(q.a[0]) and 0 <= q.a[0].a[0] <= TOP:
            out += chr(q.a[0].a[0])
        else:
            raise Giveup("text " + show(q)[:100])
    return out


def string_of(t):
    out = ""
    for q in parts(t):
        if q.op == "lit":
            out += q.a[0]
        elif q.op == "unit" and is_num(q.a[0]):
            out += chr(q.a[0].a[0])
        else:
            return None
    return out


def kids(t):
    out = []
    rebuild(t, lambda x: out.append(x) or x)
    return out


class Constants:
    """Terms folded, the characters being known."""
    FOLD = {"str_to_lowercase": str.lower, "str_to_uppercase": str.upper, "str_trim": str.strip, "str_trim_start": str.lstrip,
            "str_trim_end": str.rstrip,
            "str_to_ascii_lowercase": lambda s: "".join(c.lower() if c < "\x80" else c for c in s),
            "str_to_ascii_uppercase": lambda s: "".join(c.upper() if c < "\x80" else c for c in s)}

    def __init__(self, m):
        self.m, self.memo = m, {}

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        if t in self.m:
            return self.m[t]
        if t.op == "ite":
            c = self.of(t.a[0])
            return self.of(t.a[1]) if c is TRUE else self.of(t.a[2]) if c is FALSE else t
        xs = {x: self.of(x) for x in kids(t)}
        if any(x is not y for x, y in xs.items()):
            t = Facts().simp(replace(t, xs))
        if t.op != "app":
            return t
        f, args = t.a[0].split("::")[-1], t.a[1:]
        ss = [string_of(x) if isinstance(x, T) and x.op in ("lit", "cat", "unit") else chr(x.a[0]) if is_num(x) and 0 <= x.a[0] <= TOP
              else None for x in args if isinstance(x, T)]
        if f == "hexval" and is_num(args[0]):
            return num(int(chr(args[0].a[0]), 16))
        if f in self.FOLD and ss[0] is not None:
            return lit(self.FOLD[f](ss[0]))
        if f in ("trim_start_matches", "trim_end_matches", "trim_matches") and len(ss) == 2 and None not in ss and len(ss[1]) == 1:
            return lit({"trim_start_matches": str.lstrip, "trim_end_matches": str.rstrip, "trim_matches": str.strip}[f](ss[0], ss[1]))
        if f == "replace" and len(ss) == 3 and None not in ss and ss[1]:
            return lit(ss[0].replace(ss[1], ss[2]))
        if f == "insert_str#out0" and len(ss) == 3 and ss[0] is not None and ss[2] is not None and args[1] is num(0):
            return lit(ss[2] + ss[0])
        if f in ("teq", "eq") and len(ss) == 2 and None not in ss:
            return TRUE if ss[0] == ss[1] else FALSE
        if f == "int&" and all(is_num(x) for x in args):
            return num(args[0].a[0] & args[1].a[0])
        return t


def shown(b, word):
    return None if b is None else as_text(b[0], word)


def compare(cx, lv, p, prefix, suffix):
    """Exactly, for literals of one character or escape, and of several with one escape of four digits."""
    r = explore(cx, G4, lv, p, literal_modes(prefix, suffix, 1), False) \
        or explore(cx, G4, lv, p, literal_modes(prefix, suffix, ITEMS, digits="0041"), False)
    if r is None:
        return EQ
    w = r[0]
    try:
        a, b = shown(r[1], w), shown(r[2], w)
    except Giveup:
        a = b = 0
    if a == b and r[1] is not None and r[2] is not None:
        # the terms differ: texts like this one
        for t, x, y in explore(cx, G4, lv, p, None, False, word=list(like(w, len(prefix), len(suffix), [r[1][0], r[2][0]]))[:400]):
            try:
                a, b = shown(x, t), shown(y, t)
            except Giveup:
                continue
            if a != b:
                w = t
                break
        else:
            raise Giveup("the texts of %s differ, but for no text tried" % readable(w))
    return Diff((), FALSE, TRUE, "the text %r is read as %s by the code and as %s by the grammar" % (
        readable(w), tell(a), tell(b)))


def tell(x):
    return "no literal" if x is None else repr(x)


def roots(t):
    """Characters at places of the text for which some order test of the term changes."""
    for x in all_terms(t):
        if x.op != "ge0":
            continue
        c, m = as_lin(x.a[0])
        ks = sorted(m.items(), key=lambda z: -abs(z[1]))
        if not all(y.op == "app" and y.a[0] == "hexval" and k * ks[0][1] > 0 and y.a[1].op == "var" for y, k in ks):
            continue
        for d in (0, 1, -1):
            rest, out = (-c if ks[0][1] > 0 else c) + d, {}
            for y, k in ks:
                q = max(0, min(15, rest // abs(k)))
                rest -= q * abs(k)
                out[int(y.a[1].a[0].split("@")[1])] = ord("0123456789abcdef"[q])
            yield out


def constants(ts):
    """Characters that terms mention."""
    out = []
    for t in ts:
        for x in all_terms(t):
            if x.op == "lit":
                out += [ord(c) for c in x.a[0]]
            elif x.op == "lin":
                out += [abs(as_lin(x)[0]) + d for d in (0, 1, -1)]
    return sorted({c for c in out if 0 <= c <= TOP and not 0xD800 <= c < 0xE000})


def like(w, at, end, ts):
    """Texts with the same quotes and escapes of the same length."""
    yield w
    lo, hi = at + 1, len(w) - 1 - end
    cs = constants(ts)
    escape = [i for i in range(lo, hi - 5) if w[i] == 92 and w[i + 1] == 117]
    for t in ts:
        for m in roots(t):
            yield [m.get(i, c) for i, c in enumerate(w)]
            yield [ord(chr(m[i]).upper()) if i in m else c for i, c in enumerate(w)]
    for i in escape:
        for c in cs + [0, 0xFFFF, 0xD7FF, 0xE000]:
            if c <= 0xFFFF:
                for f in ("%04x", "%04X"):
                    yield w[:i + 2] + [ord(x) for x in f % c] + w[i + 6:]
    if not escape:
        for i in range(lo, hi):
            for c in cs + [ord(x) for x in " AZaz_'\"\u00c9\u0130\U00010400\t-0"]:
                yield w[:i] + [c] + w[i + 1:]
                yield w[:i] + [c, c] + w[i + 1:]
                yield w[:i] + [97, c] + w[i + 1:]
                yield w[:i] + [c, 98] + w[i + 1:]
    for c in cs + [ord(x) for x in " 'A_\"\0"]:
        yield w[:lo] + [c] + w[lo:]
        yield w[:hi] + [c] + w[hi:]
        yield w[:lo] + [92, 110] + [c] + w[hi:]
        yield w[:lo] + [c] + [92, 110] + w[hi:]
        if c <= 0xFFFF:
            yield w[:lo] + [92, 117] + [ord(x) for x in "%04x" % c] + w[lo:]
    for c in "0123456789abcdefABCDEF":
        for i in range(lo, hi):
            if chr(w[i]) in "0123456789abcdefABCDEF":
                yield w[:i] + [ord(c)] + w[i + 1:]


ITEMS = 2


def composition(cx, lv, p, prefix, suffix):
    """Characters that stand for themselves: none lost, added or moved, in literals of any length."""
    for marks in ("1", "12"):
        q = p + path(("word", marks, None))
        r = explore(cx, G5, lv, q, literal_modes(prefix, suffix, 0, marks), True)
        if r is None:
            continue
        w = r[0]
        t = [unmark(c)[0] for c in w]
        a = b = None
        for _, x, y in explore(cx, G4, lv, p + path(("text", None)), None, False, word=[t]):
            a, b = shown(x, t), shown(y, t)
        if a == b:
            raise Giveup("what %s is made of" % readable(w))
        return Diff((), FALSE, TRUE, "the text %r is read as %s by the code and as %s by the grammar" % (readable(t), tell(a), tell(b)))
    return EQ


def C17(cx):
    root = entry(cx)
    ids = {i for i in reachable(call_graph(cx.prog), root.id) if parser_output(cx.prog.fns[i]) is not None}
    cx.count("parser functions", len(ids))
    r = "sjp_spec::grammar::string_literal"
    lvs = []
    for i in by_type(cx, ids, "String"):
        lv = [Level("String", item(i), item(r), f, {"root", "LogicalOrExpr"}, (i, r), {}, {}, {}, "the literal") for f in (END, None)]
        try:
            if lv[0].acceptance(cx) is None:
                lvs.append((lv[1], path(), "", "", "string literals"))
        except Giveup:
            continue
    if not lvs:
        # no function reads what the grammar does: literals where they are used
        cs_ = cuts(cx)
        if not cs_:
            raise Giveup("no functions at which the recursion of the grammar can be broken")
        o, a = cs_[0]
        cut, _ = levels(cx, o, a)
        for lv in c_struct.top_levels(cx, o, a, cut, {}, {}):
            lvs.append((lv,) + {"Query": (NAME, "$[", "]", "names in brackets"),
                                "LogicalOrExpr": (LEFT, "", "==1)", "string literals in comparisons"),
                                "FunctionExprArg": (ARG, "", ")", "string literals as arguments")}[lv.typ])
    jobs = []
    for lv, p, prefix, suffix, what in lvs:
        fn = cx.prog.fns.get(lv.a.a[0], root)
        jobs.append((fn, "%s: %s stand for the text the grammar says" % (fn.label(), what), compare, lv, p + path(("text", None)), prefix, suffix))
        jobs.append((fn, "%s: the ordinary characters of %s are kept in order" % (fn.label(), what), composition, lv, p, prefix, suffix))

    def one(j):
        cx.counts.clear()
        try:
            d = j[2](cx, *j[3:])
            out = ("eq",) if d is EQ else ("diff", d.why)
        except Giveup as e:
            out = ("unk", str(e))
        return out + (dict(cx.counts),)
    for j, r in zip(jobs, c_struct.in_parallel(jobs, one)):
        if r is None:
            r = ("unk", "the analysis of it ended early", {})
        for k, v in r[-1].items():
            cx.count(k, v)
        d = EQ if r[0] == "eq" else Diff((), FALSE, TRUE, r[1]) if r[0] == "diff" else Unk((), r[1])
        cx.record(j[1], d, where=where(j[0]))
