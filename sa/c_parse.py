"""The parser against the grammar of RFC 9535."""
import re
import load, peg
from peg import *
from ctx import *


def nom(name, *args):
    return mk("app", "nom::" + name, *args)


def item(fid):
    return mk("fn", fid, fid, ())


WS = mk("fn", "nom::character::complete::multispace0", "nom::character::complete::multispace0", ())


def followed(p, chars):
    return tup(p, WS, nom("character::complete::one_of", lit(chars)))


# ------------------------------------------------------------------ which functions read what
def callees(prog, fn):
    """Functions mentioned in the body of fn (closures included)."""
    out = set()
    st = [fn.body]
    while st:
        x = st.pop()
        if isinstance(x, load.Callee):
            for y in (x.res.id if x.res is not None else None, x.id):
                if y in prog.fns:
                    out.add(y)
        elif isinstance(x, dict):
            st += list(x.values())
        elif isinstance(x, (list, tuple)):
            st += list(x)
    return out


def call_graph(prog):
    g = {}
    for f in prog.fns.values():
        if f.body is not None:
            g.setdefault(f.id, set()).update(callees(prog, f))
            if f.kind == "Closure" and f.parent in prog.fns:
                g.setdefault(f.parent, set()).add(f.id)
    return g


def acyclic_without(g, roots, cut):
    """Is the part of the call graph reachable from roots free of cycles once `cut` is taken out?"""
    state = {}

    def visit(x):
        stack = [(x, iter(sorted(g.get(x, ()))))]
        state[x] = 1
        while stack:
            y, it = stack[-1]
            for z in it:
                if z in cut:
                    continue
                if state.get(z) == 1:
                    return False
                if z not in state:
                    state[z] = 1
                    stack.append((z, iter(sorted(g.get(z, ())))))
                    break
            else:
                state[y] = 2
                stack.pop()
        return True
    return all(x in state or visit(x) for x in roots)


def reachable(g, root):
    seen, st = {root}, [root]
    while st:
        for y in g.get(st.pop(), ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def entry(cx):
    return cx.inherent("JsonPath", "parse")


def by_type(cx, ids, name):
    out = []
    for i in sorted(ids):
        f = cx.prog.fns.get(i)
        if f is not None and f.kind != "Closure" and f.crate != "sjp_spec" and type_name(parser_output(f)) == name:
            out.append(i)
    return out


def cuts(cx):
    """Choices (logical expression function, argument function) that break the recursion."""
    g = call_graph(cx.prog)
    root = entry(cx).id
    seen = reachable(g, root)
    parsers = {i for i in seen if parser_output(cx.prog.fns[i]) is not None}
    # only the recursion of parsers matters
    gp = {}
    for i in seen:
        gp[i] = {j for j in g.get(i, ()) if j in parsers or cx.prog.fns[j].kind == "Closure" or j in parsers}
    out = []
    # (a parser without filters has no recursion to break)
    for o in by_type(cx, parsers, "LogicalOrExpr") or [None]:
        for a in by_type(cx, parsers, "FunctionExprArg") or [None]:
            if acyclic_without(gp, [root, o, a], {o, a}):
                out.append((o, a))
    return out


# ------------------------------------------------------------------ comparing
class Level:
    def __init__(self, name, code, ref, ctx, what):
        self.name, self.code, self.ref, self.ctx, self.what = name, code, ref, ctx, what


def analyse(cx, fn, cut=(), roots=(), always=(), small=True, hard=()):
    """fn(grammar, languages) with the analysis started again as often as it asks for more detail."""
    g = G2(cx, None)
    g.cut, g.roots, g.always, g.small, g.hard = dict(cut), set(roots), set(always), small, dict(hard)
    try:
        for i in range(300):
            g.bdd = L = Lang()
            g.restart()
            try:
                return fn(g, L)
            except NeedSplit:
                continue
    finally:
        cx.engine.called |= g.called
    raise Giveup("too many splits")


def compare_languages(cx, a, ca, b, cb, cut=(), roots=(), always=(), small=True, seconds=150, hard=()):
    """None or (witness, accepted by the code, accepted by the definition)."""
    def go(g, L):
        e = Explorer(L, seconds=seconds)
        r = e.differ(g.S(a, frozenset(ca), g.TOPK, 0), g.S(b, frozenset(cb), g.TOPK, 0))
        cx.count("derivative states", e.states)
        cx.count("derivative edges", e.edges)
        return r
    return analyse(cx, go, cut, roots, always, small, hard)


def hard_firsts(cx, fid, ctx, cut, roots, always, hard):
    """The first characters of texts on which the function always fails for good."""
    def go(g, L):
        p = item(fid)
        h = g.H(p, frozenset(ctx))
        if h == 0:
            return NONE_, 0
        eh, th, oh = L.of[h]
        out, rest = NONE_, EVERY
        for c, x in th:
            rest = rest.minus(c)
            if x == 1:
                out = out | c
        return (out | rest if oh == 1 else out), 1 if eh == 1 else 0
    return analyse(cx, go, cut, roots, always, True, hard)


def hardness(cx, cut, lets):
    """For every function that is a letter: where it fails for good.  (Which texts those are depends on
    the letters within it: the least fixpoint.)"""
    hard = {}
    full = dict(cut)
    full.update(lets)
    fids = [f for f in full if not f.startswith("sjp_spec")]
    for i in range(4):
        new = {}
        for f in fids:
            try:
                always = {k: v for k, v in lets.items() if k != f}
                c, e = hard_firsts(cx, f, {"root"}, {k: v for k, v in full.items() if k != f or f in cut}, (f,), always, hard)
            except Giveup:
                c, e = NONE_, 0
            if c or e:
                new[f] = (c, e)
        if new == hard:
            break
        hard = new
    return hard


def accepts(cx, p, ctx, word, cut=(), roots=(), always=()):
    def go(g, L):
        n = g.S(p, frozenset(ctx), g.TOPK, 0)
        f = None
        for c in word:
            if f is not None:
                n = L.node(f)
            _, trans, other = L.of[n]
            f = next((h for d, h in trans if c in d), other)
        if f is not None:
            n = L.node(f)
        return L.of[n][0]
    return analyse(cx, go, cut, roots, always)


SAMPLES = {"string": ['"a"', "'b'", '""'], "integer": ["1", "0", "-3"],
           "logical-expr": ["@.a", "1==1", "$"], "function-argument": ["1", "@.a", "@[*]", "1==1", "'a'"]}


def concretise(word):
    """Texts the letters of a witness can stand for."""
    outs = [[]]
    for c in word:
        nm = LETTERS_REV.get(c, "").strip("\u00ab\u00bb")
        if nm in SAMPLES:
            outs = [o + [ord(x) for x in t] for o in outs for t in SAMPLES[nm]][:60]
        else:
            outs = [o + [c] for o in outs]
    return outs


def named(word):
    return "".join(chr_name(c) for c in word)


def equal_to(cx, ids, typ, ref, small):
    """The functions reading a `typ` that read exactly what the production `ref` reads."""
    good, first = [], None
    r = item("sjp_spec::grammar::" + ref)
    for i in by_type(cx, ids, typ):
        try:
            end = mk("app", "letter", "end")
            d = compare_languages(cx, tup(item(i), end), (), tup(r, end), (), small=small, seconds=60) \
                or compare_languages(cx, item(i), (), r, (), small=small, seconds=60)
        except Giveup as e:
            d = e
        if d is None:
            good.append(i)
    return good


def levels(cx, o, a):
    O, A = "sjp_spec::grammar::logical_or", "sjp_spec::grammar::argument"
    cut = {o: "logical-expr", O: "logical-expr", a: "function-argument", A: "function-argument"}
    cut.pop(None, None)
    root = entry(cx).id
    return cut, [l for l in [
        ("the whole query", item(root), {"entry"}, item("sjp_spec::grammar::query_text"), {"entry"}, ()),
        ("logical expressions", followed(item(o), ")],"), {"root"}, followed(item(O), ")],"), {"root"}, (o, O)),
        ("function arguments", followed(item(a), ",)"), {"root"}, followed(item(A), ",)"), {"root"}, (a, A))]
        if not l[5] or l[5][0] is not None]


LETTER_ROLES = (("String", "string_literal", "string", True), ("Integer", "int", "integer", False))


def letters(cx, ids):
    """Functions that read string literals and integers exactly as the grammar does: in larger
    comparisons what they read is one letter."""
    cut = {}
    for typ, ref, name, small in LETTER_ROLES:
        good = equal_to(cx, ids, typ, ref, small)
        if good:
            cut[good[0]] = name
            cut["sjp_spec::grammar::" + ref] = name
            for g in good[1:]:
                cut[g] = name
    return cut


def C15(cx):
    root = entry(cx)
    ids = {i for i in reachable(call_graph(cx.prog), root.id) if parser_output(cx.prog.fns[i]) is not None}
    cx.count("parser functions", len(ids))
    lets = letters(cx, ids)
    for typ, ref, name, small in LETTER_ROLES:
        fns = [k for k, v in lets.items() if v == name and not k.startswith("sjp_spec")]
        if fns:
            cx.record("%s read the production %s of the grammar" % (", ".join(load.short(x) for x in fns), ref), EQ,
                      where=where(cx.prog.fns[fns[0]]))
    cs_ = cuts(cx)
    if not cs_:
        raise Giveup("no functions at which the recursion of the grammar can be broken")
    best = None
    for o, a in cs_:
        cut, ls = levels(cx, o, a)
        res = []
        hard = hardness(cx, cut, lets)
        for name, pa, ca, pb, cb, roots in ls:
            fn = root if name == "the whole query" else cx.prog.fns[roots[0]]
            try:
                d = decide(cx, pa, ca, pb, cb, cut, roots, lets, hard)
            except Giveup as e:
                d = Unk((), str(e))
            res.append(("%s accepts %s exactly when the grammar does" % (fn.label(), name), d, fn))
        bad = sum(1 for _, d, _ in res if d is not EQ)
        if best is None or bad < best[0]:
            best = (bad, res)
        if not bad:
            break
    for name, d, fn in best[1]:
        cx.record(name, d, where=where(fn))


def decide(cx, pa, ca, pb, cb, cut, roots, lets, hard=()):
    full = dict(cut)
    full.update(lets)
    d = compare_languages(cx, pa, ca, pb, cb, full, roots, lets, hard=hard)
    if d is None:
        return EQ
    w = d[0]
    if not any(LETTERS_REV.get(c, "").strip("\u00ab\u00bb") in SAMPLES for c in w):
        return verdict(w, d[1])
    # the letters of the witness replaced by texts, and both grammars asked without letters
    for t in concretise(w):
        x, y = accepts(cx, pa, ca, t), accepts(cx, pb, cb, t)
        if x != y:
            return verdict(t, x)
    raise Giveup("the grammars differ on %s, but on no text tried for it" % named(w))


def verdict(w, a):
    return Diff((), None, None, "the text %r is %s by the code and %s by the grammar" % (
        named(w), "accepted" if a else "rejected", "rejected" if a else "accepted"))
