"""Interned terms and decision diagrams.

A value is an ite-tree over atoms whose leaves are constructor terms, sequences, linear
integer terms or uninterpreted applications.  Atoms are variant tests (`is`), linear
inequalities (`ge0`), existence over a range (`exists`) and uninterpreted booleans.
"""
import sys
sys.setrecursionlimit(max(20000, sys.getrecursionlimit()))


class T:
    __slots__ = ("op", "a", "uid", "_fv", "_unk", "_size", "__weakref__")

    def __init__(self, op, a, uid):
        self.op = op
        self.a = a
        self.uid = uid
        self._fv = None
        self._unk = None
        self._size = None

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T(op, a, len(_tab))
        _tab[k] = t
    return t


TRUE = mk("true")
FALSE = mk("false")
BOT = mk("bot")
UNIT = mk("tup")
NIL = mk("cat")

_fresh = [0]


def fresh():
    _fresh[0] += 1
    return _fresh[0]


def children(t):
    return [x for x in t.a if isinstance(x, T)]


def fv(t):
    """Bound-variable ids occurring free in t."""
    r = t._fv
    if r is None:
        if t.op in ("bv", "st"):
            r = frozenset((t.a[0],))
        else:
            r = frozenset()
            for x in t.a:
                if isinstance(x, T):
                    r |= fv(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            r |= fv(y)
                        elif isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, T):
                                    r |= fv(z)
            if t.op in ("each", "exists", "first", "count"):
                # a = (bvid, n, step, body); n and step do not contain the binder
                r -= {t.a[0]}
            elif t.op == "loop":
                r -= {t.a[0]} | set(t.a[3])
        t._fv = r
    return r


def size(t):
    r = t._size
    if r is None:
        r = 1
        for x in t.a:
            if isinstance(x, T):
                r += size(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        r += size(y)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                r += size(z)
        t._size = r
    return r


def unknown(t):
    """Names of the operations in t that the analysis knows nothing about."""
    r = t._unk
    if r is None:
        r = frozenset()
        if t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("?"):
            r = frozenset((t.a[0],))
        for x in t.a:
            if isinstance(x, T):
                r |= unknown(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        r |= unknown(y)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                r |= unknown(z)
        t._unk = r
    return r


# ----------------------------------------------------------------- integers
def lin(c, m):
    """m: dict term->coef"""
    items = tuple(sorted(((t, k) for t, k in m.items() if k), key=lambda p: p[0].uid))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def num(c):
    return mk("lin", c, ())


def as_lin(t):
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def is_num(t):
    return t.op == "lin" and not t.a[1]


def _lift2(f, a, b):
    if a.op == "ite":
        return ite(a.a[0], _lift2(f, a.a[1], b), _lift2(f, a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], _lift2(f, a, b.a[1]), _lift2(f, a, b.a[2]))
    if a is BOT or b is BOT:
        return BOT
    return f(a, b)


def _add(a, b):
    c, m = as_lin(a)
    d, n = as_lin(b)
    m = dict(m)
    for t, k in n.items():
        m[t] = m.get(t, 0) + k
    return lin(c + d, m)


def add(a, b):
    return _lift2(_add, a, b)


def _scale(a, k):
    if a.op == "ite":
        return ite(a.a[0], _scale(a.a[1], k), _scale(a.a[2], k))
    if a is BOT:
        return BOT
    c, m = as_lin(a)
    return lin(c * k, {t: v * k for t, v in m.items()})


scale = _scale


def neg(a):
    return _scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mul(a, b):
    if is_num(a):
        return _scale(b, a.a[0])
    if is_num(b):
        return _scale(a, b.a[0])
    # distribute over monomials
    ca, ma = as_lin(a)
    cb, mb = as_lin(b)
    r = num(ca * cb)
    for t, k in ma.items():
        if cb:
            r = _add(r, lin(0, {t: k * cb}))
        for u, l in mb.items():
            r = _add(r, lin(0, {mono(t, u): k * l}))
    for u, l in mb.items():
        if ca:
            r = _add(r, lin(0, {u: l * ca}))
    return r


def mono(t, u):
    fs = []
    for x in (t, u):
        if x.op == "mono":
            fs.extend(x.a)
        else:
            fs.append(x)
    fs.sort(key=lambda x: x.uid)
    return mk("mono", *fs)


def mul(a, b):
    return _lift2(_mul, a, b)


def ge0(t):
    """t >= 0 as a boolean."""
    if t.op == "ite":
        return ite(t.a[0], ge0(t.a[1]), ge0(t.a[2]))
    if t is BOT:
        return BOT
    c, m = as_lin(t)
    if not m:
        return TRUE if c >= 0 else FALSE
    # divide by the gcd of the coefficients (integers)
    from math import gcd
    g = 0
    for k in m.values():
        g = gcd(g, abs(k))
    if g > 1:
        m = {x: k // g for x, k in m.items()}
        c = c // g  # floor
    # canonical polarity: make the coefficient of the smallest term positive;
    # t>=0 with negative leading is  not(-t-1>=0)
    lead = min(m, key=lambda x: x.uid)
    if m[lead] < 0:
        m2 = {x: -k for x, k in m.items()}
        return bnot(mk("ge0", mk("lin", -c - 1, tuple(sorted(m2.items(), key=lambda p: p[0].uid)))))
    return mk("ge0", mk("lin", c, tuple(sorted(m.items(), key=lambda p: p[0].uid))))


def lt(a, b):
    return ge0(sub(sub(b, a), num(1)))


def le(a, b):
    return ge0(sub(b, a))


def eqi(a, b):
    d = sub(a, b)
    return band(ge0(d), ge0(neg(d)))


# ----------------------------------------------------------------- booleans / ite
def is_bool_leaf(t):
    return t is TRUE or t is FALSE


_ite_memo = {}


def ite(c, h, l):
    """c any boolean DD."""
    if c is TRUE:
        return h
    if c is FALSE:
        return l
    if h is l:
        return h
    if c is BOT:
        return BOT
    if h is BOT:
        return l
    if l is BOT:
        return h
    key = (c, h, l)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op == "ite":
        r = ite(c.a[0], ite(c.a[1], h, l), ite(c.a[2], h, l))
    else:
        # prune nested tests of the same atom
        h2 = _restrict(h, c, True)
        l2 = _restrict(l, c, False)
        if h2 is l2:
            r = h2
        elif h2 is TRUE and l2 is FALSE:
            r = c
        elif l2.op == "ite" and l2.a[1] is h2 and _implies(c, l2.a[0]):
            r = l2          # c implies the inner test, which leads to the same
        elif h2.op == "ite" and h2.a[2] is l2 and _implies(h2.a[0], c):
            r = h2
        else:
            r = mk("ite", c, h2, l2)
    _ite_memo[key] = r
    return r


def _implies(a, b):
    """Linear conditions on the same combination: does a imply b?"""
    if a.op != "ge0" or b.op != "ge0":
        return False
    x, y = a.a[0], b.a[0]
    return as_lin(x)[1] == as_lin(y)[1] and as_lin(x)[0] <= as_lin(y)[0]


_res_memo = {}


def _restrict(t, atom, val):
    """Replace `atom` by `val` in the ite-spine of t."""
    if t is atom:
        return TRUE if val else FALSE
    if t.op != "ite":
        return t
    k = (t, atom, val)
    r = _res_memo.get(k)
    if r is None:
        if t.a[0] is atom:
            r = _restrict(t.a[1] if val else t.a[2], atom, val)
        elif t.a[0].op == "is" and atom.op == "is" and val and t.a[0].a[0] is atom.a[0]:
            # a different variant of the same term
            r = _restrict(t.a[1] if t.a[0].a[2] == atom.a[2] else t.a[2], atom, val)
        else:
            r = ite(t.a[0], _restrict(t.a[1], atom, val), _restrict(t.a[2], atom, val))
        _res_memo[k] = r
    return r


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c is BOT:
        return BOT
    return ite(c, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


# ----------------------------------------------------------------- data
def con(adt, variant, *fields):
    return mk("con", adt, variant, *fields)


def tup(*xs):
    return mk("tup", *xs)


OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"
NONE = con(OPT, "None")


def some(x):
    return con(OPT, "Some", x)


def ok(x):
    return con(RES, "Ok", x)


def err(x):
    return con(RES, "Err", x)


LESS, EQUAL, GREATER = con(ORD, "Less"), con(ORD, "Equal"), con(ORD, "Greater")


def lift(f, t):
    """Apply f to every ite leaf of t."""
    if t.op == "ite":
        return ite(t.a[0], lift(f, t.a[1]), lift(f, t.a[2]))
    if t is BOT:
        return BOT
    return f(t)


SINGLE = {}   # adt -> only variant, filled by the engine (structs and 1-variant enums)


def is_variant(t, adt, v):
    if t.op == "ite":
        return ite(t.a[0], is_variant(t.a[1], adt, v), is_variant(t.a[2], adt, v))
    if t.op == "con":
        return TRUE if t.a[1] == v else FALSE
    if t is BOT:
        return BOT
    if SINGLE.get(adt) == v:
        return TRUE
    vs = VARIANTS.get(adt)
    if vs is not None and len(vs) == 2 and v == vs[1]:
        return bnot(mk("is", t, adt, vs[0]))
    return mk("is", t, adt, v)


VARIANTS = {}   # adt -> variant names


def proj(t, adt, variant, idx):
    """idx: position of the field in the variant."""
    if t.op == "ite":
        return ite(t.a[0], proj(t.a[1], adt, variant, idx), proj(t.a[2], adt, variant, idx))
    if t.op == "con":
        if t.a[1] != variant:
            return BOT
        return t.a[2 + idx]
    if t is BOT:
        return BOT
    if t.op == "app" and t.a[0] == "elt":
        pass
    return mk("proj", t, adt, variant, idx)


def tproj(t, i):
    if t.op == "ite":
        return ite(t.a[0], tproj(t.a[1], i), tproj(t.a[2], i))
    if t.op == "tup":
        return t.a[i]
    if t is BOT:
        return BOT
    return mk("tproj", t, i)


# ----------------------------------------------------------------- sequences
def lit(s):
    return mk("lit", s) if s else NIL


def unit(x):
    if x.op == "ite":
        return ite(x.a[0], unit(x.a[1]), unit(x.a[2]))
    if x is BOT:
        return BOT
    if x.op == "chr":
        return mk("lit", x.a[0])
    return mk("unit", x)


def chr_(c):
    return mk("chr", c)


def cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            for q in p.a:
                _push(out, q)
        else:
            _push(out, p)
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def _push(out, p):
    if p is BOT:
        return
    if p.op == "lit" and out and out[-1].op == "lit":
        out[-1] = mk("lit", out[-1].a[0] + p.a[0])
    else:
        out.append(p)


def parts(s):
    if s.op == "cat":
        return list(s.a)
    return [s]


SEQOPS = ("cat", "unit", "lit", "each")


def each(b, n, step, body):
    """for b = 0; b < n; b += step: body   (concatenation)"""
    if body is NIL:
        return NIL
    if n.op == "ite":
        return ite(n.a[0], each(b, n.a[1], step, body), each(b, n.a[2], step, body))
    if step.op == "ite":
        return ite(step.a[0], each(b, n, step.a[1], body), each(b, n, step.a[2], body))
    if is_num(n) and is_num(step) and step.a[0] >= 1:
        k = n.a[0]
        if k <= 0:
            return NIL
        if (k + step.a[0] - 1) // step.a[0] <= 4:
            return cat(*[subst(body, b, num(i)) for i in range(0, k, step.a[0])])
    if n is BOT:
        return BOT
    # hoist a condition that does not depend on the binder
    if body.op == "ite" and b not in fv(body.a[0]):
        return ite(body.a[0], each(b, n, step, body.a[1]), each(b, n, step, body.a[2]))
    # eta: each(b<len(S), elt(S,b)) = S
    if body.op == "unit" and is_num(step) and step.a[0] == 1:
        x = body.a[0]
        if x.op == "app" and x.a[0] == "elt" and x.a[2] is mk("bv", b) and b not in fv(x.a[1]):
            if n is length(x.a[1]):
                return x.a[1]
    return _canon_binder("each", b, n, step, body)


def _canon_binder(op, b, n, step, body):
    """Rename the binder to a canonical id derived from the nesting depth."""
    d = _depth(body) + 1
    d = max(d, _depth(n), _depth(step))
    nb = -d
    if nb != b:
        body = _rename(body, {b: mk("bv", nb)}, {})
    return mk(op, nb, n, step, body)


_depth_memo = {}


def _depth(t):
    r = _depth_memo.get(t)
    if r is None:
        r = 0
        if t.op in ("each", "exists", "first", "loop"):
            r = -t.a[0]
        for x in t.a:
            if isinstance(x, T):
                r = max(r, _depth(x))
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        r = max(r, _depth(y))
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                r = max(r, _depth(z))
        _depth_memo[t] = r
    return r


def exists(b, n, step, c):
    if c is FALSE:
        return FALSE
    if n.op == "ite":
        return ite(n.a[0], exists(b, n.a[1], step, c), exists(b, n.a[2], step, c))
    if is_num(n) and is_num(step):
        if n.a[0] <= 0:
            return FALSE
        if (n.a[0] + step.a[0] - 1) // step.a[0] <= 4:
            r = FALSE
            for i in range(0, n.a[0], step.a[0]):
                r = bor(r, subst(c, b, num(i)))
            return r
    if c is TRUE or b not in fv(c):
        return band(ge0(sub(n, num(1))), c)
    return _canon_binder("exists", b, n, step, c)


def bv(b):
    return mk("bv", b)


def length(s):
    """Number of elements (characters' bytes are handled separately for text)."""
    if s.op == "ite":
        return ite(s.a[0], length(s.a[1]), length(s.a[2]))
    if s is BOT:
        return BOT
    if s.op == "cat":
        r = num(0)
        for p in s.a:
            r = add(r, length(p))
        return r
    if s.op == "unit":
        return num(1)
    if s.op == "lit":
        return num(len(s.a[0]))
    if s.op == "each" and s.a[3].op == "unit" and is_num(s.a[2]) and s.a[2].a[0] == 1:
        n = s.a[1]
        return ite(ge0(n), n, num(0))
    if s.op == "app" and s.a[0] == "prefix":
        return s.a[2]
    return mk("app", "len", s)


def elt(s, i):
    if s.op == "ite":
        return ite(s.a[0], elt(s.a[1], i), elt(s.a[2], i))
    if i.op == "ite":
        return ite(i.a[0], elt(s, i.a[1]), elt(s, i.a[2]))
    if s is BOT or i is BOT:
        return BOT
    if s.op == "unit" and is_num(i):
        return s.a[0] if i.a[0] == 0 else BOT
    if s.op == "each" and s.a[3].op == "unit" and is_num(s.a[2]) and s.a[2].a[0] == 1:
        return subst(s.a[3].a[0], s.a[0], i)
    if s.op == "cat" and is_num(i):
        k = i.a[0]
        for p in s.a:
            if p.op == "unit":
                if k == 0:
                    return p.a[0]
                k -= 1
            elif p.op == "lit":
                if k < len(p.a[0]):
                    return num(ord(p.a[0][k]))
                k -= len(p.a[0])
            else:
                break
        else:
            return BOT
    if s.op == "lit" and is_num(i):
        return num(ord(s.a[0][i.a[0]])) if 0 <= i.a[0] < len(s.a[0]) else BOT
    return mk("app", "elt", s, i)


def app(name, *args):
    """Uninterpreted application; lifts nothing."""
    return mk("app", name, *args)


def lapp(name, *args):
    """Application that lifts ite out of its arguments."""
    for k, x in enumerate(args):
        if isinstance(x, T):
            if x.op == "ite":
                a = list(args)
                a[k] = x.a[1]
                h = lapp(name, *a)
                a[k] = x.a[2]
                return ite(x.a[0], h, lapp(name, *a))
            if x is BOT:
                return BOT
    return mk("app", name, *args)


# ----------------------------------------------------------------- rebuild / substitution
def rebuild(t, f):
    """Rebuild t with f applied to its children, through the smart constructors."""
    op, a = t.op, t.a
    if op in ("var", "bv", "st", "true", "false", "bot", "lit", "chr", "mref", "clo", "fn", "const", "flt"):
        return t
    if op == "lin":
        r = num(a[0])
        for x, k in a[1]:
            r = add(r, _scale(f(x), k))
        return r
    if op == "mono":
        r = f(a[0])
        for x in a[1:]:
            r = mul(r, f(x))
        return r
    if op == "ge0":
        return ge0(f(a[0]))
    if op == "is":
        return is_variant(f(a[0]), a[1], a[2])
    if op == "ite":
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if op == "con":
        return mk("con", a[0], a[1], *[f(x) for x in a[2:]])
    if op == "tup":
        return mk("tup", *[f(x) for x in a])
    if op == "proj":
        return proj(f(a[0]), a[1], a[2], a[3])
    if op == "tproj":
        return tproj(f(a[0]), a[1])
    if op == "unit":
        return unit(f(a[0]))
    if op == "cat":
        return cat(*[f(x) for x in a])
    if op in ("each", "exists", "first"):
        nb, body = open_(t)
        return BINDERS[op](nb, f(a[1]), f(a[2]), f(body))
    if op == "loop":
        # (bvid, n, step, stids, inits, body)
        nb, sts, body = open_loop(t)
        return loop(nb, f(a[1]), f(a[2]), sts, tuple(f(x) for x in a[4]), f(body), a[6])
    if op == "app":
        return mkapp(a[0], *[f(x) if isinstance(x, T) else x for x in a[1:]])
    raise Exception("rebuild " + op)


def open_(t):
    """Open a binder with a fresh id."""
    nb = fresh()
    return nb, _rename(t.a[3], {t.a[0]: bv(nb)}, {})


def open_loop(t):
    nb = fresh()
    m = {t.a[0]: bv(nb)}
    sts = []
    for x in t.a[3]:
        n = fresh()
        sts.append(n)
        m[x] = mk("st", n)
    return nb, tuple(sts), _rename(t.a[5], m, {})


def _rename(t, m, memo):
    """Replace bound variables by fresh variables (no capture possible, no rebuilding of closed
    parts)."""
    if not (fv(t) & m.keys()):
        return t
    r = memo.get(t)
    if r is None:
        if t.op in ("bv", "st"):
            r = m[t.a[0]]
        else:
            r = _map(t, lambda x: _rename(x, m, memo))
        memo[t] = r
    return r


def _map(t, f):
    """Structure-preserving map (ordering-sensitive operators are rebuilt)."""
    if t.op in ("lin", "mono", "ge0"):
        return rebuild(t, f)
    if t.op in ("each", "exists", "first"):
        return mk(t.op, t.a[0], f(t.a[1]), f(t.a[2]), f(t.a[3]))
    if t.op == "loop":
        return mk("loop", t.a[0], f(t.a[1]), f(t.a[2]), t.a[3], tuple(f(x) for x in t.a[4]), f(t.a[5]), t.a[6])
    if t.op == "ite":
        c, h, l = f(t.a[0]), f(t.a[1]), f(t.a[2])
        if c.op in ("ite", "true", "false"):
            return ite(c, h, l)
        return mk("ite", c, h, l)
    if t.op == "app" and t.a[0] in APP_SIMP:
        return mkapp(t.a[0], *[f(x) if isinstance(x, T) else x for x in t.a[1:]])
    return mk(t.op, *[f(x) if isinstance(x, T) else x for x in t.a])


def loop(b, n, step, sts, inits, body, adt):
    if n is BOT:
        return BOT
    if is_num(n) and is_num(step) and step.a[0] > 0 and (n.a[0] + step.a[0] - 1) // step.a[0] <= 2:
        return unroll(b, n.a[0], step.a[0], sts, inits, body, adt)
    d = 1 + max(_depth(body), _depth(n), _depth(step), *[_depth(x) for x in inits])
    m = {b: bv(-d)}
    nsts = []
    for k, x in enumerate(sts):
        m[x] = mk("st", -(d * 100 + k))
        nsts.append(-(d * 100 + k))
    return mk("loop", -d, n, step, tuple(nsts), tuple(inits), _rename(body, m, {}), adt)


def unroll(b, n, step, sts, inits, body, adt):
    def run(i, states):
        if i >= n:
            return con(adt, "done", *states)
        m = {b: num(i)}
        m.update(zip(sts, states))
        return walk(substm(body, m), i)

    def walk(t, i):
        if t.op == "ite":
            return ite(t.a[0], walk(t.a[1], i), walk(t.a[2], i))
        if t.op == "con" and t.a[0] == "@next":
            if t.a[1] == "next":
                return run(i + step, t.a[2:])
            return con(adt, t.a[1], *t.a[2:])
        return t
    return run(0, tuple(inits))


def first(b, n, step, c):
    """The first index at which c holds; meaningful where there is one."""
    if c is TRUE:
        return num(0)
    if is_num(n) and is_num(step) and 0 < n.a[0] and (n.a[0] + step.a[0] - 1) // step.a[0] <= 4:
        ks = list(range(0, n.a[0], step.a[0]))
        r = num(ks[-1])
        for i in reversed(ks[:-1]):
            r = ite(subst(c, b, num(i)), num(i), r)
        return r
    return _canon_binder("first", b, n, step, c)


BINDERS = {}
APP_SIMP = {}


def mkapp(name, *args):
    h = APP_SIMP.get(name)
    if h is not None:
        return h(*args)
    if isinstance(name, str) and name.startswith("@"):
        # local function application: keep ites inside
        return mk("app", name, *args)
    return lapp(name, *args)


BINDERS.update(each=each, exists=exists, first=first)
APP_SIMP["len"] = length
APP_SIMP["elt"] = elt


def _lift_first(name):
    def f(x, *rest):
        if x.op == "ite":
            return ite(x.a[0], f(x.a[1], *rest), f(x.a[2], *rest))
        return BOT if x is BOT else mk("app", name, x, *rest)
    return f


for _n in ("sorted", "dedup"):
    APP_SIMP[_n] = _lift_first(_n)


def subst(t, b, v):
    """Replace bound variable b (bv or st id) by v."""
    return _subst(t, {b: v}, {})


def substm(t, m):
    return _subst(t, m, {})


def _subst(t, m, memo):
    if not (fv(t) & m.keys()):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("bv", "st"):
        r = m[t.a[0]]
    else:
        r = rebuild(t, lambda x: _subst(x, m, memo))
    memo[t] = r
    return r


def replace(t, table, memo=None):
    """Replace whole sub-terms."""
    if memo is None:
        memo = {}
    r = table.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is None:
        r = rebuild(t, lambda x: replace(x, table, memo))
        memo[t] = r
    return r


def occurs(t, p, seen=None):
    """Does predicate p hold for some sub-term?"""
    if seen is None:
        seen = set()
    if t in seen:
        return False
    seen.add(t)
    if p(t):
        return True
    for x in t.a:
        if isinstance(x, T):
            if occurs(x, p, seen):
                return True
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    if occurs(y, p, seen):
                        return True
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T) and occurs(z, p, seen):
                            return True
    return False


# ----------------------------------------------------------------- printing
def short(p):
    if not isinstance(p, str):
        return str(p)
    return p.rsplit("::", 1)[-1]


def show(t, d=0):
    if d > 14:
        return "…"
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if op == "lin":
        out = []
        for x, k in a[1]:
            out.append(("%d*" % k if k not in (1, -1) else ("-" if k == -1 else "")) + s(x))
        if a[0] or not out:
            out.append(str(a[0]))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if op == "var":
        return a[0]
    if op == "bv":
        return "i%d" % abs(a[0])
    if op == "st":
        return "s%d" % abs(a[0])
    if op in ("true", "false", "bot"):
        return op
    if op == "ite":
        return "if %s {%s} else {%s}" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "is":
        return "%s is %s" % (s(a[0]), a[2])
    if op == "ge0":
        return "%s >= 0" % s(a[0])
    if op == "con":
        return a[1] + ("(" + ", ".join(s(x) for x in a[2:]) + ")" if len(a) > 2 else "")
    if op == "tup":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if op == "proj":
        return "%s.%s%s" % (s(a[0]), (a[2] + ".") if SINGLE.get(a[1]) != a[2] else "", a[3])
    if op == "tproj":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "lit":
        return repr(a[0])
    if op == "chr":
        return "'%s'" % a[0].encode("unicode_escape").decode()
    if op == "unit":
        return "[" + s(a[0]) + "]"
    if op == "cat":
        return "[]" if not a else "(" + " ++ ".join(s(x) for x in a) + ")"
    if op in ("each", "exists", "first"):
        st = "" if a[2] is num(1) else " by " + s(a[2])
        return "%s i%d<%s%s {%s}" % (op, abs(a[0]), s(a[1]), st, s(a[3]))
    if op == "loop":
        return "loop i%d<%s states=%s init=%s {%s}" % (abs(a[0]), s(a[1]), a[3], [s(x) for x in a[4]], s(a[5]))
    if op == "app":
        return "%s(%s)" % (short(a[0]) if "::" in str(a[0]) else a[0],
                           ", ".join(s(x) if isinstance(x, T) else str(x) for x in a[1:]))
    if op == "mono":
        return "*".join(s(x) for x in a)
    return "%s%r" % (op, a)


def all_terms(t, out=None):
    if out is None:
        out = set()
    if t in out:
        return out
    out.add(t)
    for x in t.a:
        if isinstance(x, T):
            all_terms(x, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    all_terms(y, out)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            all_terms(z, out)
    return out
