"""Meaning of the standard library, serde_json, regex operations the code uses."""
from terms import *
from engine import VALUE, INT_ADT, PRIM_RANGE, TYPED, TEXTS, Diverge, Unsupported, strip, is_bool, PYFN
import engine as E
from facts import BLENS, ATOM_DECIDE
import re

MODELS = {}
PURE = {}      # library functions treated as free (pure, uninterpreted) operations
CONSTS = {"core::f64::EPSILON": mk("flt", "eps")}


def model(*keys):
    def d(f):
        for k in keys:
            MODELS[k] = f
        return f
    return d


def R(ev, v):
    return ev.read_ref(v) if v.op in ("mref", "ite") else v


# ------------------------------------------------------------------ text / floats
def teq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite":
        return ite(a.a[0], teq(a.a[1], b), teq(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], teq(a, b.a[1]), teq(a, b.a[2]))
    if a is BOT or b is BOT:
        return BOT
    if is_lit(a) and is_lit(b):
        return FALSE
    if is_lit(a) or (not is_lit(b) and a.uid > b.uid):
        a, b = b, a
    if b is NIL:
        return bnot(ge0(sub(length(a), num(1))))
    return mk("app", "teq", a, b)


def is_lit(a):
    return a.op == "lit" or a is NIL


def tlt(a, b):
    if a is b:
        return FALSE
    if a.op == "ite":
        return ite(a.a[0], tlt(a.a[1], b), tlt(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], tlt(a, b.a[1]), tlt(a, b.a[2]))
    if is_lit(a) and is_lit(b):
        x = a.a[0] if a.op == "lit" else ""
        y = b.a[0] if b.op == "lit" else ""
        return TRUE if x < y else FALSE
    if a.uid > b.uid:
        # b < a negated and not equal
        return band(bnot(mk("app", "tlt", b, a)), bnot(teq(a, b)))
    return mk("app", "tlt", a, b)


def feq(a, b):
    if a is b:
        return TRUE      # JSON numbers are finite
    if a.op == "ite":
        return ite(a.a[0], feq(a.a[1], b), feq(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], feq(a, b.a[1]), feq(a, b.a[2]))
    if a.uid > b.uid:
        a, b = b, a
    return mk("app", "feq", a, b)


def flt(a, b):
    if a is b:
        return FALSE
    if a.op == "ite":
        return ite(a.a[0], flt(a.a[1], b), flt(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], flt(a, b.a[1]), flt(a, b.a[2]))
    if a.uid > b.uid:
        return band(bnot(mk("app", "flt", b, a)), bnot(feq(a, b)))
    return mk("app", "flt", a, b)


APP_SIMP.update(teq=teq, tlt=tlt, feq=feq, flt=flt)


def float_op(op, a, b):
    if op == "==":
        return feq(a, b)
    if op == "!=":
        return bnot(feq(a, b))
    if op == "<":
        return flt(a, b)
    if op == ">":
        return flt(b, a)
    if op == "<=":
        return bor(flt(a, b), feq(a, b))
    if op == ">=":
        return bor(flt(b, a), feq(a, b))
    return lapp("float" + op, a, b)


# ------------------------------------------------------------------ sequences
MAPS = set()     # opaque terms that are maps (elements are key/value pairs)


def as_seq(ev, v):
    v = R(ev, v)
    if v.op == "ite":
        return ite(v.a[0], as_seq(ev, v.a[1]), as_seq(ev, v.a[2]))
    if v.op == "con" and v.a[0] == OPT:
        return unit(v.a[2]) if v.a[1] == "Some" else NIL
    return v


def elem(ev, seq, i):
    r = elt(seq, i)
    return r


def map_pairs(m):
    """Iteration over a serde_json map / BTreeMap."""
    if m.op == "ite":
        return ite(m.a[0], map_pairs(m.a[1]), map_pairs(m.a[2]))
    b = fresh()
    return each(b, length(m), num(1), unit(tup(app("mapkey", m, bv(b)), app("mapval", m, bv(b)))))


def mapkey(m, i):
    t = app("mapkey", m, i)
    return t


def subseq(ev, s, lo, hi):
    if lo is num(0) and hi is length(s):
        return s
    b = fresh()
    return each(b, sub(hi, lo), num(1), unit(elt(s, add(lo, bv(b)))))


def rev(ev, s):
    s = ev.simp(s)
    op = s.op
    if op == "ite":
        return ite(s.a[0], rev(ev, s.a[1]), rev(ev, s.a[2]))
    if op == "cat":
        return cat(*[rev(ev, p) for p in reversed(s.a)])
    if op == "unit":
        return s
    if op == "lit":
        return lit(s.a[0][::-1])
    if op == "each":
        if s.a[2] is num(1):
            nb, body = open_(s)
            c = fresh()
            n = s.a[1]
            return each(c, n, num(1), subst(rev(ev, body), nb, sub(sub(n, num(1)), bv(c))))
        # stepped ranges: number of steps k = ceil(n/step)
        nb, body = open_(s)
        k = lapp("ceildiv", s.a[1], s.a[2])
        TYPED[k] = "usize"
        c = fresh()
        return each(c, k, num(1), subst(rev(ev, body), nb, mul(sub(sub(k, num(1)), bv(c)), s.a[2])))
    b = fresh()
    n = length(s)
    return each(b, n, num(1), unit(elt(s, sub(sub(n, num(1)), bv(b)))))


def indexable(s):
    """(n, f) when s has exactly one element per index."""
    if s.op == "each" and s.a[3].op == "unit" and s.a[2] is num(1):
        nb, body = open_(s)
        return s.a[1], (lambda i, nb=nb, body=body: subst(body.a[0], nb, i))
    if s.op in ("each", "cat", "ite", "unit", "lit"):
        return None
    return length(s), (lambda i: elt(s, i))


def enumerate_(ev, s, start=None):
    s = ev.simp(s)
    start = start or num(0)
    if s is NIL:
        return NIL
    if s.op == "ite":
        return ite(s.a[0], enumerate_(ev, s.a[1], start), enumerate_(ev, s.a[2], start))
    if s.op == "unit":
        return unit(tup(start, s.a[0]))
    ix = indexable(s)
    if ix is not None:
        n, f = ix
        b = fresh()
        return each(b, n, num(1), unit(tup(add(start, bv(b)), f(bv(b)))))
    if s.op == "cat":
        out = []
        for p in s.a:
            out.append(enumerate_(ev, p, start))
            start = add(start, length(p))
        return cat(*out)
    ev.note("enumerate over a filtered sequence")
    return app("?enumerate", s)


def seq_skip(ev, s, k):
    s = ev.simp(s)
    if s.op == "ite":
        return ite(s.a[0], seq_skip(ev, s.a[1], k), seq_skip(ev, s.a[2], k))
    k = ev.simp(k)
    if k.op == "ite":
        return ite(k.a[0], seq_skip(ev, s, k.a[1]), seq_skip(ev, s, k.a[2]))
    if s.op == "cat" and is_num(k):
        ps = list(s.a)
        r = k.a[0]
        while r > 0 and ps:
            if ps[0].op == "unit":
                ps.pop(0)
                r -= 1
            elif ps[0].op == "lit":
                t = ps[0].a[0]
                if len(t) > r:
                    ps[0] = lit(t[r:])
                    r = 0
                else:
                    ps.pop(0)
                    r -= len(t)
            else:
                break
        if r == 0:
            return cat(*ps)
        if not ps:
            return NIL
    ix = indexable(s) or (length(s), lambda i: elt(s, i))
    n, f = ix
    b = fresh()
    return each(b, sub(n, k), num(1), unit(f(add(bv(b), k))))


def seq_take(ev, s, k):
    s = ev.simp(s)
    if s.op == "ite":
        return ite(s.a[0], seq_take(ev, s.a[1], k), seq_take(ev, s.a[2], k))
    k = ev.simp(k)
    ix = indexable(s) or (length(s), lambda i: elt(s, i))
    n, f = ix
    n = ite(le(k, n), k, n)
    b = fresh()
    return each(b, ev.simp(n), num(1), unit(f(bv(b))))


def step_by(ev, s, k):
    s = ev.simp(s)
    if s.op == "ite":
        return ite(s.a[0], step_by(ev, s.a[1], k), step_by(ev, s.a[2], k))
    k = ev.simp(k)
    z = ev.decide(ge0(sub(k, num(1))))
    if z is not True:
        ev.panic_unless(ge0(sub(k, num(1))), "step_by(0)")
    ix = indexable(s) or (length(s), lambda i: elt(s, i))
    n, f = ix
    b = fresh()
    return each(b, n, k, unit(f(bv(b))))


def zip_(ev, a, b):
    a, b = ev.simp(a), ev.simp(b)
    if a.op == "ite":
        return ite(a.a[0], zip_(ev, a.a[1], b), zip_(ev, a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], zip_(ev, a, b.a[1]), zip_(ev, a, b.a[2]))
    if a is NIL or b is NIL:
        return NIL
    ia = indexable(a) or (length(a), lambda i: elt(a, i))
    ib = indexable(b) or (length(b), lambda i: elt(b, i))
    n = ite(le(ia[0], ib[0]), ia[0], ib[0])
    c = fresh()
    return each(c, ev.simp(n), num(1), unit(tup(ia[1](bv(c)), ib[1](bv(c)))))


def range_seq(lo, hi):
    b = fresh()
    return each(b, sub(hi, lo), num(1), unit(add(lo, bv(b))))


def index(ev, s, i):
    """s[i] for an integer index."""
    if i.op == "con" or (i.op == "app" and i.a[0].startswith("range")):
        return slice_range(ev, s, i)
    c = band(ge0(i), lt(i, length(s)))
    if ev.decide(c) is not True:
        ev.panic_unless(c, "index out of bounds")
        c = ev.simp(c)
        if c is FALSE:
            raise Diverge()
        ev.st.facts = ev.st.facts.assume(c)
    return elt(s, i)


def slice_range(ev, s, r):
    lo, hi = range_bounds(ev, r, length(s))
    c = band(le(lo, hi), le(hi, length(s)))
    if ev.decide(c) is not True:
        ev.panic_unless(c, "slice index out of range")
    return subseq(ev, s, lo, hi)


RANGE = "core::ops::range::Range"
RANGEFROM = "core::ops::range::RangeFrom"
RANGETO = "core::ops::range::RangeTo"
RANGEINC = "core::ops::range::RangeInclusive"


def range_bounds(ev, r, n):
    k = r.a[0] if r.op == "con" else None
    if k == RANGE:
        return r.a[2], r.a[3]
    if k == RANGEFROM:
        return r.a[2], n
    if k == RANGETO:
        return num(0), r.a[2]
    if k == RANGEINC:
        return r.a[2], add(r.a[3], num(1))
    if k == "core::ops::range::RangeFull":
        return num(0), n
    raise Unsupported("range")


def to_iter(ev, v):
    """IntoIterator::into_iter / iter() on a value."""
    v = R(ev, v)
    if v.op == "ite":
        return ite(v.a[0], to_iter(ev, v.a[1]), to_iter(ev, v.a[2]))
    if v.op == "con":
        if v.a[0] == OPT:
            return unit(v.a[2]) if v.a[1] == "Some" else NIL
        if v.a[0] == RES:
            return unit(v.a[2]) if v.a[1] == "Ok" else NIL
        if v.a[0] == RANGE:
            return range_seq(v.a[2], v.a[3])
        if v.a[0] == RANGEINC:
            return range_seq(v.a[2], add(v.a[3], num(1)))
        if v.a[0] == RANGEFROM:
            b = fresh()
            n = num(2 ** 64)
            return each(b, n, num(1), unit(add(v.a[2], bv(b))))
    if v in MAPS:
        return map_pairs(v)
    return v


def mark_map(v):
    if v.op == "ite":
        mark_map(v.a[1])
        mark_map(v.a[2])
    else:
        MAPS.add(v)
    return v


def opt_from(c, v):
    return ite(c, some(v), NONE)


# ------------------------------------------------------------------ equality by type
def eq_vals(ev, a, b, ty, depth=0):
    a, b = R(ev, a), R(ev, b)
    t = strip(ty) if ty else ("unknown",)
    if t[0] == "prim":
        if t[1] in PRIM_RANGE:
            return eqi(a, b)
        if t[1] == "bool":
            return ite(a, b, bnot(b))
        if t[1] == "str":
            return teq(a, b)
        if t[1] in ("f64", "f32"):
            return feq(a, b)
    if t[0] == "tuple":
        r = TRUE
        for i, x in enumerate(t[1]):
            r = band(r, eq_vals(ev, tproj(a, i), tproj(b, i), x, depth))
        return r
    if t[0] == "adt":
        h = t[1]
        if h in ("alloc::string::String",):
            return teq(a, b)
        if h in ("alloc::boxed::Box", "alloc::borrow::Cow"):
            return eq_vals(ev, a, b, t[2][0] if h.endswith("Box") else t[2][0], depth)
        if h == VALUE:
            return value_eq(ev, a, b)
        if h == "serde_json::number::Number":
            return sym_app("eq", a, b)
        if h in (OPT, RES) and depth < 3:
            r = FALSE
            for i, v in enumerate(("Some", "None") if h == OPT else ("Ok", "Err")):
                c = band(is_variant(a, h, v), is_variant(b, h, v))
                if v != "None":
                    c = band(c, eq_vals(ev, proj(a, h, v, 0), proj(b, h, v, 0), t[2][min(i, len(t[2]) - 1)], depth + 1))
                r = bor(r, c)
            return r
        info = ev.prog.adts.get(h)
        if info and info["local"] or h == "core::cmp::Ordering":
            im = ev.find_impl("core::cmp::PartialEq", (t, t))
            if im is not None and not im[0].derived and "eq" in im[0].methods:
                v = ev.call_fn(im[0].methods["eq"], [a, b], ())
                if v is not None:
                    return v
            if depth >= 2:
                return sym_app("eq", a, b)
            r = FALSE
            for v, fs in info["variants"]:
                c = band(is_variant(a, h, v), is_variant(b, h, v))
                for i, (n, ft, _) in enumerate(fs):
                    x, y = ev.getf(a, h, v, i), ev.getf(b, h, v, i)
                    c = band(c, eq_vals(ev, x, y, ft, depth + 1))
                r = bor(r, c)
            return r
    if t[0] in ("slice", "array") or (t[0] == "adt" and t[1] in ("alloc::vec::Vec",)):
        if a is NIL or b is NIL:
            return bnot(ge0(sub(length(b if a is NIL else a), num(1))))
    return sym_app("eq", a, b)


def sym_app(n, a, b):
    if a.op == "ite":
        return ite(a.a[0], sym_app(n, a.a[1], b), sym_app(n, a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], sym_app(n, a, b.a[1]), sym_app(n, a, b.a[2]))
    if a is b:
        return TRUE
    if a is BOT or b is BOT:
        return BOT
    if a.uid > b.uid:
        a, b = b, a
    return mk("app", n, a, b)


APP_SIMP["eq"] = lambda a, b: sym_app("eq", a, b)


def value_eq(ev, a, b):
    if a is b:
        return TRUE
    r = FALSE
    for v in ("Null", "Bool", "Number", "String", "Array", "Object"):
        c = band(is_variant(a, VALUE, v), is_variant(b, VALUE, v))
        if v != "Null":
            x, y = ev.getf(a, VALUE, v, 0), ev.getf(b, VALUE, v, 0)
            if v == "Bool":
                e = ite(x, y, bnot(y))
            elif v == "String":
                e = teq(x, y)
            else:
                e = sym_app("eq", x, y)
            c = band(c, e)
        r = bor(r, c)
    return r


# ------------------------------------------------------------------ ordering by type
def cmp_vals(ev, a, b, ty, total):
    """-> Ordering (total) or Option<Ordering>."""
    a, b = R(ev, a), R(ev, b)
    t = strip(ty)
    w = (lambda x: x) if total else some
    if t[0] == "prim" and t[1] in PRIM_RANGE:
        return ite(lt(a, b), w(LESS), ite(lt(b, a), w(GREATER), w(EQUAL)))
    if t[0] == "prim" and t[1] == "str" or (t[0] == "adt" and t[1] == "alloc::string::String"):
        return ite(teq(a, b), w(EQUAL), ite(tlt(a, b), w(LESS), w(GREATER)))
    if t[0] == "prim" and t[1] in ("f64", "f32"):
        return ite(feq(a, b), some(EQUAL), ite(flt(a, b), some(LESS), some(GREATER)))
    if t == ("prim", "bool"):
        return ite(a, ite(b, w(EQUAL), w(GREATER)), ite(b, w(LESS), w(EQUAL)))
    if t[0] == "adt" and t[1] == INT_ADT:
        v = SINGLE[INT_ADT]
        return cmp_vals(ev, ev.getf(a, INT_ADT, v, 0), ev.getf(b, INT_ADT, v, 0), ("prim", "i64"), total)
    if t[0] == "adt" and ev.prog.adts.get(t[1], {}).get("local"):
        tr = "core::cmp::Ord" if total else "core::cmp::PartialOrd"
        m = "cmp" if total else "partial_cmp"
        v = ev.trait_call(tr, m, (t, t) if not total else (t,), [a, b], None)
        if v is not None:
            return v
    return lapp("cmp" if total else "partial_cmp", a, b)


@model("core::cmp::PartialOrd::partial_cmp")
def m_partial_cmp(ev, args, targs, rty):
    return cmp_vals(ev, args[0], args[1], targs[0], False)


@model("core::cmp::Ord::cmp")
def m_cmp(ev, args, targs, rty):
    return cmp_vals(ev, args[0], args[1], targs[0], True)


def ord_test(which):
    def f(ev, args, targs, rty):
        t0, t1 = strip(targs[0]), strip(targs[1]) if len(targs) > 1 else strip(targs[0])
        a, b = R(ev, args[0]), R(ev, args[1])
        if t0[0] == "prim" and t0[1] in PRIM_RANGE:
            return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[which]
        if t0[0] == "prim" and t0[1] in ("f64", "f32"):
            return float_op({"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[which], a, b)
        if t0 == t1 and not (t0[0] == "adt" and ev.prog.adts.get(t0[1], {}).get("local")):
            o = cmp_vals(ev, a, b, t0, False)
        else:
            o = ev.trait_call("core::cmp::PartialOrd", "partial_cmp", (t0, t1), [a, b], None)
            if o is None:
                o = cmp_vals(ev, a, b, t0, False)
        x = proj(o, OPT, "Some", 0)
        sm = is_variant(o, OPT, "Some")
        L, G, Q = (is_variant(x, ORD, v) for v in ("Less", "Greater", "Equal"))
        return band(sm, {"lt": L, "le": bor(L, Q), "gt": G, "ge": bor(G, Q)}[which])
    return f


for _w in ("lt", "le", "gt", "ge"):
    MODELS["core::cmp::PartialOrd::" + _w] = ord_test(_w)


@model("core::cmp::PartialEq::eq")
def m_eq(ev, args, targs, rty):
    t0 = strip(targs[0])
    t1 = strip(targs[1]) if len(targs) > 1 else t0
    a, b = args
    if t0[0] == "adt" and ev.prog.adts.get(t0[1], {}).get("local") and t0 != t1:
        v = ev.trait_call("core::cmp::PartialEq", "eq", (t0, t1), [R(ev, a), R(ev, b)], rty)
        if v is not None:
            return v
    if t0 == ("adt", VALUE, ()) and t1 != t0:
        # Value == str / integer ...: only the matching variant can be equal
        a, b = R(ev, a), R(ev, b)
        if t1 == ("prim", "str") or t1 == ("adt", "alloc::string::String", ()):
            return band(is_variant(a, VALUE, "String"), teq(ev.getf(a, VALUE, "String", 0), b))
        if t1 == ("prim", "bool"):
            x = ev.getf(a, VALUE, "Bool", 0)
            return band(is_variant(a, VALUE, "Bool"), ite(x, b, bnot(b)))
        return lapp("valueeq", a, b)
    return eq_vals(ev, a, b, t0)


@model("core::cmp::PartialEq::ne")
def m_ne(ev, args, targs, rty):
    t0 = strip(targs[0])
    t1 = strip(targs[1]) if len(targs) > 1 else t0
    if t0[0] == "adt" and ev.prog.adts.get(t0[1], {}).get("local"):
        v = ev.trait_call("core::cmp::PartialEq", "eq", (t0, t1), [R(ev, args[0]), R(ev, args[1])], rty)
        if v is not None:
            return bnot(v)
    return bnot(m_eq(ev, args, targs, rty))


def minmax(ev, args, targs, is_max):
    a, b = R(ev, args[0]), R(ev, args[1])
    t = strip(targs[0])
    if t[0] == "prim" and t[1] in PRIM_RANGE:
        c = lt(b, a)
    else:
        o = cmp_vals(ev, a, b, t, True)
        c = is_variant(o, ORD, "Greater")
    c = ev.simp(c)
    return ite(c, a, b) if is_max else ite(c, b, a)


MODELS["core::cmp::Ord::max"] = lambda ev, a, t, r: minmax(ev, a, t, True)
MODELS["core::cmp::Ord::min"] = lambda ev, a, t, r: minmax(ev, a, t, False)
MODELS["core::cmp::max"] = MODELS["core::cmp::Ord::max"]
MODELS["core::cmp::min"] = MODELS["core::cmp::Ord::min"]


@model("core::cmp::Ord::clamp")
def m_clamp(ev, args, targs, rty):
    x = minmax(ev, [args[0], args[1]], targs, True)
    return minmax(ev, [x, args[2]], targs, False)


def ordm(f):
    return lambda ev, a, t, r: lift(f, ev.simp(R(ev, a[0])))


for _n, _vs in (("is_lt", ("Less",)), ("is_le", ("Less", "Equal")), ("is_gt", ("Greater",)),
                ("is_ge", ("Greater", "Equal")), ("is_eq", ("Equal",)), ("is_ne", ("Less", "Greater"))):
    def _f(ev, a, t, r, vs=_vs):
        o = R(ev, a[0])
        x = FALSE
        for v in vs:
            x = bor(x, is_variant(o, ORD, v))
        return x
    MODELS["core::cmp::Ordering::" + _n] = _f


@model("core::cmp::Ordering::reverse")
def m_ord_rev(ev, args, targs, rty):
    o = R(ev, args[0])
    return ite(is_variant(o, ORD, "Less"), GREATER, ite(is_variant(o, ORD, "Greater"), LESS, EQUAL))


@model("core::cmp::Ordering::then_with", "core::cmp::Ordering::then")
def m_ord_then(ev, args, targs, rty):
    o = R(ev, args[0])

    def other():
        x = args[1]
        return ev.call_value(x, []) if x.op in ("clo", "fn") else R(ev, x)
    return ev.branch(is_variant(o, ORD, "Equal"), other, lambda: o)


# ------------------------------------------------------------------ identity-like
def ident(ev, args, targs, rty):
    v = args[0]
    return R(ev, v)


for k in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::string::String::as_str",
          "alloc::vec::Vec::as_slice", "alloc::boxed::Box::new", "core::option::Option::as_ref",
          "core::option::Option::copied", "core::option::Option::cloned", "core::result::Result::as_ref",
          "core::iter::traits::iterator::Iterator::copied", "core::iter::traits::iterator::Iterator::cloned",
          "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "core::hint::must_use",
          "[]::to_vec", "alloc::string::String::into_boxed_str", "alloc::vec::Vec::into_boxed_slice",
          "core::option::Option::as_deref", "core::iter::traits::iterator::Iterator::by_ref",
          "str::as_bytes_", "alloc::string::String::into_bytes_", "core::iter::traits::iterator::Iterator::fuse",
          "alloc::str::to_owned", "str::to_owned", "core::iter::traits::iterator::Iterator::peekable",
          "alloc::string::String::as_ref", "alloc::string::String::from", "[]::iter_", "core::convert::identity",
          "core::ops::deref::Deref::deref_", "alloc::rc::Rc::new", "alloc::sync::Arc::new",
          "alloc::vec::Vec::into_iter_", "alloc::boxed::box_assume_init_into_vec_unsafe", "[]::into_vec",
          "alloc::borrow::Cow::into_owned", "alloc::slice::into_vec"):
    MODELS[k] = ident


@model("core::iter::traits::iterator::Iterator::by_ref", "core::option::Option::as_mut",
       "core::option::Option::as_deref_mut")
def m_keepref(ev, args, targs, rty):
    return args[0]


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def m_deref(ev, args, targs, rty):
    t = strip(targs[0])
    if t[0] == "adt" and t[1] == "std::sync::lazy_lock::LazyLock":
        return ev.force_static(R(ev, args[0]))
    return args[0]


@model("std::sync::lazy_lock::LazyLock::new")
def m_lazy(ev, args, targs, rty):
    return mk("app", "lazy", args[0])


@model("std::sync::lazy_lock::LazyLock::force")
def m_force(ev, args, targs, rty):
    return ev.force_static(R(ev, args[0]))


@model("alloc::boxed::Box::new_uninit")
def m_uninit(ev, args, targs, rty):
    return mk("app", "uninit")


@model("alloc::intrinsics::write_box_via_move")
def m_wbox(ev, args, targs, rty):
    return args[1]


# ------------------------------------------------------------------ conversions
@model("core::convert::From::from", "core::convert::Into::into")
def m_from(ev, args, targs, rty):
    v = args[0]
    return convert(ev, v, targs, rty, "into")


def convert(ev, v, targs, rty, which):
    return R(ev, v)


def m_from2(ev, args, targs, rty):
    # From::from : targs = (Target, Source)
    return conv(ev, args[0], strip(targs[0]), strip(targs[1]) if len(targs) > 1 else None, targs)


def m_into(ev, args, targs, rty):
    # Into::into : targs = (Source, Target)
    src, dst = targs[0], targs[1]
    v = ev.trait_call("core::convert::From", "from", (dst, src), [args[0]], rty)
    if v is not None:
        return v
    return conv(ev, args[0], strip(dst), strip(src), (dst, src))


MODELS["core::convert::From::from"] = m_from2
MODELS["core::convert::Into::into"] = m_into


def conv(ev, v, dst, src, targs):
    v = R(ev, v)
    if dst == src or src is None:
        return v
    if dst == ("adt", VALUE, ()):
        if src == ("prim", "bool"):
            return con(VALUE, "Bool", v)
        if src == ("prim", "str") or src == ("adt", "alloc::string::String", ()):
            return con(VALUE, "String", v)
        if src == ("adt", "serde_json::number::Number", ()):
            return con(VALUE, "Number", v)
        if src[0] == "prim" and src[1] in PRIM_RANGE:
            return con(VALUE, "Number", app("numint", v))
        if src[0] == "prim" and src[1] in ("f64", "f32"):
            return lapp("valuefloat", v)
        if src[0] == "adt" and src[1] == "alloc::vec::Vec":
            return con(VALUE, "Array", v)
        if src[0] == "adt" and src[1] == OPT:
            return ite(is_variant(v, OPT, "Some"), conv(ev, proj(v, OPT, "Some", 0), dst, strip(src[2][0]), None), con(VALUE, "Null"))
        if src[0] == "tuple" and src[1] == ():
            return con(VALUE, "Null")
        return lapp("tovalue", v)
    if dst == ("adt", "serde_json::number::Number", ()):
        if src[0] == "prim" and src[1] in PRIM_RANGE:
            return app("numint", v)
    if dst[0] == "prim" and src[0] == "prim":
        if dst[1] in PRIM_RANGE and src[1] == "bool":
            return ite(v, num(1), num(0))
        if dst[1] in PRIM_RANGE:
            return v
        if dst[1] in ("f64",):
            return lapp("tofloat", v)
    if dst[0] == "adt" and dst[1] == OPT and src == strip(dst[2][0]):
        return some(v)
    textual = (("prim", "str"), ("adt", "alloc::string::String", ()))
    if dst == textual[1] and src == ("prim", "char"):
        return tchr(v)
    if dst in textual and src in textual:
        return v
    if dst[0] == "adt" and dst[1] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque",
                                       "alloc::boxed::Box", "alloc::borrow::Cow", "alloc::rc::Rc"):
        return v
    if dst[0] == "adt" and dst[1] in MAPHEADS:
        return map_with(ev, mk("app", "map0"), v)
    return lapp("conv:%s" % (dst[1] if len(dst) > 1 and isinstance(dst[1], str) else dst[0]), v)


@model("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def m_tryfrom(ev, args, targs, rty):
    return None


def m_try_from(ev, args, targs, rty):
    return tryconv(ev, args[0], targs[0], targs[1])


def m_try_into(ev, args, targs, rty):
    src, dst = targs[0], targs[1]
    v = ev.trait_call("core::convert::TryFrom", "try_from", (dst, src), [args[0]], rty)
    if v is not None:
        return v
    return tryconv(ev, args[0], dst, src)


MODELS["core::convert::TryFrom::try_from"] = m_try_from
MODELS["core::convert::TryInto::try_into"] = m_try_into


def tryconv(ev, v, dst, src):
    v = R(ev, v)
    d, s = strip(dst), strip(src)
    if d[0] == "prim" and d[1] in PRIM_RANGE and s[0] == "prim" and s[1] in PRIM_RANGE:
        lo, hi = PRIM_RANGE[d[1]]
        c = ev.simp(band(le(num(lo), v), le(v, num(hi))))
        if d[1] == "char":
            c = band(c, bnot(band(le(num(0xD800), v), le(v, num(0xDFFF)))))
        return ite(c, ok(v), err(mk("const", "TryFromIntError")))
    # infallible blanket impl through From
    r = ev.trait_call("core::convert::From", "from", (dst, src), [v], None)
    if r is not None:
        return ok(r)
    if d == s:
        return ok(v)
    return lapp("?tryconv:%s" % str(d[1] if len(d) > 1 else d), v)


@model("core::default::Default::default")
def m_default(ev, args, targs, rty):
    return default_of(ev, targs[0])


def default_of(ev, t):
    t = strip(t)
    if t[0] == "prim":
        if t[1] in PRIM_RANGE:
            return num(0)
        if t[1] == "bool":
            return FALSE
        if t[1] == "str":
            return NIL
        if t[1] in ("f64", "f32"):
            return mk("flt", "0.0")
    if t[0] == "tuple":
        return tup(*[default_of(ev, x) for x in t[1]])
    if t[0] == "adt":
        h = t[1]
        if h in ("alloc::vec::Vec", "alloc::string::String", "alloc::collections::vec_deque::VecDeque"):
            return NIL
        if h == OPT:
            return NONE
        if h == VALUE:
            return con(VALUE, "Null")
        v = ev.trait_call("core::default::Default", "default", (t,), [], None)
        if v is not None:
            return v
    return mk("app", "?default", mk("const", str(t)))


# ------------------------------------------------------------------ Option / Result
def opt(name):
    return "core::option::Option::" + name


def res(name):
    return "core::result::Result::" + name


def br_some(ev, o, f, g):
    o = R(ev, o)
    o = ev.simp(o)
    return ev.branch(is_variant(o, OPT, "Some"), lambda: f(ev.simp(proj(o, OPT, "Some", 0))), g)


def br_ok(ev, o, f, g):
    o = ev.simp(R(ev, o))
    return ev.branch(is_variant(o, RES, "Ok"), lambda: f(ev.simp(proj(o, RES, "Ok", 0))),
                     lambda: g(ev.simp(proj(o, RES, "Err", 0))))


def M(name, f):
    MODELS[name] = f


M(opt("is_some"), lambda ev, a, t, r: is_variant(R(ev, a[0]), OPT, "Some"))
M(opt("is_none"), lambda ev, a, t, r: bnot(is_variant(R(ev, a[0]), OPT, "Some")))
M(opt("map"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: some(ev.call_value(a[1], [x])), lambda: NONE))
M(opt("and_then"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: ev.call_value(a[1], [x]), lambda: NONE))
M(opt("or_else"), lambda ev, a, t, r: br_some(ev, a[0], some, lambda: ev.call_value(a[1], [])))
M(opt("or"), lambda ev, a, t, r: br_some(ev, a[0], some, lambda: R(ev, a[1])))
M(opt("and"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: R(ev, a[1]), lambda: NONE))
M(opt("xor"), lambda ev, a, t, r: br_some(
    ev, a[0], lambda x: br_some(ev, a[1], lambda y: NONE, lambda: some(x)), lambda: R(ev, a[1])))
M(opt("unwrap_or"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: x, lambda: R(ev, a[1])))
M(opt("unwrap_or_else"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: x, lambda: ev.call_value(a[1], [])))
M(opt("unwrap_or_default"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: x, lambda: default_of(ev, r or t[0])))
M(opt("map_or"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: ev.call_value(a[2], [x]), lambda: R(ev, a[1])))
M(opt("map_or_else"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: ev.call_value(a[2], [x]),
                                                  lambda: ev.call_value(a[1], [])))
M(opt("is_some_and"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: ev.call_value(a[1], [x]), lambda: FALSE))
M(opt("is_none_or"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: ev.call_value(a[1], [x]), lambda: TRUE))
M(opt("filter"), lambda ev, a, t, r: br_some(
    ev, a[0], lambda x: ite(ev.call_value(a[1], [x]), some(x), NONE), lambda: NONE))
M(opt("ok_or"), lambda ev, a, t, r: br_some(ev, a[0], ok, lambda: err(R(ev, a[1]))))
M(opt("ok_or_else"), lambda ev, a, t, r: br_some(ev, a[0], ok, lambda: err(ev.call_value(a[1], []))))
M(opt("unwrap"), lambda ev, a, t, r: ev.unwrap(a[0], OPT, "Some", "unwrap on None"))
M(opt("expect"), lambda ev, a, t, r: ev.unwrap(a[0], OPT, "Some", "expect on None"))
M(opt("iter"), lambda ev, a, t, r: as_opt_seq(R(ev, a[0])))
M(opt("flatten"), lambda ev, a, t, r: br_some(ev, a[0], lambda x: x, lambda: NONE))
M(opt("zip"), lambda ev, a, t, r: br_some(
    ev, a[0], lambda x: br_some(ev, a[1], lambda y: some(tup(x, y)), lambda: NONE), lambda: NONE))
M(opt("inspect"), lambda ev, a, t, r: R(ev, a[0]))


def as_opt_seq(o):
    return ite(is_variant(o, OPT, "Some"), unit(proj(o, OPT, "Some", 0)), NIL)


@model(opt("take"))
def m_opt_take(ev, a, t, r):
    v = R(ev, a[0])
    ev.write_ref(a[0], NONE)
    return v


@model(opt("insert"), opt("replace"))
def m_opt_replace(ev, a, t, r):
    v = R(ev, a[0])
    ev.write_ref(a[0], some(R(ev, a[1])))
    return v


@model(opt("transpose"))
def m_opt_transpose(ev, a, t, r):
    return br_some(ev, a[0], lambda x: br_ok(ev, x, lambda y: ok(some(y)), err), lambda: ok(NONE))


M(res("is_ok"), lambda ev, a, t, r: is_variant(R(ev, a[0]), RES, "Ok"))
M(res("is_err"), lambda ev, a, t, r: bnot(is_variant(R(ev, a[0]), RES, "Ok")))
M(res("ok"), lambda ev, a, t, r: br_ok(ev, a[0], some, lambda e: NONE))
M(res("err"), lambda ev, a, t, r: br_ok(ev, a[0], lambda x: NONE, some))
M(res("map"), lambda ev, a, t, r: br_ok(ev, a[0], lambda x: ok(ev.call_value(a[1], [x])), err))
M(res("map_err"), lambda ev, a, t, r: br_ok(ev, a[0], ok, lambda e: err(ev.call_value(a[1], [e]))))
M(res("and_then"), lambda ev, a, t, r: br_ok(ev, a[0], lambda x: ev.call_value(a[1], [x]), err))
M(res("or_else"), lambda ev, a, t, r: br_ok(ev, a[0], ok, lambda e: ev.call_value(a[1], [e])))
M(res("unwrap_or"), lambda ev, a, t, r: br_ok(ev, a[0], lambda x: x, lambda e: R(ev, a[1])))
M(res("unwrap_or_else"), lambda ev, a, t, r: br_ok(ev, a[0], lambda x: x, lambda e: ev.call_value(a[1], [e])))
M(res("unwrap_or_default"), lambda ev, a, t, r: br_ok(ev, a[0], lambda x: x, lambda e: default_of(ev, r or t[0])))
M(res("map_or"), lambda ev, a, t, r: br_ok(ev, a[0], lambda x: ev.call_value(a[2], [x]), lambda e: R(ev, a[1])))
M(res("map_or_else"), lambda ev, a, t, r: br_ok(ev, a[0], lambda x: ev.call_value(a[2], [x]),
                                               lambda e: ev.call_value(a[1], [e])))
M(res("is_ok_and"), lambda ev, a, t, r: br_ok(ev, a[0], lambda x: ev.call_value(a[1], [x]), lambda e: FALSE))
M(res("is_err_and"), lambda ev, a, t, r: br_ok(ev, a[0], lambda x: FALSE, lambda e: ev.call_value(a[1], [e])))
M(res("unwrap"), lambda ev, a, t, r: ev.unwrap(a[0], RES, "Ok", "unwrap on Err"))
M(res("expect"), lambda ev, a, t, r: ev.unwrap(a[0], RES, "Ok", "expect on Err"))
M(res("unwrap_err"), lambda ev, a, t, r: ev.unwrap(a[0], RES, "Err", "unwrap_err on Ok"))
M("bool::then", lambda ev, a, t, r: ev.branch(R(ev, a[0]), lambda: some(ev.call_value(a[1], [])), lambda: NONE))
M("bool::then_some", lambda ev, a, t, r: ite(R(ev, a[0]), some(R(ev, a[1])), NONE))
M("core::ops::bit::Not::not", lambda ev, a, t, r: bnot(R(ev, a[0])))
M("core::mem::drop", lambda ev, a, t, r: UNIT)


@model("core::mem::take")
def m_take(ev, a, t, r):
    v = R(ev, a[0])
    ev.write_ref(a[0], default_of(ev, t[0]))
    return v


@model("core::mem::replace")
def m_replace(ev, a, t, r):
    v = R(ev, a[0])
    ev.write_ref(a[0], R(ev, a[1]))
    return v


@model("core::mem::swap")
def m_swap(ev, a, t, r):
    x, y = R(ev, a[0]), R(ev, a[1])
    ev.write_ref(a[0], y)
    ev.write_ref(a[1], x)
    return UNIT


CF = "core::ops::control_flow::ControlFlow"


@model("core::ops::try_trait::Try::branch")
def m_branch(ev, a, t, r):
    ty = strip(t[0])
    v = ev.simp(R(ev, a[0]))
    if ty[1] == OPT:
        return ite(is_variant(v, OPT, "Some"), con(CF, "Continue", proj(v, OPT, "Some", 0)), con(CF, "Break", NONE))
    return ite(is_variant(v, RES, "Ok"), con(CF, "Continue", proj(v, RES, "Ok", 0)),
               con(CF, "Break", err(proj(v, RES, "Err", 0))))


@model("core::ops::try_trait::FromResidual::from_residual")
def m_from_residual(ev, a, t, r):
    dst, src = strip(t[0]), strip(t[1])
    v = R(ev, a[0])
    if dst[1] == OPT:
        return NONE
    e = proj(v, RES, "Err", 0)
    te, se = dst[2][1], src[2][1]
    if te == se:
        return err(e)
    x = ev.trait_call("core::convert::From", "from", (te, se), [e], None)
    return err(x if x is not None else conv(ev, e, strip(te), strip(se), None))


# ------------------------------------------------------------------ integers
INTS = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]


def checked(op, ty):
    lo, hi = PRIM_RANGE[ty]

    def f(ev, a, t, r):
        v = op(R(ev, a[0]), R(ev, a[1]))
        c = ev.simp(band(le(num(lo), v), le(v, num(hi))))
        return ite(c, some(v), NONE)
    return f


def saturating(op, ty):
    lo, hi = PRIM_RANGE[ty]

    def f(ev, a, t, r):
        v = op(R(ev, a[0]), R(ev, a[1]))
        return ev.simp(ite(lt(v, num(lo)), num(lo), ite(lt(num(hi), v), num(hi), v)))
    return f


def wrapping(op, ty):
    lo, hi = PRIM_RANGE[ty]

    def f(ev, a, t, r):
        v = op(R(ev, a[0]), R(ev, a[1]))
        c = ev.simp(band(le(num(lo), v), le(v, num(hi))))
        w = lapp("wrap:" + ty, v)
        TYPED[w] = ty
        return ite(c, v, w)
    return f


def overflowing(op, ty):
    lo, hi = PRIM_RANGE[ty]

    def f(ev, a, t, r):
        v = op(R(ev, a[0]), R(ev, a[1]))
        c = ev.simp(band(le(num(lo), v), le(v, num(hi))))
        w = lapp("wrap:" + ty, v)
        TYPED[w] = ty
        return tup(ite(c, v, w), bnot(c))
    return f


for _t in INTS:
    for _n, _o in (("add", add), ("sub", sub), ("mul", mul)):
        MODELS["%s::checked_%s" % (_t, _n)] = checked(_o, _t)
        MODELS["%s::saturating_%s" % (_t, _n)] = saturating(_o, _t)
        MODELS["%s::wrapping_%s" % (_t, _n)] = wrapping(_o, _t)
        MODELS["%s::overflowing_%s" % (_t, _n)] = overflowing(_o, _t)
    MODELS["%s::checked_add_signed" % _t] = checked(add, _t)
    MODELS["%s::checked_sub_unsigned" % _t] = checked(sub, _t)
    MODELS["%s::checked_add_unsigned" % _t] = checked(add, _t)

    def _abs(ev, a, t, r, ty=_t):
        v = R(ev, a[0])
        lo, hi = PRIM_RANGE[ty]
        if ev.decide(ge0(sub(v, num(lo + 1)))) is not True:
            ev.panic_unless(ge0(sub(v, num(lo + 1))), "abs overflow")
        return ev.simp(ite(ge0(v), v, neg(v)))
    MODELS["%s::abs" % _t] = _abs

    def _uabs(ev, a, t, r):
        v = R(ev, a[0])
        return ev.simp(ite(ge0(v), v, neg(v)))
    MODELS["%s::unsigned_abs" % _t] = _uabs

    def _cabs(ev, a, t, r, ty=_t):
        v = R(ev, a[0])
        lo, hi = PRIM_RANGE[ty]
        x = ev.simp(ite(ge0(v), v, neg(v)))
        return ev.simp(ite(le(x, num(hi)), some(x), NONE))
    MODELS["%s::checked_abs" % _t] = _cabs

    def _cneg(ev, a, t, r, ty=_t):
        v = neg(R(ev, a[0]))
        lo, hi = PRIM_RANGE[ty]
        return ev.simp(ite(band(le(num(lo), v), le(v, num(hi))), some(v), NONE))
    MODELS["%s::checked_neg" % _t] = _cneg
    MODELS["%s::is_negative" % _t] = lambda ev, a, t, r: lt(R(ev, a[0]), num(0))
    MODELS["%s::is_positive" % _t] = lambda ev, a, t, r: lt(num(0), R(ev, a[0]))
    MODELS["%s::signum" % _t] = lambda ev, a, t, r: ite(lt(R(ev, a[0]), num(0)), num(-1), ite(
        lt(num(0), R(ev, a[0])), num(1), num(0)))

    def _rem(ev, a, t, r, ty=_t):
        v = lapp("rem_euclid", R(ev, a[0]), R(ev, a[1]))
        TYPED[v] = ty
        return v
    MODELS["%s::rem_euclid" % _t] = _rem
    MODELS["%s::abs_diff" % _t] = lambda ev, a, t, r: ite(le(R(ev, a[0]), R(ev, a[1])),
                                                         sub(R(ev, a[1]), R(ev, a[0])), sub(R(ev, a[0]), R(ev, a[1])))

    def _pow(ev, a, t, r):
        x, y = R(ev, a[0]), R(ev, a[1])
        if is_num(x) and is_num(y):
            return num(x.a[0] ** y.a[0])
        return lapp("pow", x, y)
    MODELS["%s::pow" % _t] = _pow
    CONSTS["%s::MAX" % _t] = num(PRIM_RANGE[_t][1])
    CONSTS["%s::MIN" % _t] = num(PRIM_RANGE[_t][0])
    MODELS["%s::from_str_radix" % _t] = None

    def _fsr(ev, a, t, r, ty=_t):
        return parse_int(ev, ty, R(ev, a[0]), R(ev, a[1]))
    MODELS["%s::from_str_radix" % _t] = _fsr


def parse_int(ev, ty, s, radix):
    r = lapp("parseint:" + ty, s, radix)
    v = proj(r, RES, "Ok", 0)
    TYPED[v] = ty
    return r


for _op, _nm in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
    def _ar(ev, a, t, r, o=_op):
        return ev.binop(o, R(ev, a[0]), R(ev, a[1]), strip(t[0]))
    MODELS["core::ops::arith::%s::%s" % (_op, _nm)] = _ar

    def _ara(ev, a, t, r, o=_op):
        ev.write_ref(a[0], ev.binop(o, R(ev, a[0]), R(ev, a[1]), strip(t[0])))
        return UNIT
    MODELS["core::ops::arith::%sAssign::%s_assign" % (_op, _nm)] = _ara
MODELS["core::ops::arith::Neg::neg"] = lambda ev, a, t, r: ev.arith(neg(R(ev, a[0])), strip(t[0]))


# ranges
@model("core::ops::range::RangeInclusive::new")
def m_ri(ev, a, t, r):
    return con(RANGEINC, "RangeInclusive", R(ev, a[0]), R(ev, a[1]), FALSE)


@model("core::ops::range::RangeInclusive::contains", "core::ops::range::Range::contains",
       "core::ops::range::RangeFrom::contains", "core::ops::range::RangeTo::contains",
       "core::ops::range::RangeBounds::contains")
def m_contains(ev, a, t, r):
    rg, x = R(ev, a[0]), R(ev, a[1])
    k = rg.a[0]
    if k == RANGEINC:
        return band(le(rg.a[2], x), le(x, rg.a[3]))
    if k == RANGE:
        return band(le(rg.a[2], x), lt(x, rg.a[3]))
    if k == RANGEFROM:
        return le(rg.a[2], x)
    if k == RANGETO:
        return lt(x, rg.a[2])
    raise Unsupported("contains")


# ------------------------------------------------------------------ Vec / slices
SEQ_HEADS = ("alloc::vec::Vec", "[]", "alloc::collections::vec_deque::VecDeque", "alloc::string::String", "str")


def each_head(names, heads, f):
    for h in heads:
        for n in names:
            MODELS["%s::%s" % (h, n)] = f


VECS = ("alloc::vec::Vec", "[]", "alloc::collections::vec_deque::VecDeque")
for _k in ("thiserror::display::AsDisplay::as_display", "thiserror::aserror::AsDynError::as_dyn_error"):
    MODELS[_k] = lambda ev, a, t, r: a[0]
each_head(("new", "with_capacity"), VECS + ("alloc::string::String",), lambda ev, a, t, r: NIL)
each_head(("len",), VECS, lambda ev, a, t, r: length(as_seq(ev, a[0])))
each_head(("is_empty",), VECS + ("alloc::string::String", "str"),
          lambda ev, a, t, r: bnot(ge0(sub(length(R(ev, a[0])), num(1)))))
each_head(("iter", "into_iter"), VECS, lambda ev, a, t, r: to_iter(ev, a[0]))
each_head(("first", "front"), VECS, lambda ev, a, t, r: seq_get(ev, R(ev, a[0]), num(0)))
each_head(("reserve", "shrink_to_fit", "reserve_exact"), VECS + ("alloc::string::String",), lambda ev, a, t, r: UNIT)


def seq_get(ev, s, i):
    s = ev.simp(s)
    if s.op == "ite":
        return ite(s.a[0], seq_get(ev, s.a[1], i), seq_get(ev, s.a[2], i))
    c = ev.simp(band(ge0(i), lt(i, length(s))))
    return ite(c, some(elt(s, i)), NONE)


@model("[]::last", "alloc::vec::Vec::last", "alloc::collections::vec_deque::VecDeque::back")
def m_last(ev, a, t, r):
    s = ev.simp(R(ev, a[0]))
    return last_of(ev, s)


def last_of(ev, s):
    if s.op == "ite":
        return ite(s.a[0], last_of(ev, s.a[1]), last_of(ev, s.a[2]))
    if s is NIL:
        return NONE
    if s.op == "cat" and s.a[-1].op == "unit":
        return some(s.a[-1].a[0])
    n = length(s)
    c = ev.simp(ge0(sub(n, num(1))))
    return ite(c, some(elt(s, sub(n, num(1)))), NONE)


@model("[]::get", "alloc::vec::Vec::get", "alloc::collections::vec_deque::VecDeque::get")
def m_get(ev, a, t, r):
    s, i = R(ev, a[0]), R(ev, a[1])
    if i.op == "con":
        lo, hi = range_bounds(ev, i, length(s))
        c = ev.simp(band(le(lo, hi), le(hi, length(s))))
        return ite(c, some(subseq(ev, s, lo, hi)), NONE)
    return seq_get(ev, s, i)


@model("core::ops::index::Index::index")
def m_index(ev, a, t, r):
    s, i = R(ev, a[0]), R(ev, a[1])
    ty = strip(t[0])
    it = strip(t[1]) if len(t) > 1 else None
    if ty[0] == "adt" and ty[1] == "serde_json::map::Map":
        g = map_get(ev, s, i)
        return ev.unwrap(g, OPT, "Some", "map index")
    if ty == ("adt", VALUE, ()):
        g = value_get(ev, s, i, it)
        return ite(is_variant(g, OPT, "Some"), proj(g, OPT, "Some", 0), con(VALUE, "Null"))
    if ty == ("prim", "str") or ty == ("str",) or ty[0] == "adt" and ty[1] == "alloc::string::String":
        return text_slice(ev, s, i)
    return index(ev, s, i)


def text_slice(ev, s, r):
    """Part of a text, by positions of bytes."""
    s = ev.simp(s)
    if s.op == "ite":
        return ite(s.a[0], text_slice(ev, s.a[1], r), text_slice(ev, s.a[2], r))
    lo, hi = range_bounds(ev, r, byte_len(s))
    a, b = char_index(ev, s, lo), char_index(ev, s, hi)
    c = band(le(a, b), le(b, length(s)))
    if any(x.op == "app" and x.a[0] == "?chidx" for x in (a, b)) or ev.decide(c) is not True:
        ev.panic_unless(c, "text slice out of range or inside a character")
    return subseq(ev, s, a, b)


def char_index(ev, s, k):
    """The number of characters before byte k."""
    if k is num(0):
        return k
    if k is byte_len(s):
        return length(s)
    if s.op == "lit" and is_num(k):
        try:
            return num(len(s.a[0].encode()[:k.a[0]].decode()))
        except UnicodeDecodeError:
            return mk("app", "?chidx", s, k)
    n = length(s)
    if is_num(k) and 0 < k.a[0] <= 8 and ev.decide(le(k, n)) is True \
            and all(ev.decide(lt(elt(s, num(i)), num(0x80))) is True for i in range(k.a[0])):
        return k
    d = sub(byte_len(s), k)
    if is_num(d) and 0 < d.a[0] <= 8 and ev.decide(le(d, n)) is True \
            and all(ev.decide(lt(elt(s, sub(n, num(i + 1))), num(0x80))) is True for i in range(d.a[0])):
        return sub(n, d)
    return mk("app", "?chidx", s, k)


@model("alloc::vec::Vec::push", "alloc::collections::vec_deque::VecDeque::push_back")
def m_push(ev, a, t, r):
    ev.write_ref(a[0], cat_app(R(ev, a[0]), unit(R(ev, a[1]))))
    return UNIT


def cat_app(s, p):
    """s ++ p distributing over an ite in s only at the top."""
    if s.op == "ite":
        return ite(s.a[0], cat_app(s.a[1], p), cat_app(s.a[2], p))
    if p.op == "ite":
        return ite(p.a[0], cat_app(s, p.a[1]), cat_app(s, p.a[2]))
    return cat(s, p)


@model("alloc::collections::vec_deque::VecDeque::push_front")
def m_push_front(ev, a, t, r):
    ev.write_ref(a[0], cat(unit(R(ev, a[1])), R(ev, a[0])))
    return UNIT


@model("alloc::vec::Vec::append", "alloc::collections::vec_deque::VecDeque::append")
def m_append(ev, a, t, r):
    o = R(ev, a[1])
    ev.write_ref(a[0], cat_app(R(ev, a[0]), o))
    ev.write_ref(a[1], NIL)
    return UNIT


@model("alloc::vec::Vec::extend_from_slice", "core::iter::traits::collect::Extend::extend")
def m_extend(ev, a, t, r):
    o = to_iter(ev, a[1])
    s = strip(t[0]) if t else None
    if s == ("adt", "alloc::string::String", ()):
        o = text_of_iter(ev, o, t[1] if len(t) > 1 else None)
    elif s and s[0] == "adt" and s[1] in MAPHEADS:
        ev.write_ref(a[0], map_with(ev, R(ev, a[0]), o))
        return UNIT
    elif s and s[0] == "adt" and s[1] not in SEQ_HEADS:
        return ev.unknown_call("core::iter::traits::collect::Extend::extend", a, r, t)
    ev.write_ref(a[0], cat_app(R(ev, a[0]), o))
    return UNIT


@model("alloc::vec::Vec::clear", "alloc::string::String::clear")
def m_clear(ev, a, t, r):
    ev.write_ref(a[0], NIL)
    return UNIT


@model("alloc::vec::Vec::insert")
def m_insert(ev, a, t, r):
    s, i, x = R(ev, a[0]), R(ev, a[1]), R(ev, a[2])
    if i is num(0):
        ev.write_ref(a[0], cat(unit(x), s))
    else:
        ev.write_ref(a[0], cat(subseq(ev, s, num(0), i), unit(x), subseq(ev, s, i, length(s))))
    return UNIT


@model("alloc::vec::Vec::truncate")
def m_truncate(ev, a, t, r):
    ev.write_ref(a[0], seq_take(ev, R(ev, a[0]), R(ev, a[1])))
    return UNIT


@model("alloc::vec::Vec::pop", "alloc::collections::vec_deque::VecDeque::pop_back")
def m_pop(ev, a, t, r):
    s = R(ev, a[0])
    if s.op == "app" and s.a[0] == "taking":
        return s.a[1]
    s = ev.simp(s)
    v, rest = pop_back(ev, s)
    ev.write_ref(a[0], rest)
    return v


def pop_back(ev, s):
    if s.op == "ite":
        a, ra = pop_back(ev, s.a[1])
        b, rb = pop_back(ev, s.a[2])
        return ite(s.a[0], a, b), ite(s.a[0], ra, rb)
    if s is NIL:
        return NONE, NIL
    ps = parts(s)
    if ps[-1].op == "unit":
        return some(ps[-1].a[0]), cat(*ps[:-1])
    n = length(s)
    c = ev.simp(ge0(sub(n, num(1))))
    return ite(c, some(elt(s, sub(n, num(1)))), NONE), ite(c, subseq(ev, s, num(0), sub(n, num(1))), NIL)


@model("alloc::collections::vec_deque::VecDeque::pop_front")
def m_pop_front(ev, a, t, r):
    s = R(ev, a[0])
    if s.op == "app" and s.a[0] == "taking":
        return s.a[1]
    v, rest = pop_front(ev, ev.simp(s))
    ev.write_ref(a[0], rest)
    return v


def pop_front(ev, s):
    if s.op == "ite":
        a, ra = pop_front(ev, s.a[1])
        b, rb = pop_front(ev, s.a[2])
        return ite(s.a[0], a, b), ite(s.a[0], ra, rb)
    if s is NIL:
        return NONE, NIL
    ps = parts(s)
    if ps[0].op == "unit":
        return some(ps[0].a[0]), cat(*ps[1:])
    # a deque that has been taken from: keep a cursor
    base, off = (s.a[1], s.a[2]) if s.op == "app" and s.a[0] == "drop" else (s, num(0))
    n = length(base)
    c = ev.simp(lt(off, n))
    return ite(c, some(elt(base, off)), NONE), ite(c, mk("app", "drop", base, add(off, num(1))), s)


def _drop_len(s):
    return None


@model("core::iter::traits::iterator::Iterator::next")
def m_next(ev, a, t, r):
    s = R(ev, a[0])
    if s.op == "app" and s.a[0] == "taking":
        return s.a[1]
    ty = strip(t[0]) if t else None
    if ty is not None and ty[0] == "adt" and ty[1] in (RANGE, RANGEINC, RANGEFROM):
        s = to_iter(ev, s)
    s = ev.simp(s)
    v, rest = pop_front(ev, s)
    ev.write_ref(a[0], rest)
    return v


@model("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def m_next_back(ev, a, t, r):
    s = R(ev, a[0])
    if s.op == "app" and s.a[0] == "taking":
        return s.a[1]
    v, rest = pop_back(ev, ev.simp(s))
    ev.write_ref(a[0], rest)
    return v


@model("[]::split_first")
def m_split_first(ev, a, t, r):
    s = R(ev, a[0])
    c = ev.simp(ge0(sub(length(s), num(1))))
    return ite(c, some(tup(elt(s, num(0)), seq_skip(ev, s, num(1)))), NONE)


@model("[]::split_last")
def m_split_last(ev, a, t, r):
    s = R(ev, a[0])
    n = length(s)
    c = ev.simp(ge0(sub(n, num(1))))
    return ite(c, some(tup(elt(s, sub(n, num(1))), subseq(ev, s, num(0), sub(n, num(1))))), NONE)


@model("[]::contains")
def m_slice_contains(ev, a, t, r):
    x = R(ev, a[1])
    return ev.sexists(R(ev, a[0]), lambda y: eq_vals(ev, x, y, t[0]))


@model("[]::reverse")
def m_reverse(ev, a, t, r):
    ev.write_ref(a[0], rev(ev, R(ev, a[0])))
    return UNIT


def sort_model(stable):
    def f(ev, a, t, r):
        s = R(ev, a[0])
        c1, c2 = mk("var", "cmp.a"), mk("var", "cmp.b")
        if len(a) > 1:
            x = ev.call_value(a[1], [c1, c2])
        else:
            x = cmp_vals(ev, c1, c2, t[0], True)
        ev.write_ref(a[0], mk("app", "sorted", s, x))
        return UNIT
    return f


for _k in ("sort_unstable_by", "sort_by"):
    MODELS["[]::" + _k] = sort_model(_k == "sort_by")
for _k in ("sort_unstable", "sort"):
    MODELS["[]::" + _k] = sort_model(_k == "sort")


@model("[]::sort_by_key", "[]::sort_unstable_by_key", "[]::sort_by_cached_key")
def m_sort_by_key(ev, a, t, r):
    s = R(ev, a[0])
    c1, c2 = mk("var", "cmp.a"), mk("var", "cmp.b")
    k1, k2 = ev.call_value(a[1], [c1]), ev.call_value(a[1], [c2])
    ev.write_ref(a[0], mk("app", "sorted", s, cmp_vals(ev, k1, k2, t[1] if len(t) > 2 else t[-1], True)))
    return UNIT


@model("alloc::vec::Vec::dedup")
def m_dedup(ev, a, t, r):
    c1, c2 = mk("var", "cmp.a"), mk("var", "cmp.b")
    s = R(ev, a[0])
    ev.write_ref(a[0], mk("app", "dedup", s, eq_vals(ev, c1, c2, t[0])))
    return UNIT


@model("alloc::vec::Vec::dedup_by")
def m_dedup_by(ev, a, t, r):
    c1, c2 = mk("var", "cmp.a"), mk("var", "cmp.b")
    s = R(ev, a[0])
    ev.write_ref(a[0], mk("app", "dedup", s, ev.call_value(a[1], [c1, c2])))
    return UNIT


@model("alloc::vec::Vec::dedup_by_key")
def m_dedup_by_key(ev, a, t, r):
    c1, c2 = mk("var", "cmp.a"), mk("var", "cmp.b")
    s = R(ev, a[0])
    k1, k2 = ev.call_value(a[1], [c1]), ev.call_value(a[1], [c2])
    ev.write_ref(a[0], mk("app", "dedup", s, eq_vals(ev, k1, k2, t[-1])))
    return UNIT


@model("alloc::vec::Vec::retain")
def m_retain(ev, a, t, r):
    s = R(ev, a[0])
    f = a[1]
    ev.write_ref(a[0], ev.smap(s, lambda x: ite(ev.call_value(f, [x]), unit(x), NIL)))
    return UNIT


# ------------------------------------------------------------------ iterators
IT = "core::iter::traits::iterator::Iterator::"
DE = "core::iter::traits::double_ended::DoubleEndedIterator::"


def seqarg(ev, a):
    return to_iter(ev, a)


M("core::iter::traits::collect::IntoIterator::into_iter", lambda ev, a, t, r: into_iter(ev, a[0], t))
M(IT + "iter", lambda ev, a, t, r: to_iter(ev, a[0]))


def into_iter(ev, v, t):
    ty = t[0]
    s = strip(ty)
    if s[0] == "adt" and s[1] == "serde_json::map::Map":
        return map_pairs(R(ev, v))
    if s[0] == "adt" and s[1] == OPT:
        return as_opt_seq(R(ev, v))
    if v.op == "mref" and s[0] == "adt" and s[1].startswith(("core::slice", "alloc::vec::into_iter", "core::iter",
                                                            "core::str")):
        return v
    return to_iter(ev, v)


def adaptor(name):
    def d(f):
        MODELS[IT + name] = f
        return f
    return d


@adaptor("map")
def i_map(ev, a, t, r):
    f = a[1]
    return ev.smap(seqarg(ev, a[0]), lambda x: unit(ev.call_value(f, [x])))


@adaptor("filter")
def i_filter(ev, a, t, r):
    f = a[1]
    return ev.smap(seqarg(ev, a[0]), lambda x: ite(ev.call_value(f, [x]), unit(x), NIL))


@adaptor("filter_map")
def i_filter_map(ev, a, t, r):
    f = a[1]
    return ev.smap(seqarg(ev, a[0]), lambda x: as_opt_seq(ev.call_value(f, [x])))


@adaptor("flat_map")
def i_flat_map(ev, a, t, r):
    f = a[1]
    return ev.smap(seqarg(ev, a[0]), lambda x: to_iter(ev, ev.call_value(f, [x])))


@adaptor("flatten")
def i_flatten(ev, a, t, r):
    ty = strip(t[0]) if t else None
    return ev.smap(seqarg(ev, a[0]), lambda x: flat_elem(ev, x))


def flat_elem(ev, x):
    return to_iter(ev, x)


@adaptor("inspect")
def i_inspect(ev, a, t, r):
    return seqarg(ev, a[0])


MODELS[IT + "enumerate"] = lambda ev, a, t, r: enumerate_(ev, seqarg(ev, a[0]))
MODELS[IT + "zip"] = lambda ev, a, t, r: zip_(ev, seqarg(ev, a[0]), seqarg(ev, a[1]))
MODELS[IT + "chain"] = lambda ev, a, t, r: cat_app(seqarg(ev, a[0]), seqarg(ev, a[1]))
MODELS[IT + "rev"] = lambda ev, a, t, r: rev(ev, seqarg(ev, a[0]))
MODELS[IT + "skip"] = lambda ev, a, t, r: seq_skip(ev, seqarg(ev, a[0]), R(ev, a[1]))
MODELS[IT + "take"] = lambda ev, a, t, r: seq_take(ev, seqarg(ev, a[0]), R(ev, a[1]))
MODELS[IT + "step_by"] = lambda ev, a, t, r: step_by(ev, seqarg(ev, a[0]), R(ev, a[1]))
MODELS[IT + "any"] = lambda ev, a, t, r: ev.sexists(seqarg(ev, a[0]), lambda x: ev.call_value(a[1], [x]))
MODELS[IT + "all"] = lambda ev, a, t, r: bnot(ev.sexists(seqarg(ev, a[0]), lambda x: bnot(ev.call_value(a[1], [x]))))
MODELS[IT + "count"] = lambda ev, a, t, r: length(seqarg(ev, a[0]))
MODELS["core::iter::traits::exact_size::ExactSizeIterator::len"] = lambda ev, a, t, r: length(seqarg(ev, a[0]))
MODELS[IT + "last"] = lambda ev, a, t, r: last_of(ev, ev.simp(seqarg(ev, a[0])))


@adaptor("nth")
def i_nth(ev, a, t, r):
    s, k = seqarg(ev, a[0]), R(ev, a[1])
    v = seq_get(ev, s, k)
    if a[0].op == "mref":
        ev.write_ref(a[0], seq_skip(ev, s, add(k, num(1))))
    return v


@adaptor("collect")
def i_collect(ev, a, t, r):
    return collect(ev, seqarg(ev, a[0]), strip(r) if r else ("unknown",), t[0] if t else None)


def collect(ev, s, ty, src=None):
    if ty[0] == "adt":
        h = ty[1]
        if h == RES:
            bad = ev.sexists(s, lambda x: bnot(is_variant(x, RES, "Ok")))
            good = ev.smap(s, lambda x: unit(proj(x, RES, "Ok", 0)))
            if bad is FALSE:
                return ok(collect(ev, good, strip(ty[2][0])))
            return ite(bad, err(app("firsterr", s)), ok(collect(ev, good, strip(ty[2][0]))))
        if h == OPT:
            bad = ev.sexists(s, lambda x: bnot(is_variant(x, OPT, "Some")))
            good = ev.smap(s, lambda x: unit(proj(x, OPT, "Some", 0)))
            return ite(bad, NONE, some(collect(ev, good, strip(ty[2][0]))))
        if h == "alloc::string::String":
            return text_of_iter(ev, s, src)
        if h in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
            return s
        if h in MAPHEADS:
            return map_with(ev, mk("app", "map0"), s)
        if ev.prog.adts.get(h, {}).get("local"):
            v = ev.find_impl("core::iter::traits::collect::FromIterator", (ty, ("unknown",)))
            if v:
                m = v[0].methods.get("from_iter")
                if m:
                    return ev.call_fn(m, [s], ())
    return app("?collect:%s" % (ty[1] if len(ty) > 1 else ty[0]), s)


@model("core::iter::traits::collect::FromIterator::from_iter")
def m_from_iter(ev, a, t, r):
    return collect(ev, to_iter(ev, a[0]), strip(t[0]), t[1] if len(t) > 1 else None)


def text_of_iter(ev, s, src):
    """Concatenate an iterator of chars or strings into text."""
    return ev.smap(s, lambda x: tchr(x) if looks_char(ev, x) else x)


def looks_char(ev, x):
    while x.op == "ite":
        x = x.a[1]
    if x.op in ("lit", "cat", "each"):
        return False
    if x.op == "lin" or TYPED.get(x) == "char":
        return True
    if x.op == "app" and x.a[0] == "elt" and x.a[1] in TEXTS:
        return True
    if x in TEXTS:
        return False
    return True


def called_mut(ev, f):
    """What a call of the function value f may change."""
    if f.op in ("clo", "fn"):
        return ev.clo_mutated(f)
    return set(ev.st.store.keys())


@adaptor("for_each")
def i_for_each(ev, a, t, r):
    f = a[1]
    s = seqarg(ev, a[0])
    mut = called_mut(ev, f)
    ev.run_seq(s, lambda x: ev.call_value(f, [x]), mut)
    return UNIT


@adaptor("fold")
def i_fold(ev, a, t, r):
    f = a[2]
    s = seqarg(ev, a[0])
    acc = ev.temp_ref(R(ev, a[1]))
    key = (acc.a[0], acc.a[1])

    def step(x):
        v = ev.call_value(f, [ev.read_ref(acc), x])
        ev.write_ref(acc, v)
    ev.run_seq(s, step, {key} | called_mut(ev, f))
    return ev.read_ref(acc)


@adaptor("try_fold")
def i_try_fold(ev, a, t, r):
    f = a[2]
    s = seqarg(ev, a[0])
    acc = ev.temp_ref(R(ev, a[1]))
    key = (acc.a[0], acc.a[1])
    ty = strip(r) if r else None
    adt, good = (OPT, "Some") if ty and ty[1] == OPT else (RES, "Ok")

    def body():
        def step(x):
            v = ev.call_value(f, [ev.read_ref(acc), x])
            v = ev.simp(v)

            def go():
                ev.write_ref(acc, proj(v, adt, good, 0))
                return UNIT

            def stop():
                ev.exit_to(tgt(), NONE if adt == OPT else err(proj(v, RES, "Err", 0)))
            ev.branch(is_variant(v, adt, good), go, stop)

        def tgt():
            for x in reversed(ev.frame().targets):
                if x.kind == "try":
                    return x
        ev.run_seq(s, step, {key} | called_mut(ev, f))
        x = ev.read_ref(acc)
        return some(x) if adt == OPT else ok(x)
    return ev.with_target("try", None, body)


@adaptor("try_for_each")
def i_try_for_each(ev, a, t, r):
    f = a[1]
    s = seqarg(ev, a[0])
    ty = strip(r) if r else None
    adt, good = (OPT, "Some") if ty and ty[1] == OPT else (RES, "Ok")

    def body():
        def step(x):
            v = ev.simp(ev.call_value(f, [x]))

            def stop():
                for y in reversed(ev.frame().targets):
                    if y.kind == "try":
                        ev.exit_to(y, NONE if adt == OPT else err(proj(v, RES, "Err", 0)))
            ev.branch(is_variant(v, adt, good), lambda: UNIT, stop)
        ev.run_seq(s, step, called_mut(ev, f))
        return some(UNIT) if adt == OPT else ok(UNIT)
    return ev.with_target("try", None, body)


@adaptor("find")
def i_find(ev, a, t, r):
    f = a[1]
    return find_first(ev, seqarg(ev, a[0]), lambda x: ite(R(ev, ev.call_value(f, [x])), some(x), NONE), f)


@adaptor("find_map")
def i_find_map(ev, a, t, r):
    f = a[1]
    return find_first(ev, seqarg(ev, a[0]), lambda x: ev.call_value(f, [x]), f)


@adaptor("position")
def i_position(ev, a, t, r):
    f = a[1]
    return find_first(ev, enumerate_(ev, seqarg(ev, a[0])),
                      lambda x: ite(ev.call_value(f, [tproj(x, 1)]), some(tproj(x, 0)), NONE), f)


def find_first(ev, s, g, f=None):
    def body():
        def tgt():
            for x in reversed(ev.frame().targets):
                if x.kind == "try":
                    return x

        def step(x):
            v = ev.simp(g(x))

            def stop():
                ev.exit_to(tgt(), some(proj(v, OPT, "Some", 0)))
            ev.branch(is_variant(v, OPT, "Some"), stop, lambda: UNIT)
        ev.run_seq(s, step, set() if f is None else called_mut(ev, f))
        return NONE
    return ev.with_target("try", None, body)


@adaptor("max")
def i_max(ev, a, t, r):
    return app("?max", seqarg(ev, a[0]))


@adaptor("sum")
def i_sum(ev, a, t, r):
    return app("sum", seqarg(ev, a[0]))


@adaptor("eq")
def i_eq(ev, a, t, r):
    return sym_app("eq", seqarg(ev, a[0]), seqarg(ev, a[1]))


@adaptor("take_while")
def i_take_while(ev, a, t, r):
    s = seqarg(ev, a[0])
    f = a[1]
    b = fresh()
    c = ev.under_fn(b, length(s), lambda: ev.call_value(f, [elt(s, bv(b))]))
    return app("takewhile", s, exists(b, length(s), num(1), bnot(c)) if c is not None else TRUE)


MODELS["core::iter::sources::once::once"] = lambda ev, a, t, r: unit(R(ev, a[0]))
MODELS["core::iter::sources::empty::empty"] = lambda ev, a, t, r: NIL


# ------------------------------------------------------------------ serde_json
def val(name):
    return "serde_json::value::Value::" + name


def as_variant(variant):
    def f(ev, a, t, r):
        v = R(ev, a[0])
        c = is_variant(v, VALUE, variant)
        x = ev.getf(v, VALUE, variant, 0)
        if variant == "Object":
            mark_map(x)
        return ev.simp(ite(c, some(x), NONE))
    return f


def is_v(variant):
    return lambda ev, a, t, r: is_variant(R(ev, a[0]), VALUE, variant)


for _n, _v in (("array", "Array"), ("object", "Object"), ("str", "String"), ("bool", "Bool"), ("number", "Number")):
    MODELS[val("as_" + _n)] = as_variant(_v)
for _n, _v in (("array", "Array"), ("object", "Object"), ("string", "String"), ("boolean", "Bool"),
               ("number", "Number"), ("null", "Null")):
    MODELS[val("is_" + _n)] = is_v(_v)
MODELS[val("as_null")] = lambda ev, a, t, r: ite(is_variant(R(ev, a[0]), VALUE, "Null"), some(UNIT), NONE)


def value_get(ev, v, i, it):
    it = strip(it) if it else None
    if it is not None and it[0] == "prim" and it[1] == "usize":
        return ite(is_variant(v, VALUE, "Array"), seq_get(ev, ev.getf(v, VALUE, "Array", 0), i), NONE)
    return ite(is_variant(v, VALUE, "Object"), map_get(ev, ev.getf(v, VALUE, "Object", 0), i), NONE)


@model(val("get"))
def m_value_get(ev, a, t, r):
    return ev.simp(value_get(ev, R(ev, a[0]), R(ev, a[1]), t[0]))


for _n in ("as_f64", "as_i64", "as_u64"):
    def _f(ev, a, t, r, n=_n):
        v = R(ev, a[0])
        x = ev.getf(v, VALUE, "Number", 0)
        return ite(is_variant(v, VALUE, "Number"), num_as(n, x), NONE)
    MODELS[val(_n)] = _f

    def _g(ev, a, t, r, n=_n):
        return num_as(n, R(ev, a[0]))
    MODELS["serde_json::number::Number::" + _n] = _g


def num_as(n, x):
    if x.op == "ite":
        return ite(x.a[0], num_as(n, x.a[1]), num_as(n, x.a[2]))
    if n == "as_f64":
        return some(mk("app", "f64of", x))      # always there without arbitrary_precision
    r = mk("app", n, x)
    if n in ("as_i64", "as_u64"):
        TYPED[proj(r, OPT, "Some", 0)] = "i64" if n == "as_i64" else "u64"
    return r


APP_SIMP.update({n: (lambda x, n=n: num_as(n, x)) for n in ("as_f64", "as_i64", "as_u64")})
for _n in ("is_i64", "is_u64", "is_f64"):
    MODELS["serde_json::number::Number::" + _n] = lambda ev, a, t, r, n=_n: lapp(n, R(ev, a[0]))
    E.BOOLAPPS.add(_n)
MODELS["serde_json::number::Number::from"] = lambda ev, a, t, r: app("numint", R(ev, a[0]))


def map_get(ev, m, k):
    if m.op == "ite":
        return ite(m.a[0], map_get(ev, m.a[1], k), map_get(ev, m.a[2], k))
    mark_map(m)
    return lapp("mapget", m, k)


MODELS["serde_json::map::Map::get"] = lambda ev, a, t, r: map_get(ev, R(ev, a[0]), R(ev, a[1]))


@model("serde_json::map::Map::get_key_value")
def m_gkv(ev, a, t, r):
    k = R(ev, a[1])
    g = map_get(ev, R(ev, a[0]), k)
    return ite(is_variant(g, OPT, "Some"), some(tup(k, proj(g, OPT, "Some", 0))), NONE)


MODELS["serde_json::map::Map::contains_key"] = lambda ev, a, t, r: is_variant(
    map_get(ev, R(ev, a[0]), R(ev, a[1])), OPT, "Some")
MODELS["serde_json::map::Map::len"] = lambda ev, a, t, r: length(R(ev, a[0]))
MODELS["serde_json::map::Map::is_empty"] = lambda ev, a, t, r: bnot(ge0(sub(length(R(ev, a[0])), num(1))))
MODELS["serde_json::map::Map::iter"] = lambda ev, a, t, r: map_pairs(R(ev, a[0]))
MODELS["serde_json::map::Map::values"] = lambda ev, a, t, r: ev.smap(map_pairs(R(ev, a[0])), lambda x: unit(tproj(x, 1)))
MODELS["serde_json::map::Map::keys"] = lambda ev, a, t, r: ev.smap(map_pairs(R(ev, a[0])), lambda x: unit(tproj(x, 0)))


def _mapval(m, i):
    if m.op == "ite":
        return ite(m.a[0], _mapval(m.a[1], i), _mapval(m.a[2], i))
    return mk("app", "mapval", m, i)


# ------------------------------------------------------------------ text
def tchr(c):
    if c.op == "ite":
        return ite(c.a[0], tchr(c.a[1]), tchr(c.a[2]))
    if is_num(c):
        return lit(chr(c.a[0]))
    return mk("unit", c)


S = "alloc::string::String::"


@model(S + "push")
def s_push(ev, a, t, r):
    ev.write_ref(a[0], cat_app(R(ev, a[0]), tchr(R(ev, a[1]))))
    return UNIT


@model(S + "push_str")
def s_push_str(ev, a, t, r):
    ev.write_ref(a[0], cat_app(R(ev, a[0]), R(ev, a[1])))
    return UNIT


@model(S + "len", "str::len")
def s_len(ev, a, t, r):
    s = R(ev, a[0])
    if is_lit(s):
        return num(len(s.a[0].encode()) if s.op == "lit" else 0)
    return lift(byte_len, s)


def byte_len(s):
    if is_lit(s):
        return num(len(s.a[0].encode()) if s.op == "lit" else 0)
    r = mk("app", "blen", s)
    BLENS.add(r)
    return r


@model("str::chars")
def s_chars(ev, a, t, r):
    s = R(ev, a[0])
    if s.op not in ("lit", "cat", "ite", "each"):
        TEXTS.add(s)
    return s


@model("str::replace")
def s_replace(ev, a, t, r):
    s, f, to = R(ev, a[0]), R(ev, a[1]), R(ev, a[2])
    if f.op == "lit" and len(f.a[0]) == 1:
        f = num(ord(f.a[0]))
    if is_num(f):
        if s.op not in ("lit", "cat", "ite", "each"):
            TEXTS.add(s)
        return ev.smap(s, lambda c: ite(ev.simp(eqi(c, f)), to, tchr(c)))
    if f.op in ("clo", "fn"):
        return ev.smap(s, lambda c: ite(ev.simp(ev.call_value(f, [c])), to, tchr(c)))
    return lapp("replace", s, f, to)


for _n in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case"):
    def _f(ev, a, t, r, n=_n):
        x = R(ev, a[1])
        x = lit(chr(x.a[0])) if is_num(x) else x
        return lapp("str_" + n, R(ev, a[0]), x)
    MODELS["str::" + _n] = _f
    E.BOOLAPPS.add("str_" + _n)


def teq_classes(f):
    """(term -> texts known to be equal to it, pairs known to be different)"""
    r = f._memo.get("teq")
    if r is None:
        cls, diff = {}, set()
        for a, v in f.atoms.items():
            if a.op == "app" and a.a[0] == "teq":
                x, y = a.a[1:3]
                if v:
                    m = tuple(dict.fromkeys(cls.get(x, (x,)) + cls.get(y, (y,))))
                    for z in m:
                        cls[z] = m
                else:
                    diff.add((x, y))
        r = (cls, diff) if cls else ()
        f._memo["teq"] = r
    return r or None


def teq_known(f, x, y):
    for t in (mk("app", "teq", x, y), mk("app", "teq", y, x)):
        r = f.atoms.get(t)
        if r is not None:
            return r
    return None


def strrel_decide(f, t):
    """Equal texts begin with, end with and contain each other."""
    return True if t.a[1] is t.a[2] or teq_known(f, t.a[1], t.a[2]) else None


def teq_decide(f, t):
    """A text as long as one it begins with, ends with or contains is that text."""
    x, y = t.a[1:3]
    g = teq_classes(f)
    if g is not None:
        cx_, cy = g[0].get(x, (x,)), g[0].get(y, (y,))
        if cx_ is cy and len(cx_) > 1:
            return True
        lx = [z for z in cx_ if z.op == "lit"]
        ly = [z for z in cy if z.op == "lit"]
        if lx and ly:
            return lx[0] is ly[0]
        for a in cx_:
            for b in cy:
                if (a, b) in g[1] or (b, a) in g[1]:
                    return False
    for a, b in ((x, y), (y, x)):
        for n in ("starts_with", "ends_with", "contains"):
            if f.atoms.get(mk("app", "str_" + n, a, b)):
                for d in (sub(length(a), length(b)), sub(byte_len(a), byte_len(b))):
                    if d.op != "ite" and f.simp(eqi(d, num(0))) is TRUE:
                        return True
    if f.atoms.get(mk("app", "str_eq_ignore_ascii_case", x, y)) is False or \
            f.atoms.get(mk("app", "str_eq_ignore_ascii_case", y, x)) is False:
        return False
    return None


STRRELS = ("str_starts_with", "str_ends_with", "str_contains", "str_eq_ignore_ascii_case")
for _n in STRRELS:
    ATOM_DECIDE[_n] = strrel_decide
ATOM_DECIDE["teq"] = teq_decide


def char_pattern(ev, p):
    """A pattern that matches single characters, as a predicate; None for other patterns."""
    if p.op == "lit" and len(p.a[0]) == 1:
        k = num(ord(p.a[0]))
        return lambda c: eqi(c, k)
    if p.op in ("clo", "fn"):
        return lambda c: R(ev, ev.call_value(p, [c]))
    if p.op in ("cat", "unit") and all(x.op == "unit" and looks_char(ev, x.a[0]) or x.op == "unit" and is_num(x.a[0]) for x in parts(p)):
        cs = [x.a[0] for x in parts(p)]

        def f(c):
            r = FALSE
            for k in cs:
                r = bor(r, eqi(c, k))
            return r
        return f
    return None


def text_pred(name, mkpred):
    old = MODELS["str::" + name]

    def f(ev, a, t, r):
        s, p = R(ev, a[0]), R(ev, a[1])
        if is_num(p):
            p = lit(chr(p.a[0]))
        if s.op not in ("lit", "cat", "ite", "each", "unit"):
            TEXTS.add(s)
        q = mkpred(ev, s, p)
        return ev.simp(q) if q is not None else old(ev, a, t, r)
    MODELS["str::" + name] = f


def p_contains(ev, s, p):
    q = char_pattern(ev, p)
    return ev.sexists(s, q) if q else None


def p_ends(back):
    def f(ev, s, p):
        n = length(s)
        at = lambda i: elt(s, add(sub(n, num(1)), num(-i)) if back else num(i))
        q = char_pattern(ev, p)
        if q:
            return band(ge0(sub(n, num(1))), q(at(0)))
        if p.op == "lit" and len(p.a[0]) <= 16:
            w = p.a[0][::-1] if back else p.a[0]
            r = ge0(sub(n, num(len(w))))
            for i, c in enumerate(w):
                r = band(r, eqi(at(i), num(ord(c))))
            return r
        return None
    return f


text_pred("contains", p_contains)
text_pred("starts_with", p_ends(False))
text_pred("ends_with", p_ends(True))


def strip_end(back):
    def f(ev, a, t, r):
        s, p = R(ev, a[0]), R(ev, a[1])
        c = MODELS["str::" + ("ends_with" if back else "starts_with")](ev, a, t, r)
        k = num(1) if is_num(p) or p.op in ("clo", "fn") else length(p)
        n = length(s)
        rest = subseq(ev, s, num(0), sub(n, k)) if back else subseq(ev, s, k, n)
        return ev.simp(ite(c, some(rest), NONE))
    return f


MODELS["str::strip_prefix"] = strip_end(False)
MODELS["str::strip_suffix"] = strip_end(True)


for _n in ("trim", "to_lowercase", "to_uppercase", "trim_start", "trim_end", "as_bytes", "bytes", "char_indices",
           "to_ascii_lowercase", "to_ascii_uppercase", "encode_utf16", "split", "lines", "find",
           "split_once", "trim_matches", "is_char_boundary", "char_indices", "repeat"):
    PURE["str::" + _n] = "str_" + _n
for _n in ("is_alphabetic", "is_alphanumeric", "is_whitespace", "is_numeric", "is_control", "is_lowercase", "is_uppercase"):
    PURE["char::" + _n] = "char_" + _n
PURE["alloc::string::String::from_utf16"] = "from_utf16"
PURE["alloc::string::String::into_bytes"] = "str_as_bytes"
PURE["core::str::converts::from_utf8"] = "from_utf8"


def crange(*rs):
    def f(ev, a, t, r):
        c = R(ev, a[0])
        x = FALSE
        for lo, hi in rs:
            x = bor(x, band(le(num(ord(lo)), c), le(c, num(ord(hi)))))
        return ev.simp(x)
    return f


for _p in ("char", "u8"):
    for _n, _rs in (("is_ascii_digit", (("0", "9"),)), ("is_ascii_lowercase", (("a", "z"),)),
                    ("is_ascii_uppercase", (("A", "Z"),)), ("is_ascii_alphabetic", (("A", "Z"), ("a", "z"))),
                    ("is_ascii_alphanumeric", (("0", "9"), ("A", "Z"), ("a", "z"))),
                    ("is_ascii_hexdigit", (("0", "9"), ("A", "F"), ("a", "f"))),
                    ("is_ascii_control", (("\0", "\x1f"), ("\x7f", "\x7f"))),
                    ("is_ascii", (("\0", "\x7f"),)),
                    ("is_ascii_whitespace", (("\t", "\n"), ("\x0c", "\r"), (" ", " "))),
                    ("is_ascii_graphic", (("!", "~"),))):
        MODELS["%s::%s" % (_p, _n)] = crange(*_rs)


@model("char::from_u32", "core::char::convert::from_u32")
def c_from_u32(ev, a, t, r):
    v = R(ev, a[0])
    c = band(le(num(0), v), band(le(v, num(0x10FFFF)), bnot(band(le(num(0xD800), v), le(v, num(0xDFFF))))))
    return ite(ev.simp(c), some(v), NONE)


@model("char::len_utf8")
def c_len(ev, a, t, r):
    v = R(ev, a[0])
    return ite(lt(v, num(0x80)), num(1), ite(lt(v, num(0x800)), num(2), ite(lt(v, num(0x10000)), num(3), num(4))))


@model("str::parse", "core::str::traits::FromStr::from_str")
def s_parse(ev, a, t, r):
    ty = strip(t[0])
    s = R(ev, a[0])
    if ty[0] == "prim" and ty[1] in PRIM_RANGE and ty[1] != "char":
        return parse_int(ev, ty[1], s, num(10))
    v = ev.trait_call("core::str::traits::FromStr", "from_str", (ty,), [s], None)
    if v is not None:
        return v
    return lapp("parse:%s" % (ty[1] if len(ty) > 1 else ty[0]), s)


# ------------------------------------------------------------------ formatting
FMT = "core::fmt::Formatter"


def decode_template(bs):
    """Pieces of a lowered format_args template: ("lit", text) | ("arg", index or None, flags, width, prec)."""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 128:
            out.append(("lit", bytes(bs[i:i + b]).decode()))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", bytes(bs[i:i + n]).decode()))
            i += n
        elif b >= 0xC0:
            flags = width = prec = None
            if b & 1:
                flags = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if b & 2:
                width = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if b & 4:
                prec = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if b & 8:
                nxt = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            ind = (b & 16, b & 32)
            out.append(("arg", nxt, flags, width, prec, ind))
            nxt += 1
        else:
            raise Unsupported("format template")
    return out


for _n in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary", "lower_exp"):
    def _f(ev, a, t, r, n=_n):
        ev._fmt_ty = getattr(ev, "_fmt_ty", {})
        k = mk("app", "fmtarg", mk("const", n), a[0] if a[0].op != "mref" else R(ev, a[0]), mk("const", "ty", t[0]))
        return k
    MODELS["core::fmt::rt::Argument::new_" + _n] = _f


@model("core::fmt::Arguments::new", "core::fmt::rt::Arguments::new")
def m_args_new(ev, a, t, r):
    tpl, args = R(ev, a[0]), R(ev, a[1])
    return mk("app", "fmtargs", tpl, args)


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst")
def m_args_str(ev, a, t, r):
    return mk("app", "fmtargs", R(ev, a[0]), NIL)


def render(ev, v, fmt=None):
    """Append the text of Arguments v to the formatter place `fmt` (an mref)."""
    tpl, args = v.a[1], parts(v.a[2]) if v.a[2] is not NIL else []
    if tpl.op != "const":
        emit(ev, fmt, tpl)
        return
    for p in decode_template(tpl.a[1]):
        if p[0] == "lit":
            emit(ev, fmt, lit(p[1]))
        else:
            fa = args[p[1]].a[0]
            kind, x, ty = fa.a[1].a[0], fa.a[2], fa.a[3].a[1]
            spec = (p[2], p[3], p[4])
            if spec == (None, None, None) and kind == "display":
                show_display(ev, fmt, x, ty)
            else:
                emit(ev, fmt, fmt_number(ev, kind, spec, x))


def fmt_number(ev, kind, spec, x):
    opaque = lapp("fmt:%s:%s" % (kind, ":".join(str(z) for z in spec)), x)
    flags, width, prec = spec
    if x.op == "ite":
        return ite(x.a[0], fmt_number(ev, kind, spec, x.a[1]), fmt_number(ev, kind, spec, x.a[2]))
    if kind not in ("lower_hex", "upper_hex", "octal", "binary", "display") or prec is not None:
        return opaque
    fl = flags or 0
    fill = chr(fl & 0x1FFFFF) if fl & 0x1FFFFF else " "
    plus, alt, zero, align = fl >> 21 & 1, fl >> 23 & 1, fl >> 24 & 1, fl >> 29 & 3
    if plus or not zero and align not in (3, 1) and width:
        return opaque

    def text(v):
        d = {"lower_hex": "%x", "upper_hex": "%X", "octal": "%o", "display": "%d"}.get(kind)
        d = d % v if d else bin(v)[2:]
        pre = {"lower_hex": "0x", "upper_hex": "0x", "octal": "0o", "binary": "0b"}.get(kind, "") if alt else ""
        if zero:
            return pre + d.rjust((width or 0) - len(pre), "0")
        return (pre + d).rjust(width or 0, fill)
    if is_num(x):
        return lit(text(x.a[0])) if x.a[0] >= 0 else opaque
    f = ev.st.facts
    lo = hi = None
    if x.op in ("lin", "app", "bv", "var", "proj"):
        for h in (0x1F, 0x7F, 0xFF):
            if f.simp(le(x, num(h))) is TRUE:
                hi = h
                break
        if hi is not None and f.simp(ge0(x)) is TRUE:
            r = None
            for k in range(hi, -1, -1):
                c = f.simp(eqi(x, num(k)))
                if c is FALSE:
                    continue
                r = lit(text(k)) if r is None else ite(c, lit(text(k)), r)
            return r if r is not None else opaque
    return opaque


def emit(ev, fmt, txt):
    ev.write_ref(fmt, cat_app(R(ev, fmt), txt))


def show_display(ev, fmt, x, ty):
    t = strip(ty)
    while t[0] == "adt" and t[1] in ("alloc::boxed::Box", "alloc::borrow::Cow"):
        t = strip(t[2][0])
    if t[0] == "prim":
        if t[1] == "str":
            return emit(ev, fmt, x)
        if t[1] == "char":
            return emit(ev, fmt, tchr(x))
        if t[1] == "bool":
            return emit(ev, fmt, ite(x, lit("true"), lit("false")))
        if t[1] in PRIM_RANGE:
            return emit(ev, fmt, dec(x))
    if t[0] == "adt":
        if t[1] == "alloc::string::String":
            return emit(ev, fmt, x)
        if t[1] == "core::fmt::Arguments":
            return render(ev, x, fmt)
        v = ev.trait_call("core::fmt::Display", "fmt", (t,), [x, fmt], None)
        if v is not None:
            return
    emit(ev, fmt, lapp("display:%s" % (t[1] if len(t) > 1 and isinstance(t[1], str) else t[0]), x))


def dec(x):
    if x.op == "ite":
        return ite(x.a[0], dec(x.a[1]), dec(x.a[2]))
    if is_num(x):
        return lit(str(x.a[0]))
    return mk("app", "dec", x)


@model("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt", "alloc::string::String::write_fmt")
def m_write_fmt(ev, a, t, r):
    render(ev, R(ev, a[1]), a[0])
    return ok(UNIT)


@model("core::fmt::Formatter::write_str", "core::fmt::Write::write_str")
def m_write_str(ev, a, t, r):
    emit(ev, a[0], R(ev, a[1]))
    return ok(UNIT)


@model("core::fmt::Formatter::write_char", "core::fmt::Write::write_char")
def m_write_char(ev, a, t, r):
    emit(ev, a[0], tchr(R(ev, a[1])))
    return ok(UNIT)


@model("core::fmt::Display::fmt")
def m_display_fmt(ev, a, t, r):
    show_display(ev, a[1], R(ev, a[0]), t[0])
    return ok(UNIT)


@model("core::fmt::Formatter::pad")
def m_pad(ev, a, t, r):
    emit(ev, a[0], R(ev, a[1]))
    return ok(UNIT)


def text_of(ev, x, ty):
    k = ev.temp_ref(NIL)
    show_display(ev, k, x, ty)
    return ev.read_ref(k)


@model("alloc::string::ToString::to_string")
def m_to_string(ev, a, t, r):
    return text_of(ev, R(ev, a[0]), t[0])


@model("alloc::fmt::format")
def m_format(ev, a, t, r):
    k = ev.temp_ref(NIL)
    render(ev, R(ev, a[0]), k)
    return ev.read_ref(k)


@model("core::panicking::panic_fmt", "core::panicking::panic", "core::panicking::panic_display",
       "core::panicking::unreachable_display", "core::panicking::assert_failed", "core::panicking::panic_explicit",
       "std::rt::begin_panic", "core::panicking::panic_nounwind", "core::option::unwrap_failed")
def m_panic(ev, a, t, r):
    ev.panic("panic")
    raise Diverge()


MODELS["core::panicking::unreachable_default_msg"] = lambda ev, a, t, r: UNIT
MODELS["core::hint::unreachable_unchecked"] = m_panic

# calls of function objects
for _k in ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut",
           "core::ops::function::FnOnce::call_once"):
    def _f(ev, a, t, r):
        args = R(ev, a[1])
        xs = list(args.a) if args.op == "tup" else None
        if xs is None:
            raise Unsupported("call with an opaque argument tuple")
        return ev.call_value(a[0], xs)
    MODELS[_k] = _f

# ------------------------------------------------------------------ regular expressions
RXP = "regex::regex::string::Regex::"
RXB = "regex::builders::string::RegexBuilder::"


def regex_pattern(p):
    """(kind, flags, expression) of a pattern `prefix ++ r ++ suffix` with constant prefix and
    suffix; kinds: plain, full, start, end (anchors around the whole of r), otherwise the text."""
    ps = list(p.a) if p.op == "cat" else [p]
    pre = post = ""
    while ps and ps[0].op in ("lit", "unit") and lit_text(ps[0]) is not None:
        pre += lit_text(ps.pop(0))
    while ps and ps[-1].op in ("lit", "unit") and lit_text(ps[-1]) is not None:
        post = lit_text(ps.pop()) + post
    if not ps:
        return "constant " + pre + post, "", NIL
    r = ps[0] if len(ps) == 1 else mk("cat", *ps)
    if any(q.op in ("lit", "unit") for q in ps):
        return "mixed", "", p
    flags, toks, i = set(), [], 0
    raw = ("other %s\u2026%s" % (pre, post), "", r)
    while i < len(pre):
        for m, k in (("(?:", "("), ("\\A", "A"), ("^", "^"), ("(", "(")):
            f = re.match(r"\(\?([a-zA-Z]+)\)", pre[i:])
            g = re.match(r"\(\?([a-zA-Z]+):", pre[i:])
            h = re.match(r"\(\?P?<\w+>", pre[i:])
            if f:
                if toks:
                    return raw
                flags |= set(f.group(1))
                i += len(f.group(0))
                break
            if g:
                flags |= set(g.group(1))
                toks.append("(")
                i += len(g.group(0))
                break
            if h:
                toks.append("(")
                i += len(h.group(0))
                break
            if pre.startswith(m, i):
                toks.append(k)
                i += len(m)
                break
        else:
            return raw
    ends, i = [], 0
    while i < len(post):
        for m, k in ((")", ")"), ("\\z", "Z"), ("$", "$")):
            if post.startswith(m, i):
                ends.append(k)
                i += len(m)
                break
        else:
            return raw
    if toks.count("(") != ends.count(")"):
        return raw
    if "m" in flags and ("^" in toks or "$" in ends):
        return raw
    fl = "".join(sorted(flags - {"u"}))
    anch = [t for t in toks if t != "("] + [t for t in ends if t != ")"]
    if anch and (not toks or toks[-1] != "(" or not ends or ends[0] != ")"):
        return raw
    a, z = any(t != "(" for t in toks), any(t != ")" for t in ends)
    return ("full" if a and z else "start" if a else "end" if z else "plain"), fl, r


def lit_text(t):
    if t.op == "lit":
        return t.a[0] if isinstance(t.a[0], str) else None
    if t.op == "unit" and is_num(t.a[0]):
        return chr(t.a[0].a[0])
    return None


def pulled(t):
    """Concatenation of conditional parts as a conditional concatenation."""
    if t.op == "cat":
        for i, x in enumerate(t.a):
            if x.op == "ite":
                return ite(x.a[0], pulled(cat(*t.a[:i], x.a[1], *t.a[i + 1:])), pulled(cat(*t.a[:i], x.a[2], *t.a[i + 1:])))
    if t.op == "ite":
        return ite(t.a[0], pulled(t.a[1]), pulled(t.a[2]))
    return t


def regex_of(p, extra=()):
    return lift(lambda x: regex_of1(x, extra), pulled(p))


def regex_of1(p, extra):
    k, f, r = regex_pattern(p)
    f = "".join(sorted(set(f) | set(extra)))
    v = mk("app", "regexval", k, f, r)
    return ite(mk("app", "regex_valid", k, f, r), ok(v), err(mk("app", "regex_error", k, f, r)))


@model(RXP + "new")
def m_regex_new(ev, a, t, r):
    return regex_of(R(ev, a[0]))


def regex_parts(ev, x):
    x = R(ev, x)
    return x.a[1:] if x.op == "app" and x.a[0] == "regexval" else ("unknown", "", x)


@model(RXP + "is_match")
def m_regex_is_match(ev, a, t, r):
    return lift(lambda x: mk("app", "regex_is_match", *regex_parts(ev, x), R(ev, a[1])), R(ev, a[0]))


@model(RXP + "find")
def m_regex_find(ev, a, t, r):
    def one(x):
        k = regex_parts(ev, x) + (R(ev, a[1]),)
        return ite(mk("app", "regex_is_match", *k), some(mk("app", "regex_found", *k)), NONE)
    return lift(one, R(ev, a[0]))


@model(RXP + "captures", RXP + "shortest_match")
def m_regex_captures(ev, a, t, r):
    def one(x):
        k = regex_parts(ev, x) + (R(ev, a[1]),)
        return ite(mk("app", "regex_is_match", *k), some(mk("app", "regex_groups", *k)), NONE)
    return lift(one, R(ev, a[0]))


def found_part(name):
    def f(ev, a, t, r):
        m = R(ev, a[0])
        if m.op == "app" and m.a[0] == "regex_found":
            if name == "start" and m.a[1] in ("full", "start"):
                return num(0)
            if name == "end" and m.a[1] in ("full", "end"):
                return byte_len(m.a[4])
            if name == "as_str" and m.a[1] == "full":
                return m.a[4]
        x = mk("app", "regex_" + name, m)
        ev.type_result(x, r)
        return x
    return f


for _n in ("start", "end", "as_str", "range", "len", "is_empty"):
    MODELS["regex::regex::string::Match::" + _n] = found_part(_n)


@model(RXB + "new")
def m_rb_new(ev, a, t, r):
    return mk("app", "regexbuild", "", R(ev, a[0]))


for _n, _f in (("crlf", "R"), ("case_insensitive", "i"), ("multi_line", "m"), ("dot_matches_new_line", "s"), ("swap_greed", "U"),
               ("ignore_whitespace", "x")):
    def _g(ev, a, t, r, flag=_f):
        b, on = R(ev, a[0]), R(ev, a[1])
        if b.op == "app" and b.a[0] == "regexbuild" and on in (TRUE, FALSE):
            fs = set(b.a[1]) | {flag} if on is TRUE else set(b.a[1]) - {flag}
            b = mk("app", "regexbuild", "".join(sorted(fs)), b.a[2])
        else:
            b = mk("app", "?regexbuild", b, on)
        ev.write_ref(a[0], b)
        return a[0]
    MODELS[RXB + _n] = _g


@model(RXB + "build")
def m_rb_build(ev, a, t, r):
    b = R(ev, a[0])
    if b.op == "app" and b.a[0] == "regexbuild":
        return regex_of(b.a[2], b.a[1])
    return mk("app", "?regex", b)


E.BOOLAPPS |= {"regex_is_match", "regex_valid", "regex_is_empty"}


MAPHEADS = ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap")


def map_with(ev, m, entries):
    """`m` after inserting the entries (key, value) in order."""
    if entries.op == "ite":
        return ite(entries.a[0], map_with(ev, m, entries.a[1]), map_with(ev, m, entries.a[2]))
    for p in parts(entries):
        if p.op == "unit":
            e = ev.simp(R(ev, p.a[0]))
            m = mk("app", "mapins", m, R(ev, tproj(e, 0)), R(ev, tproj(e, 1)))
        else:
            m = mk("app", "?mapins_all", m, p)
    return m


@model("std::collections::hash::map::HashMap::new", "std::collections::hash::map::HashMap::with_capacity",
       "alloc::collections::btree::map::BTreeMap::new")
def m_hm_new(ev, a, t, r):
    return mk("app", "map0")


@model("std::collections::hash::map::HashMap::insert", "alloc::collections::btree::map::BTreeMap::insert")
def m_hm_insert(ev, a, t, r):
    m = R(ev, a[0])
    ev.write_ref(a[0], mk("app", "mapins", m, R(ev, a[1]), R(ev, a[2])))
    return mk("app", "?old")


@model("std::collections::hash::map::HashMap::get", "alloc::collections::btree::map::BTreeMap::get")
def m_hm_get(ev, a, t, r):
    m, k = R(ev, a[0]), R(ev, a[1])
    return hm_get(ev, ev.force_static(m), k)


@model("std::collections::hash::map::HashMap::contains_key", "alloc::collections::btree::map::BTreeMap::contains_key")
def m_hm_contains(ev, a, t, r):
    return ev.simp(is_variant(m_hm_get(ev, a, t, r), OPT, "Some"))


def hm_get(ev, m, k):
    if m.op == "app" and m.a[0] == "mapins":
        return ite(teq(m.a[2], k), some(m.a[3]), hm_get(ev, m.a[1], k))
    if m.op == "app" and m.a[0] == "map0":
        return NONE
    return lapp("hmget", m, k)


PURE["core::any::type_name"] = "type_name"


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def m_discriminant(ev, a, t, r):
    ty = strip(t[0])
    x = R(ev, a[0])
    vs = ev.prog.variants(ty[1]) if ty[0] == "adt" else None
    if not vs:
        return lapp("discriminant_value", x)
    d = num(len(vs) - 1)
    for i in range(len(vs) - 2, -1, -1):
        d = ite(is_variant(x, ty[1], vs[i]), num(i), d)
    return ev.simp(d)


@model("core::intrinsics::unreachable", "core::hint::unreachable_unchecked")
def m_unreachable(ev, a, t, r):
    return BOT


@model("alloc::vec::Vec::drain", "alloc::string::String::drain")
def m_drain(ev, a, t, r):
    s = R(ev, a[0])
    x = ev.simp(R(ev, a[1]))
    if x.op == "con" and x.a[0] == "core::ops::range::RangeFull":
        ev.write_ref(a[0], NIL)
        return s
    return ev.unknown_call("alloc::vec::Vec::drain", a, r, t)


def m_concat(ev, a, t, r):
    s = R(ev, a[0])
    sep = R(ev, a[1]) if len(a) > 1 else NIL
    if is_num(sep):
        sep = lit(chr(sep.a[0]))
    if sep is not NIL:
        if s.op in ("cat", "unit") and all(p.op == "unit" for p in parts(s)):
            out = []
            for i, p in enumerate(parts(s)):
                out += [sep, p.a[0]] if i else [p.a[0]]
            return cat(*out)
        return lapp("join", s, sep)
    return ev.smap(s, lambda x: x)


each_head(("concat", "join"), VECS, m_concat)


@model("nom::internal::Parser::parse")
def parser_parse(ev, a, t, r):
    """Running a parser value changes nothing but what its own closures change (which are run when
    the parser is analysed)."""
    p = ev.read_ref(a[0]) if a[0].op == "mref" else a[0]
    return mkapp("?nom::internal::Parser::parse", p, a[1])


# Operations of lists and texts that panic unless a condition on their arguments holds
def _upto(s, i, *r):
    return band(ge0(i), le(i, length(s)))


def _below(s, i, *r):
    return band(ge0(i), lt(i, length(s)))


PANICS_UNLESS = {
    "alloc::vec::Vec::insert": _upto, "alloc::vec::Vec::split_off": _upto, "slice::split_at": _upto, "slice::split_at_mut": _upto,
    "alloc::vec::Vec::remove": _below, "alloc::vec::Vec::swap_remove": _below,
    "slice::swap": lambda s, i, j: band(_below(s, i), _below(s, j)),
    "slice::chunks": lambda s, n: ge0(sub(n, num(1))), "slice::windows": lambda s, n: ge0(sub(n, num(1))),
    "slice::chunks_exact": lambda s, n: ge0(sub(n, num(1))),
    "slice::copy_from_slice": lambda s, t: eqi(length(s), length(t)),
    "slice::rotate_left": _upto, "slice::rotate_right": _upto,
}
