"""C21: integers of queries stay within the I-JSON range and keep their value."""
import re
import c_struct
import engine
from ctx import *
from c_eval import V
from c_list import leaves, case
from c_feat import nodes
from c_parse import compare_languages, item, by_type, reachable, call_graph, parser_output, entry, named
from peg import *
from tagged import TextValue

INT = engine.INT_ADT
LIM = 2 ** 53 - 1
PRIMS = ("i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize")


def within(x):
    return band(ge0(add(x, num(LIM))), ge0(sub(num(LIM), x)))


def integer(x):
    return con(INT, "Integer", x)


def param(cx, f, i=0):
    """A parameter of the function, typed."""
    t = f.inputs[i]
    while t[0] == "ref":
        t = t[2]
    x = V("%s of %s" % ("p%d" % i, f.id))
    if t[0] == "prim":
        engine.TYPED[x] = t[1]
    return x


def args(cx, f):
    return [param(cx, f, i) for i in range(len(f.inputs))]


def is_int(t):
    while t[0] == "ref":
        t = t[2]
    return t[:2] == ("adt", INT)


def understood(t):
    """Made of parameters, their parts, numbers and decisions on them."""
    return t.op in ("var", "num", "lin", "mono", "ge0", "ite", "is", "proj", "not", "true", "false", "and", "or", "con", "lit") and \
        all(understood(x) for x in t.a if isinstance(x, T)) and \
        all(understood(y) for x in t.a if isinstance(x, tuple) for z in x for y in (z if isinstance(z, tuple) else (z,)) if isinstance(y, T))


def integers_in(t):
    return [x for x in all_terms(t) if x.op == "con" and x.a[0] == INT]


def constructions(cx):
    """Every function that builds an Integer from a bare number builds one inside the range."""
    owners = {}
    for f in cx.prog.fns.values():
        if f.body is None or f.crate == "sjp_spec":
            continue
        for y in nodes(cx.prog, f.body):
            built = isinstance(y, dict) and y.get("k") == "adt" and y.get("adt") == INT and y.get("base") is None or \
                isinstance(y, dict) and y.get("k") in ("fn", "call") and str(y.get("f")).find(INT + "::{ctor") >= 0
            if isinstance(y, dict) and y.get("k") in ("assign", "assignop"):
                z = y.get("l")
                built = isinstance(z, dict) and z.get("k") == "field" and is_int(z["e"].get("ty", ("?",)))
            if built:
                o = f
                while o.kind == "Closure" and o.parent in cx.prog.fns:
                    o = cx.prog.fns[o.parent]
                owners[o.id] = o
    if not owners:
        raise Missing("no function builds an Integer")
    for i, f in sorted(owners.items()):
        cx.count("functions that build integers")
        cx.record("%s builds integers within the range only" % f.label(), in_range(cx, f), where=where(f))


def in_range(cx, f):
    v, outs, notes, panics = cx.summarize(f, args(cx, f) if f.inputs else None)
    f0 = Facts()
    for p in panics:
        f0 = f0.assume(p[2], False)
    n = 0
    for t in [v] + list(outs.values()):
        for path, leaf, g in leaves(t, f0):
            for c in integers_in(leaf):
                n += 1
                for path2, x, h in leaves(c.a[2], g):
                    ok_ = within(x)
                    if h.simp(ok_) is TRUE:
                        continue
                    k = h.assume(ok_, False)
                    if k.dead:
                        continue
                    if understood(x) and all(understood(c_) for c_, _ in path + path2):
                        return Diff((), x, None, "when %s the integer is %s, which may be outside the range" % (
                            case(path + path2), compare.sh(x)))
                    return Unk((), "whether %s is in the range" % compare.sh(x)[:200])
    if n == 0:
        return Unk((), "the integer built was not seen in the summary")
    return EQ


def choice(cx, label, f, found, adt, good, bad, cond, value):
    """`found` is good(value) when cond, bad otherwise."""
    cx.require(label + ": when", is_variant(found, adt, good), cond, where=where(f))
    cx.require(label + ": the value", proj(found, adt, good, 0), value, facts=Facts().assume(cond, True), where=where(f))


def operations(cx):
    seen = 0
    for f in sorted(cx.prog.fns.values(), key=lambda f: f.id):
        if f.kind == "Closure" or f.crate == "sjp_spec" or f.body is None or not f.inputs:
            continue
        t = short(f.trait) if f.of == "traitimpl" and f.trait else None
        a = args(cx, f)
        if t in ("TryFrom", "From") and f.self_head == INT and f.inputs[0][0] == "prim" and f.inputs[0][1] in PRIMS:
            seen += 1
            lab = "Integer from %s" % f.inputs[0][1]
            v = cx.value(f, a)
            if t == "From":
                cx.require(lab + " keeps the value", v, integer(a[0]), where=where(f))
            else:
                choice(cx, lab, f, v, RES, "Ok", "Err", within(a[0]), integer(a[0]))
        elif t == "FromStr" and f.self_head == INT:
            seen += 1
            p = mk("app", "parseint:i64", a[0], num(10))
            n = proj(p, RES, "Ok", 0)
            choice(cx, "Integer from text", f, cx.value(f, a), RES, "Ok", "Err", band(is_variant(p, RES, "Ok"), within(n)), integer(n))
        elif t in ("TryFrom", "From") and is_int(f.inputs[0]) and f.output:
            out = f.output
            if out[:2] == ("adt", RES):
                out = out[2][0]
            if out[0] == "prim" and out[1] in PRIMS:
                n = proj(a[0], INT, "Integer", 0)
                v = cx.value(f, a)
                lo, hi = engine.PRIM_RANGE[out[1]]
                if t == "From":
                    cx.require("%s from Integer keeps the value" % out[1], v, n, where=where(f))
                else:
                    choice(cx, "%s from Integer" % out[1], f, v, RES, "Ok", "Err",
                           band(ge0(sub(n, num(lo))), ge0(sub(num(hi), n))), n)
        elif f.of == "inherent" and f.self_head == INT and f.name in ("checked_add", "checked_sub", "checked_mul"):
            seen += 1
            x, y = (proj(z, INT, "Integer", 0) for z in a)
            r = {"checked_add": add(x, y), "checked_sub": sub(x, y), "checked_mul": mul(x, y)}[f.name]
            choice(cx, "Integer::%s" % f.name, f, cx.value(f, a), OPT, "Some", "None", within(r), integer(r))
        elif f.of == "inherent" and f.self_head == INT and f.name == "abs":
            x = proj(a[0], INT, "Integer", 0)
            cx.require("Integer::abs", cx.value(f, a), integer(ite(ge0(x), x, neg(x))), where=where(f))
        elif t == "Display" and f.self_head == INT:
            x = proj(a[0], INT, "Integer", 0)
            o = [v for k, v in cx.summarize(f)[1].items() if k == "p1"]
            if o:
                cx.require("Integer is displayed as its value", o[0], cat(V("p1"), mk("app", "dec", proj(V("self"), INT, "Integer", 0))), where=where(f))
        elif f.name in ("cmp", "partial_cmp", "eq") and (is_int(f.inputs[0])) and len(f.inputs) == 2 and f.of == "traitimpl":
            x = proj(a[0], INT, "Integer", 0)
            y = proj(a[1], INT, "Integer", 0) if is_int(f.inputs[1]) else a[1]
            o = ite(ge0(sub(x, y)), ite(ge0(sub(sub(x, y), num(1))), ORDV("Greater"), ORDV("Equal")), ORDV("Less"))
            want = {"cmp": o, "partial_cmp": some(o), "eq": band(ge0(sub(x, y)), ge0(sub(y, x)))}[f.name]
            cx.require("<Integer as %s>::%s%s" % (t, f.name, "" if is_int(f.inputs[1]) else " with a number"), cx.value(f, a), want, where=where(f))
    cx.count("conversions and operations", seen)
    if not seen:
        raise Missing("no conversions to Integer")


def ORDV(v):
    return con("core::cmp::Ordering", v)


# ------------------------------------------------------------------ the parser
def literals(cx):
    root = entry(cx)
    ids = {i for i in reachable(call_graph(cx.prog), root.id) if parser_output(cx.prog.fns[i]) is not None}
    ref = "sjp_spec::grammar::int"
    end = mk("app", "letter", "end")
    readers = by_type(cx, ids, "Integer")
    if not readers:
        raise Missing("no function of the parser reads an Integer")
    good = 0
    for i in readers:
        f = cx.prog.fns[i]
        cx.count("functions reading integers")
        try:
            d = compare_languages(cx, tup(item(i), end), (), tup(item(ref), end), (), small=False, seconds=100)
        except Giveup as e:
            cx.record("%s reads the integers within the range" % f.label(), Unk((), str(e)), where=where(f))
            continue
        if d is None:
            good += 1
            cx.record("%s reads exactly the integers within the range" % f.label(), EQ, where=where(f))
            values(cx, f, ref)
            continue
        w = named(d[0])
        t = re.sub("\u00ab.*?\u00bb", "", w)
        if re.fullmatch("-?[0-9]+", t):
            cx.record("%s reads exactly the integers within the range" % f.label(), Diff((), None, None, "the text %r is %s by the code and %s by the grammar" % (
                t, "accepted" if d[1] else "rejected", "rejected" if d[1] else "accepted")), where=where(f))
            good += 1
    if not good:
        cx.record("a function of the parser reads exactly the integers within the range", Unk((), "none does"), where=where(root))


def values(cx, f, ref):
    lv = c_struct.Level("Integer", item(f.id), item(ref), c_struct.END, {"root", "LogicalOrExpr"}, (f.id, ref), {}, {}, {}, "Integer")
    for p, m in c_struct.all_places(cx.prog, "Integer", {}):
        lab = "%s keeps the value of integers:%s" % (f.label(), c_struct.show_path(p, m))
        try:
            d = c_struct.judge(cx, lv, p, m, 40)
        except TextValue as e:
            d = on_texts(e) or Unk((), str(e))
        except Giveup as e:
            d = Unk((), str(e))
        cx.record(lab, d, where=where(f))


def on_texts(e):
    """A text of the range whose value is another, by folding the term for some texts."""
    for n in sorted({z * k for k in (1, -1) for j in range(16) for z in (10 ** j, 10 ** j - 1, 9 * 10 ** j) if z <= LIM} | {LIM, -LIM}, key=abs):
        v = integer(num(n)) if e.v is V("Integer") else num(n)
        w, k = V("whole text"), num(len(str(n)))
        t = replace(replace(e.t, {mk("app", "blen", w): k, length(w): k}), {w: mk("lit", str(n))})
        r = Facts().simp(replace(t, {e.v: v}))
        if r.op == "con" and r.a[0] == INT and is_num(r.a[2]) and r.a[2] is not num(n):
            return Diff((), None, None, "the text %d becomes the integer %d" % (n, r.a[2].a[0]))
    return None


def C21(cx):
    fs = [x for _, v in cx.prog.adts[INT]["variants"] for x in v]
    for x in fs:
        if x[2]:
            cx.record("the number inside an Integer is private", "the field %s is public" % x[0], where="serde_json_path_core")
            break
    else:
        cx.record("the number inside an Integer is private", EQ)
    constructions(cx)
    operations(cx)
    literals(cx)
