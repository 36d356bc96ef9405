"""C22, C23: node lists."""
from ctx import *
from c_eval import V, field

NODES = "serde_json_path_core::node::NodeList"
LNODES = "serde_json_path_core::node::LocatedNodeList"
LNODE = "serde_json_path_core::node::LocatedNode"
PATH = "serde_json_path_core::path::NormalizedPath"
ELEM = "serde_json_path_core::path::PathElement"
ORDERING = "core::cmp::Ordering"


def seq_methods(cx, head, adt, names, optional=()):
    me = field(cx, V("self"), adt, "0")
    for n in list(names) + list(optional):
        f = cx.inherent(head, n, opt=n in optional)
        if f is None:
            continue
        args = [me] + [V("p%d" % i) for i in range(1, len(f.inputs))]
        cx.require("%s::%s" % (head, n), cx.value(f), cx.value(cx.spec("list::seq::" + n), args), where=where(f))
        unchanged(cx, head, n, f)


def unchanged(cx, head, n, f):
    outs = cx.summarize(f)[1]
    if "self" in outs:
        cx.require("%s::%s leaves the list unchanged" % (head, n), outs["self"], V("self"), where=where(f))


def whole(cx, head, f, want):
    cx.require("%s::%s is the whole sequence" % (head, f.name), cx.value(f), want, where=where(f))


def C22(cx):
    seq_methods(cx, "NodeList", NODES, ("len", "is_empty", "first", "last", "get", "at_most_one", "exactly_one"), ("one",))
    seq_methods(cx, "LocatedNodeList", LNODES, ("len", "is_empty", "first", "last", "get", "at_most_one", "exactly_one"), ("one",))
    seq_methods(cx, "NormalizedPath", PATH, ("len", "is_empty", "first", "last", "get"))
    for head, adt in (("NodeList", NODES), ("LocatedNodeList", LNODES), ("NormalizedPath", PATH)):
        me = field(cx, V("self"), adt, "0")
        for n in ("iter",) + (("all",) if adt != PATH else ()):
            whole(cx, head, cx.inherent(head, n), me)
        whole(cx, head, cx.method("IntoIterator", head, "into_iter"), me)
        for f in cx.prog.fns.values():
            if f.kind != "Closure" and f.of == "traitimpl" and f.name == "from" and f.trait.endswith("::From") \
                    and f.self_head and short(f.self_head) == head and f.crate != "sjp_spec" \
                    and f.inputs and f.inputs[0][0] == "adt" and f.inputs[0][1].endswith("::Vec"):
                cx.require("%s::from(Vec)" % head, cx.value(f), con(adt, single_variant(cx, adt), V("p0")), where=where(f))
                cx.count("conversions from a vector")
    iterators(cx)
    # the parts of one entry
    me = V("self")
    for n, fld in (("location", "loc"), ("to_location", "loc"), ("node", "node")):
        f = cx.inherent("LocatedNode", n)
        cx.require("LocatedNode::%s" % n, cx.value(f), field(cx, me, LNODE, fld), where=where(f))
    f = [f for f in cx.prog.fns.values() if f.of == "traitimpl" and f.name == "from" and f.self_head and
         short(f.self_head) == "NormalizedPath" and f.kind != "Closure" and f.inputs and f.inputs[0][:2] == ("adt", LNODE)]
    for f in f:
        cx.require("NormalizedPath::from(LocatedNode)", cx.value(f), field(cx, V("p0"), LNODE, "loc"), where=where(f))
    for n, s in (("is_empty", "error_is_empty"), ("is_more_than_one", "error_is_more"), ("as_more_than_one", "error_more")):
        f = cx.inherent("ExactlyOneError", n)
        cx.require("ExactlyOneError::%s" % n, cx.value(f), cx.value(cx.spec("list::" + s), [me]), where=where(f))
    for n, s in (("as_name", "element_name"), ("as_index", "element_index"), ("is_name", "element_has_name"),
                 ("is_index", "element_has_index")):
        f = cx.inherent("PathElement", n)
        cx.require("PathElement::%s" % n, cx.value(f), cx.value(cx.spec("list::" + s), [me]), where=where(f))
    for f in cx.prog.fns.values():
        if f.of == "traitimpl" and f.name == "eq" and f.kind != "Closure" and f.self_head and short(f.self_head) == "PathElement":
            o = f.inputs[1]
            while o[0] == "ref":
                o = o[2]
            s = {("prim", "str"): "element_is_name", ("prim", "usize"): "element_is_index"}.get(o[:2])
            if s is None and o[:2] == ("adt", ELEM):
                s = "element_eq"
            if s:
                cx.require("PathElement == %s" % (o[1],), cx.value(f), cx.value(cx.spec("list::" + s), [me, V("p1")]), where=where(f))


def single_variant(cx, adt):
    return cx.prog.adts[adt]["variants"][0][0]


ITER_TRAITS = ("Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator")


def iterators(cx):
    for head, maker, spec in (("Locations", "locations", "locations"), ("Nodes", "nodes", "nodes")):
        adt = "serde_json_path_core::node::" + head
        a = cx.prog.adts.get(adt)
        if a is None:
            raise Missing("type " + head)
        v, fs = a["variants"][0]
        if len(fs) != 1:
            cx.obls.append(Obl("%s: one inner iterator" % head, "undecided", "fields: %r" % ([x[0] for x in fs],)))
            continue
        f = cx.inherent("LocatedNodeList", maker)
        cx.require("LocatedNodeList::%s starts with the whole sequence" % maker, cx.value(f),
                   con(adt, v, field(cx, V("self"), LNODES, "0")), where=where(f))
        inner = proj(V("self"), adt, v, 0)
        for t, need in (("Iterator", ("next",)), ("DoubleEndedIterator", ("next_back",)), ("ExactSizeIterator", ("len",))):
            for n in need:
                cx.method(t, head, n)
        for f in sorted(cx.prog.fns.values(), key=lambda f: f.id):
            if not (f.of == "traitimpl" and f.kind != "Closure" and f.self_head == adt and f.trait and short(f.trait) in ITER_TRAITS):
                continue
            try:
                s = cx.spec("list::%s::%s" % (spec, f.name))
            except Missing:
                cx.obls.append(Obl("%s::%s" % (head, f.name), "undecided", "overridden iterator method without a definition"))
                continue
            args = [inner] + [V("p%d" % i) for i in range(1, len(f.inputs))]
            cx.require("%s::%s" % (head, f.name), cx.value(f), cx.value(s, args), where=where(f))
            outs = cx.summarize(f)[1]
            if "self" in outs:
                want = cx.summarize(s, args)[1]
                w = want.get(list(want)[0]) if want else inner
                cx.require("%s::%s: what remains" % (head, f.name), outs["self"], con(adt, v, w), where=where(f))
            cx.count("iterator methods")


# --------------------------------------------------------------------------- C23
def leaves(t, f, path=()):
    """(case, leaf) of nested decisions, feasible under f."""
    t = f.simp(t)
    if (t.op in ("ge0", "is", "exists") or t.op == "app" and t.a[0] in ("eq", "teq", "tlt", "feq", "flt", "fle")):
        t = mk("ite", t, TRUE, FALSE)
    if t.op == "ite":
        for val, br in ((True, t.a[1]), (False, t.a[2])):
            g = f.assume(t.a[0], val)
            if not g.dead:
                yield from leaves(br, g, path + ((t.a[0], val),))
    else:
        yield path, t, f


def is_ord(t, v):
    return is_variant(t, ORDERING, v)


def C23(cx):
    f = cx.inherent("LocatedNodeList", "dedup_in_place")
    g = cx.inherent("LocatedNodeList", "dedup")
    out = cx.summarize(f)[1].get("self")
    if out is None:
        raise Missing("dedup_in_place changes its list")
    cx.require("dedup and dedup_in_place leave the same list", cx.value(g), out, where=where(g))
    rule_dedup(cx, out, f)
    order_of_paths(cx)
    order_of_elements(cx)


def rule_dedup(cx, out, f):
    v = single_variant(cx, LNODES)
    me = field(cx, V("self"), LNODES, "0")
    t = Facts().simp(proj(out, LNODES, v, 0))
    name = "dedup_in_place: sorted by location, adjacent equal locations removed"

    def bad(text):
        cx.obls.append(Obl(name, "violated", text, where=where(f)))

    def unk(text):
        cx.obls.append(Obl(name, "undecided", text, where=where(f)))
    if t is me:
        return bad("the list is left as it is")
    if not (t.op == "app" and t.a[0] in ("dedup", "dedup_by", "dedup_by_key")):
        return unk("not of the form sort, then removal of adjacent equals: " + compare.sh(t)[:400])
    s = t.a[1]
    if s is me:
        return bad("adjacent equals are removed from a list that is not sorted: repeats at a distance stay")
    if not (s.op == "app" and s.a[0] == "sorted" and s.a[1] is me):
        return unk("not a sort of the whole list: " + compare.sh(s)[:400])
    la, lb = (field(cx, V(n), LNODE, "loc") for n in ("cmp.a", "cmp.b"))
    na, nb = (field(cx, V(n), LNODE, "node") for n in ("cmp.a", "cmp.b"))
    same = app("eq", field(cx, la, PATH, "0"), field(cx, lb, PATH, "0"))
    E = t.a[2]
    if not isinstance(E, T):
        return unk("comparison of entries not understood")
    # entries of one query result: equal locations lead to the same node (C04)
    for p, x, g in leaves(E, Facts().assume(same, False)):
        if x is TRUE:
            return bad("entries at different locations count as equal when " + case(p))
        if x is not FALSE:
            return unk("equality of entries: " + compare.sh(x)[:300])
    eqfacts = Facts().assume(same)
    E2 = replace(E, {nb: na, lb: la})
    for p, x, g in leaves(E2, eqfacts):
        if x is FALSE:
            return bad("entries at the same location count as different when " + case(p))
        if x is not TRUE:
            return unk("equality of entries: " + compare.sh(x)[:300])
    C = s.a[2]
    if not isinstance(C, T):
        return unk("sort order not understood")
    full = (app("partial_cmp", field(cx, la, PATH, "0"), field(cx, lb, PATH, "0")),
            app("partial_cmp", field(cx, lb, PATH, "0"), field(cx, la, PATH, "0")))
    for p, x, g in leaves(C, Facts().assume(same, False)):
        if x.op == "con" and x.a[1] == "Equal":
            return bad("the sort order ties entries at different locations when " + case(p))
        if x.op == "con":
            continue
        if any(x is proj(y, OPT, "Some", 0) or x is y for y in full) or x.op == "app" and x.a[0] == "cmp" and set(x.a[1:]) <= {
                field(cx, la, PATH, "0"), field(cx, lb, PATH, "0")}:
            continue
        return unk("sort order: " + compare.sh(x)[:300])
    cx.obls.append(Obl(name, "holds", where=where(f)))


def case(p):
    return " and ".join(("" if v else "not ") + compare.sh(c) for c, v in p)[:600] or "always"


def order_of_paths(cx):
    f = cx.method("PartialOrd", "NormalizedPath", "partial_cmp")
    a, b = field(cx, V("self"), PATH, "0"), field(cx, V("p1"), PATH, "0")
    x = cx.value(f)
    name = "order of locations: equal only for equal locations"
    for p, y, g in leaves(x, Facts().assume(app("eq", a, b), False)):
        if y in (app("partial_cmp", a, b), app("partial_cmp", b, a)):
            continue
        if y is some(con(ORDERING, "Equal")):
            cx.obls.append(Obl(name, "violated", "different locations compare equal when " + case(p), where=where(f)))
            return
        if not (y.op == "con" and y.a[1] == "Some" and y.a[2].op == "con"):
            cx.obls.append(Obl(name, "undecided", compare.sh(y)[:300], where=where(f)))
            return
    cx.obls.append(Obl(name, "holds", where=where(f)))
    g = cx.method("PartialEq", "NormalizedPath", "eq")
    cx.require("equality of locations compares all steps", cx.value(g), app("eq", a, b), where=where(g))


def order_of_elements(cx):
    f = cx.method("PartialOrd", "PathElement", "partial_cmp")
    s = cx.spec("text::element_order")
    me, o = V("self"), V("p1")
    found, want = cx.value(f), cx.value(s, [me, o])
    n = len(cx.obls)
    name = "order of path elements"
    if cx.require(name, found, want, where=where(f)).verdict == "holds":
        return
    del cx.obls[n:]
    if cx.require(name, found, cx.value(s, [o, me]), where=where(f)).verdict == "holds":
        return
    first = cx.obls[n:]
    del cx.obls[n:]
    eq = con(ORDERING, "Equal")
    is_eq = lambda t: band(is_variant(t, OPT, "Some"), is_variant(proj(t, OPT, "Some", 0), ORDERING, "Equal"))
    samekind = eqb(is_variant(me, ELEM, "Name"), is_variant(o, ELEM, "Name"))
    cx.require(name + ": equal exactly when the elements are", is_eq(found), is_eq(want), where=where(f))
    cx.require(name + ": every two names, and every two indices, are ordered",
               ite(samekind, is_variant(found, OPT, "Some"), TRUE), TRUE, where=where(f))
    back = cx.value(f, [o, me])
    for x, y in (("Less", "Greater"), ("Greater", "Less")):
        h = lambda t, v: ite(samekind, band(is_variant(t, OPT, "Some"), is_variant(proj(t, OPT, "Some", 0), ORDERING, v)), TRUE)
        cx.require(name + ": %s one way, %s the other" % (x, y), h(found, x), h(back, y), where=where(f))
    if all(o.verdict == "holds" for o in cx.obls[n:]):
        first[0].verdict, first[0].text = "undecided", "neither the usual order nor its reverse"
        cx.obls.extend(first[:1])


def eqb(a, b):
    return ite(a, b, bnot(b))
