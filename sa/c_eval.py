"""C03, C05-C09, C11: evaluation against the reference semantics."""
from ctx import *
from located import NodeProjection, LN

IMPLS = ("Query", "QuerySegment", "Segment", "Selector", "Name", "Index", "Slice", "Filter")


def idmap(cx):
    m = {}
    for f in cx.prog.fns.values():
        if f.of == "traitimpl" and f.trait and load.short(f.trait) == "Queryable" and f.name == "query_located":
            try:
                g = cx.method("Queryable", load.short(f.self_head), "query")
            except Missing:
                continue
            m["@" + f.id] = "@" + g.id
    return m


def queryables(cx):
    out = []
    for f in cx.prog.fns.values():
        if f.of == "traitimpl" and f.trait and load.short(f.trait) == "Queryable" and f.name == "query_located" \
                and f.crate != "sjp_spec":
            out.append(load.short(f.self_head))
    return sorted(out)


def located_as_plain(cx, t):
    return NodeProjection(idmap(cx)).N(t)


def C03(cx):
    qs = queryables(cx)
    if len(qs) < len(IMPLS):
        raise Missing("Queryable implementations: %d found, at least %d required" % (len(qs), len(IMPLS)))
    for h in qs:
        p, l = cx.method("Queryable", h, "query"), cx.method("Queryable", h, "query_located")
        a = located_as_plain(cx, cx.value(l))
        b = cx.value(p)
        cx.require("%s::query_located against %s::query" % (h, h), a, b, where=where(l))


    # the entry points
    p, l = cx.inherent("JsonPath", "query"), cx.inherent("JsonPath", "query_located")
    a = located_as_plain(cx, cx.value(l).a[2] if is_single(cx.value(l)) else cx.value(l))
    cx.require("JsonPath::query_located against JsonPath::query", a, field(cx, cx.value(p), NODES, "0"),
               unfold=unfolding(cx, ("query", "query_located")), where=where(l))


def is_single(t):
    return t.op == "con" and len(t.a) == 3


def unfolding(cx, names):
    ids = {m for h in ("Query",) for n in names for m in [cx.method("Queryable", h, n).id]}
    done = set()

    def f(x):
        if x.a[0][1:] in ids and x not in done:
            done.add(x)
            return cx.inst(cx.prog.fns[x.a[0][1:]], x.a[1:])
    return f


NODES = "serde_json_path_core::node::NodeList"
LNODES = "serde_json_path_core::node::LocatedNodeList"


def entry_points(cx):
    """JsonPath::query, JsonPath::query_located and JsonPathExt::json_path start at the root of the value."""
    q, ql = cx.method("Queryable", "Query", "query"), cx.method("Queryable", "Query", "query_located")
    me = field(cx, V("self"), "serde_json_path::path::JsonPath", "0")
    f = cx.inherent("JsonPath", "query")
    cx.require("JsonPath::query: the query, from the root of the value", field(cx, cx.value(f), NODES, "0"),
               mk("app", "@" + q.id, me, V("p1"), V("p1")), unfold=unfolding(cx, ("query",)), where=where(f))
    f = cx.inherent("JsonPath", "query_located")
    start = con("serde_json_path_core::path::NormalizedPath", "NormalizedPath", NIL)
    cx.require("JsonPath::query_located: the query, from the root of the value and the empty location",
               field(cx, cx.value(f), LNODES, "0"), mk("app", "@" + ql.id, me, V("p1"), V("p1"), start),
               unfold=unfolding(cx, ("query_located",)), where=where(f))
    f = cx.method("JsonPathExt", "Value", "json_path")
    me = field(cx, V("p1"), "serde_json_path::path::JsonPath", "0")
    cx.require("Value::json_path: the query, from the root of the value", field(cx, cx.value(f), NODES, "0"),
               mk("app", "@" + q.id, me, V("self"), V("self")), unfold=unfolding(cx, ("query",)), where=where(f))


# ----------------------------------------------------------------- helpers for arguments
INTEGER = "serde_json_path_core::spec::integer::Integer"
INDEX = "serde_json_path_core::spec::selector::index::Index"
SLICE = "serde_json_path_core::spec::selector::slice::Slice"
NAME = "serde_json_path_core::spec::selector::name::Name"


def V(n):
    return mk("var", n)


def single(cx, adt):
    a = cx.prog.adts.get(adt)
    if a is None or len(a["variants"]) != 1:
        raise Missing("type " + adt)
    return a["variants"][0]


def field(cx, t, adt, name):
    v, fs = single(cx, adt)
    for i, (n, ty, pub) in enumerate(fs):
        if n == name:
            return proj(t, adt, v, i)
    raise Missing("field %s of %s" % (name, adt))


def int_of(cx, t):
    return field(cx, t, INTEGER, "0")


def opt_map(t, f):
    """Option::map on terms"""
    return ite(is_variant(t, OPT, "None"), NONE, some(f(proj(t, OPT, "Some", 0))))


def both(cx, head, spec, args, title, pmap=None):
    """query and query_located of one queryable against its definition."""
    s, n = cx.spec(spec), None
    want = cx.value(s, args)
    p = cx.method("Queryable", head, "query")
    cx.require("%s::query: %s" % (head, title), cx.value(p), want, where=where(p))
    l = cx.method("Queryable", head, "query_located")
    cx.require("%s::query_located: %s" % (head, title), located_as_plain(cx, cx.value(l)), want, where=where(l))


def C05(cx):
    me, cur, root = V("self"), V("p1"), V("p2")
    both(cx, "Name", "eval::name", [field(cx, me, NAME, "0"), cur], "the member with exactly that key")
    both(cx, "Index", "eval::index", [int_of(cx, field(cx, me, INDEX, "0")), cur], "element i, or len+i for negative i")
    both(cx, "Selector", "eval::selector", [me, cur, root], "each kind of selector applied as such; wildcard selects all")
    both(cx, "Segment", "eval::segment", [me, cur, root], "shorthand name and wildcard select as the bracketed forms")


def C06(cx):
    me, cur = V("self"), V("p1")
    g = lambda n: opt_map(field(cx, me, SLICE, n), lambda x: int_of(cx, x))
    both(cx, "Slice", "eval::slice", [g("start"), g("end"), g("step"), cur], "the elements of RFC 9535 2.3.4.2")


def C07(cx):
    both(cx, "QuerySegment", "eval::query_segment", [V("self"), V("p1"), V("p2")],
         "child: the node; descendant: the node, then its children, depth first")


def C08(cx):
    both(cx, "Query", "eval::query", [V("self"), V("p1"), V("p2")], "segments in order over the previous nodes")
    both(cx, "Segment", "eval::segment", [V("self"), V("p1"), V("p2")], "selectors of a bracketed list in order")
    entry_points(cx)


def C09(cx):
    both(cx, "Filter", "eval::filter", [V("self"), V("p1"), V("p2")], "children whose expression is true, in order")
    for h, s in (("LogicalOrExpr", "or"), ("LogicalAndExpr", "and"), ("BasicExpr", "basic"), ("ExistExpr", "exist")):
        f = cx.method("TestFilter", h, "test_filter")
        cx.require("%s::test_filter" % h, cx.value(f), cx.value(cx.spec("eval::" + s), [V("self"), V("p1"), V("p2")]),
                   where=where(f))


def C10(cx):
    f = cx.method("TestFilter", "ComparisonExpr", "test_filter")
    args = [V("self"), V("p1"), V("p2")]
    w = lambda n: cx.value(cx.spec("compare::" + n), args)
    cx.require_known("ComparisonExpr::test_filter", cx.value(f), w("comparison"),
                     [(["K-order"], w("known::comparison_typed")), (["K-nested"], w("known::comparison_flat")),
                      (["K-order", "K-nested"], w("known::comparison_flat_typed"))], where=where(f))
    f = cx.inherent("Comparable", "as_value")
    cx.require("Comparable::as_value", cx.value(f),
               cx.value(cx.spec("compare::operand"), [V("self"), V("p1"), V("p2")]), where=where(f))


def C11(cx):
    f = cx.inherent("SingularQuery", "eval_query")
    names = {cx.method("Queryable", h, "query").id for h in ("Index", "Name")}
    w = lambda n: cx.expand(cx.value(cx.spec(n), [V("self"), V("p1"), V("p2")]), names)
    cx.require_known("SingularQuery::eval_query", cx.expand(cx.value(f), names), w("eval::singular"),
                     [(["K-negative"], w("eval::singular_known"))], where=where(f))
