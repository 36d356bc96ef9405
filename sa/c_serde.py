"""C24: serialized forms."""
from ctx import *
from c_eval import V, field
from c_list import leaves, case, NODES, LNODES, LNODE, PATH, ELEM

QUERY = "serde_json_path::path::JsonPath"
SER, DE, VIS = "Serialize", "Deserialize", "Visitor"


def of(name, *xs):
    return mk("app", name, *xs)


def listof(s, f):
    b = fresh()
    return of("ser:list", each(b, length(s), num(1), unit(f(elt(s, bv(b))))))


def location_text(cx, steps):
    return cx.summarize(cx.spec("text::normalized"), [steps, NIL])[1]["p1"]


def written(cx, head, want):
    f = cx.method(SER, head, "serialize")
    cx.require("%s serializes to its own information" % head, cx.value(f), ok(want), where=where(f))


def records(t):
    """Fields of records in a fixed order."""
    if t.op == "app" and t.a[0] == "ser:record":
        ps = parts(t.a[1])
        if all(p.op == "unit" and p.a[0].op == "tup" and p.a[0].a[0].op == "lit" for p in ps):
            return of("ser:record", cat(*sorted((records(p) for p in ps), key=lambda p: p.a[0].a[0].a[0])))
    if t.op == "each":
        return mk("each", t.a[0], t.a[1], t.a[2], records(t.a[3]))
    return rebuild(t, records) if t.op != "ite" else ite(t.a[0], records(t.a[1]), records(t.a[2]))


def C24(cx):
    me = V("self")
    steps = lambda loc: field(cx, loc, PATH, "0")
    rec = lambda x: of("ser:record", cat(
        unit(tup(lit("loc"), of("ser:text", location_text(cx, steps(field(cx, x, LNODE, "loc")))))),
        unit(tup(lit("node"), of("ser:of", field(cx, x, LNODE, "node"))))))
    # queries
    show = cx.method("Display", "JsonPath", "fmt")
    text = cx.summarize(show, [me, NIL])[1].get("p1")
    if text is None:
        raise Missing("JsonPath's Display writes text")
    written(cx, "JsonPath", of("ser:text", text))
    # results
    written(cx, "NormalizedPath", of("ser:text", location_text(cx, steps(me))))
    n, i = proj(me, ELEM, "Name", 0), proj(me, ELEM, "Index", 0)
    written(cx, "PathElement", ite(is_variant(me, ELEM, "Name"), of("ser:text", n), of("ser:int", i)))
    written(cx, "NodeList", listof(field(cx, me, NODES, "0"), lambda x: of("ser:of", x)))
    written(cx, "LocatedNode", rec(me))
    written(cx, "LocatedNodeList", listof(field(cx, me, LNODES, "0"), rec))
    reading(cx)


def reading(cx):
    parse = cx.inherent("JsonPath", "parse")
    cx.engine.anchors.add(parse.id)
    cx.engine._summaries.clear()
    cx.cache.clear()
    try:
        p = lambda x: mk("app", "@" + parse.id, x)
        f = cx.method("FromStr", "JsonPath", "from_str")
        cx.require("JsonPath::from_str is JsonPath::parse", cx.value(f), p(V("p0")), where=where(f))
        d = cx.method(DE, "JsonPath", "deserialize")
        v = cx.value(d)
        vis = [g for g in cx.prog.fns.values() if g.of == "traitimpl" and g.kind != "Closure" and g.trait and short(g.trait) == VIS
               and g.crate == d.crate and g.name.startswith("visit_")]
        apps = [x for x in all_terms(v) if x.op == "app" and isinstance(x.a[0], str) and "Deserializer::deserialize_" in x.a[0]]
        name = "JsonPath deserializes through the parser"
        if len(apps) != 1 or not vis:
            if not any(x.op == "app" and x.a[0] == "@" + parse.id for x in all_terms(v)) and not apps:
                cx.obls.append(Obl(name, "undecided", "no visitor and no call of the parser: " + compare.sh(v)[:300], where=where(d)))
                return
            return through(cx, name, v, p, where(d))
        hint = short(apps[0].a[0])
        if v is not apps[0]:
            cx.obls.append(Obl(name, "undecided", "the visitor's result is changed: " + compare.sh(v)[:300], where=where(d)))
        elif hint not in ("deserialize_str", "deserialize_string", "deserialize_any"):
            cx.obls.append(Obl(name, "violated", "the visitor is asked to read %s, not text" % hint, where=where(d)))
        else:
            cx.obls.append(Obl(name, "holds", where=where(d)))
        if not any(g.name == "visit_str" for g in vis):
            cx.obls.append(Obl(name + ": visit_str", "violated", "text in a transient buffer is not accepted", where=where(d)))
        for g in vis:
            cx.count("visitor methods")
            a = V("p1")
            text = g.name in ("visit_str", "visit_string", "visit_borrowed_str")
            through(cx, "%s: %s" % (name, g.name), cx.value(g), p, where(g), a if text else None)
    finally:
        cx.engine.anchors.discard(parse.id)
        cx.engine._summaries.clear()
        cx.cache.clear()


def through(cx, name, v, p, at, arg=None):
    if arg is not None:
        r = p(arg)
        mark = con(RES, "Err", UNIT)
        only = lambda t: ite(is_variant(t, RES, "Ok"), some(proj(t, RES, "Ok", 0)), NONE)
        return cx.require(name, only(v), only(r), where=at)
    for path, x, f in leaves(v, Facts()):
        okv = f.simp(is_variant(x, RES, "Ok"))
        if okv is FALSE:
            continue
        y = proj(x, RES, "Ok", 0)
        from_parse = any(z.op == "app" and z.a[0] == p(NIL).a[0] for z in all_terms(y))
        if not from_parse:
            cx.obls.append(Obl(name, "undecided" if unknown(x) or compare.opaque_head(x) else "violated",
                               "a query that is not the parser's result when " + case(path) + ": " + compare.sh(y)[:200], where=at))
            return
    cx.obls.append(Obl(name, "holds", where=at))
