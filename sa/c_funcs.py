"""C12, C13, C14, C27: functions - their declaration, their checking and their evaluation."""
from ctx import *
from c_eval import V, field, OPT
import engine as _engine

CORE = "serde_json_path_core::spec::functions::"
JPV, VALTY, LOGTY, ARGT, JPT, FEXPR, ARG, FUNC, VALID = (CORE + x for x in (
    "JsonPathValue", "ValueType", "LogicalType", "FunctionArgType", "JsonPathType", "FunctionExpr", "FunctionExprArg", "Function",
    "Validated"))
# RFC 9535 2.4.4 - 2.4.8: parameters, result, what is computed
BUILTINS = {"length": (("Value",), "Value", "length"), "count": (("Nodes",), "Value", "count"),
            "match": (("Value", "Value"), "Logical", "match_func"), "search": (("Value", "Value"), "Logical", "search"),
            "value": (("Nodes",), "Value", "value")}
RESULT = {"Value": "Value", "Logical": "Logical", "Nodes": "Nodelist"}
FITS = {"Value": "is_value", "Nodes": "is_nodes", "Logical": "is_logical"}


def declaration(cx):
    """The function that turns a name and arguments into a function expression of the parser."""
    found = []
    for f in cx.prog.fns.values():
        if f.body is None or f.crate != "serde_json_path":
            continue
        out = f.output if f.kind != "Closure" else f.body["expr"]["ty"]
        ps = [p["ty"] for p in f.body["params"] if not is_closure(p["ty"])]
        if not (out and out[0] == "adt" and out[1] == RES and head(out[2][0]) == FEXPR):
            continue
        flat = list(ps[0][1]) if len(ps) == 1 and ps[0][0] == "tuple" else ps
        if [head(x) for x in flat] == ["alloc::string::String", "alloc::vec::Vec"]:
            found.append((f, len(ps) == 1))
    return found


def head(t):
    while t and t[0] == "ref":
        t = t[2]
    return t[1] if t and t[0] == "adt" else None


def is_closure(t):
    while t and t[0] == "ref":
        t = t[2]
    return bool(t) and t[0] == "closure"


def closure_value(cx, f):
    """The closure f as its parent function builds it."""
    p = cx.prog.fns.get(f.parent)
    while p is not None and p.kind == "Closure":
        p = cx.prog.fns.get(p.parent)
    v = cx.value(p)
    for x in all_terms(v):
        if x.op == "clo" and x.a[0] == f.id:
            return x
    raise Missing("the closure %s in the summary of its function" % f.id)


def apply_fn(cx, f, args):
    ev = cx.engine
    if f.kind == "Closure":
        c = closure_value(cx, f)
        return cx.engine.apart(lambda: ev.call_value(c, args))
    return cx.value(f, args)


def resolve(cx, t):
    """Statics of functions replaced by what they hold, their validators and evaluators called."""
    ev = cx.engine
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "const" and x.a[0] == "static":
            f = cx.prog.fns.get(x.a[1])
            r = x
            if f is not None and f.body is not None and head(f.ty or ()) == FUNC:
                r = ev.apart(lambda: ev.force_static(x))
        elif x.op == "app" and x.a[0] == "call":
            f = go(x.a[1])
            args = [go(y) for y in x.a[2:]]
            r = lift(lambda g: callit(ev, g, args), f)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return Facts().simp(go(t))


def callit(ev, f, args):
    if f.op in ("clo", "fn") or (f.op == "const" and f.a[0] == "static"):
        return ev.apart(lambda: ev.call_value(f, args))
    return mk("app", "call", f, *args)


def registered(cx, t):
    """The list of functions registered by users, as it appears in t."""
    xs = {x for x in all_terms(t) if x.op == "const" and "inventory" in str(x.a)} | \
         {x for x in all_terms(t) if x.op in ("con", "app") and "inventory" in str(x.a[0])}
    return sorted(xs, key=lambda x: x.uid)


def without_user(cx, t, name=None):
    """t when no function is registered by users."""
    m = {}
    for it in registered(cx, t):
        m[it] = NIL
    return Facts().simp(replace(t, m))


class Declared:
    pass


def declare(cx):
    fs = declaration(cx)
    if not fs:
        raise Missing("the function that declares a function expression from a name and arguments")
    out = []
    for f, tupled in fs:
        d = Declared()
        d.fn, d.tupled = f, tupled
        d.call = lambda name, args, f=f, tupled=tupled: apply_fn(cx, f, [tup(name, args)] if tupled else [name, args])
        out.append(d)
    # the one others call
    return out[0] if len(out) == 1 else [d for d in out if d.fn.kind == "Closure"][0] if any(
        d.fn.kind == "Closure" for d in out) else out[0]


def builtin(cx, d, name):
    """(found declaration, evaluator) of a built-in, no user functions being registered."""
    args = V("args")
    t = resolve(cx, without_user(cx, d.call(lit(name), args)))
    return t, args


def ok_part(cx, t, adt_field):
    x = proj(t, RES, "Ok", 0)
    return Facts().simp(field(cx, x, FEXPR, adt_field))


def evaluator_of(cx, t):
    """The evaluator in the declarations t can result in."""
    found = set()

    def leaves(x):
        if x.op == "ite":
            leaves(x.a[1])
            leaves(x.a[2])
        elif x.op == "con" and x.a[1] == "Ok":
            e = Facts().simp(field(cx, field(cx, x.a[2], FEXPR, "validated"), VALID, "evaluator"))
            found.add(e)
        elif not (x.op == "con" and x.a[1] == "Err"):
            found.add(None)
    leaves(t)
    return found


def seen(cx, t):
    return cx.inst(cx.spec("functions::seen"), [t])


def well_typed(cx, params, xs):
    c = TRUE
    for p, x in zip(params, xs):
        c = band(c, cx.inst(cx.spec("functions::" + FITS[p]), [x]))
    return c


def eval_call(cx, e, xs):
    ev = cx.engine
    return ev.apart(lambda: ev.call_value(e, [cat(*[unit(x) for x in xs])]))


ANY_ = mk("app", "whatever")


def C12(cx):
    d = declare(cx)
    for name, (params, res, spec) in BUILTINS.items():
        t, args = builtin(cx, d, name)
        es = evaluator_of(cx, t)
        if len(es) != 1 or None in es:
            cx.record("%s: a built-in function with one evaluator" % name,
                      Unk((), "%d evaluators" % len(es)) if es else Diff((), None, None, "no call of %s is accepted" % name),
                      where=where(d.fn))
            continue
        e = es.pop()
        xs = [V("a%d" % i) for i in range(len(params))]
        wt = well_typed(cx, params, xs)
        r = eval_call(cx, e, xs)
        found = ite(wt, seen(cx, r), ANY_)
        want = ite(wt, cx.inst(cx.spec("functions::" + spec), xs), ANY_)
        f = evaluator_fn(cx, e)
        cx.require("%s computes what RFC 9535 2.4 defines" % name, found, want, where=where(f) if f else None)


def evaluator_fn(cx, e):
    return cx.prog.fns.get(e.a[1]) if e.op == "const" else cx.prog.fns.get(e.a[0]) if e.op == "clo" else None


# ------------------------------------------------------------------ C13
def params_of(cx, name, params, args):
    fn = cx.spec("functions::check%d" % len(params))
    return cx.inst(fn, [lit(name)] + [con(JPT, p) for p in params] + [args])


def result_kind(cx, t):
    """A declaration with only the type of the accepted call and the error of the rejected one kept."""
    return ite(is_variant(t, RES, "Ok"), ok(ok_part(cx, t, "return_type")), err(proj(t, RES, "Err", 0)))


def C13(cx):
    d = declare(cx)
    for name, (params, res, spec) in BUILTINS.items():
        t, args = builtin(cx, d, name)
        chk = params_of(cx, name, params, args)
        want = ite(is_variant(chk, RES, "Ok"), ok(con(ARGT, RESULT[res])), err(proj(chk, RES, "Err", 0)))
        cx.require("%s takes (%s) and yields %s, and its calls are checked against that" % (name, ", ".join(params), res),
                   result_kind(cx, t), want, where=where(d.fn))
    unknown_names(cx, d)
    user_functions(cx, d)
    kinds(cx)
    uses(cx)


def unknown_names(cx, d):
    n = V("name")
    t = resolve(cx, without_user(cx, d.call(n, V("args"))))
    f = Facts()
    for name in BUILTINS:
        f = f.assume(bnot(_teq(n, lit(name))))
    want = cx.inst(cx.spec("functions::undefined"), [n])
    cx.require("a name that is neither registered nor built in is an undefined function", f.simp(t), want, facts=f, where=where(d.fn))


def _teq(a, b):
    import models
    return models.teq(a, b)


def user_functions(cx, d):
    """The function of the name that users registered comes before the built-in one."""
    n, args = V("name"), V("args")
    t = d.call(n, args)
    its = registered(cx, t)
    if not its:
        cx.record("functions registered by users are looked up", Diff((), None, None,
                  "the declaration of a call never looks at the registered functions"), where=where(d.fn))
        return
    if len(its) > 1:
        cx.record("functions registered by users are looked up", Unk((), "several lists of registered functions"), where=where(d.fn))
        return
    rest = without_user(cx, t)
    user = cx.inst(cx.spec("functions::declare_user"), [its[0], n, args])
    want = ite(is_variant(user, OPT, "Some"), proj(user, OPT, "Some", 0), rest)
    cx.require("a function registered by the user is declared with its own checks, type and evaluator, before a built-in of the name",
               t, Facts().simp(want), where=where(d.fn))


def kinds(cx):
    """as_type_kind and converts_to"""
    f = cx.inherent("FunctionExprArg", "as_type_kind")
    me = V("self")
    v = cx.value(f)
    want = ok(cx.inst(cx.spec("functions::kind"), [me]))
    facts = Facts().assume(bnot(is_variant(me, ARG, "FunctionExpr")))
    cx.require("the kind of an argument other than a call is that of what it is", facts.simp(v), facts.simp(want), facts=facts,
               where=where(f))
    call_kinds(cx, f, v)
    g = cx.inherent("FunctionArgType", "converts_to")
    want = cx.inst(cx.spec("functions::fits"), [V("self"), V("p1")])
    cx.require("an argument converts to a parameter's type exactly when RFC 9535 2.4.3 says so", cx.value(g), want, where=where(g))


def call_kinds(cx, f, v):
    """The kind of a call used as an argument is the result type it was declared with."""
    me = V("self")
    for name, (params, res, spec) in BUILTINS.items():
        fe = con(FEXPR, "FunctionExpr", lit(name), V("args"), con(ARGT, RESULT[res]), V("validated"))
        x = con(ARG, "FunctionExpr", fe)
        t = resolve(cx, without_user(cx, Facts().simp(replace(v, {me: x}))))
        cx.require("a call of %s used as an argument is %s there too" % (name, res), t, ok(con(ARGT, RESULT[res])), where=where(f))
    its = registered(cx, v)
    if len(its) == 1:
        n, args = V("name"), V("args")
        user = cx.inst(cx.spec("functions::declare_user"), [its[0], n, args])
        u = proj(proj(user, OPT, "Some", 0), RES, "Ok", 0)
        cond = band(is_variant(user, OPT, "Some"), is_variant(proj(user, OPT, "Some", 0), RES, "Ok"))
        fe = con(FEXPR, "FunctionExpr", n, args, field(cx, u, FEXPR, "return_type"), V("validated"))
        t = Facts().simp(replace(v, {me: con(ARG, "FunctionExpr", fe)}))
        want = ok(field(cx, u, FEXPR, "return_type"))
        cx.require("a call of a registered function used as an argument has that function's result type",
                   ite(cond, t, ANY_), ite(cond, want, ANY_), where=where(f))


USES = {"FunctionExpr": ("as a test", {"Logical", "Nodelist"}), "BasicExpr": ("as a test", {"Logical", "Nodelist"}),
        "Comparable": ("in a comparison", {"Value"})}


def uses(cx):
    """What is done with a declared call: closures and functions that turn one into something else or refuse it."""
    seen_ = set()
    kinds_ = {x[0] for x in cx.prog.adts[ARGT]["variants"]}
    for f in sorted(cx.prog.fns.values(), key=lambda f: f.id):
        if f.body is None or f.crate != "serde_json_path" or f.of == "traitimpl":
            continue
        out = f.output if f.kind != "Closure" else f.body["expr"]["ty"]
        ps = [p["ty"] for p in f.body["params"] if not is_closure(p["ty"])]
        if len(ps) != 1 or head(ps[0]) != FEXPR or not out or out[0] != "adt" or out[1] != RES:
            continue
        to = load.short(head(out[2][0]) or "")
        if to not in USES:
            continue
        what, want = USES[to]
        fe = lambda k: con(FEXPR, "FunctionExpr", V("name"), V("args"), con(ARGT, k), V("validated"))
        got, odd = set(), None
        for k in sorted(kinds_):
            r = apply_fn(cx, f, [fe(k)])
            c = Facts().simp(is_variant(r, RES, "Ok"))
            if c is TRUE:
                got.add(k)
            elif c is not FALSE:
                odd = Unk((), "whether a call of type %s is allowed: %s" % (k, show(c)[:200]))
        # literals and singular queries are no result types
        got &= {"Value", "Logical", "Nodelist"}
        seen_.add(what)
        name = "calls are allowed %s exactly when their result type fits: %s" % (what, where_name(cx, f))
        if odd is not None:
            cx.record(name, odd, where=where(f))
        elif got != want:
            cx.record(name, Diff((), None, None, "allowed result types: %s, required: %s" % (
                ", ".join(sorted(got)) or "none", ", ".join(sorted(want)))), where=where(f))
        else:
            cx.record(name, EQ, where=where(f))
    for what in ("as a test", "in a comparison"):
        if what not in seen_:
            cx.record("calls are allowed %s exactly when their result type fits" % what,
                      Unk((), "no function or closure decides this on the declared call alone"))


def where_name(cx, f):
    while f is not None and f.kind == "Closure":
        f = cx.prog.fns.get(f.parent)
    return f.label() if f is not None else "?"


# ------------------------------------------------------------------ C14
CONV = (("ValueType", "Value", "to_value", "seen_value"), ("NodesType", "Nodes", "to_nodes", "seen_nodes"),
        ("LogicalType", "Logical", "to_logical", "seen_logical"))


def C14(cx):
    conv = {}
    for head_, p, spec, see in CONV:
        f = cx.method("TryFrom", head_, "try_from")
        v = cx.value(f)
        got = ite(is_variant(v, RES, "Ok"), some(cx.inst(cx.spec("functions::" + see), [proj(v, RES, "Ok", 0)])), NONE)
        x = V("p0")
        want = cx.inst(cx.spec("functions::" + spec), [x])
        cx.require("conversion to %s keeps the value, and fails only where the types do not fit" % head_,
                   Facts().simp(got), Facts().simp(want), where=where(f))
        conv[p] = f
    accepted_converts(cx, conv)
    evaluators(cx)


def accepted_converts(cx, conv):
    """An argument whose kind converts to a parameter's type evaluates to a value that does."""
    ev_ = cx.inherent("FunctionExprArg", "evaluate")
    kind = cx.inherent("FunctionExprArg", "as_type_kind")
    fits = cx.inherent("FunctionArgType", "converts_to")
    me = V("self")
    k, val = cx.value(kind), cx.value(ev_)
    sing = cx.inst(cx.inherent("Query", "is_singular"), [proj(me, ARG, "FilterQuery", 0)])
    for p, f in conv.items():
        for variant in [x[0] for x in cx.prog.adts[ARG]["variants"]]:
            facts = Facts().assume(is_variant(me, ARG, variant))
            if variant == "FunctionExpr":
                continue
            pre = band(is_variant(k, RES, "Ok"), cx.inst(fits, [proj(k, RES, "Ok", 0), con(JPT, p)]))
            if variant == "FilterQuery":
                pre = band(pre, bnot(sing))      # the parser makes singular queries SingularQuery arguments (C16)
            c = is_variant(cx.inst(f, [val]), RES, "Ok")
            cx.require("a %s argument accepted for a %s parameter evaluates to a value that converts to it" % (variant, p),
                       facts.simp(ite(pre, c, TRUE)), TRUE, facts=facts, where=where(f))


def evaluators(cx):
    """Built-in functions never fail on arguments of their types and yield their result type."""
    d = declare(cx)
    for name, (params, res, spec) in BUILTINS.items():
        t, args = builtin(cx, d, name)
        es = evaluator_of(cx, t)
        if len(es) != 1 or None in es:
            cx.record("%s: a built-in function with one evaluator" % name, Unk((), "%d evaluators" % len(es)), where=where(d.fn))
            continue
        e = es.pop()
        evaluator(cx, name, e, params, res)
        chk = params_of(cx, name, params, args)
        cx.require("an accepted call of %s has the arguments its evaluator converts, in number and kind" % name,
                   ite(is_variant(t, RES, "Ok"), is_variant(chk, RES, "Ok"), TRUE), TRUE, where=where(d.fn))


def evaluator(cx, name, e, params, res):
    ev = cx.engine
    xs = [V("a%d" % i) for i in range(len(params))]
    wt = well_typed(cx, params, xs)
    r = eval_call(cx, e, xs)
    f = evaluator_fn(cx, e)
    runs(cx, name, e, xs, wt, f)
    fits = cx.inst(cx.spec("functions::" + FITS[res]), [r])
    # a call that panics has no value: BOT
    got = Facts().simp(ite(wt, lift_bot(r), TRUE))
    cx.require("%s never fails on arguments that convert to its parameters" % name, got, TRUE, where=where(f) if f else None)
    cx.require("%s yields a %s" % (name, res), Facts().simp(ite(wt, fits, TRUE)), TRUE, where=where(f) if f else None)


def runs(cx, name, e, xs, wt, f):
    """No operation that can fail for good fails on arguments of the function's types."""
    ev = cx.engine
    del ev.panics[:]

    def go():
        ev.st.facts = ev.st.facts.assume(wt)
        return ev.call_value(e, [cat(*[unit(x) for x in xs])])
    ev.apart(go)
    ps = [(w, g, Facts().assume(wt).simp(c)) for w, g, c in ev.panics]
    del ev.panics[:]
    bad = [p for p in ps if p[2] is not FALSE]
    for what, g, c in bad:
        r = Compare(None).run(ite(wt, c, FALSE), FALSE)
        if r is not EQ:
            cx.record("%s: %s in %s does not happen" % (name, what, short(g)), r, where=where(f) if f else None)
    if not bad:
        cx.record("%s: none of its operations can panic on arguments that convert to its parameters" % name, EQ,
                  where=where(f) if f else None)


def lift_bot(t):
    """TRUE where t has a value, FALSE where evaluation fails."""
    if t.op == "ite":
        return ite(t.a[0], lift_bot(t.a[1]), lift_bot(t.a[2]))
    return FALSE if t is BOT else TRUE


# ------------------------------------------------------------------ C27
def C27(cx):
    d = declare(cx)
    user_functions(cx, d)
    unknown_names(cx, d)
    for name, (params, res, spec) in BUILTINS.items():
        t, args = builtin(cx, d, name)
        okp = is_variant(t, RES, "Ok")
        for fld, want in (("name", lit(name)), ("args", args), ("return_type", con(ARGT, RESULT[res]))):
            cx.require("a declared call of %s has its own %s" % (name, fld), ite(okp, ok_part(cx, t, fld), ANY_),
                       ite(okp, want, ANY_), where=where(d.fn))
    f = cx.inherent("FunctionExprArg", "as_type_kind")
    call_kinds(cx, f, cx.value(f))
    evaluation(cx)


def evaluation(cx):
    f = cx.inherent("FunctionExpr", "evaluate")
    me = V("self")
    v = cx.value(f)
    arg = cx.inherent("FunctionExprArg", "evaluate")
    want = cx.value(cx.spec("functions::evaluate"), [me, V("p1"), V("p2")])
    cx.require("a call is evaluated by its own evaluator on its arguments in order", v, want, where=where(f))
