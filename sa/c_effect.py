"""C25: parsing and querying have no effects and no state."""
import re
import load, c_parse, c_panic, c_funcs, c_wit
from ctx import *
from c_feat import nodes

# what a call reaches outside the program: prefix of the callee -> effect
EFFECTS = [
    (r"std::io::(stdio|stdin|stdout|stderr|Stdout|Stderr|Stdin|copy|pipe)", "input or output"),
    (r"std::io::\w+::(Read|Write|BufRead|Seek)::|std::io::(Read|Write|BufRead|Seek)::", "input or output"),
    (r"std::(fs|net|os)::", "input or output"),
    (r"std::process::", "the process"),
    (r"std::env::", "the environment"),
    (r"(std|core)::time::(Instant|SystemTime)::(now|elapsed)|std::time::(Instant|SystemTime)", "the time"),
    (r"std::(hash::random|collections::hash_map|collections::hash::map)::RandomState::|std::random::", "randomness"),
    (r"std::thread::(current|sleep|park|ThreadId|functions::(current|sleep|park)|id::|local::LocalKey)", "the thread it runs on"),
    (r"std::(panic|panicking)::(set_hook|take_hook)", "the panic hook"),
    (r"std::alloc::set_alloc_error_hook", "the allocator"),
    (r"(rand|getrandom|fastrand)::", "randomness"),
    (r"(log|env_logger)::", "output"),
    (r"(core::panic::location::Location|std::backtrace)::.*(caller|capture)", "the place it is called from"),
]
SHARED = ("Mutex", "RwLock", "ReentrantLock", "Cell", "RefCell", "UnsafeCell", "SyncUnsafeCell", "AtomicBool", "AtomicPtr", "Atomic", "AtomicUsize", "AtomicIsize",
          "AtomicU8", "AtomicU16", "AtomicU32", "AtomicU64", "AtomicI8", "AtomicI16", "AtomicI32", "AtomicI64", "Condvar", "Barrier", "Sender",
          "Receiver", "SyncSender")
ONCE = ("OnceLock", "OnceCell", "LazyLock", "LazyCell", "Lazy", "Once")
HOMES = ("core", "std", "alloc", "once_cell", "parking_lot", "spin", "dashmap")
UNORDERED = re.compile(r"std::collections::hash(::map|::set|_map|_set)?::(\w+::)?(HashMap|HashSet)")
ITERATES = ("iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "extract_if",
            "difference", "union", "intersection", "symmetric_difference")


def heads(prog, t, seen=None):
    """The nominal types a value of type t can hold (references and fields included)."""
    seen = set() if seen is None else seen
    if not isinstance(t, tuple) or not t:
        return seen
    if t[0] == "adt":
        if t in seen or len(seen) > 4000:
            return seen
        seen.add(t)
        for x in t[2]:
            heads(prog, x, seen)
        a = prog.adts.get(t[1])
        if a and t[1].split("::")[0] in prog.crates:
            for _, fs in a["variants"]:
                for f in fs:
                    heads(prog, f[1], seen)
    else:
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], tuple):
                for y in x:
                    heads(prog, y, seen)
            else:
                heads(prog, x, seen)
    return seen


def kind_of(t):
    n, root = load.short(t[1]), t[1].split("::")[0]
    if root in HOMES and (n in SHARED or n.startswith("Atomic")):
        return "shared"
    if root in HOMES and n in ONCE:
        return "once"
    return None


def closure_captures(prog, e):
    """Does the closure expression e capture anything (None: not a closure)?"""
    while isinstance(e, dict) and e.get("k") in ("coerce", "borrow", "expr", "cast", "deref", "block"):
        e = e.get("e") or e.get("expr") or e.get("x") or e.get("src") or e.get("arg")
    if isinstance(e, dict) and e.get("k") == "closure":
        return any(isinstance(y, dict) and y.get("k") == "upvar" for y in nodes(prog, prog.fns[e["id"]].body))
    if isinstance(e, dict) and e.get("k") in ("fn", "const", "lit"):
        return False
    return None


def own_calls(x):
    """Call nodes of one body."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get("k") == "call" and isinstance(y.get("f"), load.Callee):
                yield y
            st += list(y.values())
        elif isinstance(y, (list, tuple)):
            st += list(y)


def statics(cx, reach):
    """(static, a function using it)"""
    out = {}
    for i in sorted(reach):
        f = cx.prog.fns[i]
        if f.kind.startswith("Static"):
            out.setdefault(i, f)
        for y in nodes(cx.prog, f.body):
            if isinstance(y, dict) and y.get("k") == "static":
                out.setdefault(y["id"], f)
    return out


def C25(cx):
    prog = cx.prog
    roots = []
    for r in (c_panic.parsing_roots(cx)[1:], c_panic.querying_roots(cx)):
        for x in r:
            roots += x
    g = c_panic.graph(cx)
    reach = set()
    for r in roots:
        reach |= c_parse.reachable(g, r.id)
    reach = {i for i in reach if i in prog.fns and prog.fns[i].body is not None and prog.fns[i].crate not in ("sjp_spec", "wit")}
    cx.engine.called |= reach
    cx.count("functions that parsing, querying and results can run", len(reach))
    state(cx, reach)
    data(cx)
    calls(cx, reach)
    unsafety(cx, reach)
    shared_arguments(cx)
    cx.count("call sites", sum(1 for i in reach for _ in own_calls(prog.fns[i].body)))
    c_wit.witnesses(cx)


def state(cx, reach):
    prog = cx.prog
    n = 0
    for sid, user in sorted(statics(cx, reach).items()):
        n += 1
        s = prog.fns.get(sid)
        label = "static %s holds no state" % sid
        if s is None:
            cx.record(label, Unk((), "a static of another crate"), where=where(user))
            continue
        if s.mut:
            cx.record(label, Diff((), None, None, "a mutable static, used by %s" % user.label()), where=where(s))
            continue
        ty = s.ty or ("unknown",)
        hs = heads(prog, ty)
        shared = sorted({load.short(h[1]) for h in hs if kind_of(h) == "shared"})
        if shared:
            cx.record(label, Diff((), None, None, "it can be changed (%s), and %s uses it" % (", ".join(shared), user.label())), where=where(s))
        elif s.freeze or ty[0] == "adt" and load.short(ty[1]) in ("LazyLock", "Lazy") or "inventory" in sid or \
                ty[0] == "adt" and ty[1].split("::")[0] == "inventory":
            cx.record(label, EQ, where=where(s))
        elif any(kind_of(h) == "once" for h in hs):
            once(cx, label, sid, s, reach)
        else:
            cx.record(label, Unk((), "a static of type %s" % (ty,)), where=where(s))
    cx.count("statics", n)
    for i in sorted(reach):
        f = prog.fns[i]
        for y in nodes(prog, f.body):
            if isinstance(y, dict) and isinstance(y.get("ty"), tuple) and any(h[1].endswith("::LocalKey") for h in flat(y["ty"])):
                cx.record("%s uses no state of its thread" % f.label(), Diff((), None, None, "it uses a thread-local variable"), where=where(f))
                break


def flat(t):
    while t and t[0] == "ref":
        t = t[2]
    return [t] if t and t[0] == "adt" else []


def once(cx, label, sid, s, reach):
    """A cell that is set once: what it is set to must not depend on who sets it."""
    prog = cx.prog
    bad = None
    for i in sorted(reach):
        f = prog.fns[i]
        for y in own_calls(f.body):
            c = y["f"]
            if not any(isinstance(z, dict) and z.get("k") == "static" and z.get("id") == sid for a in y["args"] for z in nodes(prog, a)):
                continue
            if c.name in ("get_or_init", "get_or_try_init", "get_mut_or_init"):
                k = closure_captures(prog, y["args"][1])
                if k is True:
                    bad = bad or Diff((), None, None, "%s sets it to a value that depends on the call that happens to be the first" % f.label())
                elif k is None:
                    bad = bad or Unk((), "what %s sets it to" % f.label())
            elif c.name in ("set", "try_insert", "take", "call_once", "call_once_force"):
                bad = bad or Diff((), None, None, "%s changes it (%s)" % (f.label(), c.name))
    cx.record(label, bad or EQ, where=where(s))


DATA = ("JsonPath", "ParseError", "NodeList", "LocatedNodeList", "LocatedNode", "NormalizedPath", "PathElement", "Function", "FunctionExpr",
        "ValueType", "NodesType", "LogicalType")


def data(cx):
    """No value that users hold or share can be changed through a shared reference."""
    prog = cx.prog
    for n in DATA:
        ps = [p for p in prog.adts if load.short(p) == n and p.split("::")[0] in ("serde_json_path", "serde_json_path_core")]
        if len(ps) != 1:
            raise Missing("type %s: %d found" % (n, len(ps)))
        seen = set()
        for _, fs in prog.adts[ps[0]]["variants"]:
            for f in fs:
                heads(prog, f[1], seen)
        shared = sorted({load.short(h[1]) for h in seen if kind_of(h) == "shared"})
        # references to the functions' validators and evaluators are initialised once
        rest = sorted({load.short(h[1]) for h in seen if kind_of(h) == "once" and load.short(h[1]) not in ("LazyLock", "Lazy")})
        cx.record("%s has no interior mutability" % n, Diff((), None, None, "it holds a %s" % ", ".join(shared)) if shared else
                  Unk((), "it holds a %s" % ", ".join(rest)) if rest else EQ, where=ps[0])


def calls(cx, reach):
    prog = cx.prog
    found = 0
    for i in sorted(reach):
        f = prog.fns[i]
        for c in c_panic.callees(f.body):
            for y in (c, c.res):
                if y is None or y.local:
                    continue
                names = {y.id, y.key()}
                e = next((what for rx, what in EFFECTS for n in names if re.match(rx, n)), None)
                if e:
                    found += 1
                    cx.record("%s has no effects" % f.label(), Diff((), None, None, "it calls %s: %s" % (y.key(), e)), where=where(f))
                    break
        for y in own_calls(f.body):
            c = y["f"]
            if c.name in ITERATES and y["args"] and not c.local:
                t = y["args"][0].get("ty")
                while t and t[0] == "ref":
                    t = t[2]
                if t and t[0] == "adt" and UNORDERED.match(t[1]) and not any(c_funcs.head(a) == c_funcs.FUNC for a in t[2]):
                    found += 1
                    cx.record("%s depends on nothing but its arguments" % f.label(), Diff((), None, None,
                              "it goes through a %s, whose order is random (%s)" % (load.short(t[1]), c.name)), where=where(f))
                    break
    if not found:
        cx.record("no function that can run calls anything that has effects or depends on more than its arguments", EQ)


def unsafety(cx, reach):
    prog = cx.prog
    n = 0
    for i in sorted(reach):
        f = prog.fns[i]
        if f.unsafe or any(isinstance(y, dict) and y.get("k") == "block" and y.get("unsafe") for y in nodes(prog, f.body)):
            n += 1
            cx.record("%s is safe code" % f.label(), Unk((), "unsafe code"), where=where(f))
    if not n:
        cx.record("every function that can run is safe code", EQ)


def shared_arguments(cx):
    for n in ("query", "query_located"):
        f = cx.inherent("JsonPath", n)
        bad = [t for t in f.inputs if not (t[0] == "ref" and not t[1])]
        cx.record("JsonPath::%s takes the query and the value by shared references" % n,
                  Diff((), None, None, "it takes %s" % (bad,)) if bad else EQ, where=where(f))
