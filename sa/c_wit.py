"""C26: programs that must not compile, each beside one that differs in a single construct and must; and the code
generated for functions that are accepted."""
import json, os, shutil, subprocess, tempfile
import ctx, load
import c_funcs
from ctx import *
from c_eval import V, field
from c_funcs import JPT, ARGT, RESULT, FUNC

PRELUDE = """#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_assignments)]
use serde_json::{json, Value};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
use serde_json_path::*;
fn use_<T>(_: T) {}
"""
MAIN = "\nfn main() {}\n"


def definition(sig, body="LogicalType::True", attr="#[serde_json_path::function]", pre=""):
    return PRELUDE + pre + attr + "\nfn " + sig + " { " + body + " }" + MAIN


V_ = "v: ValueType"
GOOD1 = "f(v: ValueType) -> LogicalType"


def pair(id, bad, good=GOOD1, **k):
    kb = {x[4:]: y for x, y in k.items() if x.startswith("bad_")}
    kg = {x[5:]: y for x, y in k.items() if x.startswith("good_")}
    return (id, definition(bad, **kb), definition(good, **kg))


def refused():
    out = [
        # methods
        ("a method with self", PRELUDE + "struct S;\nimpl S {\n#[serde_json_path::function]\nfn f(self, v: ValueType) -> LogicalType { LogicalType::True }\n}" + MAIN,
         PRELUDE + "struct S;\nimpl S {\nfn f(self, v: ValueType) -> LogicalType { LogicalType::True }\n}" + MAIN),
        ("a method with &self", PRELUDE + "struct S;\nimpl S {\n#[serde_json_path::function]\nfn f(&self, v: ValueType) -> LogicalType { LogicalType::True }\n}" + MAIN,
         PRELUDE + "struct S;\nimpl S {\nfn f(&self, v: ValueType) -> LogicalType { LogicalType::True }\n}" + MAIN),
        pair("a self parameter", "f(self, v: ValueType) -> LogicalType"),
        pair("a &self parameter", "f(&self, v: ValueType) -> LogicalType"),
        pair("a &mut self parameter", "f(&mut self, v: ValueType) -> LogicalType"),
        pair("a self parameter of a JSONPath type", "f(self: ValueType, v: ValueType) -> LogicalType"),
        # patterns
        pair("a wildcard parameter", "f(_: ValueType) -> LogicalType"),
        pair("a wildcard as the second parameter", "f(v: ValueType, _: NodesType) -> LogicalType", "f(v: ValueType, w: NodesType) -> LogicalType"),
        pair("a tuple pattern", "f((a, b): ValueType) -> LogicalType"),
        pair("a reference pattern", "f(&v: ValueType) -> LogicalType"),
        pair("a variant pattern", "f(ValueType::Value(v): ValueType) -> LogicalType"),
        # missing or other results
        pair("no result", "f(v: ValueType)", bad_body=""),
        pair("no result, of a function without parameters", "f()", "f() -> LogicalType", bad_body=""),
        pair("no parameter type of JSONPath, no result", "f(v: Value)", bad_body=""),
    ]
    results = [("bool", "true"), ("()", ""), ("String", "String::new()"), ("Value", "Value::Null"), ("Option<LogicalType>", "None"),
               ("Option<ValueType<'static>>", "None"), ("Result<LogicalType, ()>", "Err(())"), ("(LogicalType,)", "(LogicalType::True,)"),
               ("&'static LogicalType", "&LogicalType::True"), ("&'static str", "\"\""), ("impl Into<LogicalType>", "LogicalType::True"),
               ("Box<LogicalType>", "Box::new(LogicalType::True)"), ("usize", "0"), ("Vec<&'static Value>", "vec![]"), ("!", "panic!()"),
               ("serde_json_path::functions::JsonPathValue<'static>", "LogicalType::True.into()"),
               ("fn() -> LogicalType", "|| LogicalType::True"), ("[LogicalType; 1]", "[LogicalType::True]"), ("&'static [Value]", "&[]")]
    for t, b in results:
        out.append(pair("the result type " + t, "f(v: ValueType) -> " + t, bad_body=b))
    params = ["String", "&str", "bool", "usize", "Value", "&Value", "Option<ValueType>", "Vec<ValueType>", "(ValueType, ValueType)",
              "[ValueType; 1]", "&[Value]", "impl Into<LogicalType>", "serde_json_path::functions::JsonPathValue", "NodeList", "JsonPath",
              "fn(ValueType)", "Box<ValueType>", "()", "<ValueType as ToOwned>::Owned", "std::collections::VecDeque<ValueType>"]
    for t in params:
        out.append(pair("a parameter of type " + t, "f(v: %s) -> LogicalType" % t))
    for t in ("String", "bool", "Value"):
        out.append(pair("a second parameter of type " + t, "f(v: ValueType, w: %s) -> LogicalType" % t, "f(v: ValueType, w: NodesType) -> LogicalType"))
    for t in ("MyValueType", "MyType", "ValueTypes", "Type", "valuetype", "NodesTypes", "LogicalTypes", "T"):
        pre = "struct %s;\n" % t
        out.append(pair("a parameter of another type, %s" % t, "f(v: %s) -> LogicalType" % t, bad_pre=pre, good_pre=pre))
    for t, b in (("MyLogicalType", "MyLogicalType"), ("Logical", "Logical")):
        pre = "struct %s;\nimpl<'a> From<%s> for serde_json_path::functions::JsonPathValue<'a> { fn from(_: %s) -> Self { LogicalType::True.into() } }\n" % (t, t, t)
        out.append(pair("the result of another type, %s, that converts" % t, "f(v: ValueType) -> %s" % t, bad_body=b, bad_pre=pre, good_pre=pre))
    for t in ("NodesType", "ValueType", "LogicalType"):
        pre = "mod other { pub struct %s; }\n" % t
        out.append(pair("a parameter of another module's type %s" % t, "f(v: other::%s) -> LogicalType" % t, "f(v: %s) -> LogicalType" % t,
                        bad_pre=pre, good_pre=pre))
    out.append(pair("a result that is not of the declared type", "f(v: ValueType) -> LogicalType", bad_body="true"))
    # what the attribute stands on, and its arguments
    for it in ("struct S;", "const C: usize = 0;", "mod m {}", "trait T {}", "impl S0 {}"):
        p = PRELUDE + "struct S0;\n"
        out.append(("the attribute on `%s`" % it, p + "#[serde_json_path::function]\n" + it + MAIN, p + it + MAIN))
    for a in ("name = 5", "name", "name = \"a\", name = \"b\"", "name = f"):
        out.append(pair("the argument `%s`" % a, GOOD1, bad_attr="#[serde_json_path::function(%s)]" % a,
                        good_attr="#[serde_json_path::function(name = \"a\")]"))
    return out


def accepted():
    """Functions of the JSONPath types, however they are written."""
    out = []
    for i, sig in enumerate([
            "f() -> LogicalType", "f(v: ValueType) -> LogicalType", "f(v: NodesType) -> LogicalType", "f(v: LogicalType) -> LogicalType",
            "f(mut v: ValueType) -> LogicalType", "f(v: ValueType<'_>) -> LogicalType", "f<'a>(v: NodesType<'a>, w: ValueType<'a>) -> LogicalType",
            "f(v: serde_json_path::functions::ValueType) -> serde_json_path::functions::LogicalType", "v(v: ValueType) -> LogicalType",
            "f(f: ValueType) -> LogicalType", "f(arg_1: ValueType, arg_0: NodesType) -> LogicalType", "f(a: ValueType) -> LogicalType",
            "f(a: ValueType, b: NodesType, c: LogicalType, d: ValueType) -> LogicalType", "f(tk: ValueType, err: LogicalType) -> LogicalType",
            "x_1(_v: ValueType) -> LogicalType", "r#loop(r#in: ValueType) -> LogicalType"]):
        out.append(("a function `%s`" % sig, definition(sig)))
    out += [
        ("a function whose result is a value", definition("f(v: ValueType) -> ValueType", "ValueType::Nothing")),
        ("a function whose result is its parameter", definition("f<'a>(v: ValueType<'a>) -> ValueType<'a>", "v")),
        ("a function whose result is a node list", definition("f<'a>(v: NodesType<'a>) -> NodesType<'a>", "v")),
        ("a function with another name", definition("f(v: ValueType) -> LogicalType", attr="#[serde_json_path::function(name = \"other\")]")),
        ("a function that returns early and uses `?`", definition("f(v: ValueType) -> LogicalType",
         "if v.is_nothing() { return LogicalType::False; } (|| { Some(v.as_value()?.is_null()) })().unwrap_or(false).into()")),
        ("two functions", PRELUDE + "#[serde_json_path::function]\nfn f(v: ValueType) -> LogicalType { LogicalType::True }\n"
         "#[serde_json_path::function]\nfn g(v: NodesType) -> LogicalType { LogicalType::True }\n" + MAIN),
    ]
    return out


def use(decl, get, after):
    """A program using a result after `decl` (of the queried value) is gone, and one that does it before."""
    bad = "let p = JsonPath::parse(\"$..*\").unwrap();\nlet r;\n{\n%s\nr = %s;\n}\n%s" % (decl, get, after)
    good = "let p = JsonPath::parse(\"$..*\").unwrap();\nlet r;\n{\n%s\nr = %s;\n%s\n}" % (decl, get, after)
    w = lambda b: PRELUDE + "fn main() {\n" + b + "\n}\n"
    return w(bad), w(good)


RESULTS = ["p.query(&v)", "v.json_path(&p)", "p.query_located(&v)", "p.query(&v).all()", "p.query(&v).first()", "p.query(&v).last()",
           "p.query(&v).get(0)", "p.query(&v).at_most_one().unwrap()", "p.query(&v).exactly_one().unwrap()", "p.query(&v).into_iter()",
           "p.query_located(&v).dedup()", "p.query_located(&v).all()", "p.query_located(&v).into_iter()",
           "p.query_located(&v).at_most_one().unwrap()", "p.query_located(&v).exactly_one().unwrap()",
           "p.query_located(&v).exactly_one().unwrap().to_location()", "p.query_located(&v).exactly_one().unwrap().node()",
           "NormalizedPath::from(p.query_located(&v).exactly_one().unwrap())",
           "p.query_located(&v).iter().map(|n| n.node()).collect::<Vec<_>>()", "p.query_located(&v).nodes().cloned().collect::<Vec<_>>().is_empty()"]


def lifetimes():
    out = []
    for r in RESULTS[:-1]:
        b, g = use("let v = json!([1]);", r, "use_(r);")
        out.append(("%s, used after the value is dropped" % r, b, g))
    for r in ("p.query(&v)", "p.query_located(&v)", "p.query(&v).first()", "p.query_located(&v).first().map(|n| n.node())"):
        b = PRELUDE + "fn main() {\nlet p = JsonPath::parse(\"$..*\").unwrap();\nlet mut v = json!([1]);\nlet r = %s;\n%s\n%s\n}\n"
        if "first().map" in r:
            r = "{ let l = p.query_located(&v); let n = l.first().map(|n| n.node()); n }"
        out.append(("%s, used after the value is changed" % r, b % (r, "v[0] = Value::Null;", "use_(r);"), b % (r, "use_(r);", "v[0] = Value::Null;")))
        b = PRELUDE + "fn main() {\nlet p = JsonPath::parse(\"$..*\").unwrap();\nlet v = json!([1]);\nlet r = %s;\n%s\n%s\n}\n"
        out.append(("%s, used after the value is moved" % r, b % (r, "drop(v);", "use_(r);"), b % (r, "use_(r);", "drop(v);")))
    # borrowed parts of a list do not outlive it
    for r, l in (("l.first()", "p.query_located(&v)"), ("l.iter()", "p.query(&v)"), ("l.iter()", "p.query_located(&v)"), ("l.locations()", "p.query_located(&v)"),
                 ("l.nodes()", "p.query_located(&v)"), ("l.get(0).map(|n| n.location())", "p.query_located(&v)")):
        b = PRELUDE + "fn main() {\nlet p = JsonPath::parse(\"$..*\").unwrap();\nlet v = json!([1]);\nlet l = %s;\nlet r = %s;\n%s\n%s\n}\n"
        out.append(("%s of %s, used after the list is gone" % (r, l), b % (l, r, "drop(l);", "use_(r);"), b % (l, r, "use_(r);", "drop(l);")))
    # in a function's signature
    for t, g, e in (("NodeList<'static>", "NodeList<'a>", "p.query(v)"), ("LocatedNodeList<'static>", "LocatedNodeList<'a>", "p.query_located(v)"),
                    ("Option<&'static Value>", "Option<&'a Value>", "p.query(v).first()")):
        b = PRELUDE + "fn f<'a>(p: &JsonPath, v: &'a Value) -> %s { %s }" + MAIN
        out.append(("%s of a borrowed value" % t, b % (t, e), b % (g, e)))
    for t, g, w in (("ValueType<'static>", "ValueType<'a>", "a value"), ("NodesType<'static>", "NodesType<'a>", "a node list")):
        h = t.split("<")[0]
        out.append(("a function that keeps %s of its arguments" % w, PRELUDE + "fn f<'a>(v: %s) -> %s { v }" % (g, t) + MAIN,
                    PRELUDE + "fn f<'a>(v: %s) -> %s { v }" % (g, g) + MAIN))
    return out


def outlives():
    """Results do not depend on the query or the list they came from."""
    out = []
    for r in ("p.query(&v)", "v.json_path(&p)", "p.query_located(&v)", "p.query(&v).first()", "p.query(&v).last()", "p.query(&v).get(0)",
              "p.query(&v).all()", "p.query(&v).at_most_one().unwrap()", "p.query(&v).exactly_one().unwrap()", "p.query_located(&v).dedup()",
              "p.query_located(&v).all()", "p.query_located(&v).at_most_one().unwrap()", "p.query_located(&v).exactly_one().unwrap()",
              "p.query_located(&v).exactly_one().unwrap().to_location()", "p.query_located(&v).exactly_one().unwrap().node()",
              "p.query(&v).into_iter()", "p.query_located(&v).into_iter()",
              "p.query_located(&v).iter().map(|n| n.node()).collect::<Vec<_>>()",
              "{ let l = p.query_located(&v); let n = l.first().map(|n| n.node()); n }"):
        out.append(("%s outlives the query" % r, PRELUDE + "fn main() {\nlet v = json!([1]);\nlet r;\n{\nlet p = JsonPath::parse(\"$..*\").unwrap();\nr = %s;\n}\nuse_(r);\n}\n" % r))
    out.append(("a query is independent of its text", PRELUDE + "fn main() {\nlet p;\n{ let s = String::from(\"$\"); p = JsonPath::parse(&s); }\nuse_(p);\n}\n"))
    out.append(("an error is independent of the text", PRELUDE + "fn f() -> Result<JsonPath, Box<dyn std::error::Error + Send + Sync + 'static>> { let s = String::from(\"x\"); Ok(JsonPath::parse(&s)?) }" + MAIN))
    return out


def threads():
    """(id, must compile, must not)"""
    out = []
    for t in ("JsonPath", "ParseError", "NodeList<'static>", "LocatedNodeList<'static>", "LocatedNode<'static>", "NormalizedPath<'static>",
              "PathElement<'static>", "AtMostOneError", "ExactlyOneError", "ValueType<'static>", "NodesType<'static>", "LogicalType",
              "functions::FunctionExpr<functions::Validated>", "functions::FunctionExprArg", "functions::Function"):
        u = "fn all<T: Send + Sync + Unpin>() {}\n" if "Function" not in t else "fn all<T: Send + Sync>() {}\n"
        out.append(("%s can be shared between threads" % t, PRELUDE + u + "fn main() { all::<%s>() }\n" % t))
    out.append(("a query is shared by threads", PRELUDE + "fn main() {\nlet p = JsonPath::parse(\"$..*\").unwrap();\nlet v = json!([1]);\n"
                "std::thread::scope(|s| { let a = s.spawn(|| p.query(&v)); let b = s.spawn(|| p.query_located(&v)); use_((a.join(), b.join())); });\n}\n"))
    return out


# ------------------------------------------------------------------ building them
TOML = """[package]
name = "wit"
version = "0.0.0"
edition = "2021"
publish = false
autobins = false
[workspace]
[dependencies]
serde_json_path = { path = "%s/serde_json_path" }
serde_json_path_macros = { path = "%s/serde_json_path_macros" }
serde_json = "1"
"""


def compile_all(programs, target=None):
    """{id: [errors]} where an error is (message, is it about the program's own text)."""
    work = tempfile.mkdtemp(prefix="sjp-wit-")
    try:
        os.makedirs(work + "/src")
        toml = TOML % (load.REPO, load.REPO)
        names = {}
        open(work + "/src/lib.rs", "w").write("")
        for i, (id, src) in enumerate(programs):
            names["w%d" % i] = id
            open(work + "/src/w%d.rs" % i, "w").write(src)
            toml += "[[bin]]\nname = \"w%d\"\npath = \"src/w%d.rs\"\n" % (i, i)
        open(work + "/Cargo.toml", "w").write(toml)
        lock = os.path.join(load.REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, work + "/Cargo.lock")
        env = load._env()
        env["CARGO_TARGET_DIR"] = target or work + "/target"
        env["CARGO_INCREMENTAL"] = "0"
        r = subprocess.run(["cargo", load.NIGHTLY, "check", "--offline", "-q", "--bins", "--keep-going", "--message-format=json"], cwd=work,
                           env=env, capture_output=True, text=True, timeout=800)
        out, done = {id: [] for id in names.values()}, set()
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            t = m.get("target", {}).get("name")
            if t not in names:
                continue
            if m["reason"] == "compiler-artifact":
                done.add(t)
            elif m["reason"] == "compiler-message" and m["message"]["level"].startswith("error"):
                own = [s for s in m["message"]["spans"] if s["is_primary"]]
                out[names[t]].append((m["message"]["message"], any(s["file_name"].endswith(t + ".rs") for s in own)))
        for t in names:
            if t not in done and not out[names[t]]:
                raise load.LoadError("the programs cannot be built against the tree:\n" + r.stderr[-2000:])
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def judge(cx, programs):
    """programs: (id, bad or None, good or None)"""
    todo = []
    for id, bad, good in programs:
        if bad is not None:
            todo.append((("bad", id), bad))
        if good is not None:
            todo.append((("good", id), good))
    uniq, at = {}, {}
    for k, s in todo:
        at[k] = uniq.setdefault(s, "u%d" % len(uniq))
    r = compile_all([(i, s) for s, i in uniq.items()])
    cx.count("programs compiled", len(uniq))
    for id, bad, good in programs:
        if good is not None:
            e = r[at[("good", id)]]
            label = "compiles: %s" % (id if bad is None else "what differs from: " + id)
            cx.record(label, EQ if not e else Diff((), None, None, "refused: %s" % e[0][0]), where="witness program")
            if e:
                continue
        if bad is not None:
            e = r[at[("bad", id)]]
            own = [m for m, o in e if o]
            cx.record("refused: " + id, EQ if own else Diff((), None, None, "it compiles" if not e else "only other errors: %s" % e[0][0]),
                      where="witness program")


# ------------------------------------------------------------------ what is generated
# (module, attribute's arguments, signature, body, name, parameters, result)
FUNCTIONS = [
    ("nullary", "", "f() -> LogicalType", "LogicalType::True", "f", (), "Logical"),
    ("value", "", "first_one<'a>(v: ValueType<'a>) -> ValueType<'a>", "v", "first_one", ("Value",), "Value"),
    ("nodes", "(name = \"other\")", "f<'a>(v: NodesType<'a>) -> NodesType<'a>", "v", "other", ("Nodes",), "Nodes"),
    ("logical", "", "v(mut v: LogicalType) -> LogicalType", "v", "v", ("Logical",), "Logical"),
    ("renamed", "(name = \"a_b\")", "x(arg_1: NodesType, arg_0: LogicalType) -> LogicalType", "arg_0", "a_b", ("Nodes", "Logical"), "Logical"),
    ("swapped", "", "f<'a>(f: LogicalType, a: ValueType<'a>) -> ValueType<'a>", "a", "f", ("Logical", "Value"), "Value"),
    ("odd", "", "__odd__name_9_one(__a: ValueType<'_>) -> LogicalType", "__a.is_nothing().into()", "__odd__name_9_one", ("Value",), "Logical"),
    ("odder", "(name = \"_x__y_\")", "r#type(r#fn: NodesType<'_>) -> LogicalType", "r#fn.all().is_empty().into()", "_x__y_", ("Nodes",), "Logical"),
    ("raw", "", "r#loop(v: LogicalType) -> LogicalType", "v", "loop", ("Logical",), "Logical"),
    ("same", "", "same<'a>(a: ValueType<'a>, b: ValueType<'a>, c: ValueType<'a>) -> ValueType<'a>", "b", "same", ("Value",) * 3, "Value"),
    ("three", "", "three<'a>(tk: NodesType<'a>, w: functions::ValueType<'_>, x: LogicalType) -> functions::NodesType<'a>", "tk", "three",
     ("Nodes", "Value", "Logical"), "Nodes"),
]
TYPES = {"Value": "ValueType", "Nodes": "NodesType", "Logical": "LogicalType"}


def library():
    s = "#![allow(unused)]\n"
    for m, attr, sig, body, *_ in FUNCTIONS:
        s += ("pub mod %s {\nuse serde_json_path::functions::{self, LogicalType, NodesType, ValueType};\n#[serde_json_path::function%s]\nfn %s { %s }\n}\n"
              % (m, attr, sig, body))
    return ("wit", TOML % (load.REPO, load.REPO), s)


def submitted(cx, m):
    """The function the attribute hands over for the function of module m."""
    fs = [f for f in cx.prog.fns.values() if f.crate == "wit" and f.id.startswith("wit::%s::" % m) and f.body is not None
          and f.kind.startswith("Static")]
    out = set()
    for f in fs:
        v = cx.engine.apart(lambda: cx.engine.force_static(mk("const", "static", f.id)))
        out |= {x for x in all_terms(v) if x.op == "con" and x.a[0] == FUNC}
    return sorted(out, key=lambda x: x.uid)


def generated(cx, parts=("declared", "checked", "evaluated")):
    ev = cx.engine
    for m, attr, sig, body, name, params, res in FUNCTIONS:
        what = "#[function%s] fn %s" % (attr, sig)
        fs = submitted(cx, m)
        if len(fs) != 1:
            cx.record("%s: registers one function" % what, Diff((), None, None, "%d functions are registered" % len(fs)) if not fs or len(fs) > 1 else EQ)
            continue
        fn = fs[0]
        g = cx.prog.fns["wit::%s::%s" % (m, sig.replace("r#", "").split("(")[0].split("<")[0])]
        fld = lambda n: Facts().simp(field(cx, fn, FUNC, n))
        if "declared" in parts:
            cx.require("%s: its name" % what, fld("name"), lit(name), where="generated code")
            cx.require("%s: its result type" % what, fld("result_type"), con(ARGT, RESULT[res]), where="generated code")
        if "checked" in parts:
            args = V("args")
            t = ev.apart(lambda: ev.call_value(fld("validator"), [args]))
            cx.require("%s: its calls are checked against its parameters" % what, t, c_funcs.params_of(cx, name, params, args), where="generated code")
        if "evaluated" in parts:
            xs = [V("a%d" % i) for i in range(len(params))]
            wt = c_funcs.well_typed(cx, params, xs)
            e = fld("evaluator")
            added = g.id not in ev.anchors
            ev.anchors.add(g.id)
            try:
                r = c_funcs.eval_call(cx, e, xs)
                c_funcs.runs(cx, what, e, xs, wt, g)
            finally:
                if added:
                    ev.anchors.discard(g.id)
            conv = [Facts().simp(proj(cx.inst(cx.method("TryFrom", TYPES[p], "try_from"), [x]), RES, "Ok", 0)) for p, x in zip(params, xs)]
            back = [f for f in cx.prog.fns.values() if f.of == "traitimpl" and f.name == "from" and load.short(f.trait or "") == "From"
                    and load.short(f.self_head or "") == "JsonPathValue" and f.inputs and load.short(c_funcs.head(f.inputs[0]) or "") == TYPES[res]]
            if len(back) != 1:
                raise Missing("From<%s> for JsonPathValue" % TYPES[res])
            want = cx.inst(back[0], [mk("app", "@" + g.id, *conv)])
            cx.require("%s: a call runs it on the converted arguments, in order, and gives its result" % what,
                       Facts().simp(ite(wt, r, V("any"))), Facts().simp(ite(wt, want, V("any"))), where="generated code")


def checked(cx):
    generated(cx, ("checked",))


def raw(tier):
    return Ctx(prog=load.Program(), tier=tier)


def C26(cx):
    ps = refused() + lifetimes() + [(i, None, s) for i, s in accepted() + outlives()]
    judge(cx, ps)


def witnesses(cx):
    judge(cx, [(i, None, s) for i, s in threads()])
