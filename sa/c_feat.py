"""C28: every combination of features builds, and features add without changing."""
import os, re, json, shutil, subprocess, tempfile, tomllib, itertools, threading, hashlib, collections
import load
from ctx import *
import c_funcs


class RawCtx:
    """Obligations without a program of their own."""

    def __init__(self, tier="quick"):
        self.tier, self.obls, self.counts, self.called = tier, [], {}, set()

    record = Ctx.record
    count = Ctx.count

    def analysed(self):
        return self.called


def features_of(pkg):
    d = tomllib.load(open(os.path.join(load.REPO, pkg, "Cargo.toml"), "rb"))
    fs = dict(d.get("features", {}))
    for k, v in d.get("dependencies", {}).items():
        if isinstance(v, dict) and v.get("optional") and not any("dep:" + k in x for x in fs.values()):
            fs[k] = []
    default = fs.pop("default", [])
    return sorted(fs), sorted(default)


def subsets(fs):
    return [tuple(c) for n in range(len(fs) + 1) for c in itertools.combinations(fs, n)][:32]


def check(pkg, feats, target, dump=None):
    args = ["--lib", "-p", pkg, "--no-default-features"] + (["--features", ",".join(feats)] if feats else [])
    if dump:
        return load.cargo_dump(load.REPO, dump, args, target)
    env = load._env()
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_INCREMENTAL"] = "0"
    return subprocess.run(["cargo", load.NIGHTLY, "check", "--offline", "-q"] + args, cwd=load.REPO, env=env, capture_output=True,
                          text=True, timeout=800)


def errors(stderr):
    """(message, file) of the compiler's errors."""
    out = []
    ls = stderr.splitlines()
    for i, l in enumerate(ls):
        if re.match(r"error(\[E\d+\])?: ", l) and "could not compile" not in l and "aborting due to" not in l:
            m = re.search(r"--> (\S+?):\d+", ls[i + 1]) if i + 1 < len(ls) else None
            out.append((re.sub(r"^error(\[E\d+\])?: ", "", l), m.group(1) if m else ""))
    return out


MAIN, CORE = "serde_json_path", "serde_json_path_core"


def builds(work):
    """{(package, features): (error or None, program directory or None)}"""
    out = {}
    mf, md = features_of(MAIN)
    cf, _ = features_of(CORE)
    jobs = collections.OrderedDict()
    for c in subsets(mf):
        jobs.setdefault("m-trace" if "trace" in c else "m", []).append((MAIN, c))
    for c in subsets(cf):
        jobs.setdefault("c", []).append((CORE, c))
    probs = []

    def run(name, todo):
        try:
            target = os.path.join(work, "t-" + name)
            d = os.path.join(work, "d-" + name)
            os.makedirs(d)
            for pkg, c in todo:
                if pkg == MAIN:
                    p = os.path.join(d, "serde_json_path.json")
                    if os.path.exists(p):
                        os.remove(p)
                r = check(pkg, c, target, d if pkg == MAIN else None)
                keep = None
                if r.returncode == 0 and pkg == MAIN:
                    keep = os.path.join(work, "p-" + ("-".join(c) or "none"))
                    shutil.copytree(d, keep)
                out[(pkg, c)] = (None if r.returncode == 0 else errors(r.stderr) or [(r.stderr[-400:], "")], keep)
        except Exception as e:
            probs.append(e)
    ts = [threading.Thread(target=run, args=x) for x in jobs.items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if probs:
        raise probs[0]
    return out, tuple(md)


# ------------------------------------------------------------------ the same program
class Canon:
    """Bodies in a form that does not depend on places, numbering and names of variables."""

    def __init__(self, prog):
        self.prog = prog
        self.names = {}
        seen = collections.Counter()
        for f in prog.fns.values():
            n = self.plain(f)
            seen[n] += 1
        self.ids = {f.id: self.plain(f) for f in prog.fns.values()}

    def plain(self, f):
        if f.of == "traitimpl":
            return "<%s as %s>::%s %s" % (f.self_head, f.trait, f.name, self.ty(tuple(f.inputs)))
        if f.of == "inherent":
            return "%s::%s %s" % (f.self_head, f.name, self.ty(tuple(f.inputs)))
        return f.id

    def ty(self, t):
        if isinstance(t, tuple):
            if t and t[0] == "closure":
                return ("closure",)
            return tuple(self.ty(x) for x in t)
        if isinstance(t, load.Callee):
            return self.callee(t)
        if isinstance(t, str):
            return re.sub(r"@[^ >]*\.rs:[\d: ]*", "@", t)
        return t

    def callee(self, c):
        return (self.ids.get(c.id, c.id), self.ty(c.args), None if c.res is None else self.ids.get(c.res.id, c.res.id))

    def of(self, x, ren=None, drop=True):
        ren = {} if ren is None else ren
        if isinstance(x, load.Callee):
            return self.callee(x)
        if isinstance(x, dict):
            if x.get("k") == "closure":
                f = self.prog.fns.get(x["id"])
                if f is not None and f.body is not None:
                    return ("closure", tuple(self.of(p, ren, drop) for p in f.body["params"]), self.of(f.body["expr"], ren, drop))
            out = []
            for k in sorted(x):
                v = x[k]
                if k in ("sp", "scope", "name", "src"):
                    continue
                if k == "k" and v == "upvar":
                    v = "var"
                if k in ("v", "label") and isinstance(v, (str, int)):
                    v = ren.setdefault((k, v), len(ren))
                elif k in ("ty", "from"):
                    v = self.ty(v)
                elif k == "id" and isinstance(v, str):
                    v = self.ids.get(v, v)
                elif k == "stmts" and drop:
                    v = tuple(self.of(s, ren, drop) for s in v if not traces(self.prog, s))
                else:
                    v = self.of(v, ren, drop)
                out.append((k, v))
            return tuple(out)
        if isinstance(x, (list, tuple)):
            return tuple(self.of(y, ren, drop) for y in x)
        return x

    def body(self, f):
        ren = {}
        return (tuple(self.of(p["pat"], ren) if "pat" in p else None for p in f.body["params"]), self.of(f.body["expr"], ren))


def nodes(prog, x):
    """All nodes below x, bodies of closures included."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            if y.get("k") == "closure":
                f = prog.fns.get(y["id"])
                if f is not None and f.body is not None:
                    st.append(f.body["expr"])
            st += list(y.values())
        elif isinstance(y, (list, tuple)):
            st += list(y)
        elif isinstance(y, load.Callee):
            yield y


TRACING = ("tracing::", "tracing_core::")
LEAVES = ("return",)


def is_tracing(i):
    return i is not None and i.startswith(TRACING)


def traces(prog, s):
    """Does this statement do nothing but tell the tracing crates something?"""
    if s.get("k") == "let":
        t = s["pat"].get("ty")
        while t and t[0] == "ref":
            t = t[2]
        return bool(t) and t[0] == "adt" and is_tracing(t[1]) and harmless(prog, s)
    e = s.get("e")
    if s.get("k") != "expr" or not isinstance(e, dict) or e.get("ty") != ("tuple", ()):
        return False
    return any(isinstance(y, load.Callee) and is_tracing(y.id) for y in nodes(prog, s)) and harmless(prog, s)


def harmless(prog, s):
    inside = {y["v"] for y in nodes(prog, s) if isinstance(y, dict) and y.get("k") == "bind"}
    for y in nodes(prog, s):
        if not isinstance(y, dict):
            continue
        if y.get("k") == "return":
            return False
        if y.get("k") in ("assign", "assignop", "borrow") and (y.get("k") != "borrow" or y.get("mut")):
            z = y.get("l") if y.get("k") != "borrow" else y.get("e")
            while isinstance(z, dict) and z.get("k") in ("field", "deref", "index"):
                z = z.get("e") or z.get("l")
            if isinstance(z, dict) and z.get("k") in ("var", "upvar") and z["v"] not in inside:
                return False
    return True


def wrapped(cb, cb_fn, canon_a):
    """Does the body of a function, as instrumented by the tracing attribute, contain the original
    body, and apart from it nothing of the workspace?"""
    ren = {}
    for p in cb_fn.body["params"]:
        if "pat" in p:
            cb.of(p["pat"], ren)
    for y in nodes(cb.prog, cb_fn.body["expr"]):
        if isinstance(y, dict) and y.get("k") == "block":
            if cb.of(y, dict(ren)) == canon_a:
                rest = outside(cb.prog, cb_fn.body["expr"], y)
                return all(not (c.id in cb.prog.fns and cb.prog.fns[c.id].kind not in ("Closure",) and "__CALLSITE" not in c.id)
                           or "fmt::" in c.key() for c in rest)
    return False


def unwrap(prog):
    """Give each function instrumented by the tracing attribute its original body: the body of the one
    closure without parameters that returns the function's result, when nothing of the workspace is
    mentioned outside of it."""
    for f in prog.fns.values():
        if not ours(f) or f.kind == "Closure":
            continue
        ns = list(nodes(prog, f.body["expr"]))
        if not any(isinstance(y, load.Callee) and is_tracing(y.id) for y in ns):
            continue
        inner = []
        for y in ns:
            g = prog.fns.get(y["id"]) if isinstance(y, dict) and y.get("k") == "closure" else None
            if g is not None and g.body is not None and len(g.body["params"]) == 1 and g.body["expr"].get("ty") == f.body["expr"].get("ty"):
                rest = outside(prog, f.body["expr"], g.body["expr"])
                if all(not (c.id in prog.fns and prog.fns[c.id].kind != "Closure" and "__CALLSITE" not in c.id)
                       or "fmt::" in c.key() for c in rest):
                    inner.append(g)
        inner = [g for g in inner if not any(g is not h and any(isinstance(y, dict) and y.get("k") == "closure" and y["id"] == g.id
                                                                for y in nodes(prog, h.body["expr"])) for h in inner)]
        if len(inner) == 1:
            g = inner[0]
            f.plain = dict(f.body, expr=g.body["expr"])
            pre = g.id + "::"
            f.moved = {h.id: f.id + "::" + h.id[len(pre):] for h in prog.fns.values() if h.id.startswith(pre)}


def original(prog, f):
    """Continue with the original body of an instrumented function, closures named as in it."""
    if not hasattr(f, "plain"):
        return
    was = {i: prog.fns.pop(i) for i in f.moved}
    for i, g in was.items():
        g.id = f.moved[i]
        prog.fns[g.id] = g
    st = [f.plain["expr"]] + [g.body["expr"] for g in was.values() if g.body is not None]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get("k") == "closure":
                y["id"] = f.moved.get(y["id"], y["id"])
            st += list(y.values())
        elif isinstance(y, (list, tuple)):
            st += list(y)
    f.body = f.plain
    del f.plain


def outside(prog, x, stop):
    st, out = [x], []
    while st:
        y = st.pop()
        if y is stop:
            continue
        if isinstance(y, dict):
            if y.get("k") == "closure":
                f = prog.fns.get(y["id"])
                if f is not None and f.body is not None:
                    st.append(f.body["expr"])
            st += list(y.values())
        elif isinstance(y, (list, tuple)):
            st += list(y)
        elif isinstance(y, load.Callee):
            out.append(y)
    return out


def ours(f):
    return f.crate in (MAIN, CORE) and f.body is not None and "__CALLSITE" not in f.id and f.kind != "AnonConst" \
        and "__tracing" not in f.id


def C28(cx):
    work = tempfile.mkdtemp(prefix="sjp-feat-")
    try:
        bs, default = builds(work)
        listed = {k["id"] for k in known_findings()}
        for (pkg, c), (err, d) in sorted(bs.items()):
            name = "%s builds with %s" % (pkg, ", ".join(c) or "no features")
            cx.count("feature combinations")
            if err is None:
                cx.record(name, EQ)
                continue
            o = cx.record(name, "; ".join("%s (%s)" % x for x in err[:4]), where=err[0][1])
            if pkg == CORE and "functions" not in c and "K-core-features" in listed and \
                    all("inventory::private::iter<Function>" in m and f.endswith("core/src/spec/functions.rs") for m, f in err):
                o.known = ["K-core-features"]
        base = bs.get((MAIN, default))
        if base is None or base[1] is None:
            return
        progs = {}
        for (pkg, c), (err, d) in sorted(bs.items()):
            if d is not None:
                progs[c] = Side(Ctx(prog=load.load_dir(d)))
        for c in sorted(progs):
            plain = tuple(x for x in c if x != "trace")
            if c != plain and plain in progs:
                same(cx, progs[plain], progs[c], "with %s as without trace" % ", ".join(c), True, [])
            elif c != default:
                off = [x for x in default if x not in c]
                same(cx, progs[default], progs[c], "with %s as with the default features" % (", ".join(c) or "no features"), False, off)
        cx.called |= {f.id for f in progs[default].fns.values()}
    finally:
        shutil.rmtree(work, ignore_errors=True)


class Side:
    def __init__(self, cx):
        unwrap(cx.prog)
        self.cx, self.canon = cx, Canon(cx.prog)
        self.fns = {}
        for f in cx.prog.fns.values():
            if ours(f) and f.kind != "Closure":
                self.fns.setdefault(self.canon.plain(f), f)
        self.bodies = {n: self.canon.body(f) for n, f in self.fns.items()}
        self.decl = declared_part(cx)


def same(cx, a, b, tag, trace, off):
    """Every function does in the program b what it does in a."""
    equal, left, missing = 0, [], []
    for n, f in sorted(a.fns.items()):
        g = b.fns.get(n)
        if g is None:
            missing.append(f)
        elif b.bodies[n] == a.bodies[n] or trace and wrapped(b.canon, g, a.bodies[n][1]):
            equal += 1
        else:
            left.append((f, g))
    cx.count("functions compared", len(a.fns))
    special = any(f.id in a.decl for f, _ in left)
    alike = declarations(cx, a.cx, b.cx, tag, off) if (off or special) and not trace else not special
    for f in missing:
        if f.exported:
            cx.record("%s: %s is there" % (tag, f.label()), "a public function is missing", where=where(f))
    for _, g in left:
        original(b.cx.prog, g)
    for f, g in left:
        if alike and f.id in a.decl:
            equal += 1
            continue
        d = summaries(a.cx, f, b.cx, g)
        if d is EQ:
            equal += 1
        else:
            cx.record("%s: %s is the same" % (tag, f.label()), d, where=where(g))
    cx.record("%s: %d functions are the same" % (tag, equal), EQ)


def summaries(a, f, b, g):
    try:
        va, oa, na, _ = a.summarize(f)
        vb, ob, nb, _ = b.summarize(g)
    except Exception as e:
        return Unk((), "no summary: %s" % e)
    for x, y in [(va, vb)] + [(oa[k], ob[k]) for k in oa if k in ob]:
        r = Compare(None).run(x, y)
        if r is not EQ:
            return r
    return EQ


# ------------------------------------------------------------------ the functions the parser knows
def declared_part(cx):
    """The functions that declare calls, and the registry and what it is made of."""
    out = set()
    try:
        for f, _ in c_funcs.declaration(cx):
            while f is not None:
                out.add(f.id)
                f = cx.prog.fns.get(f.parent)
    except Missing:
        pass
    for f in cx.prog.fns.values():
        if f.kind.startswith("Static") and f.crate == MAIN:
            out.add(f.id)
            for g in cx.prog.fns.values():
                if g.parent == f.id:
                    out.add(g.id)
    return out


REGEX = ("match", "search")


def declarations(cx, a, b, tag, off):
    """Built-in functions are declared alike, those of the regex feature apart."""
    try:
        da, db = c_funcs.declare(a), c_funcs.declare(b)
    except Missing as e:
        cx.record("%s: calls are declared" % tag, Unk((), str(e)))
        return False
    good = True
    for name in sorted(c_funcs.BUILTINS) + ["something_else"]:
        ta, _ = c_funcs.builtin(a, da, name)
        tb, _ = c_funcs.builtin(b, db, name)
        what = "%s: the function %s is declared as with the default features" % (tag, name)
        if "regex" in off and name in REGEX:
            ok_ = Facts().simp(is_variant(tb, RES, "Ok"))
            r = EQ if ok_ is FALSE else Unk((), compare.sh(ok_)[:300]) if ok_ is not TRUE else \
                "it is known without the regex feature"
            what = "%s: the function %s is not known" % (tag, name)
        else:
            r = Compare(None).run(ta, tb)
            if r is not EQ:
                # without the evaluators, which are functions of the same name
                oa, ob = (Facts().simp(is_variant(x, RES, "Ok")) for x in (ta, tb))
                r2 = Compare(None).run(oa, ob)
                ea, eb = c_funcs.evaluator_of(a, ta), c_funcs.evaluator_of(b, tb)
                if isinstance(r2, Diff):
                    r = r2
                elif oa is FALSE and ob is not FALSE and r2 is not EQ:
                    r = "it is known"
        cx.record(what, r, where=where(db.fn))
        good = good and r is EQ
    return good
