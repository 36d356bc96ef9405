"""Direct-style abstract evaluator: summarises a function body as one value term (a decision
diagram over the inputs), by structural recursion over the typed IR with merges at joins and
closed forms for loops.  No input is ever chosen; no code of the repository is run."""
from terms import *
from facts import Facts, RANGES
import re
import facts as _facts
import load

PRIM_RANGE = {
    "i8": (-2 ** 7, 2 ** 7 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1),
    "i64": (-2 ** 63, 2 ** 63 - 1), "i128": (-2 ** 127, 2 ** 127 - 1), "isize": (-2 ** 63, 2 ** 63 - 1),
    "u8": (0, 2 ** 8 - 1), "u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1),
    "u128": (0, 2 ** 128 - 1), "usize": (0, 2 ** 64 - 1), "char": (0, 0x10FFFF),
}
MAXLEN = 2 ** 47           # no longer array fits into the address space (assumption, DESIGN.md)
MAXINT = 2 ** 53 - 1
INT_ADT = "serde_json_path_core::spec::integer::Integer"
VALUE = "serde_json::value::Value"

TYPED = {}    # term -> primitive integer type, for opaque integer terms
TEXTS = set()


def _range(t):
    if t.op == "app":
        n = t.a[0]
        if n == "len":
            return (0, MAXLEN)
        if n == "blen":
            return (0, 2 ** 63 - 1)
        if n == "elt" and t.a[1] in TEXTS:
            return (0, 0x10FFFF)
    if t.op == "proj" and t.a[1] == INT_ADT:
        return (-MAXINT, MAXINT)
    k = TYPED.get(t)
    if k == "Integer":
        return (-MAXINT, MAXINT)
    if k is not None:
        return PRIM_RANGE.get(k)
    if t.op == "mono":
        lo = hi = 1
        for x in t.a:
            r = _facts.term_range(x)
            if r is None or None in r:
                return None
            c = [lo * r[0], lo * r[1], hi * r[0], hi * r[1]]
            lo, hi = min(c), max(c)
        return lo, hi
    return None


RANGES.append(_range)


class Diverge(Exception):
    pass


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("store", "facts", "pc")

    def __init__(self, store, facts, pc):
        self.store = store
        self.facts = facts
        self.pc = pc

    def fork(self, c=None, val=True):
        f = self.facts
        pc = self.pc
        if c is not None:
            f = f.assume(c, val)
            pc = pc + ((c if val else bnot(c)),)
        return State(dict(self.store), f, pc)


class Target:
    def __init__(self, kind, label, pclen, frame):
        self.kind = kind
        self.label = label
        self.pclen = pclen
        self.frame = frame
        self.exits = []     # (cond, value, store)


class Frame:
    def __init__(self, fid, fn, sub, parent=None):
        self.id = fid
        self.fn = fn
        self.subst = sub
        self.parent = parent   # defining frame of a closure
        self.targets = []


def conj(cs):
    r = TRUE
    for c in reversed(cs):
        r = band(c, r)
    return r


def head(t):
    return t[1] if t[0] == "adt" else t[0]


def strip(t):
    while t[0] == "ref":
        t = t[2]
    return t


class Engine:
    def __init__(self, prog, anchors=()):
        self.prog = prog
        self.anchors = set(anchors)
        self.nframe = 0
        self.stack = []
        self.panics = []
        self.notes = set()        # unsupported constructs met
        self.called = set()       # functions inlined
        self.assumptions = set()
        self.depth = 0
        for p, a in prog.adts.items():
            VARIANTS[p] = [v[0] for v in a["variants"]]
            if len(a["variants"]) == 1:
                SINGLE[p] = a["variants"][0][0]
        self.fieldpos = {}
        self.fieldty = {}
        for p, a in prog.adts.items():
            for v, fs in a["variants"]:
                for i, (n, ty, _) in enumerate(fs):
                    self.fieldpos[(p, v, n)] = i
                    self.fieldty[(p, v, n)] = ty
        self.impl_index = {}
        for im in prog.impls:
            self.impl_index.setdefault(im.trait, []).append(im)
        import models, m_serde
        self.models = models
        self._summaries = {}
        self._sub = {}
        self.vartypes = {}

    # ------------------------------------------------------------- types
    def ty(self, t):
        return self.subst_ty(t, self.stack[-1].subst if self.stack else {})

    def subst_ty(self, t, s):
        if not s or not isinstance(t, tuple):
            return t
        k = t[0]
        if k == "param":
            return s.get(t[1], t)
        if k == "adt":
            return ("adt", t[1], tuple(self.subst_ty(x, s) for x in t[2]))
        if k == "ref":
            return ("ref", t[1], self.subst_ty(t[2], s))
        if k in ("slice", "ptr"):
            return (k, self.subst_ty(t[1], s))
        if k == "array":
            return (k, self.subst_ty(t[1], s), t[2])
        if k == "tuple":
            return (k, tuple(self.subst_ty(x, s) for x in t[1]))
        return t

    def unify(self, pat, t, s):
        if pat[0] == "param":
            o = s.get(pat[1])
            if o is None:
                s[pat[1]] = t
                return True
            return o == t
        if pat[0] != t[0]:
            return pat[0] == "unknown" or t[0] == "unknown"
        k = pat[0]
        if k == "adt":
            if pat[1] != t[1]:
                return False
            return all(self.unify(a, b, s) for a, b in zip(pat[2], t[2]))
        if k == "ref":
            return pat[1] == t[1] and self.unify(pat[2], t[2], s)
        if k in ("slice", "array", "ptr"):
            return self.unify(pat[1], t[1], s)
        if k == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, s) for a, b in zip(pat[1], t[1]))
        return pat == t

    def find_impl(self, trait, args):
        cands = []
        for im in self.impl_index.get(trait, ()):
            s = {}
            if len(im.args) <= len(args) and all(self.unify(a, b, s) for a, b in zip(im.args, args)):
                cands.append((im, s))
        if len(cands) > 1:
            # prefer the impl without a bare type parameter as Self
            spec = [c for c in cands if c[0].args and c[0].args[0][0] != "param"
                    and all(a[0] != "param" for a in c[0].args)]
            cands = spec or cands
        return cands[0] if cands else None

    # ------------------------------------------------------------- state
    def frame(self):
        return self.stack[-1]

    def simp(self, t):
        return self.st.facts.simp(t)

    def decide(self, c):
        c = self.simp(c)
        return True if c is TRUE else False if c is FALSE else None

    def branch(self, c, th, el):
        c = self.simp(c)
        if c is TRUE:
            return th()
        if c is FALSE:
            return el()
        if c is BOT:
            raise Diverge()
        s0 = self.st
        made = getattr(self, "made", 0)
        s1 = s0.fork(c, True)
        s2 = s0.fork(c, False)
        v1 = v2 = None
        if s1.facts.dead:
            self.st = s2
            self.st.pc = s0.pc
            return el()
        if s2.facts.dead:
            self.st = s1
            self.st.pc = s0.pc
            return th()
        self.st = s1
        try:
            v1 = th()
        except Diverge:
            v1 = None
        s1 = self.st
        self.st = s2
        try:
            v2 = el()
        except Diverge:
            v2 = None
        s2 = self.st
        if v1 is None and v2 is None:
            self.st = s0
            raise Diverge()
        if v1 is None:
            self.st = s2
            return v2
        if v2 is None:
            self.st = s1
            return v1
        n = len(s0.pc)
        e1 = conj(s1.pc[n + 1:])
        e2 = conj(s2.pc[n + 1:])
        x = ite(c, e1, e2)
        st = State(self.merge_store(c, s1.store, s2.store, getattr(self, "made", 0) != made), s0.facts, s0.pc)
        if x is not TRUE:
            st.pc = st.pc + (x,)
            st.facts = st.facts.assume(x)
        self.st = st
        return self.mergev(c, v1, v2)

    def mergev(self, c, a, b):
        if a is b:
            return a
        return ite(c, a, b)

    def merge_store(self, c, s1, s2, keep=False):
        """keep: the variables of one branch are kept too (closures made there may use them)."""
        out = {}
        for k, v in s1.items():
            w = s2.get(k)
            if w is None:
                if keep:
                    out[k] = v
                continue
            out[k] = v if v is w else ite(c, v, w)
        if keep:
            for k, v in s2.items():
                out.setdefault(k, v)
        return out

    def new_frame(self, fn, sub, parent=None):
        self.nframe += 1
        return Frame(self.nframe, fn, sub, parent)

    def panic(self, what, node=None):
        self.panics.append((what, self.frame().fn.id if self.stack else "?", conj(self.st.pc)))

    def panic_unless(self, c, what):
        """The operation panics where c fails."""
        s0 = self.st
        bad = s0.fork(c, False)
        if not bad.facts.dead:
            self.st = bad
            self.panic(what)
            self.st = s0

    def note(self, s):
        self.notes.add(s)

    # ------------------------------------------------------------- exits
    def exit_to(self, target, value):
        cond = conj(self.st.pc[target.pclen:])
        target.exits.append((cond, value, self.st.store))
        raise Diverge()

    def with_target(self, kind, label, body, keep_pc=False):
        """Run body(); fold the exits recorded on the new target with the normal result."""
        fr = self.frame()
        t = Target(kind, label, len(self.st.pc), fr)
        fr.targets.append(t)
        s0 = self.st
        try:
            try:
                v = body()
            except Diverge:
                v = None
        finally:
            assert fr.targets[-1] is t
            fr.targets.pop()
        return self.fold_exits(t, s0, v)

    def fold_exits(self, t, s0, v):
        if not t.exits:
            if v is None:
                raise Diverge()
            return v
        n = t.pclen
        exits = t.exits
        if v is None:
            cond_last, v, store = exits[-1]
            alive = cond_last
            exits = exits[:-1]
        else:
            store = self.st.store
            alive = conj(self.st.pc[n:])
        for c, ev, es in reversed(exits):
            v = self.mergev(c, ev, v)
            store = self.merge_store(c, es, store)
            alive = ite(c, TRUE, alive)
        pc = s0.pc[:n]
        f = s0.facts
        if t.kind != "fn" and alive is not TRUE:
            alive = f.simp(alive)
            if alive is not TRUE:
                pc = pc + (alive,)
                f = f.assume(alive)
        self.st = State(store, f, pc)
        return v

    # ------------------------------------------------------------- calling local functions
    def run_fn(self, fn, args, sub, parent=None):
        if len(self.stack) > 60:
            raise Unsupported("call depth at " + fn.id)
        fr = self.new_frame(fn, sub, parent)
        self.stack.append(fr)
        self.called.add(fn.id)
        try:
            def body():
                params = fn.body["params"]
                if fn.kind == "Closure" and len(params) == len(args) + 1:
                    params = params[1:]       # the closure environment
                for p, a in zip(params, args):
                    if p.get("pat") is not None:
                        self.bind_irrefutable(p["pat"], a)
                return self.eval(fn.body["expr"])
            return self.with_target("fn", None, body)
        finally:
            self.stack.pop()

    def call_fn(self, fid, args, targs=()):
        fn = self.prog.fns.get(fid)
        if fn is None or fn.body is None:
            return None
        sub = {g: t for g, t in zip(fn.generics, targs)}
        if fid in self.anchors and any(f.fn.id == fid for f in self.stack) is False and self.stack:
            return self.anchor_app(fn, args, targs)
        if any(f.fn.id == fid for f in self.stack):
            return self.anchor_app(fn, args, targs)
        return self.run_fn(fn, args, sub)

    def anchor_app(self, fn, args, targs=()):
        vals = []
        for i, (a, t) in enumerate(zip(args, fn.inputs or [])):
            if a.op == "mref":
                v = self.read_ref(a)
                vals.append(v)
            else:
                vals.append(a)
        res = mk("app", "@" + fn.id, *vals)
        for i, a in enumerate(args):
            if a.op == "mref":
                self.write_ref(a, mk("app", "@%s#out%d" % (fn.id, i), *vals))
        o = fn.output
        if o and o[0] == "prim":
            if o[1] in PRIM_RANGE:
                TYPED[res] = o[1]
        return res

    def summary(self, fid, args=None, sub=None):
        """Summary of a function on symbolic arguments.  Returns (value, outs) with outs the final
        values of `&mut` parameters."""
        fn = self.prog.fns[fid]
        key = (fid, tuple(args) if args else None)
        if key in self._summaries:
            return self._summaries[key]
        names = self.param_names(fn)
        sub = sub or {}
        saved = (getattr(self, "st", None), self.stack)
        root = self.new_frame(fn, sub)
        self.stack = []
        self.st = State({}, Facts(), ())
        vals = []
        outs = []
        for i, (n, t) in enumerate(zip(names, fn.inputs)):
            v = args[i] if args else self.sym(n, t)
            if t[0] == "ref" and t[1]:
                k = (root.id, n)
                self.st.store[k] = v
                vals.append(mk("mref", root.id, n, ()))
                outs.append((n, k))
            else:
                vals.append(v)
        try:
            v = self.run_fn(fn, vals, sub)
            res = (v, {n: self.st.store.get(k) for n, k in outs})
        except Diverge:
            res = (BOT, {})
        finally:
            self.st, self.stack = saved
        self._summaries[key] = res
        return res

    def apart(self, thunk):
        """thunk() evaluated in a state of its own."""
        saved = (getattr(self, "st", None), self.stack)
        self.stack, self.st = [], State({}, Facts(), ())
        try:
            return thunk()
        except Diverge:
            return BOT
        finally:
            self.st, self.stack = saved

    def sym(self, name, t):
        v = mk("var", name)
        s = strip(t)
        if s[0] == "prim" and s[1] in PRIM_RANGE:
            TYPED[v] = s[1]
        if s == ("prim", "str") or (s[0] == "adt" and s[1] == "alloc::string::String"):
            TEXTS.add(v)
        return v

    def param_names(self, fn):
        out = []
        for i, p in enumerate(fn.body["params"]):
            if p.get("self"):
                out.append("self")
            else:
                out.append("p%d" % i)
        return out

    # ------------------------------------------------------------- places
    def var_key(self, v):
        """Store key of a variable (searching the frames that may define it)."""
        owner = v.rsplit(".", 1)[0]
        fr = self.frame()
        while fr is not None:
            k = (fr.id, v)
            if k in self.st.store:
                return k
            fr = fr.parent
        return (self.frame().id, v)

    def place(self, e):
        """-> (key, projections) or None when e is not a place."""
        k = e["k"]
        if k in ("var", "upvar"):
            return (self.var_key(e["v"]), ())
        if k == "field":
            p = self.place(e["e"])
            if p is None:
                return None
            return (p[0], p[1] + (self.field_step(e),))
        if k == "deref":
            inner = e["e"]
            v = self.eval(inner)
            if v.op == "mref":
                return ((v.a[0], v.a[1]), v.a[2])
            p = None
            try:
                p = self.place(inner) if inner["k"] in ("var", "upvar", "field", "deref") else None
            except Unsupported:
                p = None
            return p
        if k == "block" and not e["b"]["stmts"] and e["b"].get("expr"):
            return self.place(e["b"]["expr"])
        if k == "index":
            p = self.place(e["l"])
            if p is None:
                return None
            i = self.rv(e["i"])
            return (p[0], p[1] + (("e", i),))
        return None

    def field_step(self, e):
        adt = e.get("adt")
        if adt is None:
            return ("t", int(e["f"]))
        v = SINGLE.get(adt) or VARIANTS[adt][0]
        return ("f", adt, v, self.fieldpos[(adt, v, e["f"])])

    def read_place(self, p):
        v = self.st.store.get(p[0])
        if v is None:
            raise Unsupported("read of unbound %s" % (p[0],))
        for s in p[1]:
            if v.op == "mref":
                v = self.read_ref(v)
            v = self.project(v, s)
        return v

    def project(self, v, s):
        if s[0] == "t":
            return tproj(v, s[1])
        if s[0] == "f":
            return self.getf(v, s[1], s[2], s[3])
        if s[0] == "e":
            return elt(v, s[1])
        raise Unsupported("projection")

    def getf(self, v, adt, variant, idx):
        r = proj(v, adt, variant, idx)
        self.type_term(r, adt, variant, idx)
        return r

    def type_term(self, r, adt, variant, idx):
        if r.op == "proj":
            a = self.prog.adts.get(adt)
            if a:
                for vn, fs in a["variants"]:
                    if vn == variant and idx < len(fs):
                        s = strip(fs[idx][1])
                        if s[0] == "prim" and s[1] in PRIM_RANGE:
                            TYPED.setdefault(r, s[1])
                        if s == ("prim", "str") or (s[0] == "adt" and s[1] == "alloc::string::String"):
                            TEXTS.add(r)

    def write_place(self, p, val):
        if not p[1]:
            cur = self.st.store.get(p[0])
            self.st.store = dict(self.st.store)
            self.st.store[p[0]] = val
            return
        base = self.st.store.get(p[0])
        if base is None:
            raise Unsupported("write to unbound")
        nv = self.update(base, p[1], val)
        self.st.store = dict(self.st.store)
        self.st.store[p[0]] = nv

    def update(self, base, steps, val):
        if not steps:
            return val
        if base.op == "ite":
            return ite(base.a[0], self.update(base.a[1], steps, val), self.update(base.a[2], steps, val))
        s = steps[0]
        if s[0] == "t":
            if base.op == "tup":
                xs = list(base.a)
            else:
                raise Unsupported("tuple update")
            xs[s[1]] = self.update(xs[s[1]], steps[1:], val)
            return tup(*xs)
        if s[0] == "f":
            adt, variant, idx = s[1:]
            n = None
            for vn, fs in self.prog.adts[adt]["variants"]:
                if vn == variant:
                    n = len(fs)
            if base.op == "con":
                if base.a[1] != variant:
                    return base
                xs = list(base.a[2:])
            else:
                xs = [self.getf(base, adt, variant, i) for i in range(n)]
            xs[idx] = self.update(xs[idx], steps[1:], val)
            return con(adt, variant, *xs)
        if s[0] == "e":
            return mk("app", "setelt", base, s[1], self.update(elt(base, s[1]), steps[1:], val))
        raise Unsupported("update")

    def read_ref(self, r):
        if r.op == "ite":
            return ite(r.a[0], self.read_ref(r.a[1]), self.read_ref(r.a[2]))
        if r.op != "mref":
            return r
        v = self.read_place(((r.a[0], r.a[1]), r.a[2]))
        if v.op == "mref":
            return self.read_ref(v)
        return v

    def write_ref(self, r, val):
        if r.op == "mref":
            cur = self.st.store.get((r.a[0], r.a[1]))
            if cur is not None and cur.op == "mref":
                return self.write_ref(mk("mref", cur.a[0], cur.a[1], cur.a[2] + r.a[2]), val)
            self.write_place(((r.a[0], r.a[1]), r.a[2]), val)
        elif r.op == "ite":
            self.write_ref(r.a[1], ite(r.a[0], val, self.read_ref(r.a[1])))
            self.write_ref(r.a[2], ite(r.a[0], self.read_ref(r.a[2]), val))
        else:
            self.note("write through an unknown reference")

    def temp_ref(self, v):
        self.nframe += 1
        k = (self.frame().id, "tmp%d" % self.nframe)
        self.st.store = dict(self.st.store)
        self.st.store[k] = v
        return mk("mref", k[0], k[1], ())

    # ------------------------------------------------------------- patterns
    def pat_test(self, p, v):
        """-> boolean DD that the pattern matches."""
        k = p["k"]
        if v.op == "mref" and k not in ("wild", "bind"):
            v = self.read_ref(v)
        if k in ("wild", "never"):
            return TRUE
        if k == "bind":
            return self.pat_test(p["sub"], v) if p.get("sub") else TRUE
        if k == "deref":
            return self.pat_test(p["sub"], v)
        if k == "variant":
            v = self.simp(v)
            r = is_variant(v, p["adt"], p["variant"])
            for n, sp in p["fields"]:
                if sp["k"] in ("wild",) or (sp["k"] == "bind" and not sp.get("sub")):
                    continue
                i = self.fieldpos[(p["adt"], p["variant"], n)]
                r = band(r, self.pat_test(sp, self.getf(v, p["adt"], p["variant"], i)))
            return r
        if k == "leaf":
            r = TRUE
            for n, sp in p["fields"]:
                r = band(r, self.pat_test(sp, self.leaf_field(p, v, n)))
            return r
        if k == "const":
            return self.const_eq(v, p["lit"], p.get("ty"))
        if k == "range":
            r = TRUE
            if p.get("lo") is not None:
                r = band(r, le(self.lit_int(p["lo"]), v))
            if p.get("hi") is not None:
                hi = self.lit_int(p["hi"])
                r = band(r, le(v, hi) if p.get("incl", True) else lt(v, hi))
            return r
        if k == "or":
            r = FALSE
            for sp in p["pats"]:
                r = bor(r, self.pat_test(sp, v))
            return r
        if k == "slice":
            return self.slice_pat(p, v)[0]
        raise Unsupported("pattern " + k)

    def leaf_field(self, p, v, n):
        t = p.get("ty")
        while t is not None and t[0] == "ref":
            t = t[2]
        if t is not None and t[0] == "adt":
            vn = SINGLE.get(t[1])
            return self.getf(v, t[1], vn, self.fieldpos[(t[1], vn, n)])
        return tproj(v, int(n))

    def slice_pat(self, p, v):
        pre, mid, suf = p.get("prefix", []), p.get("slice"), p.get("suffix", [])
        n = length(v)
        k = len(pre) + len(suf)
        c = eqi(n, num(k)) if mid is None else le(num(k), n)
        binds = []
        for i, sp in enumerate(pre):
            binds.append((sp, elt(v, num(i))))
        for j, sp in enumerate(suf):
            binds.append((sp, elt(v, sub(n, num(len(suf) - j)))))
        if mid is not None:
            binds.append((mid, self.models.subseq(self, v, num(len(pre)), sub(n, num(len(suf))))))
        for sp, x in binds:
            c = band(c, self.pat_test(sp, x))
        return c, binds

    def lit_int(self, l):
        if isinstance(l, dict):
            l = l["lit"]
        if l[0] == "int":
            return num(int(l[1]))
        if l[0] == "char":
            return num(l[1] if isinstance(l[1], int) else ord(l[1]))
        raise Unsupported("range bound %r" % (l,))

    def const_eq(self, v, l, ty):
        if isinstance(l, dict):
            l = l.get("lit", l)
        if l[0] in ("int", "char"):
            return eqi(v, self.lit_int(l))
        if l[0] == "bool":
            return v if l[1] else bnot(v)
        if l[0] == "str":
            return self.models.teq(v, lit(l[1]))
        if l[0] == "other":
            m = re.match(r"(?:Branch\()?\[((?:\d+_u8(?:, )?)*)\]\)?: &?(?:'\w+ )?str$", l[1])
            if m:
                return self.models.teq(v, lit(bytes(int(x[:-3]) for x in m.group(1).split(", ") if x).decode()))
        raise Unsupported("constant pattern %r" % (l,))

    def bind_pat(self, p, v):
        k = p["k"]
        if k in ("wild", "const", "range", "never"):
            return
        if v.op == "mref" and k == "deref":
            return self.bind_pat(p["sub"], self.read_ref(v) if p["sub"]["k"] not in ("bind",) else self.read_ref(v))
        if k == "bind":
            if p.get("by") in ("refmut", "mutref", "ref mut") and v.op != "mref":
                self.note("by-mutable-reference binding")
            self.st.store = dict(self.st.store)
            self.st.store[(self.frame().id, p["v"])] = v
            if p.get("ty") is not None:
                self.vartypes[p["v"]] = p["ty"]
            if p.get("sub"):
                self.bind_pat(p["sub"], v)
            return
        if k == "deref":
            return self.bind_pat(p["sub"], v)
        if v.op == "mref":
            return self.bind_mref(p, v)
        if k == "variant":
            for n, sp in p["fields"]:
                i = self.fieldpos[(p["adt"], p["variant"], n)]
                self.bind_pat(sp, self.getf(v, p["adt"], p["variant"], i))
            return
        if k == "leaf":
            for n, sp in p["fields"]:
                self.bind_pat(sp, self.leaf_field(p, v, n))
            return
        if k == "or":
            # bindings agree in every alternative: choose by the test
            alts = p["pats"]
            if not self.pat_binds(p):
                return
            self._bind_or(alts, v)
            return
        if k == "slice":
            for sp, x in self.slice_pat(p, v)[1]:
                self.bind_pat(sp, x)
            return
        raise Unsupported("binding " + k)

    def bind_mref(self, p, v):
        """Destructuring a value behind a mutable reference: sub-places become references."""
        k = p["k"]
        steps = []
        if k == "variant":
            for n, sp in p["fields"]:
                steps.append((sp, ("f", p["adt"], p["variant"], self.fieldpos[(p["adt"], p["variant"], n)])))
        elif k == "leaf":
            t = strip(p["ty"])
            for n, sp in p["fields"]:
                if t[0] == "adt":
                    vn = SINGLE.get(t[1])
                    steps.append((sp, ("f", t[1], vn, self.fieldpos[(t[1], vn, n)])))
                else:
                    steps.append((sp, ("t", int(n))))
        else:
            return self.bind_pat(p, self.read_ref(v))
        for sp, s in steps:
            self.bind_pat(sp, mk("mref", v.a[0], v.a[1], v.a[2] + (s,)))

    def pat_binds(self, p):
        if p["k"] == "bind":
            return True
        for x in ([p["sub"]] if p.get("sub") else []) + [f[1] for f in p.get("fields", [])] + list(p.get("pats", [])) \
                + list(p.get("prefix", []) or []) + list(p.get("suffix", []) or []):
            if isinstance(x, dict) and self.pat_binds(x):
                return True
        return False

    def _bind_or(self, alts, v):
        if len(alts) == 1:
            return self.bind_pat(alts[0], v)
        c = self.pat_test(alts[0], v)

        def a():
            self.bind_pat(alts[0], v)
            return UNIT

        def b():
            self._bind_or(alts[1:], v)
            return UNIT
        self.branch(c, a, b)

    def bind_irrefutable(self, p, v):
        self.bind_pat(p, v)

    # ------------------------------------------------------------- expressions
    def eval(self, e):
        h = getattr(self, "e_" + e["k"], None)
        if h is None:
            raise Unsupported("expression " + e["k"])
        return h(e)

    def rv(self, e):
        """Evaluate, reading through mutable references."""
        v = self.eval(e)
        return self.read_ref(v) if v.op == "mref" else v

    def e_block(self, e):
        b = e["b"]
        if b.get("brk"):
            return self.with_target("block", b["scope"], lambda: self.run_block(b))
        return self.run_block(b)

    def run_block(self, b):
        for s in b["stmts"]:
            if s["k"] == "expr":
                self.eval(s["e"])
            elif s["k"] == "let":
                self.run_let(s)
            else:
                raise Unsupported("statement " + s["k"])
        if b.get("expr") is not None:
            return self.eval(b["expr"])
        return UNIT

    def run_let(self, s):
        if s.get("init") is None:
            self.declare(s["pat"])
            return
        v = self.eval(s["init"])
        if s.get("else") is not None:
            c = self.pat_test(s["pat"], v)

            def yes():
                self.bind_pat(s["pat"], v)
                return UNIT

            def no():
                self.run_block(s["else"])
                raise Diverge()
            self.branch(c, yes, no)
            # bindings refined by facts
        else:
            self.bind_pat(s["pat"], v)

    def declare(self, p):
        if p["k"] == "bind":
            if p.get("ty") is not None:
                self.vartypes[p["v"]] = p["ty"]
            self.st.store = dict(self.st.store)
            self.st.store[(self.frame().id, p["v"])] = mk("app", "uninit")

    def e_if(self, e):
        def th():
            self.bind_cond(e["cond"])
            return self.eval(e["then"])

        def el():
            return self.eval(e["else"]) if e.get("else") is not None else UNIT
        return self.cond_branch(e["cond"], lambda: self.eval(e["then"]), el)

    def cond_branch(self, c, th, el):
        """Branch on a condition expression that may contain `let` bindings."""
        k = c["k"]
        if k == "let":
            v = self.eval(c["e"])
            t = self.pat_test(c["pat"], v)

            def yes():
                self.bind_pat(c["pat"], self.simp(v) if v.op != "mref" else v)
                return th()
            return self.branch(t, yes, el)
        if k == "logic" and c["op"] in ("&&", "And", "and") and self.has_let(c):
            return self.cond_branch(c["l"], lambda: self.cond_branch(c["r"], th, el), el)
        if k == "block" and not c["b"]["stmts"] and c["b"].get("expr") is not None and not c["b"].get("brk"):
            return self.cond_branch(c["b"]["expr"], th, el)
        v = self.rv(c)
        return self.branch(v, th, el)

    def has_let(self, c):
        if c["k"] == "let":
            return True
        if c["k"] == "logic":
            return self.has_let(c["l"]) or self.has_let(c["r"])
        if c["k"] == "block" and c["b"].get("expr"):
            return self.has_let(c["b"]["expr"])
        return False

    def e_let(self, e):
        v = self.eval(e["e"])
        return self.pat_test(e["pat"], v)

    def e_logic(self, e):
        a = self.rv(e["l"])
        if e["op"] in ("&&", "And", "and"):
            return self.branch(a, lambda: self.rv(e["r"]), lambda: FALSE)
        return self.branch(a, lambda: TRUE, lambda: self.rv(e["r"]))

    def e_match(self, e):
        v = self.eval(e["e"])
        return self.match_arms(v, e["arms"], 0)

    def match_arms(self, v, arms, i):
        if i >= len(arms):
            raise Diverge()
        arm = arms[i]
        c = self.pat_test(arm["pat"], v)
        if i == len(arms) - 1 and arm.get("guard") is None:
            c = TRUE

        def yes():
            self.bind_pat(arm["pat"], self.simp(v) if v.op not in ("mref",) else v)
            if arm.get("guard") is not None:
                return self.cond_branch(arm["guard"], lambda: self.eval(arm["body"]),
                                        lambda: self.match_arms(v, arms, i + 1))
            return self.eval(arm["body"])
        return self.branch(c, yes, lambda: self.match_arms(v, arms, i + 1))

    def e_lit(self, e):
        l = e["lit"]
        if l[0] == "int":
            n = int(l[1])
            if e.get("neg"):
                n = -n
            return num(n)
        if l[0] == "char":
            return num(l[1] if isinstance(l[1], int) else ord(l[1]))
        if l[0] == "str":
            return lit(l[1])
        if l[0] == "bool":
            return TRUE if l[1] else FALSE
        if l[0] == "bytes":
            return mk("const", "bytes", tuple(l[1]))
        if l[0] == "float":
            return mk("flt", str(l[1]))
        return mk("const", str(l[0]), str(l[1:]))

    def e_var(self, e):
        p = (self.var_key(e["v"]), ())
        return self.read_place(p)

    e_upvar = e_var

    def e_field(self, e):
        v = self.eval(e["e"])
        if v.op == "mref":
            v = self.read_ref(v)
        return self.project(v, self.field_step(e))

    def e_deref(self, e):
        v = self.eval(e["e"])
        if v.op == "mref":
            return self.read_ref(v)
        return v

    def e_borrow(self, e):
        if e.get("mut"):
            p = self.place(e["e"])
            if p is None:
                return self.temp_ref(self.eval(e["e"]))
            v = self.st.store.get(p[0])
            if v is not None and v.op == "mref" and p[1]:
                return mk("mref", v.a[0], v.a[1], v.a[2] + p[1])
            return mk("mref", p[0][0], p[0][1], p[1])
        return self.rv(e["e"])

    def e_reborrow(self, e):
        return self.eval(e["e"])

    def e_assign(self, e):
        v = self.eval(e["r"])
        p = self.place(e["l"])
        if p is None:
            raise Unsupported("assignment target")
        self.assign(p, v)
        return UNIT

    def assign(self, p, v):
        cur = self.st.store.get(p[0])
        if p[1] and cur is not None and cur.op == "mref":
            return self.write_ref(mk("mref", cur.a[0], cur.a[1], cur.a[2] + p[1]), v)
        self.write_place(p, v)

    def e_assignop(self, e):
        r = self.rv(e["r"])
        p = self.place(e["l"])
        if p is None:
            raise Unsupported("assignment target")
        cur = self.rv(e["l"])
        ty = strip(self.ty(e["l"].get("ty"))) if e["l"].get("ty") else None
        self.assign(p, self.binop(e["op"].replace("Assign", ""), cur, r, ty))
        return UNIT

    def e_bin(self, e):
        a = self.rv(e["l"])
        b = self.rv(e["r"])
        ty = strip(self.ty(e["l"]["ty"])) if e["l"].get("ty") else None
        return self.binop(e["op"], a, b, ty)

    def binop(self, op, a, b, ty):
        op = OPS.get(op, op)
        isb = ty == ("prim", "bool")
        isf = ty is not None and ty[0] == "prim" and ty[1] in ("f64", "f32")
        if isf:
            return self.models.float_op(op, a, b)
        if isb or op in ("&", "|", "^") and (is_bool(a) or is_bool(b)):
            if op == "&":
                return band(a, b)
            if op == "|":
                return bor(a, b)
            if op in ("^", "!="):
                return ite(a, bnot(b), b)
            if op == "==":
                return ite(a, b, bnot(b))
        if op == "+":
            return self.arith(add(a, b), ty)
        if op == "-":
            return self.arith(sub(a, b), ty)
        if op == "*":
            return self.arith(mul(a, b), ty)
        if op == "<":
            return lt(a, b)
        if op == "<=":
            return le(a, b)
        if op == ">":
            return lt(b, a)
        if op == ">=":
            return le(b, a)
        if op == "==":
            return eqi(a, b)
        if op == "!=":
            return bnot(eqi(a, b))
        if is_num(a) and is_num(b):
            x, y = a.a[0], b.a[0]
            if op == "<<":
                return num(x << y)
            if op == ">>":
                return num(x >> y)
            if op == "&":
                return num(x & y)
            if op == "|":
                return num(x | y)
            if op == "/" and y:
                return num(abs(x) // abs(y) * (1 if x * y >= 0 else -1))
            if op == "%" and y:
                return num((abs(x) % abs(y)) * (1 if x >= 0 else -1))
        if op == "<<" and is_num(b):
            return scale(a, 1 << b.a[0])
        if op == "/" or op == "%":
            z = self.decide(eqi(b, num(0)))
            if z is not False:
                self.panic_unless(bnot(eqi(b, num(0))), "division by zero")
        r = lapp("int" + op, a, b)
        if ty and ty[0] == "prim":
            TYPED[r] = ty[1]
        return r

    def arith(self, r, ty):
        if ty is not None and ty[0] == "prim" and ty[1] in PRIM_RANGE:
            lo, hi = PRIM_RANGE[ty[1]]
            c = band(le(num(lo), r), le(r, num(hi)))
            if self.decide(c) is not True:
                self.panic_unless(c, "arithmetic overflow")
                # values continue as mathematical integers under the no-overflow assumption
                c = self.simp(c)
                if c is not FALSE:
                    self.st.facts = self.st.facts.assume(c)
        return r

    def e_un(self, e):
        v = self.rv(e["e"])
        if e["op"] in ("!", "Not", "not"):
            t = self.ty(e["ty"])
            if t == ("prim", "bool"):
                return bnot(v)
            return lapp("bitnot", v)
        t = self.ty(e["ty"])
        if t[0] == "prim" and t[1] in ("f64", "f32"):
            if v.op == "flt":
                return mk("flt", "-" + v.a[0])
            return lapp("fneg", v)
        return self.arith(neg(v), t)

    def e_cast(self, e):
        v = self.rv(e["e"])
        to = self.ty(e["ty"])
        frm = self.ty(e["e"]["ty"]) if e["e"].get("ty") else None
        return self.cast(v, frm, to)

    def cast(self, v, frm, to):
        if to[0] == "prim" and to[1] in PRIM_RANGE:
            if frm == ("prim", "bool"):
                return ite(v, num(1), num(0))
            lo, hi = PRIM_RANGE[to[1]]
            if frm is not None and frm[0] == "prim" and frm[1] in PRIM_RANGE:
                l2, h2 = PRIM_RANGE[frm[1]]
                if lo <= l2 and h2 <= hi:
                    return v
                c = self.simp(band(le(num(lo), v), le(v, num(hi))))
                if c is TRUE:
                    return v
                r = lapp("cast:" + to[1], v)
                TYPED[r] = to[1]
                if c is FALSE:
                    return r
                return ite(c, v, r)
            r = lapp("cast:" + to[1], v)
            TYPED[r] = to[1]
            return r
        if to[0] == "prim" and to[1] in ("f64", "f32"):
            return lapp("tofloat", v)
        return v

    def e_coerce(self, e):
        return self.eval(e["e"])

    def e_tuple(self, e):
        return tup(*[self.eval(x) for x in e["es"]])

    def e_array(self, e):
        return cat(*[unit(self.eval(x)) for x in e["es"]])

    def e_repeat(self, e):
        v = self.eval(e["e"])
        return mk("app", "?repeat", v)

    def e_adt(self, e):
        adt, variant = e["adt"], e["variant"]
        fs = None
        for vn, f in self.prog.adts[adt]["variants"]:
            if vn == variant:
                fs = f
        vals = {}
        for n, x in e["fields"]:
            vals[n] = self.eval(x)
        base = self.rv(e["base"]) if isinstance(e.get("base"), dict) else None
        out = []
        for i, (n, _, _) in enumerate(fs):
            if n in vals:
                out.append(vals[n])
            elif base is not None:
                out.append(self.getf(base, adt, variant, i))
            else:
                out.append(mk("app", "?field"))
        return con(adt, variant, *out)

    def e_closure(self, e):
        fr = self.frame()
        self.made = getattr(self, "made", 0) + 1
        return mk("clo", e["id"], fr.id, self.keep_frame(fr))

    _frames = None

    def keep_frame(self, fr):
        if self._frames is None:
            self._frames = {}
        self._frames[fr.id] = fr
        return 0

    def e_fn(self, e):
        c = e["f"]
        return self.fnval(c)

    def fnval(self, c):
        args = tuple(self.ty(a) for a in c.args)
        k = mk("fn", c.key(), c.id, args)
        self._fnc = getattr(self, "_fnc", {})
        self._fnc[k] = c
        return k

    def e_zst(self, e):
        t = self.ty(e["ty"])
        if t[0] == "fndef":
            return self.fnval(t[1])
        return UNIT

    def e_const(self, e):
        c = e["f"]
        if e.get("scalar") is not None:
            s = e["scalar"]
            t = self.ty(e["ty"])
            try:
                n = int(s)
                if t[0] == "prim" and t[1] == "bool":
                    return TRUE if n else FALSE
                if t[0] == "prim" and t[1] in PRIM_RANGE:
                    lo, hi = PRIM_RANGE[t[1]]
                    if lo < 0 and n > hi:
                        n -= (hi - lo + 1)
                    return num(n)
            except (ValueError, TypeError):
                pass
        fn = self.prog.fns.get(c.res.id if c.res else c.id)
        if fn is not None and fn.body is not None:
            return self.run_fn(fn, [], {})
        m = self.models.CONSTS.get(c.key()) or self.models.CONSTS.get(c.id)
        if m is not None:
            return m
        return mk("const", c.key())

    def e_static(self, e):
        fn = self.prog.fns.get(e["id"])
        if fn is not None and fn.body is not None and not fn.mut:
            return mk("const", "static", e["id"])
        return mk("const", "static", e["id"])

    def e_constblock(self, e):
        raise Unsupported("const block")

    def e_return(self, e):
        v = self.eval(e["e"]) if e.get("e") is not None else UNIT
        fr = self.frame()
        for t in reversed(fr.targets):
            if t.kind == "fn":
                return self.exit_to(t, v)
        raise Unsupported("return")

    def e_break(self, e):
        v = self.eval(e["e"]) if e.get("e") is not None else UNIT
        for t in reversed(self.frame().targets):
            if t.label == e["label"] and t.kind in ("loop", "block"):
                return self.exit_to(t, v)
        raise Unsupported("break")

    def e_continue(self, e):
        for t in reversed(self.frame().targets):
            if t.label == e["label"] and t.kind == "cont":
                return self.exit_to(t, UNIT)
        raise Unsupported("continue")

    def e_index(self, e):
        s = self.rv(e["l"])
        i = self.rv(e["i"])
        return self.models.index(self, s, i)

    # ------------------------------------------------------------- calls
    def e_call(self, e):
        f = e.get("f")
        if f is None:
            fv_ = self.eval(e["fun"])
            args = [self.eval(a) for a in e["args"]]
            return self.call_value(fv_, args)
        args = [self.eval(a) for a in e["args"]]
        return self.call(f, args, e)

    def call(self, c, args, e=None):
        targs = tuple(self.ty(a) for a in c.args)
        return self.call_key(c, targs, args, e)

    def call_key(self, c, targs, args, e=None):
        if c.ctor:
            adt, variant = c.ctor[0], c.ctor[1]
            return con(adt, variant, *args)
        rty = self.ty(e["ty"]) if e is not None and e.get("ty") else None
        key = c.key()
        # explicit models first for a few combinators that rustc resolves to library impls
        r = c.res
        if r is not None and r.id in self.prog.fns and not self.skip_inline(r, key):
            if r.ctor:
                return con(r.ctor[0], r.ctor[1], *args)
            v = self.call_fn(r.id, args, tuple(self.ty(a) for a in r.args))
            if v is not None:
                return v
        if c.id in self.prog.fns and self.prog.fns[c.id].body is not None and c.kind != "trait":
            v = self.call_fn(c.id, args, targs)
            if v is not None:
                return v
        if c.kind == "trait" and not self.skip_inline(c, key):
            v = self.trait_call(c.trait, c.name, targs, args, rty)
            if v is not None:
                return v
        p = self.models.PANICS_UNLESS.get(key)
        if p is not None:
            self.panic_unless(self.simp(p(*[self.read_ref(a) if a.op in ("mref", "ite") else a for a in args])), key.rsplit("::", 1)[1])
        m = self.models.MODELS.get(key)
        if m is not None:
            return m(self, args, targs, rty)
        return self.unknown_call(key, args, rty, targs)

    def skip_inline(self, c, key):
        if key in ("core::clone::Clone::clone",):
            return True
        return False

    def trait_call(self, trait, name, targs, args, rty):
        if not targs:
            return None
        im = self.find_impl(trait, targs)
        if im is None:
            return None
        impl, s = im
        mid = impl.methods.get(name)
        fn = self.prog.fns.get(mid) if mid else None
        if fn is None:
            # default method of a local trait
            did = trait + "::" + name
            fn = self.prog.fns.get(did)
            if fn is None or fn.body is None:
                return None
            sub = {g: t for g, t in zip(fn.generics, targs)}
            return self.call_fn(fn.id, args, tuple(sub.get(g, ("unknown",)) for g in fn.generics))
        n_impl = len(impl.args)
        rest = list(targs[n_impl:])
        sub = dict(s)
        own = [g for g in fn.generics if g not in sub]
        for g, t in zip(own, rest):
            sub[g] = t
        return self.call_fn(fn.id, args, tuple(sub.get(g, ("unknown",)) for g in fn.generics))

    def has_method(self, trait, targs, name):
        im = self.find_impl(trait, targs)
        return im is not None and name in im[0].methods

    def unknown_call(self, key, args, rty, targs=()):
        vals = []
        refs = []
        for a in args:
            if a.op == "mref":
                refs.append(a)
                vals.append(self.read_ref(a))
            else:
                vals.append(a)
        pure = self.models.PURE.get(key)
        nm = pure if pure else "?" + key
        if not pure:
            self.note("call of " + key)
        r = mkapp(nm, *vals)
        if rty is not None:
            self.type_result(r, rty)
        for i, a in enumerate(refs):
            self.write_ref(a, mkapp(nm + "#out%d" % i, *vals))
        for a in vals if not key.startswith("nom::") else ():
            for k in sorted(self.clo_mutated(a), key=str):
                self.note("closure that changes its environment handed to " + key)
                self.write_place((k, ()), mk("app", "?captured", self.st.store[k]))
        return r

    def type_result(self, r, rty):
        s = strip(rty)
        if s[0] == "prim" and s[1] in PRIM_RANGE and r.op in ("app", "proj", "var"):
            TYPED.setdefault(r, s[1])
        if (s == ("prim", "str") or (s[0] == "adt" and s[1] == "alloc::string::String")) and r.op in ("app", "proj"):
            TEXTS.add(r)

    def call_value(self, f, args):
        """Call of a first-class function value."""
        if f.op == "mref":
            f = self.read_ref(f)
        if f.op == "ite":
            return self.branch(f.a[0], lambda: self.call_value(f.a[1], args), lambda: self.call_value(f.a[2], args))
        if f.op == "clo":
            fn = self.prog.fns.get(f.a[0])
            if fn is None:
                raise Unsupported("closure body " + f.a[0])
            fr = self._frames[f.a[1]]
            return self.run_fn(fn, args, fr.subst, fr)
        if f.op == "fn":
            c = self._fnc[f]
            return self.call_key(c, f.a[2], args, None)
        if f.op == "app" and f.a[0] == "pyfn":
            return PYFN[f.a[1]](self, *args)
        if f.op == "const" and f.a[0] == "static":
            return self.call_value(self.force_static(f), args)
        vals = [self.read_ref(a) if a.op == "mref" else a for a in args]
        return mk("app", "call", f, *vals)

    def force_static(self, t):
        """Value of a static (`LazyLock::new(f)` is forced)."""
        if t.op == "const" and t.a[0] == "static":
            fn = self.prog.fns.get(t.a[1])
            if fn is None or fn.body is None:
                return mk("app", "static", t)
            v = self.run_fn(fn, [], {})
            return self.force_static(v)
        if t.op == "app" and t.a[0] == "lazy":
            return self.call_value(t.a[1], [])
        return t

    # ------------------------------------------------------------- loops
    def e_loop(self, e):
        drv = self.find_driver(e)
        if drv is not None:
            return self.iter_loop(e, *drv)
        return self.while_loop(e)

    def find_driver(self, e):
        """Recognise `loop { match next(&mut it) { None => break, Some(p) => body } }`, its
        `while let` form and equivalents: the loop's first action is to take the next element of
        an outer iterator and it stops when there is none.  -> (iterator var, taker)"""
        b = e["body"]
        while True:
            if b["k"] == "block":
                bb = b["b"]
                if not bb["stmts"] and bb.get("expr") is not None:
                    b = bb["expr"]
                    continue
                if len(bb["stmts"]) >= 1 and bb["stmts"][0]["k"] == "expr":
                    b = bb["stmts"][0]["e"]
                    continue
                if bb["stmts"] and bb["stmts"][0]["k"] == "let" and bb["stmts"][0].get("init") is not None:
                    b = bb["stmts"][0]["init"]
                    continue
                return None
            if b["k"] == "match":
                b = b["e"]
                continue
            if b["k"] == "if":
                b = b["cond"]
                continue
            if b["k"] == "let":
                b = b["e"]
                continue
            break
        if b["k"] == "call" and isinstance(b["f"], load.Callee) and b["f"].key() in TAKERS:
            a = b["args"][0]
            while a["k"] in ("borrow", "deref", "reborrow"):
                a = a["e"]
            if a["k"] in ("var", "upvar"):
                return a["v"], b["f"].key(), b
        return None

    def mutated(self, body):
        """Root store keys that the loop body may change."""
        keys = set()
        store = self.st.store

        def root(e):
            while e["k"] in ("field", "deref", "index", "borrow", "reborrow"):
                e = e["l"] if e["k"] == "index" else e["e"]
            if e["k"] in ("var", "upvar"):
                return e["v"]
            return None

        def addv(v):
            k = self.var_key(v)
            x = store.get(k)
            n = 0
            while x is not None and x.op == "mref" and n < 10:
                k = (x.a[0], x.a[1])
                x = store.get(k)
                n += 1
            if k in store:
                keys.add(k)

        def walk(x):
            if isinstance(x, dict):
                k = x.get("k")
                if k in ("assign", "assignop"):
                    v = root(x["l"])
                    if v:
                        addv(v)
                elif k == "borrow" and x.get("mut"):
                    v = root(x["e"])
                    if v:
                        addv(v)
                elif k in ("var", "upvar"):
                    kk = self.var_key(x["v"])
                    y = store.get(kk)
                    if y is not None and y.op == "mref":
                        addv(x["v"])
                    elif y is not None:
                        keys.update(self.clo_mutated(y))
                elif k == "closure":
                    f = self.prog.fns.get(x["id"])
                    if f is not None and f.body is not None:
                        walk(f.body["expr"])
                for a, y in x.items():
                    if a != "ty":
                        walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(body)
        return keys

    def clo_mutated(self, t):
        """Root store keys that calling the closures inside the value t may change."""
        keys = set()
        if t.op not in ("clo", "con", "tup", "app", "ite", "cat", "unit"):
            return keys
        busy = self.__dict__.setdefault("_clo_busy", set())
        for x in all_terms(t):
            if x.op != "clo" or x in busy:
                continue
            f = self.prog.fns.get(x.a[0])
            if f is None or f.body is None:
                continue
            busy.add(x)
            self.stack.append(self._frames[x.a[1]])
            try:
                keys |= self.mutated(f.body["expr"])
            finally:
                self.stack.pop()
                busy.discard(x)
        return keys

    def iter_loop(self, e, var, takekey, takecall):
        k = self.var_key(var)
        it = self.read_ref(self.st.store[k])
        seq = self.models.as_seq(self, it)
        back = takekey.endswith("next_back")
        if takekey.endswith("::pop"):
            back = True
        if back:
            seq = self.models.rev(self, seq)
        mut = self.mutated(e["body"])
        # is the iterator used elsewhere in the body?
        uses = self.count_var(e["body"], var)
        if uses > 1:
            self.note("iterator advanced inside its own loop")
            return self.opaque_loop(e, mut)
        mut.discard(k)
        root = self.st.store[k]
        while root.op == "mref":
            mut.discard((root.a[0], root.a[1]))
            root = self.st.store[(root.a[0], root.a[1])]

        def step(x):
            self.write_place((k, ()), mk("app", "taking", some(x)))
            self.loop_body(e)

        def run():
            self.run_seq(seq, step, mut)
            # the final take finds nothing: run the body once in that mode
            self.write_place((k, ()), mk("app", "taking", NONE))
            self.loop_body(e)
            raise Diverge()
        return self.with_target("loop", e["label"], run)

    def loop_body(self, e):
        def b():
            self.eval(e["body"])
            return UNIT
        self.with_target("cont", e["label"], b)

    def count_var(self, x, var):
        n = 0
        if isinstance(x, dict):
            if x.get("k") in ("var", "upvar") and x.get("v") == var:
                return 1
            if x.get("k") == "closure":
                f = self.prog.fns.get(x["id"])
                if f is not None and f.body is not None:
                    n += self.count_var(f.body["expr"], var)
            for a, y in x.items():
                if a != "ty":
                    n += self.count_var(y, var)
        elif isinstance(x, list):
            for y in x:
                n += self.count_var(y, var)
        return n

    def opaque_loop(self, e, mut):
        for k in mut:
            self.st.store = dict(self.st.store)
            self.st.store[k] = mk("app", "?loop", self.st.store[k])
        return mk("app", "?loopvalue")

    def run_seq(self, seq, step, mut):
        """Run step(x) for the elements of seq in order (in the current state)."""
        seq = self.simp(seq)
        op = seq.op
        if seq is NIL:
            return UNIT
        if op == "ite":
            def a():
                self.run_seq(seq.a[1], step, mut)
                return UNIT

            def b():
                self.run_seq(seq.a[2], step, mut)
                return UNIT
            return self.branch(seq.a[0], a, b)
        if op == "cat":
            for p in seq.a:
                self.run_seq(p, step, mut)
            return UNIT
        if op == "unit":
            step(seq.a[0])
            return UNIT
        if op == "lit" and len(seq.a[0]) <= 64:
            for c in seq.a[0]:
                step(num(ord(c)))
            return UNIT
        if op == "app" and seq.a[0] == "str_bytes" and seq.a[1].op == "lit" and len(seq.a[1].a[0]) <= 64:
            for c in seq.a[1].a[0].encode():
                step(num(c))
            return UNIT
        if op == "each":
            nb, body = open_(seq)
            self.summarise(nb, seq.a[1], seq.a[2], lambda: self.run_seq(body, step, mut), mut)
            return UNIT
        b = fresh()
        self.summarise(b, length(seq), num(1), lambda: step(self.models.elem(self, seq, bv(b))), mut)
        return UNIT

    def all_targets(self):
        out = []
        for fr in self.stack:
            out.extend(fr.targets)
        return out

    def summarise(self, b, n, step, inner, mut):
        """Summary of `for b in (0..n).step_by(step) { inner }` acting on the store keys `mut`."""
        s0 = self.st
        keys = sorted((k for k in mut if k in s0.store), key=str)
        init = {k: s0.store[k] for k in keys}
        closed = {}       # key -> closed form (counters)
        for attempt in range(3):
            sts = {}
            store = dict(s0.store)
            for k in keys:
                if k in closed:
                    store[k] = closed[k]
                else:
                    i = fresh()
                    sts[k] = mk("st", i)
                    store[k] = sts[k]
                    if init[k] in TYPED or is_num(init[k]):
                        pass
            stids = {t.a[0] for t in sts.values()}
            f = s0.facts.under(b, self.simp(n))
            if f.dead:
                self.st = s0
                return
            targets = self.all_targets()
            marks = [len(t.exits) for t in targets]
            npan = len(self.panics)
            self.st = State(store, f, s0.pc)
            pclen = len(s0.pc)
            try:
                inner()
                live = True
            except Diverge:
                live = False
            s1 = self.st
            new_exits = []
            for t, m in zip(targets, marks):
                for x in t.exits[m:]:
                    new_exits.append((t, x))
                del t.exits[m:]
            nxt = {k: s1.facts.simp(s1.store[k]) for k in keys} if live else dict(sts)
            # counters
            found = False
            if live and is_num(step):
                for k in keys:
                    if k in closed:
                        continue
                    if nxt[k].op in ("lin", "st"):
                        d = sub(nxt[k], sts[k])
                        if d is not num(0) and not (fv(d) & (stids | {b})) and step.a[0] == 1 and not new_exits:
                            closed[k] = add(init[k], mul(d, bv(b)))
                            found = True
                        elif d is not num(0) and not (fv(d) & (stids | {b})) and step.a[0] == 1:
                            closed[k] = add(init[k], mul(d, bv(b)))
                            found = True
            if not found:
                break
        self.st = s0
        final = {}
        for k in closed:
            # after n iterations
            cnt = ite(ge0(n), n, num(0))
            final[k] = subst(closed[k], b, cnt)
        general = []
        accs = {}
        for k in keys:
            if k in closed:
                continue
            st, nx = sts[k], nxt[k]
            if nx is st:
                final[k] = init[k]
                continue
            d = self.acc_delta(nx, st, stids)
            if d is not None:
                accs[k] = d
                continue
            g = self.latch(nx, st, stids, b)
            if g is not None and not new_exits:
                kind, c, val = g
                E = exists(b, n, step, c)
                final[k] = ite(E, val, init[k]) if kind == "set" else (
                    band(init[k], bnot(E)) if kind == "and" else bor(init[k], E))
                continue
            general.append(k)
        # one exit per target: (target, value, store) chosen by the condition under which each is taken
        merged = []
        for t, (cond, v, es) in new_exits:
            rel = self.relative(cond, s0, t)      # cond is relative to t.pclen
            if t.kind == "fn":
                es = {k: x for k, x in es.items() if k[0] < t.frame.id}
            for m in merged:
                if m[0] is t:
                    m[1] = bor(m[1], rel)
                    m[2] = self.mergev(rel, v, m[2])
                    m[3] = self.merge_store(rel, es, m[3])
                    break
            else:
                merged.append([t, rel, v, es])
        new_exits = [(m[0], (m[1], m[2], m[3])) for m in merged]
        exit_conds = [m[1] for m in merged]
        mention = set()
        for c in exit_conds:
            mention |= fv(c)
        acc_ids = {sts[k].a[0] for k in accs}
        unchanged_sub = {sts[k].a[0]: init[k] for k in keys if k not in closed and k in final and nxt[k] is sts[k]}
        if not general and not (mention & acc_ids):
            G = FALSE
            for c in exit_conds:
                G = bor(G, c)
            if unchanged_sub:
                G = substm(G, unchanged_sub)
                accs = {k: substm(d, unchanged_sub) for k, d in accs.items()}
            G = s0.facts.simp(G) if not (fv(G) & {b}) else G
            for k, d in accs.items():
                final[k] = cat(init[k], each(b, n, step, d))
            E = exists(b, n, step, G) if G is not FALSE else FALSE
            E = self.simp(E)
            if E is not FALSE:
                fi = first(b, n, step, G)
                at = {b: fi}
                for k, d in accs.items():
                    at[sts[k].a[0]] = cat(init[k], self.upto(b, fi, step, d))
                for i_, v_ in unchanged_sub.items():
                    at[i_] = v_
                rest = E
                for (t, (cond, v, es)), rc in zip(new_exits, exit_conds):
                    if len(new_exits) == 1:
                        c = E
                    else:
                        c = band(E, substm(rc, at))
                    pre = conj(s0.pc[t.pclen:])
                    es2 = {}
                    for kk, vv in es.items():
                        es2[kk] = substm(vv, at) if fv(vv) & at.keys() else vv
                    t.exits.append((band(pre, c), substm(v, at), es2))
                nE = bnot(E)
                st = State(dict(s0.store), s0.facts.assume(nE), s0.pc + (nE,))
                st.store.update(final)
                self.st = st
                if st.facts.dead:
                    raise Diverge()
                return
            st = State(dict(s0.store), s0.facts, s0.pc)
            st.store.update(final)
            self.st = st
            return
        # general fold with state
        gk = [k for k in keys if k not in closed and nxt[k] is not sts[k]]
        self.general_loop(b, n, step, gk, sts, init, nxt, live, new_exits, exit_conds, s0, s1, final, unchanged_sub)

    def relative(self, cond, s0, t):
        pre = s0.pc[t.pclen:]
        if not pre:
            return cond
        f = Facts()
        for c in pre:
            f = f.assume(c)
        return f.simp(cond)

    def upto(self, b, fi, step, d):
        """Elements accumulated before index fi."""
        nb = fresh()
        return each(nb, fi, step, subst(d, b, bv(nb)))

    def acc_delta(self, nx, st, stids):
        if nx is st:
            return NIL
        if nx.op == "cat" and nx.a and nx.a[0] is st:
            r = cat(*nx.a[1:])
            return r if not (fv(r) & stids) else None
        if nx.op == "ite" and not (fv(nx.a[0]) & stids):
            h = self.acc_delta(nx.a[1], st, stids)
            l = self.acc_delta(nx.a[2], st, stids)
            if h is None or l is None:
                return None
            return ite(nx.a[0], h, l)
        return None

    def latch(self, nx, st, stids, b):
        i = st.a[0]
        t = subst(nx, i, TRUE)
        f = subst(nx, i, FALSE)
        if is_bool(t) and is_bool(f) and not (fv(t) & stids) and not (fv(f) & stids):
            if f is FALSE:
                return ("and", bnot(t), None)
            if t is TRUE:
                return ("or", f, None)
        if nx.op == "ite" and not (fv(nx.a[0]) & stids):
            c, h, l = nx.a
            if l is st and not (fv(h) & (stids | {b})):
                return ("set", c, h)
            if h is st and not (fv(l) & (stids | {b})):
                return ("set", bnot(c), l)
        return None

    def general_loop(self, b, n, step, gk, sts, init, nxt, live, new_exits, exit_conds, s0, s1, final, unchanged):
        adt = "@loop"
        # store keys carried out by the exits
        body = con("@next", "next", *[nxt[k] for k in gk]) if live else BOT
        kinds = []
        for j in range(len(new_exits) - 1, -1, -1):
            t, (cond, v, es) = new_exits[j]
            payload = [v] + [es[k] for k in gk if k in es]
            # other store entries changed on the exit path only
            others = [kk for kk, vv in es.items() if kk in s0.store and kk not in gk and vv is not s0.store[kk]
                      and kk not in final]
            if others:
                self.note("loop exit changes other variables")
            body = ite(exit_conds[j], con("@next", "exit%d" % j, *payload), body)
        if unchanged:
            body = substm(body, unchanged)
        names = ["done"] + ["exit%d" % j for j in range(len(new_exits))]
        adt = "@loop%d" % len(new_exits)
        VARIANTS[adt] = names
        if len(names) == 1:
            SINGLE[adt] = "done"
        L = loop(b, n, step, [sts[k].a[0] for k in gk], [init[k] for k in gk], body, adt)
        L = self.canon_loop(L, adt)
        st = State(dict(s0.store), s0.facts, s0.pc)
        st.store.update(final)
        rest = TRUE
        for j, (t, (cond, v, es)) in enumerate(new_exits):
            c = is_variant(L, adt, "exit%d" % j)
            pre = conj(s0.pc[t.pclen:])
            es2 = dict(s0.store)
            es2.update(final)
            for q, k in enumerate([k for k in gk if k in es]):
                es2[k] = proj(L, adt, "exit%d" % j, 1 + q)
            t.exits.append((band(pre, c), proj(L, adt, "exit%d" % j, 0), es2))
        for q, k in enumerate(gk):
            st.store[k] = proj(L, adt, "done", q)
        if new_exits:
            c = is_variant(L, adt, "done")
            st.pc = st.pc + (c,)
            st.facts = st.facts.assume(c)
        self.st = st

    def canon_loop(self, L, adt):
        return L

    # ---- loops driven by an integer variable
    def while_loop(self, e):
        mut = self.mutated(e["body"])
        s0 = self.st
        keys = sorted((k for k in mut if k in s0.store), key=str)
        init = {k: s0.store[k] for k in keys}
        try:
            r = self.try_while(e, mut, s0, keys, init)
        except Unsupported as ex:
            self.st = s0
            self.note("loop: %s" % ex)
            return self.opaque_loop(e, mut)
        if r is None:
            self.st = s0
            self.note("loop without a recognised bound in " + self.frame().fn.id)
            return self.opaque_loop(e, mut)
        return r

    nsplit = 0

    def resplit(self, e, mut):
        s0 = self.st
        keys = sorted((k for k in mut if k in s0.store), key=str)
        init = {k: s0.facts.simp(s0.store[k]) for k in keys}
        for k in keys:
            if init[k] is not s0.store[k]:
                s0.store = dict(s0.store)
                s0.store[k] = init[k]
        r = self.try_while(e, mut, s0, keys, init)
        if r is None:
            raise Unsupported("loop without a recognised bound in " + self.frame().fn.id)
        return r

    def seqish(self, t):
        while t.op == "ite":
            t = t.a[1]
        return t.op in ("cat", "each", "unit", "lit")

    def invariant_atom(self, t, stids, facts, seen=None):
        """An undecided condition of the decision diagram t that no state variable occurs in."""
        seen = set() if seen is None else seen
        if t in seen:
            return None
        seen.add(t)
        if t.op == "ite":
            c = t.a[0]
            if not (fv(c) & stids):
                d = facts.simp(c)
                if d is not TRUE and d is not FALSE:
                    return c
                return self.invariant_atom(t.a[1] if d is TRUE else t.a[2], stids, facts, seen)
            for x in t.a[1:]:
                r = self.invariant_atom(x, stids, facts, seen)
                if r is not None:
                    return r
        if t.op == "con":
            for x in t.a[2:]:
                r = self.invariant_atom(x, stids, facts, seen)
                if r is not None:
                    return r
        return None

    def try_while(self, e, mut, s0, keys, init):
        # 1. one symbolic iteration
        sts = {}
        store = dict(s0.store)
        for k in keys:
            i = fresh()
            sts[k] = mk("st", i)
            store[k] = self.wrap_state(sts[k], k)
            if store[k].op == "con":
                TYPED[sts[k]] = "Integer"
        stids = {t.a[0] for t in sts.values()}
        targets = self.all_targets()
        marks = [len(t.exits) for t in targets]
        tl = Target("loop", e["label"], len(s0.pc), self.frame())
        npan = len(self.panics)
        self.st = State(store, s0.facts, s0.pc)
        fr = self.frame()
        fr.targets.append(tl)
        try:
            try:
                self.loop_body(e)
                live = True
            except Diverge:
                live = False
        finally:
            fr.targets.pop()
        s1 = self.st
        for t, m in zip(targets, marks):
            del t.exits[m:]
        del self.panics[npan:]
        self.st = s0
        if not live:
            # the body always leaves: it runs at most once
            if not tl.exits:
                raise Diverge()
            def once():
                self.eval(e["body"])
                raise Diverge()
            return self.with_target("loop", e["label"], once)
        if not tl.exits:
            return None
        # exits taken before the iteration has changed anything: the loop condition
        guards = [s0.facts.simp(c) for c, v, es in tl.exits
                  if all(es.get(k) is store[k] for k in keys) and v in (None, UNIT)]
        guards = [g for g in guards if g is not FALSE]
        guards.sort(key=lambda g: len(show(g)))
        if not guards:
            return None
        guard = None
        # split on the loop-invariant decisions that the guard and the variable depend on, so that
        # each case has a plain linear guard
        watch = guards[:1]
        for k in keys:
            iv = s1.store[k]
            if iv is not sts[k] and not self.seqish(init[k]):
                u = self.unwrap_state(iv, k)
                watch.append(s1.facts.simp(u))
                watch.append(self.unwrap_state(init[k], k))
        split = None
        for t in watch:
            split = self.invariant_atom(t, stids, s0.facts)
            if split is not None:
                break
        if split is not None:
            if self.nsplit > 12:
                return None
            self.nsplit += 1
            try:
                return self.branch(split, lambda: self.resplit(e, mut), lambda: self.resplit(e, mut))
            finally:
                self.nsplit -= 1
        for k in keys:
            st = sts[k]
            iv = self.unwrap_state(s1.store[k], k)
            iv = s1.facts.simp(iv) if iv is not None else None
            if DBG and iv is not None: print('DBG0', show(iv)[:300])
            if iv is None or iv.op not in ("lin", "st"):
                continue
            d = sub(iv, st)
            if DBG: print('DBG', show(iv)[:300], '| d', show(d)[:200], '| guards', [show(g)[:200] for g in guards])
            if d is num(0) or (fv(d) & stids):
                continue
            # guard: the loop is left when the atom holds (pol) or fails; linear in st
            for g0 in guards:
                atom, pol = (g0, True) if g0.op == "ge0" else (
                    (g0.a[0], False) if g0.op == "ite" and g0.a[0].op == "ge0"
                    and g0.a[1] is FALSE and g0.a[2] is TRUE else (None, None))
                if atom is None:
                    continue
                l = atom.a[0]
                stay = l if not pol else sub(neg(l), num(1))
                c, m = as_lin(stay)
                co = m.get(st)
                if co not in (1, -1) or (fv(stay) & (stids - {st.a[0]})):
                    continue
                other = lin(c, {x: y for x, y in m.items() if x is not st})
                if fv(other) & stids:
                    continue
                up = self.decide(ge0(sub(d, num(1))))
                dn = self.decide(ge0(sub(neg(d), num(1))))
                if co == -1 and up is True:       # other - i >= 0, i grows
                    n = add(sub(other, self.unwrap_state(init[k], k)), num(1))
                    guard = (k, st, d, n, 1, other)
                elif co == 1 and dn is True:      # i + other >= 0, i falls
                    n = add(add(other, self.unwrap_state(init[k], k)), num(1))
                    guard = (k, st, neg(d), n, -1, other)
                if guard:
                    break
            if guard:
                break
        if guard is None:
            return None
        k, st, step, n, sgn, other = guard
        if any(fv(x) & stids for x in (n, step)):
            return None
        rest = set(mut)
        rest.discard(k)
        b = fresh()
        start = self.unwrap_state(init[k], k)
        cur = add(start, bv(b)) if sgn > 0 else sub(start, bv(b))
        nextv = add(cur, step) if sgn > 0 else sub(cur, step)
        stay_next = sub(other, nextv) if sgn > 0 else add(nextv, other)

        def run():
            def inner():
                self.write_place((k, ()), self.wrap_state(cur, k))
                t2 = Target("loop", e["label"], len(self.st.pc), self.frame())
                self.frame().targets.append(t2)
                sb = self.st
                try:
                    self.loop_body(e)
                finally:
                    self.frame().targets.pop()
                # exits: drop those that only anticipate the end of the loop
                keep = []
                for (c, v, es) in t2.exits:
                    f = sb.facts.assume(c)
                    if f.dead:
                        continue
                    ends = f.simp(ge0(stay_next))
                    same = all(es.get(q) is self.st.store.get(q) or
                               f.simp(es.get(q)) is f.simp(self.st.store.get(q))
                               for q in rest if q in es)
                    if ends is FALSE and same:
                        continue
                    keep.append((c, v, es))
                outer = [t for t in self.frame().targets if t.kind == "loop" and t.label == e["label"]]
                if len(keep) < len(t2.exits):
                    # restore liveness: the dropped exits fall through
                    self.st = State(self.st.store, sb.facts, sb.pc)
                    for (c, v, es) in keep:
                        nc = bnot(c)
                        self.st.pc = self.st.pc + (nc,)
                        self.st.facts = self.st.facts.assume(nc)
                if keep:
                    pre = conj(sb.pc[outer[-1].pclen:])
                    for (c, v, es) in keep:
                        outer[-1].exits.append((band(pre, c), v, es))
                self.write_place((k, ()), self.wrap_state(cur, k))
            self.summarise(b, n, step, inner, rest)
            self.write_place((k, ()), mk("app", "?loopvar"))
            return UNIT
        return self.with_target("loop", e["label"], run)

    def wrap_state(self, t, k):
        """State variables of the integer newtype are tracked by their integer."""
        return con(INT_ADT, SINGLE[INT_ADT], t) if self.is_int_var(k) else t

    def is_int_var(self, k):
        t = self.vartypes.get(k[1])
        return t is not None and t[0] == "adt" and t[1] == INT_ADT

    def unwrap_state(self, t, k):
        return proj(t, INT_ADT, SINGLE[INT_ADT], 0) if self.is_int_var(k) else t

    # ------------------------------------------------------------- higher-order helpers
    def under_fn(self, b, n, f):
        """Run f() under the facts of a binder; the state must not change."""
        s0 = self.st
        fa = s0.facts.under(b, self.simp(n))
        if fa.dead:
            return None
        self.st = State(dict(s0.store), fa, s0.pc)
        try:
            r = self.check_pure(s0, f())
        except Diverge:
            r = BOT
        self.st = s0
        return r

    def check_pure(self, s0, r):
        """What closures of lazy iterators change is not followed: it becomes unknown, and so does r."""
        bad = [k for k, v in s0.store.items() if self.st.store.get(k) is not v and k in self.st.store]
        if not bad:
            return r
        self.note("closure with side effects in an iterator chain")
        s0.store = dict(s0.store)
        for k in bad:
            s0.store[k] = mk("app", "?effect", s0.store[k])
        return mk("app", "?impure", r)

    def smap(self, seq, f):
        """Sequence of f(x) (each a sequence) for the elements of seq."""
        seq = self.simp(seq)
        if seq is NIL:
            return NIL
        op = seq.op
        if op == "ite":
            s0 = self.st
            out = []
            for val, br in ((True, seq.a[1]), (False, seq.a[2])):
                self.st = s0.fork(seq.a[0], val)
                if self.st.facts.dead:
                    out.append(BOT)
                else:
                    try:
                        out.append(self.smap(br, f))
                    except Diverge:
                        out.append(BOT)
            self.st = s0
            return ite(seq.a[0], out[0], out[1])
        if op == "cat":
            return cat(*[self.smap(p, f) for p in seq.a])
        if op == "unit":
            s0 = self.st
            self.st = s0.fork()
            try:
                r = self.check_pure(s0, f(seq.a[0]))
            except Diverge:
                r = BOT
            self.st = s0
            return r
        if op == "lit" and len(seq.a[0]) <= 64:
            return cat(*[self.smap(mk("unit", num(ord(c))), f) for c in seq.a[0]])
        if op == "each":
            nb, body = open_(seq)
            r = self.under_fn(nb, seq.a[1], lambda: self.smap(body, f))
            return NIL if r is None else each(nb, seq.a[1], seq.a[2], r)
        b = fresh()
        n = length(seq)
        r = self.under_fn(b, n, lambda: f(self.models.elem(self, seq, bv(b))))
        return NIL if r is None else each(b, n, num(1), r)

    def sexists(self, seq, f):
        """exists x in seq. f(x)"""
        seq = self.simp(seq)
        if seq is NIL:
            return FALSE
        op = seq.op
        if op == "ite":
            return ite(seq.a[0], self._with(seq.a[0], True, lambda: self.sexists(seq.a[1], f)),
                       self._with(seq.a[0], False, lambda: self.sexists(seq.a[2], f)))
        if op == "cat":
            r = FALSE
            for p in seq.a:
                r = bor(r, self.sexists(p, f))
            return r
        if op == "unit":
            return self._with(TRUE, True, lambda: f(seq.a[0]))
        if op == "each":
            nb, body = open_(seq)
            r = self.under_fn(nb, seq.a[1], lambda: self.sexists(body, f))
            return FALSE if r is None else exists(nb, seq.a[1], seq.a[2], r)
        b = fresh()
        n = length(seq)
        r = self.under_fn(b, n, lambda: f(self.models.elem(self, seq, bv(b))))
        return FALSE if r is None else exists(b, n, num(1), r)

    def _with(self, c, val, f):
        s0 = self.st
        self.st = s0.fork(c, val) if c is not TRUE else s0.fork()
        try:
            if self.st.facts.dead:
                return BOT
            return self.check_pure(s0, f())
        except Diverge:
            return BOT
        finally:
            self.st = s0

    def unwrap(self, v, adt, variant, what):
        """Payload of v when it is `variant`; otherwise a panic is recorded."""
        v = self.read_ref(v)
        c = self.simp(is_variant(v, adt, variant))
        if c is TRUE:
            return proj(self.simp(v), adt, variant, 0)
        s0 = self.st
        bad = s0.fork(c, False)
        if not bad.facts.dead:
            self.st = bad
            self.panic(what)
            self.st = s0
        if c is FALSE:
            raise Diverge()
        self.st = s0.fork(c, True)
        if self.st.facts.dead:
            raise Diverge()
        return proj(self.simp(v), adt, variant, 0)


def is_bool(t):
    while t.op == "ite":
        t = t.a[1]
    return t in (TRUE, FALSE) or t.op in ("is", "ge0", "exists") or (t.op == "app" and t.a[0] in BOOLAPPS)


BOOLAPPS = {"teq", "tlt", "eq", "feq", "flt"}
PYFN = {}
DBG = False
OPS = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=",
       "Eq": "==", "Ne": "!=", "BitAnd": "&", "BitOr": "|", "BitXor": "^", "Shl": "<<", "Shr": ">>"}
TAKERS = {"core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back",
          "alloc::collections::vec_deque::VecDeque::pop_front", "alloc::vec::Vec::pop"}
