"""C04: every emitted (location, node) pair is coherent, by induction over query_located."""
from ctx import *
from c_eval import *
from located import LN

NP = "serde_json_path_core::path::NormalizedPath"
PE = "serde_json_path_core::path::PathElement"
VALUE = "serde_json::value::Value"


class Coherence:
    def __init__(self, cx, head, fn, names):
        self.cx, self.head, self.fn = cx, head, fn
        self.cur, self.root, self.par = (mk("var", n) for n in names)
        self.states = set()
        self.n = 0
        self.ids = set(idmap(cx))

    def bad(self, f, path, text):
        self.cx.record("%s#%d" % (self.fn.label(), self.n), Diff(path, mk("var", text), mk("var", "a location leading to that node"))
                       if True else None, where=where(self.fn))

    def unk(self, path, text):
        self.cx.record("%s#%d" % (self.fn.label(), self.n), Unk(path, text), where=where(self.fn))

    def walk(self, t, f, path=()):
        t = f.simp(t)
        if t.op == "ite":
            for v in (True, False):
                g = f.assume(t.a[0], v)
                if not g.dead:
                    self.walk(t.a[1] if v else t.a[2], g, path + ((t.a[0], v),))
            return
        if t is BOT or t is NIL:
            return
        if t.op == "cat":
            for p in t.a:
                self.walk(p, f, path)
            return
        if t.op == "each":
            nb, body = open_(t)
            g = f.under(nb, f.simp(t.a[1]))
            if not g.dead:
                self.walk(body, g, path)
            return
        if t.op == "unit":
            self.pair(t.a[0], f, path)
            return
        if t.op == "con" and t.a[0].endswith("LocatedNodeList"):
            self.walk(t.a[2], f, path)
            return
        if t.op == "app" and t.a[0] in self.ids:
            self.n += 1
            s, c, r, l = t.a[1:5]
            self.check(l, c, f, path, "nested call")
            r0 = Compare().run(r, self.root, f)
            if r0 is not EQ:
                self.cx.record("%s#%d: root passed on" % (self.fn.label(), self.n), r0, where=where(self.fn))
            return
        if t.op in ("proj", "tproj") and t.a[0].op == "loop" or t.op == "loop":
            self.loop(t if t.op == "loop" else t.a[0], f, path)
            return
        if t.op == "st" and t in self.states:
            return
        if t.op == "app" and t.a[0] in ("dedup", "sorted", "filter"):
            return self.walk(t.a[1], f, path)
        self.n += 1
        self.unk(path, "list of unknown origin: " + compare.sh(t))

    def loop(self, L, f, path):
        nb, sts, body = open_loop(L)
        loc = [k for k in range(len(sts)) if looks_located(L.a[4][k], self.ids)]
        for k in loc:
            self.states.add(mk("st", sts[k]))
            self.walk(L.a[4][k], f, path)
        g = f.under(nb, f.simp(L.a[1]))
        if g.dead:
            return

        def nx(b, g, path):
            b = g.simp(b)
            if b.op == "ite":
                for v in (True, False):
                    h = g.assume(b.a[0], v)
                    if not h.dead:
                        nx(b.a[1] if v else b.a[2], h, path + ((b.a[0], v),))
                return
            if b.op == "con" and b.a[0] == "@next":
                off = 0 if b.a[1] == "next" else 1
                for k in loc:
                    if 2 + off + k < len(b.a):
                        self.walk(b.a[2 + off + k], g, path)
        nx(body, g, path)

    def pair(self, x, f, path):
        x = f.simp(x)
        if x.op == "ite":
            for v in (True, False):
                g = f.assume(x.a[0], v)
                if not g.dead:
                    self.pair(x.a[1] if v else x.a[2], g, path + ((x.a[0], v),))
            return
        if x is BOT:
            return
        self.n += 1
        if x.op == "app" and x.a[0] == "elt" and x.a[1] in self.states:
            return
        if x.op != "con" or x.a[0] != LN:
            return self.unk(path, "located node of unknown origin: " + compare.sh(x))
        self.check(x.a[2], x.a[3], f, path, "located node")

    def check(self, loc, node, f, path, what):
        id = "%s#%d: %s" % (self.fn.label(), self.n, what)
        loc, node = f.simp(loc), f.simp(node)
        for t in (loc, node):
            if t.op == "ite":
                for v in (True, False):
                    g = f.assume(t.a[0], v)
                    if not g.dead:
                        self.check(loc, node, g, path + ((t.a[0], v),), what)
                return
        e = self.from_state(loc)
        if e is not None:
            r = Compare().run(proj(e, LN, "LocatedNode", 1), node, f)
            return self.cx.record(id, self.wrap(r, path), where=where(self.fn))
        if loc is self.par:
            r = Compare().run(self.cur, node, f)
            return self.cx.record(id, self.wrap(r, path), where=where(self.fn))
        if loc.op != "con" or loc.a[0] != NP:
            return self.cx.record(id, Unk(path, "location of unknown origin: " + compare.sh(loc)), where=where(self.fn))
        ps = compare.explode(f.simp(loc.a[2]))
        at = self.root
        if ps:
            p = ps[0]
            base = proj(self.par, NP, "NormalizedPath", 0)
            if p is base:
                at = self.cur
                ps = ps[1:]
            elif p.op == "proj" and p.a[1] == NP and self.from_state(p.a[0]) is not None:
                at = proj(self.from_state(p.a[0]), LN, "LocatedNode", 1)
                ps = ps[1:]
        for p in ps:
            if p.op == "ite":
                for v in (True, False):
                    g = f.assume(p.a[0], v)
                    if not g.dead:
                        self.check(g.simp(loc), node, g, path + ((p.a[0], v),), what)
                return
            if p.op != "unit":
                # a prefix that is none of those handed in: it leads to whatever it led to
                return self.cx.record(id, Unk(path, "location built from " + compare.sh(p)), where=where(self.fn))
            at = self.step(at, f.simp(p.a[0]), f)
            if isinstance(at, tuple):
                return self.cx.record(id, at[0](path, at[1]), where=where(self.fn))
        r = Compare().run(node, f.simp(at), f)
        self.cx.record(id, self.wrap(r, path), where=where(self.fn))

    def wrap(self, r, path):
        if isinstance(r, Diff):
            return Diff(path + r.path, r.a, r.b, "node reported against node the location leads to")
        return r

    def from_state(self, loc):
        """loc is the location part of an element of a located state"""
        if loc.op == "proj" and loc.a[1] == LN and loc.a[3] == 0 and loc.a[0].op == "app" and loc.a[0].a[0] == "elt" \
                and loc.a[0].a[1] in self.states:
            return loc.a[0]
        return None

    def step(self, at, el, f):
        if el.op == "ite":
            a = self.step(at, f.simp(el.a[1]), f.assume(el.a[0], True))
            b = self.step(at, f.simp(el.a[2]), f.assume(el.a[0], False))
            if isinstance(a, tuple):
                return a
            if isinstance(b, tuple):
                return b
            return ite(el.a[0], a, b)
        if el.op != "con" or el.a[0] != PE:
            return (Unk, "path element of unknown origin " + compare.sh(el))
        if el.a[1] == "Index":
            i = f.simp(el.a[2])
            arr = proj(at, VALUE, "Array", 0)
            need = [is_variant(at, VALUE, "Array"), ge0(i), ge0(sub(sub(length(arr), i), num(1)))]
            res = elt(arr, i)
        else:
            k = f.simp(el.a[2])
            m = proj(at, VALUE, "Object", 0)
            need = [is_variant(at, VALUE, "Object")]
            if k.op == "app" and k.a[0] == "mapkey" and k.a[1] is m:
                res = mk("app", "mapval", m, k.a[2])
            else:
                g = mkapp("mapget", m, k)
                need.append(bnot(is_variant(g, OPT, "None")))
                res = proj(g, OPT, "Some", 0)
        for c in need:
            c = f.simp(c)
            if c is FALSE:
                return (lambda p, w: Diff(p, mk("var", w), mk("var", "a step that exists"))), "step %s of a value that has none" % compare.sh(el)
            if c is not TRUE:
                g = f.assume(c, False)
                if g.dead:
                    continue
                if unknown(c) or c.op == "app":
                    return (Unk, "step not known to exist: " + compare.sh(c))
                return (lambda p, w, c=c: Diff(p + ((c, False),), mk("var", w), mk("var", "a step that exists"))), \
                    "step %s" % compare.sh(el)
        return res


def looks_located(t, ids):
    return occurs(t, lambda x: x.op == "con" and x.a[0] == LN or x.op == "app" and x.a[0] in ids)


def C04(cx):
    qs = queryables(cx)
    if len(qs) < len(IMPLS):
        raise Missing("Queryable implementations: %d found, at least %d required" % (len(qs), len(IMPLS)))
    for h in qs:
        fn = cx.method("Queryable", h, "query_located")
        c = Coherence(cx, h, fn, ("p1", "p2", "p3"))
        c.walk(cx.value(fn), Facts())
        cx.count("emitted pairs and nested calls", c.n)
    fn = cx.inherent("JsonPath", "query_located")
    v = cx.value(fn)
    c = Coherence(cx, "JsonPath", fn, ("p1", "p1", "none"))
    c.walk(v, Facts())
