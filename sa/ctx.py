"""Shared context of the checks: the loaded program, summaries, obligations."""
import os, sys, json, time, re
import load, engine, terms, compare
from terms import *
from facts import Facts
from compare import Compare, EQ, Diff, Unk

ANCHOR_TRAITS = ("Queryable", "TestFilter")


class Missing(Exception):
    """An anchor of the rule is not there."""


class Obl:
    def __init__(self, id, verdict, text="", cases=0, where=None):
        self.id, self.verdict, self.text, self.cases, self.where = id, verdict, text, cases, where
        self.known = []


class Ctx:
    def __init__(self, prog=None, spec=True, features=None, tier="quick", extra=()):
        self.t0 = time.time()
        self.tier = tier
        self.counts = {}
        d = os.environ.get("SJP_DUMP")
        if prog is not None:
            self.prog = prog
        elif d:
            self.prog = load.load_dir(d)
        else:
            self.prog = load.dump_repo(features=features, spec=spec, extra=extra)
        self.obls = []
        self.facts_used = set()
        self.engine = engine.Engine(self.prog)
        self.engine.anchors |= self.default_anchors()
        self.cache = {}

    def default_anchors(self):
        out = set()
        for f in self.prog.fns.values():
            if f.of == "traitimpl" and f.trait and load.short(f.trait) in ANCHOR_TRAITS and f.kind != "Closure":
                out.add(f.id)
            if f.name == "as_value" and f.self_head and load.short(f.self_head) == "Comparable":
                out.add(f.id)
        return out

    def analysed(self):
        return {x for x in self.engine.called if not x.startswith("sjp_spec")}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ---------------------------------------------------------------- finding things
    def method(self, trait, head, name, crate=None):
        """The method `name` of the impl of `trait` for the type `head` (last path segments)."""
        xs = [f for f in self.prog.fns.values() if f.kind != "Closure" and f.of == "traitimpl" and f.name == name
              and f.trait and load.short(f.trait) == trait and f.self_head and load.short(f.self_head) == head
              and (crate is None or f.crate == crate) and f.crate != "sjp_spec"]
        if len(xs) != 1:
            raise Missing("<%s as %s>::%s: %d implementations found, 1 required" % (head, trait, name, len(xs)))
        return xs[0]

    def inherent(self, head, name, opt=False):
        xs = [f for f in self.prog.fns.values() if f.kind != "Closure" and f.of == "inherent" and f.name == name
              and f.self_head and load.short(f.self_head) == head and f.crate != "sjp_spec"]
        if len(xs) != 1:
            if opt:
                return None
            raise Missing("%s::%s: %d found, 1 required" % (head, name, len(xs)))
        return xs[0]

    def spec(self, name):
        f = self.prog.fns.get("sjp_spec::" + name)
        if f is None:
            raise Missing("specification function " + name)
        return f

    # ---------------------------------------------------------------- summaries
    def summarize(self, fn, args=None, sub=None):
        """(value, outs, notes, panics)"""
        key = (fn.id, tuple(args) if args is not None else None)
        r = self.cache.get(key)
        if r is None:
            ev = self.engine
            ev.notes.clear()
            n = len(ev.panics)
            del ev.panics[:]
            v, outs = ev.summary(fn.id, list(args) if args is not None else None, sub)
            r = (v, outs, set(ev.notes), list(ev.panics))
            self.cache[key] = r
        return r

    def value(self, fn, args=None):
        return self.summarize(fn, args)[0]

    def expand(self, t, names):
        """Replace applications of the named local functions by their definitions."""
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is None:
                if x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("@") and x.a[0][1:] in names:
                    r = self.inst(self.prog.fns[x.a[0][1:]], [go(y) for y in x.a[1:]])
                else:
                    r = rebuild(x, go)
                memo[x] = r
            return r
        return go(t)

    def inst(self, fn, args):
        """The summary of fn with its parameters replaced."""
        v = self.value(fn)
        names = self.engine.param_names(fn)
        return Facts().simp(replace(v, {mk("var", n): a for n, a in zip(names, args)}))

    def alias(self, found, required, id):
        """Recursive functions of the code under test that are the recursive functions of the
        definition, by induction over their calls: returns `found` with them renamed."""
        fa = sorted({x.a[0] for x in all_terms(found) if is_local_rec(self, x) and not x.a[0].startswith("@sjp_spec")})
        fb = sorted({x.a[0] for x in all_terms(required) if is_local_rec(self, x) and x.a[0].startswith("@sjp_spec")})
        fails = []
        for b in fb:
            fnb = self.prog.fns[b[1:]]
            for a in fa:
                fna = self.prog.fns[a[1:]]
                if len(fna.inputs) != len(fnb.inputs):
                    continue
                r, wrap = self.induction(a, fna, b, fnb)
                if r is EQ:
                    self.obls.append(Obl("%s: %s is %s by induction" % (id, fna.id, short(b)), "holds", where=where(fna)))
                    found = rename_apps(found, {a: wrap})
                    break
                if isinstance(r, Diff):
                    fails.append((fna, b, r))
        return found, fails

    def induction(self, a, fna, b, fnb):
        first = None
        for wrap in (lambda *xs: mk("app", b, *xs), lambda *xs: bnot(mk("app", b, *xs)),
                     lambda *xs: mk("app", b, *reversed(xs))):
            names = self.engine.param_names(fna)
            vs = [mk("var", n) for n in names]
            va = rename_apps(self.value(fna), {a: wrap})
            vb = self.value(fnb, vs)
            w = wrap(*vs)
            if w.op == "ite":
                vb = bnot(vb)
            elif w.a[1:] != tuple(vs):
                vb = self.value(fnb, vs[::-1])
            r = Compare(None).run(va, vb)
            if r is EQ:
                return r, wrap
            if first is None or isinstance(r, Diff) and not isinstance(first, Diff):
                first = r
        return first, None

    # ---------------------------------------------------------------- obligations
    def require(self, id, found, required, facts=None, unfold=None, where=None, budget=60000):
        c = Compare(unfold, budget)
        try:
            found, fails = self.alias(found, required, id)
            r = c.run(found, required, facts)
            if r is not EQ and not isinstance(r, Diff) and len(fails) == 1:
                fna, b, d = fails[0]
                r = Diff(d.path, d.a, d.b, "in %s, compared with %s" % (fna.id, short(b)))
        except RecursionError:
            r = Unk((), "terms too deep")
        return self.record(id, r, c.cases, where)

    def require_known(self, id, found, required, variants, facts=None, where=None, budget=60000):
        """As require, but a summary that meets the definition with recorded defects in it is
        reported as those findings.  variants: [(ids of findings, definition with them)]."""
        n = len(self.obls)
        o = self.require(id, found, required, facts, where=where, budget=budget)
        if o.verdict == "holds":
            return o
        listed = {k["id"] for k in known_findings()}
        last = None
        for ids, term in variants:
            if not set(ids) <= listed:
                continue
            del self.obls[n:]
            last = self.require(id, found, term, facts, where=where, budget=budget)
            if last.verdict == "holds":
                last.known = list(ids)
                last.text = "meets the definition only with the recorded findings " + ", ".join(ids)
                return last
        if last is not None:
            last.text += " (compared with the definition in which the recorded findings %s are allowed for)" % ", ".join(ids)
        return last or o

    def record(self, id, r, cases=1, where=None):
        if r is EQ or r is True:
            o = Obl(id, "holds", "", cases, where)
        elif isinstance(r, Diff):
            o = Obl(id, "violated", r.text(), cases, where)
        elif isinstance(r, Unk):
            o = Obl(id, "undecided", r.text(), cases, where)
        else:
            o = Obl(id, "violated", str(r), cases, where)
        self.obls.append(o)
        return o


def known_findings():
    p = os.path.join(load.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))["findings"] if x.get("status") == "known"]


def where(fn):
    s = fn.span
    if isinstance(s, (list, tuple)):
        return "%s:%s" % (s[0], s[1])
    return str(s)


def short(x):
    return x.rsplit("::", 1)[-1]


def is_local_rec(cx, x):
    return x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("@") and "#out" not in x.a[0] \
        and x.a[0][1:] in cx.prog.fns and x.a[0][1:] not in cx.engine.anchors


def rename_apps(t, m):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "app" and x.a[0] in m:
                r = m[x.a[0]](*[go(y) if isinstance(y, T) else y for y in x.a[1:]])
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)
