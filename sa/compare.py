"""Equivalence of two summaries: case analysis over the decisions both make, structural
comparison in each case under the facts of that case.

Verdicts: EQ (proved), Diff (a case in which the two provably do different things), Unk (not
decided: a construct outside the models is involved)."""
import os
from terms import *
from facts import Facts
import facts as _facts

DBG = os.environ.get('SJP_TRACE')


class Diff:
    def __init__(self, path, a, b, why=""):
        self.path, self.a, self.b, self.why = path, a, b, why

    def text(self):
        cs = [short_atom(c, v) for c, v in self.path]
        return "when %s: found %s, required %s%s" % (" and ".join(cs) or "always", sh(self.a), sh(self.b),
                                                    " (%s)" % self.why if self.why else "")


class Unk:
    def __init__(self, path, why):
        self.path, self.why = path, why

    def text(self):
        cs = [short_atom(c, v) for c, v in self.path]
        return "when %s: %s" % (" and ".join(cs) or "always", self.why)


EQ = "EQ"


def sh(t):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) < 300 else s[:297] + "..."


def short_atom(c, v):
    s = show(c)
    if len(s) > 160:
        s = s[:157] + "..."
    return s if v else "not(%s)" % s


ATOMIC = ("app", "proj", "var", "tproj", "bv", "st")
QUANT = ("each", "exists", "first", "loop")
# uninterpreted applications whose meaning is known and distinct from one another
INTERP = {"teq", "tlt", "flt", "feq", "fle", "eq", "mapget", "elt", "mapval", "mapkey", "len", "as_f64", "f64of", "as_i64",
          "as_u64", "str_starts_with", "str_ends_with", "str_contains", "str_eq_ignore_ascii_case", "regex_valid", "regex_is_match", "regex_start", "regex_end", "regex_as_str", "regex_len"}


class Compare:
    def __init__(self, unfold=None, budget=60000):
        self.unfold = unfold          # app term -> its definition or None
        self.budget = budget
        self.steps = 0
        self.cases = 0                # leaf cases compared
        self.memo = {}
        self.in_len = False

    # ---------------------------------------------------------------- entry
    def run(self, a, b, facts=None):
        f = facts or Facts()
        r = self.eqv(a, b, f, ())
        if isinstance(r, Unk) and not unknown(a) and not unknown(b):
            d = self.refute(a, b, f)
            if d is not None:
                return d
        return r

    def refute(self, a, b, f):
        """Look for a difference among short inputs: loops over them are unrolled."""
        ta = {x for x in all_terms_set(a) | all_terms_set(b) if x.op in QUANT and not fv(x)}
        ns = {}
        for x in sorted(ta, key=lambda t: t.uid):
            for u in as_lin(x.a[1])[1] if x.a[1].op != "ite" else ():
                ns.setdefault(u, None)
        for u in list(ns)[:3]:
            for k in (0, 1, 2):
                at = mk("app", "eq", u, num(k))
                g = f.assume(eqi(u, num(k)))
                if g.dead:
                    continue
                c = Compare(self.unfold, 6000)
                try:
                    r = c.eqv(g.simp(replace(a, {u: num(k)})), g.simp(replace(b, {u: num(k)})), g, ((at, True),))
                except RecursionError:
                    continue
                self.cases += c.cases
                if isinstance(r, Diff):
                    return r
        return None

    def eqv(self, a, b, f, path, depth=0):
        self.steps += 1
        if self.steps > self.budget:
            return Unk(path, "comparison budget exhausted")
        a = f.simp(a)
        b = f.simp(b)
        if a is b:
            self.cases += 1
            return EQ
        key = (a, b, f.key)
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self._eqv(a, b, f, path, depth)
        self.memo[key] = r
        return r

    def _eqv(self, a, b, f, path, depth):
        if a is BOT or b is BOT:
            # an infeasible case on one side: nothing to compare
            return EQ
        atom = a.a[0] if a.op == "ite" else b.a[0] if b.op == "ite" else None
        if atom is None:
            for t in (a, b):
                if self.is_atom(t) and (self.is_boolish(a) and self.is_boolish(b)):
                    atom = t
                    break
        if atom is not None:
            return self.split(atom, a, b, f, path, depth)
        self.cases += 1
        return self.leaf(a, b, f, path, depth)

    def is_atom(self, t):
        return t.op in ("is", "ge0", "exists") or t.op == "app" and t.a[0] in (
            "teq", "tlt", "flt", "feq", "fle", "eq", "str_starts_with", "str_ends_with", "str_contains",
            "str_eq_ignore_ascii_case", "regex_is_match", "regex_valid")

    def is_boolish(self, t):
        return t in (TRUE, FALSE) or self.is_atom(t) or t.op == "app" and t.a[0] not in (
            "elt", "len", "mapget", "mapval", "mapkey")

    # ---------------------------------------------------------------- case analysis
    def split(self, atom, a, b, f, path, depth):
        # bring complex sub-terms of the atom in line with the other side
        ca = self.complex_terms(a)
        cb = self.complex_terms(b)
        if ca and cb:
            a2, b2 = self.align(a, b, f, path, depth)
            if a2 is not a or b2 is not b:
                return self.eqv(a2, b2, f, path, depth + 1)
        res = EQ
        for val in (True, False):
            g = self.assume(f, atom, val)
            if g is None:
                continue
            r = self.eqv(a, b, g, path + ((atom, val),), depth + 1)
            if isinstance(r, Diff):
                r = self.vet(r, a, b, f, path, depth)
            if isinstance(r, Diff):
                return r
            if r is not EQ:
                res = r
        return res

    def assume(self, f, atom, val):
        g = f.assume(atom, val)
        if g.dead:
            return None
        if atom.op == "app" and atom.a[0] == "teq" and atom.a[2].op == "lit" and len(atom.a[2].a[0]) <= 12:
            x, w = atom.a[1:3]
            cs = [eqi(length(x), num(len(w.a[0])))] + [eqi(elt(x, num(i)), num(ord(c))) for i, c in enumerate(w.a[0])]
            if val:
                for c in cs:
                    g = g.assume(c)
                    if g.dead:
                        return None
            elif all(g.simp(c) is TRUE for c in cs):
                return None
        if atom.op == "app" and val:
            n = atom.a[0]
            if n == "flt":
                x, y = atom.a[1:3]
                for other in (mk("app", "flt", y, x), mk("app", "feq", x, y), mk("app", "feq", y, x)):
                    g = g.assume(other, False)
                    if g.dead:
                        return None
            if n == "feq":
                x, y = atom.a[1:3]
                for other in (mk("app", "flt", x, y), mk("app", "flt", y, x)):
                    g = g.assume(other, False)
                    if g.dead:
                        return None
            if n == "teq":
                x, y = atom.a[1:3]
                for other in (mk("app", "tlt", x, y), mk("app", "tlt", y, x)):
                    g = g.assume(other, False)
                    if g.dead:
                        return None
            if n == "tlt":
                x, y = atom.a[1:3]
                g = g.assume(mk("app", "tlt", y, x), False)
                if g.dead:
                    return None
                for other in (mk("app", "teq", x, y), mk("app", "teq", y, x)):
                    g = g.assume(other, False)
                    if g.dead:
                        return None
        return g

    def vet(self, d, a, b, f, path, depth):
        """Is a difference reached by deciding opaque atoms trustworthy?"""
        n = len(path)
        oa, ob = set(), set()
        ta, tb = self.sub(a), self.sub(b)
        for atom, val in d.path[n:]:
            if self.opaque_atom(atom):
                ina, inb = atom in ta, atom in tb
                if ina and not inb:
                    oa.add(atom)
                elif inb and not ina:
                    ob.add(atom)
        if unknown_in(d.path[n:]):
            return Unk(d.path, "depends on a construct outside the models")
        if oa and ob:
            if all(self.interp_atom(x) for x in oa | ob):
                return d
            if len(oa) == 1 and len(ob) == 1:
                x, y = next(iter(oa)), next(iter(ob))
                if x.op == y.op == "exists":
                    r = self.binder(x, y, f, path, depth + 1)
                    if isinstance(r, Diff):
                        return Diff(d.path, d.a, d.b, "the two conditions differ: " + r.text())
                    return Unk(d.path, "quantified conditions could not be related")
                r = self.relate(x, y, f, path, depth)
                if isinstance(r, Diff):
                    return Diff(d.path, d.a, d.b, "the two conditions differ: " + r.text())
            return Unk(d.path, "conditions of the two sides could not be related")
        return d

    def relate(self, x, y, f, path, depth):
        """Two opaque conditions of the same kind: do they test different things?"""
        if x.op == y.op == "is" and x.a[1:] == y.a[1:]:
            return self.relate(x.a[0], y.a[0], f, path, depth)
        if x.op == y.op == "loop":
            return self.loops(x, y, f, path, depth + 1)
        if x.op == y.op == "app" and x.a[0] == y.a[0] and atstart(x):
            return self.leaf_app(x, y, f, path, depth + 1)
        return None

    def opaque_atom(self, t):
        if t.op in ("is", "ge0"):
            return occurs(t, lambda x: x.op in QUANT or x.op == "app" and isinstance(x.a[0], str)
                          and x.a[0] not in INTERP and not x.a[0].startswith("@") and not free_call(x))
        if t.op in ("var", "proj"):
            return False
        return True

    def interp_atom(self, t):
        return t.op == "app" and t.a[0] in INTERP and not occurs(t, lambda x: x.op in QUANT)

    def sub(self, t):
        return all_terms_set(t)

    # ---------------------------------------------------------------- aligning quantified terms
    def complex_terms(self, t):
        return [x for x in outer_complex(t)]

    def align(self, a, b, f, path, depth):
        """Replace in b quantified terms that are equal to quantified terms of a."""
        if depth > 30:
            return a, b
        ca = outer_complex(a)
        cb = outer_complex(b)
        sa = set(ca)
        only_b = [x for x in cb if x not in sa]
        sb = set(cb)
        only_a = [x for x in ca if x not in sb]
        if not only_a or not only_b:
            return a, b
        table = {}
        for y in only_b:
            for x in only_a:
                if x.op != y.op or x.op == "app" and x.a[0] != y.a[0]:
                    continue
                k = ("al", x, y, f.key)
                r = self.memo.get(k)
                if r is None:
                    sub = Compare(self.unfold, 4000)
                    sub.memo = self.memo
                    try:
                        r = sub.leaf(x, y, f, path, depth + 1) if x.op != "exists" else \
                            sub.binder(x, y, f, path, depth + 1)
                    except RecursionError:
                        r = Unk(path, "too deep")
                    self.steps += min(sub.steps, 500)
                    self.memo[k] = r
                if r is EQ:
                    table[y] = x
                    break
        if not table:
            return a, b
        b2 = f.simp(replace(b, table))
        return a, b2

    # ---------------------------------------------------------------- leaves
    def leaf(self, a, b, f, path, depth):
        if a is b:
            return EQ
        ua, ub = unknown(a), unknown(b)
        oa, ob = a.op, b.op
        if is_intish(a) and is_intish(b) or oa == "lin" and ob in ATOMIC or ob == "lin" and oa in ATOMIC:
            return self.ints(a, b, f, path)
        if seqlike(a) or seqlike(b):
            return self.seqs(a, b, f, path, depth)
        if oa == "con" or ob == "con":
            if oa == "con" and ob == "con":
                if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
                    return self.diff(path, a, b)
                return self.all([(x, y) for x, y in zip(a.a[2:], b.a[2:])], f, path, depth)
            c, o = (a, b) if oa == "con" else (b, a)
            if o in (TRUE, FALSE) or o.op in ("tup", "clo"):
                return self.diff(path, a, b)
            return self.eta(c, o, oa == "con", f, path, depth)
        if oa == "tup" or ob == "tup":
            if oa == "tup" and ob == "tup":
                if len(a.a) != len(b.a):
                    return self.diff(path, a, b)
                return self.all(list(zip(a.a, b.a)), f, path, depth)
            c, o = (a, b) if oa == "tup" else (b, a)
            ps = [(x, tproj(o, i)) for i, x in enumerate(c.a)]
            return self.all(ps if oa == "tup" else [(y, x) for x, y in ps], f, path, depth)
        if oa in QUANT and ob == oa:
            return self.binder(a, b, f, path, depth)
        if oa == "proj" and ob == "proj" and a.a[1:] == b.a[1:]:
            r = self.eqv(a.a[0], b.a[0], f, path, depth + 1)
            return r if r is EQ else self.try_unfold(a, b, f, path, depth, r)
        if oa == "tproj" and ob == "tproj" and a.a[1] == b.a[1]:
            return self.eqv(a.a[0], b.a[0], f, path, depth + 1)
        if oa == "app" and ob == "app" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            if a.a[0] == "len":
                return self.seqs(shape(a.a[1]), shape(b.a[1]), f, path, depth + 1)
            ps = []
            for x, y in zip(a.a[1:], b.a[1:]):
                if isinstance(x, T) and isinstance(y, T):
                    ps.append((x, y))
                elif x != y:
                    return self.diff(path, a, b)
            r = self.all(ps, f, path, depth)
            if r is EQ:
                return EQ
            if a.a[0] in ("eq", "teq", "feq") and len(a.a) == 3:
                r2 = self.all([(a.a[1], b.a[2]), (a.a[2], b.a[1])], f, path, depth)
                if r2 is EQ:
                    return EQ
            return self.try_unfold(a, b, f, path, depth, r)
        if oa == "clo" and ob == "clo" and a.a[0] == b.a[0]:
            return EQ
        r = self.try_unfold(a, b, f, path, depth, None)
        if r is not None:
            return r
        if oa in QUANT or ob in QUANT or opaque_head(a) or opaque_head(b):
            return Unk(path, "%s against %s" % (sh(a), sh(b)))
        return self.diff(path, a, b)

    def try_unfold(self, a, b, f, path, depth, r):
        """Unfold a local function application that only one side makes."""
        if self.unfold is None or depth > 25 or r is EQ:
            return r
        la, lb = calls_in(a), calls_in(b)
        for x in sorted(la - lb, key=lambda t: t.uid):
            d = self.unfold(x)
            if d is not None:
                return self.eqv(replace(a, {x: d}), b, f, path, depth + 8)
        for x in sorted(lb - la, key=lambda t: t.uid):
            d = self.unfold(x)
            if d is not None:
                return self.eqv(a, replace(b, {x: d}), f, path, depth + 8)
        return r

    def diff(self, path, a, b):
        if unknown(a) or unknown(b):
            return Unk(path, "%s against %s" % (sh(a), sh(b)))
        return Diff(path, a, b)

    def all(self, ps, f, path, depth):
        res = EQ
        for x, y in ps:
            r = self.eqv(x, y, f, path, depth + 1)
            if isinstance(r, Diff):
                return r
            if r is not EQ:
                res = r
        return res

    def eta(self, c, o, cleft, f, path, depth):
        if unknown(o):
            return Unk(path, sh(o))
        t = f.simp(is_variant(o, c.a[0], c.a[1]))
        if t is FALSE:
            return self.diff(path, c, o) if cleft else self.diff(path, o, c)
        if t is not TRUE:
            if t.op == "ite" and t.a[1] is FALSE and t.a[2] is TRUE:
                atom = t.a[0]
            else:
                atom = t
            a, b = (c, o) if cleft else (o, c)
            if opaque_head(o) and not (isinstance(o.a[0], str) and o.a[0].startswith("@")):
                u = self.try_unfold(a, b, f, path, depth, None)
                if u is not None:
                    return u
                return Unk(path, "%s against %s" % (sh(a), sh(b)))
            return self.split(atom, a, b, f, path, depth)
        ps = []
        for i, x in enumerate(c.a[2:]):
            y = proj(o, c.a[0], c.a[1], i)
            ps.append((x, y) if cleft else (y, x))
        return self.all(ps, f, path, depth)

    def ints(self, a, b, f, path):
        d = f.simp(sub(a, b))
        if d.op == "ite":
            return Unk(path, "integer case analysis")
        up = f.assume(ge0(sub(d, num(1))))
        dn = f.assume(ge0(sub(neg(d), num(1))))
        if up.dead and dn.dead:
            return EQ
        if unknown(a) or unknown(b) or any(occurs(x, lambda t: t.op in QUANT or opaque_head(t) and not atstart(t))
                                           for x in (a, b)):
            # opaque integers: compare the opaque parts structurally
            r = self.int_parts(a, b, f, path)
            if r is not None:
                return r
            if measures(a, b):
                return Diff(path, a, b, "different measures of a text")
            ops = [t for x in (a, b) for t in as_lin(x)[1] if opaque_head(t) and not atstart(t)]
            if (up.dead or dn.dead) and ops and all(
                    t.op == "app" and str(t.a[0]).startswith("cast:") and not opaque_head(t.a[1]) for t in ops) \
                    and not any(x.op in QUANT for y in (a, b) for x in all_terms_set(y)) \
                    and f.assume(ge0(d)).assume(ge0(neg(d))).dead:
                return Diff(path, a, b)     # a wrapped integer outside its type's range is another one
            return Unk(path, "%s against %s" % (sh(a), sh(b)))
        g = dn if up.dead else up
        return Diff(path, a, b)

    def int_parts(self, a, b, f, path):
        ca, ma = as_lin(a)
        cb, mb = as_lin(b)
        if ca != cb:
            oa = {k for k in ma if k not in mb}
            ob = {k for k in mb if k not in ma}
            if not oa and not ob and ma == mb:
                return Diff(path, a, b)
            return None
        xs = [(k, v) for k, v in ma.items() if mb.get(k) != v]
        ys = [(k, v) for k, v in mb.items() if ma.get(k) != v]
        if len(xs) != len(ys):
            return None
        for (x, v) in xs:
            for j, (y, w) in enumerate(ys):
                if v == w and self.opaque_int(x, y, f, path) is EQ:
                    ys.pop(j)
                    break
            else:
                return None
        return EQ

    def opaque_int(self, x, y, f, path):
        if x.op in QUANT and y.op == x.op:
            return self.binder(x, y, f, path, 11)
        if x.op == "app" and y.op == "app" and x.a[0] == y.a[0] == "len":
            if self.in_len:
                return None
            self.in_len = True
            try:
                return self.seqs(shape(x.a[1]), shape(y.a[1]), f, path, 11)
            finally:
                self.in_len = False
        if x.op == y.op and x.op in ("app", "proj", "tproj"):
            return self.leaf_app(x, y, f, path, 11)
        return None

    # ---------------------------------------------------------------- binders
    def binder(self, a, b, f, path, depth):
        if a is b:
            return EQ
        if a.op == "loop":
            return self.loops(a, b, f, path, depth)
        rn = self.eqv(a.a[1], b.a[1], f, path, depth + 1)
        rs = self.eqv(a.a[2], b.a[2], f, path, depth + 1)
        nb = fresh()
        ba = rename(a, nb)
        bb = rename(b, nb)
        na = f.simp(a.a[1])
        g = f.under(nb, na)
        for e, v in f.atoms.items():
            if not v and e.op == "exists" and e.a[1] is na and e.a[2] is f.simp(a.a[2]) and not g.dead:
                g = g.assume(rename(e, nb), False)
        if g.dead:
            g2 = f.under(nb, f.simp(b.a[1]))
            if g2.dead:
                return EQ
            if rn is not EQ and self.emits(bb):
                return rn
            return EQ if bb in (NIL, FALSE) else Unk(path, "empty against possibly empty")
        if rn is not EQ:
            g = g.assume(ge0(sub(sub(b.a[1], bv(nb)), num(1)))) if b.a[1].op != "ite" else g
            if g.dead:
                return rn
        rb = self.eqv(ba, bb, g, path, depth + 1)
        if isinstance(rb, Diff):
            if occurs_lin_bv(rb.path[len(path):], nb) and rn is not EQ:
                d = self.first_elements(ba, a, bb, b, nb, f, path, depth)
                return d or Unk(path, "ranges and bodies both differ")
            return rb
        if rb is not EQ:
            return rb
        if rs is not EQ:
            return rs
        if rn is EQ:
            return EQ
        if isinstance(rn, Diff):
            if any(x.op == "ge0" and bv(nb) in as_lin(x.a[0])[1] for x in all_terms_set(ba) | all_terms_set(bb)):
                return Unk(path, "ranges differ, bodies depend on the index")
            if rs is EQ and not is_num(a.a[2]):
                # stepped ranges: different bounds may cover the same indices, unless the step is 1
                g1 = f.assume(eqi(a.a[2], num(1)))
                if not g1.dead:
                    rn1 = self.eqv(a.a[1], b.a[1], g1, path + ((eqi(a.a[2], num(1)), True),), depth + 1)
                    if isinstance(rn1, Diff):
                        return Diff(rn1.path, a, b, "number of iterations: %s against %s" % (sh(rn1.a), sh(rn1.b)))
                return Unk(path, "stepped ranges with different bounds")
            return Diff(rn.path, a, b, "number of iterations: %s against %s" % (sh(rn.a), sh(rn.b)))
        return rn

    def first_elements(self, ba, a, bb, b, i, f, path, depth):
        """Whether the first elements two emitting loops yield can differ."""
        def lead(body, n, step, f, k, t=None):
            if t is None:
                if k > 2:
                    return
                f = f.assume(ge0(sub(n, num(k * step + 1))))
                if f.dead:
                    return
                t = f.simp(replace(body, {bv(i): num(k * step)}))
            if t is NIL:
                yield from lead(body, n, step, f, k + 1)
            elif t.op == "unit":
                yield t.a[0], f
            elif t.op == "ite":
                for c, x in ((t.a[0], t.a[1]), (bnot(t.a[0]), t.a[2])):
                    g = f.assume(c)
                    if not g.dead:
                        yield from lead(body, n, step, g, k, g.simp(x))
        if is_num(a.a[2]):
            steps = [(a.a[2].a[0], f)]
        else:
            steps = [(s, f.assume(eqi(a.a[2], num(s)))) for s in (1, 2)]
        for s, g in steps:
            if g.dead:
                continue
            for x, gx in lead(ba, a.a[1], s, g, 0):
                for y, gy in lead(bb, b.a[1], s, gx, 0):
                    r = self.eqv(x, y, gy, path, depth + 1)
                    if isinstance(r, Diff):
                        return r
        return None

    def emits(self, body):
        if body.op == "ite":
            return self.emits(body.a[1]) and self.emits(body.a[2])
        return any(p.op in ("unit", "lit") for p in parts(body))

    def loops(self, a, b, f, path, depth):
        if len(a.a[3]) != len(b.a[3]):
            return Unk(path, "loops with different state")
        rn = self.eqv(a.a[1], b.a[1], f, path, depth + 1)
        if rn is not EQ:
            return rn
        rs = self.eqv(a.a[2], b.a[2], f, path, depth + 1)
        if rs is not EQ:
            return rs
        k = len(a.a[3])
        best = None
        import itertools
        perms = itertools.permutations(range(k)) if k <= 3 else [tuple(range(k))]
        for p in perms:
            r = EQ
            for i in range(k):
                r = self.eqv(a.a[4][i], b.a[4][p[i]], f, path, depth + 1)
                if r is not EQ:
                    break
            if r is EQ:
                nb = fresh()
                ids = [fresh() for _ in range(k)]
                ma = {a.a[0]: bv(nb)}
                mb = {b.a[0]: bv(nb)}
                for i in range(k):
                    ma[a.a[3][i]] = mk("st", ids[i])
                    mb[b.a[3][p[i]]] = mk("st", ids[i])
                ba = ren(a.a[5], ma)
                bb = ren(b.a[5], mb)
                # the next-state tuple of b in a's order
                if p != tuple(range(k)):
                    bb = permute(bb, p)
                g = f.under(nb, f.simp(a.a[1]))
                r = EQ if g.dead else self.eqv(ba, bb, g, path, depth + 1)
                if r is EQ:
                    return EQ
            if best is None or isinstance(r, Diff):
                best = r
        return best

    # ---------------------------------------------------------------- sequences
    def seqs(self, a, b, f, path, depth):
        pa, pb = explode(a), explode(b)
        n = 0
        while True:
            n += 1
            if n > 400:
                return Unk(path, "long sequences")
            pa = self.trim(pa, f)
            pb = self.trim(pb, f)
            if not pa and not pb:
                return EQ
            if not pa or not pb:
                rest = pa or pb
                return self.leftover(rest, a, b, f, path, depth)
            p, q = pa[0], pb[0]
            for x in (p, q):
                if x.op == "ite":
                    return self.split(x.a[0], cat(*pa), cat(*pb), f, path, depth)
            if p is q:
                pa, pb = pa[1:], pb[1:]
                continue
            # equal tails first: what is shared at the end cannot be the difference
            if pa[-1] is pb[-1] and (len(pa) > 1 or len(pb) > 1):
                pa, pb = pa[:-1], pb[:-1]
                continue
            if p.op == "unit" and q.op == "unit":
                r = self.eqv(p.a[0], q.a[0], f, path, depth + 1)
                if r is not EQ:
                    return r
                pa, pb = pa[1:], pb[1:]
                continue
            if p.op == "unit" or q.op == "unit":
                # first elements: peel the other side
                other = q if p.op == "unit" else p
                r = self.peel(other, f)
                if r is None:
                    # compare lengths, else give up
                    return self.by_length(a, b, f, path, sh(cat(*pa)) + " against " + sh(cat(*pb)))
                kind, x = r
                if kind == "split":
                    return self.split(x, cat(*pa), cat(*pb), f, path, depth)
                if p.op == "unit":
                    pb = list(x) + pb[1:]
                else:
                    pa = list(x) + pa[1:]
                continue
            # both are compound
            r = self.piece(p, q, f, path, depth)
            if r is EQ:
                pa, pb = pa[1:], pb[1:]
                continue
            if isinstance(r, Diff) or r is None:
                u = self.try_unfold(cat(*pa), cat(*pb), f, path, depth, None)
                if u is not None:
                    return u
            if r is None:
                return self.by_length(a, b, f, path, "%s against %s" % (sh(p), sh(q)))
            return r

    def piece(self, p, q, f, path, depth):
        if p.op == "each" and q.op == "each":
            return self.binder(p, q, f, path, depth)
        if p.op == "each" and q.op != "each":
            q2 = expand(q)
            return self.binder(p, q2, f, path, depth) if q2 is not None else None
        if q.op == "each" and p.op != "each":
            p2 = expand(p)
            return self.binder(p2, q, f, path, depth) if p2 is not None else None
        if p.op == q.op:
            if p.op in ("app", "proj", "tproj", "loop", "var"):
                if p.op == "app" and p.a[0] != q.a[0] and textual(p) and textual(q) and p.a[1:] == q.a[1:]:
                    return self.diff(path, p, q)
                if p.op == "app" and p.a[0] != q.a[0]:
                    return self.try_unfold(p, q, f, path, depth, None) or (
                        None if opaque_head(p) or opaque_head(q) else self.diff(path, p, q))
                if p.op == "var":
                    return self.diff(path, p, q)
                return self.leaf_app(p, q, f, path, depth)
        if unknown(p) or unknown(q):
            return Unk(path, "%s against %s" % (sh(p), sh(q)))
        u = self.try_unfold(p, q, f, path, depth, None)
        if u is not None:
            return u
        if atstart(p) or atstart(q):
            return self.diff(path, p, q)
        if opaque_head(p) or opaque_head(q):
            return None
        return self.diff(path, p, q)

    def leaf_app(self, p, q, f, path, depth):
        if p.op == "app" and q.op == "app" and p.a[0] == q.a[0]:
            ps = []
            for x, y in zip(p.a[1:], q.a[1:]):
                if isinstance(x, T) and isinstance(y, T):
                    ps.append((x, y))
                elif x != y:
                    return self.diff(path, p, q)
            r = self.all(ps, f, path, depth)
            return r if r is EQ else self.try_unfold(p, q, f, path, depth, r)
        if p.op in ("proj", "tproj") and p.a[1:] == q.a[1:]:
            return self.eqv(p.a[0], q.a[0], f, path, depth + 1)
        if p.op == "loop":
            return self.loops(p, q, f, path, depth)
        if unknown(p) or unknown(q):
            return Unk(path, "%s against %s" % (sh(p), sh(q)))
        return self.diff(path, p, q)

    def trim(self, ps, f):
        out = []
        for p in ps:
            if p.op == "each":
                n = f.simp(p.a[1])
                if n.op != "ite" and f.simp(ge0(neg(n))) is TRUE:
                    continue
            elif p.op not in ("unit", "lit", "cat", "ite") and not unknown(p):
                l = f.simp(ge0(neg(length(p))))
                if l is TRUE:
                    continue
            out.append(p)
        return out

    def peel(self, p, f):
        if p.op == "each":
            n = f.simp(p.a[1])
            c = f.simp(ge0(sub(n, num(1))))
            if c is not TRUE:
                return ("split", c.a[0] if c.op == "ite" else c)
            if not is_num(p.a[2]):
                return None
            k = p.a[2].a[0]
            h = f.simp(subst(p.a[3], p.a[0], num(0)))
            nb, body = open_(p)
            rest = each(nb, sub(n, num(k)), p.a[2], subst(body, nb, add(bv(nb), num(k))))
            return ("ok", explode(h) + explode(rest))
        if p.op in ("proj", "var") or p.op == "app" and (atstart(p) or p.a[0] in ("elt", "mapval")):
            c = f.simp(ge0(sub(length(p), num(1))))
            if c is not TRUE:
                return ("split", c.a[0] if c.op == "ite" else c)
            nb = fresh()
            return ("ok", [unit(elt(p, num(0))), each(nb, sub(length(p), num(1)), num(1), unit(elt(p, add(bv(nb), num(1)))))])
        return None

    def leftover(self, rest, a, b, f, path, depth):
        for p in rest:
            if p.op == "ite":
                return self.split(p.a[0], a, b, f, path, depth)
        for p in rest:
            if p.op in ("unit", "lit"):
                return self.diff(path, a, b)
        for p in rest:
            if unknown(p):
                return Unk(path, sh(p))
            if p.op == "each":
                n = f.simp(p.a[1])
                if n.op == "ite":
                    return self.split(n.a[0], a, b, f, path, depth)
                nb = fresh()
                g = f.under(nb, n)
                if g.dead:
                    continue
                body = g.simp(rename(p, nb))
                if self.can_emit(body, g):
                    return Diff(path, a, b, "extra elements %s" % sh(p))
                return Unk(path, "extra elements %s" % sh(p))
            if p.op == "app" and not atstart(p) and p.a[0] not in ("elt", "mapval", "mapget") or p.op == "loop":
                return Unk(path, "extra elements %s" % sh(p))
            u = self.try_unfold(cat(*rest), NIL, f, path, depth, None)
            if u is not None:
                return u if not isinstance(u, Diff) else Diff(path, a, b, "extra elements %s" % sh(p))
            return Diff(path, a, b, "extra elements %s" % sh(p))
        return EQ

    def can_emit(self, body, g):
        if body.op == "ite":
            h = g.assume(body.a[0], True)
            if not h.dead and self.can_emit(h.simp(body.a[1]), h):
                return True
            l = g.assume(body.a[0], False)
            return not l.dead and self.can_emit(l.simp(body.a[2]), l)
        if body is BOT:
            return False
        return any(p.op in ("unit", "lit", "var", "proj") or atstart(p) for p in parts(body)) or body.op == "each"

    def by_length(self, a, b, f, path, why):
        la, lb = f.simp(length(a)), f.simp(length(b))
        if la.op != "ite" and lb.op != "ite" and simple_len(la) and simple_len(lb):
            r = self.ints(la, lb, f, path)
            if isinstance(r, Diff):
                return Diff(path, a, b, "different lengths")
        return Unk(path, why)


def measures(a, b):
    """Do two integers differ in how they measure one text: characters, bytes, UTF-16 units?"""
    ma, mb = as_lin(a)[1], as_lin(b)[1]
    xs = {t: v - mb.get(t, 0) for t, v in ma.items() if mb.get(t) != v}
    xs.update({t: -v for t, v in mb.items() if t not in ma})

    def measured(t):
        if t.op == "app" and t.a[0] == "blen":
            return t.a[1]
        if t.op == "app" and t.a[0] == "len":
            x = t.a[1]
            return x.a[1] if x.op == "app" and x.a[0] == "str_encode_utf16" else x
    ts = {measured(t) for t in xs}
    return len(xs) == 2 and len(ts) == 1 and None not in ts and not any(
        occurs(t, lambda x: x.op in QUANT or opaque_head(x)) for t in ts) and any(
        t.a[0] == "blen" or t.a[1] not in ts for t in xs)


def simple_len(t):
    c, m = as_lin(t)
    return all(not occurs(x, lambda y: y.op in QUANT) and not unknown(x) for x in m)


def permute(t, p):
    if t.op == "ite":
        return ite(t.a[0], permute(t.a[1], p), permute(t.a[2], p))
    if t.op == "con" and t.a[0] == "@next":
        if t.a[1] == "next":
            xs = t.a[2:]
            return con("@next", "next", *[xs[p[i]] for i in range(len(xs))])
        xs = t.a[3:]
        if len(xs) == len(p):
            return con("@next", t.a[1], t.a[2], *[xs[p[i]] for i in range(len(xs))])
    return t


def ren(t, m):
    import terms
    return terms._rename(t, m, {})


def rename(t, nb):
    import terms
    return terms._rename(t.a[3], {t.a[0]: bv(nb)}, {})


def atstart(t):
    return t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("@")


def free_call(t):
    """A call of a function that is a part of the input: nothing is known about it, so it agrees with
    another only when it is the same."""
    if t.op != "app" or t.a[0] != "call" or not isinstance(t.a[1], T):
        return False
    h = t.a[1]
    while h.op in ("proj", "tproj") or h.op == "app" and h.a[0] == "elt":
        h = h.a[1] if h.op == "app" else h.a[0]
    return h.op == "var" or h.op in ("const", "con", "app") and "inventory" in str(h.a)


def textual(t):
    """A way of writing a number."""
    return t.op == "app" and isinstance(t.a[0], str) and (t.a[0] == "dec" or t.a[0].startswith("fmt:"))


def opaque_head(t):
    """Application of something whose relation to other functions is not known."""
    if t.op in ("proj", "tproj"):
        return opaque_head(t.a[0])
    return t.op == "app" and not (t.a[0] in INTERP or atstart(t))


def is_intish(t):
    if t.op in ("lin", "mono", "bv"):
        return True
    if t.op in ("app", "proj", "var", "st", "tproj"):
        return _facts.term_range(t) is not None
    return False


def seqlike(t):
    return t.op in ("cat", "unit", "lit", "each")


def explode(t):
    if t.op == "cat":
        out = []
        for p in t.a:
            out += explode(p)
        return out
    if t.op == "lit":
        return [mk("unit", num(ord(c))) for c in t.a[0]]
    if t.op == "unit" and t.a[0].op == "chr":
        return [mk("unit", num(ord(t.a[0].a[0])))]
    return [t]


def expand(q):
    """An opaque sequence as the concatenation of its elements."""
    if q.op in ("proj", "var", "app", "tproj", "st") and not unknown(q):
        nb = fresh()
        r = mk("each", nb, length(q), num(1), unit(elt(q, bv(nb))))
        return r
    return None


def shape(t):
    """Forget the elements of a sequence, keep how many there are."""
    if t.op == "unit":
        return mk("unit", UNIT)
    if t.op == "lit":
        return cat(*[mk("unit", UNIT)] * len(t.a[0]))
    if t.op == "cat":
        return mk("cat", *[shape(x) for x in t.a]) if t.a else t
    if t.op == "ite":
        return ite(t.a[0], shape(t.a[1]), shape(t.a[2]))
    if t.op == "each":
        nb, body = open_(t)
        return each(nb, t.a[1], t.a[2], shape(body))
    return t


_sets = {}


def all_terms_set(t):
    r = _sets.get(t)
    if r is None:
        r = frozenset(all_terms(t))
        if len(_sets) > 2000:
            _sets.clear()
        _sets[t] = r
    return r


_oc = {}


def outer_complex(t):
    """Outermost closed quantified sub-terms (each/exists/first/loop) of t, and local calls
    containing them."""
    r = _oc.get(t)
    if r is None:
        out, seen = [], set()

        def go(x):
            if x in seen:
                return
            seen.add(x)
            if x.op in QUANT:
                out.append(x)
                return
            for y in x.a:
                if isinstance(y, T):
                    go(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            go(z)
                        elif isinstance(z, tuple):
                            for w in z:
                                if isinstance(w, T):
                                    go(w)
        go(t)
        r = _oc[t] = out
    return r


def calls_in(t):
    return {x for x in all_terms_set(t) if atstart(x)}


def unknown_in(path):
    for atom, v in path:
        if unknown(atom):
            return True
    return False


def occurs_lin_bv(path, nb):
    return any(nb in fv(atom) for atom, v in path)
