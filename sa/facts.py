"""Path facts: known variants, decided atoms and linear constraints over integer terms."""
from terms import *
from terms import _rename, _scale as scale

RANGES = []     # functions term -> (lo, hi) or None, registered by the engine


def term_range(t):
    for f in RANGES:
        r = f(t)
        if r is not None:
            return r
    return None


class Facts:
    __slots__ = ("var", "neg", "atoms", "lins", "hold", "dead", "_memo", "key")

    def __init__(self):
        self.var = {}      # term -> variant
        self.neg = {}      # term -> frozenset of excluded variants
        self.atoms = {}    # atom -> bool
        self.lins = ()     # linear terms known to be >= 0
        self.hold = ()     # boolean DDs known to be true
        self.dead = False
        self._memo = {}
        self.key = ()

    def copy(self):
        f = Facts()
        f.var = dict(self.var)
        f.neg = dict(self.neg)
        f.atoms = dict(self.atoms)
        f.lins = self.lins
        f.hold = self.hold
        f.dead = self.dead
        f.key = self.key
        return f

    # ---------------------------------------------------------------- assuming
    def assume(self, c, val=True):
        """c: boolean DD.  Returns new facts (possibly dead)."""
        if not val:
            c = bnot(c)
        c = self.simp(c)
        if c is TRUE:
            return self
        f = self.copy()
        f.key = self.key + (c.uid,)
        if c is FALSE or c is BOT:
            f.dead = True
            return f
        f._add(c)
        # unit propagation over held formulas
        changed = True
        n = 0
        while changed and f.hold and n < 8 and not f.dead:
            changed = False
            n += 1
            hs = f.hold
            f.hold = ()
            for h in hs:
                f._memo = {}
                h2 = f.simp(h)
                if h2 is TRUE:
                    changed = True
                    continue
                if h2 is FALSE:
                    f.dead = True
                    return f
                if h2 is not h:
                    changed = True
                f._add(h2)
            if not changed and len(f.hold) >= 2:
                # conditions on the same atoms decide them together
                for i in range(len(f.hold) - 1, 0, -1):
                    for j in range(i):
                        a, b = f.hold[i], f.hold[j]
                        if a.a[0] is not b.a[0]:
                            continue
                        f._memo = {}
                        r = f.simp(band(a, b))
                        if r is FALSE:
                            f.dead = True
                            return f
                        if r.op == "ite" and (r.a[1] is FALSE or r.a[2] is FALSE):
                            f.hold = tuple(h for k, h in enumerate(f.hold) if k not in (i, j))
                            f._add(r)
                            changed = True
                            break
                    if changed:
                        break
        f._memo = {}
        return f

    def _add(self, c):
        """c is not constant."""
        if c.op == "ite":
            a, h, l = c.a
            if l is FALSE:
                self._atom(a, True)
                if h is not TRUE:
                    self._memo = {}
                    h = self.simp(h)
                    if h is FALSE:
                        self.dead = True
                    elif h is not TRUE:
                        self._add(h)
                return
            if h is FALSE:
                self._atom(a, False)
                if l is not TRUE:
                    self._memo = {}
                    l = self.simp(l)
                    if l is FALSE:
                        self.dead = True
                    elif l is not TRUE:
                        self._add(l)
                return
            self.hold = self.hold + (c,)
            return
        self._atom(c, True)

    def _atom(self, a, val):
        self._memo = {}
        if a.op == "is":
            t, adt, v = a.a
            if val:
                self.var[t] = v
            else:
                ex = self.neg.get(t, frozenset()) | {v}
                self.neg[t] = ex
                vs = VARIANTS.get(adt)
                if vs is not None:
                    rest = [x for x in vs if x not in ex]
                    if len(rest) == 1:
                        self.var[t] = rest[0]
                    elif not rest:
                        self.dead = True
        elif a.op == "ge0":
            l = a.a[0]
            if not val:
                l = sub(neg(l), num(1))
            self.lins = self.lins + (l,)
            self.atoms[a] = val
            if self.infeasible():
                self.dead = True
        else:
            self.atoms[a] = val
            if a.op == "exists" and val and size(a) < 40:
                # the first one there is has the property
                w = first(a.a[0], a.a[1], a.a[2], a.a[3])
                if w.op == "first":
                    c = self.simp(_rename(a.a[3], {a.a[0]: w}, {}))
                    if c is FALSE:
                        self.dead = True
                    elif c is not TRUE:
                        self._add(c)

    # ---------------------------------------------------------------- deciding
    def decide(self, a):
        """True/False/None for an atom (already simplified inside)."""
        if a.op == "is":
            t, adt, v = a.a
            k = self.var.get(t)
            if k is not None:
                return k == v
            ex = self.neg.get(t)
            if ex is not None and v in ex:
                return False
            return None
        r = self.atoms.get(a)
        if r is not None:
            return r
        if a.op == "ge0":
            return self.decide_lin(a.a[0])
        if a.op == "app":
            h = ATOM_DECIDE.get(a.a[0])
            if h is not None:
                return h(self, a)
        return None

    def decide_lin(self, l):
        lo, hi = self.interval(l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if not self.lins:
            return None
        if self.entails(l):
            return True
        if self.entails(sub(neg(l), num(1))):
            return False
        return None

    def interval(self, l):
        c, m = as_lin(l)
        lo = hi = c
        for t, k in m.items():
            r = term_range(t)
            a, b = r if r else (None, None)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def entails(self, l):
        """Do the linear facts entail l >= 0 (over the integers, sound, incomplete)?"""
        negl = sub(neg(l), num(1))
        return _infeasible(list(self.lins) + [negl], as_lin(negl)[1].keys())

    def infeasible(self):
        return _infeasible(list(self.lins), as_lin(self.lins[-1])[1].keys())

    # ---------------------------------------------------------------- simplification
    def simp(self, t):
        m = self._memo
        r = m.get(t)
        if r is not None:
            return r
        r = self._simp(t)
        m[t] = r
        return r

    def _simp(self, t):
        op = t.op
        if op in ("var", "bv", "st", "true", "false", "bot", "lit", "chr", "mref", "clo", "fn", "const", "flt"):
            r = self.atoms.get(t)
            if r is not None:
                return TRUE if r else FALSE
            v = self.var.get(t)
            return t
        if op == "ite":
            c = self.simp(t.a[0])
            if c is TRUE:
                return self.simp(t.a[1])
            if c is FALSE:
                return self.simp(t.a[2])
            return ite(c, self.simp(t.a[1]), self.simp(t.a[2]))
        if op in ("each", "exists", "first"):
            n, step = self.simp(t.a[1]), self.simp(t.a[2])
            nb, body = open_(t)
            f = self.under(nb, n)
            if f.dead:
                return {"each": NIL, "exists": FALSE}.get(op, t)
            r = BINDERS[op](nb, n, step, f.simp(body))
            return self._final(r)
        if op == "loop":
            nb, sts, body = open_loop(t)
            n, step = self.simp(t.a[1]), self.simp(t.a[2])
            f = self.under(nb, n)
            return loop(nb, n, step, sts, [self.simp(x) for x in t.a[4]], f.simp(body), t.a[6])
        if op == "ge0":
            inner = self.simp(t.a[0])
            r = ge0(inner)
        else:
            r = rebuild(t, self.simp)
        return self._final(r)

    def _final(self, r):
        if r.op == "ite" or is_bool_leaf(r):
            if r.op == "ite":
                # decide the atoms on the spine
                c = r.a[0]
                d = self.decide(c)
                if d is not None:
                    return self._final(r.a[1] if d else r.a[2])
                h = self._final(r.a[1])
                l = self._final(r.a[2])
                return ite(c, h, l)
            return r
        if r.op in ("is", "ge0", "exists", "app", "proj", "tproj"):
            d = self.decide(r)
            if d is not None:
                return TRUE if d else FALSE
        return r

    def under(self, b, n):
        f = self.copy()
        f._memo = {}
        f.key = self.key + ("u", b)
        x = bv(b)
        f.lins = f.lins + (x, sub(sub(n, x), num(1))) if n.op != "ite" else f.lins + (x,)
        if n.op != "ite" and f.infeasible():
            f.dead = True
        return f


BLENS = set()      # terms for the length in bytes of a text
ATOM_DECIDE = {}
EXCLUSIVE = {}


def _infeasible(lins, seed):
    # connected component of the seed terms
    cons = []
    for l in lins:
        c, m = as_lin(l)
        cons.append((c, m))
    if BLENS:
        # a text has between one and four bytes per character
        for t in {t for c, m in cons for t in m if t in BLENS} | {t for t in seed if t in BLENS}:
            n = length(t.a[1])
            if n.op != "ite":
                cons.append(as_lin(sub(t, n)))
                cons.append(as_lin(sub(scale(n, 4), t)))
    comp = set(seed)
    chosen = []
    rest = cons
    changed = True
    while changed:
        changed = False
        nr = []
        for c, m in rest:
            if not m:
                if c < 0:
                    return True
                continue
            if comp & m.keys():
                chosen.append((c, m))
                new = set(m) - comp
                if new:
                    comp |= new
                    changed = True
            else:
                nr.append((c, m))
        rest = nr
    for t in comp:
        r = term_range(t)
        if r:
            if r[0] is not None:
                chosen.append((-r[0], {t: 1}))
            if r[1] is not None:
                chosen.append((r[1], {t: -1}))
    return _fm(chosen)


_fm_memo = {}


def _norm(c, m):
    from math import gcd
    m = {t: k for t, k in m.items() if k}
    g = 0
    for k in m.values():
        g = gcd(g, abs(k))
    if g > 1:
        m = {t: k // g for t, k in m.items()}
        c = c // g
    return c, m


def _fm(cons):
    key = frozenset((c, frozenset(m.items())) for c, m in cons)
    r = _fm_memo.get(key)
    if r is not None:
        return r
    r = _fm_run(cons)
    _fm_memo[key] = r
    return r


def _fm_run(cons):
    best = {}

    def put(tab, c, m):
        c, m = _norm(c, m)
        if not m:
            return c < 0
        k = frozenset(m.items())
        o = tab.get(k)
        if o is None or c < o:
            tab[k] = c
        # opposite constraint: m + c >= 0 and -m + d >= 0 infeasible if c + d < 0
        ko = frozenset((t, -v) for t, v in m.items())
        d = tab.get(ko)
        if d is not None and tab[k] + d < 0:
            return True
        return False

    for c, m in cons:
        if put(best, c, m):
            return True
    steps = 0
    while best:
        # eliminate the term with the fewest products
        occ = {}
        for k in best:
            for t, v in k:
                p, n = occ.get(t, (0, 0))
                occ[t] = (p + (v > 0), n + (v < 0))
        t = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], x.uid))
        pos, negs, tab = [], [], {}
        for k, c in best.items():
            d = dict(k)
            v = d.get(t, 0)
            if v > 0:
                pos.append((c, d, v))
            elif v < 0:
                negs.append((c, d, -v))
            else:
                if put(tab, c, d):
                    return True
        for c1, m1, a in pos:
            for c2, m2, b in negs:
                m = {}
                for x, k in m1.items():
                    m[x] = m.get(x, 0) + k * b
                for x, k in m2.items():
                    m[x] = m.get(x, 0) + k * a
                m.pop(t, None)
                if put(tab, c1 * b + c2 * a, m):
                    return True
                steps += 1
                if steps > 3000:
                    return False
        best = tab
    return False
