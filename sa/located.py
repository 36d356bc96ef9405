"""The node projection of located results: forget the locations of a located list."""
from terms import *

LN = "serde_json_path_core::node::LocatedNode"


class NodeProjection:
    def __init__(self, idmap):
        self.idmap = idmap      # "@query_located id" -> "@query id"
        self.memo = {}
        self.pmemo = {}
        self.states = set()

    def is_located(self, s):
        """Is s known to be a list of located nodes?"""
        if s.op == "ite":
            return self.is_located(s.a[1]) or self.is_located(s.a[2])
        if s.op == "st":
            return s in self.states
        if s.op == "app":
            return s.a[0] in self.idmap
        if s.op == "cat":
            return any(self.is_located(x) for x in s.a)
        if s.op == "each":
            return self.is_located(s.a[3])
        if s.op == "unit":
            return s.a[0].op == "con" and s.a[0].a[0] == LN
        if s.op in ("tproj", "proj") and s.a[0].op == "loop":
            return True
        return False

    def N(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._n(t)
        return r

    def _n(self, t):
        op, a = t.op, t.a
        if op == "ite":
            return ite(self.P(a[0]), self.N(a[1]), self.N(a[2]))
        if op == "cat":
            return cat(*[self.N(x) for x in a])
        if op == "each":
            nb, body = open_(t)
            return each(nb, self.P(a[1]), self.P(a[2]), self.N(body))
        if op == "unit":
            return unit(self.node(a[0]))
        if op == "app" and a[0] in self.idmap:
            return mk("app", self.idmap[a[0]], *[self.P(x) for x in a[1:4]])
        if op == "st":
            self.states.add(t)
            return t
        if op in ("tproj", "proj") and a[0].op == "loop":
            return rebuild_proj(t, self.loop(a[0]))
        if op == "loop":
            return self.loop(t)
        if op == "con":
            return mk("con", a[0], a[1], *[self.N(x) for x in a[2:]])
        return self.P(t)

    def loop(self, L):
        nb, sts, body = open_loop(L)
        loc = []
        for k, s in enumerate(sts):
            if self.is_located(L.a[4][k]):
                loc.append(k)
                self.states.add(mk("st", s))
        inits = [self.N(x) if k in loc else self.P(x) for k, x in enumerate(L.a[4])]
        return loop(nb, self.P(L.a[1]), self.P(L.a[2]), sts, tuple(inits), self.next(body, loc), L.a[6])

    def next(self, b, loc):
        if b.op == "ite":
            return ite(self.P(b.a[0]), self.next(b.a[1], loc), self.next(b.a[2], loc))
        if b.op == "con" and b.a[0] == "@next":
            off = 0 if b.a[1] == "next" else 1
            xs = b.a[2:]
            return con("@next", b.a[1], *[(self.N(x) if i - off in loc else self.P(x)) for i, x in enumerate(xs)])
        return self.P(b)

    def node(self, x):
        if x.op == "ite":
            return ite(self.P(x.a[0]), self.node(x.a[1]), self.node(x.a[2]))
        if x.op == "con" and x.a[0] == LN:
            return self.P(x.a[3])
        if x.op == "app" and x.a[0] == "elt":
            return elt(self.N(x.a[1]), self.P(x.a[2]))
        if x is BOT:
            return BOT
        return self.P(proj(x, LN, "LocatedNode", 1))

    def P(self, t):
        r = self.pmemo.get(t)
        if r is None:
            r = self.pmemo[t] = self._p(t)
        return r

    def _p(self, t):
        if t.op == "proj" and t.a[1] == LN and t.a[3] == 1:
            x = t.a[0]
            if x.op == "app" and x.a[0] == "elt":
                return elt(self.N(x.a[1]), self.P(x.a[2]))
        if t.op == "app" and t.a[0] == "len" and self.is_located(t.a[1]):
            return length(self.N(t.a[1]))
        if t.op == "app" and t.a[0] in self.idmap:
            return self.N(t)
        if t.op == "loop":
            return self.loop(t)
        return rebuild(t, self.P)


def rebuild_proj(t, x):
    if t.op == "tproj":
        return tproj(x, t.a[1])
    return proj(x, t.a[1], t.a[2], t.a[3])
