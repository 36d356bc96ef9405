"""Which structure a parser builds for a text.

The languages of peg.py carry, besides acceptance, what the parsed value looks like at a number of
places (paths into the structure).  Texts may have marked characters: a place then records which
marked characters of the text its value was made from, and in which order.  Two parsers that record
the same at every place, for every text both accept, put every part of the text into the same place.

Values are followed forward through the parser's own closures.  On leaving a function that yields a
node of the structure the value is reduced to what the places still to be looked at say about it;
lists are reduced to their first elements and what holds for all the rest."""
import load, peg
import engine
from peg import *

MARK = 0x400000
MARKS = ("", "1", "2")
MSHIFT = {"": 0, "1": MARK, "2": 2 * MARK}
LETTER_TYPES = {"LogicalOrExpr", "FunctionExprArg", "Integer", "String", "Number", "Comparable", "BasicExpr"}


def shifted(c, m):
    d = MSHIFT[m]
    return Cs([(a + d, b + d) for a, b in c.ivs]) if d else c


def marked(c, ms):
    r = c
    for m in ms:
        r = r | shifted(c, m)
    return r


EVERYM = marked(EVERY, MARKS)


def unmark(c):
    return (c % MARK, MARKS[c // MARK])


def mark_name(c):
    b, m = unmark(c)
    return chr_name(b) + ("\u2460\u2461"[int(m) - 1] if m else "")


def var_word(name):
    return name.split(":", 1)[1] if ":" in name else ""


def has_tail(name):
    return name.startswith(("w", "text", "Number", "Integer"))


KINDS = {"segment": ("", "plain "), "call": ("Value ", "Logical ", "Nodelist ")}


class TextValue(Giveup):
    """The number t, made of the number v a text stands for and of the text itself."""

    def __init__(self, t, v):
        super().__init__("the value %s" % show(t)[:160])
        self.t, self.v = t, v


# functions of texts, and characters some of which they change or remove
CHANGES = {"str_to_lowercase": [("A", "Z")], "str_to_ascii_lowercase": [("A", "Z")], "str_to_uppercase": [("a", "z")],
           "str_to_ascii_uppercase": [("a", "z")], "str_trim": [(" ", " ")], "str_trim_start": [(" ", " ")],
           "str_trim_end": [(" ", " ")]}


class NeedWant(NeedSplit):
    """A condition asks something about a part of the structure that is not remembered."""

    def __init__(self, what):
        self.what = what


class Dropped(Exception):
    """A list longer than the lists looked at."""


class G3(G2):
    """Grammar whose languages are tagged with observations of the value."""
    cap = 3
    paths = ()                 # what is observed of the value of the whole
    markable = frozenset()     # "char" and names of letters
    bounded = 0                # lists are looked at element by element, up to this many
    extra = ()                 # (type, path) asked for by conditions
    soft = False               # cut functions read letters as well as texts

    def prepare(self, paths, markable, cap=3, singular=True):
        self.paths, self.markable, self.cap = tuple(paths), frozenset(markable), cap
        self.target_word = next((q[1] for ty, p in self.paths for q in p if q[0] == "word"), "")
        self.marks = ("",) + tuple(sorted(set(self.target_word)))
        self.cms = self.marks if "char" in self.markable else ("",)
        self.wanted = {}       # type -> set of rests of paths
        self.elem = {}         # (type, index or "all") -> set of rests of paths
        self.tokens = {}
        self.most = 1
        if singular:
            self.want("Query", SINGULAR)
        for ty, p in list(self.paths) + list(self.extra):
            self.want(ty, p)

    def want(self, ty, p):
        """Every rest of a path, by the type it starts at."""
        if not p or p in self.wanted.setdefault(ty, set()):
            return
        self.wanted[ty].add(p)
        s = p[0]
        if s[0] in ("all of", "any of"):
            for q in s[1]:
                self.want(ty, q)
            return
        if s[0] == "every":
            self.elem.setdefault((s[-1], "all"), set()).add(s[1])
            self.want(s[-1], s[1])
        elif s[0] == "len":
            self.most = max(self.most, s[1] + 1)
        elif s[0] == "elem":
            self.most = max(self.most, s[1] + 1)
            self.elem.setdefault((s[-1], s[1]), set()).add(p[1:])
        if s[-1] and s[0] != "every":
            self.want(s[-1], p[1:])

    # ------------------------------------------------------------ marks
    def charvar(self, c, n, site):
        raise AssertionError

    def charmark(self, c, m, site):
        v = V("c%d.%d:%s" % (id_of(c), id_of(site) if site in self.parted else 0, m))
        TYPED[v] = "char"
        self.classes[v] = c
        self.sites.setdefault(v, set()).add(site)
        return v

    def oneof(self, c, k, n, site):
        B, r = self.bdd, 0
        if not (k.wants_value or k.wants_text or k.mark):
            return B.atom(("step", marked(c, self.cms), self.thunk(k, UNIT, NIL, n)))
        for b in self.blocks(c, site):
            for m in self.cms:
                v = self.charmark(b, m, site)
                r = B.OR(r, self.stepm(b, m, k, v, unit(v), n))
        return r

    def stepm(self, c, m, k, val, txt, n):
        """The next character is one of c with the mark m."""
        if not c:
            return 0
        if k.mark is not None:
            r = 0
            for c2, q in k.mark[0].delta.get(k.mark[1], ()):
                if c & c2:
                    r = self.bdd.OR(r, self.bdd.atom(("step", shifted(c & c2, m), self.thunk(self.shift(k, q), val, txt, n))))
            return r
        return self.bdd.atom(("step", shifted(c, m), self.thunk(k, val, txt, n)))

    def fails(self, c):
        return self.bdd.NOT(self.bdd.atom(("step", marked(c, self.cms), None)))

    def whiles(self, c, lo, hi, cnt, tx, k, n, site):
        B = self.bdd
        if hi is not None and cnt >= hi:
            return self.run(k, tx, tx, n)
        nxt = min(cnt + 1, max(lo, 1)) if hi is None else cnt + 1
        r = 0
        if hi is None:
            if cnt == 0:
                tx = V("w%d:" % id_of(c))
            here = tx.a[0].split(":", 1)
            for m in self.cms:
                t2 = V(here[0] + ":" + self.capped(here[1] + m)) if k.wants_value or k.wants_text else V("w%d:" % id_of(c))
                r = B.OR(r, self.stepm(c, m, self.k("while", c, lo, hi, nxt, t2, k, None), UNIT, NIL, n))
            out = tx if cnt else NIL
        else:
            for b in self.blocks(c, (site, cnt)):
                for m in self.cms:
                    v = self.charmark(b, m, (site, cnt))
                    t2 = cat(tx, unit(v))
                    if cnt >= 4:
                        t2 = self.short(t2)
                    r = B.OR(r, self.stepm(b, m, self.k("while", c, lo, hi, nxt, t2, k, site), UNIT, NIL, n))
            out = tx
        if cnt >= lo:
            r = B.OR(r, B.AND(self.fails(c), self.run(k, out, out, n)))
        return r

    # ------------------------------------------------------------ texts
    def capped(self, w):
        return w if w in self.target_word else "x"

    def word(self, t):
        """The marks (and constant characters) a text is made of; None when it is something else."""
        out = ""
        for p in parts(t):
            if p.op == "lit":
                out += p.a[0].replace("1", "one").replace("2", "two")
            elif p.op == "unit":
                x = p.a[0]
                if is_num(x):
                    out += chr(x.a[0])
                elif x.op == "var" and x in self.classes and isinstance(self.classes[x], Cs):
                    out += var_word(x.a[0])
                elif fvars(x) and all(y.op == "var" and y in self.classes for y in fvars(x)):
                    out += "x"          # a character computed from others (an escape)
                else:
                    return None
            elif p.op == "var" and has_tail(p.a[0]):
                out += var_word(p.a[0])
            elif p.op == "app" and p.a[0] in CHANGES and self.changes(p):
                return "x"
            else:
                return None
        return self.capped(out)

    def changes(self, p):
        """Is there a text the function changes?"""
        cs = Cs([(ord(a), ord(b)) for a, b in CHANGES[p.a[0]]])
        for q in parts(p.a[1]):
            c = None
            if q.op == "unit":
                c = self.classes.get(q.a[0]) if q.a[0].op == "var" else Cs([(q.a[0].a[0],) * 2]) if is_num(q.a[0]) else None
            elif q.op == "var" and q.a[0].startswith("w"):
                c = of_id(int(q.a[0][1:].split(":")[0]))
            if isinstance(c, Cs) and c & cs:
                return True
        return False

    def is_text(self, t):
        return self.word(t) is not None

    def stuck(self, t, what):
        """The analysis cannot go on with a term: with the characters it asks about split, perhaps."""
        for x in all_terms(t):
            if x.op == "ite":
                for y in all_terms(x.a[0]):
                    if y.op == "ge0" or y.op == "app" and y.a[0] == "eq":
                        self.split_on(y)
        raise Giveup(what + " " + show(t)[:200])

    def short(self, t):
        """A text that grows in a loop, reduced."""
        w = self.word(t)
        if w is None:
            self.stuck(t, "text")
        return V("text:" + w) if t is not NIL else NIL

    # ------------------------------------------------------------ continuations
    def wants_value(self, kind, d):
        if kind in ("obs", "loop3", "slist", "declared3", "conv"):
            return kind in ("obs", "conv") or [x for x in d if isinstance(x, Kont)][0].wants_value
        if kind in ("numw", "tagged"):
            return False
        if kind == "ret":
            return d[1].wants_value and not self.pointless(d[0])
        return super().wants_value(kind, d)

    def wants_text(self, kind, d):
        if kind in ("recognize", "consumed"):
            return d[0].wants_value or d[0].wants_text
        if kind == "numw":
            return d[1].wants_value or d[1].wants_text
        if kind in ("loop3", "slist", "declared3", "conv"):
            return [x for x in d if isinstance(x, Kont)][0].wants_text
        if kind in ("obs", "tagged"):
            return False
        return super().wants_text(kind, d)

    def run(self, k, val, txt, n):
        kind, d = k.kind, k.d
        if kind in ("obs", "tagged", "loop3", "slist", "declared3", "numw", "conv"):
            if not k.wants_value:
                val = UNIT
            if not k.wants_text:
                txt = NIL
            return getattr(self, "run_" + kind)(k, d, val, txt, n)
        if kind == "while":
            c, lo, hi, cnt, tx, up, site = d
            return self.whiles(c, lo, hi, cnt, tx, up, n, site)
        return super().run(k, val, txt, n)

    def k(self, kind, *d):
        if kind == "seq" and d[3] is not NIL and len(parts(d[3])) > 2 and self.is_text(d[3]):
            d = d[:3] + (self.short(d[3]),) + d[4:]
        return super().k(kind, *d)

    def run_obs(self, k, d, val, txt, n):
        follow = d[0]
        bits = tuple(self.test(val, p) for ty, p in self.paths)
        kk = self.k("tagged", bits)
        return self.run(kk, UNIT, NIL, n) if follow is None else self.S(follow, frozenset(), kk, n)

    def run_tagged(self, k, d, val, txt, n):
        return self.bdd.AND(self.bdd.atom(("eps", self, None)), self.bdd.atom(("eps", self, d[0])))

    # ------------------------------------------------------------ lists and folds
    def star(self, a, ctx, k, n, pred, bad, kind="L", first=True):
        step = None
        if kind == "fold" and k.wants_value:
            raise Giveup("a count of repetitions")
        return self.loop3(a, ctx, k, n, step, NIL, NIL)

    def _S(self, p, ctx, k, n):
        f = self.form(p)
        if f[0] == "fold" and f[2] is not None and not f[4]:
            init = self.simp(self.apply(f[2], [])) if k.wants_value else UNIT
            return self.loop3(f[1], ctx, k, n, f[3], init, NIL)
        if f[0] == "many1":
            return self.S(f[1], ctx, self.k("loop3", f[1], ctx, k, None, NIL, NIL), n)
        if f[0] == "seplist":
            sep, a, lo = f[1:]
            r = self.S(a, ctx, self.k("slist", sep, a, ctx, k, NIL, NIL), n)
            if not lo:
                r = self.bdd.OR(r, self.bdd.AND(self.F(a, ctx), self.run(k, NIL, NIL, n)))
            return r
        if f[0] in ("map_res", "map_opt"):
            cv = self.conversion(f[2])
            if cv:
                return self.S(f[1], ctx, self.k("conv", k), n)
            if f[0] == "map_res" and self.is_declaration(f[2]) and self.text_predicate(f[2], (RES, "Ok")) is None:
                return self.S(f[1], ctx, self.k("declared3", f[2], k), n)
        return super()._S(p, ctx, k, n)

    def loop3(self, a, ctx, k, n, step, acc, tx):
        key = ("loop3", a, ctx, k, step, acc, tx, n)
        r = self.memoS.get(key)
        if r is None:
            if key in self.busy:
                raise Giveup("repetition of a parser that may read nothing")
            self.busy.add(key)
            try:
                go = self.S(a, ctx, self.k("loop3", a, ctx, k, step, acc, tx), n)
            finally:
                self.busy.discard(key)
            r = self.memoS[key] = self.bdd.OR(go, self.bdd.AND(self.F(a, ctx), self.run(k, acc, tx, n)))
        return r

    def run_loop3(self, k, d, val, txt, n):
        a, ctx, up, step, acc, tx = d
        if k.wants_value:
            try:
                acc = self.push(acc, val) if step is None else self.folded3(step, acc, val)
            except Dropped:
                return 0
        if k.wants_text:
            tx = self.short(cat(tx, txt))
        return self.loop3(a, ctx, up, n, step, acc, tx)

    def run_slist(self, k, d, val, txt, n):
        sep, a, ctx, up, acc, tx = d
        if k.wants_value:
            try:
                acc = self.push(acc, val)
            except Dropped:
                return 0
        if k.wants_text:
            tx = self.short(cat(tx, txt))
        q = mk("app", "nom::sequence::preceded", sep, a)
        go = self.S(q, ctx, self.k("slist", sep, a, ctx, up, acc, tx), n)
        return self.bdd.OR(go, self.bdd.AND(self.F(q, ctx), self.run(up, acc, tx, n)))

    def folded3(self, step, acc, val):
        t = self.simp(self.apply(step, [acc, val]))
        if t.op in ("cat", "unit", "lit") or t.op == "var" or t is NIL:
            return self.reduced(t)
        if size(t) > 60:
            self.stuck(t, "fold")
        return t

    def push(self, acc, val):
        return self.reduced(cat(acc, unit(val)))

    def reduced(self, t):
        """A list or text with a bounded number of forms: the first elements with what is asked about
        them, whether there are more, and what holds for all."""
        if self.is_text(t):
            return self.short(t)
        if self.bounded:
            if any(p.op != "unit" for p in parts(t)):
                self.stuck(t, "list")
            if len(parts(t)) > self.bounded:
                raise Dropped()
            return t
        out, more, every = [], False, None
        for p in parts(t):
            if p.op == "unit":
                x = p.a[0]
                ty = self.type_of(x)
                if ty is None:
                    raise Giveup("list of " + show(x)[:80])
                if ty != "elem":
                    bits = {q: self.test(x, q) for q in self.elem.get((ty, "all"), ())}
                    every = bits if every is None else {q: v and every[q] for q, v in bits.items()}
                if len(out) >= self.most:
                    more = True
                else:
                    need = self.elem.get((ty, len(out)), ())
                    out.append(unit(x if ty == "elem" else self.token("elem", {q: self.test(x, q) for q in need})))
            elif p.op == "var" and p.a[0].startswith("more"):
                more = True
            elif p.op == "var" and p.a[0].startswith("every"):
                bits = self.tokens[p]
                every = dict(bits) if every is None else {q: v and every[q] for q, v in bits.items()}
            else:
                self.stuck(t, "list")
        if more:
            out.append(V("more"))
        if every:
            out.append(self.token("every", every))
        return cat(*out)

    def type_of(self, t):
        if t.op == "var" and "{" in t.a[0]:
            return t.a[0].split("{", 1)[0]
        if t.op == "var" and t.a[0].split(":")[0] in LETTER_TYPES:
            return t.a[0].split(":")[0]
        if t.op == "con":
            return load.short(t.a[0])
        return None

    def token(self, ty, bits):
        key = "%s{%s}" % (ty, ",".join("%d=%d" % (id_of(("path", p)), b if isinstance(b, bool) else 2 + id_of(("text", b))) for p, b in sorted(bits.items(), key=lambda z: str(z[0]))))
        v = V(key)
        self.tokens[v] = bits
        return v

    # ------------------------------------------------------------ leaving functions
    def pointless(self, ty):
        """Nothing is asked about the values of this type."""
        return ty in NODES and ty != "FunctionExpr" and not self.wanted.get(ty) \
            or ty in ("Number", "Integer") and not self.wanted.get(ty) \
            or ty == "String" and not self.markable

    def ret(self, ty, up, val, txt, n):
        if up.wants_value and self.pointless(ty):
            val = V("text:") if ty == "String" else V(ty + ":") if ty in LETTER_TYPES else self.token(ty, {})
        elif up.wants_value and ty in self.node_types():
            val = self.reduce_node(ty, val)
        return self.run(up, val, txt, n)

    def node_types(self):
        return NODES

    def reduce_node(self, ty, val):
        if ty == "FunctionExpr":
            return val
        if val.op == "var" and (val in self.tokens or val.a[0].startswith(ty + ":")):
            return val
        return self.token(ty, {p: self.test(val, p) for p in self.wanted.get(ty, ()) if p[0][0] != "word"})

    def body(self, what, p, ctx, k, n):
        fid, args, at = self.target(p)
        fn = self.prog.fns.get(fid) if fid else None
        ty = type_name(parser_output(fn)) if fn is not None and fn.kind != "Closure" else None
        if fid in self.cut and fid and self.is_cut(fid, ty, ctx):
            nm = self.cut[fid]
            ms = self.marks if nm in self.markable else ("",)
            kinds = KINDS.get(nm, ("",))
            if nm == "integer" and self.bounded:
                kinds = ("0 ", "1 ", "-1 ", "7 ")
            c = NONE_
            for x in kinds:
                c = c | Cs([(letter(x + nm),) * 2])
            B = self.bdd
            if what == "H":
                if self.soft:
                    return super().body_of(what, p, ctx, k, n, fid, args, at, ty)
                hs, he = self.hard.get(fid, (NONE_, 0))
                return B.mk(he, ((marked(hs.minus(c), self.marks), 1),), 0)
            r = 0
            for x in kinds:
                for m in ms:
                    v = self.letter_value(ty, x, m)
                    r = B.OR(r, self.stepm(Cs([(letter(x + nm),) * 2]), m, k, v, V("text:"), n))
            if self.soft:
                r = B.OR(r, super().body_of(what, p, ctx, k, n, fid, args, at, ty))
            return r
        return super().body_of(what, p, ctx, k, n, fid, args, at, ty)

    def letter_value(self, ty, x, m):
        if ty == "String":
            return V("text:" + m)
        if ty == "FunctionExpr":
            tok = self.token("function", {p: m == p[0][1] for p in self.wanted.get(ty, ())})
            fe = self.fexpr(x.strip())
            return mk("con", *[tok if y is V("function name") else y for y in fe.a])
        if ty == "Integer" and x:
            adt = next(a for a in self.prog.adts if a.endswith("::Integer") and a.startswith("serde_json_path_core"))
            return con(adt, self.prog.adts[adt]["variants"][0][0], num(int(x)))
        if ty == "QuerySegment":
            return self.token(ty, {p: m == p[0][1] if p[0][0] == "word" else x != "" for p in self.wanted.get(ty, ())})
        return V("%s:%s" % (ty, m))

    def filtered(self, p, ctx, tp, k, n):
        d, val, v = tp
        return self.S(p, ctx, self.k("mark", d, 0, self.k("numw", (val, v), k)), n)

    def run_numw(self, k, d, val, txt, n):
        (t, v), up = d
        if not (up.wants_value or up.wants_text):
            return self.run(up, UNIT, NIL, n)
        w = self.word(txt)
        if w is None:
            raise Giveup("text " + show(txt)[:100])
        if any(x is V("whole text") for x in all_terms(t)):
            raise TextValue(t, v)
        y = V(v.a[0] + ":" + w)
        whole = {con(engine.INT_ADT, "Integer", v): V("Integer:" + w)} if v.a[0] in engine.PRIM_RANGE else {}
        return self.run(up, self.simp(replace(replace(t, whole), {v: y})), txt, n)

    # ------------------------------------------------------------ conditions on parts of the structure
    def rewrite(self, t):
        t = super().rewrite(t)
        for i in range(20):
            m = {}
            for x in all_terms(t):
                if x.op == "app" and isinstance(x.a[0], str) and len(x.a) > 1:
                    y = list_op(x)
                    if y is not None:
                        m[x] = y
                elif x.op == "is":
                    b = self.known(x.a[0], ("variant", x.a[2], None, None))
                    if b is not None:
                        m[x] = TRUE if b else FALSE
                elif x.op == "ge0" or x.op == "app" and x.a[0] == "eq" and is_num(x.a[2]):
                    b = self.known_length(x)
                    if b is not None:
                        m[x] = TRUE if b else FALSE
            if not m:
                return t
            t = Facts().simp(replace(t, m))
        return t

    def part(self, t):
        """(token, steps of the path, type) when t is a part of something reduced to a token."""
        if t.op == "var" and t in self.tokens:
            ty = self.type_of(t)
            adts = [a for a in self.prog.adts if a.endswith("::" + str(ty)) and a.startswith("serde_json_path_core")]
            return (t, (), ("adt", adts[0], ())) if len(adts) == 1 else None
        if t.op == "proj":
            r = self.part(t.a[0])
            d = self.prog.adts.get(t.a[1])
            if r is None or d is None:
                return None
            fs = next(v[1] for v in d["variants"] if v[0] == t.a[2])
            fname, fty = fs[t.a[3]][:2]
            while fty[0] == "adt" and load.short(fty[1]) == "Box":
                fty = fty[2][0]
            tn = load.short(fty[1]) if fty[0] == "adt" else "prim"
            struct = len(d["variants"]) == 1 and (d.get("kind") == "struct" or d["variants"][0][0] == load.short(t.a[1]))
            step = ("field", fname, tn) if struct else ("variant", t.a[2], t.a[3], tn)
            return r[0], r[1] + (step,), fty
        if t.op == "app" and t.a[0] == "elt" and is_num(t.a[2]):
            r = self.part(t.a[1])
            if r is None or r[2][0] != "adt" or load.short(r[2][1]) != "Vec":
                return None
            el = r[2][2][0]
            return r[0], r[1] + (("elem", t.a[2].a[0], load.short(el[1])),), el
        return None

    def known(self, t, step):
        r = self.part(t)
        if r is None:
            return None
        return self.ask(r[0], r[1] + (step,))

    def ask(self, tok, p):
        b = self.tokens[tok].get(p)
        if b is None:
            what = (self.type_of(tok), p)
            if what in self.extra:
                raise Giveup("what is known of %s" % show(tok)[:80])
            self.extra = tuple(self.extra) + (what,)
            raise NeedWant(what)
        return b

    def known_length(self, x):
        c, m = as_lin(x.a[0] if x.op == "ge0" else x.a[1])
        if len(m) != 1:
            return None
        (y, k), = m.items()
        if not (y.op == "app" and y.a[0] == "len" and k in (1, -1)):
            return None
        r = self.part(y.a[1])
        if r is None:
            return None
        most = max(-c if k == 1 else c, 0) if x.op == "ge0" else max(abs(x.a[2].a[0] - c), 0)
        if most > 4:
            return None
        n = next((j for j in range(most + 1) if self.ask(r[0], r[1] + (("len", j, None),))), None)
        if x.op == "ge0":
            return (k == 1) if n is None else c + k * n >= 0
        return False if n is None else c + k * n == x.a[2].a[0]

    # ------------------------------------------------------------ singular queries
    def conversion(self, f):
        """Is f the conversion of a query into a singular one, and nothing else?"""
        key = ("conv", f)
        if key not in self.bodies:
            self.bodies[key] = self._conversion(f)
        return self.bodies[key]

    def _conversion(self, f):
        fn = self.prog.fns.get(f.a[0] if f.op == "clo" else self.local(f))
        if fn is not None:
            o = closure_output(fn) if fn.kind == "Closure" else fn.output
            if fn.body is None or not (o and o[0] == "adt" and o[1] == RES and type_name(o[2][0]) == "SingularQuery"):
                return False
        elif not (f.op == "fn" and any("::SingularQuery" in str(x) for x in f.a[2:])):
            return False
        q = V("q?")
        tf = [g for g in self.prog.fns.values() if g.kind != "Closure" and g.of == "traitimpl" and g.name == "try_from"
              and g.self_head and load.short(g.self_head) == "SingularQuery" and g.body is not None]
        if len(tf) != 1:
            raise Giveup("conversion to SingularQuery")
        return self.apply(f, [q]) is self.run_local(tf[0].id, [q]) or self.differ_conv(f)

    def differ_conv(self, f):
        raise Giveup("conversion to SingularQuery: " + show(f)[:100])

    def run_conv(self, k, d, val, txt, n):
        if val not in self.tokens:
            raise Giveup("conversion of " + show(val)[:80])
        bits = self.tokens[val]
        if not bits[SINGULAR]:
            return 0
        return self.run(d[0], self.token("SingularQuery", {p: bits[p[1:]] for p in self.wanted.get("SingularQuery", ())}), txt, n)

    # ------------------------------------------------------------ functions
    def run_declared3(self, k, d, val, txt, n):
        f, up = d
        B, r = self.bdd, 0
        bits = {}
        if k.wants_value:
            name, args = self.declared_parts(f, val)
            for p in self.wanted.get("FunctionExpr", ()):
                if p and p[0][1] == "name":
                    bits[p] = self.test(name, p[1:])
                elif p and p[0][1] == "args":
                    bits[p] = self.test(args, p[1:])
                else:
                    raise Giveup("observation of a function expression")
        for ty in ("Value", "Logical", "Nodelist"):
            c = Cs([(letter("declared %s" % ty),) * 2])
            fe = self.fexpr(ty)
            tok = self.token("function", bits)
            fe = mk("con", *[tok if isinstance(x, T) and x is V("function name") else x for x in fe.a])
            r = B.OR(r, self.stepm(c, "", up, fe, NIL, n))
        return r

    def declared_parts(self, f, val):
        fn = self.prog.fns.get(f.a[0] if f.op == "clo" else self.local(f))
        if not (val.op == "tup" and len(val.a) == 2):
            raise Giveup("declaration of " + show(val)[:80])
        if fn.crate == "sjp_spec":
            return val.a
        key = ("declared", f)
        r = self.bodies.get(key)
        if r is None:
            t = self.apply(f, [tup(V("fname"), V("fargs"))])
            leaves = set()

            def go(x):
                if x.op == "ite":
                    go(x.a[1])
                    go(x.a[2])
                elif x.op == "con" and x.a[0] == RES and x.a[1] == "Ok":
                    leaves.add(x.a[2])
                elif not (x.op == "con" and x.a[0] == RES) and x is not BOT:
                    leaves.add(None)
            go(t)
            got = set()
            for x in leaves:
                if x is None or x.op != "con":
                    raise Giveup("declaration of a function")
                got.add((self.fieldof(x, "name"), self.fieldof(x, "args")))
            if len(got) != 1:
                raise Giveup("declaration of a function")
            r = self.bodies[key] = got.pop()
        m = {V("fname"): val.a[0], V("fargs"): val.a[1]}
        return tuple(self.simp(replace(x, m)) for x in r)

    def fieldof(self, t, name):
        d = self.prog.adts[t.a[0]]
        for vn, fields in [(v[0], v[1]) for v in d["variants"]]:
            if vn == t.a[1]:
                for i, f in enumerate(fields):
                    if f[0] == name:
                        return t.a[2 + i]
        raise Giveup("field %s of %s" % (name, show(t)[:60]))

    # ------------------------------------------------------------ observations
    def test(self, t, p):
        """Does the value t have the property the path p ends in?"""
        if not p:
            return True
        if t.op == "var" and t in self.tokens:
            b = self.tokens[t].get(p)
            if b is None and p[0][0] == "word":
                return False            # a structure read from the text is not the marked letter
            if b is None:
                raise Giveup("what is known of %s" % show(t)[:80])
            return b
        s = p[0]
        k = s[0]
        if t.op == "con" and load.short(t.a[0]) == "JsonPath" and k != "word":
            return self.test(t.a[2], p)
        if t.op == "con" and load.short(t.a[0]) == "FunctionExpr":
            tok = next((x for x in t.a[2:] if isinstance(x, T) and x in self.tokens), None)
            if tok is None:
                raise Giveup("a function expression")
            return self.test(tok, p)
        if k == "value":
            if t.op == "con" and all(is_num(x) for x in t.a[2:]):
                return show(t)
            raise Giveup("value " + show(t)[:100])
        if k == "word":
            if not self.markable:
                raise Giveup("marks")
            if t.op == "var" and ":" in t.a[0] and not has_tail(t.a[0]):
                return self.capped(var_word(t.a[0])) == s[1]
            w = self.word(t)
            if w is None:
                self.stuck(t, "text")
            return w == s[1]
        if k == "true":
            if t is TRUE or t is FALSE:
                return t is TRUE
            raise Giveup("condition " + show(t)[:100])
        if k == "variant":
            t = self.simp(t)
            if t.op != "con":
                self.stuck(t, "variant of")
            if t.a[1] != s[1]:
                return False
            return self.test(t.a[2 + s[2]], p[1:]) if s[2] is not None else True
        if k == "field":
            if t.op != "con":
                raise Giveup("field of " + show(t)[:100])
            return self.test(self.fieldof(t, s[1]), p[1:])
        if k in ("len", "elem", "every"):
            ps = [] if t is NIL else list(parts(t))
            every = None
            if ps and ps[-1].op == "var" and ps[-1].a[0].startswith("every"):
                every = self.tokens[ps.pop()]
            more = bool(ps) and ps[-1] is V("more")
            if more:
                ps.pop()
            if any(x.op != "unit" for x in ps):
                raise Giveup("list " + show(t)[:100])
            if k == "len":
                if more and s[1] > len(ps):
                    raise Giveup("length %d" % s[1])
                return len(ps) == s[1] and not more
            if k == "elem":
                if s[1] >= len(ps):
                    if more:
                        raise Giveup("element %d" % s[1])
                    return False
                return self.test(ps[s[1]].a[0], p[1:])
            if every is not None:
                return every[s[1]]
            return all(self.test(x.a[0], s[1]) for x in ps)
        if k == "all of":
            return all(self.test(t, q) for q in s[1])
        if k == "any of":
            return any(self.test(t, q) for q in s[1])
        raise AssertionError(k)


def list_op(x):
    """What an operation on a list of known length yields (#out0: the list afterwards)."""
    f, args = x.a[0].split("::")[-1], x.a[1:]
    l = args[0]
    if not isinstance(l, T) or l.op not in ("cat", "unit") or any(p.op != "unit" for p in parts(l)):
        return None
    ps = [p.a[0] for p in parts(l)] if l is not NIL else []
    ns = [y.a[0] if is_num(y) else None for y in args[1:]]

    def at(i, n=len(ps)):
        return ns[i] is not None and 0 <= ns[i] < n
    out = None
    if f == "swap#out0" and len(ns) == 2 and at(0) and at(1):
        out = list(ps)
        out[ns[0]], out[ns[1]] = ps[ns[1]], ps[ns[0]]
    elif f == "remove#out0" and len(ns) == 1 and at(0):
        out = ps[:ns[0]] + ps[ns[0] + 1:]
    elif f == "remove" and len(ns) == 1 and at(0):
        return ps[ns[0]]
    elif f == "swap_remove#out0" and len(ns) == 1 and at(0):
        out = list(ps)
        out[ns[0]] = out[-1]
        out.pop()
    elif f == "swap_remove" and len(ns) == 1 and at(0):
        return ps[ns[0]]
    elif f == "insert#out0" and len(ns) == 2 and at(0, len(ps) + 1):
        out = ps[:ns[0]] + [args[2]] + ps[ns[0]:]
    elif f in ("rotate_left#out0", "rotate_right#out0") and len(ns) == 1 and at(0, len(ps) + 1):
        k = ns[0] if f == "rotate_left#out0" else len(ps) - ns[0]
        out = ps[k:] + ps[:k]
    return None if out is None else cat(*[unit(y) for y in out])


def path(*steps):
    return tuple(steps)


CHILD = path(("field", "kind", "QuerySegmentKind"), ("variant", "Child", None, None))
NAME_OR_INDEX = path(("any of", (path(("variant", "Name", None, None)), path(("variant", "Index", None, None))), None))
SINGLE = path(("variant", "LongHand", 0, "Vec"),
              ("all of", (path(("len", 1, None)), path(("elem", 0, "Selector")) + NAME_OR_INDEX), None))
DOT = path(("variant", "DotName", None, None))
SINGULAR = path(("field", "segments", "Vec"),
                ("every", path(("all of", (CHILD, path(("field", "segment", "Segment"), ("any of", (DOT, SINGLE), None))), None)),
                 "QuerySegment"))

NODES = {"Query", "QuerySegment", "Segment", "Selector", "Name", "Index", "Slice", "Filter", "LogicalOrExpr", "LogicalAndExpr",
         "BasicExpr", "ExistExpr", "ComparisonExpr", "Comparable", "ComparisonOperator", "Literal", "SingularQuery",
         "FunctionExprArg"}
