"""C16: the structure the parser builds for a text, against the grammar's."""
import os
import pickle
import time
import c_parse
from c_parse import *
from tagged import *

# Functions of the parser that read a whole production of the grammar are, where they are used, one
# letter: (type they yield, productions, name of the letter).  Bottom-up.
STEPS = (("Integer", ("int",), "integer"),
         ("String", ("string_literal",), "string"),
         ("Number", ("number",), "number"),
         ("FunctionExpr", ("function",), "call"),
         ("QuerySegment", ("spaced_segment", "segment"), "segment"),
         ("Comparable", ("comparable",), "comparable"),
         ("BasicExpr", ("basic",), "basic-expr"))
# what may come after some of them (on other texts the two may differ in when they give up)
AFTER = {"Number": "=!<>&|)],", "Comparable": "=!<>&|)],", "BasicExpr": "&|)],"}
END = mk("app", "letter", "end")
SINGLE_STEPS = ("Wildcard", "ArraySlice", "Filter", "Descendant")


# ---------------------------------------------------------------- places of a structure
def places(prog, ty, at, cut, root=True):
    """Paths into a value of type `ty`: (path, what is marked in the texts: a letter, "char" or None).
    `cut`: types whose values are letters; `at`: which element of lists is looked at."""
    while ty[0] == "ref" or ty[0] == "adt" and load.short(ty[1]) == "Box":
        ty = ty[2] if ty[0] == "ref" else ty[2][0]
    if ty == ("prim", "bool"):
        yield path(("true", None)), None
        return
    if ty[0] == "tuple" and not ty[1]:
        return
    if ty[0] != "adt":
        raise Giveup("a part of type %s" % (ty,))
    name = load.short(ty[1])
    if name in cut and not root:
        yield path(("word", "1", None)), cut[name]
        if name != "String":
            return
    if name in ("String", "Number", "Integer"):
        yield path(("word", "1", None)), "char"
        yield path(("word", "12", None)), "char"
        return
    if name == "Vec":
        el = ty[2][0]
        en = load.short(el[1])
        i = at.get(en, 0)
        if not any(at.values()):
            yield path(("len", 0, None)), None
            yield path(("len", 1, None)), None
            yield path(("len", 2, None)), None
            yield path(("len", 3, None)), None
        for p, m in places(prog, el, {k: v for k, v in at.items() if k != en}, cut, False):
            yield path(("elem", i, en)) + p, m
        return
    if name == "Option":
        yield path(("variant", "Some", None, None)), None
        for p, m in places(prog, ty[2][0], at, cut, False):
            yield path(("variant", "Some", 0, load.short(ty[2][0][1]))) + p, m
        return
    if name == "SingularQuery":
        q = next(a for a in prog.adts if a.endswith("::Query"))
        for p, m in places(prog, ("adt", q, ()), at, cut, False):
            if not any(s[0] == "variant" and s[1] in SINGLE_STEPS for s in p):
                yield path(("conv", "Query")) + p, m
        return
    d = prog.adts.get(ty[1])
    if d is None:
        raise Giveup("a part of type " + ty[1])
    struct = len(d["variants"]) == 1 and (d.get("kind") == "struct" or d["variants"][0][0] == name)
    for vname, fields in [(v[0], v[1]) for v in d["variants"]]:
        if not struct:
            yield path(("variant", vname, None, None)), None
        for j, f in enumerate(fields):
            if name == "FunctionExpr" and f[0] not in ("name", "args"):
                continue
            tn = load.short(f[1][1]) if f[1][0] == "adt" else "prim"
            step = ("field", f[0], tn) if struct else ("variant", vname, j, tn)
            for p, m in places(prog, f[1], at, cut, False):
                yield path(step) + p, m


LONG = ("QuerySegment", "Selector")
LISTS = ("QuerySegment", "Selector", "LogicalAndExpr", "BasicExpr", "FunctionExprArg")


def all_places(prog, typ, cut):
    adt = {"Integer": None, "String": None, "Number": None}.get(typ, typ)
    if adt is None:
        return [(path(("word", "1", None)), "char"), (path(("word", "12", None)), "char")]
    xs = sorted(a for a in prog.adts if a.endswith("::" + typ) and a.startswith("serde_json_path_core"))
    if not xs:
        raise Missing("the type " + typ)
    ty = ("adt", xs[0], ())
    out = []
    for at in [{}] + [{k: i} for i in (1, 2, 3, 4) for k in LISTS if i < 3 or k in LONG]:
        for p, m in places(prog, ty, at, cut):
            if not at or any(s[0] == "elem" and s[1] for s in p):
                if (p, m) not in out:
                    out.append((p, m))
    return out


def show_path(p, m):
    out = ""
    for s in p:
        if s[0] == "field":
            out += "." + s[1]
        elif s[0] == "variant":
            out += " is " + s[1] if s[2] is None else "." + s[1] + ("" if s[2] == 0 else ".%d" % s[2])
        elif s[0] == "elem":
            out += "[%d]" % s[1]
        elif s[0] == "len":
            out += " has %d elements" % s[1]
        elif s[0] == "word":
            out += " is made of the " + {"char": "marked characters" if s[1] == "12" else "marked character"}.get(m, "marked " + str(m))
        elif s[0] == "true":
            out += " is true"
        elif s[0] == "conv":
            out += "'s query"
    return out


# ---------------------------------------------------------------- exploring
def analyse3(cx, fn, cut=(), roots=(), always=(), hard=(), make=G3):
    g = make(cx, None)
    g.cut, g.roots, g.always, g.small, g.hard = dict(cut), set(roots), set(always), True, dict(hard)
    try:
        for i in range(60):
            g.bdd = L = Lang()
            g.restart()
            try:
                return fn(g, L)
            except NeedSplit:
                continue
    finally:
        cx.engine.called |= g.called
    raise Giveup("too many splits")


class Level:
    """Two parsers compared with each other: the code's and the grammar's."""

    def __init__(self, typ, a, b, follow, ctx, roots, cut, always, hard, name):
        self.typ, self.a, self.b, self.follow, self.ctx, self.roots = typ, a, b, follow, frozenset(ctx), roots
        self.cut, self.always, self.hard, self.name = dict(cut), dict(always), hard, name

    def full(self):
        f = dict(self.cut)
        f.update(self.always)
        for r in self.roots:
            if r in self.always:
                f.pop(r, None)
        return f

    def acceptance(self, cx, seconds=60):
        """None when both accept the same texts."""
        def go(g, L):
            g.prepare((), ())
            e = Explorer(L, seconds=seconds)
            k = g.TOPK
            mkp = (lambda p: p) if self.follow is None else (lambda p: tup(p, self.follow))
            r = e.differ(g.S(mkp(self.a), self.ctx, k, 0), g.S(mkp(self.b), self.ctx, k, 0))
            cx.count("derivative states", e.states)
            cx.count("derivative edges", e.edges)
            return r
        return analyse3(cx, go, self.full(), self.roots, self.lets(), self.hard)

    def lets(self):
        return {k: v for k, v in self.always.items() if k not in self.roots}

    def explore(self, cx, p, mark, seconds, word=None, bounded=0):
        """None, or (text, what the code's value says, what the grammar's says)."""
        if bounded and mark == "integer":
            p, mark = p[:-1] + (("value", None),), None

        def go(g, L):
            g.soft = word is not None
            g.bounded = bounded
            g.prepare([(self.typ, p)], {mark} if mark else ())
            k = g.k("obs", self.follow)
            x, y = g.S(self.a, self.ctx, k, 0), g.S(self.b, self.ctx, k, 0)
            if word is not None:
                return tuple(bits_of(L, at_end(L, n, word)) for n in (x, y))
            e = Explorer(L, seconds=seconds, every=EVERYM, values=True, modes=modes_of(g.target_word))
            r = e.differ(x, y)
            cx.count("derivative states", e.states)
            cx.count("derivative edges", e.edges)
            return None if r is None else (r[0], bits_of(L, r[1]), bits_of(L, r[2]))
        return analyse3(cx, go, self.full(), self.roots, self.lets(), self.hard)


def modes_of(word):
    """Texts with the marked characters the word consists of, in this order, once each."""
    modes = {}
    for i in range(len(word) + 1):
        modes[i] = [(EVERY, i)]
        if i < len(word):
            modes[i].append((shifted(EVERY, word[i]), i + 1))
    return modes, {len(word)}


def at_end(L, n, word):
    f = None
    for c in word:
        if f is not None:
            n = L.node(f)
        _, trans, other = L.of[n]
        f = next((h for d, h in trans if c in d), other)
    if f is not None:
        n = L.node(f)
    return L.of[n][0]


def bits_of(L, e):
    """The observations at the end of a text; None when it is rejected."""
    if e == 0:
        return None
    seen, todo, names = set(), [e], set()
    while todo:
        x = todo.pop()
        if x > 1 and x not in seen:
            seen.add(x)
            v, h, l = L.D.of[x]
            names.add(L.D.atoms[v])
            todo += [h, l]

    def holds(bits):
        x = e
        while x > 1:
            v, h, l = L.D.of[x]
            at = L.D.atoms[v]
            x = h if at[-1] is None or at[-1] == bits else l
        return x == 1
    got = [at[-1] for at in names if at[-1] is not None and holds(at[-1])]
    if len(got) != 1:
        raise Giveup("%d values at the end of a text" % len(got))
    return got[0]


TEXTS = {"string": ['"a"', "'b'"], "integer": ["1", "0", "-3"], "number": ["1", "-2.5", "1e1"],
         "segment": ["[*]", "[1,2]", "..a"], "plain segment": [".a", "[0]", "['x']"], "comparable": ["1", "@.a", "'a'"],
         "basic-expr": ["@.a", "1==1", "(@)", "!@.b"], "logical-expr": ["@.a", "1==1", "$"],
         "function-argument": ["1", "@.a", "@[*]", "1==1", "'a'"]}


def readable(w):
    return "".join(mark_name(c) for c in w)


def concrete(word):
    """Texts a witness stands for: its letters (but not marked ones and calls) replaced."""
    outs = [[]]
    for c in word:
        b, m = unmark(c)
        nm = LETTERS_REV.get(b, "").strip("\u00ab\u00bb")
        if nm in TEXTS and not m:
            outs = [o + [ord(x) for x in t] for o in outs for t in TEXTS[nm]][:80]
        else:
            outs = [o + [c] for o in outs]
    return outs


BOUND = 3
BUDGET = 400        # seconds, then the places left are undecided


def judge(cx, lv, p, mark, seconds):
    """EQ or a difference; lists whole if possible, else up to a length and with sample integers."""
    try:
        return decide_place(cx, lv, p, mark, seconds, 0)
    except Giveup as e:
        why = e
    try:
        d = decide_place(cx, lv, p, mark, seconds, max([BOUND] + [s[1] + 1 for s in p if s[0] == "elem"]))
    except Giveup:
        d = EQ
    if isinstance(d, Diff):
        return d
    raise why


def decide_place(cx, lv, p, mark, seconds, bounded):
    r = lv.explore(cx, p, mark, seconds, bounded=bounded)
    if r is None:
        return EQ
    w, x, y = r
    for t in concrete(w):
        try:
            x, y = lv.explore(cx, p, mark, seconds, word=t, bounded=bounded)
        except Giveup:
            continue
        if x is not None and y is not None and x != y:
            return Diff((), FALSE, TRUE, "for the text %r, that %s%s is %s by the code and %s by the grammar" % (
                readable(t), lv.name, show_path(p, mark), x[0], y[0]))
    raise Giveup("the structures for %s differ, but for no text tried for it" % readable(w))


# ---------------------------------------------------------------- levels
def find_letters(cx, ids, cut, verbose=False):
    """The functions that read whole productions, bottom-up, and the levels at which their structure
    is compared."""
    lets, levels_, hard = {}, [], {}
    for typ, refs, name in STEPS:
        for ref in refs:
            r = "sjp_spec::grammar::" + ref
            if r not in cx.prog.fns:
                raise Missing(r)
            good = []
            for i in by_type(cx, ids, typ):
                lv = [Level(typ, item(i), item(r), f, {"root", "LogicalOrExpr"}, (i, r), cut, lets, hard,
                            typ) for f in (END, tup(*followed(item(r), AFTER[typ]).a[1:]) if typ in AFTER else None)]
                try:
                    t = time.time()
                    d = lv[0].acceptance(cx) or lv[1].acceptance(cx)
                except Giveup as e:
                    d = e
                if verbose:
                    print("   ", typ, load.short(i), "=" if d is None else str(d)[:150], round(time.time() - t, 1), flush=True)
                if d is None:
                    good.append(i)
                    if typ != "String":          # (what strings stand for: C17)
                        levels_.append(lv[0])
            if good:
                for i in good:
                    lets[i] = name
                lets[r] = name
                break
        hard = hardness3(cx, cut, lets)
    return lets, levels_, hard


def hardness3(cx, cut, lets):
    """For every function that is a letter: first characters on which it fails for good."""
    hard = {}
    full = dict(cut)
    full.update(lets)
    for _ in range(3):
        new = {}
        for f in full:
            if f.startswith("sjp_spec"):
                continue

            def go(g, L):
                g.prepare((), ())
                h = g.H(item(f), frozenset({"root", "LogicalOrExpr"}))
                if h == 0:
                    return NONE_, 0
                eh, th, oh = L.of[h]
                out, rest = NONE_, EVERY
                for c, x in th:
                    rest = rest.minus(c)
                    if x == 1:
                        out = out | c
                return (out | rest if oh == 1 else out), 1 if eh == 1 else 0
            try:
                always = {k: v for k, v in lets.items() if k != f}
                c, e = analyse3(cx, go, {k: v for k, v in full.items() if k != f or f in cut}, (f,), always, hard)
            except Giveup:
                c, e = NONE_, 0
            if c or e:
                new[f] = (c, e)
        if new == hard:
            break
        hard = new
    return hard


def top_levels(cx, o, a, cut, lets, hard):
    O, A = "sjp_spec::grammar::logical_or", "sjp_spec::grammar::argument"
    root = entry(cx).id
    out = [Level("Query", item(root), item("sjp_spec::grammar::query_text"), None, {"entry"}, (), cut, lets, hard, "the query")]
    for typ, f, F, follow, name in (("LogicalOrExpr", o, O, ")],", "a logical expression"),
                                    ("FunctionExprArg", a, A, ",)", "a function argument")):
        if f is not None:
            pa, pb = followed(item(f), follow), followed(item(F), follow)
            out.append(Level(typ, pa.a[0], pb.a[0], tup(*pa.a[1:]), {"root", "LogicalOrExpr"}, (f, F), cut, lets, hard, name))
    return out


def tasks_of(cx, lvs):
    out = []
    for lv in lvs:
        letters_ = set(lv.lets().values()) | set(lv.cut.values())
        names = {t: n for t, _, n in STEPS}
        names.update({"LogicalOrExpr": "logical-expr", "FunctionExprArg": "function-argument"})
        cut = {t: n for t, n in names.items() if n in letters_ and (t != lv.typ or t in ("LogicalOrExpr", "FunctionExprArg"))}
        for p, m in all_places(cx.prog, lv.typ, cut):
            out.append((lv, p, m))
    return out


# ---------------------------------------------------------------- several processes
def in_parallel(jobs, fn, workers=8):
    """fn(job) for every job, in forked processes; the results in order (None where one failed)."""
    res = [None] * len(jobs)
    kids = []
    for w in range(min(workers, len(jobs))):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                with os.fdopen(wfd, "wb") as f:
                    for i in range(w, len(jobs), workers):
                        try:
                            out = fn(jobs[i])
                        except Exception as e:        # a construct outside the models
                            import traceback
                            out = ("unk", "construct outside the models: %s: %s (%s)" % (
                                type(e).__name__, str(e)[:200], traceback.extract_tb(e.__traceback__)[-1].name), {})
                        pickle.dump((i, out), f)
                        f.flush()
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(wfd)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            while True:
                try:
                    i, x = pickle.load(f)
                except EOFError:
                    break
                except Exception:
                    break
                res[i] = x
        os.waitpid(pid, 0)
    return res


def C16(cx):
    root = entry(cx)
    ids = {i for i in reachable(call_graph(cx.prog), root.id) if parser_output(cx.prog.fns[i]) is not None}
    cx.count("parser functions", len(ids))
    cs_ = cuts(cx)
    if not cs_:
        raise Giveup("no functions at which the recursion of the grammar can be broken")
    o, a = cs_[0]
    cut, _ = levels(cx, o, a)
    lets, lvs, hard = find_letters(cx, ids, cut)
    lvs = lvs + top_levels(cx, o, a, cut, lets, hard)
    tasks = tasks_of(cx, lvs)
    started = time.time()

    def one(t):
        lv, p, m = t
        cx.counts.clear()
        try:
            if time.time() - started > BUDGET:
                raise Giveup("out of time")
            d = judge(cx, lv, p, m, 40)
            out = ("eq",) if d is EQ else ("diff", d.why)
        except Giveup as e:
            out = ("unk", str(e))
        return out + (dict(cx.counts), )
    res = in_parallel(tasks, one)
    for (lv, p, m), r in zip(tasks, res):
        fid = lv.a.a[0]
        fn = cx.prog.fns[fid] if fid in cx.prog.fns else root
        label = "%s: whether %s%s is what the grammar says" % (fn.label(), lv.name, show_path(p, m))
        if r is None:
            cx.record(label, Unk((), "the analysis of it ended early"), where=where(fn))
            continue
        for k, v in r[-1].items():
            cx.count(k, v)
        d = EQ if r[0] == "eq" else Diff((), FALSE, TRUE, r[1]) if r[0] == "diff" else Unk((), r[1])
        cx.record(label, d, where=where(fn))
