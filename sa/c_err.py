"""C29: parse errors carry a position inside the text and a message."""
from ctx import *
from c_eval import V
from c_list import leaves, case
import c_parse

OFFSET = "nom::traits::Offset::offset"
# Texts and where the parser's first error for them is, by the grammar and nom's combinators
# (the character after the longest query, when that is not a failure of a cut parser).
MODELS = {"": 0, "\u00e9": 0, "$\u00e9": 1, "$.\u00e9 \u00e9": 4, "$\U0001f600": 1, " ": 0}
EXTRA = [" $.\u00e9 \u00e9", "$.\u00e9 \u00e9 "]


def strip_text(t):
    """Texts that are parts of another: where they come from."""
    while t.op == "app" and t.a[0] in ("str_trim", "str_trim_start", "str_trim_end") or t.op == "sub":
        t = t.a[1] if t.op == "app" else t.a[0]
    return t


class Text:
    """A part of a text: its bytes from lo to hi."""

    def __init__(self, s, lo, hi):
        self.s, self.lo, self.hi = s.encode() if isinstance(s, str) else s, lo, hi

    def str(self):
        return self.s[self.lo:self.hi].decode()


class No(Exception):
    pass


class Ev:
    """The value of a term over the text p0 = text and the error the parser makes on it."""

    def __init__(self, text, cx):
        self.text, self.cx = text, cx

    def of(self, t):
        if t is V("p0"):
            return Text(self.text, 0, len(self.text.encode()))
        if t is TRUE or t is FALSE:
            return t is TRUE
        if t.op == "ite":
            return self.of(t.a[1] if self.of(t.a[0]) else t.a[2])
        if t.op == "lit":
            return t.a[0]
        if t.op == "is":
            # the parser's own errors: no message, no context
            x, v = t.a[0], t.a[2]
            if x.op == "proj" and x.a[2] == "ParserErrorInner" and self.error_input(mk("proj", x.a[0], x.a[1], x.a[2], 0)):
                return {"Nom": True, "Message": False, "None": True, "Some": False}[v]
        if t.op == "cat":
            return "".join(self.of(x) for x in t.a)
        if t.op == "ge0":
            return self.of(t.a[0]) >= 0
        if t.op == "lin":
            return t.a[0] + sum(c * self.of(x) for x, c in t.a[1])
        if t.op == "app" and t.a[0] == "len":
            x = t.a[1]
            if is_errors(x):
                return 1
            v = self.of(x)
            if isinstance(v, Text):
                return len(v.str())
        if t.op == "each" and t.a[2] is num(1) and t.a[3].op == "unit":
            # the part of a text from one place to another
            x = t.a[3].a[0]
            if x.op == "app" and x.a[0] == "elt" and x.a[2].op in ("bv", "lin"):
                v, n = self.of(x.a[1]), self.of(t.a[1])
                lo = 0 if x.a[2].op == "bv" else x.a[2].a[0]
                if isinstance(v, Text) and (x.a[2].op == "bv" or len(x.a[2].a[1]) == 1 and x.a[2].a[1][0][0].op == "bv"):
                    cs = v.str()
                    if 0 <= lo <= lo + n <= len(cs):
                        a = v.lo + len(cs[:lo].encode())
                        return Text(v.s, a, a + len(cs[lo:lo + n].encode()))
        if t.op == "proj" and t.a[2] == "ParserErrorInner" and t.a[3] == 0:
            x = self.error_input(t)
            return x
        if t.op == "app":
            f, xs = t.a[0].lstrip("?"), t.a[1:]
            if f == "chidx":
                v, k = self.of(xs[0]), self.of(xs[1])
                return len(v.s[v.lo:v.lo + k].decode())
            if f == OFFSET:
                a, b = self.of(xs[0]), self.of(xs[1])
                if isinstance(a, Text) and isinstance(b, Text):
                    return b.lo - a.lo
            if f == "blen":
                v = self.of(xs[0])
                return len(v.encode()) if isinstance(v, str) else v.hi - v.lo
            if f.startswith("str_trim"):
                v = self.of(xs[0])
                s = v.str()
                lo, hi = v.lo, v.hi
                if f != "str_trim_end":
                    lo += len(s.encode()) - len(s.lstrip().encode())
                if f != "str_trim_start":
                    hi -= len(s.encode()) - len(s.rstrip().encode())
                return Text(v.s, lo, max(lo, hi))
        raise No()

    def error_input(self, t):
        """The input of the first error of the parser applied to a part of the text."""
        e = t.a[0]
        if e.op == "app" and e.a[0] == "elt" and e.a[2] is num(0) and is_errors(e.a[1]):
            for x in all_terms(e.a[1]):
                if x.op == "app" and x.a[0] == "call" and len(x.a) == 3:
                    v = self.of(x.a[2])
                    if isinstance(v, Text) and v.str() in MODELS:
                        return Text(v.s, v.lo + MODELS[v.str()], v.hi)
        raise No()


def is_errors(t):
    return t.op == "proj" and t.a[2] == "Error" and str(t.a[1]).endswith("parser::Error")


def C29(cx):
    root = c_parse.entry(cx)
    pos, msg = cx.inherent("ParseError", "position"), cx.inherent("ParseError", "message")
    v = cx.value(root)
    n = 0
    for path, x, f in leaves(v, Facts()):
        if f.simp(is_variant(x, RES, "Err")) is not TRUE:
            continue
        n += 1
        e = f.simp(proj(x, RES, "Err", 0))
        position(cx, root, path, f.simp(cx.inst(pos, [e])), f)
        message(cx, "%s: the error's message is not empty" % root.label(), f.simp(cx.inst(msg, [e])), where(root))
    cx.count("ways to fail", n)
    if not n:
        raise Missing("JsonPath::parse returns errors")
    display(cx, pos, msg)
    sources(cx)
    messages(cx)


def position(cx, fn, path, t, f):
    name = "%s: the error's position is inside the text" % fn.label()
    for p2, x, _ in leaves(t, f):
        r = inside(cx, x)
        if r is not EQ:
            # on which text does it go wrong?
            for text in list(MODELS) + EXTRA:
                try:
                    k = Ev(text, cx).of(t)
                except (No, AttributeError, TypeError, KeyError, UnicodeDecodeError):
                    continue
                b = text.encode()
                if isinstance(k, bool) or not isinstance(k, int):
                    continue
                if not (0 <= k <= len(b)) or not boundary(b, k):
                    cx.record(name, Diff((), None, None, "for the text %r it is %d%s; it is computed as %s" % (
                        text, k, "" if not 0 <= k <= len(b) else ", inside a character", compare.sh(x)[:300])), where=where(fn))
                    return
            cx.record(name, Unk((), "computed as " + compare.sh(x)[:300]), where=where(fn))
            return
    cx.record(name, EQ, where=where(fn))


def boundary(b, k):
    return k == len(b) or (b[k] & 0xC0) != 0x80


def inside(cx, x):
    if x.op == "lin" and x.a[0] == 0 and len(x.a[1]) == 2 and {c for _, c in x.a[1]} == {1, -1}:
        # the text's length without that of the rest
        a, b = sorted(x.a[1], key=lambda p: -p[1])
        if a[0] is mk("app", "blen", V("p0")) and b[0].op == "app" and b[0].a[0] == "blen":
            return inside(cx, mk("app", OFFSET, V("p0"), b[0].a[1]))
    if x is num(0) or x.op == "app" and x.a[0] == "blen" and x.a[1] is V("p0"):
        return EQ
    if x.op == "app" and x.a[0].lstrip("?") == OFFSET and x.a[1] is V("p0"):
        y = x.a[2]
        # the input of an error of a parser applied to a part of the text is a part of the text
        if y.op == "proj" and y.a[2] == "ParserErrorInner":
            calls = [z for z in all_terms(y) if z.op == "app" and z.a[0] == "call"]
            if calls and all(strip_text(z.a[2]) is V("p0") for z in calls if len(z.a) == 3):
                return EQ
    return None


def pieces(t):
    return [p for p in parts(t)]


def filled(p):
    """Is this piece of a text surely not empty?  None: not known."""
    if p.op == "lit":
        return bool(p.a[0])
    if p.op == "unit":
        return True
    if p.op == "app" and (p.a[0] == "dec" or p.a[0].lstrip("?").split(":")[0] == "display" or "ParseIntError" in p.a[0]):
        return True
    if p.op == "proj" and p.a[2] == "Message":
        return True                     # see messages()
    return None


def message(cx, name, t, at, pre=NIL):
    for path, x, f in leaves(t, Facts()):
        ps = [p for p in pieces(x) if p is not pre]
        r = [filled(p) for p in ps]
        if any(r):
            continue
        if any(z is None for z in r):
            cx.record(name, Unk((), "text " + compare.sh(x)[:300]), where=at)
        else:
            cx.record(name, Diff((), None, None, "the text is empty when " + case(path)), where=at)
        return
    cx.record(name, EQ, where=at)


def display(cx, pos, msg):
    f = cx.method("Display", "ParseError", "fmt")
    v, outs, notes, _ = cx.summarize(f)
    out = outs.get("p1")
    if out is None:
        raise Missing("ParseError's Display writes text")
    p, m = cx.value(pos), cx.value(msg)
    for path, x, fx in leaves(out, Facts()):
        ps = pieces(x)
        shown = {"position": mk("app", "dec", p), "message": m}
        for k, want in shown.items():
            name = "<ParseError as Display>::fmt shows the " + k
            if any(y is fx.simp(want) for y in ps):
                cx.record(name, EQ, where=where(f))
            elif all(y is V("p1") or y.op == "lit" or any(y is fx.simp(z) for z in shown.values()) for y in ps):
                cx.record(name, Diff((), None, None, "the text is " + compare.sh(x)[:300]), where=where(f))
            else:
                cx.record(name, Unk((), "the text is " + compare.sh(x)[:300]), where=where(f))


# ------------------------------------------------------------------ where the parts of errors come from
MAKERS = ("from_error_kind", "from_external_error", "from_internal_error", "append", "add_context")


def walk(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st += list(y.values())
        elif isinstance(y, (list, tuple)):
            st += list(y)


def sources(cx):
    """The errors' inputs are inputs of the parsers that make them."""
    inner = "ParserErrorInner"
    heads = [f for f in cx.prog.fns.values() if f.of == "traitimpl" and f.kind != "Closure" and f.name in MAKERS
             and f.self_head and f.self_head.endswith("parser::Error")]
    if not any(f.name == "from_error_kind" for f in heads):
        raise Missing("the parser's error type and its ParseError implementation")
    for f in heads:
        v = cx.value(f)
        at = where(f)
        name = "%s: errors point into the parser's input" % f.label()
        me = {"append": 2, "add_context": 2}.get(f.name)
        bad = unk = False
        for x in all_terms(v):
            if x.op == "con" and x.a[1] == inner:
                y = x.a[2]
                if y is V("p0") or y.op == "proj" and "p%s" % me in {z.a[0] for z in all_terms(y) if z.op == "var"}:
                    continue
                if strip_text(y) is V("p0"):
                    continue
                if y.op == "lit":
                    bad = True
                else:
                    unk = True
        if bad:
            cx.record(name, Diff((), None, None, "an input of an error is a constant text"), where=at)
        elif unk:
            cx.record(name, Unk((), compare.sh(v)[:300]), where=at)
        else:
            cx.record(name, EQ, where=at)
    # calls of these in the parsers
    k = 0
    for f in cx.prog.fns.values():
        if f.body is None or f.crate != "serde_json_path":
            continue
        for e in walk(f.body):
            if e.get("k") == "call" and isinstance(e.get("f"), load.Callee) and e["f"].name in MAKERS and e.get("args"):
                k += 1
                lits = [y for y in walk(e["args"][0]) if y.get("k") == "lit"]
                if lits:
                    cx.record("%s: errors point into the parser's input" % f.id,
                              Diff((), None, None, "an error is made with a constant text as its input"), where=where(f))
    cx.count("calls making errors", k)


def messages(cx):
    """The texts of the errors that become messages are not empty."""
    for im in cx.prog.impls:
        if not im.trait or not im.trait.endswith("error::Error") or not im.args or im.args[0][0] != "adt":
            continue
        head = im.args[0][1]
        if head not in cx.prog.adts or not cx.prog.adts[head]["local"]:
            continue
        fs = [f for f in cx.prog.fns.values() if f.of == "traitimpl" and f.name == "fmt" and f.trait and short(f.trait) == "Display"
              and f.self_head == head and f.kind != "Closure"]
        for f in fs:
            if short(head) == "ParseError":
                continue
            v, outs, notes, _ = cx.summarize(f)
            cx.count("error types")
            if "p1" in outs:
                message(cx, "%s: the text is not empty" % f.label(), outs["p1"], where(f), V("p1"))
    for f in cx.prog.fns.values():
        if f.of == "traitimpl" and f.name in ("from_external_error", "from_internal_error") and f.kind != "Closure" \
                and f.self_head and f.self_head.endswith("parser::Error"):
            v = cx.value(f)
            for x in all_terms(v):
                if x.op == "con" and x.a[1] == "Message":
                    message(cx, "%s: the message is not empty" % f.label(), x.a[2], where(f))
