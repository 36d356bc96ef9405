"""C01, C02: no text and no query panics."""
import re, time
import c_err, peg, c_funcs, c_parse, load
from peg import *
from ctx import *
from c_eval import V
from c_feat import nodes

UNWRAPS = {"unwrap", "expect", "unwrap_err", "expect_err"}
# operations of the standard library that panic for some arguments
PARTIAL = {
    "insert": ("Vec", "VecDeque", "String"), "remove": ("Vec", "String"), "swap_remove": ("Vec",), "split_off": ("Vec", "String", "VecDeque"),
    "drain": ("Vec", "String", "VecDeque"), "splice": ("Vec",), "extend_from_within": ("Vec",), "replace_range": ("String",),
    "truncate": ("String",), "insert_str": ("String",), "split_at": None, "split_at_mut": None, "swap": ("slice",), "chunks": None,
    "chunks_exact": None, "windows": None, "copy_from_slice": None, "clone_from_slice": None, "rotate_left": None, "rotate_right": None,
    "copy_within": None, "select_nth_unstable": None, "step_by": None, "index": None, "index_mut": None, "from_digit": None,
    "to_digit": None, "pow": None, "abs": None, "div_euclid": None, "rem_euclid": None, "ilog": None, "ilog2": None, "ilog10": None,
    "isqrt": None, "next_power_of_two": None, "div_ceil": None, "repeat": ("str", "slice"), "clamp": None, "borrow": ("RefCell",),
    "borrow_mut": ("RefCell",), "replace": ("RefCell",), "from_str_radix": None, "unreachable_unchecked": None, "abort": None,
    "exit": None, "get_unchecked": None, "resume_unwind": None, "panic_any": None, "copy_from": None, "sum": None, "product": None,
    "force": None, "swap_with_slice": None, "neg": None, "advance": None, "at": None,
}
INTS = {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"}


def prim_int(t):
    while t and t[0] == "ref":
        t = t[2]
    return bool(t) and t[0] == "prim" and t[1] in INTS


RADIX = ("from_str_radix", "to_digit", "from_digit")


def lit_value(x):
    while isinstance(x, dict) and x.get("k") in ("coerce", "expr", "cast"):
        x = x.get("e")
    v = x.get("lit") if isinstance(x, dict) and x.get("k") == "lit" else None
    return int(v[1]) if v and v[0] == "int" else None


def is_const(x):
    while x.get("k") in ("coerce", "block", "cast") and isinstance(x.get("e"), dict):
        x = x["e"]
    return x.get("k") in ("lit", "const")


def sites(cx, f):
    """The operations in the body of f (without its closures') that can panic for some arguments."""
    out = []
    if f.kind == "Const":
        return out          # evaluated by the compiler
    st = [f.body]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            k = y.get("k")
            if k == "call" and isinstance(y.get("f"), load.Callee):
                c = y["f"]
                if c.name in RADIX and y["args"] and lit_value(y["args"][-1]) in range(2, 37):
                    st += y["args"]
                    continue
            if k == "index":
                out.append("index")
            elif k in ("bin", "assignop") and y.get("op") not in ("==", "!=", "<", "<=", ">", ">=", "&&", "||", "&", "|", "^"):
                t = y.get("ty")
                if k == "assignop":
                    t = (y.get("l") or {}).get("ty")
                if prim_int(t):
                    out.append("arithmetic " + str(y.get("op")))
            elif k == "un" and y.get("op") in ("-", "neg") and prim_int(y.get("ty")):
                if not is_const(y.get("e") or {}):
                    out.append("negation")
            st += list(y.values())
        elif isinstance(y, (list, tuple)):
            st += list(y)
        elif isinstance(y, load.Callee):
            w = callee_site(cx, y)
            if w:
                out.append(w)
    return out


def callee_site(cx, c):
    if c.id in cx.prog.fns or c.res is not None and c.res.id in cx.prog.fns:
        return None
    n, k = c.name or c.id.rsplit("::", 1)[-1], c.key()
    head = k.rsplit("::", 2)[-2] if "::" in k else ""
    if n in UNWRAPS:
        return n
    if "panicking" in c.id or "begin_panic" in c.id or "unwrap_failed" in c.id or "expect_failed" in c.id:
        return "panic"
    if n in PARTIAL and (PARTIAL[n] is None or head in PARTIAL[n]):
        if k.startswith("nom::"):
            return None
        return k
    if "nom" == c.id.split("::")[0] and "::streaming::" in c.id:
        return "streaming " + n
    return None


def graph(cx):
    """Which function can run which: calls, closures, and for methods of traits every implementation."""
    prog = cx.prog
    impls = {}
    for f in prog.fns.values():
        if f.kind != "Closure" and f.of == "traitimpl" and f.trait:
            impls.setdefault((f.trait, f.name), set()).add(f.id)
    g = c_parse.call_graph(prog)
    for f in prog.fns.values():
        if f.body is None:
            continue
        for y in callees(f.body):
            if y.trait and y.res is None:
                g[f.id] |= impls.get((y.trait, y.name), set())
        for y in nodes(prog, f.body):
            if isinstance(y, dict) and y.get("k") in ("static", "const") and y.get("id") in prog.fns:
                g[f.id].add(y["id"])
    return g


def callees(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, load.Callee):
            yield y
        elif isinstance(y, dict):
            st += list(y.values())
        elif isinstance(y, (list, tuple)):
            st += list(y)


# ------------------------------------------------------------------ the parser on a given text
ERROR_METHODS = ("from_error_kind", "append", "from_char", "or", "add_context", "from_external_error", "from_internal_error")


class Panics(Exception):
    def __init__(self, what, fid):
        super().__init__(what)
        self.what, self.fid = what, fid


SOFT, HARD, MORE = ("soft",), ("hard",), ("incomplete",)


FLOAT = {
    "?serde_json::number::Number::from_f64": lambda t, v: NONE if abs(v) == float("inf") else some(mk("app", "numfloat", t)),
    "?f64::is_finite": lambda t, v: FALSE if abs(v) == float("inf") else TRUE,
    "?f64::is_infinite": lambda t, v: TRUE if abs(v) == float("inf") else FALSE,
    "?f64::is_nan": lambda t, v: FALSE,
}


class Reader(peg.Grammar):
    """The parser's term evaluated for one text: which of the conditions of its panics hold."""
    roots, always = (), ()

    def __init__(self, cx, user=None):
        super().__init__(cx, None)
        self.limit, self.unknown = 0, set()
        self.on_error = {}               # method of the error's traits -> panics, p0 being the rest of the text

    # values
    def fold(self, t):
        for _ in range(12):
            m = {}
            for x in all_terms(t):
                if x.op == "app" and isinstance(x.a[0], str):
                    r = self.constant(x)
                    if r is not None:
                        m[x] = r
                elif x.op == "each" and is_num(x.a[1]) and is_num(x.a[2]) and x.a[2].a[0] > 0 and x.a[1].a[0] <= 1000 and not fv(x):
                    b, body = open_(x)
                    m[x] = cat(*[Facts().simp(subst(body, b, num(i))) for i in range(0, x.a[1].a[0], x.a[2].a[0])])
                elif x.op == "exists" and is_num(x.a[1]) and is_num(x.a[2]) and x.a[2].a[0] > 0 and x.a[1].a[0] <= 1000 and not fv(x):
                    b, body = open_(x)
                    r = FALSE
                    for i in range(0, x.a[1].a[0], x.a[2].a[0]):
                        r = bor(r, self.fold(Facts().simp(subst(body, b, num(i)))))
                        if r is TRUE:
                            break
                    m[x] = r
            if not m:
                return t
            t = Facts().simp(replace(t, m))
        return t

    def constant(self, x):
        n, a = x.a[0], x.a[1:]
        if not a or not isinstance(a[0], T):
            return None
        if n.startswith("parseint:") and text_of(a[0]) is not None and is_num(a[1]):
            ty, s, rx = n.split(":")[1], text_of(a[0]), a[1].a[0]
            from engine import PRIM_RANGE
            lo, hi = PRIM_RANGE[ty]
            b = s[1:] if s[:1] == "+" or s[:1] == "-" and lo < 0 else s
            try:
                if not b or not b.isascii() or not b.isalnum():
                    raise ValueError
                v = int(b, rx) * (-1 if s[:1] == "-" else 1)
                return ok(num(v)) if lo <= v <= hi else err(V("number error"))
            except ValueError:
                return err(V("number error"))
        if n in ("parse:f64", "parse:f32") and text_of(a[0]) is not None:
            s = text_of(a[0])
            if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s):
                return ok(mk("app", "float", lit(s)))
            return err(V("number error"))
        if isinstance(a[0], T) and a[0].op == "app" and a[0].a[0] == "float" and n in FLOAT:
            return FLOAT[n](a[0], float(text_of(a[0].a[1])))
        if n == "parse:serde_json::number::Number" and text_of(a[0]) is not None:
            s = text_of(a[0])
            if re.fullmatch(r"-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?", s) and abs(float(s)) != float("inf"):
                return ok(mk("app", "json number", lit(s)))
            return err(V("number error"))
        if n.startswith("@") and n[1:] in self.integers and text_of(a[0]) is not None:
            return self.run_local(n[1:], [a[0]])
        if n == "from_utf16" and all(p.op == "unit" and is_num(p.a[0]) for p in parts(a[0])):
            b = b"".join(p.a[0].a[0].to_bytes(2, "little") for p in parts(a[0]))
            try:
                return ok(lit(b.decode("utf-16-le")))
            except UnicodeDecodeError:
                return err(V("utf16 error"))
        if n == "?chidx" and text_of(a[0]) is not None and is_num(a[1]):
            b, k = text_of(a[0]).encode(), a[1].a[0]
            if not 0 <= k <= len(b) or k < len(b) and b[k] & 0xC0 == 0x80:
                return num(1 << 40)          # (no such character)
            return num(len(b[:k].decode()))
        if n == "elt" and a[0].op == "app" and a[0].a[0] == "str_char_indices" and text_of(a[0].a[1]) is not None and is_num(a[1]):
            w, k = text_of(a[0].a[1]), a[1].a[0]
            return tup(num(len(w[:k].encode())), num(ord(w[k]))) if 0 <= k < len(w) else None
        if n.startswith("?str::trim_"):
            n = n[6:]
        if n == "len" and a[0].op == "app" and a[0].a[0] == "str_char_indices" and text_of(a[0].a[1]) is not None:
            return num(len(text_of(a[0].a[1])))
        if n in ("trim_end_matches", "trim_start_matches") and len(a) == 2 and text_of(a[0]) is not None and is_num(a[1]):
            return lit(text_function(n, [text_of(a[0]), chr(a[1].a[0])]))
        if n in ("blen", "len") and text_of(a[0]) is not None:
            s = text_of(a[0])
            return num(len(s.encode()) if n == "blen" else len(s))
        if all(isinstance(y, T) and text_of(y) is not None for y in a):
            r = text_function(n, [text_of(y) for y in a])
            if r is not None:
                return lit(r) if isinstance(r, str) else TRUE if r else FALSE
        return None

    def settle(self, found):
        """The panics among the recorded ones (what, function, condition) that happen."""
        for what, fid, c in found:
            c = self.declared(self.fold(Facts().simp(c)))
            if c is TRUE:
                raise Panics(what, fid)
            if c is not FALSE:
                self.unknown.add((what, fid))

    def apply(self, f, args):
        del self.ev.panics[:]
        r = super().apply(f, args)
        ps, self.ev.panics[:] = list(self.ev.panics), []
        self.settle(ps)
        return self.declared(self.fold(r))

    def declared(self, t):
        """Functions looked up, when none is registered by users."""
        ev = self.cx.engine
        for _ in range(4):
            if not c_funcs.registered(self.cx, t):
                break
            del ev.panics[:]
            t = self.fold(c_funcs.resolve(self.cx, c_funcs.without_user(self.cx, t)))
            ps, ev.panics[:] = list(ev.panics), []
            if ps:
                self.settle(ps)
        return t

    # parsing
    def read(self, p, i):
        r = self.read_(p, i)
        if r[0] != "ok" and self.on_error:
            n = self.head(p)[0].rsplit("::", 1)[-1]
            if n == "context":
                self.error("add_context", i)
            elif n == "map_res":
                self.error("from_external_error", i)
            elif r is SOFT:
                self.error("from_error_kind", i)
        return r

    def error(self, method, i):
        rest = lit(self.text[i:])
        self.settle([(w, g, replace(c, {V("p0"): rest})) for w, g, c in self.on_error.get(method, ())])

    def read_(self, p, i):
        self.limit -= 1
        if self.limit < 0:
            raise Giveup("too long")
        name, a = self.head(p)
        if name.startswith("nom::") and name.endswith("combinator::complete"):
            r = self.read(a[0], i)
            return SOFT if r is MORE else r
        f = self.form(p)
        t, s = f[0], self.text
        if "::streaming::" in name and (i == len(s) or t == "while" and all(ord(c) in f[1] for c in s[i:]) and (
                f[3] is None or len(s) - i < f[3])):
            return MORE
        if t == "class":
            return ("ok", num(ord(s[i])), i + 1) if i < len(s) and ord(s[i]) in f[1] else SOFT
        if t == "while":
            j = i
            while j < len(s) and ord(s[j]) in f[1] and (f[3] is None or j - i < f[3]):
                j += 1
            return ("ok", lit(s[i:j]), j) if j - i >= f[2] else SOFT
        if t == "eof":
            return ("ok", NIL, i) if i == len(s) else SOFT
        if t == "fail":
            return SOFT
        if t == "seq":
            vs, j = [], i
            for q in f[1]:
                r = self.read(q, j)
                if r[0] != "ok":
                    return r
                vs.append(r[1])
                j = r[2]
            if f[2] == "tup":
                v = tup(*vs)
            elif isinstance(f[2], tuple):
                v = vs[f[2][0]] if len(f[2]) == 1 else tup(*[vs[k] for k in f[2]])
            else:
                v = f[2]
            return ("ok", v, j)
        if t == "alt":
            for q in f[1]:
                r = self.read(q, i)
                if r is not SOFT:
                    return r
            return SOFT
        if t in ("opt", "not", "peek", "cut"):
            r = self.read(f[1], i)
            if t == "cut":
                return HARD if r is SOFT else r
            if r is HARD or r is MORE:
                return r
            if t == "opt":
                return ("ok", some(r[1]), r[2]) if r[0] == "ok" else ("ok", NONE, i)
            if t == "peek":
                return ("ok", r[1], i) if r[0] == "ok" else r
            return ("ok", UNIT, i) if r is SOFT else SOFT
        if t in ("recognize", "consumed", "all_consuming"):
            r = self.read(f[1], i)
            if r[0] != "ok":
                return r
            x = lit(s[i:r[2]])
            if t == "all_consuming":
                return r if r[2] == len(s) else SOFT
            return ("ok", x if t == "recognize" else tup(x, r[1]), r[2])
        if t == "success":
            return ("ok", f[1], i)
        if t in ("value", "map", "map_res", "map_opt", "verify"):
            r = self.read(f[2] if t == "value" else f[1], i)
            if r[0] != "ok":
                return r
            if t == "value":
                return ("ok", f[1], r[2])
            v = self.apply(f[2], [r[1]])
            if t == "map":
                return ("ok", v, r[2])
            c = v if t == "verify" else self.fold(Facts().simp(is_variant(v, *((RES, "Ok") if t == "map_res" else (OPT, "Some")))))
            if c is TRUE:
                return ("ok", r[1] if t == "verify" else Facts().simp(proj(v, *((RES, "Ok") if t == "map_res" else (OPT, "Some")), 0)), r[2])
            if c is FALSE or v is BOT:
                return SOFT
            raise Giveup("condition " + show(c)[:200])
        if t in ("many0", "many1", "fold"):
            vs, j = [], i
            acc = self.apply(f[2], []) if t == "fold" and f[2] is not None else None
            while True:
                r = self.read(f[1], j)
                if r is HARD or r is MORE:
                    return r
                if r is SOFT or r[2] == j:
                    if r[0] == "ok" or not vs and (t == "many1" or t == "fold" and f[4]):
                        return SOFT
                    break
                vs.append(r[1])
                if acc is not None:
                    acc = self.apply(f[3], [acc, r[1]])
                j = r[2]
            return ("ok", acc if acc is not None else num(len(vs)) if t == "fold" else cat(*[unit(v) for v in vs]), j)
        if t == "seplist":
            sep, a, lo = f[1:]
            vs, j = [], i
            r = self.read(a, i)
            while r[0] == "ok":
                vs.append(r[1])
                j = r[2]
                q = self.read(sep, j)
                if q[0] != "ok":
                    if q is not SOFT:
                        return q
                    break
                r = self.read(a, q[2])
            if r is HARD or r is MORE:
                return r
            return SOFT if not vs and lo else ("ok", cat(*[unit(v) for v in vs]), j)
        if t in ("body", "local"):
            return self.body_at(f[1], i)
        raise Giveup("parser form " + t)

    target = peg.G2.target
    call_of = peg.G2.call_of
    is_call = peg.G2.is_call

    def body_at(self, p, i):
        key = ("value", p)
        if key not in self.bodies:
            fid, args, at = self.target(p)
            del self.ev.panics[:]
            x = V("in0")
            if p.op == "clo":
                t = peg.Grammar.apply(self, p, [x])
            elif args is not None:
                vals = list(args)
                vals[at] = x
                t = self.run_local(fid, vals)
            else:
                t = self.run_local(fid, [x])
            self.bodies[key] = t, list(self.ev.panics)
            del self.ev.panics[:]
        t, ps = self.bodies[key]
        return self.finish(t, ps, {V("in0"): i})

    def finish(self, t, ps, at):
        """The outcome of a body: its calls of parsers are run where they begin."""
        cs = [c for _, _, c in ps]
        while True:
            texts = {x: lit(self.text[k:]) for x, k in at.items()}
            while t.op == "ite":
                c = self.fold(Facts().simp(replace(t.a[0], texts)))
                if c is not TRUE and c is not FALSE:
                    break
                t = t.a[1] if c is TRUE else t.a[2]
            calls = [x for y in [t] + cs for x in all_terms(y) if self.is_call(x)]
            calls = [x for x in calls if self.call_of(x)[1] in at]
            if not calls:
                break
            x = min(calls, key=lambda x: (sum(1 for y in all_terms(x) if self.is_call(y)), x.uid))
            p, pos = self.call_of(x)
            r = self.read(p, at[pos])
            if r[0] == "ok":
                new = V("in%d" % len(at))
                at = {**at, new: r[2]}
                v = ok(tup(new, r[1]))
            else:
                v = err(con(NERR, {SOFT: "Error", HARD: "Failure", MORE: "Incomplete"}[r], V("parser error")))
            f = Facts()
            t, cs = f.simp(replace(t, {x: v})), [f.simp(replace(c, {x: v})) for c in cs]
        texts = {x: lit(self.text[k:]) for x, k in at.items()}
        self.settle([(w, g, replace(c, texts)) for (w, g, _), c in zip(ps, cs)])
        if t.op == "con" and t.a[0] == RES and t.a[1] == "Ok" and t.a[2].op == "tup" and t.a[2].a[0] in at:
            return ("ok", self.fold(replace(t.a[2].a[1], texts)), at[t.a[2].a[0]])
        if t.op == "con" and t.a[0] == RES and t.a[1] == "Ok" and t.a[2].op == "tup":
            rest = text_of(self.fold(Facts().simp(replace(t.a[2].a[0], texts))))
            if rest is not None and self.text.endswith(rest):
                return ("ok", self.fold(Facts().simp(replace(t.a[2].a[1], texts))), len(self.text) - len(rest))
        if t.op == "con" and t.a[0] == RES and t.a[1] == "Err":
            if "from_internal_error" in self.on_error:
                for x in all_terms(t):
                    if x.op == "app" and "from_internal_error" in str(x.a[0]):
                        self.error("from_internal_error", at[V("in0")])
            c = Facts().simp(is_variant(t.a[2], NERR, "Failure"))
            if c is TRUE:
                return HARD
            if c is FALSE:
                return MORE if Facts().simp(is_variant(t.a[2], NERR, "Incomplete")) is TRUE else SOFT
        raise Giveup("result " + show(t)[:300])

    def on(self, root, text):
        self.text, self.limit = text, 20000
        return self.read(root, 0)


BLANKS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000" + "".join(map(chr, range(0x2000, 0x200b)))


def text_function(n, a):
    """A function of texts, where its value is the same in Rust and here."""
    if n == "replace" and len(a) == 3 and a[1]:
        return a[0].replace(a[1], a[2])
    if n in ("str_trim", "str_trim_start", "str_trim_end") and len(a) == 1:
        return {"str_trim": a[0].strip, "str_trim_start": a[0].lstrip, "str_trim_end": a[0].rstrip}[n](BLANKS)
    if n in ("str_starts_with", "str_ends_with", "str_contains") and len(a) == 2:
        return a[1] in a[0] if n == "str_contains" else (a[0].startswith if n == "str_starts_with" else a[0].endswith)(a[1])
    if n in ("trim_end_matches", "trim_start_matches") and len(a) == 2 and a[1]:
        while a[0].endswith(a[1]) if n == "trim_end_matches" else a[0].startswith(a[1]):
            a[0] = a[0][:-len(a[1])] if n == "trim_end_matches" else a[0][len(a[1]):]
        return a[0]
    if n in ("str_to_lowercase", "str_to_uppercase") and len(a) == 1 and a[0].isascii():
        return a[0].lower() if n == "str_to_lowercase" else a[0].upper()
    if n.startswith("fmt:display:") and len(a) == 1:
        width, prec = n.split(":")[3:5]
        if width == "None" and prec.isdigit():
            return a[0][:int(prec)]
    if n == "fmt:debug:None:None:None" and len(a) == 1 and all(" " <= c <= "~" or c in "\n\r\t\0" for c in a[0]):
        m = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}
        return '"' + "".join(m.get(c, c) for c in a[0]) + '"'
    return None


def text_of(t):
    if t.op == "lit":
        return t.a[0]
    if t is NIL:
        return ""
    out = ""
    for p in parts(t):
        if p.op == "lit":
            out += p.a[0]
        elif p.op == "unit" and is_num(p.a[0]):
            out += chr(p.a[0].a[0])
        else:
            return None
    return out


def corpus():
    """Texts at the edges of the grammar: every kind of token, truncated, too large, of several bytes."""
    big = ["9007199254740991", "-9007199254740991", "9007199254740992", "-9007199254740992", "2147483648", "4294967296", "9223372036854775807",
           "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
           "99999999999999999999999999999999999999999999", "-99999999999999999999999999999999999999999999", "0", "-0", "00", "-", "+1", "1", "-1",
           "128", "256", "65536"]
    floats = ["1e400", "-1e400", "1e-400", "1.", ".5", "1e", "1e+", "1E5", "-0.0", "1e308", "1.7976931348623157e309", "1.5", "0e0", "1e99999999999999999999",
              "1.0e-5", "3.14159265358979323846264338327950288", "12e2"]
    esc = ["\\", "\\u", "\\u1", "\\u12", "\\u123", "\\u1234", "\\uD800", "\\uDC00", "\\uD83D\\uDE00", "\\uD83D\\u0041", "\\uD83D\\", "\\uD83Dx", "\\uDBFF\\uDFFF",
           "\\uFFFF", "\\u0000", "\\n", "\\x", "\\'", '\\"', "\\/", "\\uD83D\\uD83D", "\\u\u00e9", "\\u00\u00e9", "\\uD83D\\u\u00e9", "\u00e9", "\U0001f600", "\u0000", "\u007f",
           "\u0080", "\ud7ff", "\ue000", "\U0010ffff", "\\\u00e9", "\\uG000", "\\u+123", "\\uabcd", "\\uDFFF", "\t", "", "a", "a\u00e9b"]
    names = ["a", "\u00e9", "\U0001f600", "a\u0301", "_", "-", "0", "a-b", "a\u00e9", "", " ", "A\U0010ffff", "\u0080", "a b"]
    sur = ["D7FF", "D800", "D83D", "DB00", "DBFF", "DC00", "DE00", "DFFF", "E000", "0041", "dB00", "Dbff"]
    esc += ["\\u%s\\u%s" % (x, y) for x in sur for y in sur] + ["\\u" + x for x in sur] + ["a\u00e9\\n\u00e9\\u0041\u00e9", "\U0001f600\\n", "a\u00e9\\u00e9b\\t"]
    esc += ["\\u" + h[:k] + c + z for h in ("0123", "d123", "D800", "dc00") for k in range(5) for c in "\u00e9\u20ac\U0001f600" for z in ("", "00")]
    out = ["", "$", "$ ", " $", "\u00e9", "$$", "@", "$[", "$.", "$..", "$[?", "$[?@", "$[]", "$[,]", "$[*]", "$.*", "$..*", "$[::]", "$[:::]", "$..[", "$[?!", "$[?(", "$[?!(@)]",
           "$[?()]", "$ .a", "$. a", "$\n.a", "$[\u00e9]", "$[?\u00e9]", "$\u00e9", "$.a\U0001f600.b", "x"]
    for n in big:
        out += ["$[%s]" % n, "$[%s:]" % n, "$[:%s]" % n, "$[::%s]" % n, "$[%s:%s:%s]" % (n, n, n), "$[?@==%s]" % n, "$[?@[%s]==1]" % n, "$[" + n, "$[1," + n + "]"]
    for n in floats:
        out += ["$[?@==%s]" % n, "$[?%s<@]" % n, "$[?@==-%s]" % n, "$[?length(%s)==1]" % n]
    for e in esc:
        out += ["$['%s']" % e, '$["%s"]' % e, "$['%s" % e, '$["%s' % e, "$[?@=='%s']" % e, '$[?@=="%s"]' % e, "$[?match(@,'%s')]" % e, "$.%s" % e, "$['a%sb']" % e]
    for n in names:
        out += ["$.%s" % n, "$..%s" % n, "$[?@.%s]" % n, "$.a.%s" % n, "$[?@..%s]" % n]
    fns = ["length", "count", "match", "search", "value", "unknown", "f", "_", "Length", "l\u00e9", "a1_", ""]
    args = ["", "@", "@.a", "@.*", "$", "$..a", "1", "'a'", "true", "null", "@==1", "!@", "length(@)", "count(@.*)", "value(@.*)", "unknown(@)", "@,@", "@,'a'", "@.*,'['",
            "@,'(','c'", "1,2,3", "(@)", ",", "@,", "match(@,'a')", "'a',match(@,'a')"]
    for f in fns:
        for a in args:
            out += ["$[?%s(%s)]" % (f, a), "$[?%s(%s)==1]" % (f, a)]
        out += ["$[?%s(" % f, "$[?%s" % f, "$[?%s (@)]" % f, "$[?!%s(@)]" % f, "$[?1>%s(@)]" % f]
    ops = ["==", "!=", "<", "<=", ">", ">=", "=", "&&", "||", "&", "|", "===", "<>"]
    for o in ops:
        out += ["$[?@%s1]" % o, "$[?@.a%s@.b]" % o, "$[?1%s" % o, "$[?@ %s '\u00e9']" % o, "$[?@.*%s1]" % o, "$[?true%snull]" % o, "$[?(@%s1)]" % o, "$[?!(@%s1)]" % o]
    return out


# ------------------------------------------------------------------ deciding
UNKNOWN = ("call", "partial_cmp", "cmp", "compare")


def understood(c):
    """Can every value of the variables of c occur?"""
    for x in all_terms(c):
        if x.op == "app":
            n = x.a[0]
            if not isinstance(n, str) or n.startswith(("?", "@", "parse", "float")) or n in UNKNOWN or "::" in n:
                return False
        elif x.op in ("clo", "fn", "const", "st", "dyn"):
            return False
    return True


def bor_(a, b):
    return ite(a, TRUE, b)


class Panic:
    def __init__(self, where, what, cond):
        self.where, self.what, self.cond = where, what, cond


def home(cx, fid):
    """The function a closure is written in."""
    while fid in cx.prog.fns and cx.prog.fns[fid].kind == "Closure" and cx.prog.fns[fid].parent in cx.prog.fns:
        fid = cx.prog.fns[fid].parent
    return fid


class Found:
    """The functions that can run, those of them with operations that can panic, and the conditions of these."""

    def __init__(self, cx, roots):
        self.cx = cx
        self.g = graph(cx)
        self.reach = set()
        for r in roots:
            self.reach |= c_parse.reachable(self.g, r.id)
        self.reach = {i for i in self.reach if i in cx.prog.fns and cx.prog.fns[i].body is not None and cx.prog.fns[i].crate != "sjp_spec"}
        self.owners = {i: s for i in sorted(self.reach) for s in (sites(cx, cx.prog.fns[i]),) if s}
        self.panics = {i: [] for i in self.owners}
        self.failed = {}
        self.incomplete = any(x.startswith("streaming") for s in self.owners.values() for x in s) or any(
            makes_incomplete(cx.prog.fns[i]) for i in self.reach)

    def collect(self):
        """The panics of every function, for any arguments."""
        cx = self.cx
        if not self.owners:
            return
        for i in sorted(self.reach):
            f = cx.prog.fns[i]
            if f.kind == "Closure" or not (c_parse.reachable(self.g, i) & set(self.owners)):
                continue
            try:
                ps = cx.summarize(f)[3]
            except Exception as e:
                self.failed[i] = str(e)[:200]
                continue
            self.add(i, ps)

    def add(self, where, ps):
        for what, fid, c in ps:
            if fid in self.panics or home(self.cx, fid) in self.panics:
                c = self.possible(c)
                if c is not FALSE:
                    self.panics[fid if fid in self.panics else home(self.cx, fid)].append(Panic(where, what, c))

    def possible(self, c):
        f = Facts()
        if not self.incomplete:
            errors = {x.a[0] for x in all_terms(c) if x.op == "is" and x.a[1] == NERR}
            calls = {x.a[0] for x in all_terms(c) if x.op == "is" and x.a[1] == RES and x.a[0].op == "app" and x.a[0].a[0] in peg.PARSER_CALLS}
            for e in sorted(errors | {proj(x, RES, "Err", 0) for x in calls}, key=lambda x: x.uid):
                # its variants, less Incomplete
                c = bor_(band(is_variant(e, NERR, "Error"), c), band(is_variant(e, NERR, "Failure"), c))
        lens = {x: length(x.a[1].a[1]) for x in all_terms(c) if x.op == "app" and x.a[0] == "len" and x.a[1].op == "app"
                and x.a[1].a[0] == "sorted"}
        c = f.simp(replace(c, lens) if lens else c)
        return FALSE if c is FALSE or Facts().assume(c).dead else c


def makes_incomplete(f):
    st = [f.body]
    while st:
        y = st.pop()
        if isinstance(y, load.Callee):
            if y.ctor and y.ctor[1] == "Incomplete" or y.id.endswith("Err::Incomplete"):
                return True
        elif isinstance(y, dict):
            if y.get("k") == "adt" and y.get("variant") == "Incomplete":
                return True
            st += list(y.values())
        elif isinstance(y, (list, tuple)):
            st += list(y)
    return False


def named(cx, i):
    f = cx.prog.fns[i]
    return cx.prog.fns[home(cx, i)].label() if f.kind == "Closure" else f.label()


def parsing_roots(cx):
    root = c_parse.entry(cx)
    roots = [root, cx.method("FromStr", "JsonPath", "from_str"), cx.method("Deserialize", "JsonPath", "deserialize"),
             cx.inherent("ParseError", "position"), cx.inherent("ParseError", "message")]
    # called by nom, or to show an error
    by_others = [f for f in cx.prog.fns.values() if f.kind != "Closure" and f.body is not None and f.of == "traitimpl" and f.name in ERROR_METHODS] + [f for f in cx.prog.fns.values() if f.kind != "Closure" and f.body is not None and f.of == "traitimpl"
                                        and f.trait and load.short(f.trait) == "Display" and f.self_head and "Error" in load.short(f.self_head)]
    return root, roots, by_others


def C01(cx):
    root, roots, by_others = parsing_roots(cx)
    k = Found(cx, roots + by_others)
    errors = [f for f in by_others if f.name in ERROR_METHODS]
    entries = {f.id for f in roots} | {f.id for f in by_others if load.short(f.trait or "") == "Display"} | {"validator"}
    cx.count("functions parsing can run", len(k.reach))
    cx.count("of them with operations that panic for some arguments", len(k.owners))
    cx.record("parsing: the other %d functions have no operation that can panic" % (len(k.reach) - len(k.owners)), EQ)
    k.collect()
    reader, texts = None, {}
    parsers = {i for i in k.reach if cx.prog.fns[i].kind != "Closure" and parser_output(cx.prog.fns[i]) is not None}
    d = c_funcs.declare(cx)
    validators(cx, k, d)
    todo = []
    running = evaluator_ids(cx, d)
    for i, s in k.owners.items():
        if home(cx, i) in running:
            continue            # runs when the query is applied: C02
        label = "%s: %s" % (named(cx, i), ", ".join(sorted(set(s))))
        ps = k.panics[i]
        bad = [p for p in ps if understood(p.cond) and p.where in entries]
        hit = [(p, t) for p in ps if p.where == root.id for t in (on_texts(cx, p.cond),) if t is not None]
        if bad:
            p = bad[0]
            cx.record(label, Diff((), None, None, "%s, when %s" % (p.what, compare.sh(p.cond)[:300])), where=where(cx.prog.fns[i]))
        elif hit:
            p, t = hit[0]
            cx.record(label, Diff((), None, None, "%s, for the text %r: when %s" % (p.what, t, compare.sh(p.cond)[:300])), where=where(cx.prog.fns[i]))
        elif not ps and (i in k.seen or home(cx, i) not in parsers and i in cx.engine.called and home(cx, i) not in k.failed):
            cx.record(label, EQ, where=where(cx.prog.fns[i]))
        else:
            todo.append((i, label))
    if todo:
        on_corpus(cx, root, todo, k, errors)


def evaluator_ids(cx, d):
    out = set()
    for name in c_funcs.BUILTINS:
        t, _ = c_funcs.builtin(cx, d, name)
        for e in c_funcs.evaluator_of(cx, t):
            f = c_funcs.evaluator_fn(cx, e) if e is not None else None
            if f is not None:
                out |= {f.id, home(cx, f.id)}
    return out


def validators(cx, k, d):
    """The panics of the validators of the built-in functions, on any arguments."""
    ev = cx.engine
    k.seen = set()
    for name in c_funcs.BUILTINS:
        del ev.panics[:]
        before = set(ev.called)
        ev.called.clear()
        t, args = c_funcs.builtin(cx, d, name)
        k.seen |= {i for i in k.owners if i in ev.called or home(cx, i) in ev.called and cx.prog.fns[i].kind == "Closure"}
        ev.called |= before
        ps, ev.panics[:] = list(ev.panics), []
        k.add("validator", ps)


class Failing(c_err.Ev):
    """Conditions after the parser has failed on the text."""

    def of(self, t):
        if t.op == "is" and t.a[1] == RES and t.a[0].op == "app" and t.a[0].a[0] in peg.PARSER_CALLS:
            return t.a[2] == "Err"
        if t.op == "is" and t.a[1] == NERR:
            return t.a[2] == "Error"
        if t.op == "app" and t.a[0] == "?chidx":
            v, k = self.of(t.a[1]), self.of(t.a[2])
            b = v.s[v.lo:v.hi]
            return len(b[:k].decode()) if 0 <= k <= len(b) and c_err.boundary(b, k) else 1 << 40
        return super().of(t)


def on_texts(cx, c):
    for text in list(c_err.MODELS) + c_err.EXTRA:
        try:
            if Failing(text, cx).of(c) is True:
                return text
        except (c_err.No, AttributeError, TypeError, KeyError, UnicodeDecodeError, ValueError):
            continue
    return None


def on_corpus(cx, root, todo, k, errors):
    """Which of the remaining operations panic on a text of the corpus, by evaluating their conditions."""
    t = cx.value(root)
    ps = sorted({x.a[1] for x in all_terms(t) if x.op == "app" and x.a[0] in peg.PARSER_CALLS}, key=lambda x: x.uid)
    r = Reader(cx)
    for f in errors:
        try:
            r.on_error.setdefault(f.name, []).extend(cx.summarize(f)[3])
        except Exception:
            pass
    r.on_error = {n: ps for n, ps in r.on_error.items() if ps}
    hit, gave, n = {}, 0, 0
    t0 = time.time()
    for text in corpus():
        if time.time() - t0 > 240:
            break
        for p in ps[:1]:
            n += 1
            try:
                if r.on(p, text) is MORE:
                    # the parser asks for more text: what does JsonPath::parse do then?
                    e = err(con(NERR, "Incomplete", V("needed")))
                    for j in k.panics:
                        for q in k.panics[j]:
                            if q.where == root.id and Facts().simp(replace(q.cond, {x: e for x in all_terms(q.cond) if x.op == "app"
                                                                                   and x.a[0] in peg.PARSER_CALLS})) is TRUE:
                                hit.setdefault(j, (text, q.what + " as the parser asks for more text"))
            except Panics as e:
                hit.setdefault(e.fid, (text, e.what))
            except Giveup:
                gave += 1
    cx.count("texts on which conditions of panics were evaluated", n)
    free = {}
    for i, label in todo:
        f = cx.prog.fns[i]
        h = hit.get(i) or next((v for j, v in hit.items() if home(cx, j) == i), None)
        if h:
            cx.record(label, Diff((), None, None, "%s, for the text %r" % (h[1], h[0])), where=where(f))
        elif closed(cx, r, f):
            cx.record(label, EQ, where=where(f))
        else:
            cx.record(label, Unk((), "whether it can panic depends on the text" + "".join(
                "; %s when %s" % (p.what, compare.sh(p.cond)[:200]) for p in (k.panics[i] if k else ())[:1])), where=where(f))


def closed(cx, r, f):
    """Does f never panic, whatever its arguments?"""
    ts = [t for v in r.bodies.values() for t in (v if isinstance(v, (tuple, list)) else [v]) if isinstance(t, T)]
    if f.kind != "Closure":
        return f.id in r.called and not any(fid == f.id for v in r.bodies.values() if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], list)
                                            for _, fid, _ in v[1])
    clos = {x for t in ts for x in all_terms(t) if x.op == "clo" and x.a[0] == f.id}
    if not clos:
        return False
    for c in clos:
        del r.ev.panics[:]
        try:
            args = []
            for n, p in enumerate(f.body["params"][1:]):
                v = V("arg%d %s" % (n, f.id))
                if p["ty"][0] == "prim":
                    TYPED[v] = p["ty"][1]
                args.append(v)
            peg.Grammar.apply(r, c, args)
        except Exception:
            return False
        if r.ev.panics:
            return False
    return True


# ------------------------------------------------------------------ C02
RESULTS = ("NodeList", "LocatedNodeList", "LocatedNode", "NormalizedPath", "PathElement")


def querying_roots(cx):
    q = [cx.inherent("JsonPath", "query"), cx.inherent("JsonPath", "query_located")]
    homes = {f.self_head.rsplit("::", 1)[0] for f in cx.prog.fns.values()
             if f.self_head and load.short(f.self_head) in RESULTS and f.of == "inherent" and f.crate != "sjp_spec"}
    mine = [f for f in cx.prog.fns.values() if f.kind != "Closure" and f.body is not None and f.self_head and f.crate != "sjp_spec"
            and f.self_head.rsplit("::", 1)[0] in homes and (f.exported or f.of == "traitimpl") and f.name != "parse"]
    heads = {load.short(f.self_head) for f in mine}
    for h in RESULTS:
        if h not in heads:
            raise Missing("methods of " + h)
    return q, mine


def C02(cx):
    q, mine = querying_roots(cx)
    k = Found(cx, q + mine)
    entries = {f.id for f in q + mine}
    entries |= {i for i in k.reach if cx.prog.fns[i].of == "traitimpl" and load.short(cx.prog.fns[i].trait or "") in ("Queryable", "Serialize", "Display")}
    cx.count("functions querying and its results can run", len(k.reach))
    cx.count("entry points", len(entries))
    cx.count("of them with operations that panic for some arguments", len(k.owners))
    cx.record("querying: the other %d functions have no operation that can panic" % (len(k.reach) - len(k.owners)), EQ)
    k.collect()
    d = c_funcs.declare(cx)
    running = {}
    for name, (params, res, spec) in c_funcs.BUILTINS.items():
        t, args = c_funcs.builtin(cx, d, name)
        for e in c_funcs.evaluator_of(cx, t):
            f = c_funcs.evaluator_fn(cx, e) if e is not None else None
            if f is None:
                cx.record("%s: what evaluates it" % name, Unk((), "not found"), where=where(d.fn))
                continue
            running[f.id] = running[home(cx, f.id)] = name
            xs = [V("a%d" % j) for j in range(len(params))]
            before = set(cx.engine.called)
            cx.engine.called.clear()
            c_funcs.runs(cx, name, e, xs, c_funcs.well_typed(cx, params, xs), f)
            running.update({i: name for i in cx.engine.called})
            cx.engine.called |= before
            arguments(cx, name, params, t, args, where(f))
    # as validated, so are the arguments of a call
    for i, s in k.owners.items():
        f = cx.prog.fns[i]
        if i in running or home(cx, i) in running and f.kind == "Closure":
            continue
        label = "%s: %s" % (named(cx, i), ", ".join(sorted(set(s))))
        ps = k.panics[i]
        if any(compares(p.cond) for p in ps):
            r = order(cx)
            if r is not EQ:
                cx.record("%s: locations are ordered" % label, r, where=where(f))
            for p in ps:
                p.cond = ordered(cx, p.cond)
            ps = [p for p in ps if p.cond is not FALSE]
        at = [p for p in ps if p.where in entries]
        bad = [p for p in at if understood(p.cond)]
        texts = None if bad else next(((p, x) for p in at for x in (for_texts(cx, p.cond),) if x), None)
        if texts:
            p, x = texts
            cx.record(label, Diff((), None, None, "%s in %s, for the text %r: when %s" % (
                p.what, cx.prog.fns[p.where].label(), x, compare.sh(p.cond)[:300])), where=where(f))
        elif bad:
            p = bad[0]
            cx.record(label, Diff((), None, None, "%s in %s, when %s" % (p.what, cx.prog.fns[p.where].label(), compare.sh(p.cond)[:300])), where=where(f))
        elif not at and (i in cx.engine.called or i in entries and i not in k.failed) and home(cx, i) not in k.failed:
            cx.record(label, EQ, where=where(f))
        else:
            cx.record(label, Unk((), "whether it can panic: " + "; ".join(
                "%s when %s" % (p.what, compare.sh(p.cond)[:200]) for p in ps[:2]) or "not analysed"), where=where(f))


TEXTS_ = ["", "a", "ab", "\u00e9", "a\u00e9", "\u20ac", "\U0001f600", "ab\u00e9", "abc\u00e9", "abcdefghijklmnopqrstuvwxyzabcde\u00e9", "/", "~", "'", "\\", "/\u00e9",
          "'\u00e9", "\\\u00e9", "\u00e9'", "\u00e9/\u00e9~", "abcdefghijklmno\u00e9", "abcdefg\u00e9", "1", "-1"]


def for_texts(cx, c):
    """A text for which c is possible, where it depends on one."""
    xs = {x.a[1] for x in all_terms(c) if x.op == "app" and x.a[0] in ("?chidx", "blen") and isinstance(x.a[1], T)}
    xs = {x for x in xs if x.op in ("var", "proj", "tproj") or x.op == "app" and x.a[0] == "elt"}
    if not xs:
        return None
    r = Reader(cx)
    for text in TEXTS_:
        y = r.fold(Facts().simp(replace(c, {x: lit(text) for x in xs})))
        if y is FALSE or Facts().assume(y).dead:
            continue
        if understood(y):
            return text
    return None


def arguments(cx, name, params, t, args, at):
    """The evaluator's arguments are there and of its types."""
    accepted = is_variant(t, RES, "Ok")
    n = len(params)
    enough = Facts().simp(ite(accepted, ge0(sub(length(args), num(n))), TRUE))
    if cx.require("%s: a call that is accepted has the %d arguments its evaluator takes" % (name, n), enough, TRUE, where=at).verdict != "holds":
        return
    f = Facts().assume(eqi(length(args), num(n)))
    chk = c_funcs.params_of(cx, name, params, args)
    cx.require("%s: the arguments of a call that is accepted are of the types its evaluator converts them to" % name,
               f.simp(ite(accepted, is_variant(chk, RES, "Ok"), TRUE)), TRUE, facts=f, where=at)


def compares(c):
    return {x for x in all_terms(c) if x.op == "app" and str(x.a[0]).endswith("partial_cmp")}


def ordered(cx, c):
    """c for locations that are ordered: those a query yields are of one value (C04), so where two of them
    first differ, both have a name or both an index; these are ordered (see `order`)."""
    f = Facts()
    for x in sorted(compares(c), key=lambda x: x.uid):
        f = f.assume(is_variant(x, OPT, "Some"))
    return FALSE if f.dead else f.simp(c)


def order(cx):
    """Are every two names, and every two indices, ordered?"""
    f = cx.method("PartialOrd", "PathElement", "partial_cmp")
    me, o = V("self"), V("p1")
    for kind in ("Name", "Index"):
        facts = Facts().assume(is_variant(me, f.self_head, kind)).assume(is_variant(o, f.self_head, kind))
        c = facts.simp(bnot(is_variant(cx.value(f), OPT, "Some")))
        if c is FALSE or facts.assume(c).dead:
            continue
        if understood(c):
            return Diff((), None, None, "two of the same kind, %s, are not ordered when %s" % (kind, compare.sh(c)[:300]))
        return Unk((), "the order of two elements of the kind %s" % kind)
    return EQ
