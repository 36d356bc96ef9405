"""C18: printing a query and parsing it again gives the same query.

The parser's term and the terms of the Display implementations are folded for a family of queries that has every construct
alone and every construct within every other: what is printed for the structure built for a text is itself folded through the
parser's term, and the structures compared."""
from c_panic import *
from ctx import known_findings


def family():
    """(construct, texts): every construct in the places it can have."""
    ints = ["0", "1", "-1", "12", "9007199254740991", "-9007199254740991", "2147483648", "-4294967297"]
    names = ["a", "_", "A9_", "\u00e9", "\u2603\U0001f600", "null", "true", "length", "\u00a0", "\u3000", "\u2028", "\ufeff", "\u0085", "n" * 300]
    quoted = ["a", "", " ", "a b", "\u00e9\U0001f600", "*", "0", "[", "]", ",", "a.b", "$", "@", "//", "\u007f", "null", "{}", "\u00a0", "\u2028", "\ufeff", "%", "a  b", " a ", "  ", "a..b", "&&", "||", "(", ")", "q" * 300, "\u0085", "-1", "1:2", "?@.a", "//*", "#", "{0}", "true"]
    special = ["\\'", '\\"', "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0000", "\\u001f", "\\u0041", "\\u00e9", "\\uD83D\\uDE00", "a\\'b", "\\\\n", "\\\\u0041", "\\\\'"]
    slices = [":", "::", "1:", ":1", "1:2", "-1:-2", "::2", "::-1", "1:2:3", "-1:-2:-3", "1::3", ":2:3", "0:0:0",
              "9007199254740991:-9007199254740991:1"]
    lit_num = ["0", "1", "-1", "10", "1.5", "-1.5", "0.25", "1e2", "1E5", "1e-3", "-0", "-0.0", "123456789.5", "9007199254740993", "-9223372036854775808",
               "18446744073709551615", "18446744073709551616", "1e300", "1e-300", "100000000000000000000.0"]
    lits = ["true", "false", "null", "'a'", '"a"', "''", "'\u00e9'", "'a b'"]
    sq = ["@", "$", "@.a", "$.a.b", "@[0]", "@[-1]", "@['a']", '@["x y"][2].b', "$[0][1]", "@.a[0]['']"]
    qs = ["@.*", "$.*", "@[*]", "@[1,2]", "@[0:1]", "@['a','b']", "$..[0]", "@[?@.b]", "@..['a']", "@.*[?@==1]"]
    deep = ["$..a", "$..*", "$.a..b", "$..a..*", "$..a[0]", "$[?@..b]", "$[?count(@..*)==1]"]
    fn_test = ["match(@,'a')", "search(@.a,'b.*')", "match($.a,@.b)", "search(value(@.*),'c')", "match('a',\"b\")"]
    fn_val = ["length(@)", "length(@.a)", "length('abc')", "count(@.*)", "count($[0:2])", "value(@.a)", "value(@.*)", "value($..[0])", "length(value(@.*))", "count(@)", "length(1)",
              "length(null)", "length($.a['b'][0])"]
    ops = ["==", "!=", "<", "<=", ">", ">="]
    yield "long queries", ["$" + ".a" * 150, "$" + "[0]" * 150, "$" + "[*]" * 150, "$[%s]" % ",".join(str(i) for i in range(150)), "$[%s]" % ",".join(["'a'", "*"] * 40),
                           "$[?%s]" % "&&".join("@.a%d" % i for i in range(40)), "$[?%s]" % "||".join("@.a%d" % i for i in range(40)), "$[?%s@%s]" % ("(" * 10, ")" * 10),
                           "$[?%s@%s]" % ("!(" * 10, ")" * 10), "$[?@%s==1]" % (".a" * 80), "$[?%s@%s==1]" % ("length(value(" * 3, "))" * 3)]
    yield "root", ["$", "$ ", "$[0] [1]"]
    yield "names", ["$." + n for n in names] + ["$.%s.%s" % (a, b) for a in names[:3] for b in names] + ["$['%s']" % q for q in quoted] + ['$["%s"]' % q for q in quoted] + \
        ["$.a['%s'].b" % q for q in quoted]
    yield "escaped names", ["$['%s']" % e for e in special if e != '\\"'] + ['$["%s"]' % e for e in special if "'" not in e] + ['$["\'"]', "$['\"']"]
    yield "indices", ["$[%s]" % i for i in ints] + ["$[%s].a[%s]" % (i, j) for i in ints[:3] for j in ints[:3]]
    yield "slices", ["$[%s]" % s for s in slices] + ["$.a[%s][0]" % s for s in slices]
    yield "wildcards", ["$.*", "$[*]", "$.*.*", "$[*][*]", "$.*[*].a"]
    sels = ["'a'", "0", "-1", "*", "1:2", "::-1", "?@", "?@.a==1"]
    yield "several selectors", ["$[%s,%s]" % (a, b) for a in sels for b in sels] + ["$[%s]" % ",".join(sels), "$[0 , 1 ,2]", "$[0,0,0]", "$[*,*]"] + \
        ["$['a','b']['c','d'][0,1]"]
    yield "descendants", ["$..[%s]" % s for s in ["'a'", "0", "*", "1:2", "?@.a", "0,1", "?@<1,'a'"]] + ["$.a..['b'].c", "$..[*]..[*]"]
    yield "descendant shorthands", deep
    yield "tests", ["$[?%s]" % q for q in sq + qs] + ["$[?!%s]" % q for q in sq + qs] + ["$[?%s&&%s]" % (a, b) for a in qs[:3] for b in sq]
    yield "comparisons", ["$[?%s%s%s]" % (a, o, b) for o in ops for a, b in [("@", "1"), ("1", "@"), ("@.a", "$.b"), ("'a'", "@[0]"), ("true", "null"), ("length(@)", "2"), ("1", "2")]] + \
        ["$[?%s==%s]" % (a, b) for a in sq for b in sq] + ["$[? @.a  ==  1 ]"]
    yield "literals", ["$[?@==%s]" % l for l in lits + lit_num] + ["$[?%s!=@]" % l for l in lits + lit_num] + ["$[?@=='%s']" % q for q in quoted]
    yield "escaped literals", ["$[?@=='%s']" % e for e in special if e != '\\"'] + ['$[?@=="%s"]' % e for e in special if "'" not in e] + ['$[?@=="\'"]', "$[?@=='\"']"]
    parts_ = ["@.a", "!@.b", "@==1", "(@.a)", "!(@.b<2)", "match(@,'a')"]
    yield "logical operators", ["$[?%s%s%s]" % (a, o, b) for o in ("&&", "||") for a in parts_ for b in parts_] + \
        ["$[?%s%s%s%s%s]" % (a, o, b, p, c) for o in ("&&", "||") for p in ("&&", "||") for a, b, c in [("@.a", "@.b", "@.c"), ("!@", "(@.x)", "@<1"), ("@.a&&@.b", "@.c", "@.d||@.e")]]
    yield "parentheses", ["$[?(%s)]" % x for x in parts_] + ["$[?!(%s)]" % x for x in parts_] + ["$[?((%s))]" % x for x in parts_] + ["$[?!(!(%s))]" % x for x in parts_] + \
        ["$[?(@.a||@.b)&&@.c]", "$[?@.a&&(@.b||@.c)]", "$[?!(@.a&&@.b)||!(@.c||@.d)&&@]"]
    yield "functions", ["$[?%s]" % f for f in fn_test] + ["$[?%s==%s]" % (f, l) for f in fn_val for l in ("1", "'a'", "@.b")] + ["$[?1<%s]" % f for f in fn_val] + \
        ["$[?%s>%s]" % (f, g) for f in fn_val[:4] for g in fn_val[:4]] + ["$[?%s&&%s]" % (f, g) for f in fn_test for g in fn_test]
    yield "negated functions", ["$[?!%s]" % f for f in fn_test] + ["$[?@.a&&!match(@,'a')]", "$[?!(!match(@,'a'))]"]
    yield "nested filters", ["$[?@[?%s]]" % x for x in ["@.a", "@==1", "match(@,'a')", "@[?@.b]", "@.a||!@.b"]] + ["$[?count(@[?@.a<1])>0]", "$[?@.a[?@.b[?@.c==$.d]]]"]


FAILED = []              # (construct, query, what it is printed as), for the list of known findings


def printed(cx, x, fmt):
    """The text Display writes for a structure of constants."""
    base = V("printed so far")
    v, outs, notes, _ = cx.summarize(fmt, [x, base])
    o = outs.get("p1")
    if o is None:
        raise Giveup("nothing is written")
    for _ in range(400):
        rest = [y for y in all_terms(o) if y.op == "app" and isinstance(y.a[0], str) and "#out1" in y.a[0]]
        if not rest:
            break
        y = min(rest, key=lambda y: (sum(1 for z in all_terms(y) if z in rest), y.uid))
        fid = y.a[0].rsplit("#out", 1)[0].lstrip("@")
        fn = cx.prog.fns.get(fid)
        if fn is None or not fid.endswith("::fmt"):
            fn = cx.method("Display", head_of(y.a[1]), "fmt")
        w, outs, _, _ = cx.summarize(fn, [y.a[1], base])
        o = Facts().simp(replace(o, {y: replace(outs["p1"], {base: y.a[2]})}))
    return numbers(o), v


def head_of(t):
    if t.op == "con":
        return t.a[0].rsplit("::", 1)[-1]
    raise Giveup("printing of " + show(t)[:120])


def number_text(s):
    """A JSON number as serde_json prints it (floats: some text of the same value)."""
    if re.fullmatch(r"-?\d+", s) and s != "-0" and -2 ** 63 <= int(s) < 2 ** 64:
        return s
    return repr(float(s))


def numbers(o):
    m = {}
    for x in all_terms(o):
        if x.op == "app" and x.a[0] == "json number" and text_of(x.a[1]) is not None:
            m[x] = mk("app", "json number", lit(number_text(text_of(x.a[1]))))
    o = replace(o, m) if m else o
    m = {}
    for x in all_terms(o):
        # (the text of a number)
        if x.op == "app" and len(x.a) == 2 and isinstance(x.a[1], T) and x.a[1].op == "app" and x.a[1].a[0] == "json number" and \
                isinstance(x.a[0], str) and x.a[0].startswith(("disp", "str", "text", "Number")):
            m[x] = x.a[1].a[1]
    return Facts().simp(replace(o, m)) if m else o


def text_after(o):
    """What o adds to the text it starts from."""
    ps = parts(o)
    if not ps or ps[0] is not V("printed so far"):
        return None
    out = ""
    for p in ps[1:]:
        if p.op == "con" and p.a[1:2] == ("Number",) or p.op == "con" and p.a[0].endswith("Number"):
            p = p.a[-1]
        s = text_of(p.a[1]) if p.op == "app" and p.a[0] == "json number" else text_of(p)
        if s is None:
            return None
        out += s
    return out


def C18(cx):
    root = c_parse.entry(cx)
    calls = [x for x in all_terms(cx.value(root)) if x.op == "app" and x.a[0] in peg.PARSER_CALLS]
    ps = {x.a[1] for x in calls}
    if len(ps) != 1:
        raise Giveup("the parser JsonPath::parse runs")
    p = ps.pop()
    r = Reader(cx)
    fmt = cx.method("Display", "JsonPath", "fmt")
    path = [a for a in cx.prog.adts if a.endswith("path::JsonPath")]
    known = {k["id"]: k for k in known_findings() if k["property"] == "C18"}
    met = {}
    for group, texts in family():
        bad, open_, n = [], [], 0
        for s in dict.fromkeys(texts):
            try:
                v = r.on(p, s)
                if v[0] != "ok" or v[2] != len(s):
                    continue
                n += 1
                x = v[1]
                o, res = printed(cx, con(path[0], "JsonPath", x), fmt)
                t = text_after(r.fold(o))
                if t is None:
                    open_.append("the text printed for %s: %s" % (s, show(o)[:300]))
                    continue
                w = r.on(p, t)
                if w[0] != "ok" or w[2] != len(t):
                    why = "%s is printed as %s, which is not accepted" % (s, t)
                else:
                    c = Compare(None).run(numbers(w[1]), numbers(x)) if numbers(w[1]) is not numbers(x) else EQ
                    if c is EQ:
                        continue
                    if not isinstance(c, Diff):
                        open_.append("%s, printed as %s: %s" % (s, t, c.text()[:300]))
                        continue
                    why = "%s is printed as %s, which is another query: %s" % (s, t, c.text()[:300])
                k = [i for i, e in known.items() if e.get("inputs", {}).get(s, "").replace(" ", "") == t.replace(" ", "")]
                if k:
                    met.setdefault(k[0], []).append(s)
                else:
                    bad.append(why)
                    FAILED.append((group, s, t))
            except (Giveup, Panics) as e:
                open_.append("%s: %s" % (s, str(e)[:200] if isinstance(e, Giveup) else "panics"))
        cx.counts["queries: " + group] = n
        at = "JsonPath's Display: %s" % group
        if bad:
            cx.record(at, "; ".join(bad[:4]) + (" (and %d more)" % (len(bad) - 4) if len(bad) > 4 else ""), cases=n, where=where(fmt))
        elif open_:
            cx.record(at, Unk((), "; ".join(open_[:3]) + " (%d of %d)" % (len(open_), n)), cases=n, where=where(fmt))
        else:
            cx.record(at, EQ, cases=n, where=where(fmt))
    for i, ss in sorted(met.items()):
        o = cx.record("JsonPath's Display: " + i, "printed as recorded", cases=len(ss), where=where(fmt))
        o.known, o.text = [i], "%d recorded queries, such as %s" % (len(ss), ss[0])
