"""Property id -> deciding functions and the rule they apply."""
import c_eval
import c_locs
import c_text
import c_list
import c_serde
import c_parse
import c_funcs
import c_struct
import c_string
import c_err
import c_feat
import c_int
import c_panic
import c_wit
import c_effect
import c_print

CHECKS = {
    "C03": dict(fns=[c_eval.C03], rule="For every Queryable implementation the summary of query_located, with locations "
                "forgotten and nested query_located calls replaced by query, equals the summary of query."),
    "C04": dict(fns=[c_locs.C04], rule="Every (location, node) pair emitted by an implementation of query_located is coherent - the "
                "location extends the one handed in by steps that exist and lead to that node - and so is the pair handed to every "
                "nested call (induction over query_located)."),
    "C05": dict(fns=[c_eval.C05], rule="Name, Index, Selector and Segment: the summaries of query and query_located (locations "
                "forgotten) equal the summary of the reference definition in every case."),
    "C06": dict(fns=[c_eval.C06], rule="Slice: the summaries of query and query_located equal the RFC 9535 2.3.4.2 definition for "
                "every combination of absent, negative and non-negative start, end, step and every length."),
    "C07": dict(fns=[c_eval.C07], rule="QuerySegment: summaries equal: node, then recursively its children."),
    "C08": dict(fns=[c_eval.C08], rule="Query and Segment: summaries equal the ordered composition."),
    "C09": dict(fns=[c_eval.C09], rule="Filter, LogicalOr/AndExpr, BasicExpr, ExistExpr: summaries equal their definitions."),
    "C10": dict(fns=[c_eval.C10], rule="ComparisonExpr::test_filter and Comparable::as_value: summaries equal the RFC comparison rules."),
    "C11": dict(fns=[c_eval.C11], rule="SingularQuery::eval_query: summary equals stepwise name/index selection."),
    "C12": dict(fns=[c_funcs.C12], rule="The evaluator the parser attaches to a call of each built-in function - found through the "
                "registry, generated code included - computes, for all arguments of its types, what RFC 9535 2.4 defines."),
    "C13": dict(fns=[c_funcs.C13, c_wit.checked], extra=[c_wit.library()], rule="The check made when a call is declared equals, for every list of arguments, the one derived from "
                "the signatures of RFC 9535 2.4; kinds, conversions and result types fit as 2.4.3 prescribes."),
    "C14": dict(fns=[c_funcs.C14], rule="Conversions keep the value; each kind of argument accepted for a parameter type evaluates to a "
                "value whose conversion is not an error; evaluators have a value for all arguments of their types."),
    "C15": dict(fns=[c_parse.C15], rule="The languages of JsonPath::parse, of its logical-expression parser and of its function-argument "
                "parser - computed from the parser combinators as derivatives - equal those of a grammar transcribed from RFC 9535 "
                "Appendix A (product exploration over all texts; nested expressions are letters, by induction)."),
    "C16": dict(fns=[c_struct.C16], rule="For every text both the parser and the grammar accept, the parsed value is the same at "
                "every place of the structure: which alternative, how many elements, and which (marked) part of the text each name, "
                "number, segment, argument and nested expression is made of."),
    "C17": dict(fns=[c_string.C17], rule="The value the parser builds for a string literal - in names, comparisons and arguments - equals, as "
                "a term over the characters of the text, the one of RFC 9535 2.3.1.2, for every literal of up to two characters or escapes; "
                "in literals of any length ordinary characters are kept, each once and in order."),
    "C19": dict(fns=[c_text.C19], rule="NormalizedPath's Display writes, for every list of steps, the text of RFC 9535 2.7."),
    "C20": dict(fns=[c_text.C20], rule="NormalizedPath::to_json_pointer builds, for every list of steps, the pointer of RFC 6901."),
    "C22": dict(fns=[c_list.C22], rule="Every accessor, conversion and iterator method of NodeList, LocatedNodeList, NormalizedPath, "
                "Locations and Nodes has the summary of the same operation on the one underlying sequence."),
    "C23": dict(fns=[c_list.C23], rule="De-duplication is a sort of the whole list by an order that is equal only on equal locations, "
                "followed by removal of adjacent entries that are equal exactly when their locations are."),
    "C24": dict(fns=[c_serde.C24], rule="The form every Serialize implementation writes equals the one described, in every case; "
                "deserialization and FromStr yield exactly the parser's result."),
}

CHECKS["C27"] = dict(fns=[c_funcs.C27, c_wit.generated], extra=[c_wit.library()], rule="A call is declared with the validator, result type and evaluator of the function of its name, user "
                     "functions first; calls are evaluated by that evaluator on their arguments in order; types agree wherever nested.")
CHECKS["C29"] = dict(fns=[c_err.C29], rule="The position JsonPath::parse reports is the offset, in the text it was given, of the input of one of the "
                     "parser's errors, which are parts of that text; messages and displayed errors have non-empty text with both.")
CHECKS["C21"] = dict(fns=[c_int.C21], rule="Every construction of an Integer is guarded so that its number is in the range (interval and linear "
                     "reasoning on the summaries, by induction on its operands); conversions succeed exactly inside the range and keep the value; "
                     "the parser reads exactly the integers of the range, with their value.")
CHECKS["C28"] = dict(fns=[c_feat.C28], raw=c_feat.RawCtx, rule="Every combination of optional features type checks; for each, every function "
                     "has the same typed body as with the default features, apart from what the tracing attribute wraps around it, or the same "
                     "summary; built-in functions are declared alike, match and search exactly with the regex feature.")

CHECKS["C01"] = dict(fns=[c_panic.C01], rule="Every function parsing can run is searched for operations that panic for some arguments; the "
                     "conditions of those found, from the summaries, are infeasible for every text, argument list and parser error; no "
                     "parser asks for more text.")
CHECKS["C02"] = dict(fns=[c_panic.C02], rule="Every function querying, or using a query's result, can run is searched for operations that panic for "
                     "some arguments; the conditions of those found, from the summaries, are infeasible at every entry point, and in the "
                     "evaluators for every validated argument list.")

CHECKS["C26"] = dict(fns=[c_wit.C26], raw=c_wit.raw, rule="Witness programs: each program that must be refused is, by an error at its own text, "
                     "and the program that differs from it in a single construct compiles; functions of the JSONPath types compile however "
                     "they are written; results are usable as long as the queried value and not longer.")

CHECKS["C25"] = dict(fns=[c_effect.C25], rule="Of everything parsing, querying and the use of results can run: no static that can change "
                     "or that depends on who initialises it, no type with interior mutability, no call with effects or that depends on "
                     "time, randomness, environment or thread, no unsafe code; the types are Send and Sync (programs that must compile).")

CHECKS["C18"] = dict(fns=[c_print.C18], rule="For a family of queries with every construct alone and within the others: the text the Display "
                     "implementations' terms give for the structure the parser's term builds is itself accepted by that term and "
                     "builds the same structure.")

TECHNIQUE = {
    "C01": "static: reachability of operations that can panic over the call graph, feasibility of their conditions by abstract interpretation",
    "C02": "static: reachability of operations that can panic over the call graph, feasibility of their conditions by abstract interpretation",
    "C04": "static: abstract interpretation of the typed IR with an inductive invariant on (location, node) pairs",
    "C15": "static: grammars extracted from the parser combinators' typed IR; language equality by product of derivatives",
    "C16": "static: grammars extracted from the parser combinators' typed IR; marked-text product against the RFC grammar",
    "C17": "static: value terms of the literal parser compared with the reference decoding over symbolic characters",
    "C18": "static: term rewriting of parser and Display summaries over a family of constructs (bounded)",
    "C21": "static: interval and linear reasoning on summaries of all construction sites; automaton of the parser's digits",
    "C25": "static: effect and shared-state analysis over the call graph; Send/Sync compile witnesses",
    "C26": "static: compile-fail witness programs with compiling twins",
    "C28": "static: type checking of all feature subsets and comparison of their typed bodies",
}

SUMMARY = ("static: per-function value summaries computed by abstract interpretation of rustc's typed IR, compared with "
           "those of a reference definition by case analysis")
NOTE = ("Sound-by-cases equivalence of summaries on the compiler's typed IR (THIR), under models of the standard library, "
        "serde_json and nom functions used; a case outside the models is reported in the evidence as undecided and raises no alarm. "
        "Trusts: rustc's front end, the models, the reference definitions in spec/, lists shorter than 2^47 elements, serde_json "
        "without arbitrary_precision.")
NOT_APPLICABLE = {
    "C30": "Termination time and stack depth quantify over run-time sizes: recursion depth follows the nesting of the input text "
           "and value, and the cost of the parser's alternatives depends on backtracking over the concrete text; no static "
           "argument in reach of this family bounds either (the parser and evaluator are in fact unbounded recursions).",
}
