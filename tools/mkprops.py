#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
CORE = "serde_json_path_core/src/"
SJP = "serde_json_path/src/"
MAC = "serde_json_path_macros/src/internal/"
def prop(id, title, statement, over, q, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Parsing any text returns a result and never panics",
     "For every text given to the parser the call returns either a parsed query or an error value; it never panics, whatever the text contains (truncated escapes, huge numbers, stray multi-byte characters, unknown functions). Exhausting the stack with extreme nesting is outside this property.",
     ["inputs"], "every string, valid or not, given to any entry point that parses a query (parse, FromStr, Deserialize)",
     "The tests try a few dozen malformed queries; a panic hides in one truncated escape or one boundary number among infinitely many strings.",
     [SJP+"path.rs", SJP+"parser/mod.rs", SJP+"parser/primitive/string.rs", SJP+"parser/utils.rs", SJP+"error.rs"],
     [("complete (non-streaming) nom parsers only, so Incomplete is impossible", SJP+"path.rs: JsonPath::parse, "+SJP+"parser/**"),
      ("numeric conversions go through fallible map_res", SJP+"parser/primitive/{int,number,string}.rs"),
      ("error position computed by offset inside the input", SJP+"parser/mod.rs: calculate_position")],
     ["JsonPath::parse", "JsonPath::from_str", "Deserialize for JsonPath"])
prop("C02", "Querying never panics, and result accessors do not either",
     "Applying any parsed query to any JSON value, with or without locations, returns a list and never panics, whatever indices, slice bounds, steps, comparisons or function arguments the query contains. Reading, converting, de-duplicating, displaying and serialising what a query returned does not panic either.",
     ["inputs"], "every parsed query and every JSON value, including extreme index/slice/step values and arrays shorter than any of them",
     "Panics come from arithmetic at the extremes of the integer range and from unwraps guarded by invariants; tests sample neither systematically.",
     [CORE+"spec/selector/slice.rs", CORE+"spec/selector/index.rs", CORE+"spec/integer.rs", CORE+"node.rs", CORE+"spec/functions.rs", MAC+"common/define.rs"],
     [("checked integer arithmetic and bounds-checked get", CORE+"spec/selector/{slice,index}.rs"),
      ("unwraps guarded by emptiness checks", CORE+"node.rs: at_most_one, exactly_one"),
      ("generated evaluators unwrap only what validation has checked", MAC+"common/define.rs: expand")],
     ["JsonPath::query", "JsonPath::query_located"])
prop("C03", "Plain and located queries select the same nodes in the same order",
     "For every query and value, the list of nodes returned with locations is, node for node and in the same order and multiplicity, the list returned without locations.",
     ["inputs"], "every query over every value",
     "The two evaluations are written separately for every kind of selector and segment; tests mostly exercise one of the two.",
     [CORE+"spec/query.rs", CORE+"spec/segment.rs", CORE+"spec/selector/mod.rs", CORE+"spec/selector/name.rs", CORE+"spec/selector/index.rs", CORE+"spec/selector/slice.rs", CORE+"spec/selector/filter.rs"],
     [("sibling methods query / query_located on each query part", CORE+"spec/**: impl Queryable"),
      ("sibling functions descend / descend_paths", CORE+"spec/segment.rs")],
     ["JsonPath::query", "JsonPath::query_located"])
prop("C04", "Every reported location leads to exactly the node it is reported with",
     "For every located result, following its normalized path step by step from the root of the queried value (member names into objects, indices into arrays) arrives at the very node it was reported with. Indices are non-negative positions counted from the start of the array, and names are keys of the object.",
     ["inputs"], "every node of every located query result",
     "A path built from the wrong parent, the wrong counter or a negative index only shows on particular shapes of data and query.",
     [CORE+"spec/query.rs", CORE+"spec/segment.rs", CORE+"spec/selector/mod.rs", CORE+"spec/selector/name.rs", CORE+"spec/selector/index.rs", CORE+"spec/selector/slice.rs", CORE+"spec/selector/filter.rs", CORE+"path.rs"],
     [("each step pushes the key or index it followed onto a clone of the parent path", CORE+"path.rs: push, clone_and_push; "+CORE+"spec/**: query_located")],
     ["LocatedNode::location", "LocatedNode::node"])
prop("C05", "Name, wildcard and index selectors follow RFC 9535",
     "A name selects the member of an object with exactly that key; a wildcard selects all array elements in order or all member values of an object; index i selects element i, or element len+i when i is negative. All of them select nothing where the value has another type or the member or element does not exist, in bracketed and shorthand notation alike.",
     ["inputs"], "every name/wildcard/index selector over every value",
     "Tests check a handful of indices; wrong bounds appear only at particular lengths (i = -len, i = len, i = -len-1).",
     [CORE+"spec/selector/name.rs", CORE+"spec/selector/index.rs", CORE+"spec/selector/mod.rs", CORE+"spec/segment.rs"],
     [("object key lookup, array get with checked subtraction", CORE+"spec/selector/{name,index}.rs"), ("wildcards", CORE+"spec/selector/mod.rs, "+CORE+"spec/segment.rs")],
     ["JsonPath::query"])
prop("C06", "Array slices select exactly the elements RFC 9535 prescribes",
     "For every start, end and step (each possibly absent or negative) and every array length, a slice selects exactly the elements, in exactly the order, given by the normalisation and bounds rules of RFC 9535 section 2.3.4.2; step 0 and non-arrays select nothing.",
     ["inputs"], "all combinations of start/end/step over the whole I-JSON integer range and all array lengths",
     "The space of (start, end, step, length) is unbounded and its errors sit on boundaries between sign regimes.",
     [CORE+"spec/selector/slice.rs"],
     [("bounds_on_forward_slice / bounds_on_reverse_slice / normalize_slice_index", CORE+"spec/selector/slice.rs")],
     ["JsonPath::query", "JsonPath::query_located"])
prop("C07", "Descendant segments visit every descendant once, parents first",
     "A descendant segment applies its selectors to the input node itself and to every descendant of it, each exactly once; a node is visited before its descendants, and the elements of an array are visited in array order.",
     ["inputs"], "every descendant segment over every value of any depth",
     "Order and multiplicity over arbitrary nesting cannot be enumerated by example documents.",
     [CORE+"spec/segment.rs"],
     [("recursion through descend / descend_paths after the segment itself", CORE+"spec/segment.rs: impl Queryable for QuerySegment")],
     ["JsonPath::query", "JsonPath::query_located"])
prop("C08", "Segments and selectors compose in order, duplicates kept",
     "A query starts from the root ($) or from the current node (@); each segment is applied to every node of the previous result, in order, and the results are concatenated; a bracketed list concatenates the results of its selectors in the written order. Nodes selected more than once are kept as often as they were selected.",
     ["inputs"], "every chain of segments and every list of selectors over every value",
     "Composition bugs (lost duplicates, wrong order, root mixed up with current inside nested filters) need particular combinations of several segments.",
     [CORE+"spec/query.rs", CORE+"spec/segment.rs", CORE+"spec/selector/mod.rs", SJP+"path.rs"],
     [("loop over segments threading the node list", CORE+"spec/query.rs"), ("loop over selectors", CORE+"spec/segment.rs"), ("root passed unchanged", CORE+"spec/**")],
     ["JsonPath::query", "JsonPathExt::json_path"])
prop("C09", "Filters keep exactly the children whose expression is true",
     "A filter selects, in order, exactly the elements of an array or member values of an object for which its logical expression is true; and, or, not and parentheses have their Boolean meaning; a query used as a test is true exactly when it selects at least one node, whatever that node's value.",
     ["inputs"], "every logical expression over every value",
     "Truth tables combined with arbitrary nesting, negation, null/false node values and $ inside filters are beyond sampled tests.",
     [CORE+"spec/selector/filter.rs", CORE+"spec/functions.rs"],
     [("TestFilter implementations", CORE+"spec/selector/filter.rs"), ("Filter::query", CORE+"spec/selector/filter.rs")],
     ["JsonPath::query"])
prop("C10", "Comparisons follow the RFC 9535 comparison rules for all values",
     "For every pair of comparison operands: an absent node or value equals only another absent one; numbers compare by numeric value, also inside arrays and objects; strings, booleans, null, arrays and objects are equal when they are the same JSON value; < holds only between two numbers or two strings. The operators !=, <=, > and >= are derived from == and < as the RFC defines.",
     ["inputs"], "all pairs of operands (literals, query results, function results, nothing) and all six operators",
     "The cross product of operand kinds, types and operators has hundreds of cells; tests touch a few.",
     [CORE+"spec/selector/filter.rs", CORE+"spec/functions.rs"],
     [("check_equal_to, check_less_than, value_equal_to, number_equal_to, number_less_than", CORE+"spec/selector/filter.rs"), ("operator dispatch", CORE+"spec/selector/filter.rs: impl TestFilter for ComparisonExpr"), ("Comparable::as_value", CORE+"spec/selector/filter.rs")],
     ["JsonPath::query"])
prop("C11", "Singular queries yield what the same general query would select",
     "A query made only of name and index steps, used where a single value is needed, yields the one node that the same query would select and nothing where that selects nothing, negative indices included. Exactly the queries made only of single name or index child steps are treated as singular.",
     ["inputs"], "all singular queries over all values, and all queries for the classification",
     "There are two independent evaluators and two independent classifiers; tests do not compare them.",
     [CORE+"spec/selector/filter.rs", CORE+"spec/segment.rs", CORE+"spec/selector/mod.rs", CORE+"spec/query.rs"],
     [("SingularQuery::eval_query", CORE+"spec/selector/filter.rs"), ("is_singular vs TryFrom<Query>", CORE+"spec/{query,segment}.rs, "+CORE+"spec/selector/{mod,filter}.rs")],
     ["JsonPath::query"])
prop("C12", "Built-in functions length, count, match, search and value follow RFC 9535",
     "length counts Unicode scalar values of strings, elements of arrays and members of objects and is nothing otherwise; count is the number of nodes; value is the single node's value and nothing for zero or several; match and search test whole-string and substring matches and are false for non-strings and invalid expressions.",
     ["inputs"], "every argument of every built-in function",
     "Edge cases (multi-byte strings, alternations in a pattern, several nodes, absent values) are not enumerated by the tests.",
     [SJP+"parser/selector/function/registry.rs"],
     [("function bodies behind #[register]", SJP+"parser/selector/function/registry.rs")],
     ["JsonPath::query"])
prop("C13", "Only well-typed function calls are accepted, and all well-typed calls are",
     "Parsing accepts a function call exactly when the function is known, has the right number of arguments, every argument converts to its declared parameter type, and the declared result type fits the place of use (value for comparisons, logical or nodes for tests). Everything else is rejected when parsing, with an error saying what was expected and what was received.",
     ["inputs"], "all function names, argument lists and places of use",
     "The matrix of parameter types, argument kinds and use sites is only sampled.",
     [CORE+"spec/functions.rs", SJP+"parser/selector/filter.rs", SJP+"parser/selector/function/mod.rs", MAC+"common/define.rs"],
     [("FunctionArgType::converts_to and as_type_kind", CORE+"spec/functions.rs"), ("generated validators", MAC+"common/define.rs"), ("return type checks at each use site", SJP+"parser/selector/filter.rs")],
     ["JsonPath::parse"])
prop("C14", "A function call accepted by the parser always receives arguments it can convert",
     "Whatever argument the parser accepted for a parameter, the value it evaluates to at query time converts to the parameter's type, so a call that passed validation never fails during a query; the conversion preserves the value (a node stays that node, an absent value stays absent, a node list tests true exactly when non-empty).",
     ["inputs"], "every accepted call over every value",
     "Validation and conversion are two separate tables written by hand in different places; disagreement shows only for one pairing.",
     [CORE+"spec/functions.rs", MAC+"common/define.rs"],
     [("converts_to (parse time) vs TryFrom<JsonPathValue> (query time)", CORE+"spec/functions.rs"), ("FunctionExprArg::evaluate", CORE+"spec/functions.rs")],
     ["JsonPath::query"])
prop("C15", "The accepted query language is the RFC 9535 grammar",
     "A text is accepted exactly when it is a query by the grammar of RFC 9535: segments, shorthands, selectors, whitespace placement, string literals and escapes, integers, numbers, logical expressions, comparisons and function calls; the whole text must be consumed.",
     ["inputs"], "all strings",
     "The language is infinite and the external compliance suite is not available to the tests (its data is an empty submodule here).",
     [SJP+"parser/mod.rs", SJP+"parser/segment.rs", SJP+"parser/selector/mod.rs", SJP+"parser/selector/slice.rs", SJP+"parser/selector/filter.rs", SJP+"parser/selector/function/mod.rs", SJP+"parser/primitive/string.rs", SJP+"parser/primitive/int.rs", SJP+"parser/primitive/number.rs"],
     [("nom parser functions, one per grammar rule", SJP+"parser/**"), ("all_consuming at the top", SJP+"parser/mod.rs: parse_query_main")],
     ["JsonPath::parse"])
prop("C16", "A parsed query means what was written",
     "Every accepted query is turned into the structure its text denotes: each operator, negation, slice part, index, name, keyword, number and function argument ends up in its own place with its own value, in the written order; child and descendant segments and $ and @ are told apart.",
     ["inputs"], "all accepted queries",
     "A swapped pair or wrongly mapped operator shows only for queries using that construct in a distinguishing way.",
     [SJP+"parser/mod.rs", SJP+"parser/segment.rs", SJP+"parser/selector/mod.rs", SJP+"parser/selector/slice.rs", SJP+"parser/selector/filter.rs", SJP+"parser/selector/function/mod.rs", SJP+"parser/primitive/mod.rs"],
     [("mapping closures of the parser combinators", SJP+"parser/**")],
     ["JsonPath::parse"])
prop("C17", "String literals decode to the characters they denote",
     "Inside single- or double-quoted literals every ordinary character stands for itself, each escape stands for its character, four-digit escapes give that code point in either hex case, and surrogate pairs combine into one character; control characters, unknown escapes, lone surrogates and the wrong escaped quote are rejected.",
     ["inputs"], "all string literals",
     "65536 code units times hex spellings times two quote styles; tests use a dozen.",
     [SJP+"parser/primitive/string.rs"],
     [("parse_escaped_char, parse_hex_char, parse_surrogate, is_valid_unescaped_char", SJP+"parser/primitive/string.rs")],
     ["JsonPath::parse"])
prop("C18", "Printing a query and parsing it again gives the same query",
     "For every query obtained by parsing, its printed form is accepted by the parser and parses to an equal query.",
     ["inputs"], "all queries that can be parsed",
     "Printing and parsing are written independently for every construct; a missing escape or dropped negation only shows on that construct.",
     [CORE+"spec/query.rs", CORE+"spec/segment.rs", CORE+"spec/selector/mod.rs", CORE+"spec/selector/name.rs", CORE+"spec/selector/slice.rs", CORE+"spec/selector/filter.rs", CORE+"spec/functions.rs", CORE+"path.rs", SJP+"path.rs"],
     [("Display implementations of the query structure", CORE+"spec/**"), ("single-quote escaping", CORE+"path.rs: SingleQuoted")],
     ["JsonPath::to_string"])
prop("C19", "Normalized path text is the canonical RFC 9535 form",
     "The text of a location is $ followed by one bracketed step per element: a decimal index, or a single-quoted name in which exactly the characters required by RFC 9535 section 2.7 are escaped, in the prescribed form. Distinct locations have distinct texts, and parsing a location's text as a query selects exactly that node.",
     ["inputs"], "all locations with arbitrary member names",
     "Member names range over all Unicode strings; tests use a few control characters.",
     [CORE+"path.rs"],
     [("Display for NormalizedPath, SingleQuoted", CORE+"path.rs")],
     ["NormalizedPath::to_string", "Serialize for NormalizedPath"])
prop("C20", "JSON pointers made from locations resolve to the same node",
     "The JSON pointer produced for a location follows RFC 6901: one slash-prefixed reference token per step, with ~ written ~0 and / written ~1 in names and decimal indices, so that resolving it against the queried value yields the node of that location.",
     ["inputs"], "all locations with arbitrary member names",
     "Names mixing ~, /, ~0 and ~1 interact with the order of replacement.",
     [CORE+"path.rs"],
     [("NormalizedPath::to_json_pointer, PathElement::to_json_pointer", CORE+"path.rs")],
     ["NormalizedPath::to_json_pointer"])
prop("C21", "Integers in queries always stay within the I-JSON range",
     "No index, slice bound or step outside -(2^53-1)..2^53-1 can come into existence: literals outside are rejected with an error when parsing, conversions from wider integer types fail for them, and arithmetic reports overflow instead of leaving the range. Every integer inside the range is accepted and keeps its value.",
     ["inputs", "histories"], "all integers and all sequences of integer operations",
     "One unchecked construction site is enough to break the invariant for inputs no test uses.",
     [CORE+"spec/integer.rs", SJP+"parser/primitive/int.rs"],
     [("private field, checked constructors", CORE+"spec/integer.rs")],
     ["JsonPath::parse"])
prop("C22", "Node list accessors and iterators agree with the list's contents",
     "Length, emptiness, first, last, get, iteration in either direction, at-most-one, exactly-one and conversion to a vector all describe one and the same sequence, for plain and located lists; errors report the true number of nodes, and location and node iterators yield the parts of each entry in order.",
     ["inputs", "histories"], "all node lists, including empty, single and longer ones, and every interleaving of front and back iteration",
     "Tests use one or two list lengths and only forward iteration.",
     [CORE+"node.rs", CORE+"path.rs"],
     [("NodeList, LocatedNodeList, Locations, Nodes", CORE+"node.rs")],
     ["NodeList", "LocatedNodeList"])
prop("C23", "De-duplication removes exactly the repeated locations",
     "De-duplicating a located query result leaves exactly one entry for every distinct location in it and loses or invents none, by value and in place alike; different locations holding equal values are all kept.",
     ["inputs"], "all located query results",
     "Needs results with repeats at a distance and equal values at different places; tests have one example.",
     [CORE+"node.rs", CORE+"path.rs"],
     [("sort by location, then removal of adjacent equals", CORE+"node.rs: dedup_in_place"), ("order on path elements", CORE+"path.rs: PartialOrd for PathElement, NormalizedPath")],
     ["LocatedNodeList::dedup", "LocatedNodeList::dedup_in_place"])
prop("C24", "Serialized forms carry the same information as the values",
     "A query serialises to its printed text and deserialises through the same parser, rejecting what the parser rejects; node lists serialise to the array of their nodes, located nodes to their location text and node, locations to their text, and path elements to a string or a number.",
     ["inputs"], "all queries, node lists and locations",
     "Serialisation code is separate from printing and parsing and is tested on single examples.",
     [SJP+"path.rs", CORE+"path.rs", CORE+"node.rs"],
     [("Serialize/Deserialize for JsonPath", SJP+"path.rs"), ("Serialize for NormalizedPath, PathElement, NodeList, LocatedNode", CORE+"path.rs, "+CORE+"node.rs")],
     ["serde_json::to_string", "serde_json::from_str"])
prop("C25", "Queries are pure: repeatable, thread-safe and without side effects",
     "Parsing and querying depend on nothing but their arguments and the set of registered functions, change nothing observable (no input or output, no global state, no time or randomness), and neither the query nor the queried value is modified; queries and results can be shared and sent between threads.",
     ["schedules", "histories", "inputs"], "all interleavings of parsing and querying on any number of threads, in any order and repetition",
     "A hidden cache, global or lock shows only under particular histories or schedules; the tests are single-threaded and call each function once.",
     [SJP+"path.rs", SJP+"parser/mod.rs", SJP+"parser/selector/function/registry.rs", CORE+"spec/functions.rs", CORE+"node.rs"],
     [("no interior mutability in the data types, shared references only", CORE+"spec/**"), ("once-initialised immutable registry", SJP+"parser/selector/function/registry.rs"), ("unsafe code forbidden", SJP+"lib.rs, "+CORE+"lib.rs")],
     ["JsonPath", "NodeList", "LocatedNodeList"])
prop("C26", "Ill-formed custom functions are rejected when compiling",
     "The function attribute accepts exactly functions whose parameters and result are the JSONPath types, and refuses to compile methods, pattern parameters, other types and missing results; the lifetime of results is tied to the queried value, and invalid uses of results after the value is gone do not compile.",
     ["programs"], "all user programs defining custom functions or holding query results",
     "Only programs that compile can be tests here; what must not compile is not exercised at all.",
     [MAC+"common/extract.rs", MAC+"common/define.rs", MAC+"func/args.rs", CORE+"node.rs"],
     [("extract_components type checks", MAC+"common/extract.rs"), ("lifetime parameters of NodeList and LocatedNode", CORE+"node.rs")],
     ["#[serde_json_path::function]"])
prop("C27", "A registered function is called under its own name with its own types",
     "A call in a query reaches exactly the function registered under that name, with its arguments in the written order, and is checked against that function's own parameter and result types; functions registered by the user take precedence over built-in ones consistently in checking and in evaluation, and every name the parser knows has the same result type wherever it is nested.",
     ["inputs", "configurations"], "all sets of registered functions and all calls, nested ones included",
     "Names, evaluators, validators and result types are tied together in several places; a mix-up needs a particular pair of functions to show.",
     [SJP+"parser/selector/function/registry.rs", SJP+"parser/selector/function/mod.rs", CORE+"spec/functions.rs", MAC+"common/define.rs", MAC+"func/define.rs", MAC+"reg/define.rs"],
     [("registry table", SJP+"parser/selector/function/registry.rs"), ("lookup", SJP+"parser/selector/function/mod.rs: parse_function_expr; "+CORE+"spec/functions.rs: validate, as_type_kind"), ("macro expansion", MAC+"**/define.rs")],
     ["JsonPath::parse", "JsonPath::query"])
prop("C28", "Every combination of features builds, and features add without changing",
     "Every combination of the crate's optional features compiles; switching on tracing changes no result; the regex feature adds match and search and nothing else; custom functions are available with the functions feature, and all other behaviour is the same in every combination.",
     ["configurations"], "all subsets of the optional features",
     "Tests run in a single feature combination.",
     [SJP+"lib.rs", "serde_json_path/Cargo.toml", "serde_json_path_core/Cargo.toml", SJP+"parser/selector/function/registry.rs", CORE+"spec/functions.rs"],
     [("cfg(feature) gates and cfg_attr(tracing::instrument)", SJP+"**, "+CORE+"**")],
     ["cargo features functions, regex, trace"])
prop("C29", "Parse errors carry a position inside the text and a message",
     "Every parse error reports a byte position between zero and the length of the text, on a character boundary, and a non-empty message; the displayed error contains both.",
     ["inputs"], "all rejected texts",
     "Positions are only checked for single examples.",
     [SJP+"error.rs", SJP+"parser/mod.rs", SJP+"path.rs"],
     [("calculate_position: offset of the first recorded error's remaining input", SJP+"parser/mod.rs"), ("message construction", SJP+"error.rs, "+SJP+"parser/mod.rs: Display for Error")],
     ["ParseError::position", "ParseError::message"])
prop("C30", "Parsing and querying finish within bounded stack and reasonable time",
     "For every text and value, parsing and querying terminate, use stack no deeper than the nesting of their inputs allows, and take time polynomial in the sizes of query and value.",
     ["inputs"], "all texts and values, including deeply nested ones",
     "Nesting depth and blow-up need inputs far larger than the tests use.",
     [SJP+"parser/mod.rs", SJP+"parser/selector/filter.rs", CORE+"spec/segment.rs"],
     [("recursive descent without depth limit", SJP+"parser/selector/filter.rs"), ("recursion over the value", CORE+"spec/segment.rs")],
     ["JsonPath::parse", "JsonPath::query"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
