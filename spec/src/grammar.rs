//! The grammar of RFC 9535 (Appendix A), with the structure each production denotes.  Read from the
//! ABNF; every function stands for one production.
use nom::branch::alt;
use nom::bytes::complete::{tag, take_while, take_while1, take_while_m_n};
use nom::character::complete::{char, satisfy};
use nom::combinator::{all_consuming, map, map_res, not, opt, peek, recognize, value};
use nom::multi::{fold_many0, many0, separated_list0, separated_list1};
use nom::sequence::{pair, preceded, terminated, tuple};
use nom::IResult;
use serde_json::Number;
use serde_json_path_core::spec::functions::{FunctionArgType, FunctionExpr, FunctionExprArg, Validated};
use serde_json_path_core::spec::integer::Integer;
use serde_json_path_core::spec::query::{Query, QueryKind};
use serde_json_path_core::spec::segment::{QuerySegment, QuerySegmentKind, Segment};
use serde_json_path_core::spec::selector::filter::{
    BasicExpr, Comparable, ComparisonExpr, ComparisonOperator, ExistExpr, Filter, Literal, LogicalAndExpr,
    LogicalOrExpr, SingularQuery,
};
use serde_json_path_core::spec::selector::index::Index;
use serde_json_path_core::spec::selector::name::Name;
use serde_json_path_core::spec::selector::slice::Slice;
use serde_json_path_core::spec::selector::Selector;

type P<'a, T> = IResult<&'a str, T>;

// B = %x20 / %x09 / %x0A / %x0D ; S = *B
fn is_blank(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r'
}

fn s(i: &str) -> P<&str> {
    take_while(is_blank)(i)
}

// jsonpath-query = root-identifier segments
pub fn query_text(i: &str) -> P<Query> {
    all_consuming(absolute_query)(i)
}

fn absolute_query(i: &str) -> P<Query> {
    map(preceded(char('$'), many0(spaced_segment)), |segments| Query { kind: QueryKind::Root, segments })(i)
}

fn relative_query(i: &str) -> P<Query> {
    map(preceded(char('@'), many0(spaced_segment)), |segments| Query { kind: QueryKind::Current, segments })(i)
}

// filter-query = rel-query / jsonpath-query
pub fn query(i: &str) -> P<Query> {
    alt((relative_query, absolute_query))(i)
}

// segments = *(S segment)
pub fn spaced_segment(i: &str) -> P<QuerySegment> {
    preceded(s, segment)(i)
}

// segment = child-segment / descendant-segment
pub fn segment(i: &str) -> P<QuerySegment> {
    alt((
        map(preceded(tag(".."), alt((bracketed, wildcard_shorthand, member_name_shorthand))), |segment| QuerySegment {
            kind: QuerySegmentKind::Descendant,
            segment,
        }),
        map(
            alt((bracketed, preceded(char('.'), alt((wildcard_shorthand, member_name_shorthand))))),
            |segment| QuerySegment { kind: QuerySegmentKind::Child, segment },
        ),
    ))(i)
}

fn wildcard_shorthand(i: &str) -> P<Segment> {
    value(Segment::Wildcard, char('*'))(i)
}

// member-name-shorthand = name-first *name-char
fn is_name_first(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c >= '\u{80}'
}

fn is_name_char(c: char) -> bool {
    is_name_first(c) || c.is_ascii_digit()
}

pub fn member_name(i: &str) -> P<String> {
    map(recognize(pair(satisfy(is_name_first), take_while(is_name_char))), |x: &str| x.to_owned())(i)
}

fn member_name_shorthand(i: &str) -> P<Segment> {
    map(member_name, Segment::DotName)(i)
}

// bracketed-selection = "[" S selector *(S "," S selector) S "]"
fn bracketed(i: &str) -> P<Segment> {
    map(
        preceded(
            pair(char('['), s),
            terminated(separated_list1(tuple((s, char(','), s)), selector), pair(s, char(']'))),
        ),
        Segment::LongHand,
    )(i)
}

// selector = name-selector / wildcard-selector / slice-selector / index-selector / filter-selector
pub fn selector(i: &str) -> P<Selector> {
    alt((
        map(string_literal, |x| Selector::Name(Name(x))),
        value(Selector::Wildcard, char('*')),
        map(slice, Selector::ArraySlice),
        map(int, |x| Selector::Index(Index(x))),
        map(filter, Selector::Filter),
    ))(i)
}

// int = "0" / (["-"] DIGIT1 *DIGIT)
fn int_text(i: &str) -> P<&str> {
    alt((
        recognize(char('0')),
        recognize(tuple((opt(char('-')), satisfy(|c| c >= '1' && c <= '9'), take_while(|c: char| c.is_ascii_digit())))),
    ))(i)
}

pub fn int(i: &str) -> P<Integer> {
    map_res(int_text, |x| x.parse::<Integer>())(i)
}

// slice-selector = [start S] ":" S [end S] [":" [S step ]]
pub fn slice(i: &str) -> P<Slice> {
    map(
        tuple((
            opt(terminated(int, s)),
            preceded(pair(char(':'), s), opt(terminated(int, s))),
            opt(preceded(char(':'), opt(preceded(s, int)))),
        )),
        |(start, end, step)| Slice { start, end, step: step.flatten() },
    )(i)
}

// filter-selector = "?" S logical-expr
pub fn filter(i: &str) -> P<Filter> {
    map(preceded(pair(char('?'), s), logical_or), Filter)(i)
}

// logical-or-expr = logical-and-expr *(S "||" S logical-and-expr)
pub fn logical_or(i: &str) -> P<LogicalOrExpr> {
    map(separated_list1(tuple((s, tag("||"), s)), logical_and), LogicalOrExpr)(i)
}

// logical-and-expr = basic-expr *(S "&&" S basic-expr)
pub fn logical_and(i: &str) -> P<LogicalAndExpr> {
    map(separated_list1(tuple((s, tag("&&"), s)), basic), LogicalAndExpr)(i)
}

// basic-expr = paren-expr / comparison-expr / test-expr
pub fn basic(i: &str) -> P<BasicExpr> {
    alt((
        map(preceded(pair(char('!'), s), paren), BasicExpr::NotParen),
        map(paren, BasicExpr::Paren),
        map(comparison, BasicExpr::Relation),
        map(preceded(pair(char('!'), s), query), |q| BasicExpr::NotExist(ExistExpr(q))),
        map(query, |q| BasicExpr::Exist(ExistExpr(q))),
        map(preceded(pair(char('!'), s), test_function), BasicExpr::NotFuncExpr),
        map(test_function, BasicExpr::FuncExpr),
    ))(i)
}

// paren-expr = [logical-not-op S] "(" S logical-expr S ")"
fn paren(i: &str) -> P<LogicalOrExpr> {
    preceded(pair(char('('), s), terminated(logical_or, pair(s, char(')'))))(i)
}

// a function used as a test has the result type LogicalType or NodesType
fn test_function(i: &str) -> P<FunctionExpr<Validated>> {
    map_res(function, |f| match f.return_type {
        FunctionArgType::Logical => Ok(f),
        FunctionArgType::Nodelist => Ok(f),
        FunctionArgType::Value => Err(()),
        FunctionArgType::Literal => Err(()),
        FunctionArgType::SingularQuery => Err(()),
    })(i)
}

// comparison-expr = comparable S comparison-op S comparable
pub fn comparison(i: &str) -> P<ComparisonExpr> {
    map(tuple((comparable, s, operator, s, comparable)), |(left, _, op, _, right)| ComparisonExpr { left, op, right })(i)
}

pub fn operator(i: &str) -> P<ComparisonOperator> {
    alt((
        value(ComparisonOperator::EqualTo, tag("==")),
        value(ComparisonOperator::NotEqualTo, tag("!=")),
        value(ComparisonOperator::LessThanEqualTo, tag("<=")),
        value(ComparisonOperator::GreaterThanEqualTo, tag(">=")),
        value(ComparisonOperator::LessThan, tag("<")),
        value(ComparisonOperator::GreaterThan, tag(">")),
    ))(i)
}

// comparable = literal / singular-query / function-expr (of ValueType)
pub fn comparable(i: &str) -> P<Comparable> {
    alt((
        map(literal, Comparable::Literal),
        map(singular_query, Comparable::SingularQuery),
        map_res(function, |f| match f.return_type {
            FunctionArgType::Value => Ok(Comparable::FunctionExpr(f)),
            _ => Err(()),
        }),
    ))(i)
}

pub fn singular_query(i: &str) -> P<SingularQuery> {
    map_res(query, SingularQuery::try_from)(i)
}

// literal = number / string-literal / true / false / null
pub fn literal(i: &str) -> P<Literal> {
    alt((
        map(number, Literal::Number),
        map(string_literal, Literal::String),
        map(boolean, Literal::Bool),
        map(null, |_| Literal::Null),
    ))(i)
}

// number = (int / "-0") [ frac ] [ exp ]
pub fn number(i: &str) -> P<Number> {
    map_res(
        recognize(tuple((
            alt((int_text, tag("-0"))),
            opt(pair(char('.'), take_while1(|c: char| c.is_ascii_digit()))),
            opt(tuple((
                satisfy(|c| c == 'e' || c == 'E'),
                opt(satisfy(|c| c == '+' || c == '-')),
                take_while1(|c: char| c.is_ascii_digit()),
            ))),
        ))),
        |x: &str| x.parse::<Number>(),
    )(i)
}

fn end_of_word(i: &str) -> P<()> {
    not(satisfy(is_function_name_char))(i)
}

pub fn boolean(i: &str) -> P<bool> {
    alt((value(true, terminated(tag("true"), end_of_word)), value(false, terminated(tag("false"), end_of_word))))(i)
}

pub fn null(i: &str) -> P<()> {
    value((), terminated(tag("null"), end_of_word))(i)
}

// string-literal = %x22 *double-quoted %x22 / %x27 *single-quoted %x27
pub fn string_literal(i: &str) -> P<String> {
    alt((double_quoted, single_quoted))(i)
}

fn is_unescaped(c: char) -> bool {
    // %x20-21 / %x23-26 / %x28-5B / %x5D-D7FF / %xE000-10FFFF
    c >= ' ' && c != '"' && c != '\'' && c != '\\'
}

pub fn double_quoted(i: &str) -> P<String> {
    terminated(
        preceded(
            char('"'),
            fold_many0(
                alt((
                    map(satisfy(is_unescaped), String::from),
                    map(char('\''), String::from),
                    preceded(char('\\'), alt((map(char('"'), String::from), escapable))),
                )),
                String::new,
                append,
            ),
        ),
        char('"'),
    )(i)
}

pub fn single_quoted(i: &str) -> P<String> {
    terminated(
        preceded(
            char('\''),
            fold_many0(
                alt((
                    map(satisfy(is_unescaped), String::from),
                    map(char('"'), String::from),
                    preceded(char('\\'), alt((map(char('\''), String::from), escapable))),
                )),
                String::new,
                append,
            ),
        ),
        char('\''),
    )(i)
}

fn append(mut a: String, b: String) -> String {
    a.push_str(&b);
    a
}

// escapable = b / f / n / r / t / "/" / "\" / (%x75 hexchar)
fn escapable(i: &str) -> P<String> {
    alt((
        value(String::from("\u{8}"), char('b')),
        value(String::from("\u{c}"), char('f')),
        value(String::from("\n"), char('n')),
        value(String::from("\r"), char('r')),
        value(String::from("\t"), char('t')),
        value(String::from("/"), char('/')),
        value(String::from("\\"), char('\\')),
        preceded(char('u'), hexchar),
    ))(i)
}

fn is_hex(c: char) -> bool {
    c.is_ascii_digit() || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')
}

fn hex(n: usize) -> impl Fn(&str) -> P<&str> {
    move |i| take_while_m_n(n, n, is_hex)(i)
}

// hexchar = non-surrogate / (high-surrogate "\" %x75 low-surrogate)
fn hexchar(i: &str) -> P<String> {
    alt((
        map_res(recognize(non_surrogate), |x| {
            u32::from_str_radix(x, 16).map_err(|_| ()).and_then(|n| char::from_u32(n).ok_or(())).map(String::from)
        }),
        map_res(
            tuple((recognize(high_surrogate), tag("\\u"), recognize(low_surrogate))),
            |(h, _, l): (&str, &str, &str)| {
                let h = u16::from_str_radix(h, 16).map_err(|_| ())?;
                let l = u16::from_str_radix(l, 16).map_err(|_| ())?;
                String::from_utf16(&[h, l]).map_err(|_| ())
            },
        ),
    ))(i)
}

// non-surrogate = ((DIGIT / "A"/"B"/"C" / "E"/"F") 3HEXDIG) / ("D" %x30-37 2HEXDIG )
fn non_surrogate(i: &str) -> P<&str> {
    alt((
        recognize(pair(satisfy(|c| is_hex(c) && c != 'd' && c != 'D'), hex(3))),
        recognize(tuple((satisfy(|c| c == 'd' || c == 'D'), satisfy(|c| c >= '0' && c <= '7'), hex(2)))),
    ))(i)
}

// high-surrogate = "D" ("8"/"9"/"A"/"B") 2HEXDIG
fn high_surrogate(i: &str) -> P<&str> {
    recognize(tuple((
        satisfy(|c| c == 'd' || c == 'D'),
        satisfy(|c| c == '8' || c == '9' || c == 'a' || c == 'A' || c == 'b' || c == 'B'),
        hex(2),
    )))(i)
}

// low-surrogate = "D" ("C"/"D"/"E"/"F") 2HEXDIG
fn low_surrogate(i: &str) -> P<&str> {
    recognize(tuple((
        satisfy(|c| c == 'd' || c == 'D'),
        satisfy(|c| (c >= 'c' && c <= 'f') || (c >= 'C' && c <= 'F')),
        hex(2),
    )))(i)
}

// function-name = function-name-first *function-name-char
fn is_function_name_char(c: char) -> bool {
    c.is_ascii_lowercase() || c == '_' || c.is_ascii_digit()
}

pub fn function_name(i: &str) -> P<String> {
    map(
        recognize(pair(satisfy(|c| c.is_ascii_lowercase()), take_while(is_function_name_char))),
        |x: &str| x.to_owned(),
    )(i)
}

// function-expr = function-name "(" S [function-argument *(S "," S function-argument)] S ")"
pub fn function(i: &str) -> P<FunctionExpr<Validated>> {
    map_res(
        pair(
            function_name,
            preceded(
                pair(char('('), s),
                terminated(separated_list0(tuple((s, char(','), s)), argument), pair(s, char(')'))),
            ),
        ),
        |(name, args)| declared(name, args),
    )(i)
}

fn declared(_name: String, _args: Vec<FunctionExprArg>) -> Result<FunctionExpr<Validated>, ()> {
    unimplemented!()
}

// function-argument = literal / filter-query (includes singular-query) / logical-expr / function-expr,
// each followed by the end of the argument
pub fn argument(i: &str) -> P<FunctionExprArg> {
    alt((
        map(terminated(literal, end_of_argument), FunctionExprArg::Literal),
        map(terminated(singular_query, end_of_argument), FunctionExprArg::SingularQuery),
        map(terminated(query, end_of_argument), FunctionExprArg::FilterQuery),
        map(terminated(function, end_of_argument), FunctionExprArg::FunctionExpr),
        map(logical_or, FunctionExprArg::LogicalExpr),
    ))(i)
}

fn end_of_argument(i: &str) -> P<()> {
    map(peek(pair(s, satisfy(|c| c == ',' || c == ')'))), |_| ())(i)
}
