//! RFC 9535 section 2.4: the built-in functions and the type system of function expressions.
use regex::Regex;
use serde_json::Value;
use serde_json_path_core::spec::functions::*;
use serde_json_path_core::spec::query::{Query, Queryable};
use serde_json_path_core::spec::segment::{QuerySegmentKind, Segment};
use serde_json_path_core::spec::selector::filter::{Literal, TestFilter};
use serde_json_path_core::spec::selector::Selector;

/// What can be told apart of a result: whether a value is owned or borrowed makes no difference.
pub enum Seen<'a> {
    Nodes(Vec<&'a Value>),
    Logical(bool),
    Value(Value),
    Nothing,
}

pub fn seen<'a>(v: JsonPathValue<'a>) -> Seen<'a> {
    match v {
        JsonPathValue::Nodes(n) => Seen::Nodes(n.all()),
        JsonPathValue::Logical(LogicalType::True) => Seen::Logical(true),
        JsonPathValue::Logical(LogicalType::False) => Seen::Logical(false),
        JsonPathValue::Node(v) => Seen::Value(v.clone()),
        JsonPathValue::Value(v) => Seen::Value(v),
        JsonPathValue::Nothing => Seen::Nothing,
    }
}

fn json<'a, 'b>(v: &'b JsonPathValue<'a>) -> Option<&'b Value> {
    match v {
        JsonPathValue::Node(v) => Some(v),
        JsonPathValue::Value(v) => Some(v),
        _ => None,
    }
}

pub fn length<'a>(v: JsonPathValue<'a>) -> Seen<'a> {
    match json(&v) {
        Some(Value::String(s)) => Seen::Value(Value::from(s.chars().count())),
        Some(Value::Array(a)) => Seen::Value(Value::from(a.len())),
        Some(Value::Object(o)) => Seen::Value(Value::from(o.len())),
        _ => Seen::Nothing,
    }
}

pub fn count<'a>(n: JsonPathValue<'a>) -> Seen<'a> {
    match n {
        JsonPathValue::Nodes(n) => Seen::Value(Value::from(n.len())),
        JsonPathValue::Node(_) => Seen::Value(Value::from(1usize)),
        _ => Seen::Value(Value::from(0usize)),
    }
}

pub fn value<'a>(n: JsonPathValue<'a>) -> Seen<'a> {
    match n {
        JsonPathValue::Nodes(n) => {
            if n.len() == 1 {
                Seen::Value(n.all()[0].clone())
            } else {
                Seen::Nothing
            }
        }
        JsonPathValue::Node(v) => Seen::Value(v.clone()),
        _ => Seen::Nothing,
    }
}

// RFC 9485: '.' matches anything but line feed and carriage return, hence the flag R
pub fn match_func<'a>(v: JsonPathValue<'a>, r: JsonPathValue<'a>) -> Seen<'a> {
    if let (Some(Value::String(s)), Some(Value::String(r))) = (json(&v), json(&r)) {
        if Regex::new(r).is_ok() {
            if let Ok(re) = Regex::new(&format!("(?R)^(?:{r})$")) {
                return Seen::Logical(re.is_match(s));
            }
        }
    }
    Seen::Logical(false)
}

pub fn search<'a>(v: JsonPathValue<'a>, r: JsonPathValue<'a>) -> Seen<'a> {
    if let (Some(Value::String(s)), Some(Value::String(r))) = (json(&v), json(&r)) {
        if Regex::new(r).is_ok() {
            if let Ok(re) = Regex::new(&format!("(?R)(?:{r})")) {
                return Seen::Logical(re.is_match(s));
            }
        }
    }
    Seen::Logical(false)
}

/// Does an argument value fit a parameter of the type?
pub fn is_value(v: &JsonPathValue) -> bool {
    matches!(v, JsonPathValue::Value(_) | JsonPathValue::Node(_) | JsonPathValue::Nothing)
}

pub fn is_nodes(v: &JsonPathValue) -> bool {
    matches!(v, JsonPathValue::Nodes(_) | JsonPathValue::Node(_) | JsonPathValue::Nothing)
}

pub fn is_logical(v: &JsonPathValue) -> bool {
    !matches!(v, JsonPathValue::Value(_))
}

/// RFC 9535 2.4.1 and 2.4.3: which declared types an argument of a kind can be converted to.
pub fn fits(kind: FunctionArgType, param: JsonPathType) -> bool {
    match param {
        JsonPathType::Value => matches!(
            kind,
            FunctionArgType::Literal | FunctionArgType::SingularQuery | FunctionArgType::Value
        ),
        JsonPathType::Nodes => matches!(kind, FunctionArgType::SingularQuery | FunctionArgType::Nodelist),
        JsonPathType::Logical => matches!(
            kind,
            FunctionArgType::SingularQuery | FunctionArgType::Nodelist | FunctionArgType::Logical
        ),
    }
}

/// Only single name or index steps.
pub fn is_singular(q: &Query) -> bool {
    for s in &q.segments {
        let one = matches!(s.kind, QuerySegmentKind::Child)
            && match &s.segment {
                Segment::DotName(_) => true,
                Segment::Wildcard => false,
                Segment::LongHand(sels) => {
                    sels.is_empty() // never written by the parser
                        || sels.len() == 1 && matches!(&sels[0], Selector::Name(_) | Selector::Index(_))
                }
            };
        if !one {
            return false;
        }
    }
    true
}

/// Kind of an argument other than a function expression.
pub fn kind(a: &FunctionExprArg) -> FunctionArgType {
    match a {
        FunctionExprArg::Literal(_) => FunctionArgType::Literal,
        FunctionExprArg::SingularQuery(_) => FunctionArgType::SingularQuery,
        FunctionExprArg::FilterQuery(q) => {
            if is_singular(q) {
                FunctionArgType::SingularQuery
            } else {
                FunctionArgType::Nodelist
            }
        }
        FunctionExprArg::LogicalExpr(_) => FunctionArgType::Logical,
        FunctionExprArg::FunctionExpr(f) => f.return_type,
    }
}

pub fn check0(_name: &str, args: &[FunctionExprArg]) -> Result<(), FunctionValidationError> {
    if args.len() != 0 {
        return Err(FunctionValidationError::NumberOfArgsMismatch { expected: 0, received: args.len() });
    }
    Ok(())
}

fn check_arg(name: &str, i: usize, p: JsonPathType, a: &FunctionExprArg) -> Result<(), FunctionValidationError> {
    let k = a.as_type_kind()?;
    if fits(k, p) {
        Ok(())
    } else {
        Err(FunctionValidationError::MismatchTypeKind {
            name: name.to_owned(),
            expected: p,
            received: k,
            position: i,
        })
    }
}

pub fn check1(name: &str, p0: JsonPathType, args: &[FunctionExprArg]) -> Result<(), FunctionValidationError> {
    if args.len() != 1 {
        return Err(FunctionValidationError::NumberOfArgsMismatch { expected: 1, received: args.len() });
    }
    check_arg(name, 0, p0, &args[0])
}

pub fn check2(
    name: &str,
    p0: JsonPathType,
    p1: JsonPathType,
    args: &[FunctionExprArg],
) -> Result<(), FunctionValidationError> {
    if args.len() != 2 {
        return Err(FunctionValidationError::NumberOfArgsMismatch { expected: 2, received: args.len() });
    }
    check_arg(name, 0, p0, &args[0])?;
    check_arg(name, 1, p1, &args[1])
}

pub fn check3(
    name: &str,
    p0: JsonPathType,
    p1: JsonPathType,
    p2: JsonPathType,
    args: &[FunctionExprArg],
) -> Result<(), FunctionValidationError> {
    if args.len() != 3 {
        return Err(FunctionValidationError::NumberOfArgsMismatch { expected: 3, received: args.len() });
    }
    check_arg(name, 0, p0, &args[0])?;
    check_arg(name, 1, p1, &args[1])?;
    check_arg(name, 2, p2, &args[2])
}

/// A call declared with the function `f`.
pub fn declare(
    f: &'static Function,
    name: String,
    args: Vec<FunctionExprArg>,
) -> Result<FunctionExpr<Validated>, FunctionValidationError> {
    (f.validator)(args.as_slice())?;
    Ok(FunctionExpr { name, args, return_type: f.result_type, validated: Validated { evaluator: f.evaluator } })
}

/// Functions registered by the user, the first of the name.
pub fn declare_user(
    fs: &'static [Function],
    name: String,
    args: Vec<FunctionExprArg>,
) -> Option<Result<FunctionExpr<Validated>, FunctionValidationError>> {
    for f in fs {
        if f.name == name {
            return Some(declare(f, name, args));
        }
    }
    None
}

pub fn undefined(name: String) -> Result<FunctionExpr<Validated>, FunctionValidationError> {
    Err(FunctionValidationError::Undefined { name })
}

/// 2.4.2: conversions of argument values to parameter types.
pub fn to_value<'a>(v: JsonPathValue<'a>) -> Option<Seen<'a>> {
    match v {
        JsonPathValue::Value(v) => Some(Seen::Value(v)),
        JsonPathValue::Node(v) => Some(Seen::Value(v.clone())),
        JsonPathValue::Nothing => Some(Seen::Nothing),
        _ => None,
    }
}

pub fn to_nodes<'a>(v: JsonPathValue<'a>) -> Option<Seen<'a>> {
    match v {
        JsonPathValue::Nodes(n) => Some(Seen::Nodes(n.all())),
        JsonPathValue::Node(v) => Some(Seen::Nodes(vec![v])),
        JsonPathValue::Nothing => Some(Seen::Nodes(vec![])),
        _ => None,
    }
}

pub fn to_logical<'a>(v: JsonPathValue<'a>) -> Option<Seen<'a>> {
    match v {
        JsonPathValue::Nodes(n) => Some(Seen::Logical(n.len() != 0)),
        JsonPathValue::Node(_) => Some(Seen::Logical(true)),
        JsonPathValue::Nothing => Some(Seen::Logical(false)),
        JsonPathValue::Logical(LogicalType::True) => Some(Seen::Logical(true)),
        JsonPathValue::Logical(LogicalType::False) => Some(Seen::Logical(false)),
        JsonPathValue::Value(_) => None,
    }
}

pub fn seen_value<'a>(v: ValueType<'a>) -> Seen<'a> {
    match v {
        ValueType::Value(v) => Seen::Value(v),
        ValueType::Node(v) => Seen::Value(v.clone()),
        ValueType::Nothing => Seen::Nothing,
    }
}

pub fn seen_nodes<'a>(v: NodesType<'a>) -> Seen<'a> {
    Seen::Nodes(v.all())
}

pub fn seen_logical<'a>(v: LogicalType) -> Seen<'a> {
    Seen::Logical(match v {
        LogicalType::True => true,
        LogicalType::False => false,
    })
}

pub fn evaluate<'a, 'b: 'a>(f: &'a FunctionExpr<Validated>, cur: &'b Value, root: &'b Value) -> JsonPathValue<'a> {
    let mut args = std::collections::VecDeque::new();
    for a in &f.args {
        args.push_back(argument(a, cur, root));
    }
    (f.validated.evaluator)(args)
}

pub fn argument<'a, 'b: 'a>(a: &'a FunctionExprArg, cur: &'b Value, root: &'b Value) -> JsonPathValue<'a> {
    match a {
        FunctionExprArg::Literal(Literal::Number(n)) => JsonPathValue::Value(Value::Number(n.clone())),
        FunctionExprArg::Literal(Literal::String(s)) => JsonPathValue::Value(Value::String(s.clone())),
        FunctionExprArg::Literal(Literal::Bool(b)) => JsonPathValue::Value(Value::Bool(*b)),
        FunctionExprArg::Literal(Literal::Null) => JsonPathValue::Value(Value::Null),
        FunctionExprArg::SingularQuery(q) => match q.eval_query(cur, root) {
            Some(v) => JsonPathValue::Node(v),
            None => JsonPathValue::Nothing,
        },
        FunctionExprArg::FilterQuery(q) => JsonPathValue::Nodes(q.query(cur, root).into()),
        FunctionExprArg::LogicalExpr(l) => JsonPathValue::Logical(if l.test_filter(cur, root) {
            LogicalType::True
        } else {
            LogicalType::False
        }),
        FunctionExprArg::FunctionExpr(f) => evaluate(f, cur, root),
    }
}
