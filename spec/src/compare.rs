//! RFC 9535 section 2.3.5.2.2: comparisons.
use serde_json::{Number, Value};
use serde_json_path_core::spec::functions::JsonPathValue;
use serde_json_path_core::spec::selector::filter::*;

pub fn operand<'a, 'b: 'a>(c: &'a Comparable, cur: &'b Value, root: &'b Value) -> JsonPathValue<'a> {
    match c {
        Comparable::Literal(Literal::Number(n)) => JsonPathValue::Value(Value::Number(n.clone())),
        Comparable::Literal(Literal::String(s)) => JsonPathValue::Value(Value::String(s.clone())),
        Comparable::Literal(Literal::Bool(b)) => JsonPathValue::Value(Value::Bool(*b)),
        Comparable::Literal(Literal::Null) => JsonPathValue::Value(Value::Null),
        Comparable::SingularQuery(q) => match q.eval_query(cur, root) {
            Some(v) => JsonPathValue::Node(v),
            None => JsonPathValue::Nothing,
        },
        Comparable::FunctionExpr(f) => f.evaluate(cur, root),
    }
}

// numbers by value (serde_json: without arbitrary precision every number has an f64 value)
fn num_eq(a: &Number, b: &Number) -> bool {
    a.as_f64().unwrap() == b.as_f64().unwrap()
}

fn num_lt(a: &Number, b: &Number) -> bool {
    a.as_f64().unwrap() < b.as_f64().unwrap()
}

pub fn value_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Number(x), Value::Number(y)) => num_eq(x, y),
        (Value::String(x), Value::String(y)) => x == y,
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return false;
            }
            for i in 0..x.len() {
                if !value_eq(&x[i], &y[i]) {
                    return false;
                }
            }
            true
        }
        (Value::Object(x), Value::Object(y)) => {
            if x.len() != y.len() {
                return false;
            }
            for (k, v) in x {
                match y.get(k) {
                    Some(w) => {
                        if !value_eq(v, w) {
                            return false;
                        }
                    }
                    None => return false,
                }
            }
            true
        }
        _ => false,
    }
}

pub fn value_lt(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => num_lt(x, y),
        (Value::String(x), Value::String(y)) => x < y,
        _ => false,
    }
}

fn value_of<'a>(v: &'a JsonPathValue<'a>) -> Option<&'a Value> {
    match v {
        JsonPathValue::Node(v) => Some(v),
        JsonPathValue::Value(v) => Some(v),
        _ => None,
    }
}

fn eq(a: &JsonPathValue, b: &JsonPathValue) -> bool {
    match (a, b) {
        (JsonPathValue::Nothing, JsonPathValue::Nothing) => true,
        _ => match (value_of(a), value_of(b)) {
            (Some(x), Some(y)) => value_eq(x, y),
            _ => false,
        },
    }
}

fn lt(a: &JsonPathValue, b: &JsonPathValue) -> bool {
    match (value_of(a), value_of(b)) {
        (Some(x), Some(y)) => value_lt(x, y),
        _ => false,
    }
}

pub fn comparison(c: &ComparisonExpr, cur: &Value, root: &Value) -> bool {
    let a = c.left.as_value(cur, root);
    let b = c.right.as_value(cur, root);
    match c.op {
        ComparisonOperator::EqualTo => eq(&a, &b),
        ComparisonOperator::NotEqualTo => !eq(&a, &b),
        ComparisonOperator::LessThan => lt(&a, &b),
        ComparisonOperator::GreaterThan => lt(&b, &a),
        ComparisonOperator::LessThanEqualTo => lt(&a, &b) || eq(&a, &b),
        ComparisonOperator::GreaterThanEqualTo => lt(&b, &a) || eq(&a, &b),
    }
}

/// The definition with recorded defects of the crate (known_findings.json) in it.
pub mod known {
    use super::*;

    // numbers inside arrays and objects compare by representation
    fn flat_value_eq(a: &Value, b: &Value) -> bool {
        match (a, b) {
            (Value::Number(x), Value::Number(y)) => num_eq(x, y),
            _ => a == b,
        }
    }

    fn flat_eq(a: &JsonPathValue, b: &JsonPathValue) -> bool {
        match (a, b) {
            (JsonPathValue::Nothing, JsonPathValue::Nothing) => true,
            _ => match (value_of(a), value_of(b)) {
                (Some(x), Some(y)) => flat_value_eq(x, y),
                _ => false,
            },
        }
    }

    fn same_type(a: &JsonPathValue, b: &JsonPathValue) -> bool {
        match (value_of(a), value_of(b)) {
            (Some(x), Some(y)) => match (x, y) {
                (Value::Null, Value::Null) => true,
                (Value::Bool(_), Value::Bool(_)) => true,
                (Value::Number(_), Value::Number(_)) => true,
                (Value::String(_), Value::String(_)) => true,
                (Value::Array(_), Value::Array(_)) => true,
                (Value::Object(_), Value::Object(_)) => true,
                _ => false,
            },
            _ => false,
        }
    }

    macro_rules! rfc_ops {
        ($name:ident, $eq:ident) => {
            pub fn $name(c: &ComparisonExpr, cur: &Value, root: &Value) -> bool {
                let a = c.left.as_value(cur, root);
                let b = c.right.as_value(cur, root);
                match c.op {
                    ComparisonOperator::EqualTo => $eq(&a, &b),
                    ComparisonOperator::NotEqualTo => !$eq(&a, &b),
                    ComparisonOperator::LessThan => lt(&a, &b),
                    ComparisonOperator::GreaterThan => lt(&b, &a),
                    ComparisonOperator::LessThanEqualTo => lt(&a, &b) || $eq(&a, &b),
                    ComparisonOperator::GreaterThanEqualTo => lt(&b, &a) || $eq(&a, &b),
                }
            }
        };
    }

    // <=, >, >= only between operands of one type, > and >= as negations
    macro_rules! typed_ops {
        ($name:ident, $eq:ident) => {
            pub fn $name(c: &ComparisonExpr, cur: &Value, root: &Value) -> bool {
                let a = c.left.as_value(cur, root);
                let b = c.right.as_value(cur, root);
                match c.op {
                    ComparisonOperator::EqualTo => $eq(&a, &b),
                    ComparisonOperator::NotEqualTo => !$eq(&a, &b),
                    ComparisonOperator::LessThan => lt(&a, &b),
                    ComparisonOperator::GreaterThan => same_type(&a, &b) && !lt(&a, &b) && !$eq(&a, &b),
                    ComparisonOperator::LessThanEqualTo => same_type(&a, &b) && (lt(&a, &b) || $eq(&a, &b)),
                    ComparisonOperator::GreaterThanEqualTo => same_type(&a, &b) && !lt(&a, &b),
                }
            }
        };
    }

    rfc_ops!(comparison_flat, flat_eq);
    typed_ops!(comparison_typed, eq);
    typed_ops!(comparison_flat_typed, flat_eq);
}
