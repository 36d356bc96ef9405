//! RFC 9535 section 2.3 - 2.5: selectors, segments, filters.  One level at a time: nested
//! queryables are applied through the crate's own trait methods, so every implementation is
//! compared with its definition under the hypothesis that the nested ones meet theirs.
use serde_json::Value;
use serde_json_path_core::spec::query::{Query, QueryKind, Queryable};
use serde_json_path_core::spec::segment::{QuerySegment, QuerySegmentKind, Segment};
use serde_json_path_core::spec::selector::filter::*;
use serde_json_path_core::spec::selector::Selector;

// 2.3.1.2
pub fn name<'b>(key: &str, cur: &'b Value) -> Vec<&'b Value> {
    let mut out = Vec::new();
    if let Value::Object(m) = cur {
        if let Some(v) = m.get(key) {
            out.push(v);
        }
    }
    out
}

// 2.3.2.2
pub fn wildcard<'b>(cur: &'b Value) -> Vec<&'b Value> {
    let mut out = Vec::new();
    match cur {
        Value::Array(l) => {
            for v in l {
                out.push(v);
            }
        }
        Value::Object(m) => {
            for (_, v) in m {
                out.push(v);
            }
        }
        _ => {}
    }
    out
}

// 2.3.3.2
pub fn index<'b>(i: i64, cur: &'b Value) -> Vec<&'b Value> {
    let mut out = Vec::new();
    if let Value::Array(l) = cur {
        let len = l.len() as i64;
        let k = if i >= 0 { i } else { len + i };
        if k >= 0 && k < len {
            out.push(&l[k as usize]);
        }
    }
    out
}

fn normalize(i: i64, len: i64) -> i64 {
    if i >= 0 {
        i
    } else {
        len + i
    }
}

fn clamp(i: i64, lo: i64, hi: i64) -> i64 {
    if i < lo {
        lo
    } else if i > hi {
        hi
    } else {
        i
    }
}

// 2.3.4.2
pub fn slice<'b>(start: Option<i64>, end: Option<i64>, step: Option<i64>, cur: &'b Value) -> Vec<&'b Value> {
    let mut out = Vec::new();
    if let Value::Array(l) = cur {
        let len = l.len() as i64;
        let step = step.unwrap_or(1);
        if step > 0 {
            let n_start = normalize(start.unwrap_or(0), len);
            let n_end = normalize(end.unwrap_or(len), len);
            let lower = clamp(n_start, 0, len);
            let upper = clamp(n_end, 0, len);
            let mut i = lower;
            while i < upper {
                out.push(&l[i as usize]);
                i += step;
            }
        } else if step < 0 {
            let n_start = normalize(start.unwrap_or(len - 1), len);
            let n_end = normalize(end.unwrap_or(-len - 1), len);
            let upper = clamp(n_start, -1, len - 1);
            let lower = clamp(n_end, -1, len - 1);
            let mut i = upper;
            while i > lower {
                out.push(&l[i as usize]);
                i += step;
            }
        }
    }
    out
}

// 2.3.5.2
pub fn filter<'b>(f: &Filter, cur: &'b Value, root: &'b Value) -> Vec<&'b Value> {
    let mut out = Vec::new();
    match cur {
        Value::Array(l) => {
            for v in l {
                if f.0.test_filter(v, root) {
                    out.push(v);
                }
            }
        }
        Value::Object(m) => {
            for (_, v) in m {
                if f.0.test_filter(v, root) {
                    out.push(v);
                }
            }
        }
        _ => {}
    }
    out
}

pub fn selector<'b>(s: &Selector, cur: &'b Value, root: &'b Value) -> Vec<&'b Value> {
    match s {
        Selector::Name(n) => n.query(cur, root),
        Selector::Wildcard => wildcard(cur),
        Selector::Index(i) => i.query(cur, root),
        Selector::ArraySlice(s) => s.query(cur, root),
        Selector::Filter(f) => f.query(cur, root),
    }
}

// 2.5.1
pub fn segment<'b>(s: &Segment, cur: &'b Value, root: &'b Value) -> Vec<&'b Value> {
    match s {
        Segment::LongHand(sels) => {
            let mut out = Vec::new();
            for s in sels {
                out.extend(s.query(cur, root));
            }
            out
        }
        Segment::DotName(n) => name(n.as_str(), cur),
        Segment::Wildcard => wildcard(cur),
    }
}

// 2.5.2: the input node, then its children, depth first
pub fn query_segment<'b>(s: &QuerySegment, cur: &'b Value, root: &'b Value) -> Vec<&'b Value> {
    let mut out = s.segment.query(cur, root);
    if let QuerySegmentKind::Descendant = s.kind {
        match cur {
            Value::Array(l) => {
                for v in l {
                    out.extend(s.query(v, root));
                }
            }
            Value::Object(m) => {
                for (_, v) in m {
                    out.extend(s.query(v, root));
                }
            }
            _ => {}
        }
    }
    out
}

// 2.2, 2.5
pub fn query<'b>(q: &Query, cur: &'b Value, root: &'b Value) -> Vec<&'b Value> {
    let mut nodes = match q.kind {
        QueryKind::Root => vec![root],
        QueryKind::Current => vec![cur],
    };
    for s in &q.segments {
        let mut next = Vec::new();
        for n in nodes {
            next.extend(s.query(n, root));
        }
        nodes = next;
    }
    nodes
}

// 2.3.5
pub fn or(e: &LogicalOrExpr, cur: &Value, root: &Value) -> bool {
    for x in &e.0 {
        if x.test_filter(cur, root) {
            return true;
        }
    }
    false
}

pub fn and(e: &LogicalAndExpr, cur: &Value, root: &Value) -> bool {
    for x in &e.0 {
        if !x.test_filter(cur, root) {
            return false;
        }
    }
    true
}

pub fn basic(e: &BasicExpr, cur: &Value, root: &Value) -> bool {
    match e {
        BasicExpr::Paren(x) => x.test_filter(cur, root),
        BasicExpr::NotParen(x) => !x.test_filter(cur, root),
        BasicExpr::Relation(x) => x.test_filter(cur, root),
        BasicExpr::Exist(x) => x.test_filter(cur, root),
        BasicExpr::NotExist(x) => !x.test_filter(cur, root),
        BasicExpr::FuncExpr(x) => x.test_filter(cur, root),
        BasicExpr::NotFuncExpr(x) => !x.test_filter(cur, root),
    }
}

pub fn exist(e: &ExistExpr, cur: &Value, root: &Value) -> bool {
    e.0.query(cur, root).len() > 0
}

// a singular query selects what the same steps of a general query select (2.3.5.1)
pub fn singular<'b>(q: &SingularQuery, cur: &'b Value, root: &'b Value) -> Option<&'b Value> {
    let mut node = match q.kind {
        SingularQueryKind::Absolute => root,
        SingularQueryKind::Relative => cur,
    };
    for s in &q.segments {
        match s {
            SingularQuerySegment::Name(n) => match name(n.as_str(), node).first() {
                Some(v) => node = v,
                None => return None,
            },
            SingularQuerySegment::Index(i) => match i.query(node, root).first() {
                Some(v) => node = v,
                None => return None,
            },
        }
    }
    Some(node)
}

/// The definition with a recorded defect (known_findings.json): negative indices select nothing.
pub fn singular_known<'b>(q: &SingularQuery, cur: &'b Value, root: &'b Value) -> Option<&'b Value> {
    let mut node = match q.kind {
        SingularQueryKind::Absolute => root,
        SingularQueryKind::Relative => cur,
    };
    for s in &q.segments {
        match s {
            SingularQuerySegment::Name(n) => match name(n.as_str(), node).first() {
                Some(v) => node = v,
                None => return None,
            },
            SingularQuerySegment::Index(i) => {
                if i.0 < 0 {
                    return None;
                }
                match i.query(node, root).first() {
                    Some(v) => node = v,
                    None => return None,
                }
            }
        }
    }
    Some(node)
}
