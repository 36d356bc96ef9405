//! Node lists as sequences.
use serde_json::Value;
use serde_json_path_core::node::{AtMostOneError, ExactlyOneError, LocatedNode};
use serde_json_path_core::path::{NormalizedPath, PathElement};
use std::slice::Iter;

macro_rules! of_sequence {
    ($m:ident, $t:ty, $elem:ty) => {
        pub mod $m {
            use super::*;
            pub fn len(v: &Vec<$t>) -> usize {
                v.len()
            }
            pub fn is_empty(v: &Vec<$t>) -> bool {
                v.len() == 0
            }
            pub fn first<'s>(v: &'s Vec<$t>) -> Option<&'s $t> {
                if v.len() == 0 {
                    None
                } else {
                    Some(&v[0])
                }
            }
            pub fn last<'s>(v: &'s Vec<$t>) -> Option<&'s $t> {
                if v.len() == 0 {
                    None
                } else {
                    Some(&v[v.len() - 1])
                }
            }
            pub fn get<'s>(v: &'s Vec<$t>, i: usize) -> Option<&'s $t> {
                if i < v.len() {
                    Some(&v[i])
                } else {
                    None
                }
            }
            pub fn one<'s>(v: &'s Vec<$t>) -> Option<&'s $t> {
                if v.len() == 1 {
                    Some(&v[0])
                } else {
                    None
                }
            }
            pub fn at_most_one<'s>(v: &'s Vec<$t>) -> Result<Option<&'s $t>, AtMostOneError> {
                match v.len() {
                    0 => Ok(None),
                    1 => Ok(Some(&v[0])),
                    n => Err(AtMostOneError(n)),
                }
            }
            pub fn exactly_one<'s>(v: &'s Vec<$t>) -> Result<&'s $t, ExactlyOneError> {
                match v.len() {
                    0 => Err(ExactlyOneError::Empty),
                    1 => Ok(&v[0]),
                    n => Err(ExactlyOneError::MoreThanOne(n)),
                }
            }
        }
    };
}
of_sequence!(seq, &'static Value, Value);

macro_rules! iterator {
    ($m:ident, $get:ident, $out:ty) => {
        pub mod $m {
            use super::*;
            pub fn next<'a>(it: &mut Iter<'a, LocatedNode<'a>>) -> Option<$out> {
                match it.next() {
                    Some(x) => Some(x.$get()),
                    None => None,
                }
            }
            pub fn next_back<'a>(it: &mut Iter<'a, LocatedNode<'a>>) -> Option<$out> {
                match it.next_back() {
                    Some(x) => Some(x.$get()),
                    None => None,
                }
            }
            pub fn len<'a>(it: &Iter<'a, LocatedNode<'a>>) -> usize {
                it.len()
            }
            pub fn size_hint<'a>(it: &Iter<'a, LocatedNode<'a>>) -> (usize, Option<usize>) {
                (it.len(), Some(it.len()))
            }
            pub fn count<'a>(it: Iter<'a, LocatedNode<'a>>) -> usize {
                it.len()
            }
            pub fn nth<'a>(it: &mut Iter<'a, LocatedNode<'a>>, n: usize) -> Option<$out> {
                match it.nth(n) {
                    Some(x) => Some(x.$get()),
                    None => None,
                }
            }
            pub fn last<'a>(it: Iter<'a, LocatedNode<'a>>) -> Option<$out> {
                match it.last() {
                    Some(x) => Some(x.$get()),
                    None => None,
                }
            }
        }
    };
}
iterator!(locations, location, &'a NormalizedPath<'a>);
iterator!(nodes, node, &'a Value);

pub fn error_is_empty(e: &ExactlyOneError) -> bool {
    match e {
        ExactlyOneError::Empty => true,
        ExactlyOneError::MoreThanOne(_) => false,
    }
}
pub fn error_is_more(e: &ExactlyOneError) -> bool {
    match e {
        ExactlyOneError::Empty => false,
        ExactlyOneError::MoreThanOne(_) => true,
    }
}
pub fn error_more(e: &ExactlyOneError) -> Option<usize> {
    match e {
        ExactlyOneError::Empty => None,
        ExactlyOneError::MoreThanOne(n) => Some(*n),
    }
}

pub fn element_eq(a: &PathElement, b: &PathElement) -> bool {
    match (a, b) {
        (PathElement::Name(x), PathElement::Name(y)) => x == y,
        (PathElement::Index(x), PathElement::Index(y)) => x == y,
        _ => false,
    }
}
pub fn element_is_name(a: &PathElement, s: &str) -> bool {
    match a {
        PathElement::Name(x) => *x == s,
        PathElement::Index(_) => false,
    }
}
pub fn element_is_index(a: &PathElement, i: &usize) -> bool {
    match a {
        PathElement::Name(_) => false,
        PathElement::Index(x) => x == i,
    }
}
pub fn element_name<'s>(a: &'s PathElement) -> Option<&'s str> {
    match a {
        PathElement::Name(x) => Some(x),
        PathElement::Index(_) => None,
    }
}
pub fn element_index(a: &PathElement) -> Option<usize> {
    match a {
        PathElement::Name(_) => None,
        PathElement::Index(x) => Some(*x),
    }
}
pub fn element_has_name(a: &PathElement) -> bool {
    match a {
        PathElement::Name(_) => true,
        PathElement::Index(_) => false,
    }
}
pub fn element_has_index(a: &PathElement) -> bool {
    match a {
        PathElement::Name(_) => false,
        PathElement::Index(_) => true,
    }
}
