//! Texts of locations: RFC 9535 section 2.7 (normalized paths), RFC 6901 (JSON pointers).
use serde_json_path_core::path::PathElement;
use std::fmt::{Formatter, Result, Write};

/// A name in the normal form of RFC 9535: `'` normal-single-quoted `'`.
fn quoted(name: &str, f: &mut Formatter) -> Result {
    f.write_char('\'')?;
    for c in name.chars() {
        match c as u32 {
            0x08 => f.write_str("\\b")?,
            0x09 => f.write_str("\\t")?,
            0x0A => f.write_str("\\n")?,
            0x0C => f.write_str("\\f")?,
            0x0D => f.write_str("\\r")?,
            0x27 => f.write_str("\\'")?,
            0x5C => f.write_str("\\\\")?,
            0x00..=0x0F => write!(f, "\\u000{:x}", c as u32)?,
            0x10..=0x1F => write!(f, "\\u00{:x}", c as u32)?,
            _ => f.write_char(c)?,
        }
    }
    f.write_char('\'')
}

pub fn normalized(steps: &[PathElement], f: &mut Formatter) -> Result {
    f.write_char('$')?;
    for e in steps {
        f.write_char('[')?;
        match e {
            PathElement::Name(n) => quoted(n, f)?,
            PathElement::Index(i) => write!(f, "{}", i)?,
        }
        f.write_char(']')?;
    }
    Ok(())
}

pub fn pointer(steps: &[PathElement]) -> String {
    let mut out = String::new();
    for e in steps {
        out.push('/');
        match e {
            PathElement::Name(n) => {
                for c in n.chars() {
                    if c == '~' {
                        out.push_str("~0");
                    } else if c == '/' {
                        out.push_str("~1");
                    } else {
                        out.push(c);
                    }
                }
            }
            PathElement::Index(i) => out.push_str(&i.to_string()),
        }
    }
    out
}

/// The order of path elements where there is one.
pub fn element_order(a: &PathElement, b: &PathElement) -> Option<std::cmp::Ordering> {
    match (a, b) {
        (PathElement::Name(x), PathElement::Name(y)) => Some(x.cmp(y)),
        (PathElement::Index(x), PathElement::Index(y)) => Some(x.cmp(y)),
        _ => None,
    }
}
