//! C05: which words are reserved, where, and which only look like it.
use super::program::{no_errors, parse};
use crate::conv::conv;
use crate::guard::guarded;
use crate::run::Case;
use crate::tape::Tape;
use crate::tree::T;
use lib_ruby_parser::reserved_word;

const WORDS: &[(&str, &str)] = &[
    ("alias", "kALIAS"), ("and", "kAND"), ("begin", "kBEGIN"), ("BEGIN", "klBEGIN"), ("break", "kBREAK"), ("case", "kCASE"), ("class", "kCLASS"), ("def", "kDEF"), ("defined?", "kDEFINED"), ("do", "kDO"), ("else", "kELSE"), ("elsif", "kELSIF"), ("end", "kEND"), ("END", "klEND"), ("ensure", "kENSURE"), ("false", "kFALSE"), ("for", "kFOR"), ("if", "kIF"), ("in", "kIN"), ("module", "kMODULE"), ("next", "kNEXT"), ("nil", "kNIL"), ("not", "kNOT"), ("or", "kOR"), ("redo", "kREDO"), ("rescue", "kRESCUE"), ("retry", "kRETRY"), ("return", "kRETURN"), ("self", "kSELF"), ("super", "kSUPER"), ("then", "kTHEN"), ("true", "kTRUE"), ("undef", "kUNDEF"), ("unless", "kUNLESS"), ("until", "kUNTIL"), ("when", "kWHEN"), ("while", "kWHILE"), ("yield", "kYIELD"), ("__ENCODING__", "k__ENCODING__"), ("__FILE__", "k__FILE__"), ("__LINE__", "k__LINE__"),
];

fn word(t: &mut Tape) -> String {
    let w = t.pick(WORDS).0;
    if t.chance(1, 3) {
        return w.to_string();
    }
    let mut v: Vec<char> = w.chars().collect();
    for _ in 0..t.range(1, 2) {
        let i = t.draw(v.len().max(1));
        match t.draw(6) {
            0 => v.push(*t.pick(&['s', '_', '1', 'é', 'f', 'D', '日'])),
            1 => v.insert(0, *t.pick(&['_', 'a', 'X', 'é', 'u'])),
            2 if v.len() > 1 => {
                v.remove(i);
            }
            3 if v[i].is_ascii_alphabetic() => v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() },
            4 => v = w.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            5 if v[i].is_ascii_alphabetic() => v[i] = if v[i] == 'z' { 'a' } else { (v[i] as u8 + 1) as char },
            _ => {}
        }
    }
    let mut s: String = v.into_iter().filter(|c| c.is_ascii_alphanumeric() || !c.is_ascii() || *c == '_').collect();
    if s.is_empty() || s.as_bytes()[0].is_ascii_digit() {
        s.insert(0, 'x');
    }
    if t.chance(1, 8) {
        s.push(*t.pick(&['?', '!']));
    }
    s
}

fn find<'a>(a: &'a T, kind: &str, field: &str) -> Option<String> {
    let mut r = None;
    a.walk(&mut |n| {
        if n.kind == kind && r.is_none() {
            r = n.strval(field).map(|v| String::from_utf8_lossy(v).into_owned());
        }
    });
    r
}

pub fn case(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let w = word(t);
    let k = t.draw(9);
    let reserved = WORDS.iter().find(|x| x.0 == w).map(|x| x.1);
    if guarded(|| reserved_word(w.as_bytes()).is_some())? != reserved.is_some() {
        return Err(format!("{} is {}reserved", w, if reserved.is_some() { "" } else { "not " }));
    }
    let fid = w.ends_with('?') || w.ends_with('!');
    let first = w.chars().next().unwrap();
    let plain = if fid { "tFID" } else if first.is_uppercase() { "tCONSTANT" } else { "tIDENTIFIER" };
    // text, index of the token, its kind, node, field
    let (text, at, kind, node, field) = match k {
        0 if reserved.is_some() => (format!("{} 1\n", w), 0, reserved.unwrap(), "", ""),
        0 => (format!("{} 1\n", w), 0, plain, "Send", "method_name"),
        1 => (format!("x.{}\n", w), 2, plain, "Send", "method_name"),
        2 => (format!("x&.{} 1\n", w), 2, plain, "CSend", "method_name"),
        3 => (format!("f({}: 1)\n", w), 2, "tLABEL", "Sym", "name"),
        4 => (format!(":{}\n", w), 1, reserved.unwrap_or(plain), "Sym", "name"),
        5 => (format!("def {}; 1; end\n", w), 1, reserved.unwrap_or(plain), "Def", "name"),
        6 => (format!("alias {} foo\n", w), 1, reserved.unwrap_or(plain), "Sym", "name"),
        7 => (format!("undef foo, {}\n", w), 3, reserved.unwrap_or(plain), "Undef", ""),
        _ => (format!("x::{}()\n", w), 2, plain, "Send", "method_name"),
    };
    c.input = text.clone().into_bytes();
    c.label(if reserved.is_some() { "reserved word" } else { "word like a reserved one" });
    c.nontrivial = true;
    let r = parse(text.as_bytes())?;
    match r.tokens.get(at) {
        None => return Err(format!("no token {}", at)),
        Some(x) => {
            if x.token_name() != kind || x.token_value.as_raw() != w.as_bytes() {
                return Err(format!("token {}: expected {} {:?} but got {} {:?}", at, kind, w, x.token_name(), x.token_value));
            }
        }
    }
    if node.is_empty() {
        return Ok(());
    }
    no_errors(&r)?;
    let a = conv(r.ast.as_ref().ok_or("no tree")?);
    if field.is_empty() {
        return Ok(());
    }
    match find(&a, node, field) {
        Some(n) if n == w => Ok(()),
        other => Err(format!("expected {} {:?} but got {:?} in {}", node, w, other, a.sexp())),
    }
}
