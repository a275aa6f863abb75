//! C22: the warnings of a valid program, predicted from its tokens and its tree.
use super::program::{calls, crlf, general, large, no_errors, ops, params, parse, small, stmts};
use crate::gen::{Cfg, Program, ANY, G, L};
use crate::run::{Case, Family, Prop};
use crate::tape::Tape;
use crate::tree::{T, V};
use lib_ruby_parser::{DiagnosticMessage as M, ErrorLevel};
use std::collections::BTreeSet;

type W = (String, L);

pub struct Warnings {
    pub must: BTreeSet<W>,
    /// Given or not, both are fine.
    pub may: BTreeSet<W>,
    pub cr_may: BTreeSet<usize>,
}

/// A carriage return between tokens is told once per line. Where a here-document begins on the line
/// it may be told again behind it, and blanks at the beginning of a line are not always looked at.
fn returns(p: &Program, w: &mut Warnings) {
    let src = &p.src[..];
    if !src.contains(&b'\r') {
        return;
    }
    let mut covered: Vec<L> = p.toks.iter().map(|t| t.loc).filter(|l| *l != ANY).chain(p.comments.iter().map(|c| c.loc)).collect();
    covered.sort();
    let last = covered.last().map_or(0, |l| l.1);
    let (mut line, mut i, mut told, mut hd) = (0, 0, false, false);
    let mut upto = 0;
    for (at, c) in src.iter().enumerate() {
        while i < covered.len() && covered[i].0 <= at {
            upto = upto.max(covered[i].1);
            hd |= src[covered[i].0..].starts_with(b"<<");
            i += 1;
        }
        match c {
            b'\n' => {
                line = at + 1;
                told = false;
                hd = false;
            }
            b'\r' if at >= upto && src.get(at + 1) != Some(&b'\n') => {
                if at >= last || hd || src[line..at].iter().all(|c| blank(*c)) {
                    w.cr_may.insert(at);
                } else if !told {
                    w.must.insert((format!("{:?}", M::SlashRAtMiddleOfLine {}), (at, at + 1)));
                    told = true;
                }
            }
            _ => {}
        }
    }
}

fn blank(c: u8) -> bool {
    b" \t\n\r\x0b\x0c".contains(&c)
}
/// Nothing but blanks and a comment follows on the line.
fn eol(src: &[u8], at: usize) -> bool {
    match src[at..].iter().find(|c| !b" \t\r\x0b\x0c".contains(c)) {
        None | Some(b'\n') | Some(b'#') => true,
        _ => false,
    }
}

pub fn predict(p: &Program) -> Warnings {
    let mut w = Warnings { must: BTreeSet::new(), may: BTreeSet::new(), cr_may: BTreeSet::new() };
    returns(p, &mut w);
    let src = &p.src[..];
    // names of variables and of methods being defined
    let mut lvars: BTreeSet<usize> = BTreeSet::new();
    let mut def_names: BTreeSet<usize> = BTreeSet::new();
    let mut fitems: Vec<L> = vec![];
    if let Some(a) = &p.ast {
        a.walk(&mut |n| match n.kind {
            "Def" | "Defs" => {
                def_names.insert(n.loc("name_l").unwrap().0);
            }
            "Lvar" => {
                lvars.insert(n.ex().0);
            }
            "Alias" | "Undef" => {
                // the names, not what is interpolated into them
                let mut f = vec![n.ex()];
                n.walk(&mut |m| {
                    if m.kind == "Dsym" {
                        let e = m.ex();
                        let last = f.pop().unwrap();
                        if e.0 >= last.0 && e.1 <= last.1 {
                            f.push((last.0, e.0));
                            f.push((e.1, last.1));
                        } else {
                            f.push(last);
                        }
                    }
                });
                fitems.extend(f);
            }
            _ => {}
        });
        tree(a, false, src, &mut w);
    }
    fitems.sort();
    let in_fitem = |pos: usize| {
        let i = fitems.partition_point(|l| l.0 <= pos);
        fitems[..i].iter().any(|l| pos < l.1)
    };
    let mut nest = 0i64;
    let mut parens = vec![];
    // closing parentheses behind which an argument has ended
    let mut endarg = BTreeSet::new();
    for (i, t) in p.toks.iter().enumerate() {
        match t.kind {
            "tLPAREN" | "tLPAREN2" | "tLPAREN_ARG" => parens.push(t.kind),
            "tRPAREN" => {
                if parens.pop() == Some("tLPAREN_ARG") {
                    endarg.insert(i);
                }
            }
            _ => {}
        }
        match t.kind {
            "tLPAREN" | "tLPAREN2" | "tLPAREN_ARG" | "tLBRACK" | "tLBRACK2" | "tLCURLY" | "tLBRACE" | "tLBRACE_ARG" | "tLAMBEG" => nest += 1,
            "tRPAREN" | "tRBRACK" | "tRCURLY" => nest -= 1,
            _ => {}
        }
        if t.loc == ANY {
            continue;
        }
        let (at, end) = t.loc;
        let mut put = |m: M, l: L| {
            w.must.insert((format!("{:?}", m), l));
        };
        if t.kind == "tDOT3" || t.kind == "tBDOT3" {
            // parameters are the only place where `...` is no range
            let param = p.ast.as_ref().map_or(false, |a| {
                let mut f = false;
                a.walk(&mut |n| f |= n.kind == "ForwardArg" && n.ex() == t.loc);
                f
            });
            if nest == 0 && !param && eol(src, end) {
                put(M::TripleDotAtEol {}, t.loc);
            }
        }
        let Some(prev) = i.checked_sub(1).map(|j| &p.toks[j]) else { continue };
        if prev.loc == ANY {
            continue;
        }
        let before = i.checked_sub(2).map(|j| p.toks[j].kind).unwrap_or("");
        // (the end of a here-document lies behind what follows its beginning)
        let spaced = prev.loc.1 < at || prev.loc.0 > at && at > 0 && blank(src[at - 1]);
        let tight = src.get(end).map_or(true, |c| !blank(*c));
        if !spaced {
            continue;
        }
        let prev_def = def_names.contains(&prev.loc.0);
        let dotted = |k: &str| k == "tDOT" || k == "tANDDOT" || k == "tCOLON2";
        // what stands before may be a method that takes this as its first argument
        let arg = !prev_def
            && !in_fitem(prev.loc.0)
            && before != "tSYMBEG"
            && (matches!(prev.kind, "tIDENTIFIER" | "tFID" | "tCONSTANT" | "kSUPER" | "kYIELD" | "kNOT" | "kDEFINED") || (dotted(before) && prev.kind != "tLPAREN2"));
        match t.kind {
            "tSTAR" if arg => put(M::StarInterpretedAsArgPrefix {}, t.loc),
            "tDSTAR" if arg => put(M::DStarInterpretedAsArgPrefix {}, t.loc),
            "tAMPER" if arg => {
                // `&:name` is what everybody writes
                let sym = src.get(end) == Some(&b':') && src.get(end + 1).map_or(false, |c| *c == b'"' || *c == b'\'' || *c == b'_' || c.is_ascii_alphanumeric() || *c >= 0x80);
                if !sym {
                    put(M::AmpersandInterpretedAsArgPrefix {}, t.loc);
                }
            }
            "tUPLUS" | "tUMINUS" | "tUMINUS_NUM" if arg => put(M::AmbiguousFirstArgument { operator: src[at] }, (at, at + 1)),
            // the sign of a number
            "tINTEGER" | "tFLOAT" | "tRATIONAL" | "tIMAGINARY" if arg && src[at] == b'+' => put(M::AmbiguousFirstArgument { operator: b'+' }, (at, at + 1)),
            "tREGEXP_BEG" if arg && src[at] == b'/' => put(M::AmbiguousRegexp {}, t.loc),
            "tLPAREN2" if prev_def => put(M::ParenthesesIterpretedAsArglist {}, t.loc),
            _ => {}
        }
        // an operator that could be the beginning of something else
        if tight && !prev_def && !in_fitem(at) && !dotted(prev.kind) && (prev.kind != "tRPAREN" || endarg.contains(&(i - 1))) && (before == "tSYMBEG" || !matches!(prev.kind, "tLAMBDA" | "kDEF" | "tSYMBEG" | "kCLASS")) && !def_names.contains(&at) {
            let k = match t.kind {
                "tPOW" => Some(("**", "argument prefix")),
                "tSTAR2" => Some(("*", "argument prefix")),
                "tAMPER2" => Some(("&", "argument prefix")),
                "tLSHFT" => Some(("<<", "here document")),
                "tPLUS" => Some(("+", "unary operator")),
                "tMINUS" => Some(("-", "unary operator")),
                "tDIVIDE" => Some(("/", "regexp literal")),
                "tPERCENT" => Some(("%", "string literal")),
                "tCOLON" => Some((":", "symbol literal")),
                _ => None,
            };
            if let Some((o, s)) = k {
                if prev.kind == "tRPAREN" {
                    // depends on whether the closing parenthesis was read ahead
                    w.may.insert((format!("{:?}", M::AmbiguousOperator { operator: o.into(), interpreted_as: s.into() }), t.loc));
                    continue;
                }
                put(M::AmbiguousOperator { operator: o.into(), interpreted_as: s.into() }, t.loc);
            }
            if t.kind == "tEH" && arg && !lvars.contains(&prev.loc.0) {
                // `foo ?bar : baz` with a method foo
                let n = src[end..].iter().take_while(|c| **c == b'_' || c.is_ascii_alphanumeric() || **c >= 0x80).count();
                if n > 1 && (src[end] == b'_' || src[end].is_ascii_alphanumeric()) {
                    put(M::AmbiguousTernaryOperator { condition: String::from_utf8_lossy(&src[end..end + n]).into_owned() }, t.loc);
                }
            }
        }
    }
    w
}

const RELOPS: &[&[u8]] = &[b"<", b">", b"<=", b">="];
fn rel(n: &T) -> bool {
    n.kind == "Send" && n.loc("dot_l").is_none() && n.node("recv").is_some() && n.loc("selector_l").is_some() && RELOPS.contains(&n.strval("method_name").unwrap_or(b"")) && n.list("args").len() == 1
}

fn tree(n: &T, in_def: bool, src: &[u8], w: &mut Warnings) {
    let mut put = |m: M, l: L| {
        w.must.insert((format!("{:?}", m), l));
    };
    let mut inner = in_def;
    match n.kind {
        "Def" | "Defs" => inner = true,
        "Class" | "Module" | "SClass" => inner = false,
        "Postexe" if in_def => put(M::EndInMethod {}, n.loc("keyword_l").unwrap()),
        "If" => {
            let k = n.loc("keyword_l").unwrap();
            if eol(src, k.1) && !src[k.0..].starts_with(b"unless") {
                put(M::TokAtEolWithoutExpression { token_name: String::from_utf8_lossy(&src[k.0..k.1]).into_owned() }, k);
            }
        }
        "Send" if rel(n) && n.node("recv").map_or(false, rel) => {
            let l = n.loc("selector_l").unwrap();
            put(M::ComparisonAfterComparison { comparison: String::from_utf8_lossy(n.strval("method_name").unwrap()).into_owned() }, l)
        }
        "NthRef" => {
            let s = String::from_utf8_lossy(n.strval("name").unwrap()).into_owned();
            if s.parse::<u64>().map_or(true, |v| v > 0x3fff_ffff) {
                put(M::NthRefIsTooBig { nth_ref: s }, n.ex());
            }
        }
        "Hash" | "Kwargs" => {
            let keys: Vec<&T> = n.list("pairs").iter().filter(|p| p.kind == "Pair").filter_map(|p| p.node("key")).collect();
            for (j, k) in keys.iter().enumerate() {
                for e in &keys[..j] {
                    match same(e, k) {
                        Some(true) => {
                            w.must.insert((format!("{:?}", M::DuplicateHashKey {}), k.ex()));
                        }
                        Some(false) => {}
                        None => {
                            w.may.insert((format!("{:?}", M::DuplicateHashKey {}), k.ex()));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    for (name, v) in &n.f {
        // the name of a class, its superclass and the like still belong to the method around
        let d = if matches!(n.kind, "Class" | "Module" | "SClass") && *name != "body" { in_def } else { inner };
        match v {
            V::Node(c) => tree(c, d, src, w),
            V::List(l) => l.iter().for_each(|c| tree(c, d, src, w)),
            _ => {}
        }
    }
}

/// Whether two literal keys are the same; None where it takes Ruby's arithmetic to tell.
fn same(a: &T, b: &T) -> Option<bool> {
    if a.kind != b.kind {
        return Some(false);
    }
    match a.kind {
        "Sym" => Some(a.strval("name") == b.strval("name")),
        "Str" => Some(a.strval("value") == b.strval("value")),
        "Int" | "Float" | "Rational" | "Complex" => {
            if a.strval("value") == b.strval("value") {
                Some(true)
            } else {
                None
            }
        }
        "Regexp" => {
            let o = |t: &T| t.node("options").and_then(|o| o.strval("options")).map(|s| s.to_vec());
            if o(a) != o(b) {
                return if o(a).is_some() && o(b).is_some() { None } else { Some(false) };
            }
            let (x, y) = (a.list("parts"), b.list("parts"));
            if x.len() != y.len() {
                return Some(false);
            }
            let mut r = Some(true);
            for (x, y) in x.iter().zip(y) {
                match same(x, y) {
                    Some(true) => {}
                    Some(false) => return Some(false),
                    None => r = None,
                }
            }
            r
        }
        _ => Some(false),
    }
}

fn check(t: &mut Tape, c: &mut Case, cfg: Cfg) -> Result<(), String> {
    let p = G::new(t, cfg).program();
    c.input = p.src.clone();
    c.labels = vec![];
    let r = parse(&p.src)?;
    no_errors(&r)?;
    let exp = predict(&p);
    c.nontrivial = !exp.must.is_empty();
    let act: BTreeSet<W> = r.diagnostics.iter().filter(|d| d.level == ErrorLevel::Warning).map(|d| (format!("{:?}", d.message), (d.loc.begin, d.loc.end))).collect();
    let cr = format!("{:?}", M::SlashRAtMiddleOfLine {});
    for (m, l) in exp.must.difference(&act) {
        return Err(format!("no warning {} at {}..{}", m, l.0, l.1));
    }
    for (m, l) in act.difference(&exp.must) {
        if *m == cr && l.1 == l.0 + 1 && exp.cr_may.contains(&l.0) {
            continue;
        }
        if !exp.may.contains(&(m.clone(), *l)) {
            return Err(format!("unexpected warning {} at {}..{}", m, l.0, l.1));
        }
    }
    Ok(())
}

/// Hashes with keys from a small choice, so that many are the same.
fn keys(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    // text, what it stands for, whether it is a label
    const KEYS: &[(&str, &str, bool)] = &[
        (":a", ":a", false), ("a:", ":a", true), ("\"a\":", ":a", true), (":\"a\"", ":a", false), ("%s(a)", ":a", false), ("'a':", ":a", true),
        (":b", ":b", false), ("b:", ":b", true), (":A", ":A", false), ("A:", ":A", true), ("if:", ":if", true), (":if", ":if", false), (":+", ":+", false), (":\"+\"", ":+", false),
        ("\"a\"", "'a'", false), ("'a'", "'a'", false), ("%q(a)", "'a'", false), ("%(a)", "'a'", false), ("?a", "'a'", false), ("\"\\x61\"", "'a'", false), ("\"b\"", "'b'", false), ("''", "''", false), ("\"\"", "''", false),
        ("\"\\xff\"", "'\\xff'", false), ("\"\\xfe\"", "'\\xfe'", false),
        ("1", "1", false), ("2", "2", false), ("1.0", "1.0", false), ("1.5", "1.5", false), ("1r", "1r", false), ("2r", "2r", false), ("1i", "1i", false), ("2i", "2i", false), ("1.0r", "1.0r", false), ("1ri", "1ri", false),
        ("/a/", "/a/", false), ("%r{a}", "/a/", false), ("/a/i", "/a/i", false), ("/a/m", "/a/m", false), ("%r(a)i", "/a/i", false), ("/b/", "/b/", false), ("//", "//", false), ("%r[]", "//", false),
        ("nil", "", false), ("self", "", false), ("\"#{1}\"", "", false), ("/a#{1}/", "", false), (":\"a#{1}\"", "", false), ("[1]", "", false), ("{1=>1}", "", false), ("`a`", "", false), ("1..2", "", false), ("@a", "", false), ("x.y", "", false), ("A", "", false), ("-> {1}", "", false),
    ];
    let (open, close) = *t.pick(&[("{", "}"), ("x(", ")"), ("x[", "]"), ("x z => 1, ", ""), ("[", "]"), ("x = {", "}"), ("->(a = {", "}) {}"), ("x.y({", "})"), ("super(", ")"), ("return {", "}"), ("\"#{{", "}}\"")]);
    let mut s = open.to_string();
    let mut seen: Vec<&str> = vec![];
    let mut exp = vec![];
    let n = if t.chance(1, 10) { 2 + t.draw(80) } else { 2 + t.draw(5) };
    let few = t.chance(1, 2);
    let base = t.draw(KEYS.len());
    for i in 0..n {
        if i > 0 {
            s += ", ";
        }
        if t.chance(1, 10) {
            s += "**x";
            continue;
        }
        let (text, what, label) = KEYS[if few { (base + t.draw(4)) % KEYS.len() } else { t.draw(KEYS.len()) }];
        let at = s.len();
        s += text;
        if !what.is_empty() {
            if seen.contains(&what) {
                // the colon of a label is not part of the key
                exp.push((at, at + text.len() - label as usize));
            }
            seen.push(what);
        }
        s += if label { " " } else { " => " };
        s += ["1", "x", ":b", "[]"][t.draw(4)];
    }
    s += close;
    c.input = s.clone().into_bytes();
    c.nontrivial = !exp.is_empty();
    let r = parse(s.as_bytes())?;
    no_errors(&r)?;
    let act: BTreeSet<L> = r.diagnostics.iter().filter(|d| d.level == ErrorLevel::Warning && matches!(d.message, M::DuplicateHashKey {})).map(|d| (d.loc.begin, d.loc.end)).collect();
    let exp: BTreeSet<L> = exp.into_iter().collect();
    if act != exp {
        return Err(format!("duplicate keys: expected {:?} but got {:?}", exp, act));
    }
    Ok(())
}

/// Escapes of control characters, with blanks that should have been escaped themselves.
fn escapes(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let (open, close) = *t.pick(&[("\"", "\""), ("?", ""), ("%(", ")"), ("`", "`"), ("<<A\n", "\nA\n"), ("x = \"#{1}", "\""), ("f(\"", "\")")]);
    let chr = open == "?";
    let mut s = open.as_bytes().to_vec();
    let start = if chr { 0 } else { s.len() };
    let mut exp: Vec<(String, usize)> = vec![];
    let mut value: Vec<u8> = vec![];
    for _ in 0..if chr { 1 } else { 1 + t.draw(4) } {
        if !chr && t.chance(1, 3) {
            s.extend_from_slice(b"x ");
            value.extend_from_slice(b"x ");
        }
        let (esc, meta, ctrl, order) = *t.pick(&[("\\M-", true, false, 0), ("\\C-", false, true, 0), ("\\c", false, true, 0), ("\\M-\\C-", true, true, 1), ("\\M-\\c", true, true, 1), ("\\C-\\M-", true, true, 2), ("\\c\\M-", true, true, 2)]);
        let x = *t.pick(b"  \t\x0b\x0caZ0");
        s.extend_from_slice(esc.as_bytes());
        s.push(x);
        let v = match order {
            0 if meta => x | 0x80,
            0 => x & 0x9f,
            1 => (x & 0x9f) | 0x80,
            _ => (x | 0x80) & 0x9f,
        };
        value.push(v);
        let name = match x {
            b' ' => 's',
            b'\t' => 't',
            0x0b => 'v',
            0x0c => 'f',
            _ => continue,
        };
        // a control character is one already
        let prefix = match (meta, ctrl, order) {
            (true, false, _) => "\\M-",
            (false, true, _) if x == b' ' => "\\C-",
            (false, true, _) => "",
            (_, _, 1) if x == b' ' => "\\M-\\C-",
            (_, _, 2) if x == b' ' => "\\C-\\M-",
            _ => "\\M-",
        };
        exp.push((format!("{}\\{}", prefix, name), s.len()));
    }
    s.extend_from_slice(close.as_bytes());
    c.input = s.clone();
    c.nontrivial = !exp.is_empty();
    let r = parse(&s)?;
    no_errors(&r)?;
    let mut act = vec![];
    for d in &r.diagnostics {
        match &d.message {
            M::InvalidCharacterSyntax { suggestion } if d.level == ErrorLevel::Warning => {
                if d.loc.begin < start || d.loc.begin >= d.loc.end {
                    return Err(format!("warning located at {}..{}", d.loc.begin, d.loc.end));
                }
                act.push((suggestion.clone(), d.loc.end))
            }
            _ => return Err(format!("unexpected {:?}", d)),
        }
    }
    if act != exp {
        return Err(format!("warnings: expected {:?} but got {:?}", exp, act));
    }
    let mut found = false;
    if let Some(a) = &r.ast {
        crate::conv::conv(a).walk(&mut |n| found |= n.strval("value").or(n.strval("name")).map_or(false, |v| v.starts_with(&value)));
    }
    if !found {
        return Err(format!("no literal with the value {:?}", value));
    }
    Ok(())
}

macro_rules! wfam {
    ($name:expr, $q:expr, $t:expr, $limit:expr, $cfg:expr) => {{
        fn f(t: &mut Tape, c: &mut Case) -> Result<(), String> {
            check(t, c, $cfg)
        }
        Family { name: $name, quick: $q, thorough: $t, limit: $limit, f }
    }};
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "a choice tape drives the generator of well-formed programs; its tokens and tree say which warnings Ruby gives where; non-trivial: at least one warning is predicted, and distinct by source text",
        assumptions: &["the rules for warnings were written from Ruby 3.1's parser", "warnings the generator's programs never provoke are not covered"],
        families: vec![
            wfam!("general", 150_000, 5_000_000, 600, general()),
            wfam!("calls", 120_000, 4_000_000, 600, calls()),
            wfam!("operators", 120_000, 4_000_000, 500, ops()),
            wfam!("small", 100_000, 3_000_000, 300, small()),
            wfam!("statements", 60_000, 2_000_000, 600, stmts()),
            wfam!("parameters", 40_000, 2_000_000, 600, params()),
            Family { name: "keys", quick: 60_000, thorough: 2_000_000, limit: 60, f: keys },
            Family { name: "escapes", quick: 40_000, thorough: 1_000_000, limit: 40, f: escapes },
            wfam!("crlf", 40_000, 1_000_000, 600, crlf()),
            wfam!("large", 10_000, 500_000, 2500, large()),
        ],
    }
}
