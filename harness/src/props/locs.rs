//! C04: locations of any result are sound, also where the input is broken.
use crate::conv::conv;
use crate::gen::any::any;
use crate::guard::guarded;
use crate::run::{Case, Family, Prop};
use crate::tape::Tape;
use crate::tree::{T, V};
use lib_ruby_parser::{Parser, ParserOptions, ParserResult};

fn in_bounds(r: &ParserResult, ast: Option<&T>) -> Result<(), String> {
    let n = r.input.bytes.len();
    let check = |what: &str, b: usize, e: usize| {
        if b > e || e > n {
            Err(format!("{}: location {}..{} in an input of {} bytes", what, b, e, n))
        } else {
            Ok(())
        }
    };
    for d in &r.diagnostics {
        check(&format!("diagnostic {:?}", d.render_message()), d.loc.begin, d.loc.end)?;
    }
    for t in &r.tokens {
        check(&format!("token {}", t.token_name()), t.loc.begin, t.loc.end)?;
    }
    for c in &r.comments {
        check("comment", c.location.begin, c.location.end)?;
    }
    for m in &r.magic_comments {
        check("magic comment key", m.key_l.begin, m.key_l.end)?;
        check("magic comment value", m.value_l.begin, m.value_l.end)?;
    }
    let mut res = Ok(());
    if let Some(a) = ast {
        a.walk(&mut |t| {
            for (k, v) in &t.f {
                if let (V::Loc(l), true) = (v, res.is_ok()) {
                    res = check(&format!("{}.{}", t.kind, k), l.0, l.1);
                }
            }
        });
    }
    res
}

fn inside(a: (usize, usize), b: (usize, usize)) -> bool {
    b.0 <= a.0 && a.1 <= b.1
}

/// A branch of a case ends with its last child: what separates it from a missing body lies behind it.
fn behind(t: &T, field: &str) -> bool {
    field == "begin_l" && (t.kind == "When" || t.kind == "InPattern") && t.node("body").is_none()
}

/// Pieces lie inside their node, children inside their parent. The body of a here-document lies where
/// the lines of its body do.
fn nested(t: &T, within: (usize, usize)) -> Result<(), String> {
    let ex = match t.loc("expression_l") {
        Some(l) => l,
        None => within,
    };
    if !inside(ex, within) {
        return Err(format!("{} at {}..{} is not inside its parent at {}..{}", t.kind, ex.0, ex.1, within.0, within.1));
    }
    let body = t.loc("heredoc_body_l");
    for (k, v) in &t.f {
        match v {
            V::Loc(l) => {
                if *k != "heredoc_body_l" && *k != "heredoc_end_l" && !inside(*l, ex) && !behind(t, k) {
                    return Err(format!("{}.{} at {}..{} is outside the node at {}..{}", t.kind, k, l.0, l.1, ex.0, ex.1));
                }
            }
            V::Node(n) => nested(n, body.unwrap_or(ex))?,
            V::List(l) => {
                for n in l {
                    nested(n, body.unwrap_or(ex))?
                }
                for w in l.windows(2) {
                    if let (Some(a), Some(b)) = (w[0].loc("expression_l"), w[1].loc("expression_l")) {
                        if a.0 > b.0 {
                            return Err(format!("{}.{}: {} at {}..{} comes before {} at {}..{}", t.kind, k, w[0].kind, a.0, a.1, w[1].kind, b.0, b.1));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// What may stand at a location, by kind of node and field; None: nothing to say.
fn words(kind: &str, field: &str) -> Option<&'static [&'static str]> {
    Some(match (kind, field) {
        ("Alias", "keyword_l") => &["alias"],
        ("And", "operator_l") => &["&&", "and"],
        ("Or", "operator_l") => &["||", "or"],
        ("AndAsgn", "operator_l") => &["&&="],
        ("OrAsgn", "operator_l") => &["||="],
        ("OpAsgn", "operator_l") => &["%=", "&=", "**=", "*=", "+=", "-=", "/=", "<<=", ">>=", "^=", "|="],
        ("Args", "begin_l") | ("Args", "end_l") => &["(", ")", "|", "||"],
        ("Begin", "begin_l") => &["(", "#{"],
        ("Begin", "end_l") => &[")", "}"],
        ("Block" | "Numblock", "begin_l") => &["do", "{"],
        ("Block" | "Numblock", "end_l") => &["end", "}"],
        ("BlockPass" | "Blockarg", "operator_l") => &["&"],
        ("Break", "keyword_l") => &["break"],
        ("Next", "keyword_l") => &["next"],
        ("Return", "keyword_l") => &["return"],
        ("Yield", "keyword_l") => &["yield"],
        ("Super", "keyword_l") => &["super"],
        ("Undef", "keyword_l") => &["undef"],
        ("Defined", "keyword_l") => &["defined?"],
        ("Def" | "Defs", "keyword_l") => &["def"],
        ("Def" | "Defs", "assignment_l") => &["="],
        ("Defs", "operator_l") => &[".", "::"],
        ("Class" | "SClass", "keyword_l") => &["class"],
        ("Class", "operator_l") => &["<"],
        ("SClass", "operator_l") => &["<<"],
        ("Module", "keyword_l") => &["module"],
        ("CSend", "dot_l") => &["&."],
        ("Send", "dot_l") => &[".", "::"],
        ("Case" | "CaseMatch", "keyword_l") => &["case"],
        ("If", "keyword_l") => &["if", "unless", "elsif"],
        ("IfMod", "keyword_l") => &["if", "unless"],
        ("IfGuard", "keyword_l") => &["if"],
        ("UnlessGuard", "keyword_l") => &["unless"],
        ("If", "else_l") => &["else", "elsif"],
        (_, "else_l") => &["else"],
        ("If" | "When" | "InPattern" | "RescueBody", "begin_l") => &["then", ";", "\n", "\r"],
        ("For" | "While" | "Until", "begin_l") => &["do", ";", "\n", "\r"],
        ("For", "keyword_l") => &["for"],
        ("For" | "MatchPatternP", "operator_l") => &["in"],
        ("InPattern", "keyword_l") => &["in"],
        ("When", "keyword_l") => &["when"],
        ("While" | "WhilePost", "keyword_l") => &["while"],
        ("Until" | "UntilPost", "keyword_l") => &["until"],
        ("Ensure", "keyword_l") => &["ensure"],
        ("RescueBody", "keyword_l") => &["rescue"],
        ("RescueBody", "assoc_l") => &["=>"],
        ("Preexe", "keyword_l") => &["BEGIN"],
        ("Postexe", "keyword_l") => &["END"],
        ("KwBegin", "begin_l") => &["begin"],
        ("KwBegin" | "Def" | "Defs" | "Class" | "SClass" | "Module" | "Case" | "CaseMatch" | "If" | "For" | "While" | "Until", "end_l") => &["end"],
        ("IfTernary", "question_l") => &["?"],
        ("IfTernary", "colon_l") => &[":"],
        ("Irange" | "IFlipFlop", "operator_l") => &[".."],
        ("Erange" | "EFlipFlop", "operator_l") => &["..."],
        ("Casgn" | "Const", "double_colon_l") => &["::"],
        ("Casgn" | "Lvasgn" | "Ivasgn" | "Gvasgn" | "Cvasgn" | "Masgn" | "IndexAsgn" | "Optarg" | "Send" | "CSend", "operator_l") => &["="],
        ("Int" | "Float" | "Rational" | "Complex", "operator_l") => &["-", "+"],
        ("Index" | "IndexAsgn" | "FindPattern" | "ArrayPatternWithTail", "begin_l") => &["["],
        ("Index" | "IndexAsgn" | "FindPattern" | "ArrayPatternWithTail", "end_l") => &["]"],
        ("ArrayPattern" | "ConstPattern", "begin_l") => &["[", "("],
        ("ArrayPattern" | "ConstPattern", "end_l") => &["]", ")"],
        ("Hash" | "HashPattern" | "Preexe" | "Postexe", "begin_l") => &["{"],
        ("Hash" | "HashPattern" | "Preexe" | "Postexe", "end_l") => &["}"],
        ("Send" | "CSend" | "Super" | "Yield" | "Defined" | "Mlhs" | "Procarg0", "begin_l") => &["("],
        ("Send" | "CSend" | "Super" | "Yield" | "Defined" | "Mlhs" | "Procarg0", "end_l") => &[")"],
        ("Kwrestarg" | "Kwsplat" | "MatchNilPattern", "operator_l") => &["**"],
        ("Kwnilarg" | "MatchNilPattern", "name_l") => &["nil"],
        ("Restarg" | "Splat", "operator_l") => &["*"],
        ("MatchRest", "operator_l") => &["*", "**"],
        ("MatchAlt", "operator_l") => &["|"],
        ("MatchAs" | "MatchPattern", "operator_l") => &["=>"],
        ("Pair", "operator_l") => &[":", "=>"],
        ("Pin", "selector_l") => &["^"],
        _ => return None,
    })
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// Keywords, operators, brackets and names are what the source holds at their locations.
fn named(t: &T, src: &[u8], valid: bool) -> Result<(), String> {
    for (k, v) in &t.f {
        let V::Loc(l) = v else { continue };
        let text = &src[l.0..l.1];
        if let Some(w) = words(t.kind, k) {
            if !w.iter().any(|x| x.as_bytes() == text) {
                return Err(format!("{}.{} at {}..{} holds {:?}", t.kind, k, l.0, l.1, show(text)));
            }
        }
        let name = match *k {
            "name_l" => t.strval("name"),
            "selector_l" => t.strval("method_name"),
            _ => None,
        };
        if std::str::from_utf8(text).is_err() {
            continue;
        }
        if let Some(n) = name {
            let ok = match (t.kind, *k) {
                ("Send" | "CSend", "selector_l") => {
                    n == text
                        || n.strip_suffix(b"=") == Some(text) // a.b = c
                        || n.strip_suffix(b"@") == Some(text) // -a
                        || text.strip_suffix(b"@") == Some(n) // a.!@
                        || (n == b"!" && text == b"not")
                        || (n.first() == Some(&b'-') && n.len() > 1 && text == b"-")
                }
                ("Def" | "Defs", "name_l") => n == text || text.strip_suffix(b"@") == Some(n),
                _ => n == text,
            };
            if !ok {
                return Err(format!("{}.{} at {}..{} holds {:?} but the name is {:?}", t.kind, k, l.0, l.1, show(text), show(n)));
            }
        }
    }
    let whole = |name: &str, kinds: &[&str]| -> Result<(), String> {
        if kinds.contains(&t.kind) {
            let (e, n) = (t.ex(), t.strval(name));
            if let Some(n) = n {
                if n != &src[e.0..e.1] {
                    return Err(format!("{} at {}..{} is {:?} but holds {:?}", t.kind, e.0, e.1, show(n), show(&src[e.0..e.1])));
                }
            }
        }
        Ok(())
    };
    whole("name", &["Lvar", "Ivar", "Gvar", "Cvar", "Arg", "BackRef", "Shadowarg"])?;
    if valid {
        whole("value", &["Int", "Float", "Rational", "Complex"])?;
    }
    let fixed: &[u8] = match t.kind {
        "Nil" => b"nil",
        "True" => b"true",
        "False" => b"false",
        "Self_" => b"self",
        "Redo" => b"redo",
        "Retry" => b"retry",
        "ZSuper" => b"super",
        "Line" => b"__LINE__",
        "File" => b"__FILE__",
        "Encoding" => b"__ENCODING__",
        "Lambda" => b"->",
        "Cbase" => b"::",
        "ForwardArg" | "ForwardedArgs" => b"...",
        "Kwnilarg" => b"",
        _ => b"",
    };
    let e = t.ex_or_default();
    if !fixed.is_empty() && (valid || e.0 < e.1) {
        if &src[e.0..e.1] != fixed {
            return Err(format!("{} at {}..{} holds {:?}", t.kind, e.0, e.1, show(&src[e.0..e.1])));
        }
    }
    if let (Some(b), Some(e)) = (t.loc("begin_l"), t.loc("end_l")) {
        let (b, e) = (&src[b.0..b.1], &src[e.0..e.1]);
        // an unterminated literal ends where reading stopped
        let stringy = matches!(b.first(), Some(b'%' | b'"' | b'\'' | b'`' | b'/' | b':'));
        let ok = match (b.last(), e) {
            (Some(b'('), b")") | (Some(b'['), b"]") | (Some(b'{'), b"}") | (Some(b'<'), b">") => true,
            (Some(c), [d]) if c == d && !c.is_ascii_alphanumeric() => true,
            _ => matches!((b, e), (b"do", b"end") | (b"begin", b"end") | (b"then", b"end") | (b";", b"end") | (b"\n", b"end") | (b"\r", b"end") | (b"do", b"}")) || (!valid && stringy),
        };
        if !ok {
            return Err(format!("{} begins with {:?} but ends with {:?}", t.kind, show(b), show(e)));
        }
    }
    Ok(())
}

/// No location begins or ends inside a character.
fn whole_characters(r: &ParserResult, ast: Option<&T>) -> Result<(), String> {
    let Ok(s) = std::str::from_utf8(&r.input.bytes) else { return Ok(()) };
    let check = |what: &str, b: usize, e: usize| {
        if !s.is_char_boundary(b) || !s.is_char_boundary(e) {
            Err(format!("{}: location {}..{} cuts a character", what, b, e))
        } else {
            Ok(())
        }
    };
    for t in &r.tokens {
        check(&format!("token {}", t.token_name()), t.loc.begin, t.loc.end)?;
    }
    for c in &r.comments {
        check("comment", c.location.begin, c.location.end)?;
    }
    for m in &r.magic_comments {
        check("magic comment key", m.key_l.begin, m.key_l.end)?;
        check("magic comment value", m.value_l.begin, m.value_l.end)?;
    }
    let mut res = Ok(());
    if let Some(a) = ast {
        a.walk(&mut |t| {
            for (k, v) in &t.f {
                if let (V::Loc(l), true) = (v, res.is_ok()) {
                    res = check(&format!("{}.{}", t.kind, k), l.0, l.1);
                }
            }
        });
    }
    res
}

/// Tokens hold what the source holds at their locations.
fn tokens(r: &ParserResult) -> Result<(), String> {
    let src = &r.input.bytes;
    for t in &r.tokens {
        let text = &src[t.loc.begin..t.loc.end];
        let val = t.token_value.as_raw();
        let name = t.token_name();
        let ok = match name {
            "tNL" => matches!(text, b"\n" | b"\r" | b""),
            "tSTRING_CONTENT" | "tCHAR" | "tSTRING_END" | "tREGEXP_END" | "EOF" | "END_OF_INPUT" | "tINTEGER" | "tFLOAT" | "tRATIONAL" | "tIMAGINARY" | "tHEREDOC_BEG" => true,
            // the names `!@` and `~@`
            "tBANG" | "tTILDE" => val.as_slice() == text || text.strip_suffix(b"@") == Some(val.as_slice()),
            "tLABEL" => text.strip_suffix(b":") == Some(val.as_slice()),
            _ => val.as_slice() == text,
        };
        if !ok {
            return Err(format!("token {} {:?} at {}..{} holds {:?}", name, show(val), t.loc.begin, t.loc.end, show(text)));
        }
    }
    Ok(())
}

/// Comments are comments.
fn comments(r: &ParserResult) -> Result<(), String> {
    let src = &r.input.bytes;
    let mut last = 0;
    for c in &r.comments {
        let (b, e) = (c.location.begin, c.location.end);
        let text = &src[b..e];
        if b < last {
            return Err(format!("comment at {}..{} begins before the end of the one before it", b, e));
        }
        last = e;
        if !text.starts_with(b"#") && !text.starts_with(b"=begin") {
            return Err(format!("comment at {}..{} holds {:?}", b, e, show(text)));
        }
    }
    Ok(())
}

fn case(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let (src, kind) = any(t);
    c.label(kind);
    c.input = src.clone();
    let o = ParserOptions { record_tokens: true, ..Default::default() };
    // panics are C01's
    let Ok(r) = guarded(|| Parser::new(src, o).do_parse()) else { return Ok(()) };
    let ast = r.ast.as_ref().map(|a| conv(a));
    c.nontrivial = ast.as_ref().map_or(false, |a| a.count() > 1) || !r.diagnostics.is_empty();
    in_bounds(&r, ast.as_ref())?;
    comments(&r)?;
    let valid = r.diagnostics.iter().all(|d| !d.is_error());
    if valid {
        whole_characters(&r, ast.as_ref())?;
    }
    tokens(&r)?;
    if let Some(a) = &ast {
        nested(a, (0, r.input.bytes.len()))?;
        let mut res = Ok(());
        a.walk(&mut |t| {
            if res.is_ok() {
                res = named(t, &r.input.bytes, valid)
            }
        });
        res?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "the result has a tree of more than one node or a diagnostic",
        assumptions: &[],
        families: vec![Family { name: "any", quick: 600_000, thorough: 20_000_000, limit: 700, f: case }],
    }
}

/// Development aid: the texts that occur at each location field.
pub fn texts(n: u64) {
    use std::collections::{BTreeMap, BTreeSet};
    let mut m: BTreeMap<(&str, &str), BTreeSet<String>> = BTreeMap::new();
    for i in 0..n {
        let mut t = Tape::random(crate::tape::mix(99, i), 600);
        let src = crate::gen::G::new(&mut t, crate::props::program::general()).program().src;
        let r = Parser::new(src.clone(), ParserOptions::default()).do_parse();
        if let Some(a) = &r.ast {
            let a = conv(a);
            a.walk(&mut |t| {
                for (k, v) in &t.f {
                    if let (V::Loc(l), true) = (v, *k != "expression_l") {
                        let s = m.entry((t.kind, k)).or_default();
                        if s.len() < 60 {
                            s.insert(String::from_utf8_lossy(&src[l.0..l.1.min(src.len())]).into_owned());
                        }
                    }
                }
            });
        }
    }
    for (k, v) in m {
        println!("{}.{}: {}", k.0, k.1, v.iter().take(60).map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(" "));
    }
}

/// Neighbouring tokens by what lies between them, to see which layouts are never written.
pub fn pairs(n: u64) {
    use std::collections::BTreeMap;
    let mut m: BTreeMap<(String, String), ([usize; 4], String)> = BTreeMap::new();
    use crate::props::program as p;
    let cfgs: [fn() -> crate::gen::Cfg; 6] = [p::general, p::stmts, p::calls, p::params, p::patterns, p::ops];
    for i in 0..n {
        let mut t = Tape::random(crate::tape::mix(99, i), 600);
        let g = crate::gen::G::new(&mut t, cfgs[i as usize % 6]()).program();
        let v: Vec<_> = g.toks.iter().filter(|t| t.loc != crate::gen::ANY && t.kind != "tNL").collect();
        for w in v.windows(2) {
            if w[1].loc.0 < w[0].loc.1 {
                continue;
            }
            let gap = &g.src[w[0].loc.1..w[1].loc.0];
            let k = if gap.is_empty() { 0 } else if !gap.contains(&b'\n') { 1 } else if gap.contains(&b'#') { 3 } else { 2 };
            let e = m.entry((w[0].kind.to_string(), w[1].kind.to_string())).or_default();
            e.0[k] += 1;
            if e.1.is_empty() {
                e.1 = String::from_utf8_lossy(&g.src[w[0].loc.0..w[1].loc.1]).into_owned();
            }
        }
    }
    for (k, v) in m {
        println!("{} {} {:?} {:?}", k.0, k.1, v.0, v.1);
    }
}
