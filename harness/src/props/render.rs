//! C16: lines and columns, texts of locations, rendered diagnostics.
use super::program::parse_with;
use crate::gen::any::any;
use crate::guard::guarded;
use crate::run::{Case, Family, Prop};
use crate::tape::Tape;
use lib_ruby_parser::source::DecodedInput;
use lib_ruby_parser::{Diagnostic, DiagnosticMessage, ErrorLevel, Loc, LocExt, ParserOptions};

/// Line and column of a position, counted from the text.
fn line_col(b: &[u8], pos: usize) -> Option<(usize, usize)> {
    if pos > b.len() {
        return None;
    }
    let before = &b[..pos];
    let line = before.iter().filter(|c| **c == b'\n').count();
    let start = before.iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
    Some((line, pos - start))
}
/// Begin and end of the line a position is on, without its newline.
fn line_of(b: &[u8], pos: usize) -> (usize, usize) {
    let start = b[..pos].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
    let end = b[pos..].iter().position(|c| *c == b'\n').map_or(b.len(), |i| pos + i);
    (start, end)
}

fn expect<X: PartialEq + std::fmt::Debug>(what: &str, exp: X, act: X) -> Result<(), String> {
    if exp == act {
        Ok(())
    } else {
        Err(format!("{}: expected {:?} but got {:?}", what, exp, act))
    }
}

fn check_loc(i: &DecodedInput, b: &[u8], l: (usize, usize)) -> Result<(), String> {
    let loc = Loc { begin: l.0, end: l.1 };
    let at = format!("{}...{}", l.0, l.1);
    expect(&format!("begin_line_col of {}", at), line_col(b, l.0), loc.begin_line_col(i))?;
    let exp = line_col(b, l.0).map(|(n, _)| {
        let (s, e) = line_of(b, l.0);
        (n, Loc { begin: s, end: e })
    });
    expect(&format!("expand_to_line of {}", at), exp, loc.expand_to_line(i))?;
    let exp = if l.0 <= l.1 && l.1 <= b.len() { Some(String::from_utf8_lossy(&b[l.0..l.1]).into_owned()) } else { None };
    expect(&format!("source of {}", at), exp, loc.source(i))
}

fn check_input(i: &DecodedInput, b: &[u8]) -> Result<(), String> {
    if i.bytes != b {
        return Err("bytes of the input differ".into());
    }
    expect("as_shared_bytes", b, i.as_shared_bytes())?;
    let n = b.iter().filter(|c| **c == b'\n').count() + 1;
    expect("number of lines", n, i.lines.len())?;
    let mut pos = 0;
    for (k, l) in i.lines.iter().enumerate() {
        let (s, e) = line_of(b, pos);
        let last = k + 1 == n;
        let end = if last { e } else { e + 1 };
        expect(&format!("line {}", k), (s, end, last), (l.start, l.end, l.ends_with_eof))?;
        expect(&format!("line {} len", k), (end - s, end == s, e), (l.len(), l.is_empty(), l.line_end()))?;
        pos = end;
    }
    Ok(())
}

fn check_render(i: &DecodedInput, b: &[u8], d: &Diagnostic) -> Result<(), String> {
    let exp = line_col(b, d.loc.begin).map(|(n, col)| {
        let (s, e) = line_of(b, d.loc.begin);
        let line = String::from_utf8_lossy(&b[s..e]).into_owned();
        let prefix = format!("{}:{}", i.name, n + 1);
        let level = match d.level {
            ErrorLevel::Error => "error",
            ErrorLevel::Warning => "warning",
        };
        let mut marks = " ".repeat(col);
        marks.push('^');
        for _ in 1..(d.loc.end - d.loc.begin).max(1) {
            marks.push('~');
        }
        format!("{}:{}: {}: {}\n{}: {}\n{}: {}", prefix, col, level, d.render_message(), prefix, line, prefix, marks).trim().to_string()
    });
    expect(&format!("rendering of {:?}", d), exp, d.render(i))?;
    expect("is_error", d.level == ErrorLevel::Error, d.is_error())?;
    expect("is_warning", d.level == ErrorLevel::Warning, d.is_warning())
}

fn text(t: &mut Tape) -> Vec<u8> {
    let n = t.range(0, 40);
    let mut out = vec![];
    if t.chance(1, 40) {
        // long lines, many lines
        let k = if t.chance(1, 40) { t.range(60_000, 70_000) } else { t.range(200, 600) };
        out.extend(std::iter::repeat(*t.pick(b"\nxx")).take(k));
    }
    for _ in 0..n {
        out.extend_from_slice(*t.pick(&[&b"\n"[..], b"a", b"\n\n", b" ", b"\t", b"\r\n", b"\r", b"\xc3\xa9", b"\xe6\x97\xa5", b"\xff", b"foo", b"\0", b"\xef\xbb\xbf", b"\x0b"]));
    }
    out
}

fn positions(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let b = text(t);
    c.input = b.clone();
    c.nontrivial = b.contains(&b'\n');
    let name = *t.pick(&["(eval)", "", "日本", "a b", " x", "\t\na.rb", "x ", "\u{3000}y"]);
    let first = text(t);
    let mut i = DecodedInput::named(name);
    if t.chance(1, 3) {
        // what was there before must not show
        i.update_bytes(first);
    }
    i.update_bytes(b.clone());
    expect("name", name, &i.name[..])?;
    let more: Vec<(usize, usize)> = (0..12).map(|_| (t.draw(b.len() + 4), t.draw(b.len() + 4))).collect();
    let (k, l) = (t.draw(b.len() + 1), t.draw(6));
    let level = if t.draw(2) == 0 { ErrorLevel::Error } else { ErrorLevel::Warning };
    let message = match t.draw(4) {
        0 => DiagnosticMessage::UnexpectedToken { token_name: "tX".into() },
        1 => DiagnosticMessage::DuplicateHashKey {},
        2 => DiagnosticMessage::EncodingError { error: "é\nx".into() },
        _ => DiagnosticMessage::TokAtEolWithoutExpression { token_name: " x ".into() },
    };
    guarded(|| {
        check_input(&i, &b)?;
        let step = 1 + b.len() / 2000;
        for pos in (0..b.len() + 4).step_by(step).chain(b.len()..b.len() + 4) {
            expect(&format!("line_col_for_pos({})", pos), line_col(&b, pos), i.line_col_for_pos(pos))?;
            check_loc(&i, &b, (pos, pos))?;
        }
        for l in &more {
            check_loc(&i, &b, *l)?;
        }
        let d = Diagnostic { level, message, loc: Loc { begin: k, end: (k + l).min(b.len()) } };
        check_render(&i, &b, &d)?;
        expect("into_bytes", b.clone(), i.into_bytes())
    })?
}

/// Texts of many or very long lines.
fn long(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let mut b: Vec<u8> = vec![];
    for _ in 0..t.range(1, 4) {
        let s = text(t);
        let n = *t.pick(&[1, 2, 40, 300, 3000, 70_000]);
        let n = n.min(200_000 / (s.len() + 1)).max(1);
        for _ in 0..n {
            b.extend_from_slice(&s);
        }
    }
    c.input = b.clone();
    c.nontrivial = b.len() > 500;
    let mut i = DecodedInput::named("(eval)");
    i.update_bytes(b.clone());
    let at: Vec<(usize, usize)> = (0..20).map(|_| (t.draw(b.len() + 2), t.draw(b.len() + 2))).collect();
    guarded(|| {
        check_input(&i, &b)?;
        for l in at {
            expect(&format!("line_col_for_pos({})", l.0), line_col(&b, l.0), i.line_col_for_pos(l.0))?;
            check_loc(&i, &b, l)?;
            check_loc(&i, &b, (l.1, l.1))?;
            if l.0 <= b.len() {
                let d = Diagnostic { level: ErrorLevel::Error, message: DiagnosticMessage::DuplicateHashKey {}, loc: Loc { begin: l.0, end: (l.0 + l.1 % 300).min(b.len()) } };
                check_render(&i, &b, &d)?;
            }
        }
        Ok(())
    })?
}

/// Everything a parse reports.
fn results(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let (src, kind) = any(t);
    c.label(kind);
    c.input = src.clone();
    let name = t.pick(&["(eval)", "x.rb", ""]).to_string();
    let r = parse_with(&src, ParserOptions { buffer_name: name.clone(), ..ParserOptions::default() })?;
    c.nontrivial = !r.diagnostics.is_empty();
    expect("name", &name, &r.input.name)?;
    guarded(|| {
        check_input(&r.input, &src)?;
        for d in &r.diagnostics {
            check_render(&r.input, &src, d)?;
            check_loc(&r.input, &src, (d.loc.begin, d.loc.end))?;
        }
        for x in r.tokens.iter().take(60) {
            check_loc(&r.input, &src, (x.loc.begin, x.loc.end))?;
        }
        for x in &r.comments {
            check_loc(&r.input, &src, (x.location.begin, x.location.end))?;
        }
        for x in &r.magic_comments {
            check_loc(&r.input, &src, (x.value_l.begin, x.value_l.end))?;
        }
        Ok(())
    })?
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "the text has more than one line (positions), more than 500 bytes (long), the parse reports a diagnostic (results); distinct by input",
        assumptions: &["columns are counted in bytes, as the library documents for locations", "positions in tests are all of the text's and some behind its end"],
        families: vec![
            Family { name: "positions", quick: 250_000, thorough: 8_000_000, limit: 120, f: positions },
            Family { name: "long", quick: 4_000, thorough: 100_000, limit: 300, f: long },
            Family { name: "results", quick: 200_000, thorough: 6_000_000, limit: 600, f: results },
        ],
    }
}
