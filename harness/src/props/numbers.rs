//! Numeric literals, well-formed and not, against an independent recogniser.
use super::program::{errors, parse};
use crate::conv::conv;
use crate::run::Case;
use crate::tape::Tape;
use crate::tree::V;

fn digits(s: &[u8], mut i: usize, ok: fn(u8) -> bool) -> Option<usize> {
    if i >= s.len() || !ok(s[i]) {
        return None;
    }
    loop {
        i += 1;
        if i < s.len() && ok(s[i]) {
            continue;
        }
        if i + 1 < s.len() && s[i] == b'_' && ok(s[i + 1]) {
            continue;
        }
        return Some(i);
    }
}

fn suffix(s: &[u8], i: usize, kind: &'static str, r: bool) -> Option<&'static str> {
    match &s[i..] {
        b"" => Some(kind),
        b"r" if r => Some("Rational"),
        b"i" => Some("Complex"),
        b"ri" if r => Some("Complex"),
        _ => None,
    }
}

/// The kind of node if `s` as a whole is one numeric literal.
pub fn recognise(s: &[u8]) -> Option<&'static str> {
    let dec = |c: u8| c.is_ascii_digit();
    if s.len() > 1 && s[0] == b'0' {
        let n = match s[1] {
            b'x' | b'X' => digits(s, 2, |c| c.is_ascii_hexdigit()),
            b'b' | b'B' => digits(s, 2, |c| c == b'0' || c == b'1'),
            b'd' | b'D' => digits(s, 2, dec),
            b'o' | b'O' | b'_' => digits(s, 2, |c| (b'0'..=b'7').contains(&c)),
            b'0'..=b'9' => digits(s, 1, |c| (b'0'..=b'7').contains(&c)),
            _ => Some(0),
        };
        match n {
            None => return None,
            Some(0) => {}
            Some(n) => return suffix(s, n, "Int", true),
        }
    }
    let mut i = if s[0] == b'0' { 1 } else { digits(s, 0, dec)? };
    let (mut float, mut exp) = (false, false);
    if i < s.len() && s[i] == b'.' {
        i = digits(s, i + 1, dec)?;
        float = true;
    }
    if i < s.len() && (s[i] | 32) == b'e' {
        let mut j = i + 1;
        if j < s.len() && (s[j] == b'+' || s[j] == b'-') {
            j += 1;
        }
        i = digits(s, j, dec)?;
        float = true;
        exp = true;
    }
    suffix(s, i, if float { "Float" } else { "Int" }, !exp)
}

/// Digits with the characters that numbers are made of, mostly nearly right.
fn text(t: &mut Tape) -> Vec<u8> {
    let mut s = vec![];
    match t.draw(4) {
        0 => s.extend_from_slice(*t.pick(&[&b"0x"[..], b"0X", b"0b", b"0B", b"0o", b"0O", b"0d", b"0D", b"0_", b"0", b"00", b"07", b"0e", b"0."])),
        _ => s.push(b'0' + t.draw(10) as u8),
    }
    for _ in 0..t.range(0, 7) {
        let c = match t.weighted(&[10, 3, 3, 2, 2, 2]) {
            0 => {
                let odd = t.chance(1, 8);
                let base = s.get(1).filter(|_| s[0] == b'0').map(|c| c | 32);
                *t.pick(match base {
                    Some(b'b') if !odd => b"01",
                    Some(b'o') if !odd => b"01234567",
                    Some(b'x') => b"0123456789abcdefABCDEF",
                    _ => &b"0123456789"[..],
                })
            }
            1 => b'_',
            2 => b'.',
            3 => *t.pick(b"eE"),
            4 => *t.pick(b"ri"),
            _ => *t.pick(b"xXbBoOdDafAF"),
        };
        s.push(c);
        if (c | 32) == b'e' && t.chance(1, 3) {
            s.push(*t.pick(b"+-"));
        }
    }
    s
}

pub fn case(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let s = text(t);
    let (pre, post) = *t.pick(&[("", ""), ("", "\n"), ("a = ", "\n"), ("[", "]"), ("f(", ")\n"), ("f(x, ", ", y)"), ("x + ", "\n"), ("(", ")"), ("{k: ", "}"), ("if ", " then z end"), ("-", ""), ("a = +", "\n"), ("f ", "\n"), ("[x, ", "]\n"), ("\"#{", "}\"")]);
    c.input = [pre.as_bytes(), &s, post.as_bytes()].concat();
    let hex = s.len() > 1 && s[0] == b'0' && (s[1] | 32) == b'x';
    let signed = s.iter().any(|c| *c == b'+' || *c == b'-');
    let call = (0..s.len()).any(|i| s[i] == b'.' && !s.get(i + 1).map_or(false, |c| c.is_ascii_digit()));
    if call || hex && signed {
        // a method call, a range or a sum
        return Ok(());
    }
    c.nontrivial = s.len() > 1;
    let r = parse(&c.input)?;
    let e = errors(&r);
    match recognise(&s) {
        None => {
            c.label("malformed number");
            if e.is_empty() {
                return Err(format!("malformed number {:?} accepted: {}", String::from_utf8_lossy(&s), r.ast.as_ref().map_or("nothing".into(), |a| conv(a).sexp())));
            }
        }
        Some(kind) => {
            c.label("well-formed number");
            if !e.is_empty() {
                return Err(format!("{} for a well-formed number {:?}", e[0], String::from_utf8_lossy(&s)));
            }
            let mut found = vec![];
            if let Some(a) = &r.ast {
                conv(a).walk(&mut |n| {
                    if matches!(n.kind, "Int" | "Float" | "Rational" | "Complex") {
                        found.push((n.kind, n.get("value").cloned(), n.ex()));
                    }
                });
            }
            let sign = pre.bytes().last().filter(|c| (*c == b'-' || *c == b'+') && !pre.ends_with("x + "));
            let d = sign.is_some() as usize;
            let val = [&sign.into_iter().collect::<Vec<_>>()[..], &s].concat();
            let want = vec![(kind, Some(V::Str(val)), (pre.len() - d, pre.len() + s.len()))];
            if found != want {
                return Err(format!("expected the number {:?} but got {:?}", want, found));
            }
        }
    }
    Ok(())
}
