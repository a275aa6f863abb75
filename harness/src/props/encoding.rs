//! Encodings named at the top of a program, and decoders.
use super::program::{commented, compare_to, errors, focus, parse_with, Cmp};
use crate::gen::{Cfg, Header, Program, G};
use crate::run::{Case, Family, Prop};
use crate::tape::Tape;
use crate::tree::show;
use lib_ruby_parser::source::{Decoder, DecoderResult, InputError};
use lib_ruby_parser::{DiagnosticMessage, ErrorLevel, ParserOptions, ParserResult};
use std::cell::RefCell;
use std::rc::Rc;

type Calls = Rc<RefCell<Vec<(String, Vec<u8>)>>>;

fn options(t: &mut Tape, answer: Option<DecoderResult>) -> (ParserOptions, Calls) {
    let calls: Calls = Rc::new(RefCell::new(vec![]));
    let c = calls.clone();
    let decoder = answer.map(|a| {
        Decoder::new(Box::new(move |name, input| {
            c.borrow_mut().push((name, input));
            a.clone()
        }))
    });
    (ParserOptions { buffer_name: t.pick(&["a.rb", "", "日本"]).to_string(), decoder, record_tokens: true }, calls)
}

const NAMES: &[&str] = &["koi8-r", "Windows-1251", "Shift_JIS", "x", "us-ascii", "UTF-16LE", "utf8", "utf-8-unix", "ascii", "binary2", "utf_8", "EUC-JP", "é", "latin1-dos", "koi8-r-mac", "utf-8-dos", "UTF-8-MAC", "iso-8859-1-unix", "_", "-"];
const ALL: &[Cmp] = &[Cmp::Struct, Cmp::Locs, Cmp::Tokens, Cmp::Comments];

fn cfg(t: &mut Tape) -> Cfg {
    let mut c = focus(|_| ());
    c.fuel = 12;
    c.crlf = t.chance(1, 6);
    c
}

/// Encodes a program: everything behind its header is replaced.
fn encode(t: &mut Tape, p: &Program, h: &Header) -> Vec<u8> {
    let mut out = p.src[..h.head].to_vec();
    let rest = &p.src[h.head..];
    match t.draw(3) {
        0 => {
            // one byte per character beyond ASCII
            let mut table: Vec<char> = vec![];
            match std::str::from_utf8(rest) {
                Ok(s) => {
                    for ch in s.chars() {
                        if ch.is_ascii() {
                            out.push(ch as u8);
                        } else {
                            let i = table.iter().position(|x| *x == ch).unwrap_or_else(|| {
                                table.push(ch);
                                table.len() - 1
                            });
                            out.push(0x80 | (i as u8 & 0x7f));
                        }
                    }
                }
                Err(_) => out.extend_from_slice(rest),
            }
        }
        1 => {
            // two bytes each, from the second line on
            let nl = rest.iter().position(|c| *c == b'\n').unwrap_or(0);
            out.extend_from_slice(&rest[..nl + 1]);
            for c in &rest[nl + 1..] {
                out.push(*c);
                out.push(0);
            }
        }
        _ => {
            // something else altogether
            let n = t.draw(6);
            for _ in 0..n {
                let c = *t.pick(b" \tx:\"\xff\r");
                if h.plain && !c.is_ascii_whitespace() {
                    continue;
                }
                out.push(c);
            }
            if !t.chance(1, 4) {
                out.push(b'\n');
                for _ in 0..t.draw(20) {
                    let c = *t.pick(b"ab \n\xff'\"#\0(={\\");
                    out.push(c);
                }
            }
        }
    }
    out
}

fn input_is(r: &ParserResult, bytes: &[u8], name: &str) -> Result<(), String> {
    if r.input.bytes != bytes {
        return Err(format!("input of the result: expected {:?} but got {:?}", show(bytes), show(&r.input.bytes)));
    }
    if r.input.name != name {
        return Err(format!("name of the input: expected {:?} but got {:?}", name, r.input.name));
    }
    Ok(())
}

/// A decoder that answers: the result is that of the decoded text.
fn decoded(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let name = *t.pick(NAMES);
    let cfg = cfg(t);
    let (p, h) = G::new(t, cfg).encoded_program(name.as_bytes());
    let enc = encode(t, &p, &h);
    c.input = enc.clone();
    c.labels = p.labels.clone();
    c.nontrivial = enc != p.src;
    let (o, calls) = options(t, Some(DecoderResult::Ok(p.src.clone())));
    let buffer = o.buffer_name.clone();
    let r = parse_with(&enc, o)?;
    if *calls.borrow() != [(name.to_string(), enc.clone())] {
        let got: Vec<_> = calls.borrow().iter().map(|(n, b)| (n.clone(), show(b))).collect();
        return Err(format!("decoder: expected one call with {:?} and the whole input but got {:?}", name, got));
    }
    input_is(&r, &p.src, &buffer)?;
    compare_to(&p, &r, ALL).map_err(|e| format!("decoded text {:?}: {}", show(&p.src), e))
}

/// No decoder, or one that fails: an error at the name, and nothing is parsed.
fn refused(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let name: &[u8] = if t.chance(1, 12) { b"x\xff" } else { t.pick(NAMES).as_bytes() };
    let cfg = cfg(t);
    let (p, h) = G::new(t, cfg).encoded_program(name);
    let enc = encode(t, &p, &h);
    c.input = enc.clone();
    c.labels = p.labels.clone();
    c.nontrivial = p.ast.is_some();
    let err = match t.draw(3) {
        0 => None,
        1 => Some(InputError::DecodingError(t.pick(&["no", "", "é\n"]).to_string())),
        _ => Some(InputError::UnsupportedEncoding("other".into())),
    };
    let (o, calls) = options(t, err.clone().map(DecoderResult::Err));
    let buffer = o.buffer_name.clone();
    let r = parse_with(&enc, o)?;
    let want = match std::str::from_utf8(name) {
        Ok(n) => {
            if err.is_some() && *calls.borrow() != [(n.to_string(), enc.clone())] {
                return Err("decoder: expected one call with the name and the whole input".into());
            }
            Some(err.unwrap_or(InputError::UnsupportedEncoding(n.into())).to_string())
        }
        Err(_) => {
            if !calls.borrow().is_empty() {
                return Err("decoder called with a name that is no text".into());
            }
            None
        }
    };
    input_is(&r, &enc, &buffer)?;
    if r.diagnostics.len() != 1 {
        return Err(format!("expected one error but got {:?}", r.diagnostics));
    }
    let d = &r.diagnostics[0];
    if d.level != ErrorLevel::Error || (d.loc.begin, d.loc.end) != h.value_l {
        return Err(format!("expected an error at {:?} but got {:?}", h.value_l, d));
    }
    match &d.message {
        DiagnosticMessage::EncodingError { error } if want.as_ref().map_or(true, |w| w == error) => {}
        m => return Err(format!("expected the encoding error {:?} but got {:?}", want, m)),
    }
    if r.ast.is_some() || r.tokens.len() != 1 {
        return Err(format!("text of unknown encoding was parsed: {:?} {:?}", r.tokens, r.ast));
    }
    Ok(())
}

/// Encodings that need no decoder, and names elsewhere than at the top.
fn builtin(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let p = if t.chance(1, 2) {
        let name = *t.pick(&["utf-8", "UTF-8", "Utf-8", "uTF-8", "binary", "BINARY", "Binary", "ascii-8bit", "ASCII-8BIT", "Ascii-8bit"]);
        let cfg = cfg(t);
        G::new(t, cfg).encoded_program(name.as_bytes()).0
    } else {
        let mut cfg = commented();
        cfg.crlf = t.chance(1, 6);
        G::new(t, cfg).program()
    };
    c.input = p.src.clone();
    c.labels = p.labels.clone();
    c.nontrivial = p.magics.iter().any(|m| m.kind == "Encoding");
    let answer = match t.draw(3) {
        0 => None,
        1 => Some(DecoderResult::Ok(b"decoded".to_vec())),
        _ => Some(DecoderResult::Err(InputError::DecodingError("no".into()))),
    };
    let (o, calls) = options(t, answer);
    let buffer = o.buffer_name.clone();
    let r = parse_with(&p.src, o)?;
    if !calls.borrow().is_empty() {
        return Err(format!("decoder called for {:?}", calls.borrow()[0].0));
    }
    if let Some(e) = errors(&r).first() {
        return Err(format!("error reported: {}", e));
    }
    input_is(&r, &p.src, &buffer)?;
    compare_to(&p, &r, ALL)
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "well-formed programs that name their encoding at the top, encoded in several ways, with decoders that answer or fail; non-trivial: the encoded text differs from the decoded one (decoded), there is something to parse (refused), an encoding is named (builtin); distinct by input",
        assumptions: &["decoders leave the text up to the end of the encoding's name as it is", "the generator's prediction is right about Ruby 3.1"],
        families: vec![
            Family { name: "decoded", quick: 150_000, thorough: 5_000_000, limit: 400, f: decoded },
            Family { name: "refused", quick: 80_000, thorough: 2_000_000, limit: 300, f: refused },
            Family { name: "builtin", quick: 150_000, thorough: 5_000_000, limit: 400, f: builtin },
        ],
    }
}
