use crate::guard::guarded;
use crate::run::{Case, Family, Prop};
use crate::tape::Tape;
use crate::gen::any::any;
use lib_ruby_parser::source::{Decoder, DecoderResult, InputError};
use lib_ruby_parser::{Lexer, Parser, ParserOptions};

pub const FRAGS: &[&str] = &[
    " ", "\n", "a", "b", "1", "foo", "Foo", "@a", "@@b", "$c", "$1", "$-w", "::", ".", "&.", "..", "...", "(", ")", "[", "]", "{", "}", "|", "||", "&&", "&", "!", "~", "?", ":", ";", ",",
    "=", "==", "===", "=>", "=~", "!=", "!~", "<", "<=", "<=>", "<<", ">>", ">", ">=", "+", "-", "*", "**", "/", "%", "^", "+=", "||=", "&&=", "->", "\\", "\\\n", "\"", "'", "`", "#{", "#", "#@", "#$",
    "%w[", "%i[", "%W[", "%I[", "%q(", "%Q(", "%r{", "%s(", "%x(", "%(", "<<A", "<<~A", "<<-A", "<<'A'", "<<~\"A\"", "<<`A`", "A\n", "\nA\n", "\n=begin\n", "\n=end\n", "\n__END__\n", "?a", "?\\n", "\\u{", "\\u", "\\x", "\\C-", "\\M-", "\\c", "0x", "0b1", "0o7", "0d9", "1_0", "1.5", "1e3", "1r", "2i", "\r", "\r\n", "\t", "\0", "\x04", "\x1a", "\x0c", "\x0b", "é", "日本",
    "alias ", "and ", "begin ", "BEGIN ", "break ", "case ", "class ", "def ", "defined? ", "do ", "else ", "elsif ", "end ", "END ", "ensure ", "false ", "for ", "if ", "in ", "module ", "next ", "nil ", "not ", "or ", "redo ", "rescue ", "retry ", "return ", "self ", "super ", "then ", "true ", "undef ", "unless ", "until ", "when ", "while ", "yield ", "__LINE__", "__FILE__", "__ENCODING__", "a: ", "\"a\": ", "*a", "**a", "&b", "_1", "it", "# encoding: utf-8\n", "# coding: koi8-r\n", "# -*- coding: us-ascii; x: y -*-\n", "# frozen_string_literal: true\n", "def foo(", "def foo = ", "foo do |", "foo {|", "case a\nin ", "class << self\n", "class Foo < ",
];

pub fn soup(t: &mut Tape) -> Vec<u8> {
    let mut out = vec![];
    let n = t.range(0, 30);
    for _ in 0..n {
        match t.weighted(&[20, 2, 1]) {
            0 => out.extend_from_slice(t.pick(FRAGS).as_bytes()),
            1 => out.push(t.range(32, 126) as u8),
            _ => out.push(t.draw(256) as u8),
        }
    }
    out
}

fn case(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let src = soup(t);
    c.input = src.clone();
    c.nontrivial = src.len() > 3;
    guarded(|| Parser::new(src, ParserOptions::default()).do_parse()).map(|_| ())
}

/// A decoder: fails, keeps, shortens, lengthens or replaces what it is given.
pub fn decoder(kind: usize) -> Option<Decoder> {
    match kind {
        0 => None,
        1 => Some(Decoder::new(Box::new(|_, b| DecoderResult::Ok(b)))),
        2 => Some(Decoder::new(Box::new(|e, _| DecoderResult::Err(InputError::UnsupportedEncoding(e))))),
        3 => Some(Decoder::new(Box::new(|_, _| DecoderResult::Err(InputError::DecodingError("no".into()))))),
        4 => Some(Decoder::new(Box::new(|_, b| DecoderResult::Ok(b[..b.len() / 2].to_vec())))),
        5 => Some(Decoder::new(Box::new(|_, _| DecoderResult::Ok(vec![])))),
        6 => Some(Decoder::new(Box::new(|_, b| DecoderResult::Ok(b.iter().flat_map(|c| if *c < 0x80 { vec![*c] } else { "é".as_bytes().to_vec() }).collect())))),
        _ => Some(Decoder::new(Box::new(|_, mut b| {
            b.extend_from_slice(b"\n(1 + \n");
            DecoderResult::Ok(b)
        }))),
    }
}

fn anything(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let (src, kind) = any(t);
    c.label(kind);
    c.input = src.clone();
    c.nontrivial = src.len() > 3;
    let o = ParserOptions { buffer_name: t.pick(&["(eval)", "", "a\nb", "日本"]).to_string(), decoder: decoder(t.draw(8)), record_tokens: t.draw(2) == 0 };
    let names: Vec<&str> = (0..t.draw(3)).map(|_| *t.pick(&["a", "foo", "_1", "été", "A", ""])).collect();
    guarded(|| {
        let p = Parser::new(src, o);
        for n in names {
            p.static_env.declare(n);
        }
        let r = p.do_parse();
        // everything a user does with a result
        for d in &r.diagnostics {
            let _ = d.render(&r.input);
            let _ = d.render_message();
        }
        let _ = format!("{:?}", r);
    })
}

fn lexer(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let (src, kind) = any(t);
    c.label(kind);
    c.input = src.clone();
    c.nontrivial = src.len() > 3;
    guarded(|| {
        let mut l = Lexer::new(src, "(eval)", None);
        l.tokenize_until_eof();
    })
}

/// The same thing many times over.
fn scale(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let (pre, _) = any(t);
    let unit = match t.draw(3) {
        0 => soup(t),
        1 => t.pick(FRAGS).as_bytes().to_vec(),
        _ => any(t).0,
    };
    let (post, kind) = any(t);
    let n = *t.pick(&[50, 200, 1000, 8000]);
    // brackets and the like nest: the stack must suffice
    let n = n.min(30_000 / (unit.len() + 1)).min(if unit.len() < 8 { 1000 } else { 8000 }).max(2);
    let mut src = if t.chance(1, 2) { pre } else { vec![] };
    for _ in 0..n {
        src.extend_from_slice(&unit);
    }
    if t.chance(1, 2) {
        src.extend_from_slice(&post);
    }
    c.label(kind);
    c.input = src.clone();
    c.nontrivial = src.len() > 300;
    guarded(|| {
        let r = Parser::new(src, ParserOptions::default()).do_parse();
        for d in r.diagnostics.iter().take(20) {
            let _ = d.render(&r.input);
        }
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "the input is longer than three bytes",
        assumptions: &["integer overflow checks are on in the build under test", "a parse that uses more than the CPU or memory bound counts as not terminating"],
        families: vec![
            Family { name: "soup", quick: 1_000_000, thorough: 20_000_000, limit: 400, f: case },
            Family { name: "any", quick: 1_800_000, thorough: 60_000_000, limit: 700, f: anything },
            Family { name: "scale", quick: 6_000, thorough: 200_000, limit: 1500, f: scale },
            Family { name: "lexer", quick: 200_000, thorough: 5_000_000, limit: 500, f: lexer },
        ],
    }
}
