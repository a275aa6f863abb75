//! Inputs of any kind: valid, nearly valid, broken and random bytes.
use super::*;
use crate::props::program::{deep, general, small};
use crate::props::totality::{soup, FRAGS};

const ODD: &[&[u8]] = &[
    b"\xff", b"\xc3", b"\xe3\x81", b"\xf0\x9f\x98", b"\x80", b"\0", b"\x04", b"\x1a", b"\r", b"\xef\xbb\xbf", b"\\", b"#", b"\"", b"\"\":", b"'':", b":\"\"", b"%w()", b"%i()", b"<<A\n", b"<<~A\n  ", b"<<\"\"\n", b"\nA\n", b"__END__", b"\n__END__\n", b"=begin", b"\n=begin\n", b"\n=end", b"?", b"?\\", b"\\u", b"\\u{", b"\\x", b"\\M-", b"\\C-", b"\\c", b"\\M-\\C-", b"@", b"@@", b"$", b"$-", b"0x", b"1_", b"1.", b".5", b"1e", b"&.", b"&", b"*", b"**", b"...", b"..", b"=>", b"->", b"{|", b"|", b"do |", b"=", b"+=", b"rescue", b"in {\"\":}", b"in {\"a\":}", b"=> {\"\":}", b"#@", b"#$", b"#@@a", b"#{", b"}", b"%", b"%q", b"% a ", b"/", b"`", b"_1", b"_1 = 1", b"BEGIN {", b"END {", b"defined?", b"not", b"alias $a $1", b"undef", b"self = 1", b"$1 += 1", b"nil += 1", b"a?: ", b"a!", b"A = 1", b"->(a = ", b"def a(", b"def a.", b"def (1).a", b"class a", b"# encoding: koi8-r\n", b"# coding: x\n", b"# -*- coding: -*-\n", b"# -*-\n", b"# -*- a:\"b\\\" -*-\n", b"# vim: set fileencoding=\n", b"# coding", b"# coding:", b"#coding=", b"#!ruby\n", b"\xc2\xa0", b"\xe3\x80\x80", b"\x0b", b"\x0c",
];

fn char_ranges(src: &[u8]) -> Vec<(usize, usize)> {
    // words, runs of blanks, single other bytes
    let mut v = vec![];
    let mut i = 0;
    let cls = |c: u8| if c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80 { 0 } else if c == b' ' || c == b'\t' { 1 } else { 2 };
    while i < src.len() {
        let b = i;
        i += 1;
        while i < src.len() && cls(src[b]) < 2 && cls(src[i]) == cls(src[b]) {
            i += 1;
        }
        v.push((b, i));
    }
    v
}

/// Damages a source.
pub fn mutate(t: &mut Tape, src: &mut Vec<u8>) {
    let n = 1 + t.weighted(&[8, 4, 2, 1, 1]);
    for _ in 0..n {
        let words = char_ranges(src);
        if words.is_empty() {
            src.extend_from_slice(t.pick(FRAGS).as_bytes());
            continue;
        }
        let (b, e) = words[t.draw(words.len())];
        match t.draw(12) {
            0 => {
                // cut the rest
                src.truncate(t.range(0, src.len()));
            }
            1 => {
                src.drain(b..e);
            }
            2 => {
                let w = src[b..e].to_vec();
                src.splice(b..b, w);
            }
            3 => {
                let f = t.pick(FRAGS).as_bytes().to_vec();
                src.splice(b..b, f);
            }
            4 => {
                let f = t.pick(ODD).to_vec();
                src.splice(e..e, f);
            }
            5 => {
                let f = t.pick(FRAGS).as_bytes().to_vec();
                src.splice(b..e, f);
            }
            6 => {
                // another word of the same source
                let (x, y) = words[t.draw(words.len())];
                let w = src[x..y].to_vec();
                src.splice(b..e, w);
            }
            7 => {
                let i = t.draw(src.len());
                src[i] = t.draw(256) as u8;
            }
            8 => {
                let i = t.draw(src.len());
                src.remove(i);
            }
            9 => {
                // a stretch of the source somewhere else
                let (x, _) = words[t.draw(words.len())];
                let len = t.range(1, 40).min(src.len() - x);
                let w = src[x..x + len].to_vec();
                src.splice(b..b, w);
            }
            10 => {
                // drop the beginning
                src.drain(..b);
            }
            _ => {
                let f = t.pick(ODD).to_vec();
                src.splice(b..e, f);
            }
        }
        if src.len() > 4000 {
            src.truncate(4000);
        }
    }
}

/// Errors the grammar recovers from, so that what follows is parsed in whatever state they left.
const RECOVERED: &[&str] = &[
    "begin; ) end", "begin; 1; ] end", "; ) ;", "\n)\n", "; ] ;", "(1 2)\n", "; 1 2\n", "if ); 1; end\n", "; end ;", "\nend\n", "; } ;", "a b {begin; ) end", "p (a) {begin; ) end}", "def ); end\n", "; class ); end\n", "; -> ( { }\n", "; foo(,) \n", "[1,,2]\n", "; {a: } }\n", "case 1; in ); end\n", "; foo do |); end\n", "; when 1\n", "\"#{)}\"", "; a = \n)\n", "; *, = \n ; ", "while ) do end\n", "; for ) in 1; end\n", "; yield ) ;", "begin; rescue ); end\n", "; _1 = 1 ;", "; self = 1 ;", "; $1 = 1 ;",
];

/// Puts some of them where a statement or an expression could stand.
fn recovering(t: &mut Tape, src: &mut Vec<u8>) {
    for _ in 0..t.range(1, 3) {
        let at: Vec<usize> = (0..src.len() + 1)
            .filter(|i| {
                let before = &src[..*i];
                matches!(before.last(), None | Some(b'\n' | b';' | b'{' | b'(' | b'|' | b',' | b'=')) || before.ends_with(b"do ") || before.ends_with(b" and ") || before.ends_with(b"then ") || before.ends_with(b"begin ")
            })
            .collect();
        let i = at[t.draw(at.len())];
        let f = t.pick(RECOVERED).as_bytes().to_vec();
        src.splice(i..i, f);
    }
    for _ in 0..t.draw(3) {
        // something more behind a complete construct
        let at: Vec<usize> = (1..src.len() + 1).filter(|i| matches!(src[i - 1], b'}' | b')' | b']') || src[..*i].ends_with(b"end")).collect();
        if at.is_empty() {
            return;
        }
        let i = at[t.draw(at.len())];
        let f = *t.pick(&[" do end", " do |va| end", " { }", " { |va| }", "{ _1 }", " = 1", " += 1", " ? 1 : 2", ".foo 1", " => va", " in va", " rescue 1", " if 1", "::A = 1", "[0] ||= 1", " do _1 end", "(&va) { }", " 1", ", vb = 1", " then 1", ": 1"]);
        src.splice(i..i, f.bytes());
    }
}

fn bytes(t: &mut Tape) -> Vec<u8> {
    let n = t.range(0, 40);
    let alphabet: &[u8] = match t.draw(3) {
        0 => b"\0\x01\x04\x1a\n\r\t #@$\"'`/\\%?:;,.=+-*&|!~^<>()[]{}_aAbB01\x80\xc3\xa9\xe3\x81\x82\xff",
        1 => b"a1 \n\"'#{}()|&*<\\",
        _ => b"",
    };
    (0..n).map(|_| if alphabet.is_empty() { t.draw(256) as u8 } else { alphabet[t.draw(alphabet.len())] }).collect()
}

/// Any input, with a word on where it comes from.
pub fn any(t: &mut Tape) -> (Vec<u8>, &'static str) {
    let kind;
    let mut src = match t.weighted(&[4, 8, 10, 6, 2, 1, 1, 6]) {
        0 => {
            kind = "token soup";
            soup(t)
        }
        1 => {
            kind = "valid program";
            G::new(t, general()).program().src
        }
        2 => {
            kind = "damaged program";
            let mut s = G::new(t, general()).program().src;
            mutate(t, &mut s);
            s
        }
        3 => {
            kind = "ill-formed construct";
            G::new(t, small()).bad_program().0.src
        }
        4 => {
            kind = "damaged small program";
            let mut s = G::new(t, small()).program().src;
            mutate(t, &mut s);
            s
        }
        5 => {
            kind = "damaged deep program";
            let mut s = G::new(t, deep()).program().src;
            mutate(t, &mut s);
            s
        }
        6 => {
            kind = "bytes";
            bytes(t)
        }
        _ => {
            kind = "errors to recover from";
            let cfg = if t.chance(1, 3) { small() } else { general() };
            let mut s = G::new(t, cfg).program().src;
            recovering(t, &mut s);
            if t.chance(1, 6) {
                mutate(t, &mut s);
            }
            s
        }
    };
    if t.chance(1, 20) {
        // something in front
        let f = *t.pick(&[&b"\xef\xbb\xbf"[..], b"#!/usr/bin/ruby\n", b"# encoding: utf-8\n", b"# -*- coding: binary -*-\n", b"# encoding: koi8-r\n", b"\n", b" ", b"=begin\n=end\n"]);
        src.splice(0..0, f.iter().copied());
    }
    (src, kind)
}
