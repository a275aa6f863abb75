//! Metamorphic relations: what must not change a result (C14 layout, C15 options, history and
//! threads, C20 surroundings).
use super::program::{calls, errors, general, heredocs, large, no_errors, parse, parse_with, patterns, small, stmts, strings};
use super::totality::decoder;
use crate::conv::conv;
use crate::gen::any::any;
use crate::gen::{Cfg, Program, G, L};
use crate::guard::guarded;
use crate::run::{Case, Family, Prop};
use crate::tape::Tape;
use crate::tree::{diff, show, Mode, T, V};
use lib_ruby_parser::{ErrorLevel, Parser, ParserOptions, ParserResult};

/// A result as plain data.
#[derive(Clone, PartialEq, Debug)]
pub struct Answer {
    pub ast: Option<T>,
    pub toks: Vec<(String, Vec<u8>, L)>,
    pub diags: Vec<(bool, String, L)>,
    pub comments: Vec<(String, L)>,
    pub magics: Vec<(String, L, L)>,
}

impl Answer {
    pub fn of(r: &ParserResult) -> Answer {
        let l = |l: &lib_ruby_parser::Loc| (l.begin, l.end);
        Answer {
            ast: r.ast.as_ref().map(|a| conv(a)),
            toks: r.tokens.iter().map(|t| (t.token_name().to_string(), t.token_value.as_raw().clone(), l(&t.loc))).collect(),
            diags: r.diagnostics.iter().map(|d| (d.level == ErrorLevel::Error, format!("{:?}", d.message), l(&d.loc))).collect(),
            comments: r.comments.iter().map(|c| (format!("{:?}", c.kind), l(&c.location))).collect(),
            magics: r.magic_comments.iter().map(|m| (format!("{:?}", m.kind), l(&m.key_l), l(&m.value_l))).collect(),
        }
    }
    pub fn map(&mut self, f: &dyn Fn(L) -> L) {
        if let Some(a) = &mut self.ast {
            map_tree(a, f);
        }
        self.toks.iter_mut().for_each(|t| t.2 = f(t.2));
        self.diags.iter_mut().for_each(|t| t.2 = f(t.2));
        self.comments.iter_mut().for_each(|t| t.1 = f(t.1));
        self.magics.iter_mut().for_each(|t| {
            t.1 = f(t.1);
            t.2 = f(t.2);
        });
    }
    /// First difference to another answer.
    pub fn differs(&self, o: &Answer) -> Option<String> {
        match (&self.ast, &o.ast) {
            (Some(a), Some(b)) => {
                if let Some(d) = diff(a, b, Mode::Struct).or_else(|| diff(a, b, Mode::Locs)) {
                    return Some(format!("tree {}", d));
                }
            }
            (None, None) => {}
            (a, b) => return Some(format!("tree: expected {:?} but got {:?}", a.as_ref().map(|t| t.sexp()), b.as_ref().map(|t| t.sexp()))),
        }
        fn first<X: PartialEq + std::fmt::Debug>(what: &str, a: &[X], b: &[X]) -> Option<String> {
            let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i))?;
            Some(format!("{} {}: expected {:?} but got {:?}", what, i, a.get(i), b.get(i)))
        }
        first("token", &self.toks, &o.toks).or_else(|| first("diagnostic", &self.diags, &o.diags)).or_else(|| first("comment", &self.comments, &o.comments)).or_else(|| first("magic comment", &self.magics, &o.magics))
    }
}

pub fn map_tree(t: &mut T, f: &dyn Fn(L) -> L) {
    t.walk_mut(&mut |n| {
        for (_, v) in &mut n.f {
            if let V::Loc(l) = v {
                *l = f(*l);
            }
        }
    });
}

// ---- C15 ----

fn opts(dec: usize) -> ParserOptions {
    ParserOptions { decoder: decoder(dec), ..ParserOptions::default() }
}

fn same(what: &str, a: &ParserResult, b: &ParserResult) -> Result<(), String> {
    // compared as they are first, with the tree's own equality
    if a.ast == b.ast && a.tokens == b.tokens && a.diagnostics == b.diagnostics && a.comments == b.comments && a.magic_comments == b.magic_comments && a.input.bytes == b.input.bytes && a.input.lines == b.input.lines {
        return Ok(());
    }
    Err(format!("{}: {}", what, Answer::of(a).differs(&Answer::of(b)).unwrap_or("input differs".into())))
}

fn options(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let (src, kind) = any(t);
    c.label(kind);
    c.input = src.clone();
    c.nontrivial = src.len() > 3;
    let dec = t.draw(8);
    let base = parse_with(&src, opts(dec))?;
    same("parsing again", &base, &parse_with(&src, opts(dec))?)?;
    // without tokens
    let mut r = parse_with(&src, ParserOptions { record_tokens: false, ..opts(dec) })?;
    if !r.tokens.is_empty() {
        return Err("tokens recorded although record_tokens is off".into());
    }
    r.tokens = base.tokens.clone();
    same("record_tokens: false", &base, &r)?;
    // under another name
    let name = *t.pick(&["", "x.rb", "a:b\n", "日本"]);
    let r = parse_with(&src, ParserOptions { buffer_name: name.into(), ..opts(dec) })?;
    if r.input.name != name {
        return Err(format!("buffer name {:?} is reported as {:?}", name, r.input.name));
    }
    same("another buffer name", &base, &r)?;
    // an error is an error whatever the level filter: ast and diagnostics agree
    if dec != 0 && base.magic_comments.iter().all(|m| format!("{:?}", m.kind) != "Encoding") && errors(&base).iter().all(|e| !e.contains("ncoding")) {
        same("without the unused decoder", &base, &parse(&src)?)?;
    }
    Ok(())
}

/// Several parsers alive at once, used in any order.
fn history(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let n = t.range(2, 4);
    let srcs: Vec<Vec<u8>> = (0..n).map(|_| any(t).0).collect();
    c.input = srcs.join(&b"\n---\n"[..]);
    c.nontrivial = srcs.iter().all(|s| s.len() > 1);
    let base: Vec<_> = srcs.iter().map(|s| parse(s)).collect::<Result<_, _>>()?;
    let mut ps: Vec<Option<Parser>> = srcs.iter().map(|s| guarded(|| Parser::new(s.clone(), ParserOptions::default())).map(Some)).collect::<Result<_, _>>()?;
    let mut left: Vec<usize> = (0..n).collect();
    while !left.is_empty() {
        let i = left.remove(t.draw(left.len()));
        let p = ps[i].take().unwrap();
        let r = guarded(move || p.do_parse())?;
        same("parsing among others", &base[i], &r)?;
    }
    Ok(())
}

/// Programs of the same size and much the same text, one after the other.
fn alike(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let first = any(t).0;
    let mut srcs = vec![first];
    for _ in 0..t.range(1, 3) {
        let mut s = srcs[t.draw(srcs.len())].clone();
        for _ in 0..t.range(1, 3) {
            if s.is_empty() {
                break;
            }
            let i = t.draw(s.len());
            match t.draw(4) {
                0 => {
                    let j = t.draw(s.len());
                    s.swap(i, j);
                }
                1 => s[i] = *t.pick(b"\n a1;\"#(=\\"),
                2 => {
                    // a newline moves
                    if let Some(k) = s[i..].iter().position(|c| *c == b'\n') {
                        let x = s.remove(i + k);
                        let j = t.draw(s.len() + 1);
                        s.insert(j, x);
                    }
                }
                _ => s[i] = if s[i].is_ascii_alphabetic() { s[i] ^ 0x20 } else { s[i] },
            }
        }
        srcs.push(s);
    }
    c.input = srcs.join(&b"\n---\n"[..]);
    c.nontrivial = srcs[0].len() > 3 && srcs.iter().any(|s| *s != srcs[0]);
    let order: Vec<usize> = (0..t.range(2, 6)).map(|_| t.draw(srcs.len())).collect();
    let fresh = |s: &[u8]| -> Result<ParserResult, String> {
        std::thread::scope(|sc| {
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
                parse(b"nil")?;
                parse(s)
            });
            h.unwrap().join().unwrap_or(Err("a thread panicked".into()))
        })
    };
    // first where time and memory are watched
    for s in &srcs {
        parse(s)?;
    }
    let base: Vec<_> = srcs.iter().map(|s| fresh(s)).collect::<Result<_, _>>()?;
    for i in order {
        let r = parse(&srcs[i])?;
        same("parsing among programs much alike", &base[i], &r)?;
        if r.input.bytes != srcs[i] && base[i].input.bytes == srcs[i] {
            return Err("another input".into());
        }
    }
    Ok(())
}

/// The same inputs on several threads at once.
fn threads(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let n = t.range(2, 3);
    let srcs: Vec<Vec<u8>> = (0..n).map(|_| any(t).0).collect();
    c.input = srcs.join(&b"\n---\n"[..]);
    c.nontrivial = srcs.iter().all(|s| s.len() > 1);
    let base: Vec<_> = srcs.iter().map(|s| parse(s)).collect::<Result<_, _>>()?;
    let barrier = std::sync::Barrier::new(n);
    let all: Vec<Result<Vec<ParserResult>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (srcs, barrier) = (&srcs, &barrier);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        barrier.wait();
                        (0..srcs.len()).map(|i| parse(&srcs[(i + k) % srcs.len()])).collect()
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("a thread panicked".into()))).collect()
    });
    for (k, rs) in all.into_iter().enumerate() {
        for (i, r) in rs?.iter().enumerate() {
            same("parsing on another thread", &base[(i + k) % n], r)?;
        }
    }
    Ok(())
}

/// A well-formed program leaves no state behind in the parser.
fn state(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let cfg = match t.draw(4) {
        0 => general(),
        1 => small(),
        2 => calls(),
        _ => patterns(),
    };
    let p = G::new(t, cfg).program();
    c.input = p.src.clone();
    c.labels = p.labels.clone();
    c.nontrivial = p.ast.is_some();
    let base = parse(&p.src)?;
    let r = guarded(|| Parser::new(p.src.clone(), ParserOptions::default()).do_parse_with_state_validation()).map_err(|e| format!("state left behind: {}", e))?;
    same("do_parse_with_state_validation", &base, &r)
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "the input is longer than three bytes (options), all inputs are longer than one (history, threads), the inputs are longer than three and not all the same (alike), the program is not empty (state); distinct by input",
        assumptions: &["schedules of threads are those the operating system gives"],
        families: vec![
            Family { name: "options", quick: 200_000, thorough: 8_000_000, limit: 600, f: options },
            Family { name: "history", quick: 60_000, thorough: 2_000_000, limit: 1500, f: history },
            Family { name: "alike", quick: 40_000, thorough: 1_500_000, limit: 600, f: alike },
            Family { name: "threads", quick: 20_000, thorough: 500_000, limit: 1200, f: threads },
            Family { name: "state", quick: 100_000, thorough: 3_000_000, limit: 600, f: state },
        ],
    }
}

// ---- C14 ----

/// The beginning of the text has a meaning of its own.
fn special_start(src: &[u8]) -> bool {
    let head: Vec<u8> = src.split(|c| *c == b'\n').take(2).collect::<Vec<_>>().concat().to_ascii_lowercase();
    src.starts_with(b"\xef\xbb\xbf") || src.starts_with(b"#!") || head.windows(6).any(|w| w == b"coding")
}

/// Lines in front move everything and change nothing.
fn shifted(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let (src, kind) = any(t);
    c.label(kind);
    let mut head: Vec<u8> = vec![];
    let mut comments = vec![];
    for _ in 0..t.range(1, 3) {
        let s = *t.pick(&["\n", "   \n", "# x\n", "\t# if (\r\n", "=begin\n( \"\n=end\n", "\x0c\n", "\r\n", "# 日本\n"]);
        let copies = if t.chance(1, 600) { *t.pick(&[40, 300, 3000, 70_000]) } else { 1 };
        for _ in 0..copies {
            let b = head.len();
            head.extend_from_slice(s.as_bytes());
            if let Some(i) = s.find('#') {
                comments.push(("Inline".to_string(), (b + i, head.len())));
            } else if s.starts_with('=') {
                comments.push(("Document".to_string(), (b, head.len())));
            }
        }
    }
    if comments.is_empty() && t.chance(1, 8) {
        head = b"\xef\xbb\xbf".to_vec();
    }
    let n = head.len();
    let mut text = head;
    text.extend_from_slice(&src);
    c.input = text.clone();
    c.nontrivial = src.len() > 3 && !special_start(&src);
    if special_start(&src) {
        return Ok(());
    }
    let r = parse(&src)?;
    if text[..n].iter().any(|c| b" \t\x0c".contains(c)) && !errors(&r).is_empty() {
        // blanks somewhere before decide what some ill-formed characters are taken for
        c.nontrivial = false;
        return Ok(());
    }
    let mut a = Answer::of(&r);
    a.map(&|l| (l.0 + n, l.1 + n));
    comments.extend(a.comments);
    a.comments = comments;
    let mut b = Answer::of(&parse(&text)?);
    if text[..n].iter().any(|c| b" \t\x0c".contains(c)) {
        // blanks somewhere before an operator can make it an ambiguous one
        a.diags.retain(|d| !d.1.starts_with("AmbiguousOperator"));
        b.diags.retain(|d| !d.1.starts_with("AmbiguousOperator"));
    }
    match a.differs(&b) {
        Some(d) => Err(format!("moved by {} bytes: {}", n, d)),
        None => Ok(()),
    }
}

/// What stands behind the end of a program changes nothing.
fn trailing(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let cfg = if t.draw(2) == 0 { general() } else { small() };
    let p = G::new(t, cfg).program();
    c.labels = p.labels.clone();
    let mut text = p.src.clone();
    text.extend_from_slice(*t.pick(&[&b"\n"[..], b"\n\n\n", b"\n# c", b"\n# c\n", b"\n\0)) junk", b"\n  \x04 end", b"\n\x1a", b"\n__END__", b"\n__END__\n)) \" junk", b"\n=begin\nx\n=end", b"\n\n=begin\nx\n=end\n", b"\n   ", b"\n\t\x0c", b"\r\n", b"\n;", b"\n;;\n;", b"\n\0", b"\n__END__\r\n\xff"]));
    c.input = text.clone();
    if p.labels.contains(&"__END__") {
        return Ok(());
    }
    c.nontrivial = p.ast.is_some();
    let r = parse(&text)?;
    no_errors(&r)?;
    super::program::tree(&p, &r, Mode::Struct)?;
    super::program::tree(&p, &r, Mode::Locs)
}

/// Other blanks between the tokens change nothing but locations.
fn reflow(t: &mut Tape, c: &mut Case, cfg: Cfg) -> Result<(), String> {
    let p = G::new(t, cfg).program();
    c.labels = p.labels.clone();
    let r = parse(&p.src)?;
    c.input = p.src.clone();
    if !errors(&r).is_empty() || p.labels.contains(&"__END__") {
        return Ok(()); // errors are C02's
    }
    // pieces of the source that stay: (begin, end), in order
    let mut spans: Vec<(usize, usize, String)> = r.tokens.iter().map(|t| (t.loc.begin, t.loc.end, t.token_name().to_string())).filter(|s| s.1 > s.0).collect();
    // literals and here-documents stay as they are
    let mut keep: Vec<L> = r.comments.iter().map(|c| (c.location.begin, c.location.end)).collect();
    let heredoc = p.labels.iter().any(|l| l.contains("heredoc") || l.contains("here-doc"));
    if let Some(a) = &r.ast {
        conv(a).walk(&mut |n| match n.kind {
            "Heredoc" | "XHeredoc" => {
                if let (Some(b), Some(e)) = (n.loc("heredoc_body_l"), n.loc("heredoc_end_l")) {
                    keep.push((b.0.min(e.0), e.1));
                }
            }
            _ => {}
        });
    }
    for k in keep {
        spans.push((k.0, k.1, "keep".into()));
    }
    spans.sort();
    let mut map: Vec<(usize, usize)> = vec![]; // old position, new position, at piece borders
    let mut out: Vec<u8> = vec![];
    let mut pos = 0;
    let mut changed = 0;
    let mut copy = |out: &mut Vec<u8>, map: &mut Vec<(usize, usize)>, b: usize, e: usize| {
        for i in b..=e {
            map.push((i, out.len() + i - b));
        }
        out.extend_from_slice(&p.src[b..e]);
    };
    let crlf = p.src.windows(2).any(|w| w == b"\r\n");
    let mut i = 0;
    while i < spans.len() {
        let (b, e, kind) = spans[i].clone();
        i += 1;
        if e <= pos {
            continue;
        }
        let b2 = b.max(pos);
        let gap = &p.src[pos..b2];
        let blank = !gap.is_empty() && gap.iter().all(|c| b" \t".contains(c));
        let lines = !crlf && !heredoc && gap.contains(&b'\n') && gap.iter().all(|c| b" \t\n".contains(c)) && kind != "keep";
        let before = out.last().copied();
        if blank && before.is_some() && before != Some(b'\n') && kind != "keep" && kind != "tSPACE" && kind != "tSTRING_CONTENT" && t.chance(2, 3) {
            map.push((pos, out.len()));
            let s = *t.pick(&[" ", "  ", "\t", " \t ", "\x0c ", " \x0b", " \\\n ", " \\\r\n  ", "   \\\n\t\\\n ", "\x0b\x0c", " \r "]);
            if heredoc && s.contains('\n') {
                out.push(b' ');
            } else {
                out.extend_from_slice(s.as_bytes());
            }
            changed += 1;
        } else if lines && pos > 0 && t.chance(2, 3) {
            map.push((pos, out.len()));
            let next = &p.src[b2..];
            let dot = next.starts_with(b".") || next.starts_with(b"&.");
            for ch in gap {
                match ch {
                    b'\n' => {
                        if !dot && t.chance(1, 3) {
                            out.extend_from_slice(t.pick(&["\n", " \n", "\n\n", "\t\n"]).as_bytes());
                        }
                        out.push(b'\n');
                    }
                    _ => {}
                }
            }
            out.extend_from_slice(t.pick(&["", " ", "\t ", "      ", "\x0b", "\x0c ", " \t\x0b\x0c", " \r "]).as_bytes());
            if next.starts_with(b"=") || next.starts_with(b"__END__") {
                out.push(b' ');
            }
            changed += 1;
        } else {
            copy(&mut out, &mut map, pos, b2);
        }
        copy(&mut out, &mut map, b2, e);
        pos = e;
    }
    copy(&mut out, &mut map, pos, p.src.len());
    drop(copy);
    c.input = out.clone();
    c.nontrivial = changed > 0;
    map.sort();
    let at = |x: usize, last: bool| -> usize {
        let lo = map.partition_point(|m| m.0 < x);
        let hi = map.partition_point(|m| m.0 <= x);
        if lo == hi {
            return usize::MAX;
        }
        if last {
            map[hi - 1].1
        } else {
            map[lo].1
        }
    };
    // a piece's end is the first new position, its begin the last
    let mut a = Answer::of(&r);
    a.map(&|l| if l.0 == l.1 { (at(l.0, true), at(l.1, true)) } else { (at(l.0, true), at(l.1, false)) });
    a.diags.clear();
    a.toks.iter_mut().filter(|t| t.0 == "tNL" || t.0 == "EOF").for_each(|t| t.2 = (0, 0));
    let r2 = parse(&out)?;
    let mut b = Answer::of(&r2);
    if let Some(e) = errors(&r2).first() {
        return Err(format!("reflowed program has an error: {}", e));
    }
    b.diags.clear();
    b.toks.iter_mut().filter(|t| t.0 == "tNL" || t.0 == "EOF").for_each(|t| t.2 = (0, 0));
    match a.differs(&b) {
        Some(d) => Err(format!("reflowed from {:?}: {}", show(&p.src), d)),
        None => Ok(()),
    }
}
fn reflow_general(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    reflow(t, c, Cfg { fancy_ws: false, ..general() })
}
fn reflow_calls(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    reflow(t, c, Cfg { fancy_ws: false, heredocs: false, ..calls() })
}
fn reflow_stmts(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    reflow(t, c, Cfg { fancy_ws: false, ..stmts() })
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "the input is longer than three bytes and does not begin with something only special at the beginning (shifted), the program is not empty (trailing), blanks were changed (reflow); distinct by input",
        assumptions: &["generated programs are well-formed (trailing, reflow)"],
        families: vec![
            Family { name: "shifted", quick: 250_000, thorough: 10_000_000, limit: 600, f: shifted },
            Family { name: "trailing", quick: 150_000, thorough: 5_000_000, limit: 500, f: trailing },
            Family { name: "reflow", quick: 120_000, thorough: 5_000_000, limit: 600, f: reflow_general },
            Family { name: "reflow-calls", quick: 80_000, thorough: 3_000_000, limit: 600, f: reflow_calls },
            Family { name: "reflow-statements", quick: 80_000, thorough: 3_000_000, limit: 600, f: reflow_stmts },
        ],
    }
}

// ---- C20 ----

/// Surroundings: text before and behind, and where the body is in the tree.
struct Around {
    before: &'static str,
    after: &'static str,
    path: &'static [&'static str],
    /// The body makes a scope of a block.
    block: bool,
}
const AROUND: &[Around] = &[
    Around { before: "begin\n", after: "\nend", path: &["*statements"], block: false },
    Around { before: "(\n", after: "\n)", path: &["*statements"], block: false },
    Around { before: "if qq\n", after: "\nend", path: &["if_true"], block: false },
    Around { before: "unless qq then ", after: "\nelse\n 1 end", path: &["if_false"], block: false },
    Around { before: "if qq\n1\nelse\n", after: "\nend", path: &["if_false"], block: false },
    Around { before: "if qq\n1\nelsif qqq\n", after: "\nend", path: &["if_false", "if_true"], block: false },
    Around { before: "while qq do\n", after: "\nend", path: &["body"], block: false },
    Around { before: "until qq\n", after: "\nend", path: &["body"], block: false },
    Around { before: "for qq in qqq do\n", after: "\nend", path: &["body"], block: false },
    Around { before: "case qq\nwhen 1\n", after: "\nend", path: &["when_bodies", "body"], block: false },
    Around { before: "case qq\nwhen 1 then 2\nelse\n", after: "\nend", path: &["else_body"], block: false },
    Around { before: "case qq\nin Integer then ", after: "\nend", path: &["in_bodies", "body"], block: false },
    Around { before: "begin\n1\nrescue\n", after: "\nend", path: &["statements", "rescue_bodies", "body"], block: false },
    Around { before: "begin\n1\nrescue A, B => qq then\n", after: "\nend", path: &["statements", "rescue_bodies", "body"], block: false },
    Around { before: "begin\n1\nrescue\n2\nelse\n", after: "\nend", path: &["statements", "else_"], block: false },
    Around { before: "begin\n1\nensure\n", after: "\nend", path: &["statements", "ensure"], block: false },
    Around { before: "begin\n", after: "\nensure\n1\nend", path: &["statements", "body"], block: false },
    Around { before: "END {\n", after: "\n}", path: &["body"], block: false },
    Around { before: "qq do\n", after: "\nend", path: &["body"], block: true },
    Around { before: "qq(1) { |qqq|\n", after: "\n}", path: &["body"], block: true },
    Around { before: "a.qq 1 do |qqq, *|\n", after: "\nend", path: &["body"], block: true },
    Around { before: "-> do\n", after: "\nend", path: &["body"], block: true },
    Around { before: "->(qqq) {\n", after: "\n}", path: &["body"], block: true },
    Around { before: "qq [-> do\n", after: "\nend]", path: &["args", "elements", "body"], block: true },
    Around { before: "qq qqq: (begin\n", after: "\nend)", path: &["args", "pairs", "value", "statements", "*statements"], block: false },
    Around { before: "[\"a#{\n", after: "\n}b\"]", path: &["elements", "parts#1", "*statements"], block: false },
    Around { before: "qq(<<A, 1)\n#{\n", after: "\n}\nA\n", path: &["args", "parts", "*statements"], block: false },
    Around { before: "qq { qq(1, (\n", after: "\n)) }", path: &["body", "args#1", "*statements"], block: true },
    Around { before: "1 + begin\n", after: "\nend * 2", path: &["args", "recv", "*statements"], block: false },
];

fn step<'a>(t: &'a T, name: &str) -> Option<&'a T> {
    let (name, i) = match name.split_once('#') {
        Some((n, i)) => (n, i.parse().unwrap()),
        None => (name, 0),
    };
    match t.get(name) {
        Some(V::Node(n)) => Some(n),
        Some(V::List(l)) => l.get(i),
        _ => None,
    }
}

fn surround(t: &mut Tape, p: &Program) -> Option<(&'static Around, Vec<u8>)> {
    let a = t.pick(AROUND);
    if p.labels.contains(&"__END__") || p.labels.contains(&"BEGIN") {
        return None;
    }
    // directly in the braces of a lambda `...` is lexed as the parameter
    if p.src.windows(3).any(|w| w == b"...") && a.before.starts_with("->(") {
        return None;
    }
    // a value is wanted of the last statement, which a one-line match with `=>` does not have
    let mut matches = false;
    if let Some(x) = &p.ast {
        x.walk(&mut |n| matches |= n.kind == "MatchPattern");
    }
    let has = |w: &[u8]| p.src.windows(w.len()).any(|x| x == w);
    if (a.before.contains("qqq: (") || a.before.contains("1, (") || a.before.contains("1 +")) && (has(b"return") || has(b"break") || has(b"next") || has(b"redo") || has(b"retry") || matches) {
        return None;
    }
    // a numbered parameter there, a method here
    if a.block && p.src.windows(2).any(|w| w[0] == b'_' && w[1].is_ascii_digit()) {
        return None;
    }
    let heredoc = p.labels.iter().any(|l| l.contains("heredoc") || l.contains("here-doc"));
    if heredoc && a.before.contains("<<A") {
        return None;
    }
    let mut s = a.before.as_bytes().to_vec();
    s.extend_from_slice(&p.src);
    s.extend_from_slice(a.after.as_bytes());
    Some((a, s))
}

fn surrounded(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let cfg = match t.draw(8) {
        0 | 1 => general(),
        2 | 3 => small(),
        4 => calls(),
        5 => strings(),
        6 => heredocs(),
        _ => stmts(),
    };
    surrounded_by(t, c, cfg)
}
fn surrounded_by(t: &mut Tape, c: &mut Case, cfg: Cfg) -> Result<(), String> {
    let p = G::new(t, cfg).program();
    c.labels = p.labels.clone();
    c.input = p.src.clone();
    if p.src.starts_with(b"\xef\xbb\xbf") {
        return Ok(());
    }
    let (a, text) = match surround(t, &p) {
        Some(x) => x,
        None => return Ok(()),
    };
    c.input = text.clone();
    c.label(a.before);
    c.nontrivial = p.ast.is_some();
    let alone = parse(&p.src)?;
    if !errors(&alone).is_empty() {
        return Ok(()); // C02's
    }
    let r = parse(&text)?;
    if let Some(e) = errors(&r).first() {
        return Err(format!("an error only in these surroundings: {}", e));
    }
    let n = a.before.len();
    let mut exp = alone.ast.as_ref().map(|x| conv(x));
    if let Some(e) = &mut exp {
        map_tree(e, &|l| (l.0 + n, l.1 + n));
    }
    let whole = r.ast.as_ref().map(|x| conv(x)).ok_or("no tree")?;
    let mut at = &whole;
    for (i, s) in a.path.iter().enumerate() {
        if let Some(name) = s.strip_prefix('*') {
            // a list of statements: compared one by one
            let act = at.list(name);
            let act = if act.len() == 1 && exp.as_ref().map_or(false, |e| e.kind == "Begin" && e.loc("begin_l").is_none()) && act[0].kind == "Begin" && act[0].loc("begin_l").is_none() { act[0].list("statements") } else { act };
            let want: Vec<&T> = match &exp {
                None => vec![],
                Some(e) if e.kind == "Begin" && e.loc("begin_l").is_none() => e.list("statements").iter().collect(),
                Some(e) => vec![e],
            };
            if want.len() != act.len() {
                return Err(format!("body: expected {} statements but got {}", want.len(), act.len()));
            }
            for (x, y) in want.iter().zip(act) {
                if let Some(d) = diff(x, y, Mode::Struct).or_else(|| diff(x, y, Mode::Locs)) {
                    return Err(format!("body differs from the same text alone: {}", d));
                }
            }
            return Ok(());
        }
        match step(at, s) {
            Some(x) => at = x,
            None if i + 1 == a.path.len() && exp.is_none() => return Ok(()),
            None => return Err(format!("no {} in {}", s, at.sexp())),
        }
    }
    match exp {
        None => Err(format!("body: expected nothing but got {}", at.sexp())),
        Some(e) => match diff(&e, at, Mode::Struct).or_else(|| diff(&e, at, Mode::Locs)) {
            Some(d) => Err(format!("body differs from the same text alone: {}", d)),
            None => Ok(()),
        },
    }
}

/// An ill-formed text gives the same first error in surroundings.
fn bad_surrounded(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let (p, bad) = G::new(t, small()).bad_program();
    c.input = p.src.clone();
    c.labels = p.labels.clone();
    if bad.is_none() || special_start(&p.src) {
        return Ok(());
    }
    let (a, text) = match surround(t, &p) {
        Some(x) if !x.0.block => x,
        _ => return Ok(()),
    };
    c.input = text.clone();
    c.nontrivial = true;
    let n = a.before.len();
    let first = |r: &ParserResult| r.diagnostics.iter().find(|d| d.level == ErrorLevel::Error).map(|d| (format!("{:?}", d.message), (d.loc.begin, d.loc.end)));
    let mut alone = p.src.clone();
    alone.push(b'\n');
    let x = first(&parse(&alone)?).map(|(m, l)| (m, (l.0 + n, l.1 + n)));
    let y = first(&parse(&text)?);
    if x.as_ref().map_or(false, |x| x.0.contains("tSTRING_DEND")) && a.before.contains('{') {
        return Ok(()); // a closing brace that belongs to nothing is lexed by what is open around it
    }
    if x != y {
        return Err(format!("first error: alone {:?} but surrounded {:?}", x, y));
    }
    Ok(())
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "the surrounded program is not empty, or is ill-formed (ill-formed family); distinct by input",
        assumptions: &["surroundings are those listed in the harness"],
        families: vec![
            Family { name: "surrounded", quick: 350_000, thorough: 12_000_000, limit: 600, f: surrounded },
            Family { name: "ill-formed", quick: 120_000, thorough: 4_000_000, limit: 300, f: bad_surrounded },
            Family { name: "large", quick: 10_000, thorough: 400_000, limit: 2500, f: large_surrounded },
        ],
    }
}
fn large_surrounded(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    surrounded_by(t, c, large())
}
