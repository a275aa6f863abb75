//! Ill-formed programs must be reported, where and as what they are.
use super::program::{general, parse, small};
use crate::gen::{Cfg, Program, ANY, G};
use crate::run::{Case, Family, Prop};
use crate::tape::Tape;
use lib_ruby_parser::ErrorLevel;

pub fn injected(t: &mut Tape, c: &mut Case, cfg: Cfg) -> Result<(), String> {
    let (p, bad) = G::new(t, cfg).bad_program();
    c.input = p.src.clone();
    c.labels = p.labels.clone();
    let bad = match bad {
        Some(b) => b,
        None => return Ok(()),
    };
    c.nontrivial = true;
    let r = parse(&p.src)?;
    let first = match r.diagnostics.iter().find(|d| d.level == ErrorLevel::Error) {
        Some(d) => d,
        None => return Err(format!("no error reported; expected {} at {}..{}", bad.msg, bad.loc.0, bad.loc.1)),
    };
    let msg = format!("{:?}", first.message);
    let loc = (first.loc.begin, first.loc.end);
    let at = if bad.exact { loc == bad.loc } else { bad.loc.0 <= loc.0 && loc.1 <= bad.loc.1 };
    let same = bad.msg.split('|').any(|m| m == msg) || bad.msg == "UnexpectedToken" && msg.starts_with("UnexpectedToken");
    if !same || !at {
        return Err(format!("expected {} {} {}..{} but got {} at {}..{}", bad.msg, if bad.exact { "at" } else { "within" }, bad.loc.0, bad.loc.1, msg, loc.0, loc.1));
    }
    Ok(())
}
fn injected_general(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    injected(t, c, general())
}
fn injected_small(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    injected(t, c, small())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "the program contains an ill-formed construct or ends while something is open, so an error is due",
        assumptions: &["the generator's list of ill-formed constructs with the error each must give, written from Ruby's documented rules", "two or more faults in one program are not combined: only the first error is judged"],
        families: vec![
            Family { name: "injected", quick: 300_000, thorough: 10_000_000, limit: 600, f: injected_general },
            Family { name: "injected-small", quick: 300_000, thorough: 10_000_000, limit: 200, f: injected_small },
            Family { name: "cut", quick: 200_000, thorough: 10_000_000, limit: 600, f: cut },
            Family { name: "tail", quick: 100_000, thorough: 3_000_000, limit: 300, f: tail },
            Family { name: "stray", quick: 200_000, thorough: 10_000_000, limit: 600, f: stray },
        ],
    }
}

/// What is open between two tokens.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Open {
    Paren,
    Bracket,
    Curly,
    Interp,
    End,
    /// Strings, with the error an end of input gives.
    Str(&'static str),
}

/// What is open behind each token; None if the tokens do not tell.
fn open_after(p: &Program) -> Option<(Vec<Vec<Open>>, bool)> {
    let mut endless = vec![];
    if let Some(a) = &p.ast {
        let mut a = a.clone();
        a.walk_mut(&mut |n| {
            if (n.kind == "Def" || n.kind == "Defs") && n.loc("assignment_l").is_some() {
                endless.push(n.loc("keyword_l"));
            }
        });
    }
    let mut st = vec![];
    let mut all = vec![];
    let mut prev = "";
    for t in &p.toks {
        let kw = t.kind.starts_with('k');
        if matches!(t.kind, "kALIAS" | "kUNDEF") || kw && matches!(prev, "kDEF" | "tSYMBEG" | "tDOT" | "tCOLON2" | "tANDDOT") && !t.val.starts_with(b"self") && !t.val.starts_with(b"__") {
            return None;
        }
        match t.kind {
            "tLPAREN" | "tLPAREN2" | "tLPAREN_ARG" => st.push(Open::Paren),
            "tLBRACK" | "tLBRACK2" => st.push(Open::Bracket),
            "tLBRACE" | "tLCURLY" | "tLBRACE_ARG" | "tLAMBEG" => st.push(Open::Curly),
            "tSTRING_DBEG" => st.push(Open::Interp),
            "kIF" | "kUNLESS" | "kWHILE" | "kUNTIL" | "kCASE" | "kFOR" | "kBEGIN" | "kCLASS" | "kMODULE" | "kDO" | "kDO_BLOCK" | "kDO_LAMBDA" => st.push(Open::End),
            "kDEF" if !endless.contains(&Some(t.loc)) => st.push(Open::End),
            "tSTRING_BEG" | "tXSTRING_BEG" => st.push(Open::Str("UnterminatedString")),
            "tSYMBEG" if t.val.len() > 1 => st.push(Open::Str("UnterminatedString")),
            "tREGEXP_BEG" => st.push(Open::Str("UnterminatedRegexp")),
            "tWORDS_BEG" | "tQWORDS_BEG" | "tSYMBOLS_BEG" | "tQSYMBOLS_BEG" => st.push(Open::Str("UnterminatedList")),
            "tRPAREN" | "tRBRACK" | "tRCURLY" | "tSTRING_DEND" | "kEND" | "tSTRING_END" | "tLABEL_END" | "tREGEXP_END" => {
                let want = match t.kind {
                    "tRPAREN" => Open::Paren,
                    "tRBRACK" => Open::Bracket,
                    "tRCURLY" => Open::Curly,
                    "tSTRING_DEND" => Open::Interp,
                    "kEND" => Open::End,
                    _ => Open::Str(""),
                };
                match (st.pop(), want) {
                    (Some(Open::Str(_)), Open::Str(_)) => {}
                    (Some(a), b) if a == b => {}
                    _ => return None,
                }
            }
            _ => {}
        }
        prev = t.kind;
        all.push(st.clone());
    }
    if st.is_empty() {
        Some((all, !endless.is_empty()))
    } else {
        None
    }
}

fn first_error(src: &[u8]) -> Result<Option<(String, usize, usize)>, String> {
    let r = parse(src)?;
    Ok(r.diagnostics.iter().find(|d| d.level == ErrorLevel::Error).map(|d| (format!("{:?}", d.message), d.loc.begin, d.loc.end)))
}
fn expect_error(src: &[u8], msgs: &[&str], loc: (usize, usize)) -> Result<(), String> {
    match first_error(src)? {
        None => Err(format!("no error reported; expected {} at {}..{}", msgs[0], loc.0, loc.1)),
        Some((m, b, e)) => {
            // a rule that the wrong token completes may find its own fault with what stands before it
            let before = e <= loc.0 && ["CsendInsideMasgn", "NoAnonymousBlockarg", "CantAssign", "DynamicConstant", "ReservedFor", "CircularArgument", "KeyMustBe", "InvalidIdToGet", "DuplicateVariableName", "DuplicateKeyName", "CantSetVariable"].iter().any(|x| m.starts_with(x));
            // blanks at the end may or may not be passed over
            let at_end = msgs.len() == 1 && b == e && b < loc.0 && src[b..].iter().all(|c| matches!(c, b' ' | b'\t'));
            if (!msgs.contains(&m.as_str()) || (b, e) != loc && !at_end) && !before {
                return Err(format!("expected {} at {}..{} but got {} at {}..{}", msgs[0], loc.0, loc.1, m, b, e));
            }
            Ok(())
        }
    }
}

fn plain() -> Cfg {
    Cfg { heredocs: false, comments: false, ..general() }
}

/// A program that ends while something is open.
fn cut(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let at = t.draw(1 << 16);
    let tail = t.draw(4);
    let p = G::new(t, plain()).program();
    c.labels = p.labels.clone();
    c.input = p.src.clone();
    let (open, _) = match open_after(&p) {
        Some(o) => o,
        None => return Ok(()),
    };
    let idx: Vec<usize> = (0..open.len()).filter(|i| !open[*i].is_empty() && p.toks[*i].loc != ANY && !matches!(p.toks[*i].kind, "tCOLON" | "tUMINUS" | "tUMINUS_NUM" | "tUPLUS" | "tAMPER" | "tSTAR" | "tDSTAR") && (p.toks[*i].kind != "tSYMBEG" || p.toks[*i].val.len() > 1)).collect();
    if idx.is_empty() {
        return Ok(());
    }
    let i = idx[at * idx.len() >> 16];
    let mut src = p.src[..p.toks[i].loc.1].to_vec();
    let top = *open[i].last().unwrap();
    if let Open::Str(_) = top {
        c.label("cut in a string");
    } else {
        c.label("cut in code");
        let word = src.last().map_or(false, |c| c.is_ascii_alphanumeric() || matches!(c, b')' | b']' | b'}' | b',' | b';' | b'\n' | b'"' | b'.'));
        // an operator directly before the end of the input may be taken for a prefix
        src.extend_from_slice(if word { ["", " ", "", " \t"][tail] } else { " " }.as_bytes());
    }
    c.input = src.clone();
    c.nontrivial = true;
    let n = src.len();
    match top {
        Open::Str(m) => expect_error(&src, &[m], (n, n)),
        _ => {
            if p.toks[i].kind == "tNL" {
                // `p (1` admits one newline before its parenthesis, so a second one is the fault
                if let Some((m, b, e)) = first_error(&src)? {
                    if m == "UnexpectedToken { token_name: \"tNL\" }" && (b, e) == p.toks[i].loc && open[i].last() == Some(&Open::Paren) {
                        return Ok(());
                    }
                }
            }
            expect_error(&src, &["UnexpectedToken { token_name: \"END_OF_INPUT\" }"], (n, n))
        }
    }
}

/// A closing token where something else must be closed first.
fn stray(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let at = t.draw(1 << 16);
    let which = t.draw(4);
    let p = G::new(t, plain()).program();
    c.labels = p.labels.clone();
    c.input = p.src.clone();
    let (open, endless) = match open_after(&p) {
        Some(o) => o,
        None => return Ok(()),
    };
    let (text, closes, name) = [(")", Open::Paren, "tRPAREN"), ("]", Open::Bracket, "tRBRACK"), ("}", Open::Curly, "tRCURLY"), ("end", Open::End, "kEND")][which];
    let idx: Vec<usize> = (0..open.len())
        .filter(|i| {
            let k = p.toks[*i].kind;
            p.toks[*i].loc != ANY
                && !matches!(k, "tSYMBEG" | "tLABEL" | "tLABEL_END" | "tAMPER" | "tSTAR" | "tDSTAR" | "tCOLON3" | "tUMINUS_NUM" | "tUMINUS" | "tUPLUS")
                && !(text == "end" && endless)
                && !(text == "end" && matches!(k, "tDOT" | "tANDDOT" | "tCOLON2" | "kDEF"))
                && match open[*i].last() {
                    None => true,
                    Some(Open::Str(_)) => false,
                    Some(Open::Interp) => text != "}",
                    Some(o) => *o != closes,
                }
        })
        .collect();
    if idx.is_empty() {
        return Ok(());
    }
    let i = idx[at * idx.len() >> 16];
    let b = p.toks[i].loc.1;
    let mut src = p.src[..b].to_vec();
    src.push(b' ');
    src.extend_from_slice(text.as_bytes());
    src.push(b' ');
    src.extend_from_slice(&p.src[b..]);
    c.input = src.clone();
    c.nontrivial = true;
    let m = format!("UnexpectedToken {{ token_name: {:?} }}", name);
    let m2 = if text == "}" { "UnexpectedToken { token_name: \"tSTRING_DEND\" }" } else { "" };
    expect_error(&src, &[&m, m2], (b + 1, b + 1 + text.len()))
}

/// A program that ends in a construct that is not complete, or has a character no program has.
fn tail(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let pre = *t.pick(&["", "va = ", "foo(", "foo 1, ", "[1, ", "{a: ", "if ", "1 + "]);
    let id = *t.pick(&["A", "foo", "été", "B_1", "a b"]);
    let body = *t.pick(&["", "\n", "\nx", "\nx\n", "\n A\n", "\nx#{1}\n", "\nAA\n", "\nfoo_\n日本\n"]);
    let dash = *t.pick(&["", "-", "~"]);
    let quote = *t.pick(&["", "\"", "'", "`"]);
    let which = t.draw(12);
    let ch = t.draw(24);
    let p = G::new(t, small()).program();
    c.labels = p.labels.clone();
    if p.labels.contains(&"__END__") {
        return Ok(());
    }
    let mut src = p.src.clone();
    if src.last() != Some(&b'\n') {
        src.push(b'\n');
    }
    // the program may end in something that a newline does not end
    src.extend_from_slice(b";\n");
    let (mut m, rel): (String, Option<(usize, usize)>);
    let text: Vec<u8>;
    match which {
        0 | 1 | 2 => {
            let quote = if id.contains(' ') && quote.is_empty() { "\"" } else { quote };
            let head = format!("<<{}{}{}{}", dash, quote, id, quote);
            let terminator = |l: &str| if dash.is_empty() { l == id } else { l.trim_start() == id };
            if body.split('\n').any(terminator) || (quote == "'" && body.contains('#')) {
                return Ok(());
            }
            m = format!("UnterminatedHeredoc {{ heredoc_id: {:?} }}", id);
            // the identifier with its quotes
            rel = Some((2 + dash.len(), head.len()));
            text = (head + body).into_bytes();
            c.label("heredoc");
        }
        3 => {
            let q = if quote.is_empty() { "\"" } else { quote };
            text = format!("<<{}{}{}", dash, q, id).into_bytes();
            m = "UnterminatedHeredocId".into();
            rel = None;
            c.label("heredoc identifier");
        }
        4 | 5 => {
            let (s, e) = *t.pick(&[("\"a", "UnterminatedString"), ("'a\\'", "UnterminatedString"), ("%q(a(b)", "UnterminatedString"), ("%Q[a[b]", "UnterminatedString"), ("%w(a b", "UnterminatedList"), ("%i<a b", "UnterminatedList"), ("%W{a #{1}", "UnterminatedList"), ("%I|a ", "UnterminatedList"), ("/a", "UnterminatedRegexp"), ("%r{a{1}", "UnterminatedRegexp"), ("`a", "UnterminatedString"), ("%x(a", "UnterminatedString"), (":\"a", "UnterminatedString"), (":'a", "UnterminatedString"), ("%s(a", "UnterminatedString"), ("\"a#{1}b", "UnterminatedString"), ("/a#{1}", "UnterminatedRegexp"), ("\"a\\\"", "UnterminatedString"), ("%(a\\)", "UnterminatedString")]);
            let more = *t.pick(&["", "x", "\n", " x\ny\n", "日"]);
            let s = format!("{}{}", s, more);
            rel = Some((s.len(), s.len()));
            m = e.into();
            text = s.into_bytes();
            c.label("string");
        }
        6 => {
            let s = *t.pick(&["%", "%q", "%Q", "%w", "%W", "%i", "%I", "%r", "%x", "%s"]);
            text = s.as_bytes().to_vec();
            m = "UnterminatedQuotedString".into();
            rel = Some((0, s.len()));
            c.label("percent literal");
        }
        7 => {
            text = b"?".to_vec();
            m = "IncompleteCharacterSyntax".into();
            rel = Some((0, 1));
            c.label("character");
        }
        8 => {
            // an embedded document starts a line
            let s = *t.pick(&["=begin", "=begin\n", "=begin x\ny\n", "=begin\n =end\n", "=begin\n=endx\n", "=begin\n日本\n=begin\n"]);
            src.extend_from_slice(if pre.ends_with(' ') || pre.ends_with('(') { b"1;\n" } else { b"" });
            c.label("embedded document");
            let b = src.len();
            src.extend_from_slice(s.as_bytes());
            c.input = src.clone();
            c.nontrivial = true;
            return match first_error(&src)? {
                Some((m, l, _)) if m == "EmbeddedDocumentMeetsEof" && l == b => Ok(()),
                x => Err(format!("expected EmbeddedDocumentMeetsEof at {} but got {:?}", b, x)),
            };
        }
        9 | 10 => {
            // control characters and bytes that are no character
            let ctl = [1u8, 2, 3, 5, 6, 7, 8, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 27, 28, 29, 30, 127][ch];
            text = vec![ctl];
            m = format!("InvalidChar {{ c: {} }}", ctl);
            rel = Some((0, 1));
            c.label("control character");
        }
        _ => {
            let s: &[&[u8]] = &[b"\xff", b"\xfe", b"\xc3", b"\xe3\x81", b"\xf0\x9f", b"\x80", b"\xbf\xbf"];
            let s = s[ch % s.len()];
            text = s.to_vec();
            m = "InvalidMultibyteChar".into();
            rel = None;
            c.label("broken character");
        }
    }
    if text[0] == b'?' && pre.is_empty() {
        m = "IncompleteCharacterSyntax".into();
    }
    src.extend_from_slice(pre.as_bytes());
    let b = src.len();
    src.extend_from_slice(&text);
    c.input = src.clone();
    c.nontrivial = true;
    match first_error(&src)? {
        None => Err(format!("no error reported; expected {} at {}", m, b)),
        Some((am, l, e)) => {
            let at = match rel {
                Some((x, y)) => (l, e) == (b + x, b + y),
                None => l >= b && l <= e && e <= src.len(),
            };
            if am != m || !at {
                return Err(format!("expected {} at {}+{:?} but got {} at {}..{}", m, b, rel, am, l, e));
            }
            Ok(())
        }
    }
}
