//! C21: regular expressions when the parser is built with the `onig` feature: which are refused, and
//! which local variables a match declares.
use super::program::{errors, general, parse, stmts, strings};
use crate::conv::conv;
use crate::gen::{Cfg, G, L};
use crate::run::{Case, Family, Prop};
use crate::tape::Tape;
use crate::tree::{diff, Mode, T, V};
use lib_ruby_parser::{DiagnosticMessage as M, ErrorLevel};
use std::collections::BTreeSet;

const NAMES: &[&str] = &["a", "b", "year", "x_1", "_z", "é", "日本", "aB"];

struct Re<'a> {
    t: &'a mut Tape,
    s: String,
    names: Vec<&'static str>,
    x: bool,
    depth: usize,
    non_ascii: bool,
}

impl<'a> Re<'a> {
    fn name(&mut self) -> &'static str {
        let n = *self.t.pick(NAMES);
        if !n.is_ascii() {
            self.non_ascii = true;
        }
        n
    }
    fn alt(&mut self) {
        self.seq();
        while self.t.chance(1, 6) {
            self.s += "|";
            self.seq();
        }
    }
    fn seq(&mut self) {
        for _ in 0..self.t.draw(4) + (self.depth == 0) as usize {
            self.item();
        }
    }
    fn item(&mut self) {
        let group = self.depth < 3;
        match self.t.weighted(&[10, if group { 6 } else { 0 }, if group { 4 } else { 0 }, 2, 2, 2, 1]) {
            1 => {
                let n = self.name();
                let (o, c) = if self.t.draw(3) == 0 { ("(?'", "'") } else { ("(?<", ">") };
                self.s += o;
                self.s += n;
                self.s += c;
                self.depth += 1;
                self.alt();
                self.depth -= 1;
                self.s += ")";
                if !self.names.contains(&n) {
                    self.names.push(n);
                }
                self.quant();
            }
            2 => {
                let o = *self.t.pick(&["(", "(?:", "(?i:", "(?>", "(?m-i:", "(?=", "(?!"]);
                self.s += o;
                self.depth += 1;
                self.alt();
                self.depth -= 1;
                self.s += ")";
                // what may be empty cannot always be repeated
                if o == "(" {
                    self.quant();
                }
            }
            3 => self.s += ["^", "$", "\\A", "\\z", "\\b", "(?#z)"][self.t.draw(6)],
            // looks like a group but is none
            4 => self.s += ["\\(?<z>", "[(?<z>]", "\\(\\?<z>", "[^(?<z>a]", "(?#(?<z>)", "[\\]\\[(?<z>]"][self.t.draw(6)],
            5 if self.x => self.s += ["#(?<z>a)\n", " ", "# ( [\n", "#)\n"][self.t.draw(4)],
            6 if !self.names.is_empty() => {
                let i = self.t.draw(self.names.len());
                self.s += "\\k<";
                self.s += self.names[i];
                self.s += ">";
            }
            _ => {
                let a = *self.t.pick(&["a", "b", ".", "\\d", "\\w", "[a-z]", "[^a]", "\\.", "é", "日", "\\u3042", "\\p{Alpha}", "\\p{Hiragana}", "\\h", "\\(", "\\)", "\\[", "\\\\", "\\x41", "\\n", "-", "'", "\"", "<", "[[:alpha:]]", "[é-ü]", "1"]);
                self.non_ascii |= !a.is_ascii() || a.contains("\\u") || a.contains("\\p");
                self.s += a;
                self.quant();
            }
        }
    }
    fn quant(&mut self) {
        if self.t.chance(1, 4) {
            self.s += ["*", "+", "?", "{1,2}", "*?", "{2}", "??"][self.t.draw(7)];
        }
    }
}

/// A regular expression literal: its text, the names of its groups where it is static, whether it is well-formed.
struct Lit {
    text: String,
    names: Option<Vec<&'static str>>,
    valid: bool,
}

fn literal(t: &mut Tape, bad: bool) -> Lit {
    let mut opts: Vec<char> = vec![];
    for c in "xim".chars() {
        if t.chance(1, 5) {
            opts.push(c);
        }
    }
    let x = opts.contains(&'x');
    let mut re = Re { t, s: String::new(), names: vec![], x, depth: 0, non_ascii: false };
    re.alt();
    let (mut s, mut names, na) = (std::mem::take(&mut re.s), std::mem::take(&mut re.names), re.non_ascii);
    let mut is_static = true;
    if bad {
        let i = t.draw(12);
        s = match i {
            0 => s + "(",
            1 => s + ")",
            2 => s + "[",
            3 => "*".to_string() + &s,
            4 => "+a".to_string() + &s,
            5 => s + "(?<>a)",
            6 => s + "[b-a]",
            7 => s + "\\k<zz>",
            8 => s + "(?<1>a)",
            9 => s + "(?z)",
            10 => s + "[]",
            _ => "(?<a>".to_string() + &s,
        };
        if s.contains("(?#") || x {
            // a comment may swallow what is wrong
            return literal_text(t, "(".into(), opts, false, None);
        }
        return literal_text(t, s, opts, false, None);
    }
    if t.chance(1, 7) {
        is_static = false;
        let p = *t.pick(&["#{x}", "#@a", "#{1}", "#{nil}"]);
        if t.draw(2) == 0 {
            s = p.to_string() + &s
        } else {
            s += p
        }
        names.clear();
    }
    if !na && t.chance(1, 8) {
        opts.push(*t.pick(&['n', 'u', 'o']));
    }
    let n = if is_static { Some(names) } else { None };
    literal_text(t, s, opts, true, n)
}

fn literal_text(t: &mut Tape, s: String, opts: Vec<char>, valid: bool, names: Option<Vec<&'static str>>) -> Lit {
    let balanced = |s: &str| s.matches('{').count() == s.matches('}').count();
    let text = match t.draw(3) {
        1 if balanced(&s) => format!("%r{{{}}}", s),
        2 if !s.contains('!') => format!("%r!{}!", s),
        _ => format!("/{}/", s),
    };
    Lit { text: text + &opts.into_iter().collect::<String>(), names, valid }
}

struct Prog<'a> {
    t: &'a mut Tape,
    s: String,
    /// Variables of each scope; false: sees those around it.
    scopes: Vec<(Vec<&'static str>, bool)>,
    /// Where names are read and whether they are variables there.
    reads: Vec<(L, bool)>,
    matches: Vec<L>,
    plain: Vec<L>,
    bad: Vec<L>,
    bad_chance: usize,
    in_def: bool,
}

impl<'a> Prog<'a> {
    fn declared(&self, n: &str) -> bool {
        for (v, closed) in self.scopes.iter().rev() {
            if v.contains(&n) {
                return true;
            }
            if *closed {
                return false;
            }
        }
        false
    }
    fn read(&mut self) {
        let n = *self.t.pick(NAMES);
        let d = self.declared(n);
        let b = self.s.len();
        self.s += n;
        self.reads.push(((b, self.s.len()), d));
        if d && self.t.chance(1, 5) {
            // an operator behind a variable, an argument behind a method
            self.s += " -1";
        }
    }
    fn lit(&mut self) -> (Lit, L) {
        let bad = self.t.chance(self.bad_chance, 10);
        let l = literal(self.t, bad);
        let b = self.s.len();
        self.s += &l.text;
        let loc = (b, self.s.len());
        if !l.valid {
            self.bad.push(loc);
        }
        (l, loc)
    }
    fn matching(&mut self) {
        let (l, loc) = self.lit();
        self.s += [" =~ ", "=~", " =~\n"][self.t.draw(3)];
        if self.t.chance(1, 3) {
            self.read()
        } else {
            self.s += ["x", "\"s\"", "x.y(1)", "$_"][self.t.draw(4)];
        }
        // the variables exist from here on
        match l.names {
            Some(n) if l.valid => {
                for n in n {
                    if !self.declared(n) {
                        self.scopes.last_mut().unwrap().0.push(n);
                    }
                }
                self.matches.push(loc);
            }
            _ => self.plain.push(loc),
        }
    }
    fn no_match(&mut self) {
        match self.t.draw(7) {
            0 => {
                self.s += "x =~ ";
                self.lit();
            }
            1 => {
                self.lit();
                self.s += ".match(x)";
            }
            2 => {
                self.lit();
                self.s += " !~ x";
            }
            3 => {
                self.s += "(";
                self.lit();
                self.s += ") =~ x";
            }
            4 => {
                self.lit();
                self.s += ".=~(x)";
            }
            5 => {
                self.s += "x(";
                self.lit();
                self.s += ")";
            }
            _ => {
                self.lit();
                self.s += " == x";
            }
        }
    }
    fn stmts(&mut self, depth: usize) {
        for i in 0..1 + self.t.draw(4) {
            if i > 0 {
                self.s += ["; ", "\n"][self.t.draw(2)];
            }
            self.stmt(depth);
        }
    }
    fn stmt(&mut self, depth: usize) {
        let n = if depth < 3 { 9 } else { 3 };
        match self.t.draw(n) {
            0 => self.matching(),
            1 => self.read(),
            2 => self.no_match(),
            3 => {
                self.s += "if ";
                self.matching();
                self.s += " then ";
                self.stmts(depth + 1);
                self.s += " end";
            }
            4 => {
                self.matching();
                self.s += [" and ", " && ", " or "][self.t.draw(3)];
                self.read();
            }
            5 => {
                self.s += ["x { ", "x(1) { ", "-> { "][self.t.draw(3)];
                self.scopes.push((vec![], false));
                self.stmts(depth + 1);
                self.scopes.pop();
                self.s += " }";
            }
            6 => {
                // no classes inside methods
                let def = self.t.draw(2) == 0;
                let was = self.in_def;
                self.in_def |= def;
                self.s += if self.in_def { "def f; " } else { "class A; " };
                self.scopes.push((vec![], true));
                self.stmts(depth + 1);
                self.scopes.pop();
                self.in_def = was;
                self.s += " end";
            }
            7 => {
                self.read();
                self.s += " if ";
                self.matching();
            }
            _ => {
                self.s += "y = (";
                self.matching();
                self.s += ")";
            }
        }
    }
}

fn captures(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let bad_chance = if t.chance(1, 4) { 3 } else { 0 };
    let mut p = Prog { t, s: String::new(), scopes: vec![(vec![], true)], reads: vec![], matches: vec![], plain: vec![], bad: vec![], bad_chance, in_def: false };
    p.stmts(0);
    let src = p.s.clone().into_bytes();
    c.input = src.clone();
    c.nontrivial = p.reads.iter().any(|r| r.1) || !p.bad.is_empty();
    let r = parse(&src)?;
    let mut refused: BTreeSet<L> = BTreeSet::new();
    for d in &r.diagnostics {
        if d.level != ErrorLevel::Error {
            continue;
        }
        match &d.message {
            M::RegexError { .. } => {
                refused.insert((d.loc.begin, d.loc.end));
            }
            m => return Err(format!("error {} at {}..{}", m.render(), d.loc.begin, d.loc.end)),
        }
    }
    let bad: BTreeSet<L> = p.bad.iter().cloned().collect();
    if let Some(l) = refused.difference(&bad).next() {
        return Err(format!("refused the regexp at {}..{}: {}", l.0, l.1, errors(&r).join("; ")));
    }
    if let Some(l) = bad.difference(&refused).next() {
        return Err(format!("accepted the regexp at {}..{}", l.0, l.1));
    }
    let Some(a) = &r.ast else { return Err("no tree".into()) };
    let a = conv(a);
    let mut lvars = BTreeSet::new();
    let mut sends = BTreeSet::new();
    let mut with = BTreeSet::new();
    let mut plain = BTreeSet::new();
    a.walk(&mut |n| match n.kind {
        "Lvar" => {
            lvars.insert(n.ex());
        }
        "MatchWithLvasgn" => {
            with.insert(n.node("re").unwrap().ex());
        }
        "Send" => {
            if let Some(l) = n.loc("selector_l") {
                if n.node("recv").is_none() {
                    sends.insert(l);
                }
            }
            if n.strval("method_name") == Some(b"=~") {
                if let Some(r) = n.node("recv") {
                    plain.insert(r.ex());
                }
            }
        }
        _ => {}
    });
    for (l, var) in &p.reads {
        let (name, is) = if *var { ("a variable", lvars.contains(l)) } else { ("a method call", sends.contains(l)) };
        if !is {
            return Err(format!("the name at {}..{} is {} but was not read as one", l.0, l.1, name));
        }
    }
    for l in &p.matches {
        if !with.contains(l) {
            return Err(format!("the match with the regexp at {}..{} declares variables but is no MatchWithLvasgn", l.0, l.1));
        }
    }
    for l in &p.plain {
        if !plain.contains(l) {
            return Err(format!("the match with the regexp at {}..{} is not a call of =~", l.0, l.1));
        }
    }
    if with.len() != p.matches.len() {
        return Err("a MatchWithLvasgn where none is due".into());
    }
    Ok(())
}

/// Code points in braces.
fn braced(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let s = format!("/{}\\u{{{:x}}}/", ["", "a", "(b)"][t.draw(3)], 0x21 + t.draw(0x2000));
    c.input = s.clone().into_bytes();
    c.nontrivial = true;
    let r = parse(s.as_bytes())?;
    match &errors(&r)[..] {
        [] => Ok(()),
        [e] if e.contains("invalid code point value") => Err(format!("a regexp with a code point in braces is refused: {}", e)),
        e => Err(e.join("; ")),
    }
}

/// Everything else is as without the feature.
fn rest(t: &mut Tape, c: &mut Case, cfg: Cfg) -> Result<(), String> {
    let p = G::new(t, cfg).program();
    c.input = p.src.clone();
    c.labels = p.labels.clone();
    let mut has = false;
    if let Some(a) = &p.ast {
        a.walk(&mut |n| has |= n.kind == "Regexp");
    }
    c.nontrivial = has;
    let r = parse(&p.src)?;
    for d in &r.diagnostics {
        if d.level == ErrorLevel::Error && !(has && matches!(d.message, M::RegexError { .. })) {
            return Err(format!("error {} at {}..{}", d.message.render(), d.loc.begin, d.loc.end));
        }
    }
    match (&p.ast, &r.ast) {
        (Some(e), Some(a)) => {
            let mut a = conv(a);
            unmatch(&mut a);
            match diff(e, &a, Mode::Struct).or_else(|| diff(e, &a, Mode::Locs)) {
                Some(d) => Err(d),
                None => Ok(()),
            }
        }
        (None, None) => Ok(()),
        _ => Err("one tree is missing".into()),
    }
}
/// A match that may declare variables, as the call it is otherwise.
fn unmatch(t: &mut T) {
    t.walk_mut(&mut |n| {
        if n.kind == "MatchWithLvasgn" {
            let f = std::mem::take(&mut n.f);
            n.kind = "Send";
            for (k, v) in f {
                match (k, v) {
                    ("re", v) => n.put("recv", v),
                    ("value", V::Node(v)) => n.put("args", V::List(vec![*v])),
                    ("operator_l", v) => n.put("selector_l", v),
                    (k, v) => n.put(k, v),
                }
            }
            n.put("method_name", V::Str(b"=~".to_vec()));
        }
    });
}
fn rest_general(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    rest(t, c, general())
}
fn rest_strings(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    rest(t, c, strings())
}
fn rest_stmts(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    rest(t, c, stmts())
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "programs with regular expressions built from a grammar of patterns, well-formed or with one thing wrong, and names read before, inside and behind the matches; generated programs of every kind; non-trivial: a name is a variable because of a match, a pattern is ill-formed, or (other families) there is a regular expression",
        assumptions: &["the parser is built with the feature onig", "patterns are limited to what Oniguruma and Ruby agree on"],
        families: vec![
            Family { name: "captures", quick: 120_000, thorough: 4_000_000, limit: 400, f: captures },
            Family { name: "braced", quick: 200, thorough: 5_000, limit: 20, f: braced },
            Family { name: "general", quick: 60_000, thorough: 2_000_000, limit: 600, f: rest_general },
            Family { name: "strings", quick: 60_000, thorough: 2_000_000, limit: 500, f: rest_strings },
            Family { name: "statements", quick: 30_000, thorough: 1_000_000, limit: 600, f: rest_stmts },
        ],
    }
}
