//! Generator of well-formed Ruby programs. It writes the source left to right and, in the same
//! pass, builds what the parser must answer: syntax tree with all locations, tokens and comments.
//! It knows Ruby's precedence, its scoping rules and where newlines matter; nothing in it comes
//! from running the parser.
use crate::tape::Tape;
use crate::tree::{T, V};
use std::collections::BTreeMap;

pub mod any;
pub mod bad;
mod call;
mod expr;
mod lit;
mod params;
mod pattern;
mod stmt;
pub mod strs;

pub type L = (usize, usize);

pub fn join(a: L, b: L) -> L {
    (a.0.min(b.0), a.1.max(b.1))
}
pub fn ojoin(a: L, b: Option<L>) -> L {
    match b {
        Some(b) => join(a, b),
        None => a,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: &'static str,
    pub val: Vec<u8>,
    pub loc: L,
}

#[derive(Clone, Debug)]
enum TokItem {
    Tok(Tok),
    /// Tokens of a here-document body.
    Heredoc(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Comment {
    pub loc: L,
    pub kind: &'static str,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Magic {
    pub kind: &'static str,
    pub key_l: L,
    pub value_l: L,
}

#[derive(Clone)]
pub struct Scope {
    pub vars: Vec<String>,
    pub dynamic: bool,
}

/// Everything that depends on where in the program we are.
#[derive(Clone)]
pub struct Env {
    pub scopes: Vec<Scope>,
    pub in_def: bool,
    pub in_class: bool,
    /// `do` would belong to an enclosing loop or command call. 1: of a command call, 2: of a loop.
    pub no_do: u8,
    /// Local variables may not be declared here (here-document bodies).
    pub no_decl: bool,
    /// return / break / next are fine as a statement here.
    pub void_ok: bool,
    /// The expression at hand may be a one-line match without a value.
    pub match_ok: bool,
    /// The enclosing method takes `...`.
    pub fwd_all: bool,
    /// The enclosing method takes an anonymous `&`.
    pub fwd_block: bool,
    /// Numbered parameters may be used in the innermost block; remembers the highest.
    pub numparam: Option<usize>,
    /// Names that may not be read (default value of the parameter being defined).
    pub cur_arg: Option<String>,
    /// break, next and redo have something to act on.
    pub in_loop: bool,
    /// retry has something to act on.
    pub in_rescue: bool,
    /// An enclosing block uses numbered parameters.
    pub numparam_taken: bool,
    /// A newline behind a label ends the statement (guards of patterns).
    pub in_kwarg: bool,
    /// Directly in the braces of a lambda the lexer takes `...` for the parameter.
    pub lambda_brace: bool,
}

pub struct Pend {
    pub id: usize,
    pub ident: String,
    pub indent: bool,
    pub squiggly: bool,
    pub interp: bool,
    pub x: bool,
    pub env: Env,
    pub beg: L,
    pub depth: usize,
}

/// What to leave out or favour.
#[derive(Clone)]
pub struct Cfg {
    pub comments: bool,
    pub heredocs: bool,
    pub fancy_ws: bool,
    pub crlf: bool,
    pub multibyte: bool,
    pub max_depth: usize,
    pub fuel: usize,
    /// Factors for the weights of the parts of the language.
    pub w: W,
    /// Kinds of ill-formed constructs to choose from, all if there are none.
    pub bad: &'static [usize],
}

#[derive(Clone)]
pub struct W {
    pub ops: usize,
    pub strings: usize,
    pub heredocs: usize,
    pub numbers: usize,
    pub vars: usize,
    pub params: usize,
    pub patterns: usize,
    pub calls: usize,
    pub stmts: usize,
    /// Comments that set options, in fortieths; more than 20 makes comments themselves frequent.
    pub magic: usize,
}

impl Default for W {
    fn default() -> Self {
        W { ops: 1, strings: 1, heredocs: 1, numbers: 1, vars: 1, params: 1, patterns: 1, calls: 1, stmts: 1, magic: 2 }
    }
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { comments: true, heredocs: true, fancy_ws: true, crlf: false, multibyte: true, max_depth: 5, fuel: 40, w: W::default(), bad: &[] }
    }
}

pub struct G<'a> {
    pub t: &'a mut Tape,
    pub cfg: Cfg,
    pub out: Vec<u8>,
    toks: Vec<TokItem>,
    pub comments: Vec<Comment>,
    pub magics: Vec<Magic>,
    pub env: Env,
    pend: Vec<Pend>,
    done: BTreeMap<usize, (T, Vec<TokItem>)>,
    next_id: usize,
    pub depth: usize,
    pub fuel: usize,
    pub labels: Vec<&'static str>,
    /// Inside the interpolation of a here-document body: no newlines there.
    pub no_nl: usize,
    /// Highest numbered parameter of each enclosing block.
    pub nummax: Vec<usize>,
    /// End of the last operator or name that stands as a method name or symbol.
    pub name_end: usize,
    /// The blank before this position may be taken back.
    soft: usize,
    /// Where a line continued without any blank begins.
    pub cont: usize,
    /// End of the last brace block behind an argument in parentheses.
    pub brace_arg_end: usize,
    /// An ill-formed construct is still to be written, and the one that was.
    pub cuts: Vec<usize>,
    pub bad_left: bool,
    pub bad: Option<bad::Bad>,
}

/// A generated program and what parsing it must give.
pub struct Program {
    pub src: Vec<u8>,
    pub ast: Option<T>,
    pub toks: Vec<Tok>,
    pub comments: Vec<Comment>,
    pub magics: Vec<Magic>,
    pub labels: Vec<&'static str>,
    /// Local variables of the top level at the end.
    pub top_vars: Vec<String>,
    /// Where statements of the top level begin on a line of their own.
    pub cuts: Vec<usize>,
}

/// Where a program names its encoding.
pub struct Header {
    pub value_l: L,
    pub head: usize,
    pub plain: bool,
}

/// A location that is not compared.
pub const ANY: L = (usize::MAX, usize::MAX);

pub fn long_names() -> Vec<String> {
    vec!["long_".repeat(60), "日".repeat(90)]
}
pub const NAMES: &[&str] = &["a", "b", "c", "foo", "bar", "x1", "_y", "été", "日本", "iff", "end_", "nil1", "doo", "selfie", "aB", "ß", "𐐨", "a𠀀", "\u{fec0}", "\u{f03f}a", "\u{e0100}", "b\u{10ffff}"];
const KEYS: &[(&str, &'static str)] = &[("coding", "Encoding"), ("encoding", "Encoding"), ("frozen_string_literal", "FrozenStringLiteral"), ("shareable_constant_value", "ShareableConstantValue"), ("warn_indent", "WarnIndent")];
pub const CONSTS: &[&str] = &["A", "B", "Foo", "Bar_1", "BAZ", "Éa", "Begin", "ENDs", "𐐀b"];

impl<'a> G<'a> {
    pub fn new(t: &'a mut Tape, cfg: Cfg) -> G<'a> {
        let fuel = cfg.fuel;
        G {
            t,
            cfg,
            out: vec![],
            toks: vec![],
            comments: vec![],
            magics: vec![],
            env: Env {
                scopes: vec![Scope { vars: vec![], dynamic: false }],
                in_def: false,
                in_class: false,
                no_do: 0,
                no_decl: false,
                void_ok: false,
                match_ok: false,
                fwd_all: false,
                fwd_block: false,
                numparam: None,
                cur_arg: None,
                in_loop: false,
                in_rescue: false,
                numparam_taken: false,
                in_kwarg: false,
                lambda_brace: false,
            },
            pend: vec![],
            done: BTreeMap::new(),
            next_id: 0,
            depth: 0,
            fuel,
            labels: vec![],
            no_nl: 0,
            nummax: vec![],
            name_end: usize::MAX,
            soft: usize::MAX,
            cont: usize::MAX,
            brace_arg_end: usize::MAX,
            cuts: vec![],
            bad_left: false,
            bad: None,
        }
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }

    pub fn pos(&self) -> usize {
        self.out.len()
    }

    // ---- emitting ----

    pub fn raw(&mut self, s: &str) -> L {
        if self.cont == self.pos() && s.starts_with('=') {
            // at the start of a line `=begin` is a comment
            self.out.push(b' ');
        }
        let b = self.pos();
        self.out.extend_from_slice(s.as_bytes());
        (b, self.pos())
    }
    pub fn raw_bytes(&mut self, s: &[u8]) -> L {
        let b = self.pos();
        self.out.extend_from_slice(s);
        (b, self.pos())
    }
    /// Emits a token whose value is its text.
    pub fn tk(&mut self, kind: &'static str, s: &str) -> L {
        self.tighten(kind, s);
        let loc = self.raw(s);
        self.push_tok(kind, s.as_bytes(), loc);
        loc
    }
    /// Emits a token with a value of its own.
    pub fn tkv(&mut self, kind: &'static str, s: &str, val: &[u8]) -> L {
        self.tighten(kind, s);
        let loc = self.raw(s);
        self.push_tok(kind, val, loc);
        loc
    }
    pub fn push_tok(&mut self, kind: &'static str, val: &[u8], loc: L) {
        self.toks.push(TokItem::Tok(Tok { kind, val: val.to_vec(), loc }));
    }

    /// Takes back a blank that was written just before, where the tokens do not run together.
    fn tighten(&mut self, kind: &'static str, s: &str) {
        let n = self.pos();
        if self.soft != n || self.out.last() != Some(&b' ') {
            return;
        }
        self.soft = usize::MAX;
        let (prev, before) = match &self.toks[..] {
            [.., TokItem::Tok(b), TokItem::Tok(p)] => (p, b.kind),
            _ => return,
        };
        if prev.loc.1 + 1 != n || self.name_end == n - 1 {
            return;
        }
        let c = s.as_bytes()[0];
        let word = self.out[n - 2].is_ascii_alphanumeric() || self.out[n - 2] == b'_';
        // values that nothing behind them runs together with
        let closed = |k: &str| matches!(k, "tRPAREN" | "tRBRACK" | "tRCURLY" | "tREGEXP_END") || matches!(k, "tIVAR" | "tCVAR" | "tGVAR" | "tNTH_REF" | "tINTEGER" | "tFLOAT");
        let ok = match prev.kind {
            "kIF" | "kUNLESS" | "kWHILE" | "kUNTIL" | "kIF_MOD" | "kUNLESS_MOD" | "kWHILE_MOD" | "kUNTIL_MOD" | "kCASE" | "kWHEN" | "kIN" | "kAND" | "kOR" | "kTHEN" | "kELSE" | "kELSIF" | "kDO" | "kDO_COND" | "kDO_BLOCK" | "kDO_LAMBDA" | "kBEGIN" | "kENSURE" | "kRESCUE_MOD" | "kRESCUE" | "kRETURN" | "kBREAK" | "kNEXT" if !matches!(before, "tDOT" | "tANDDOT" | "tCOLON2" | "tSYMBEG" | "kDEF" | "kALIAS" | "kUNDEF") => b"([\"'`@$-+*~{%/".contains(&c) || s.starts_with("::") || s.starts_with("..") || s.starts_with("<<"),
            "kCLASS" | "kMODULE" if s.starts_with("::") => true,
            "kALIAS" if c == b'$' => true,
            "tCOLON" => closed(before) && c != b':',
            "tOP_ASGN" => true,
            k => match kind {
                "kIF_MOD" | "kUNLESS_MOD" | "kWHILE_MOD" | "kUNTIL_MOD" | "kRESCUE_MOD" | "kAND" | "kOR" | "kTHEN" | "kDO" | "kDO_BLOCK" | "kDO_COND" | "kEND" | "kELSE" | "kELSIF" | "kWHEN" | "kENSURE" | "kRESCUE" | "kIN" => match k {
                    "tRPAREN" | "tRBRACK" | "tRCURLY" | "tSTRING_END" => !word,
                    // `$!if`; the name of `$-w` would go on
                    "tGVAR" => prev.loc.1 - prev.loc.0 == 2 && !word && self.out[n - 2].is_ascii(),
                    "tBACK_REF" => true,
                    "tINTEGER" | "tFLOAT" => prev.val[0].is_ascii_digit() && prev.val[0] != b'0' && self.out[n - 2].is_ascii_digit(),
                    _ => false,
                },
                "tEH" => (closed(k) || k == "tSTRING_END") && !matches!(before, "tSYMBEG" | "tDOT"),
                "tCOLON" => closed(k) && before != "tSYMBEG" && (word || b")]}".contains(&self.out[n - 2])),
                "tOP_ASGN" => matches!(k, "tIDENTIFIER" | "tIVAR" | "tCVAR" | "tGVAR" | "tCONSTANT") && word || k == "tRBRACK",
                _ => false,
            },
        };
        if ok {
            self.out.pop();
            self.label("no blank between words and brackets");
        }
    }

    // ---- white space ----

    /// At least one blank.
    pub fn sp(&mut self) {
        if self.cfg.fancy_ws && self.t.chance(1, 5000) {
            let n = self.length();
            self.raw(&" ".repeat(n));
            return;
        }
        let n = if self.cfg.fancy_ws { self.t.weighted(&[80, 4, 4, 4, 4, 1, 1]) } else { 0 };
        match n {
            1 => self.raw("  "),
            2 => self.raw("\t"),
            3 => {
                let s = *self.t.pick(&[" \x0c", "\x0c", "\x0b"]);
                self.raw(s)
            }
            5 => {
                self.label("carriage return in a line");
                self.raw(" \r ")
            }
            6 => self.raw(" \x0b"),
            4 if self.no_nl == 0 && self.cfg.fancy_ws => {
                // behind an operator it would decide how that is read
                let blanks = !self.t.chance(1, 3) || !self.out.last().map_or(false, |c| c.is_ascii_alphanumeric() || b"_)]}".contains(c));
                self.raw(if blanks { " \\" } else { "\\" });
                self.bare_newline();
                self.label("line continuation");
                if blanks {
                    self.raw(" ")
                } else {
                    self.cont = self.pos();
                    (0, 0)
                }
            }
            _ => {
                let l = self.raw(" ");
                if self.cfg.fancy_ws && self.t.chance(1, 6) {
                    self.soft = l.1;
                }
                l
            }
        };
    }
    pub fn osp(&mut self) {
        if self.t.chance(1, 4) {
            self.sp()
        }
    }
    /// Usually a blank, sometimes nothing.
    pub fn sp_or_none(&mut self) {
        if !self.t.chance(1, 5) {
            self.sp()
        }
    }
    fn newline_chars(&mut self) -> L {
        let b = self.pos();
        if self.cfg.crlf {
            self.raw("\r\n");
        } else {
            self.raw("\n");
        }
        (b, b + 1)
    }
    /// A newline and the here-document bodies it starts; nothing else.
    fn bare_newline(&mut self) -> L {
        assert!(self.no_nl == 0);
        let l = self.newline_chars();
        self.flush_heredocs();
        l
    }
    fn comment(&mut self) {
        const TEXT: &[&str] = &["# x", "#", "# if ( do {", "# \"'`", "# \\", "# é 日本", "## - * -", "#=begin", "# #{a}", "#!x", "# end", "# <<A"];
        let b = self.pos();
        if self.t.chance(self.cfg.w.magic.min(20), 40) {
            self.magic_comment();
        } else {
            let s = *self.t.pick(TEXT);
            self.raw(s);
            if self.t.chance(1, 200) {
                let n = self.length();
                self.raw(&"x".repeat(n));
            }
        }
        self.label("comment");
        // The comment runs through the end of its line.
        let nl = if self.cfg.crlf { 2 } else { 1 };
        self.comments.push(Comment { loc: (b, self.pos() + nl), kind: "Inline" });
    }
    /// An encoding named here is that of the file: on the first line (the second after `#!`), first
    /// thing on it.
    fn at_top(&self) -> bool {
        let (text, line) = match self.out.strip_prefix(b"\xef\xbb\xbf") {
            Some(r) => (r, 0),
            None => (&self.out[..], self.out.starts_with(b"#!") as usize),
        };
        let mut lines = text.split(|c| *c == b'\n');
        match lines.nth(line) {
            Some(l) => lines.next().is_none() && l.iter().all(|c| b" \t\r\x0b\x0c".contains(c)),
            None => false,
        }
    }
    /// A comment that sets an option, or one that nearly does.
    fn magic_comment(&mut self) {
        const OTHER: &[&str] = &[
            "# frozen_string_literal true",
            "# frozen_string_literal: true x",
            "# x frozen_string_literal: true",
            "# -*- warn_indent: true",
            "# warn_indent: true -*-",
            "# frozen_string_literals: true",
            "# frozen string_literal: true",
            "# frozen_string_literal:",
            "# frozen_string_literal:   ",
            "# -*- frozen_string_literal: -*-",
            "# -*- frozen_string_literal -*-",
            "# -*- ruby -*-",
            "# -*- -*-",
            "# -*-*-",
            "# -*-",
            "# warn_indent: \"true\" x",
            "# warn_indent: true; frozen_string_literal: true",
            "# warn_indent: true;",
            "# coding utf-8",
            "# vim: ts=2",
            "# foo: bar",
            "# xcoding: x",
            "# codings: x",
            "# : coding",
            "# warn indent: true",
            "# warn_indent= true",
            "# _warn_indent: true",
            "# \\warn_indent: true",
            "#[warn_indent: true]",
            "# warn_indent: true # warn_indent: true",
            "## warn_indent: true",
            "#!warn_indent: true",
        ];
        if self.t.chance(1, 4) {
            let s = *self.t.pick(OTHER);
            self.raw(s);
            self.label("nearly a magic comment");
            return;
        }
        if self.t.chance(1, 12) {
            self.raw("#");
            for _ in 0..self.t.draw(6) {
                let c = *self.t.pick(&[0xff, 0x80, b'\t', 0, 4, 0x1a, 0xc3, b' ', b'-', b'*', b'\\', b':', b'"']);
                self.raw_bytes(&[c]);
            }
            self.label("comment of odd bytes");
            return;
        }
        let top = self.at_top();
        self.label("magic comment");
        if top {
            self.label("magic comment at the top");
        }
        self.raw("#");
        if self.t.chance(1, 2) {
            self.blanks();
            for _ in 0..self.t.weighted(&[12, 1, 1]) {
                let s = *self.t.pick(&["'", "\"", ":", ";", " "]);
                self.raw(s);
            }
            self.magic_pair(top, true);
            self.blanks();
        } else {
            let s = *self.t.pick(&[" ", "", " x ", "!x ", " é: y; ", "'\"", " foo: bar ", " *- ", " -* "]);
            self.raw(s);
            self.raw("-*-");
            let n = 1 + self.t.weighted(&[4, 3, 1]);
            for i in 0..n {
                if i > 0 {
                    let s = *self.t.pick(&[";", " ; ", "; ", " ", ";;"]);
                    self.raw(s);
                } else {
                    self.blanks();
                }
                match self.t.weighted(&[6, 1, 1, 1]) {
                    0 => self.magic_pair(top, true),
                    1 => self.magic_pair(top, false),
                    2 => {
                        self.raw("ruby;");
                    }
                    _ => {
                        self.raw("a b");
                        self.raw(";");
                    }
                }
            }
            if self.t.chance(1, 4) {
                self.raw(";");
            }
            self.blanks();
            self.raw("-*-");
            let s = *self.t.pick(&["", " ", " x", " warn_indent: true", "-", " -*- "]);
            self.raw(s);
            self.label("magic comment, emacs style");
        }
    }
    fn blanks(&mut self) {
        let s = *self.t.pick(&[" ", "", "  ", "\t"]);
        self.raw(s);
    }
    /// `key: value`; with `known` the key is one that counts.
    fn magic_pair(&mut self, top: bool, known: bool) {
        let (key, kind) = if known { *self.t.pick(KEYS) } else { *self.t.pick(&[("mode", ""), ("fill-column", ""), ("codin", ""), ("frozenstringliteral", ""), ("warn__indent", ""), ("Ruby", "")]) };
        self.magic_pair_of(key, kind, top, None)
    }
    fn magic_pair_of(&mut self, key: &str, kind: &'static str, top: bool, value: Option<&[u8]>) {
        let style = self.t.weighted(&[6, 1, 1, 2]);
        let mut text = String::new();
        for c in key.chars() {
            let c = if c == '_' && style == 3 && self.t.chance(1, 2) { '-' } else { c };
            let up = match style {
                1 => true,
                2 => self.t.chance(1, 2),
                _ => false,
            };
            text.push(if up { c.to_ascii_uppercase() } else { c });
        }
        let key_l = self.raw(&text);
        self.blanks_maybe();
        self.raw(":");
        self.blanks();
        let quoted = self.t.chance(1, 3);
        if quoted {
            self.raw("\"");
        }
        let b = self.pos();
        if let Some(v) = value {
            self.raw_bytes(v);
        } else if kind == "Encoding" && top {
            let s = *self.t.pick(&["utf-8", "UTF-8", "Utf-8", "binary", "ASCII-8BIT", "ascii-8bit", "BINARY"]);
            self.raw(s);
        } else if quoted {
            let s = *self.t.pick(&["true", "", "a b", "a;b: c", "\\\"", "x\\\\", "é", "'", "\\a"]);
            self.raw(s);
        } else {
            let s = *self.t.pick(&["true", "false", "none", "literal", "experimental_everything", "é日", "utf-8", "a:b", "'x'", ":", "=", "-", "*", "\\", "koi8-r", "utf-8-unix", "1"]);
            self.raw(s);
            if self.t.chance(1, 20) {
                self.raw_bytes(b"\xff");
            }
        }
        let value_l = (b, self.pos());
        if quoted {
            self.raw("\"");
        }
        if !kind.is_empty() {
            self.magics.push(Magic { kind, key_l, value_l });
        }
    }
    fn blanks_maybe(&mut self) {
        if self.t.chance(1, 6) {
            self.blanks()
        }
    }
    /// A newline in code, perhaps after a comment, perhaps followed by empty or comment lines.
    /// Returns the location of the newline itself.
    pub fn nl(&mut self) -> L {
        if self.no_nl > 0 {
            // callers check
            panic!("newline where none may be");
        }
        let many = self.cfg.w.magic > 20;
        if self.cfg.comments && self.t.chance(if many { 3 } else { 1 }, 10) {
            // `a +# x` would make the sign a unary one
            match self.out.last() {
                Some(c) if c.is_ascii_alphanumeric() || b");:".contains(c) => self.osp(),
                _ => self.sp(),
            }
            self.comment();
        } else if self.cfg.fancy_ws && self.t.chance(1, 15) {
            self.raw(" ");
        }
        let mut l = self.bare_newline();
        // behind a label it is the first newline that counts
        let mut adjacent = !self.shorthand_last();
        for _ in 0..2 {
            let n = if !self.cfg.comments { 0 } else if many { 6 } else { 1 };
            match self.t.weighted(&[20, 1, n, n]) {
                1 => {
                    adjacent = false;
                    self.newline_chars();
                    if self.t.chance(1, 100) {
                        for _ in 0..self.length() {
                            self.newline_chars();
                        }
                    }
                }
                2 => {
                    // A line break lies behind the comment lines that directly follow it.
                    self.indentation();
                    self.comment();
                    let n = self.newline_chars();
                    if adjacent {
                        l = n;
                    }
                }
                3 => {
                    adjacent = false;
                    let b = self.pos();
                    self.raw("=begin");
                    if self.t.chance(1, 2) {
                        let s = *self.t.pick(&[" x", "\t=end", "\0", "\x04y", "\x1a", "\x0c", "\x0b"]);
                        self.raw(s);
                    }
                    self.newline_chars();
                    for _ in 0..self.t.draw(3) {
                        let s = *self.t.pick(&["text", "  =end", "if (", "=endx", "=begin", "", "# y", "\" ' `", "__END__"]);
                        self.raw(s);
                        self.newline_chars();
                    }
                    self.raw("=end");
                    if self.t.chance(1, 3) {
                        let s = *self.t.pick(&[" trailing words", "\0 x", "\x04", "\x1a)", "\t", "\x0c="]);
                        self.raw(s);
                    }
                    self.newline_chars();
                    let e = self.pos();
                    self.comments.push(Comment { loc: (b, e), kind: "Document" });
                    self.label("embedded document");
                }
                _ => break,
            }
        }
        if self.t.chance(1, 3) {
            let s = *self.t.pick(&["  ", "    ", "\t", " ", "\x0b", " \x0c"]);
            self.raw(s);
        }
        l
    }
    /// A newline before a leading dot: comment lines may stand between, empty ones may not.
    pub fn nl_plain(&mut self, comments: bool) {
        if comments && self.t.chance(1, 8) {
            self.osp_plain();
            self.comment();
        }
        self.bare_newline();
        while comments && self.t.chance(1, 8) {
            self.osp_plain();
            self.comment();
            self.newline_chars();
        }
        if self.t.chance(3, 4) {
            let s = *self.t.pick(&["  ", "    ", "\t", " ", "\x0b", "\x0c", " \t\x0b"]);
            self.raw(s);
        }
    }
    /// Between tokens where a newline means nothing.
    pub fn skipnl(&mut self) {
        if self.no_nl == 0 && self.t.chance(1, 14) {
            self.nl();
        } else {
            self.osp()
        }
    }
    /// The same, with a blank if there is no newline.
    pub fn sp_nl(&mut self) {
        if self.no_nl == 0 && self.t.chance(1, 14) {
            self.nl();
        } else {
            self.sp()
        }
    }
    /// A newline right here would be skipped, not end the statement.
    pub fn nl_skipped(&self) -> bool {
        matches!(self.toks.last(), Some(TokItem::Tok(t)) if self.name_end != t.loc.1 && matches!(t.kind, "tCOMMA" | "tSTAR" | "tDSTAR" | "tAMPER" | "tAMPER2" | "tSTAR2" | "tPOW" | "tDOT2" | "tDOT3" | "tLABEL_END"))
    }
    /// A keyword right here would begin an expression, not modify the statement.
    pub fn beg_state(&self) -> bool {
        self.nl_skipped() || matches!(self.toks.last(), Some(TokItem::Tok(t)) if t.kind == "tLABEL")
    }
    /// Before a closing bracket: perhaps a newline, which the lexer reports as a token.
    pub fn close_nl(&mut self, tok_nl: bool) {
        if self.no_nl == 0 && self.t.chance(1, 14) {
            let at = self.toks.len();
            let tok_nl = tok_nl && !self.nl_skipped();
            let l = self.nl();
            if tok_nl {
                // before any tokens of here-documents, which belong to their place
                self.toks.insert(at, TokItem::Tok(Tok { kind: "tNL", val: b"\n".to_vec(), loc: l }));
            }
        } else {
            self.osp();
        }
    }
    /// Statement terminator. Returns the location of the (first) terminator token.
    pub fn term(&mut self) -> L {
        if self.no_nl > 0 || self.t.chance(1, 5) || self.nl_skipped() {
            self.osp();
            let l = self.tk("tSEMI", ";");
            if self.no_nl == 0 && self.t.chance(1, 8) {
                self.nl();
            } else {
                self.sp_or_none();
                if self.t.chance(1, 15) {
                    self.tk("tSEMI", ";");
                }
            }
            l
        } else {
            let l = self.nl();
            self.push_tok("tNL", b"\n", l);
            if self.t.chance(1, 30) {
                self.tk("tSEMI", ";");
            }
            l
        }
    }

    // ---- here-documents ----

    pub fn defer_heredoc(&mut self, p: Pend) -> T {
        let id = p.id;
        let beg = p.beg;
        let kind = if p.x { "XHeredoc" } else { "Heredoc" };
        self.toks.push(TokItem::Heredoc(id));
        self.pend.push(p);
        T::new(kind).num("@id", id as u64).e(beg)
    }
    pub fn pending(&self) -> bool {
        !self.pend.is_empty()
    }
    fn flush_heredocs(&mut self) {
        while !self.pend.is_empty() {
            let list = std::mem::take(&mut self.pend);
            for p in list {
                let id = p.id;
                let toks = std::mem::take(&mut self.toks);
                let env = std::mem::replace(&mut self.env, p.env.clone());
                self.env.no_decl = true;
                self.env.numparam = None;
                self.env.void_ok = false;
                self.env.no_do = 0;
                let depth = self.depth;
                self.depth = depth.max(p.depth) + 1;
                self.no_nl += 1;
                let t = self.heredoc_body(&p);
                self.no_nl -= 1;
                self.depth = depth;
                self.env = env;
                let body = std::mem::replace(&mut self.toks, toks);
                self.done.insert(id, (t, body));
            }
        }
    }
    pub fn new_id(&mut self) -> usize {
        self.next_id += 1;
        self.next_id
    }

    // ---- scopes ----

    pub fn is_declared(&self, name: &str) -> bool {
        for s in self.env.scopes.iter().rev() {
            if s.vars.iter().any(|v| v == name) {
                return true;
            }
            if !s.dynamic {
                return false;
            }
        }
        false
    }
    pub fn declare(&mut self, name: &str) {
        if !self.is_declared(name) {
            self.env.scopes.last_mut().unwrap().vars.push(name.to_string());
        }
    }
    /// Declares in the innermost scope, as parameters do.
    pub fn declare_here(&mut self, name: &str) {
        self.env.scopes.last_mut().unwrap().vars.push(name.to_string());
    }
    pub fn visible(&self) -> Vec<String> {
        let mut v = vec![];
        for s in self.env.scopes.iter().rev() {
            v.extend(s.vars.iter().cloned());
            if !s.dynamic {
                break;
            }
        }
        v
    }
    /// A count that narrow integers and small buffers cannot hold.
    pub fn size(&mut self) -> usize {
        self.label("something long");
        *self.t.pick(&[40, 70, 130, 200, 260, 300, 520])
    }
    /// The same for plain text.
    pub fn length(&mut self) -> usize {
        let n = self.size();
        if self.t.chance(1, 30) {
            n + 65_500
        } else {
            n
        }
    }
    pub fn name(&mut self) -> String {
        if self.t.chance(1, 400) {
            self.label("something long");
            let i = self.t.draw(if self.cfg.multibyte { 2 } else { 1 });
            return long_names().swap_remove(i);
        }
        let n = if self.cfg.multibyte { NAMES.len() } else { 7 };
        NAMES[self.t.draw(n)].to_string()
    }
    pub fn const_name(&mut self) -> String {
        let n = if self.cfg.multibyte { CONSTS.len() } else { 5 };
        CONSTS[self.t.draw(n)].to_string()
    }

    // ---- size ----

    pub fn spend(&mut self) -> bool {
        if self.fuel == 0 || self.depth >= self.cfg.max_depth || self.t.exhausted() {
            return false;
        }
        self.fuel -= 1;
        true
    }

    // ---- the result ----

    fn resolve_toks(&self, items: &[TokItem], out: &mut Vec<Tok>) {
        for i in items {
            match i {
                TokItem::Tok(t) => out.push(t.clone()),
                TokItem::Heredoc(id) => self.resolve_toks(&self.done[id].1, out),
            }
        }
    }
    pub fn resolve(&self, t: &mut T) {
        if let Some(V::Num(id)) = t.get("@id") {
            let id = *id as usize;
            *t = self.done[&id].0.clone();
        }
        for (_, v) in &mut t.f {
            match v {
                V::Node(n) => self.resolve(n),
                V::List(l) => l.iter_mut().for_each(|n| self.resolve(n)),
                _ => {}
            }
        }
    }
    pub fn finish(mut self, ast: Option<T>) -> Program {
        if self.pending() {
            // The last line has here-documents: it needs its newline.
            let b = self.pos();
            self.newline_chars();
            if !self.nl_skipped() {
                self.push_tok("tNL", b"\n", (b, b + 1));
            }
            self.flush_heredocs();
            if self.t.chance(1, 3) {
                // the terminator ends the file
                let n = if self.out.ends_with(b"\r\n") { 2 } else { 1 };
                let n = self.out.len() - n;
                // (a terminator without a name is an empty line, which needs its newline)
                if self.out[..n].last() != Some(&b'\n') {
                    self.out.truncate(n);
                }
                self.label("here-document ends the file");
            }
        }
        let mut ast = ast;
        if let Some(t) = &mut ast {
            self.resolve(t);
        }
        let mut toks = vec![];
        self.resolve_toks(&self.toks, &mut toks);
        self.comments.sort_by_key(|c| c.loc);
        self.magics.sort_by_key(|m| m.key_l);
        Program { src: self.out, ast, toks, comments: self.comments, magics: self.magics, labels: self.labels, top_vars: self.env.scopes.swap_remove(0).vars, cuts: self.cuts }
    }

    /// A program that names its encoding at the top. The text up to `head` is to stay when it is
    /// encoded.
    pub fn encoded_program(mut self, name: &[u8]) -> (Program, Header) {
        if self.t.chance(1, 8) {
            self.out.extend_from_slice(b"\xef\xbb\xbf");
            self.label("byte order mark");
        } else if self.t.chance(1, 4) {
            self.raw("#!/usr/bin/env ruby");
            if self.t.chance(1, 4) {
                // here it names nothing
                self.raw(" -*-");
                self.blanks();
                self.magic_pair_of("coding", "Encoding", false, None);
                self.raw(" -*-");
            }
            self.newline_chars();
            let e = self.pos();
            self.comments.push(Comment { loc: (0, e), kind: "Inline" });
            self.label("shebang");
        }
        self.indentation();
        let b = self.pos();
        self.raw("#");
        let key = *self.t.pick(&["coding", "encoding"]);
        let head;
        if self.t.chance(1, 2) {
            self.blanks();
            self.magic_pair_of(key, "Encoding", true, Some(name));
            head = self.pos();
            self.blanks();
        } else {
            self.raw(" -*-");
            self.blanks();
            if self.t.chance(1, 4) {
                let (k, kind) = *self.t.pick(&KEYS[2..]);
                self.magic_pair_of(k, kind, true, None);
                self.raw("; ");
            }
            self.magic_pair_of(key, "Encoding", true, Some(name));
            if self.t.chance(1, 4) {
                self.raw("; ");
                let (k, kind) = *self.t.pick(&KEYS[2..]);
                self.magic_pair_of(k, kind, true, None);
            }
            self.blanks();
            self.raw("-*-");
            head = self.pos();
            let s = *self.t.pick(&["", " x", " é", " 日本 -", " foo: bar"]);
            self.raw(s);
            self.label("emacs style");
        }
        let value_l = self.magics.iter().rev().find(|m| m.kind == "Encoding").unwrap().value_l;
        let plain = self.out[head - 1] != b'-' || self.out[head - 2] != b'*';
        self.newline_chars();
        let e = self.pos();
        self.comments.push(Comment { loc: (b, e), kind: "Inline" });
        let h = Header { value_l, head, plain };
        (self.program_rest(), h)
    }
    /// A whole program.
    pub fn program(mut self) -> Program {
        if self.t.chance(1, 60) {
            self.out.extend_from_slice(b"\xef\xbb\xbf");
            self.label("byte order mark");
        }
        if self.cfg.comments && self.t.chance(if self.cfg.w.magic > 20 { 10 } else { 1 }, 20) {
            for _ in 0..1 + self.t.weighted(&[2, 1]) {
                self.indentation();
                self.comment();
                self.newline_chars();
            }
        }
        self.program_rest()
    }
    fn program_rest(mut self) -> Program {
        let ast = self.top_stmts();
        if self.t.chance(1, 2) && !self.pending() {
            let had = ast.is_some() && !self.nl_skipped();
            let mut l = self.nl();
            if self.cfg.comments && self.t.chance(1, 12) {
                // a comment with no newline behind it
                self.osp_plain();
                self.comment();
                self.comments.last_mut().unwrap().loc.1 = self.pos();
                self.label("comment at the end");
            }
            if self.out.last() != Some(&b'\n') {
                l = ANY;
            }
            if had {
                self.push_tok("tNL", b"\n", l);
            }
        }
        if self.t.chance(1, 40) && !self.pending() {
            if self.out.last().map_or(false, |c| *c == b'\n') {
                self.raw("__END__");
                if self.t.chance(1, 2) {
                    self.newline_chars();
                    self.raw(")) end \" not ruby \x00 %w(");
                }
                self.label("__END__");
            }
        } else if self.t.chance(1, 40) && self.out.last() == Some(&b'\n') && !self.pending() {
            // the program ends at any of these
            let c = *self.t.pick(&[0u8, 4, 26]);
            self.raw_bytes(&[c]);
            self.raw("x ) end \" = \n (");
            self.label("__END__");
            self.label("control character that ends the program");
        }
        self.finish(ast)
    }
}

/// All locations of a tree shifted by `d`.
pub fn shift(t: &mut T, d: usize) {
    t.walk_mut(&mut |n| {
        for (_, v) in &mut n.f {
            if let V::Loc(l) = v {
                *l = (l.0 + d, l.1 + d);
            }
        }
    });
}
