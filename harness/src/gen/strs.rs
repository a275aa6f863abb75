//! Strings, symbols, regular expressions, word arrays, characters and here-documents. The value of
//! every piece is computed here from Ruby's rules for escapes.
use super::expr::X;
use super::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Sort {
    Str,
    /// Content must be valid UTF-8.
    Sym,
    Regexp,
    Word,
    Heredoc,
}

/// Delimiters and rules of a literal.
#[derive(Clone, Copy)]
pub struct D {
    pub open: Option<u8>,
    pub close: u8,
    pub expand: bool,
    pub sort: Sort,
}

/// Content of a literal while it is written.
pub struct Lit {
    pub parts: Vec<T>,
    val: Vec<u8>,
    start: usize,
    /// The next character may not continue the last piece.
    sep: bool,
}

fn utf8(c: u32) -> Vec<u8> {
    char::from_u32(c).unwrap().to_string().into_bytes()
}

/// Pieces of plain text.
const TEXT: &[&str] = &[
    "a", "b", "foo", "x1", "-", "=", ";", ",", ".", ":", "?", "&", "^", "*", "+", "~", "_", "1", "'", "\"", "`", "(", ")", "[", "]", "{", "}", "<", ">", "|", "!", "/", "%", "é", "日本", "😀", "@", "$", "\u{b}", "\u{10ffff}", "\u{e0100}",
];
const SPACED: &[&str] = &[" ", "  ", "\t", "if ", " end ", "# ", "a b", "=begin", " << ", " =end"];
const RE: &[&str] = &[
    "a", "b+", "c*", "[a-z]", "(?:x)", "(y)", "^", "$", ".", "\\d", "\\n", "\\.", "é", "日", "x{2}", "\\u00e9", "\\u{41 42}", "\\u{41\t42}", "\\x41", "\\101", "\\\\", "|", "\\(", "\\)", "\\s", "\\w", "(?=z)", "\\z", "[^b]", "-", "\\#", "\\$", "\\?", "\\é", "\\1", "'", "\"", "\\]", "\\t",
];

impl<'a> G<'a> {
    fn lit(&mut self) -> Lit {
        Lit { parts: vec![], val: vec![], start: self.pos(), sep: false }
    }
    /// Ends a run of text.
    fn lit_flush(&mut self, l: &mut Lit) {
        let loc = (l.start, self.pos());
        if loc.1 > loc.0 {
            let v = std::mem::take(&mut l.val);
            self.push_tok("tSTRING_CONTENT", &v, loc);
            l.parts.push(T::new("Str").s("value", v).e(loc));
        }
        l.start = self.pos();
    }

    fn put(&mut self, l: &mut Lit, src: &[u8], val: &[u8]) {
        if l.sep && matches!(src.first(), Some(b' ' | b'\t')) {
            l.sep = false;
        }
        if l.sep {
            // keeps `#@a` or `\1` apart from what follows
            let s: &[u8] = b"~";
            self.raw_bytes(s);
            l.val.extend_from_slice(s);
            l.sep = false;
        }
        self.raw_bytes(src);
        l.val.extend_from_slice(val);
    }

    fn newline_ok(&self, d: D) -> bool {
        self.no_nl == 0 && !self.pending() && d.sort != Sort::Heredoc
    }

    /// One piece of content.
    fn piece(&mut self, d: D, l: &mut Lit) {
        if d.sort == Sort::Regexp {
            return self.piece_re(d, l);
        }
        if self.t.chance(1, 400) {
            let n = self.length();
            let s = if self.cfg.multibyte && self.t.chance(1, 2) { "é" } else { "w" }.repeat(n);
            return self.put(l, s.as_bytes(), s.as_bytes());
        }
        let esc = if d.expand { 6 } else { 2 };
        let interp = if d.expand && self.depth < self.cfg.max_depth + 1 { 3 } else { 0 };
        match self.t.weighted(&[12, 3, esc, interp, if d.expand { 1 } else { 0 }, 1, 1]) {
            1 if d.sort != Sort::Word => {
                let s = *self.t.pick(SPACED);
                if self.fits(d, s) {
                    self.put(l, s.as_bytes(), s.as_bytes());
                    l.sep = s.ends_with('#');
                }
            }
            2 => self.escape(d, l),
            3 => self.interpolation(l),
            4 => self.dvar(l),
            5 if d.open.is_some() => {
                // balanced delimiters
                let s = [d.open.unwrap(), b'a', d.close];
                self.put(l, &s, &s);
                self.label("nested delimiters");
            }
            6 if d.sort != Sort::Word && self.newline_ok(d) => {
                if l.sep {
                    self.put(l, b"", b"");
                }
                self.newline_chars();
                l.val.push(b'\n');
                self.label("newline in a literal");
            }
            _ => {
                let s = match self.t.draw(24) {
                    // what would be an interpolation elsewhere
                    0 if d.expand => *self.t.pick(&["#$%", "#$(", "#@1", "#@@1", "#@-", "#$-(", "#@", "#@@", "#a", "#$)", "#(", "#[", "#@@-", "#$-%"]),
                    0 => *self.t.pick(&["#{a}", "#@a", "#@@a", "#$a", "#$1", "#{", "#{}", "#$!", "#$-w"]),
                    _ => *self.t.pick(TEXT),
                };
                if self.fits(d, s) && (self.cfg.multibyte || s.is_ascii()) && !(d.sort == Sort::Word && s == "\u{b}") {
                    if d.expand && (s.starts_with("#$") || s.starts_with("#@")) {
                        // the content is cut here, as it is for a variable
                        if l.sep {
                            self.put(l, b"", b"");
                        }
                        self.lit_flush(l);
                        self.label("a `#` that begins no variable");
                    }
                    self.put(l, s.as_bytes(), s.as_bytes());
                    l.sep = d.expand && s.ends_with('@');
                } else {
                    self.put(l, b"w", b"w");
                }
            }
        }
    }
    fn fits(&self, d: D, s: &str) -> bool {
        s.bytes().all(|c| c != d.close && Some(c) != d.open)
    }

    fn piece_re(&mut self, d: D, l: &mut Lit) {
        let deep = self.depth >= self.cfg.max_depth + 1;
        match self.t.weighted(&[14, if deep { 0 } else { 2 }, 1, 2, 2, 1]) {
            1 => self.interpolation(l),
            2 => self.dvar(l),
            3 => {
                // the escaped terminator loses its backslash unless it means something in a regexp
                let c = d.close;
                let meta = b"$*+.?^|)]}>".contains(&c);
                if d.close == b'<' || d.close == b'[' {
                    return;
                }
                let v = if meta { vec![b'\\', c] } else { vec![c] };
                self.put(l, &[b'\\', c], &v);
                self.label("escaped delimiter");
            }
            4 => {
                let (s, v) = self.ctrl_meta(d, false);
                let v = format!("\\x{:02X}", v);
                self.put(l, s.as_bytes(), v.as_bytes());
                self.label("control escape in a regexp");
            }
            5 if self.newline_ok(d) => {
                if l.sep {
                    self.put(l, b"", b"");
                }
                if self.t.chance(1, 2) {
                    self.raw("\\");
                    self.newline_chars();
                } else {
                    self.newline_chars();
                    l.val.push(b'\n');
                }
            }
            _ => {
                let s = *self.t.pick(RE);
                let balanced = d.open.is_none() || !s.contains('\\');
                if (self.fits(d, s) || (d.open.is_some() && balanced && s.len() > 2 && !self.fits(d, s) && s.bytes().filter(|c| Some(*c) == d.open).count() == s.bytes().filter(|c| *c == d.close).count())) && (self.cfg.multibyte || s.is_ascii()) {
                    self.put(l, s.as_bytes(), s.as_bytes());
                    if s == "$" {
                        // `#$` would be an interpolated variable; `$` alone is not
                    }
                } else {
                    self.put(l, b"w", b"w");
                }
            }
        }
    }

    /// A control or meta escape, or both, and its byte.
    pub fn ctrl_meta(&mut self, d: D, ascii: bool) -> (String, u8) {
        let mut s = String::new();
        let control = |g: &mut Self| if g.t.chance(1, 2) { "\\C-" } else { "\\c" };
        let (ctrl, meta) = match self.t.draw(if ascii { 1 } else { 4 }) {
            0 => {
                s += control(self);
                (true, false)
            }
            1 => {
                s += "\\M-";
                (false, true)
            }
            2 => {
                s += "\\M-";
                s += control(self);
                (true, true)
            }
            _ => {
                s += control(self);
                s += "\\M-";
                (true, true)
            }
        };
        let inner_meta = s.ends_with("\\M-");
        let v = match self.t.draw(4) {
            0 => {
                const E: &[(&str, u8)] = &[("\\n", b'\n'), ("\\t", b'\t'), ("\\s", b' '), ("\\r", b'\r'), ("\\e", 0x1b), ("\\a", 7), ("\\b", 8), ("\\v", 0x0b), ("\\f", 0x0c), ("\\\\", b'\\'), ("\\q", b'q'), ("\\101", b'A'), ("\\x41", b'A'), ("\\x7f", 0x7f), ("\\177", 0x7f), ("\\?", b'?'), ("\\8", b'8')];
                let (e, v) = *self.t.pick(E);
                if e.bytes().any(|c| c == d.close || Some(c) == d.open) {
                    s += "\\n";
                    b'\n'
                } else {
                    s += e;
                    v
                }
            }
            _ => {
                let c = *self.t.pick(b"aZ@?[1!~_=;?{");
                let c = if c == d.close || Some(c) == d.open { b'a' } else { c };
                s.push(c as char);
                if c == b'?' && ctrl && !inner_meta {
                    // delete
                    return (s, if meta { 0xff } else { 0x7f });
                }
                c
            }
        };
        let v = if ctrl { v & 0x9f } else { v };
        (s, if meta { v | 0x80 } else { v })
    }

    fn escape(&mut self, d: D, l: &mut Lit) {
        self.label("escape");
        if !d.expand {
            match self.t.draw(5) {
                4 if self.newline_ok(d) && d.sort != Sort::Word => {
                    // no line continuation here
                    if l.sep {
                        self.put(l, b"", b"");
                    }
                    self.raw("\\");
                    self.newline_chars();
                    l.val.extend_from_slice(b"\\\n");
                    self.label("backslash and newline in a raw string");
                }
                4 if self.newline_ok(d) => {
                    if l.sep {
                        self.put(l, b"", b"");
                    }
                    self.raw("\\");
                    self.newline_chars();
                    l.val.push(b'\n');
                    self.label("escaped newline in a word");
                }
                0 if d.sort == Sort::Heredoc => self.put(l, b"\\\\", b"\\\\"),
                0 => self.put(l, b"\\\\", b"\\"),
                1 if d.sort != Sort::Heredoc => {
                    let c = if d.open.is_some() && self.t.chance(1, 2) { d.open.unwrap() } else { d.close };
                    self.put(l, &[b'\\', c], &[c]);
                }
                2 if d.sort == Sort::Word => self.put(l, b"\\ ", b" "),
                3 => self.put(l, "\\é".as_bytes(), "\\é".as_bytes()),
                _ => self.put(l, b"\\n", b"\\n"),
            }
            return;
        }
        let ascii = d.sort == Sort::Sym;
        match self.t.weighted(&[8, 3, 3, 4, 3, 1, 1, 1]) {
            0 => {
                const E: &[(&str, &[u8])] = &[
                    ("\\n", b"\n"), ("\\t", b"\t"), ("\\s", b" "), ("\\r", b"\r"), ("\\e", b"\x1b"), ("\\a", b"\x07"), ("\\b", b"\x08"),
                    ("\\v", b"\x0b"), ("\\f", b"\x0c"), ("\\\\", b"\\"), ("\\#", b"#"), ("\\q", b"q"), ("\\\"", b"\""), ("\\'", b"'"),
                    ("\\é", "é".as_bytes()), ("\\8", b"8"), ("\\9", b"9"), ("\\A", b"A"), ("\\{", b"{"), ("\\-", b"-"), ("\\日", "日".as_bytes()),
                ];
                let (s, v) = *self.t.pick(E);
                self.put(l, s.as_bytes(), v);
                // `\#` before `{` would still be just text, but `#` before it would not
            }
            1 => {
                let n = self.t.range(1, 3);
                let max = if ascii { 0o177 } else if self.t.chance(1, 6) { 0o777 } else { 0o377 };
                let v = self.t.range(if ascii { 1 } else { 0 }, max);
                let s = match n {
                    1 => format!("\\{:o}", v % 8),
                    2 => format!("\\{:02o}", v % 64),
                    _ => format!("\\{:03o}", v),
                };
                let v = match n {
                    1 => v % 8,
                    2 => v % 64,
                    _ => v,
                };
                self.put(l, s.as_bytes(), &[v as u8]);
                l.sep = n < 3;
            }
            2 => {
                let two = self.t.chance(2, 3);
                let v = self.t.draw(if !two { 16 } else if ascii { 128 } else { 256 });
                let s = if two {
                    if self.t.chance(1, 2) {
                        format!("\\x{:02x}", v)
                    } else {
                        format!("\\x{:02X}", v)
                    }
                } else {
                    format!("\\x{:x}", v)
                };
                self.put(l, s.as_bytes(), &[v as u8]);
                l.sep = !two;
            }
            3 => {
                let cps: &[u32] = &[0x41, 0xe9, 0x65e5, 0x0, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0xd7ff, 0xe000];
                if self.t.chance(1, 2) {
                    let c = *self.t.pick(cps);
                    self.put(l, format!("\\u{:04x}", c).as_bytes(), &utf8(c));
                } else {
                    let n = self.t.range(1, 3);
                    let mut s = String::from("\\u{");
                    if self.t.chance(1, 8) {
                        s += self.t.pick(&[" ", "  ", "\t ", " \x0b", "   "]);
                    }
                    let mut v = vec![];
                    for i in 0..n {
                        if i > 0 {
                            s += ["  ", "\t", "\x0c", " ", " ", " ", " "][self.t.draw(7)];
                        }
                        let c = if self.t.chance(1, 3) { *self.t.pick(&[0x1f600u32, 0x10ffff, 0x10000]) } else { *self.t.pick(cps) };
                        s += &format!("{:x}", c);
                        v.extend(utf8(c));
                    }
                    if self.t.chance(1, 8) {
                        s += self.t.pick(&[" ", "  ", "\t"]);
                    }
                    s.push('}');
                    self.put(l, s.as_bytes(), &v);
                }
                self.label("unicode escape");
            }
            4 => {
                let (s, v) = self.ctrl_meta(d, ascii);
                self.put(l, s.as_bytes(), &[v]);
                self.label("control or meta escape");
            }
            5 if self.newline_ok(d) && d.sort != Sort::Word => {
                // line continuation
                if l.sep {
                    self.put(l, b"", b"");
                }
                self.raw("\\");
                self.newline_chars();
                self.label("line continuation in a literal");
            }
            6 if d.sort != Sort::Heredoc => {
                let c = if d.open.is_some() && self.t.chance(1, 2) { d.open.unwrap() } else { d.close };
                self.put(l, &[b'\\', c], &[c]);
                self.label("escaped delimiter");
            }
            7 if d.sort == Sort::Word => self.put(l, b"\\ ", b" "),
            5 if d.sort == Sort::Word && self.newline_ok(d) => {
                if l.sep {
                    self.put(l, b"", b"");
                }
                self.raw("\\");
                self.newline_chars();
                l.val.push(b'\n');
                self.label("escaped newline in a word");
            }
            _ => self.put(l, b"\\\\", b"\\"),
        }
    }

    pub fn interpolation(&mut self, l: &mut Lit) {
        l.sep = false;
        self.lit_flush(l);
        self.label("interpolation");
        let b = self.tk("tSTRING_DBEG", "#{");
        let nl = self.no_nl;
        if self.pending() || !self.t.chance(1, 6) {
            self.no_nl += 1;
        }
        let void = std::mem::replace(&mut self.env.void_ok, false);
        self.depth += 1;
        self.skipnl();
        let body = self.in_brackets(|g| g.stmts(b'('));
        if body.is_some() {
            self.close_nl(true);
        }
        self.depth -= 1;
        self.env.void_ok = void;
        self.no_nl = nl;
        let e = self.tk("tSTRING_DEND", "}");
        l.parts.push(call::begin_node(b, body, e));
        l.start = self.pos();
    }

    fn dvar(&mut self, l: &mut Lit) {
        l.sep = false;
        self.lit_flush(l);
        self.label("interpolated variable");
        self.tk("tSTRING_DVAR", "#");
        let t = match self.t.draw(4) {
            0 => self.ivar(),
            1 => self.cvar(),
            2 => {
                let n = self.gvar_name();
                let l = self.tk("tGVAR", n);
                T::new("Gvar").s("name", n).e(l)
            }
            _ => self.backref(),
        };
        l.parts.push(t);
        l.start = self.pos();
        l.sep = true;
    }

    fn content(&mut self, d: D) -> Vec<T> {
        let mut l = self.lit();
        let n = if self.depth >= self.cfg.max_depth { self.t.draw(3) } else { self.t.weighted(&[2, 6, 4, 3, 2, 1]) };
        for _ in 0..n {
            self.piece(d, &mut l);
        }
        self.lit_flush(&mut l);
        l.parts
    }

    /// A percent literal's opening, as text behind `%x`, and its delimiters.
    fn delims(&mut self) -> (u8, Option<u8>, u8) {
        *self.t.pick(&[(b'(', Some(b'('), b')'), (b'[', Some(b'['), b']'), (b'{', Some(b'{'), b'}'), (b'<', Some(b'<'), b'>'), (b'|', None, b'|'), (b'!', None, b'!'), (b'/', None, b'/'), (b',', None, b','), (b';', None, b';'), (b':', None, b':'), (b'^', None, b'^'), (b'.', None, b'.'), (b'*', None, b'*'), (b'"', None, b'"'), (b'\'', None, b'\''), (b'?', None, b'?'), (b'&', None, b'&'), (b'$', None, b'$'), (b'@', None, b'@'), (b'-', None, b'-'), (b'+', None, b'+'), (b'`', None, b'`')])
    }

    // ---- the literals ----

    pub fn simple_string(&mut self) -> T {
        let (q, k) = *self.t.pick(&[("\"", true), ("'", false)]);
        let b = self.tk("tSTRING_BEG", q);
        let s = *self.t.pick(&["a", "", "foo bar", "é", "1"]);
        if !s.is_empty() {
            self.tk("tSTRING_CONTENT", s);
        }
        let e = self.tk("tSTRING_END", q);
        let _ = k;
        T::new("Str").s("value", s).l("begin_l", b).l("end_l", e).e(join(b, e))
    }

    fn str_node(&mut self, parts: Vec<T>, b: L, e: L) -> T {
        let l = join(b, e);
        match parts.len() {
            0 => T::new("Str").s("value", "").l("begin_l", b).l("end_l", e).e(l),
            1 if parts[0].kind == "Str" => {
                let v = parts[0].strval("value").unwrap().to_vec();
                T::new("Str").s("value", v).l("begin_l", b).l("end_l", e).e(l)
            }
            _ => T::new("Dstr").li("parts", parts).l("begin_l", b).l("end_l", e).e(l),
        }
    }
    fn sym_node(&mut self, parts: Vec<T>, b: L, e: L) -> T {
        let l = join(b, e);
        if parts.len() == 1 && parts[0].kind == "Str" {
            let v = parts[0].strval("value").unwrap().to_vec();
            return T::new("Sym").s("name", v).l("begin_l", b).l("end_l", e).e(l);
        }
        T::new("Dsym").li("parts", parts).l("begin_l", b).l("end_l", e).e(l)
    }

    fn quoted(&mut self, dq: bool) -> T {
        let q = if dq { "\"" } else { "'" };
        let b = self.tk("tSTRING_BEG", q);
        let parts = self.content(D { open: None, close: q.as_bytes()[0], expand: dq, sort: Sort::Str });
        let e = self.tk("tSTRING_END", q);
        self.str_node(parts, b, e)
    }

    /// `"key":`, without its value. The node's location ends before the colon.
    pub fn quoted_label(&mut self) -> T {
        let dq = self.t.chance(1, 2);
        let q = if dq { "\"" } else { "'" };
        let b = self.tk("tSTRING_BEG", q);
        let parts = self.content(D { open: None, close: q.as_bytes()[0], expand: dq, sort: Sort::Sym });
        let e = self.tk("tLABEL_END", &format!("{}:", q));
        self.label("quoted label");
        self.sym_node(parts, b, (e.0, e.0 + 1))
    }

    /// `:"sym"`
    pub fn quoted_symbol(&mut self) -> T {
        let dq = self.t.chance(1, 2);
        let q = if dq { "\"" } else { "'" };
        let b = self.tk("tSYMBEG", &format!(":{}", q));
        let parts = self.content(D { open: None, close: q.as_bytes()[0], expand: dq, sort: Sort::Sym });
        let e = self.tk("tSTRING_END", q);
        self.label("quoted symbol");
        self.sym_node(parts, b, e)
    }
    /// `%s(sym)`
    pub fn percent_symbol(&mut self) -> T {
        let (o, open, close) = self.delims();
        let b = self.tk("tSYMBEG", &format!("%s{}", o as char));
        let parts = self.content(D { open, close, expand: false, sort: Sort::Sym });
        let e = self.tk("tSTRING_END", &(close as char).to_string());
        self.label("%s symbol");
        self.sym_node(parts, b, e)
    }

    pub fn string_like(&mut self, x: X) -> T {
        let hd = if self.cfg.heredocs && self.no_nl == 0 { 4 * self.cfg.w.heredocs } else { 0 };
        match self.t.weighted(&[8, 4, 3, 2, 3, 1, 4, 3, 3, 3, 2, hd, 2]) {
            0 => self.quoted(true),
            1 => self.quoted(false),
            2 => {
                // %q %Q %
                let (p, ex) = *self.t.pick(&[("q", false), ("Q", true), ("", true)]);
                let (o, open, close) = self.delims();
                let b = self.tk("tSTRING_BEG", &format!("%{}{}", p, o as char));
                let parts = self.content(D { open, close, expand: ex, sort: Sort::Str });
                let e = self.tk("tSTRING_END", &(close as char).to_string());
                self.label("% string");
                self.str_node(parts, b, e)
            }
            3 => {
                let b;
                let (open, close);
                if self.t.chance(1, 2) {
                    b = self.tk("tXSTRING_BEG", "`");
                    open = None;
                    close = b'`';
                } else {
                    let d = self.delims();
                    b = self.tk("tXSTRING_BEG", &format!("%x{}", d.0 as char));
                    open = d.1;
                    close = d.2;
                }
                let parts = self.content(D { open, close, expand: true, sort: Sort::Str });
                let e = self.tk("tSTRING_END", &(close as char).to_string());
                self.label("command string");
                T::new("Xstr").li("parts", parts).l("begin_l", b).l("end_l", e).e(join(b, e))
            }
            4 => self.quoted_symbol(),
            5 => self.percent_symbol(),
            6 => self.regexp(x),
            7 => self.words("%w", "tQWORDS_BEG", false, "Str"),
            8 => self.words("%W", "tWORDS_BEG", true, "Str"),
            9 => {
                if self.t.chance(1, 2) {
                    self.words("%i", "tQSYMBOLS_BEG", false, "Sym")
                } else {
                    self.words("%I", "tSYMBOLS_BEG", true, "Sym")
                }
            }
            10 => self.character(),
            11 => self.heredoc(),
            _ => {
                // adjacent literals
                let mut v = vec![self.quoted(true)];
                for _ in 0..self.t.range(1, 2) {
                    self.sp();
                    let dq = self.t.chance(1, 2);
                    v.push(self.quoted(dq));
                }
                let e = join(v[0].ex(), v.last().unwrap().ex());
                self.label("adjacent strings");
                T::new("Dstr").li("parts", v).e(e)
            }
        }
    }

    pub fn regexp(&mut self, x: X) -> T {
        let slash = self.t.chance(2, 3);
        let (b, d);
        if slash {
            b = self.tk("tREGEXP_BEG", "/");
            d = D { open: None, close: b'/', expand: true, sort: Sort::Regexp };
        } else {
            let (o, open, close) = self.delims();
            b = self.tk("tREGEXP_BEG", &format!("%r{}", o as char));
            d = D { open, close, expand: true, sort: Sort::Regexp };
        }
        self.label("regexp");
        let at = self.pos();
        let mut parts;
        if x.first == 1 && slash {
            // a blank or = here would make the slash a division
            let mut l = self.lit();
            self.put(&mut l, b"r", b"r");
            for _ in 0..self.t.draw(3) {
                self.piece(d, &mut l);
            }
            self.lit_flush(&mut l);
            parts = l.parts;
        } else {
            parts = self.content(d);
        }
        let _ = at;
        let n = self.t.draw(4);
        let mut opts = String::new();
        for _ in 0..n {
            if self.t.chance(1, 2) {
                opts.push_str(*self.t.pick(&["i", "m", "x", "o", "u", "n", "e", "s"]));
            }
        }
        if opts.contains('n') && !parts.iter().all(|p| p.kind == "Str" && p.strval("value").unwrap().is_ascii()) {
            opts = opts.replace('n', "");
        }
        if opts.chars().filter(|c| "unes".contains(*c)).count() > 1 {
            opts = opts.chars().filter(|c| !"nes".contains(*c)).collect();
        }
        parts.retain(|_| true);
        let e = self.tk("tREGEXP_END", &format!("{}{}", d.close as char, opts));
        let end = (e.0, e.0 + 1);
        let o = if opts.is_empty() {
            None
        } else {
            let mut c: Vec<char> = opts.chars().collect();
            c.sort();
            c.dedup();
            Some(T::new("RegOpt").s("options", c.into_iter().collect::<String>()).e((e.0 + 1, e.1)))
        };
        T::new("Regexp").li("parts", parts).on("options", o).l("begin_l", b).l("end_l", end).e(join(b, e))
    }

    fn words(&mut self, p: &str, tok: &'static str, expand: bool, kind: &'static str) -> T {
        let (o, open, close) = self.delims();
        let b = self.tk(tok, &format!("{}{}", p, o as char));
        let d = D { open, close, expand, sort: Sort::Word };
        let mut v = vec![];
        self.label("word array");
        self.word_space(false);
        // brackets that open in one word and close in a later one
        let n = self.t.weighted(&[1, 3, 3, 2]);
        let nest = match open {
            Some(o) if n > 1 && self.t.chance(1, 8) => Some((o, self.t.draw(n - 1))),
            _ => None,
        };
        for i in 0..n {
            let mut l = self.lit();
            if let Some((o, at)) = nest {
                if i == at {
                    self.label("brackets around several words");
                    self.put(&mut l, &[o], &[o]);
                }
                if i == n - 1 {
                    self.put(&mut l, &[close], &[close]);
                }
            }
            for _ in 0..self.t.range(1, 3) {
                if kind == "Sym" {
                    // symbols must be valid UTF-8
                    if self.t.chance(1, 6) && expand && self.depth < self.cfg.max_depth + 1 {
                        self.interpolation(&mut l);
                    } else {
                        let s = *self.t.pick(&["a", "foo", "b?", "é", "x=", "\\ "]);
                        let s = if self.fits(d, s) { s } else { "a" };
                        let v = if s == "\\ " { " " } else { s };
                        self.put(&mut l, s.as_bytes(), v.as_bytes());
                    }
                } else {
                    self.piece(d, &mut l);
                }
            }
            self.lit_flush(&mut l);
            if l.parts.is_empty() {
                continue;
            }
            let parts = l.parts;
            let single = parts.len() == 1;
            let e = join(parts[0].ex(), parts.last().unwrap().ex());
            v.push(match (kind, single && parts[0].kind == "Str") {
                ("Str", true) => parts.into_iter().next().unwrap(),
                ("Str", false) => T::new("Dstr").li("parts", parts).e(e),
                (_, true) => T::new("Sym").s("name", parts[0].strval("value").unwrap()).e(e),
                _ => T::new("Dsym").li("parts", parts).e(e),
            });
            self.word_space(true);
        }
        // words at the end need no blank behind them
        let e = self.tk("tSTRING_END", &(close as char).to_string());
        T::new("Array").li("elements", v).l("begin_l", b).l("end_l", e).e(join(b, e))
    }
    /// Blanks between words, reported as a token of their own.
    fn word_space(&mut self, need: bool) {
        let b = self.pos();
        if need || self.t.chance(1, 3) {
            for _ in 0..self.t.range(1, 2) {
                match self.t.weighted(&[8, 1, 1]) {
                    1 => self.raw("\t"),
                    2 if self.no_nl == 0 && !self.pending() => self.newline_chars(),
                    _ => self.raw(" "),
                };
            }
        }
        let loc = (b, self.pos());
        let v = self.out[b..].to_vec();
        self.push_tok("tSPACE", &v, loc);
    }

    fn character(&mut self) -> T {
        const C: &[(&str, &[u8])] = &[
            ("a", b"a"), ("Z", b"Z"), ("é", "é".as_bytes()), ("日", "日".as_bytes()), ("\\n", b"\n"), ("\\s", b" "), ("\\t", b"\t"), ("\\u0041", b"A"), ("\\u{e9}", "é".as_bytes()),
            ("\\C-a", b"\x01"), ("\\M-a", b"\xe1"), ("\\101", b"A"), ("\\x41", b"A"), ("(", b"("), (",", b","), ("\\\\", b"\\"), ("1", b"1"), ("_", b"_"), ("\\é", "é".as_bytes()), ("?", b"?"), (":", b":"), ("'", b"'"), ("\"", b"\""), ("#", b"#"), ("\\8", b"8"),
        ];
        let (s, v) = if self.t.chance(1, 5) {
            let (s, v) = self.ctrl_meta(D { open: None, close: 0, expand: true, sort: Sort::Str }, false);
            (s, vec![v])
        } else {
            let (s, v) = *self.t.pick(C);
            (s.to_string(), v.to_vec())
        };
        let s = format!("?{}", s);
        let l = self.tkv("tCHAR", &s, &v);
        self.label("character");
        T::new("Str").s("value", &v).l("begin_l", (l.0, l.0 + 1)).e(l)
    }

    // ---- here-documents ----

    fn heredoc(&mut self) -> T {
        let id = self.new_id();
        let (q, interp, x) = *self.t.pick(&[("", true, false), ("\"", true, false), ("'", false, false), ("`", true, true), ("", true, false)]);
        let ident = if q.is_empty() { *self.t.pick(&["A", "EOS", "É_1", "end_", "b"]) } else { *self.t.pick(&["A", "a b", "EOS", "x-y", "é", ""]) };
        // (a terminator without a name is missed in front of a carriage return, in Ruby too)
        let ident = if self.cfg.crlf && ident.is_empty() { "A" } else { ident };
        let m = self.t.draw(3);
        let text = format!("<<{}{}{}{}", ["", "-", "~"][m], q, ident, q);
        let l = self.tk(if x { "tXSTRING_BEG" } else { "tSTRING_BEG" }, &text);
        self.label("here-document");
        let env = self.env.clone();
        let depth = self.depth;
        self.defer_heredoc(Pend { id, ident: ident.to_string(), indent: m > 0, squiggly: m == 2, interp, x, env, beg: l, depth })
    }

    pub fn heredoc_body(&mut self, p: &Pend) -> T {
        let d = D { open: None, close: b'\n', expand: p.interp, sort: Sort::Heredoc };
        if p.squiggly {
            self.label("squiggly here-document");
        }
        // parts, each with whether it starts a line
        let mut parts: Vec<(T, bool)> = vec![];
        let lines = self.t.weighted(&[1, 3, 3, 2, 1]);
        let mut min: Option<usize> = None;
        let mut l = self.lit();
        let mut bol = true;
        let base = self.t.draw(4);
        for _ in 0..lines {
            let line_start = self.pos();
            let mut blank = false;
            // indentation
            let mut col = 0;
            if p.squiggly || self.t.chance(1, 3) {
                let ws = match self.t.weighted(&[8, 2, 2, 1]) {
                    0 => " ".repeat(base + self.t.draw(3)),
                    1 => self.t.pick(&["\t", " \t", "\t ", "\t\t", "        ", "         "]).to_string(),
                    2 => {
                        blank = true;
                        " ".repeat(self.t.draw(6))
                    }
                    _ => String::new(),
                };
                for c in ws.bytes() {
                    col = if c == b'\t' { (col / 8 + 1) * 8 } else { col + 1 };
                }
                self.put(&mut l, ws.as_bytes(), ws.as_bytes());
            } else if self.t.chance(1, 8) {
                blank = true;
            }
            // a blank line ends the document without a name
            if blank && p.ident.is_empty() {
                blank = false;
            }
            if !blank {
                min = Some(min.map_or(col, |m| m.min(col)));
                // something that is no blank, so that the indentation is what we say
                if self.t.chance(1, 5) && p.interp {
                    let n = l.parts.len();
                    if self.t.chance(1, 2) {
                        self.interpolation(&mut l);
                    } else {
                        self.dvar(&mut l);
                    }
                    for (i, t) in l.parts.drain(n..).enumerate() {
                        let first = i == 0 && t.kind == "Str";
                        parts.push((t, bol && first));
                    }
                    bol = false;
                } else {
                    let s = match self.t.draw(24) {
                        0 if !p.ident.is_empty() => format!("{}\rx", p.ident),
                        1 if !p.ident.is_empty() => format!("{} ", p.ident),
                        2 => format!("x{}", p.ident),
                        _ => self.t.pick(&["x", "y z", "é", "end", "=begin", "# "]).to_string(),
                    };
                    self.put(&mut l, s.as_bytes(), s.as_bytes());
                }
                for _ in 0..self.t.draw(4) {
                    let n = l.parts.len();
                    self.piece(d, &mut l);
                    for (i, t) in l.parts.drain(n..).enumerate() {
                        let first = i == 0 && t.kind == "Str";
                        parts.push((t, bol && first));
                        bol = false;
                    }
                }
                if l.sep {
                    self.put(&mut l, b"", b"");
                }
                // the line may not look like the terminator
                if String::from_utf8_lossy(&self.out[line_start..]).trim() == p.ident {
                    self.put(&mut l, b".", b".");
                }
                if p.squiggly && p.interp && self.t.chance(1, 10) {
                    // the next line goes on with this one, but is dedented like any
                    self.raw("\\");
                    self.newline_chars();
                    let n = l.parts.len();
                    l.sep = false;
                    self.lit_flush(&mut l);
                    for t in l.parts.drain(n..) {
                        parts.push((t, bol));
                    }
                    bol = true;
                    let ws = " ".repeat(base + self.t.draw(3));
                    min = Some(min.map_or(ws.len(), |m| m.min(ws.len())));
                    self.put(&mut l, ws.as_bytes(), ws.as_bytes());
                    // not the terminator, whatever it looks like
                    let w = if p.ident.is_empty() || self.t.chance(1, 2) { "more".to_string() } else { p.ident.clone() };
                    self.put(&mut l, w.as_bytes(), w.as_bytes());
                    self.label("line continuation in a squiggly here-document");
                } else if !p.squiggly && p.interp && self.t.chance(1, 12) {
                    // the next line goes on with this one
                    self.raw("\\");
                    self.newline_chars();
                    if p.indent {
                        // the lexer pauses here
                        let n = l.parts.len();
                        self.lit_flush(&mut l);
                        for t in l.parts.drain(n..) {
                            parts.push((t, bol));
                        }
                    }
                    let w = if p.ident.is_empty() || self.t.chance(1, 2) { "cont".to_string() } else { p.ident.clone() };
                    self.put(&mut l, w.as_bytes(), w.as_bytes());
                    self.label("line continuation in a here-document");
                }
            }
            l.sep = false;
            self.newline_chars();
            l.val.push(b'\n');
            // a dedented here-document is reported line by line
            if p.squiggly && min != Some(0) {
                let n = l.parts.len();
                self.lit_flush(&mut l);
                for t in l.parts.drain(n..) {
                    parts.push((t, bol));
                }
                bol = true;
            }
        }
        let n = l.parts.len();
        self.lit_flush(&mut l);
        for t in l.parts.drain(n..) {
            parts.push((t, bol));
        }
        // terminator
        let eb = self.pos();
        if p.indent && self.t.chance(1, 2) {
            let ws = *self.t.pick(&["  ", "    ", " ", "\t", "\t ", "\u{b}", "\u{c} ", " \u{b}\u{b}"]);
            self.raw(ws);
        }
        self.raw(&p.ident);
        let ee = (eb, self.pos());
        self.push_tok("tSTRING_END", p.ident.as_bytes(), ee);
        self.newline_chars();
        let body_l = if parts.is_empty() { ee } else { join(parts[0].0.ex(), parts.last().unwrap().0.ex()) };
        if p.squiggly {
            let w = min.unwrap_or(usize::MAX);
            let mut out = vec![];
            for (mut t, bol) in parts {
                if t.kind == "Str" && bol && w > 0 {
                    let v = dedent(t.strval("value").unwrap(), w);
                    *t.get_mut("value").unwrap() = V::Str(v);
                }
                if t.kind == "Str" && w > 0 && t.strval("value").unwrap().is_empty() {
                    continue;
                }
                out.push((t, bol));
            }
            parts = out;
        }
        let parts: Vec<T> = parts.into_iter().map(|p| p.0).collect();
        T::new(if p.x { "XHeredoc" } else { "Heredoc" }).li("parts", parts).l("heredoc_body_l", body_l).l("heredoc_end_l", ee).e(p.beg)
    }
}

/// Removes up to `width` columns of white space; tabs go to the next multiple of eight and are
/// never split.
pub fn dedent(s: &[u8], width: usize) -> Vec<u8> {
    let mut col = 0;
    let mut i = 0;
    while i < s.len() && col < width {
        match s[i] {
            b' ' => col += 1,
            b'\t' => {
                let n = (col / 8 + 1) * 8;
                if n > width {
                    break;
                }
                col = n;
            }
            _ => break,
        }
        i += 1;
    }
    s[i..].to_vec()
}
