//! Literals and variables.
use super::*;

pub const KEYWORDS: &[(&str, &str)] = &[
    ("if", "kIF"), ("end", "kEND"), ("class", "kCLASS"), ("nil", "kNIL"), ("self", "kSELF"), ("do", "kDO"), ("then", "kTHEN"),
    ("rescue", "kRESCUE"), ("while", "kWHILE"), ("def", "kDEF"), ("not", "kNOT"), ("and", "kAND"), ("yield", "kYIELD"),
    ("BEGIN", "klBEGIN"), ("__FILE__", "k__FILE__"), ("in", "kIN"), ("alias", "kALIAS"), ("begin", "kBEGIN"), ("break", "kBREAK"),
    ("case", "kCASE"), ("defined?", "kDEFINED"), ("else", "kELSE"), ("elsif", "kELSIF"), ("ensure", "kENSURE"), ("false", "kFALSE"),
    ("for", "kFOR"), ("module", "kMODULE"), ("next", "kNEXT"), ("or", "kOR"), ("redo", "kREDO"), ("retry", "kRETRY"),
    ("return", "kRETURN"), ("super", "kSUPER"), ("true", "kTRUE"), ("undef", "kUNDEF"), ("unless", "kUNLESS"), ("until", "kUNTIL"),
    ("when", "kWHEN"), ("END", "klEND"), ("__LINE__", "k__LINE__"), ("__ENCODING__", "k__ENCODING__"),
];

/// Operators that are method names: text, token.
pub const OPNAMES: &[(&str, &str)] = &[
    ("+", "tPLUS"), ("-", "tMINUS"), ("*", "tSTAR2"), ("/", "tDIVIDE"), ("%", "tPERCENT"), ("**", "tPOW"), ("|", "tPIPE"), ("^", "tCARET"),
    ("&", "tAMPER2"), ("<=>", "tCMP"), ("==", "tEQ"), ("===", "tEQQ"), ("=~", "tMATCH"), ("!~", "tNMATCH"), (">", "tGT"), (">=", "tGEQ"),
    ("<", "tLT"), ("<=", "tLEQ"), ("!=", "tNEQ"), ("<<", "tLSHFT"), (">>", "tRSHFT"), ("!", "tBANG"), ("~", "tTILDE"), ("+@", "tUPLUS"),
    ("-@", "tUMINUS"), ("!@", "tBANG"), ("~@", "tTILDE"), ("[]", "tAREF"), ("[]=", "tASET"), ("`", "tBACK_REF2"),
];

pub const GVARS: &[&str] = &["$a", "$stdout", "$_", "$~", "$*", "$$", "$?", "$!", "$@", "$/", "$\\", "$;", "$,", "$.", "$=", "$:", "$<", "$>", "$\"", "$-w", "$0", "$é", "$_a", "$_1", "$__", "$-K"];

impl<'a> G<'a> {
    fn digits(&mut self, set: &str, max: usize) -> String {
        let set: Vec<char> = set.chars().collect();
        let n = self.t.range(1, max);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 && self.t.chance(1, 8) {
                s.push('_');
            }
            s.push(*self.t.pick(&set));
        }
        if self.t.chance(1, 300) {
            let n = self.size();
            s.push_str(&set[0].to_string().repeat(n));
        }
        s
    }

    /// Text, token and node kind of a numeric literal without a sign.
    pub fn number_text(&mut self) -> (String, &'static str, &'static str) {
        let mut float = false;
        let mut exp = false;
        let mut s = match self.t.weighted(&[10, 3, 2, 2, 2, 2, 1, 5]) {
            0 => {
                let mut s = self.t.pick(&["1", "2", "9", "3", "7"]).to_string();
                if self.t.chance(1, 3) {
                    s += &self.digits("0123456789", 6);
                }
                s
            }
            1 => {
                let p = *self.t.pick(&["0x", "0X"]);
                p.to_string() + &self.digits("0123456789abcdefABCDEF", 6)
            }
            2 => self.t.pick(&["0b", "0B"]).to_string() + &self.digits("01", 8),
            3 => self.t.pick(&["0o", "0O"]).to_string() + &self.digits("01234567", 6),
            4 => self.t.pick(&["0", "0_"]).to_string() + &self.digits("01234567", 6),
            5 => self.t.pick(&["0d", "0D"]).to_string() + &self.digits("0123456789", 6),
            6 => "0".to_string(),
            _ => {
                let mut s = self.t.pick(&["1", "0", "5"]).to_string();
                if self.t.chance(1, 3) && s != "0" {
                    s += &self.digits("0123456789", 4);
                }
                let f = self.t.draw(3);
                if f != 1 {
                    s += ".";
                    s += &self.digits("0123456789", 4);
                }
                float = true;
                if f != 0 {
                    s += *self.t.pick(&["e", "E"]);
                    s += *self.t.pick(&["", "-", "+"]);
                    s += &self.digits("0123456789", 3);
                    exp = true;
                }
                s
            }
        };
        let base = if float { ("tFLOAT", "Float") } else { ("tINTEGER", "Int") };
        let (tok, node) = match self.t.weighted(&[12, 1, 1, 1]) {
            1 if !exp => {
                s += "r";
                ("tRATIONAL", "Rational")
            }
            2 => {
                s += "i";
                ("tIMAGINARY", "Complex")
            }
            3 if !exp => {
                s += "ri";
                ("tIMAGINARY", "Complex")
            }
            _ => base,
        };
        (s, tok, node)
    }

    pub fn number(&mut self) -> T {
        let (s, tok, node) = self.number_text();
        let l = self.tk(tok, &s);
        self.label("number");
        T::new(node).s("value", s).e(l)
    }
    pub fn neg_number(&mut self) -> T {
        let m = self.tk("tUMINUS_NUM", "-");
        let (s, tok, node) = self.number_text();
        let l = self.tk(tok, &s);
        T::new(node).s("value", format!("-{}", s)).l("operator_l", m).e(join(m, l))
    }
    pub fn plus_number(&mut self) -> T {
        let (s, tok, node) = self.number_text();
        let s = format!("+{}", s);
        let l = self.tk(tok, &s);
        T::new(node).s("value", s).e(l)
    }

    pub fn keyword_var(&mut self) -> T {
        let (w, k, n) = *self.t.pick(&[
            ("nil", "kNIL", "Nil"), ("true", "kTRUE", "True"), ("false", "kFALSE", "False"), ("self", "kSELF", "Self_"),
            ("__FILE__", "k__FILE__", "File"), ("__LINE__", "k__LINE__", "Line"), ("__ENCODING__", "k__ENCODING__", "Encoding"),
        ]);
        let l = self.tk(k, w);
        T::new(n).e(l)
    }

    pub fn ivar_name(&mut self) -> &'static str {
        *self.t.pick(&["@a", "@_b", "@Foo", "@été", "@if", "@x1"])
    }
    pub fn cvar_name(&mut self) -> &'static str {
        *self.t.pick(&["@@a", "@@_b", "@@Foo", "@@日本", "@@end"])
    }
    pub fn gvar_name(&mut self) -> &'static str {
        *self.t.pick(GVARS)
    }
    pub fn ivar(&mut self) -> T {
        let n = self.ivar_name();
        let l = self.tk("tIVAR", n);
        T::new("Ivar").s("name", n).e(l)
    }
    pub fn cvar(&mut self) -> T {
        let n = self.cvar_name();
        let l = self.tk("tCVAR", n);
        T::new("Cvar").s("name", n).e(l)
    }
    pub fn gvar(&mut self) -> T {
        let n = self.gvar_name();
        let l = self.tk("tGVAR", n);
        T::new("Gvar").s("name", n).e(l)
    }
    pub fn nth_ref_name(&mut self) -> String {
        match self.t.draw(8) {
            0 => self.t.pick(&["$10", "$123", "$1234567890", "$99999999999"]).to_string(),
            1 => format!("${}{}", self.t.range(1, 9), self.t.draw(10)),
            _ => format!("${}", self.t.range(1, 9)),
        }
    }
    pub fn backref(&mut self) -> T {
        if self.t.chance(1, 2) {
            let n = *self.t.pick(&["$&", "$`", "$'", "$+"]);
            let l = self.tk("tBACK_REF", n);
            T::new("BackRef").s("name", n).e(l)
        } else {
            let n = self.nth_ref_name();
            let l = self.tk("tNTH_REF", &n);
            T::new("NthRef").s("name", &n[1..]).e(l)
        }
    }
    pub fn constant(&mut self) -> T {
        let n = self.const_name();
        let l = self.tk("tCONSTANT", &n);
        T::new("Const").s("name", n).l("name_l", l).e(l)
    }
    /// `::A`
    pub fn top_constant(&mut self) -> T {
        let c = self.tk("tCOLON3", "::");
        if self.t.chance(1, 20) {
            self.sp();
        }
        let n = self.const_name();
        let l = self.tk("tCONSTANT", &n);
        T::new("Const").n("scope", T::new("Cbase").e(c)).s("name", n).l("double_colon_l", c).l("name_l", l).e(join(c, l))
    }

    /// A method name as after `def` or `:`. Returns its text and location.
    pub fn fname(&mut self, setter: bool) -> (String, L) {
        let r = self.fname_in(setter);
        self.name_end = self.pos();
        r
    }
    /// An operator as a name. The names `!@` and `~@` are other spellings of `!` and `~`.
    pub fn op_name(&mut self, n: &str, k: &'static str) -> (String, L) {
        let v = if n == "!@" || n == "~@" { &n[..1] } else { n };
        let l = self.tkv(k, n, v.as_bytes());
        (v.to_string(), l)
    }
    fn fname_in(&mut self, setter: bool) -> (String, L) {
        match self.t.weighted(&[8, 3, 3, 3, if setter { 2 } else { 0 }, 3]) {
            0 => {
                let n = self.name();
                let l = self.tk("tIDENTIFIER", &n);
                (n, l)
            }
            1 => {
                let n = self.const_name();
                let l = self.tk("tCONSTANT", &n);
                (n, l)
            }
            2 => {
                let n = self.name() + *self.t.pick(&["?", "!"]);
                let l = self.tk("tFID", &n);
                (n, l)
            }
            3 => {
                let (mut n, mut k) = *self.t.pick(OPNAMES);
                if n == "[]=" && !setter {
                    (n, k) = ("[]", "tAREF");
                }
                self.label("operator name");
                self.op_name(n, k)
            }
            4 => {
                let n = if self.t.chance(1, 4) { self.const_name() } else { self.name() } + "=";
                let l = self.tk("tIDENTIFIER", &n);
                (n, l)
            }
            _ => {
                let (n, k) = *self.t.pick(KEYWORDS);
                let l = self.tk(k, n);
                (n.to_string(), l)
            }
        }
    }

    /// `:sym` with a plain name.
    pub fn plain_symbol(&mut self) -> T {
        let b = self.tk("tSYMBEG", ":");
        let (n, l) = match self.t.weighted(&[8, 1, 1, 1]) {
            0 => self.fname(true),
            1 => {
                let n = self.ivar_name();
                (n.to_string(), self.tk("tIVAR", n))
            }
            2 => {
                let n = self.cvar_name();
                (n.to_string(), self.tk("tCVAR", n))
            }
            _ => {
                // in a symbol $& and $1 are ordinary names
                let n = if self.t.chance(1, 4) { *self.t.pick(&["$&", "$1", "$12", "$+"]) } else { self.gvar_name() };
                (n.to_string(), self.tk("tGVAR", n))
            }
        };
        if n == "&" || n == "|" {
            // `:&.` would be the safe navigation operator
            self.raw(" ");
        }
        T::new("Sym").s("name", n).l("begin_l", b).e(join(b, l))
    }

    /// Reading a name: a local variable if one is declared, else a call.
    pub fn ident(&mut self) -> T {
        let vis: Vec<String> = self.visible().into_iter().filter(|v| !expr::is_numparam(v)).collect();
        let mut n = if !vis.is_empty() && self.t.chance(2, 3) { vis[self.t.draw(vis.len())].clone() } else { self.name() };
        if self.env.cur_arg.as_deref() == Some(&n) {
            n = "zz".to_string();
        }
        if self.t.chance(1, 60) {
            // in no block these are ordinary names
            let in_block = self.env.scopes.last().map_or(false, |s| s.dynamic);
            n = if in_block { ["_0", "_10", "_a"][self.t.draw(3)].to_string() } else { format!("_{}", self.t.draw(11)) };
            self.label("name like a numbered parameter");
        }
        let l = self.tk("tIDENTIFIER", &n);
        self.name_ref(&n, l)
    }
    pub fn name_ref(&mut self, n: &str, l: L) -> T {
        if self.is_declared(n) {
            self.label("local variable");
            T::new("Lvar").s("name", n).e(l)
        } else {
            T::new("Send").s("method_name", n).l("selector_l", l).e(l)
        }
    }
    /// A name that is no local variable here.
    pub fn free_name(&mut self) -> String {
        let n = self.name();
        if self.is_declared(&n) {
            for c in ["p", "puts", "raise", "attr", "m1"] {
                if !self.is_declared(c) {
                    return c.to_string();
                }
            }
        }
        n
    }
}
