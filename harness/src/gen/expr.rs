//! Operator expressions.
use super::*;

/// Where an expression stands. Levels: 3 defined?, 4 assignment, 5 rescue modifier, 6 ?:, 7 range,
/// 8 ||, 9 &&, 10 equality, 11 comparison, 12 | ^, 13 &, 14 shifts, 15 + -, 16 * / %, 17 unary minus,
/// 18 **, 19 ! ~ unary plus, 20 primary.
#[derive(Clone, Copy)]
pub struct X {
    /// Loosest infix operator allowed.
    pub min: u8,
    /// Level of the operator that follows: open-ended constructs must bind tighter.
    pub follow: u8,
    /// 1: leftmost in the arguments of a call without parentheses; 2: leftmost after return and the like.
    pub first: u8,
    /// What it may not begin with: 1 a digit, 2 a tilde.
    pub lead: u8,
}

impl X {
    pub const ANY: X = X { min: 6, follow: 0, first: 0, lead: 0 };
    pub const FIRST: X = X { min: 6, follow: 0, first: 1, lead: 0 };
    pub const MID: X = X { min: 6, follow: 0, first: 2, lead: 0 };
    pub const PRIMARY: X = X { min: 20, follow: 20, first: 0, lead: 0 };
    pub fn follow(self, f: u8) -> X {
        X { follow: self.follow.max(f), ..self }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum As {
    Left,
    Right,
    Non,
}

/// Binary operators: text, token, level, associativity.
pub const BINOPS: &[(&str, &str, u8, As)] = &[
    ("+", "tPLUS", 15, As::Left), ("-", "tMINUS", 15, As::Left), ("*", "tSTAR2", 16, As::Left), ("/", "tDIVIDE", 16, As::Left),
    ("%", "tPERCENT", 16, As::Left), ("**", "tPOW", 18, As::Right), ("|", "tPIPE", 12, As::Left), ("^", "tCARET", 12, As::Left),
    ("&", "tAMPER2", 13, As::Left), ("<<", "tLSHFT", 14, As::Left), (">>", "tRSHFT", 14, As::Left), ("<", "tLT", 11, As::Left),
    (">", "tGT", 11, As::Left), ("<=", "tLEQ", 11, As::Left), (">=", "tGEQ", 11, As::Left), ("<=>", "tCMP", 10, As::Non),
    ("==", "tEQ", 10, As::Non), ("===", "tEQQ", 10, As::Non), ("!=", "tNEQ", 10, As::Non), ("=~", "tMATCH", 10, As::Non),
    ("!~", "tNMATCH", 10, As::Non), ("&&", "tANDOP", 9, As::Left), ("||", "tOROP", 8, As::Left), ("..", "tDOT2", 7, As::Non),
    ("...", "tDOT3", 7, As::Non),
];

pub const OPASGN: &[&str] = &["+", "-", "*", "/", "%", "**", "|", "^", "&", "<<", ">>", "&&", "||"];

/// What a condition turns its expression into.
pub fn cond(t: T) -> T {
    let mut t = t;
    let sub = |t: &mut T, f: &str| {
        if let Some(V::Node(n)) = t.get_mut(f) {
            **n = cond((**n).clone());
        }
    };
    match t.kind {
        "Begin" => {
            if let Some(V::List(l)) = t.get_mut("statements") {
                if l.len() == 1 {
                    l[0] = cond(l[0].clone());
                }
            }
            t
        }
        "And" | "Or" => {
            sub(&mut t, "lhs");
            sub(&mut t, "rhs");
            t
        }
        "Irange" | "Erange" => {
            t.kind = if t.kind == "Irange" { "IFlipFlop" } else { "EFlipFlop" };
            sub(&mut t, "left");
            sub(&mut t, "right");
            t
        }
        "Regexp" => {
            let l = t.ex();
            T::new("MatchCurrentLine").n("re", t).e(l)
        }
        _ => t,
    }
}

pub fn binary_node(op: &str, ol: L, a: T, b: T) -> T {
    let e = join(a.ex(), b.ex());
    match op {
        "&&" | "and" => T::new("And").n("lhs", a).n("rhs", b).l("operator_l", ol).e(e),
        "||" | "or" => T::new("Or").n("lhs", a).n("rhs", b).l("operator_l", ol).e(e),
        ".." => T::new("Irange").n("left", a).n("right", b).l("operator_l", ol).e(e),
        "..." => T::new("Erange").n("left", a).n("right", b).l("operator_l", ol).e(e),
        _ => T::new("Send").n("recv", a).s("method_name", op).li("args", vec![b]).l("selector_l", ol).e(e),
    }
}

pub fn unary_node(op: &str, ol: L, a: T) -> T {
    let e = join(ol, a.ex());
    let name = match op {
        "-" => "-@",
        "+" => "+@",
        o => o,
    };
    let a = if op == "!" { cond(a) } else { a };
    T::new("Send").n("recv", a).s("method_name", name).l("selector_l", ol).e(e)
}

/// `a rescue b` as one expression.
pub fn rescue_node(a: T, kw: L, b: T) -> T {
    let e = join(a.ex(), b.ex());
    let be = join(kw, b.ex());
    T::new("Rescue").n("body", a).li("rescue_bodies", vec![T::new("RescueBody").n("body", b).l("keyword_l", kw).e(be)]).e(e)
}

/// Completes an assignment target.
pub fn assign_node(mut lhs: T, op: L, rhs: T) -> T {
    let e = join(lhs.ex(), rhs.ex());
    lhs.set_loc("expression_l", e);
    lhs.put("operator_l", V::Loc(op));
    if lhs.kind == "Send" || lhs.kind == "CSend" {
        lhs.put("args", V::List(vec![rhs]));
    } else {
        lhs.put("value", V::Node(Box::new(rhs)));
    }
    lhs
}

impl<'a> G<'a> {
    pub fn arg(&mut self, x: X) -> T {
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let t = self.arg_in(x);
        self.env.void_ok = void;
        t
    }

    fn arg_in(&mut self, x: X) -> T {
        if !self.spend() {
            return self.leaf(x);
        }
        self.depth += 1;
        let t = self.arg_choose(x);
        self.depth -= 1;
        t
    }

    fn arg_choose(&mut self, x: X) -> T {
        let W { ops, params, vars, .. } = self.cfg.w;
        match self.t.weighted(&[4, 10, 9 * ops, 2 * ops, 3 * ops, 5 * ops.max(vars), 2 * ops, ops, params]) {
            0 => self.leaf(x),
            2 => {
                let (op, tok, lev, assoc) = *self.t.pick(BINOPS);
                if lev < x.min {
                    return self.primary(x);
                }
                let (lmin, rmin) = match assoc {
                    As::Left => (lev, lev + 1),
                    As::Right => (lev + 1, lev),
                    As::Non => (lev + 1, lev + 1),
                };
                let a = self.arg_in(X { min: lmin, follow: lev, first: x.first, lead: x.lead });
                self.binary_rest(a, op, tok, X { min: rmin, follow: x.follow, first: 0, lead: 0 })
            }
            3 if x.min <= 6 => {
                let c = self.arg_in(X { min: 7, follow: 6, first: x.first, lead: x.lead });
                self.sp();
                let tight = self.end_state() && self.t.chance(1, 6);
                let word = !tight && self.arg_state() && self.t.chance(1, 5);
                let q = self.tk("tEH", "?");
                let mut void = false;
                let a = if word {
                    self.label("ternary that looks like a character");
                    match self.t.draw(10) {
                        0 => {
                            let l = self.tk("tINTEGER", "12");
                            T::new("Int").s("value", "12").e(l)
                        }
                        1 => {
                            let l = self.tk("tCONSTANT", "Foo");
                            T::new("Const").s("name", "Foo").l("name_l", l).e(l)
                        }
                        k => {
                            let n = ["bar", "x1", "a𠀀", "foo", "aB", "end_", "_y", "_日"][k - 2];
                            let n = if self.env.cur_arg.as_deref() == Some(n) { "zz" } else { n };
                            let l = self.tk("tIDENTIFIER", n);
                            self.name_ref(n, l)
                        }
                    }
                } else if tight {
                    self.label("ternary with a blank before ? only");
                    self.simple_leaf()
                } else {
                    self.sp_nl();
                    void = self.t.chance(1, 20);
                    if void {
                        self.void_paren()
                    } else {
                        self.arg_in(X::ANY)
                    }
                };
                self.sp();
                let k = self.tk("tCOLON", ":");
                self.sp_nl();
                let b = if !void && self.t.chance(1, 20) { self.void_paren() } else { self.arg_in(X { min: 6, follow: x.follow, first: 0, lead: 0 }) };
                self.label("ternary");
                let e = join(c.ex(), b.ex());
                T::new("IfTernary").n("cond", cond(c)).n("if_true", a).n("if_false", b).l("question_l", q).l("colon_l", k).e(e)
            }
            4 => self.prefix_op(x),
            5 if x.follow <= 4 => self.assignment(x),
            6 if x.follow <= 3 => {
                let k = self.tk("kDEFINED", "defined?");
                self.sp();
                let a = self.arg_in(X { min: 6, follow: x.follow, first: 1, lead: 0 });
                let e = join(k, a.ex());
                self.label("defined?");
                T::new("Defined").n("value", a).l("keyword_l", k).e(e)
            }
            7 if x.follow <= 17 && x.first == 0 && x.lead & 1 == 0 => {
                // -2 ** 2 is -(2 ** 2)
                let m = self.tk("tUMINUS_NUM", "-");
                let n = self.number();
                let r = self.binary_rest(n, "**", "tPOW", X { min: 18, follow: x.follow, first: 0, lead: 0 });
                self.label("-2 ** 2");
                unary_node("-", m, r)
            }
            8 if x.follow <= 4 && self.no_nl == 0 && self.env.no_do == 0 => self.endless_def(x),
            _ => self.primary(x),
        }
    }

    /// Operator and right operand.
    pub fn binary_rest(&mut self, a: T, op: &'static str, tok: &'static str, rx: X) -> T {
        let tight = self.t.chance(1, 6) && (self.tight_ok() || self.after_symbol()) && op != "!~";
        let (ol, b);
        if tight {
            ol = self.tk(tok, op);
            b = self.simple_leaf();
        } else if self.t.chance(1, 12) && self.end_state() {
            self.sp();
            ol = self.tk(tok, op);
            b = self.simple_leaf();
            self.label("operator with a blank before it only");
        } else {
            self.sp();
            ol = self.tk(tok, op);
            self.sp_nl();
            b = self.arg_in(rx);
        }
        self.label("binary operator");
        binary_node(op, ol, a, b)
    }

    /// May an operator follow without a blank?
    fn tight_ok(&self) -> bool {
        if self.name_end == self.pos() {
            return false;
        }
        match self.toks.last() {
            Some(TokItem::Tok(t)) => match t.kind {
                "tIDENTIFIER" | "tCONSTANT" | "tIVAR" | "tCVAR" | "kEND" | "tRPAREN" | "tRBRACK" | "tNTH_REF" => true,
                "tINTEGER" | "tFLOAT" => true,
                _ => false,
            },
            _ => false,
        }
    }

    /// A symbol has ended here that is an identifier or a constant.
    fn after_symbol(&self) -> bool {
        match &self.toks[..] {
            [.., TokItem::Tok(b), TokItem::Tok(t)] => b.kind == "tSYMBEG" && matches!(t.kind, "tIDENTIFIER" | "tCONSTANT") && t.loc.1 == self.pos() && !matches!(t.val.last(), Some(b'=' | b'?' | b'!')),
            _ => false,
        }
    }

    /// A value has ended here, whatever follows: no argument can begin.
    pub fn end_state(&self) -> bool {
        let n = self.toks.len();
        if n == 0 || self.name_end == self.pos() {
            return false;
        }
        let before = n > 1 && matches!(&self.toks[n - 2], TokItem::Tok(t) if matches!(t.kind, "tDOT" | "tANDDOT" | "tCOLON2" | "tSYMBEG"));
        match &self.toks[n - 1] {
            TokItem::Tok(t) => match t.kind {
                "tIDENTIFIER" => !before && t.val[0] != b'_' && self.is_declared(&String::from_utf8_lossy(&t.val)),
                "tIVAR" | "tCVAR" | "tGVAR" | "kEND" | "tRPAREN" | "tRBRACK" | "tRCURLY" | "tNTH_REF" | "tBACK_REF" | "tINTEGER" | "tFLOAT" | "tRATIONAL" | "tIMAGINARY" | "tSTRING_END" | "tCHAR" => true,
                "kNIL" | "kTRUE" | "kFALSE" | "kSELF" | "k__FILE__" | "k__LINE__" | "k__ENCODING__" => !before,
                _ => false,
            },
            _ => false,
        }
    }

    /// A method has been named, and an argument could follow.
    fn arg_state(&self) -> bool {
        let n = self.toks.len();
        if n == 0 || self.name_end == self.pos() {
            return false;
        }
        let before = if n > 1 { match &self.toks[n - 2] { TokItem::Tok(t) => t.kind, _ => "" } } else { "" };
        let dotted = matches!(before, "tDOT" | "tANDDOT" | "tCOLON2");
        match &self.toks[n - 1] {
            TokItem::Tok(t) => match t.kind {
                "tIDENTIFIER" => dotted || before != "tSYMBEG" && t.val[0] != b'_' && !self.is_declared(&String::from_utf8_lossy(&t.val)),
                "tCONSTANT" | "tFID" => before != "tSYMBEG",
                "kSUPER" | "kYIELD" => before != "tSYMBEG" && !dotted,
                _ => false,
            },
            _ => false,
        }
    }

    /// A right operand that can stand right behind an operator.
    fn simple_leaf(&mut self) -> T {
        match self.t.draw(4) {
            0 => self.ident(),
            1 => {
                let l = self.tk("tINTEGER", "1");
                T::new("Int").s("value", "1").e(l)
            }
            2 => self.ivar(),
            _ => self.constant(),
        }
    }

    fn prefix_op(&mut self, x: X) -> T {
        let (op, tok, lev) = *self.t.pick(&[("!", "tBANG", 19u8), ("-", "tUMINUS", 17), ("+", "tUPLUS", 19), ("~", "tTILDE", 19)]);
        if x.follow > lev || (op == "~" && x.lead & 2 != 0) {
            return self.primary(x);
        }
        let l = self.tk(tok, op);
        let spaced = x.first != 1 && self.t.chance(1, 3) || op == "!";
        if spaced && (op != "!" || self.t.chance(1, 5)) {
            self.sp();
        }
        let lead = match op {
            "!" => 2,
            "-" | "+" if self.pos() == l.1 => 1,
            _ => 0,
        };
        let a = self.arg_in(X { min: lev + 1, follow: x.follow, first: 0, lead });
        self.label("unary operator");
        unary_node(op, l, a)
    }

    // ---- assignment ----

    /// Assignment target. `op`: for an operator assignment.
    pub fn lhs(&mut self, op: bool, x: X) -> T {
        self.lhs_of(op, x, true, true)
    }
    pub fn lhs_of(&mut self, op: bool, x: X, csend: bool, top: bool) -> T {
        let mut k = self.t.weighted(&[10, 2, 2, 2, 2, 3, 3, 1, 1]);
        if self.env.no_decl && k == 0 {
            k = 1;
        }
        if !top && k == 8 {
            k = 1;
        }
        if self.env.in_def && (k == 4 || k == 7 || k == 8) {
            k = 1;
        }
        match k {
            0 => {
                let vis = self.visible();
                let mut n = if !vis.is_empty() && self.t.chance(1, 3) { vis[self.t.draw(vis.len())].clone() } else { self.name() };
                if self.env.cur_arg.as_deref() == Some(&n) || is_numparam(&n) {
                    n = "zz".to_string();
                }
                let l = self.tk("tIDENTIFIER", &n);
                self.declare(&n);
                T::new("Lvasgn").s("name", n).l("name_l", l).e(l)
            }
            1 => {
                let n = self.ivar_name();
                let l = self.tk("tIVAR", n);
                T::new("Ivasgn").s("name", n).l("name_l", l).e(l)
            }
            2 => {
                let n = self.gvar_name();
                let l = self.tk("tGVAR", n);
                T::new("Gvasgn").s("name", n).l("name_l", l).e(l)
            }
            3 => {
                let n = self.cvar_name();
                let l = self.tk("tCVAR", n);
                T::new("Cvasgn").s("name", n).l("name_l", l).e(l)
            }
            4 => {
                let n = self.const_name();
                let l = self.tk("tCONSTANT", &n);
                T::new("Casgn").s("name", n).l("name_l", l).e(l)
            }
            5 => {
                let r = self.primary(X { min: 20, follow: 20, ..x });
                let b = self.tk("tLBRACK2", "[");
                let (args, _) = self.call_args_in("tRBRACK", op, false);
                let e = self.tk("tRBRACK", "]");
                let l = join(r.ex(), e);
                T::new("IndexAsgn").n("recv", r).li("indexes", args).l("begin_l", b).l("end_l", e).e(l)
            }
            6 => {
                let r = self.primary(X { min: 20, follow: 20, ..x });
                let (kind, d) = match self.t.weighted(&[6, if csend { 2 } else { 0 }, 1]) {
                    0 => ("Send", self.tk("tDOT", ".")),
                    1 => ("CSend", self.tk("tANDDOT", "&.")),
                    _ => ("Send", self.tk("tCOLON2", "::")),
                };
                let colon = self.out.ends_with(b"::");
                let (n, l) = if self.t.chance(1, 5) && !colon {
                    let n = self.const_name();
                    let l = self.tk("tCONSTANT", &n);
                    (n, l)
                } else {
                    let n = if self.t.chance(1, 6) { self.t.pick(&["if", "class", "end", "self", "nil"]).to_string() } else { self.name() };
                    let l = self.tk("tIDENTIFIER", &n);
                    (n, l)
                };
                let e = join(r.ex(), l);
                let n = if op { n } else { n + "=" };
                T::new(kind).n("recv", r).s("method_name", n).l("dot_l", d).l("selector_l", l).e(e)
            }
            7 => {
                let r = self.primary(X { min: 20, follow: 20, ..x });
                let d = self.tk("tCOLON2", "::");
                let n = self.const_name();
                let l = self.tk("tCONSTANT", &n);
                let e = join(r.ex(), l);
                T::new("Casgn").n("scope", r).s("name", n).l("double_colon_l", d).l("name_l", l).e(e)
            }
            _ => {
                let d = self.tk("tCOLON3", "::");
                if self.t.chance(1, 20) {
                    self.sp();
                }
                let n = self.const_name();
                let l = self.tk("tCONSTANT", &n);
                T::new("Casgn").n("scope", T::new("Cbase").e(d)).s("name", n).l("double_colon_l", d).l("name_l", l).e(join(d, l))
            }
        }
    }

    /// Emits the operator of an operator assignment and returns what builds the node.
    pub fn op_asgn_node(&mut self, lhs: T, op: &str, ol: L, rhs: T) -> T {
        let e = join(lhs.ex(), rhs.ex());
        self.label("operator assignment");
        match op {
            "&&" => T::new("AndAsgn").n("recv", lhs).n("value", rhs).l("operator_l", ol).e(e),
            "||" => T::new("OrAsgn").n("recv", lhs).n("value", rhs).l("operator_l", ol).e(e),
            _ => T::new("OpAsgn").n("recv", lhs).s("operator", op).n("value", rhs).l("operator_l", ol).e(e),
        }
    }

    pub fn assignment(&mut self, x: X) -> T {
        let lx = X { min: 20, follow: 20, first: x.first, lead: x.lead };
        if self.t.chance(1, 4) {
            let op = *self.t.pick(OPASGN);
            let lhs = self.lhs(true, lx);
            self.sp();
            let ol = self.tkv("tOP_ASGN", &format!("{}=", op), format!("{}=", op).as_bytes());
            self.sp_nl();
            let rhs = self.arg_rhs(x);
            return self.op_asgn_node(lhs, op, ol, rhs);
        }
        let lhs = self.lhs(false, lx);
        self.label("assignment");
        if self.t.chance(1, 6) && self.tight_ok() {
            let ol = self.tk("tEQL", "=");
            let r = self.simple_leaf();
            return assign_node(lhs, ol, r);
        }
        self.sp();
        let ol = self.tk("tEQL", "=");
        self.sp_nl();
        let rhs = self.arg_rhs(x);
        assign_node(lhs, ol, rhs)
    }

    /// Right side of an assignment, perhaps with a rescue modifier of its own.
    pub fn arg_rhs(&mut self, x: X) -> T {
        if self.t.chance(1, 12) {
            let a = self.arg_in(X { min: 6, follow: 5, first: 0, lead: 0 });
            self.sp();
            let k = self.tk("kRESCUE_MOD", "rescue");
            self.sp_nl_mid();
            let b = self.arg_in(X { min: 6, follow: x.follow, first: 2, lead: 0 });
            self.label("rescue modifier");
            rescue_node(a, k, b)
        } else {
            self.arg_in(X { min: 6, follow: x.follow, first: 0, lead: 0 })
        }
    }
    /// After a keyword behind which a newline would end the statement.
    pub fn sp_nl_mid(&mut self) {
        self.sp()
    }
}

pub fn is_numparam(n: &str) -> bool {
    let b = n.as_bytes();
    b.len() == 2 && b[0] == b'_' && (b'1'..=b'9').contains(&b[1])
}

