//! Statements, control structures, definitions.
use super::call::begin_node;
use super::expr::{assign_node, cond, rescue_node, unary_node, OPASGN, X};
use super::*;

/// Several statements as one node.
pub fn compstmt(mut v: Vec<T>) -> Option<T> {
    match v.len() {
        0 => None,
        1 => v.pop(),
        _ => {
            let e = join(v[0].ex(), v.last().unwrap().ex());
            Some(T::new("Begin").li("statements", v).e(e))
        }
    }
}

impl<'a> G<'a> {
    // ---- sequences ----

    pub fn top_stmts(&mut self) -> Option<T> {
        self.env.void_ok = true;
        let n = if self.t.chance(1, 30) { 0 } else { self.t.weighted(&[8, 4, 2, 1]) + 1 };
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.term();
                let line = self.out.iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
                if line > 0 && self.out[line..].iter().all(|c| b" \t".contains(c)) && !self.pending() && matches!(self.toks.last(), Some(TokItem::Tok(t)) if t.kind == "tNL") {
                    self.cuts.push(self.pos());
                }
            }
            v.push(if self.t.chance(1, 40) { self.preexe() } else { self.stmt() });
        }
        compstmt(v)
    }

    fn preexe(&mut self) -> T {
        let k = self.tk("klBEGIN", "BEGIN");
        self.sp_or_none();
        let b = self.tk("tLCURLY", "{");
        self.label("BEGIN");
        let void = std::mem::replace(&mut self.env.void_ok, true);
        let body = self.body(b'}', true);
        self.env.void_ok = void;
        let e = self.tk("tRCURLY", "}");
        T::new("Preexe").on("body", body).l("keyword_l", k).l("begin_l", b).l("end_l", e).e(join(k, e))
    }

    /// Statements with terminators between them.
    pub fn stmts(&mut self, close: u8) -> Option<T> {
        let small = self.depth >= self.cfg.max_depth;
        let n = match close {
            b'(' => self.t.weighted(&[9, 2, 1]),
            _ if small => self.t.weighted(&[8, 1]),
            _ => self.t.weighted(&[8, 3, 1]),
        };
        let n = if self.t.chance(1, 12) { 0 } else { n + 1 };
        let mut v = vec![];
        if n > 0 && close != b'(' && self.t.chance(1, 800) {
            for _ in 0..self.size() {
                let l = self.tk("tINTEGER", "1");
                v.push(T::new("Int").s("value", "1").e(l));
                self.tk("tSEMI", ";");
            }
        }
        for i in 0..n {
            if i > 0 {
                self.term();
            }
            // only the value of the last one may be needed
            let void = self.env.void_ok;
            self.env.void_ok |= i + 1 < n;
            v.push(self.stmt());
            self.env.void_ok = void;
        }
        compstmt(v)
    }

    /// Statements whose value nobody needs.
    fn free_stmts(&mut self, kw: bool, term: bool) -> Option<T> {
        let void = std::mem::replace(&mut self.env.void_ok, true);
        let b = self.kw_stmts(kw, term);
        self.env.void_ok = void;
        b
    }

    /// After an opening brace or keyword: blank, ignored newline or semicolon. True if something was written.
    fn lead(&mut self, need: bool) {
        match self.t.weighted(&[8, 3, 1]) {
            1 if self.no_nl == 0 => {
                self.nl();
            }
            2 => {
                self.tk("tSEMI", ";");
                self.osp();
            }
            _ => {
                if need {
                    self.sp()
                } else {
                    self.osp()
                }
            }
        }
    }

    /// Contents of braces.
    pub fn body(&mut self, _close: u8, lead: bool) -> Option<T> {
        let _ = lead;
        self.lead(false);
        let d = std::mem::replace(&mut self.env.no_do, 0);
        let b = self.stmts(b'}');
        self.env.no_do = d;
        if b.is_some() {
            if self.t.chance(1, 4) {
                self.term();
            } else {
                self.osp();
            }
        }
        b
    }

    /// Statements behind a keyword (`kw`) or a terminator, up to the next keyword. `term`: there must be
    /// a terminator before that.
    fn kw_stmts(&mut self, kw: bool, term: bool) -> Option<T> {
        if kw {
            self.lead(true);
        }
        // inside the arguments of a command call statements have their own rules
        let d = self.env.no_do;
        if d & 1 != 0 {
            self.env.no_do = d & !1 | 4;
        }
        let b = self.stmts(b'k');
        self.env.no_do = d;
        if b.is_some() {
            if term || self.t.chance(2, 3) {
                self.term();
            } else {
                self.sp();
            }
        }
        b
    }

    /// Body with rescue, else and ensure clauses, up to `end`. `kw`: it follows a keyword directly.
    pub fn body_rescue(&mut self, kw: bool, _def: bool) -> Option<T> {
        let _ = kw;
        self.bodystmt(true)
    }

    fn bodystmt(&mut self, kw: bool) -> Option<T> {
        let rescues = if self.t.chance(1, 8) && self.spend() { self.t.range(1, 2) } else { 0 };
        let ensure = self.t.chance(1, 14);
        let mut body = self.kw_stmts(kw, rescues > 0);
        let mut bodies = vec![];
        for i in 0..rescues {
            bodies.push(self.rescue_clause(i + 1 < rescues));
        }
        if rescues > 0 {
            let mut else_ = None;
            let mut else_l = None;
            if self.t.chance(1, 3) {
                else_l = Some(self.tk("kELSE", "else"));
                else_ = self.free_stmts(true, false);
            }
            let b = body.as_ref().map(|x| x.ex()).unwrap_or(bodies[0].ex());
            let e = match (&else_, else_l) {
                (Some(x), _) => x.ex(),
                (None, Some(l)) => l,
                _ => bodies.last().unwrap().ex(),
            };
            self.label("rescue clause");
            body = Some(T::new("Rescue").on("body", body).li("rescue_bodies", bodies).on("else_", else_).ol("else_l", else_l).e(join(b, e)));
        }
        if ensure {
            let k = self.tk("kENSURE", "ensure");
            let en = self.free_stmts(true, false);
            let b = body.as_ref().map(|x| x.ex()).unwrap_or(k);
            let e = en.as_ref().map(|x| x.ex()).unwrap_or(k);
            self.label("ensure clause");
            body = Some(T::new("Ensure").on("body", body).on("ensure", en).l("keyword_l", k).e(join(b, e)));
        }
        body
    }

    fn rescue_clause(&mut self, more: bool) -> T {
        let k = self.tk("kRESCUE", "rescue");
        let mut end = k;
        let mut list = vec![];
        let n = self.t.weighted(&[3, 4, 2]);
        let void = std::mem::replace(&mut self.env.void_ok, false);
        for i in 0..n {
            if i > 0 {
                self.comma();
            } else {
                self.sp();
            }
            if self.t.chance(1, 8) {
                let o = self.tk("tSTAR", "*");
                let v = self.arg(X::ANY);
                let e = join(o, v.ex());
                list.push(T::new("Splat").n("value", v).l("operator_l", o).e(e));
            } else {
                list.push(self.arg(if i == 0 { X::MID } else { X::ANY }));
            }
        }
        let list = if list.is_empty() {
            None
        } else {
            let e = join(list[0].ex(), list.last().unwrap().ex());
            end = e;
            Some(T::new("Array").li("elements", list).e(e))
        };
        let mut assoc = None;
        let mut var = None;
        if self.t.chance(1, 3) {
            self.sp();
            assoc = Some(self.tk("tASSOC", "=>"));
            self.sp();
            let v = self.lhs(false, X { min: 20, follow: 20, first: 0, lead: 0 });
            end = v.ex();
            var = Some(v);
        }
        self.env.void_ok = void;
        let (t, kw) = self.then(var.is_none() && list.is_none());
        // only the keyword counts here
        let begin_l = t;
        end = if kw || true { begin_l } else { end };
        let r = std::mem::replace(&mut self.env.in_rescue, true);
        let body = self.free_stmts(kw, more);
        self.env.in_rescue = r;
        if let Some(b) = &body {
            end = b.ex();
        }
        T::new("RescueBody").on("exc_list", list).on("exc_var", var).on("body", body).l("keyword_l", k).ol("assoc_l", assoc).l("begin_l", begin_l).e(join(k, end))
    }

    /// `then` in its three forms: location, and whether it ended with the keyword.
    fn then(&mut self, need_sp: bool) -> (L, bool) {
        let _ = need_sp;
        match self.t.weighted(&[6, 3, 1]) {
            0 => (self.term1(), false),
            1 => {
                self.sp();
                (self.tk("kTHEN", "then"), true)
            }
            _ => {
                self.term1();
                (self.tk("kTHEN", "then"), true)
            }
        }
    }

    /// Exactly one terminator.
    pub fn term1(&mut self) -> L {
        if self.no_nl > 0 || self.t.chance(1, 4) || self.nl_skipped() {
            self.osp();
            let l = self.tk("tSEMI", ";");
            self.osp();
            l
        } else {
            let l = self.nl();
            self.push_tok("tNL", b"\n", l);
            l
        }
    }

    // ---- statements ----

    pub fn stmt(&mut self) -> T {
        if self.bad_left && self.t.chance(1, 8) {
            self.bad_left = false;
            return self.bad_stmt();
        }
        if !self.spend() {
            let void = std::mem::replace(&mut self.env.void_ok, false);
            let t = self.leaf(X::ANY);
            self.env.void_ok = void;
            return t;
        }
        self.depth += 1;
        if self.env.no_do == 4 && self.t.chance(1, 6) {
            let t = self.do_call();
            self.depth -= 1;
            return t;
        }
        let mut t = match self.t.weighted(&[14, 5, 3, 1]) {
            0 => self.stmt_base(0),
            1 => {
                let t = self.stmt_base(0);
                let mut t = self.modifier(t);
                if self.t.chance(1, 5) {
                    t = self.modifier(t);
                }
                t
            }
            2 => {
                let void = std::mem::replace(&mut self.env.void_ok, false);
                let a = self.expr(X { follow: 5, ..X::ANY });
                if self.beg_state() {
                    self.env.void_ok = void;
                    a
                } else {
                    self.sp();
                    let k = self.tk("kRESCUE_MOD", "rescue");
                    self.sp();
                    let more = self.t.chance(1, 6);
                    let b = if more { self.leaf(X { first: 2, ..X::ANY }) } else { self.expr(X { first: 2, ..X::ANY }) };
                    self.env.void_ok = void;
                    self.label("rescue modifier");
                    let mut t = rescue_node(a, k, b);
                    while more && self.t.chance(1, 2) && !self.beg_state() {
                        self.sp();
                        let k = self.tk("kRESCUE_MOD", "rescue");
                        self.sp();
                        let void = std::mem::replace(&mut self.env.void_ok, false);
                        let b = self.leaf(X { first: 2, ..X::ANY });
                        self.env.void_ok = void;
                        t = rescue_node(t, k, b);
                    }
                    t
                }
            }
            _ => self.stmt_base(0),
        };
        self.depth -= 1;
        if self.t.chance(1, 60) {
            t = self.modifier(t);
        }
        t
    }

    fn modifier(&mut self, s: T) -> T {
        if self.beg_state() {
            return s;
        }
        self.sp();
        self.label("modifier");
        let k = self.t.draw(4);
        let (w, tok) = [("if", "kIF_MOD"), ("unless", "kUNLESS_MOD"), ("while", "kWHILE_MOD"), ("until", "kUNTIL_MOD")][k];
        let kl = self.tk(tok, w);
        self.sp_nl();
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let c = self.expr(X::ANY);
        self.env.void_ok = void;
        let e = join(s.ex(), c.ex());
        let c = cond(c);
        match k {
            0 => T::new("IfMod").n("cond", c).n("if_true", s).l("keyword_l", kl).e(e),
            1 => T::new("IfMod").n("cond", c).n("if_false", s).l("keyword_l", kl).e(e),
            _ => {
                let post = s.kind == "KwBegin";
                let kind = match (k, post) {
                    (2, false) => "While",
                    (2, true) => "WhilePost",
                    (_, false) => "Until",
                    (_, true) => "UntilPost",
                };
                T::new(kind).n("cond", c).n("body", s).l("keyword_l", kl).e(e)
            }
        }
    }

    fn stmt_base(&mut self, follow: u8) -> T {
        let void = if self.env.void_ok { 3 } else { 0 };
        let nl = if self.no_nl > 0 { 0 } else { 1 };
        let W { params, stmts, vars, patterns, .. } = self.cfg.w;
        let pat = patterns - 1;
        match self.t.weighted(&[20, 5 * stmts, 4 * vars.max(stmts), 3 * vars.max(stmts), 3 * vars.max(stmts), stmts, void * stmts, 2 * params.max(stmts).max(vars), stmts, 4 * pat]) {
            9 => self.case(),
            1 => self.keyword_expr(),
            2 => self.masgn(),
            3 => self.multi_value(),
            4 => self.command_asgn(follow),
            5 => match self.t.draw(3) {
                0 => self.alias(),
                1 => self.undef(),
                _ => self.postexe(),
            },
            6 => self.void_stmt(),
            7 if nl > 0 => match self.t.draw(3) {
                0 => self.def(),
                1 => self.module_like(),
                _ => self.endless_command_def(),
            },
            8 => self.begin_end(),
            _ => {
                let void = std::mem::replace(&mut self.env.void_ok, false);
                self.env.match_ok = void;
                let t = self.expr(X { follow, ..X::ANY });
                self.env.void_ok = void;
                t
            }
        }
    }

    // ---- expressions with and, or, not ----

    pub fn expr(&mut self, x: X) -> T {
        let match_ok = std::mem::replace(&mut self.env.match_ok, false);
        if !self.spend() {
            return self.leaf(x);
        }
        self.depth += 1;
        let n = self.t.weighted(&[10, 2, 1]);
        self.env.match_ok = match_ok && n == 0;
        let mut t = self.expr_unit(if n > 0 { x.follow(2) } else { x });
        for i in 0..n {
            self.sp();
            let (w, k) = *self.t.pick(&[("and", "kAND"), ("or", "kOR")]);
            let ol = self.tk(k, w);
            self.sp_nl();
            let ux = X { first: 0, lead: 0, ..x };
            let b = if i + 1 == n && x.follow == 0 && self.t.chance(1, 10) {
                // the value of the last one is not needed for certain
                self.void_stmt()
            } else {
                self.env.match_ok = i + 1 == n;
                self.expr_unit(if i + 1 < n { ux.follow(2) } else { ux })
            };
            self.label("and/or");
            let e = join(t.ex(), b.ex());
            t = T::new(if w == "and" { "And" } else { "Or" }).n("lhs", t).n("rhs", b).l("operator_l", ol).e(e);
        }
        self.depth -= 1;
        t
    }

    fn expr_unit(&mut self, x: X) -> T {
        let match_ok = std::mem::replace(&mut self.env.match_ok, false);
        // what follows (and, or) binds looser than any of these
        let ax = if x.follow == 2 { X { follow: 0, ..x } } else { x };
        let W { calls, patterns, .. } = self.cfg.w;
        match self.t.weighted(&[12, 5 * calls, 1, 1, patterns]) {
            1 if x.first != 1 => self.command(ax, true),
            2 if x.first == 0 => {
                let k = self.tk("kNOT", "not");
                self.sp();
                let a = self.expr_unit_lead(ax);
                let e = join(k, a.ex());
                self.label("not");
                T::new("Send").n("recv", cond(a)).s("method_name", "!").l("selector_l", k).e(e)
            }
            3 if x.first == 0 => {
                let k = self.tk("tBANG", "!");
                self.osp();
                let a = self.command(X { lead: 2, ..ax }, true);
                self.label("! command");
                unary_node("!", k, a)
            }
            4 => {
                let a = self.arg(X { follow: 0, ..x });
                self.sp();
                // (one without a value if there must be one)
                let p = self.t.chance(1, 2) || !match_ok;
                let o = if p { self.tk("kIN", "in") } else { self.tk("tASSOC", "=>") };
                self.sp();
                let pat = self.top_pattern();
                let e = join(a.ex(), pat.ex());
                self.label("one-line pattern match");
                T::new(if p { "MatchPatternP" } else { "MatchPattern" }).n("value", a).n("pattern", pat).l("operator_l", o).e(e)
            }
            _ => self.arg(ax),
        }
    }
    /// `not (` would be a call of not: no parenthesis first.
    fn expr_unit_lead(&mut self, x: X) -> T {
        if self.t.chance(1, 4) && self.spend() {
            self.depth += 1;
            let t = match self.t.draw(3) {
                0 => self.command(X { first: 1, lead: 0, ..x }, true),
                1 => {
                    let k = self.tk("kNOT", "not");
                    self.sp();
                    let a = self.expr_unit_lead(x);
                    let e = join(k, a.ex());
                    T::new("Send").n("recv", cond(a)).s("method_name", "!").l("selector_l", k).e(e)
                }
                _ => {
                    let k = self.tk("tBANG", "!");
                    let a = self.command(X { first: 0, lead: 2, ..x }, true);
                    unary_node("!", k, a)
                }
            };
            self.depth -= 1;
            return t;
        }
        self.arg(X { first: 1, lead: 0, ..x })
    }

    // ---- assignments that are statements ----

    fn plain_lhs(&mut self) -> T {
        self.lhs_of(false, X { min: 20, follow: 20, first: 0, lead: 0 }, false, true)
    }

    fn mlhs_items(&mut self, depth: usize) -> Vec<T> {
        let n = self.t.range(1, 3);
        let splat = if self.t.chance(1, 3) { Some(self.t.draw(n)) } else { None };
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.comma_plain();
            }
            if splat == Some(i) {
                let o = self.tk("tSTAR", "*");
                if self.t.chance(1, 4) {
                    v.push(T::new("Splat").l("operator_l", o).e(o));
                } else {
                    let t = self.plain_lhs();
                    let e = join(o, t.ex());
                    v.push(T::new("Splat").n("value", t).l("operator_l", o).e(e));
                }
            } else if depth < 2 && self.t.chance(1, 6) {
                v.push(self.mlhs_paren(depth + 1));
            } else {
                v.push(self.plain_lhs());
            }
        }
        if n == 1 && splat.is_none() {
            self.tk("tCOMMA", ",");
        }
        v
    }
    fn comma_plain(&mut self) {
        self.tk("tCOMMA", ",");
        self.skipnl();
    }
    fn mlhs_paren(&mut self, depth: usize) -> T {
        let b = self.tk("tLPAREN", "(");
        self.osp();
        if depth < 2 && self.t.chance(1, 12) {
            let mut t = self.mlhs_paren(depth + 1);
            let e = self.tk("tRPAREN", ")");
            t.set_loc("begin_l", b);
            t.set_loc("end_l", e);
            t.set_loc("expression_l", join(b, e));
            return t;
        }
        let items = self.mlhs_items(depth);
        self.close_nl_after_comma();
        let e = self.tk("tRPAREN", ")");
        self.label("nested left side");
        T::new("Mlhs").li("items", items).l("begin_l", b).l("end_l", e).e(join(b, e))
    }
    fn close_nl_after_comma(&mut self) {
        if self.out.last() == Some(&b',') || self.out.last() == Some(&b'*') {
            self.osp()
        } else {
            self.close_nl(true)
        }
    }
    pub fn mlhs(&mut self) -> T {
        if self.t.chance(1, 12) {
            return self.mlhs_paren(0);
        }
        let items = self.mlhs_items(0);
        let e = join(items[0].ex(), items.last().unwrap().ex());
        T::new("Mlhs").li("items", items).e(e)
    }

    /// Several values, or one with a splat.
    fn mrhs(&mut self, follow: u8) -> T {
        let n = self.t.range(1, 3);
        let mut v: Vec<T> = vec![];
        for i in 0..n {
            if i > 0 {
                self.comma_plain();
            }
            let fx = X { follow, ..X::ANY };
            if n == 1 || self.t.chance(1, 5) {
                let o = self.tk("tSTAR", "*");
                let a = self.arg(fx);
                let e = join(o, a.ex());
                v.push(T::new("Splat").n("value", a).l("operator_l", o).e(e));
            } else {
                v.push(self.arg(fx));
            }
        }
        let e = join(v[0].ex(), v.last().unwrap().ex());
        T::new("Array").li("elements", v).e(e)
    }

    fn masgn(&mut self) -> T {
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let lhs = self.mlhs();
        self.sp();
        let o = self.tk("tEQL", "=");
        self.sp_nl();
        let rescue = self.t.chance(1, 10);
        let follow = if rescue { 5 } else { 0 };
        let mut rhs = match self.t.weighted(&[4, 5, if rescue { 0 } else { 1 }]) {
            0 => self.arg(X { follow, ..X::ANY }),
            1 => self.mrhs(follow),
            _ => self.command(X::ANY, true),
        };
        if rescue {
            self.sp();
            let k = self.tk("kRESCUE_MOD", "rescue");
            self.sp();
            let b = self.expr(X::MID);
            rhs = rescue_node(rhs, k, b);
        }
        self.env.void_ok = void;
        self.label("multiple assignment");
        let e = join(lhs.ex(), rhs.ex());
        T::new("Masgn").n("lhs", lhs).n("rhs", rhs).l("operator_l", o).e(e)
    }

    fn multi_value(&mut self) -> T {
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let lhs = self.plain_lhs();
        self.sp();
        let o = self.tk("tEQL", "=");
        self.sp_nl();
        let rhs = self.mrhs(0);
        self.env.void_ok = void;
        self.label("assignment of several values");
        assign_node(lhs, o, rhs)
    }

    fn command_asgn(&mut self, follow: u8) -> T {
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let t = self.command_asgn_in(follow, 0);
        self.env.void_ok = void;
        t
    }
    fn command_asgn_in(&mut self, follow: u8, n: usize) -> T {
        let op = if self.t.chance(1, 4) { Some(*self.t.pick(OPASGN)) } else { None };
        // ::A += command is no Ruby
        let lhs = self.lhs_of(op.is_some(), X { min: 20, follow: 20, first: 0, lead: 0 }, true, op.is_none());
        self.sp();
        let o = match op {
            None => self.tk("tEQL", "="),
            Some(op) => self.tk("tOP_ASGN", &format!("{}=", op)),
        };
        self.sp_nl();
        let rhs = if n < 1 && self.t.chance(1, 8) {
            self.command_asgn_in(follow, n + 1)
        } else if self.no_nl == 0 && self.t.chance(1, 12) {
            self.endless(X { follow, ..X::ANY }, true)
        } else if self.t.chance(1, 10) {
            let c = self.command(X { follow: 5, ..X::ANY }, true);
            self.sp();
            let k = self.tk("kRESCUE_MOD", "rescue");
            self.sp();
            let b = self.expr(X { first: 2, follow, ..X::ANY });
            rescue_node(c, k, b)
        } else {
            self.command(X { follow, ..X::ANY }, true)
        };
        self.label("assignment of a command call");
        match op {
            None => assign_node(lhs, o, rhs),
            Some(op) => self.op_asgn_node(lhs, op, o, rhs),
        }
    }

    // ---- small statements ----

    fn fitem(&mut self) -> T {
        match self.t.draw(9) {
            0 | 1 => return self.plain_symbol(),
            2 => return self.quoted_symbol(),
            3 => return self.percent_symbol(),
            _ => {}
        }
        let (n, l) = self.fname(true);
        T::new("Sym").s("name", n).e(l)
    }

    fn alias(&mut self) -> T {
        let k = self.tk("kALIAS", "alias");
        self.sp();
        self.label("alias");
        let (a, b);
        if self.t.chance(1, 4) {
            a = self.gvar();
            self.sp();
            b = if self.t.chance(1, 3) {
                let n = *self.t.pick(&["$&", "$`", "$'", "$+"]);
                let l = self.tk("tBACK_REF", n);
                T::new("BackRef").s("name", n).e(l)
            } else {
                self.gvar()
            };
        } else {
            a = self.fitem();
            self.sp();
            b = self.fitem();
        }
        let e = join(k, b.ex());
        T::new("Alias").n("to", a).n("from", b).l("keyword_l", k).e(e)
    }

    fn undef(&mut self) -> T {
        let k = self.tk("kUNDEF", "undef");
        self.sp();
        self.label("undef");
        let mut v = vec![self.fitem()];
        for _ in 0..self.t.draw(3) {
            self.tk("tCOMMA", ",");
            self.sp();
            v.push(self.fitem());
        }
        let e = join(k, v.last().unwrap().ex());
        T::new("Undef").li("names", v).l("keyword_l", k).e(e)
    }

    fn postexe(&mut self) -> T {
        let k = self.tk("klEND", "END");
        self.sp_or_none();
        let b = self.tk("tLCURLY", "{");
        self.label("END");
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let body = self.body(b'}', true);
        self.env.void_ok = void;
        let e = self.tk("tRCURLY", "}");
        T::new("Postexe").on("body", body).l("keyword_l", k).l("begin_l", b).l("end_l", e).e(join(k, e))
    }

    fn void_stmt(&mut self) -> T {
        if self.env.in_rescue && self.t.chance(1, 4) {
            let l = self.tk("kRETRY", "retry");
            self.label("retry");
            return T::new("Retry").e(l);
        }
        let ret = self.env.in_def || !self.env.in_class || self.env.scopes.last().unwrap().dynamic;
        let lp = self.env.in_loop;
        let w = [if ret { 4 } else { 0 }, if lp { 2 } else { 0 }, if lp { 2 } else { 0 }, if lp { 1 } else { 0 }];
        if w.iter().sum::<usize>() == 0 {
            return self.leaf(X::ANY);
        }
        self.label("return/break/next/redo");
        let (w, k, kind) = [("return", "kRETURN", "Return"), ("break", "kBREAK", "Break"), ("next", "kNEXT", "Next"), ("redo", "kREDO", "Redo")][self.t.weighted(&w)];
        let kl = self.tk(k, w);
        if kind == "Redo" {
            return T::new(kind).e(kl);
        }
        if self.t.chance(1, 3) {
            return T::new(kind).l("keyword_l", kl).e(kl);
        }
        self.sp();
        if self.env.no_do == 0 && self.t.chance(1, 8) && self.spend() {
            // the block belongs to the call, not to the keyword
            let void = std::mem::replace(&mut self.env.void_ok, false);
            let c = self.command_of(X { first: 2, ..X::ANY }, Some(true));
            self.env.void_ok = void;
            self.label("return of a command call with a block");
            let e = join(kl, c.ex());
            return T::new(kind).li("args", vec![c]).l("keyword_l", kl).e(e);
        }
        let (args, _) = self.command_args(X::ANY, true, false, true);
        let e = join(kl, args.last().unwrap().ex());
        T::new(kind).li("args", args).l("keyword_l", kl).e(e)
    }

    /// A void statement in parentheses.
    pub fn void_paren(&mut self) -> T {
        let b = self.tk("tLPAREN", "(");
        let s = self.in_brackets(|g| {
            let void = std::mem::replace(&mut g.env.void_ok, true);
            let s = g.void_stmt();
            g.env.void_ok = void;
            s
        });
        let e = self.tk("tRPAREN", ")");
        self.label("branch without a value");
        begin_node(b, Some(s), e)
    }

    // ---- control structures ----

    fn condition(&mut self, no_do: bool) -> T {
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let d = self.env.no_do;
        self.env.no_do |= if no_do { 2 } else { 0 };
        let c = self.expr(X::ANY);
        self.env.no_do = d;
        self.env.void_ok = void;
        c
    }

    /// An expression that starts with a keyword and ends with `end`.
    pub fn keyword_expr(&mut self) -> T {
        match self.t.weighted(&[6, 3, 2, 2, 2, 3]) {
            0 => self.if_expr(),
            1 => self.unless_expr(),
            2 => self.loop_expr("while", "kWHILE", "While"),
            3 => self.loop_expr("until", "kUNTIL", "Until"),
            4 => self.for_expr(),
            _ => self.case(),
        }
    }

    fn if_expr(&mut self) -> T {
        let k = self.tk("kIF", "if");
        self.sp_nl();
        self.label("if");
        self.if_rest(k, true)
    }
    fn if_rest(&mut self, k: L, outer: bool) -> T {
        let c = cond(self.condition(false));
        let (tl, kw) = self.then(false);
        // one of two branches may lack a value
        let void = self.env.void_ok;
        let first = self.t.chance(1, 2);
        self.env.void_ok = void || first;
        let body = self.kw_stmts(kw, false);
        self.env.void_ok = void || !first;
        let mut end = body.as_ref().map(|b| b.ex()).unwrap_or(tl);
        let mut else_l = None;
        let mut else_ = None;
        match self.t.weighted(&[5, 4, 2]) {
            1 => {
                let l = self.tk("kELSE", "else");
                else_l = Some(l);
                else_ = self.kw_stmts(true, false);
                end = else_.as_ref().map(|b| b.ex()).unwrap_or(l);
            }
            2 if self.spend() => {
                let l = self.tk("kELSIF", "elsif");
                self.sp_nl();
                self.label("elsif");
                else_l = Some(l);
                let t = self.if_rest(l, false);
                end = t.ex();
                else_ = Some(t);
            }
            _ => {}
        }
        self.env.void_ok = void;
        let mut end_l = None;
        if outer {
            let e = self.tk("kEND", "end");
            end_l = Some(e);
            end = e;
        }
        T::new("If").n("cond", c).on("if_true", body).on("if_false", else_).l("keyword_l", k).l("begin_l", tl).ol("else_l", else_l).ol("end_l", end_l).e(join(k, end))
    }
    fn unless_expr(&mut self) -> T {
        let k = self.tk("kUNLESS", "unless");
        self.sp_nl();
        self.label("unless");
        let c = cond(self.condition(false));
        let (tl, kw) = self.then(false);
        let void = self.env.void_ok;
        let first = self.t.chance(1, 2);
        self.env.void_ok = void || first;
        let body = self.kw_stmts(kw, false);
        self.env.void_ok = void || !first;
        let mut else_l = None;
        let mut else_ = None;
        if self.t.chance(1, 3) {
            else_l = Some(self.tk("kELSE", "else"));
            else_ = self.kw_stmts(true, false);
        }
        self.env.void_ok = void;
        let e = self.tk("kEND", "end");
        T::new("If").n("cond", c).on("if_true", else_).on("if_false", body).l("keyword_l", k).l("begin_l", tl).ol("else_l", else_l).l("end_l", e).e(join(k, e))
    }
    fn do_(&mut self) -> (L, bool) {
        if self.t.chance(1, 3) {
            self.sp();
            (self.tk("kDO_COND", "do"), true)
        } else {
            (self.term1(), false)
        }
    }
    fn loop_body(&mut self, kw: bool) -> Option<T> {
        let void = std::mem::replace(&mut self.env.void_ok, true);
        let lp = std::mem::replace(&mut self.env.in_loop, true);
        let b = self.kw_stmts(kw, false);
        self.env.in_loop = lp;
        self.env.void_ok = void;
        b
    }
    fn loop_expr(&mut self, w: &'static str, tok: &'static str, kind: &'static str) -> T {
        let k = self.tk(tok, w);
        self.sp_nl();
        self.label("loop");
        let c = cond(self.condition(true));
        let (d, kw) = self.do_();
        let body = self.loop_body(kw);
        let e = self.tk("kEND", "end");
        T::new(kind).n("cond", c).on("body", body).l("keyword_l", k).l("begin_l", d).l("end_l", e).e(join(k, e))
    }
    fn for_expr(&mut self) -> T {
        let k = self.tk("kFOR", "for");
        self.sp();
        self.label("for");
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let v = if self.t.chance(1, 3) { self.mlhs() } else { self.plain_lhs() };
        self.env.void_ok = void;
        self.sp();
        let i = self.tk("kIN", "in");
        self.sp_nl();
        let it = self.condition(true);
        let (d, kw) = self.do_();
        let body = self.loop_body(kw);
        let e = self.tk("kEND", "end");
        T::new("For").n("iterator", v).n("iteratee", it).on("body", body).l("keyword_l", k).l("operator_l", i).l("begin_l", d).l("end_l", e).e(join(k, e))
    }

    pub fn case(&mut self) -> T {
        let k = self.tk("kCASE", "case");
        let pat = if self.cfg.w.patterns > 1 { self.t.chance(5, 6) } else { self.t.chance(1, 2) };
        if pat {
            return self.case_in(k);
        }
        self.label("case/when");
        let subj;
        if self.t.chance(1, 4) {
            subj = None;
            self.lead(true);
        } else {
            self.sp();
            subj = Some(self.condition(false));
            if self.t.chance(1, 5) {
                self.sp();
            } else {
                self.term();
            }
        }
        let mut whens = vec![];
        for _ in 0..self.t.range(1, 2) {
            let w = self.tk("kWHEN", "when");
            self.sp_nl();
            let mut pats: Vec<T> = vec![];
            let void = std::mem::replace(&mut self.env.void_ok, false);
            for i in 0..self.t.weighted(&[5, 2, 1]) + 1 {
                if i > 0 {
                    self.comma();
                }
                if self.t.chance(1, 10) {
                    let o = self.tk("tSTAR", "*");
                    let v = self.arg(X::ANY);
                    let e = join(o, v.ex());
                    pats.push(T::new("Splat").n("value", v).l("operator_l", o).e(e));
                } else {
                    pats.push(self.arg(X::ANY));
                }
            }
            self.env.void_ok = void;
            let (tl, kw) = self.then(false);
            let body = self.free_stmts(kw, false);
            let e = body.as_ref().map(|b| b.ex()).unwrap_or(pats.last().unwrap().ex());
            whens.push(T::new("When").li("patterns", pats).on("body", body).l("keyword_l", w).l("begin_l", tl).e(join(w, e)));
        }
        let mut else_l = None;
        let mut else_ = None;
        if self.t.chance(1, 3) {
            else_l = Some(self.tk("kELSE", "else"));
            else_ = self.free_stmts(true, false);
        }
        let e = self.tk("kEND", "end");
        T::new("Case").on("expr", subj).li("when_bodies", whens).on("else_body", else_).l("keyword_l", k).ol("else_l", else_l).l("end_l", e).e(join(k, e))
    }

    fn case_in(&mut self, k: L) -> T {
        self.label("case/in");
        self.sp();
        let subj = self.condition(false);
        self.term();
        let mut ins = vec![];
        let n = self.t.range(1, 2);
        for i in 0..n {
            let w = self.tk("kIN", "in");
            self.sp();
            let p = self.top_pattern();
            let mut guard = None;
            if self.t.chance(1, 4) && !self.beg_state() {
                self.sp();
                let u = self.t.chance(1, 2);
                let gl = if u { self.tk("kUNLESS_MOD", "unless") } else { self.tk("kIF_MOD", "if") };
                self.sp();
                let kwarg = std::mem::replace(&mut self.env.in_kwarg, true);
                let c = self.condition(false);
                self.env.in_kwarg = kwarg;
                let e = join(gl, c.ex());
                self.label("pattern guard");
                guard = Some(T::new(if u { "UnlessGuard" } else { "IfGuard" }).n("cond", c).l("keyword_l", gl).e(e));
            }
            let (tl, kw) = self.then(false);
            let body = self.free_stmts(kw, i + 1 < n);
            let e = body.as_ref().or(guard.as_ref()).unwrap_or(&p).ex();
            ins.push(T::new("InPattern").n("pattern", p).on("guard", guard).on("body", body).l("keyword_l", w).l("begin_l", tl).e(join(w, e)));
        }
        let mut else_l = None;
        let mut else_ = None;
        if self.t.chance(1, 3) {
            let l = self.tk("kELSE", "else");
            else_l = Some(l);
            else_ = Some(self.free_stmts(true, false).unwrap_or_else(|| T::new("EmptyElse").e(l)));
        }
        let e = self.tk("kEND", "end");
        T::new("CaseMatch").n("expr", subj).li("in_bodies", ins).on("else_body", else_).l("keyword_l", k).ol("else_l", else_l).l("end_l", e).e(join(k, e))
    }

    pub fn begin_end(&mut self) -> T {
        let b = self.tk("kBEGIN", "begin");
        let d = self.env.no_do;
        self.env.no_do &= 2;
        let body = self.bodystmt(true);
        self.env.no_do = d;
        let e = self.tk("kEND", "end");
        self.label("begin/end");
        let mut t = begin_node(b, body, e);
        t.kind = "KwBegin";
        t
    }

    // ---- definitions ----

    fn fresh_env(&mut self) -> Env {
        let env = self.env.clone();
        self.env.scopes.push(Scope { vars: vec![], dynamic: false });
        self.env.no_do = 0;
        self.env.numparam = None;
        self.env.numparam_taken = false;
        self.env.fwd_all = false;
        self.env.fwd_block = false;
        self.env.in_loop = false;
        self.env.in_rescue = false;
        self.env.no_decl = false;
        env
    }

    fn cpath(&mut self) -> T {
        let k = self.t.weighted(&[6, 1, 2]);
        let r = if k == 2 { self.t.draw(3) } else { 0 };
        if (k, r) == (2, 2) || k == 1 {
            // nothing needs to be between the keyword and `::`
            if self.t.chance(1, 2) {
                self.sp_nl();
            }
        } else {
            self.sp_nl();
        }
        match k {
            0 => self.constant(),
            1 => self.top_constant(),
            _ => {
                let r = match r {
                    0 => self.constant(),
                    1 => self.ivar(),
                    _ => self.top_constant(),
                };
                let d = self.tk("tCOLON2", "::");
                let n = self.const_name();
                let l = self.tk("tCONSTANT", &n);
                let e = join(r.ex(), l);
                T::new("Const").n("scope", r).s("name", n).l("double_colon_l", d).l("name_l", l).e(e)
            }
        }
    }

    /// class, module or class <<.
    pub fn module_like(&mut self) -> T {
        if self.no_nl > 0 {
            return self.leaf(X::PRIMARY);
        }
        let k = if self.env.in_def { 2 } else { self.t.draw(3) };
        match k {
            0 => {
                let kl = self.tk("kCLASS", "class");
                self.label("class");
                let name = self.cpath();
                let mut op = None;
                let mut sup = None;
                if self.t.chance(1, 3) {
                    self.sp_or_none();
                    op = Some(self.tk("tLT", "<"));
                    self.sp();
                    sup = Some(self.condition(false));
                }
                self.term();
                let env = self.fresh_env();
                self.env.in_class = true;
                self.env.in_def = false;
                self.env.void_ok = false;
                let body = self.bodystmt(false);
                self.env = env;
                let e = self.tk("kEND", "end");
                T::new("Class").n("name", name).on("superclass", sup).on("body", body).l("keyword_l", kl).ol("operator_l", op).l("end_l", e).e(join(kl, e))
            }
            1 => {
                let kl = self.tk("kMODULE", "module");
                self.label("module");
                let name = self.cpath();
                self.term();
                let env = self.fresh_env();
                self.env.in_class = true;
                self.env.in_def = false;
                self.env.void_ok = false;
                let body = self.bodystmt(false);
                self.env = env;
                let e = self.tk("kEND", "end");
                T::new("Module").n("name", name).on("body", body).l("keyword_l", kl).l("end_l", e).e(join(kl, e))
            }
            _ => {
                let kl = self.tk("kCLASS", "class");
                self.sp_or_none();
                self.label("singleton class");
                let op = self.tk("tLSHFT", "<<");
                if self.t.chance(1, 2) {
                    self.sp_nl();
                } else {
                    self.label("singleton class without a blank");
                }
                let x = self.condition(false);
                self.term1();
                let env = self.fresh_env();
                self.env.in_class = false;
                self.env.in_def = false;
                self.env.void_ok = false;
                let body = self.bodystmt(false);
                self.env = env;
                let e = self.tk("kEND", "end");
                T::new("SClass").n("expr", x).on("body", body).l("keyword_l", kl).l("operator_l", op).l("end_l", e).e(join(kl, e))
            }
        }
    }

    /// `def name` or `def obj.name`: keyword, definee, dot, name and its location.
    fn def_head(&mut self, setter: bool) -> (L, Option<(T, L)>, String, L) {
        let k = self.tk("kDEF", "def");
        self.sp();
        let mut on = None;
        if self.t.chance(1, 4) {
            let d = match self.t.weighted(&[5, 2, 2, 1, 1, 2]) {
                0 => {
                    let l = self.tk("kSELF", "self");
                    T::new("Self_").e(l)
                }
                1 => self.constant(),
                2 => self.ident(),
                3 => self.ivar(),
                4 => {
                    let (w, k, n) = *self.t.pick(&[("nil", "kNIL", "Nil"), ("true", "kTRUE", "True"), ("false", "kFALSE", "False")]);
                    let l = self.tk(k, w);
                    T::new(n).e(l)
                }
                _ => {
                    self.tk("tLPAREN2", "(");
                    self.skipnl();
                    let mut a = match self.t.draw(3) {
                        0 => self.ident(),
                        1 => self.constant(),
                        _ => self.ivar(),
                    };
                    if self.t.chance(1, 2) {
                        let d = self.tk("tDOT", ".");
                        let n = self.name();
                        let l = self.tk("tIDENTIFIER", &n);
                        let e = join(a.ex(), l);
                        a = T::new("Send").n("recv", a).s("method_name", n).l("dot_l", d).l("selector_l", l).e(e);
                    }
                    self.close_nl(true);
                    self.tk("tRPAREN", ")");
                    self.label("definee in parentheses");
                    a
                }
            };
            let dot = if self.t.chance(1, 5) { self.tk("tCOLON2", "::") } else { self.tk("tDOT", ".") };
            on = Some((d, dot));
            self.label("singleton method");
        }
        let (n, nl) = self.fname(setter);
        (k, on, n, nl)
    }

    fn def_node(&mut self, k: L, on: Option<(T, L)>, n: String, nl: L, args: Option<T>, body: Option<T>, asgn: Option<L>, end: Option<L>) -> T {
        let e = join(k, end.unwrap_or_else(|| body.as_ref().unwrap().ex()));
        let (t, rest) = match on {
            None => (T::new("Def"), None),
            Some((d, dot)) => (T::new("Defs").n("definee", d), Some(dot)),
        };
        t.s("name", n).on("args", args).on("body", body).l("keyword_l", k).ol("operator_l", rest).l("name_l", nl).ol("assignment_l", asgn).ol("end_l", end).e(e)
    }

    pub fn def(&mut self) -> T {
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let (k, on, n, nl) = self.def_head(true);
        self.label("method definition");
        let env = self.fresh_env();
        self.env.cur_arg = None;
        self.env.in_def = true;
        let paren = self.t.chance(2, 3);
        let args;
        let kw;
        if paren {
            self.osp_plain();
            args = Some(self.def_params_paren());
            kw = true;
        } else {
            args = self.def_params_bare();
            self.term1();
            kw = false;
        }
        self.env.void_ok = true;
        let body = if kw { self.bodystmt_after_paren() } else { self.bodystmt(false) };
        self.env = env;
        self.env.void_ok = void;
        let e = self.tk("kEND", "end");
        self.def_node(k, on, n, nl, args, body, None, Some(e))
    }
    fn bodystmt_after_paren(&mut self) -> Option<T> {
        self.bodystmt(true)
    }

    /// `def f(x) = value`.
    pub fn endless_def(&mut self, x: X) -> T {
        self.endless(x, false)
    }
    fn endless_command_def(&mut self) -> T {
        self.endless(X::ANY, true)
    }
    fn endless(&mut self, x: X, command: bool) -> T {
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let (k, on, n, nl) = self.def_head(false);
        self.label("endless method");
        let env = self.fresh_env();
        self.env.cur_arg = None;
        self.env.in_def = true;
        let args = if self.t.chance(2, 3) { Some(self.def_params_paren()) } else { None };
        self.sp();
        let asgn = self.tk("tEQL", "=");
        self.sp_nl();
        let rescue = self.t.chance(1, 10);
        let bx = X { min: 6, follow: if rescue { 5 } else { x.follow }, first: 0, lead: 0 };
        let mut body = if command { self.command(bx, false) } else { self.arg(bx) };
        if rescue {
            self.sp();
            let rk = self.tk("kRESCUE_MOD", "rescue");
            self.sp();
            let b = self.arg(X { min: 6, follow: x.follow, first: 2, lead: 0 });
            body = rescue_node(body, rk, b);
        }
        self.env = env;
        self.env.void_ok = void;
        self.def_node(k, on, n, nl, args, Some(body), Some(asgn), None)
    }
}
