//! Primaries: literals, calls, blocks and everything that closes itself.
use super::expr::{cond, X};
use super::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Ctx {
    /// Arguments of a call: trailing pairs are keyword arguments.
    Call,
    /// Elements of an array: trailing pairs are a hash.
    Plain,
}

pub fn paren_locs(t: T, p: Option<(L, L)>) -> T {
    match p {
        Some((a, b)) => t.l("begin_l", a).l("end_l", b),
        None => t,
    }
}

/// A method call.
pub fn call_node(recv: Option<T>, dot: Option<(&'static str, L)>, name: &str, sel: Option<L>, paren: Option<(L, L)>, args: Vec<T>) -> T {
    let b = recv.as_ref().map(|r| r.ex()).or(sel).unwrap();
    let e = paren.map(|p| p.1).or(args.last().map(|a| a.ex())).or(sel).unwrap();
    let kind = if dot.map_or(false, |d| d.0 == "tANDDOT") { "CSend" } else { "Send" };
    let t = T::new(kind).on("recv", recv).s("method_name", name).li("args", args).ol("dot_l", dot.map(|d| d.1)).ol("selector_l", sel);
    paren_locs(t, paren).e(join(b, e))
}

impl<'a> G<'a> {
    /// The simplest expressions.
    pub fn leaf(&mut self, x: X) -> T {
        let num = if x.lead & 1 != 0 { 0 } else { 3 };
        let neg = if x.follow <= 17 { 1 } else { 0 };
        let np = if self.env.numparam.is_some() { 6 } else { 0 };
        let W { numbers, vars, strings, .. } = self.cfg.w;
        match self.t.weighted(&[10 * vars, num * numbers, 2, 2, 1, 1, 1, 2, 2, 1, neg * numbers, np, strings, numbers]) {
            0 => self.ident(),
            1 => self.number(),
            2 => self.keyword_var(),
            3 => self.ivar(),
            4 => self.gvar(),
            5 => self.cvar(),
            6 => self.backref(),
            7 => self.constant(),
            8 => self.plain_symbol(),
            9 => {
                let n = self.name() + *self.t.pick(&["?", "!"]);
                let l = self.tk("tFID", &n);
                T::new("Send").s("method_name", n).l("selector_l", l).e(l)
            }
            10 => self.neg_number(),
            11 => {
                let n = self.t.draw(9) + 1;
                let s = format!("_{}", n);
                let l = self.tk("tIDENTIFIER", &s);
                let top = self.nummax.last_mut().unwrap();
                *top = (*top).max(n);
                self.declare_here(&s);
                self.label("numbered parameter");
                T::new("Lvar").s("name", s).e(l)
            }
            12 => self.simple_string(),
            _ => {
                if self.t.chance(1, 2) {
                    self.plus_number()
                } else {
                    self.top_constant()
                }
            }
        }
    }

    /// An expression that nothing from outside can break into.
    pub fn primary(&mut self, x: X) -> T {
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let mut t = self.primary_base(x);
        for _ in 0..3 {
            if self.t.chance(2, 5) && self.depth < self.cfg.max_depth + 2 {
                t = self.postfix(t);
            } else {
                break;
            }
        }
        self.env.void_ok = void;
        t
    }

    fn primary_base(&mut self, x: X) -> T {
        if !self.spend() {
            return self.leaf(X { follow: x.follow.max(if x.min == 20 { 0 } else { 0 }), ..x });
        }
        self.depth += 1;
        let t = self.primary_choose(x);
        self.depth -= 1;
        t
    }

    fn primary_choose(&mut self, x: X) -> T {
        let hash = if x.first == 1 { 0 } else { 4 };
        let kw = if x.first == 0 { 2 } else { 0 };
        let lam = 2;
        let yl = if self.env.in_def { 1 } else { 0 };
        let big = if self.no_nl > 0 { 0 } else { 1 };
        let W { strings, heredocs, calls, params, patterns, stmts, vars, .. } = self.cfg.w;
        let w = [6, 9 * strings.max(heredocs), 5, hash, 5, 7 * calls.max(params.min(3)), lam * params.max(vars), 2 * stmts, kw * stmts, 1, big * 2 * params.max(vars), yl, 2 * calls, 1, patterns, big * 2 * vars.max(stmts), 2 * calls];
        match self.t.weighted(&w) {
            0 => self.leaf(x),
            1 => self.string_like(x),
            2 => self.array(),
            3 => self.hash(),
            4 => self.paren(x),
            5 => self.fcall(),
            6 => self.lambda(),
            7 => self.begin_end(),
            8 => self.keyword_expr(),
            9 => {
                // defined?(x)
                let k = self.tk("kDEFINED", "defined?");
                let b = self.tk("tLPAREN2", "(");
                self.skipnl();
                let a = self.in_brackets(|g| g.expr(X::ANY));
                self.close_nl(true);
                let e = self.tk("tRPAREN", ")");
                T::new("Defined").n("value", a).l("keyword_l", k).l("begin_l", b).l("end_l", e).e(join(k, e))
            }
            10 => self.def(),
            11 => {
                let k = self.tk("kYIELD", "yield");
                self.label("yield");
                if self.t.chance(1, 2) {
                    return T::new("Yield").l("keyword_l", k).e(k);
                }
                let b = self.tk("tLPAREN2", "(");
                let (args, _) = self.call_args_in("yield", true, false);
                let e = self.tk("tRPAREN", ")");
                T::new("Yield").li("args", args).l("keyword_l", k).l("begin_l", b).l("end_l", e).e(join(k, e))
            }
            12 => self.super_call(),
            13 => {
                let k = self.tk("kNOT", "not");
                let b = self.tk("tLPAREN2", "(");
                if self.t.chance(1, 4) {
                    self.osp();
                    let e = self.tk("tRPAREN", ")");
                    let r = T::new("Begin").l("begin_l", b).l("end_l", e).e(join(b, e));
                    return T::new("Send").n("recv", r).s("method_name", "!").l("selector_l", k).e(join(k, e));
                }
                self.skipnl();
                let a = self.in_brackets(|g| g.expr(X::ANY));
                self.close_nl(true);
                let e = self.tk("tRPAREN", ")");
                T::new("Send").n("recv", cond(a)).s("method_name", "!").l("selector_l", k).l("begin_l", b).l("end_l", e).e(join(k, e))
            }
            14 => self.case(),
            15 => self.module_like(),
            _ => {
                let t = self.leaf(X { follow: 20, ..x });
                self.postfix(t)
            }
        }
    }

    /// Within brackets `do` is free again and nothing outside matters.
    pub fn in_brackets<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        let d = std::mem::replace(&mut self.env.no_do, 0);
        let r = f(self);
        self.env.no_do = d;
        r
    }

    /// One end of a range: what matters in conditions more often than elsewhere.
    fn range_end(&mut self, x: X) -> T {
        match self.t.draw(8) {
            0 => self.regexp(x),
            1 => self.paren(x),
            _ => self.arg(x),
        }
    }

    pub fn paren(&mut self, x: X) -> T {
        if x.first == 1 {
            let b = self.tk("tLPAREN_ARG", "(");
            self.label("argument in parentheses after a blank");
            self.osp();
            let s = if self.t.chance(1, 12) { None } else { Some(self.in_brackets(|g| g.stmt())) };
            if s.is_some() && self.no_nl == 0 && !self.beg_state() && self.t.chance(1, 10) {
                // one newline only: the lexer is at the end of an argument here
                let at = self.toks.len();
                let l = self.bare_newline();
                self.toks.insert(at, TokItem::Tok(Tok { kind: "tNL", val: b"\n".to_vec(), loc: l }));
            } else {
                self.osp();
            }
            let e = self.tk("tRPAREN", ")");
            return begin_node(b, s, e);
        }
        let b = self.tk("tLPAREN", "(");
        self.skipnl();
        self.label("parentheses");
        if self.t.chance(1, 8) {
            // open ranges
            self.label("open range");
            let (op, name) = *self.t.pick(&[("..", "Irange"), ("...", "Erange")]);
            let r;
            if self.t.chance(1, 2) {
                let o = self.tk(if op == ".." { "tBDOT2" } else { "tBDOT3" }, op);
                self.osp();
                let a = self.in_brackets(|g| g.range_end(X { min: 8, ..X::ANY }));
                let e = join(o, a.ex());
                r = T::new(name).n("right", a).l("operator_l", o).e(e);
                self.close_nl(true);
            } else {
                let a = self.in_brackets(|g| g.range_end(X { min: 8, follow: 7, ..X::ANY }));
                self.sp();
                let o = self.tk(if op == ".." { "tDOT2" } else { "tDOT3" }, op);
                let e = join(o, a.ex());
                r = T::new(name).n("left", a).l("operator_l", o).e(e);
            }
            let e = self.tk("tRPAREN", ")");
            return begin_node(b, Some(r), e);
        }
        let s = self.in_brackets(|g| g.stmts(b'('));
        if s.is_some() {
            self.close_nl(true);
        }
        let e = self.tk("tRPAREN", ")");
        begin_node(b, s, e)
    }

    pub fn array(&mut self) -> T {
        let b = self.tk("tLBRACK", "[");
        let (items, _) = self.call_args_in("array", false, false);
        let e = self.tk("tRBRACK", "]");
        self.label("array");
        T::new("Array").li("elements", items).l("begin_l", b).l("end_l", e).e(join(b, e))
    }

    pub fn hash(&mut self) -> T {
        let b = self.tk("tLBRACE", "{");
        self.skipnl();
        let mut pairs = vec![];
        let n = self.t.draw(4);
        for i in 0..n {
            if i > 0 {
                self.osp();
                self.tk("tCOMMA", ",");
                self.skipnl();
            }
            let p = self.in_brackets(|g| g.pair(X::ANY, i + 1 == n));
            pairs.push(p);
        }
        if n > 0 {
            if self.t.chance(1, 8) {
                self.osp();
                self.tk("tCOMMA", ",");
                self.skipnl();
            } else if self.shorthand_last() {
                self.osp_plain();
            } else {
                self.close_nl(true);
            }
        }
        let e = self.tk("tRCURLY", "}");
        self.label("hash");
        T::new("Hash").li("pairs", pairs).l("begin_l", b).l("end_l", e).e(join(b, e))
    }
    /// Was the last token a label whose value is left out?
    pub fn shorthand_last(&self) -> bool {
        matches!(self.toks.last(), Some(TokItem::Tok(t)) if t.kind == "tLABEL")
    }
    /// Blanks at the start of a line, or none.
    pub fn indentation(&mut self) {
        if self.t.chance(1, 4) {
            let s = *self.t.pick(&[" ", " ", "\t", "  ", "\u{b}", "\u{c}\t"]);
            self.raw(s);
        }
    }
    pub fn osp_plain(&mut self) {
        if self.t.chance(1, 4) {
            self.raw(" ");
        }
    }

    pub fn label_name(&mut self) -> String {
        match self.t.weighted(&[8, 2, 1, 1]) {
            0 => self.name(),
            1 => self.const_name(),
            2 => self.name() + *self.t.pick(&["?", "!"]),
            _ => self.t.pick(lit::KEYWORDS).0.replace("defined?", "defined").to_string(),
        }
    }

    /// One `key => value`, `key: value`, `key:` or `**hash`.
    pub fn pair(&mut self, x: X, last: bool) -> T {
        let _ = last;
        match self.t.weighted(&[6, 5, 2, 2, 2]) {
            1 => {
                let k = self.arg(X { follow: 0, ..x });
                self.sp_or_none_after_name();
                let o = self.tk("tASSOC", "=>");
                self.skipnl();
                let v = self.arg(X { first: 0, lead: 0, ..x });
                let e = join(k.ex(), v.ex());
                T::new("Pair").n("key", k).n("value", v).l("operator_l", o).e(e)
            }
            2 => {
                // "key": value
                let k = self.quoted_label();
                self.sp_nl();
                let v = self.arg(X { first: 0, lead: 0, ..x });
                let kl = k.ex();
                let e = join(kl, v.ex());
                T::new("Pair").n("key", k).n("value", v).l("operator_l", (kl.1, kl.1 + 1)).e(e)
            }
            3 => {
                let o = self.tk("tDSTAR", "**");
                let v = self.arg(X { first: 0, lead: 0, ..x });
                let e = join(o, v.ex());
                self.label("double splat");
                T::new("Kwsplat").n("value", v).l("operator_l", o).e(e)
            }
            4 => {
                // key:
                let n = if self.t.chance(1, 4) { self.const_name() } else { self.name() };
                if self.env.cur_arg.as_deref() == Some(&n) {
                    return self.pair_label(x);
                }
                let b = self.pos();
                let kl = (b, b + n.len());
                let l = self.tkv("tLABEL", &format!("{}:", n), n.as_bytes());
                self.label("shorthand pair");
                let v = if self.is_const(&n) { T::new("Const").s("name", &n).l("name_l", kl).e(kl) } else { self.name_ref(&n, kl) };
                let k = T::new("Sym").s("name", &n).e(kl);
                T::new("Pair").n("key", k).n("value", v).l("operator_l", (kl.1, l.1)).e(l)
            }
            _ => self.pair_label(x),
        }
    }
    pub fn is_const(&self, n: &str) -> bool {
        CONSTS.contains(&n)
    }
    fn pair_label(&mut self, x: X) -> T {
        let n = self.label_name();
        let b = self.pos();
        let kl = (b, b + n.len());
        let l = self.tkv("tLABEL", &format!("{}:", n), n.as_bytes());
        if self.env.in_kwarg {
            self.sp();
        } else {
            self.sp_nl();
        }
        let v = self.arg(X { first: 0, lead: 0, ..x });
        let e = join(l, v.ex());
        T::new("Pair").n("key", T::new("Sym").s("name", &n).e(kl)).n("value", v).l("operator_l", (kl.1, l.1)).e(e)
    }
    /// A blank before `=>`, which may be missing behind anything it does not run together with.
    fn sp_or_none_after_name(&mut self) {
        let n = self.out.len();
        // `:a==>1` is `:a=` and `=>`
        let setter = self.name_end == n && n > 2 && self.out[n - 1] == b'=' && (self.out[n - 2].is_ascii_alphanumeric() || self.out[n - 2] == b'_' || self.out.ends_with(b"[]="));
        if (setter || matches!(self.out.last(), Some(c) if c.is_ascii_alphanumeric() || b"_)]}".contains(c) && !self.out.ends_with(b":[]"))) && self.t.chance(1, 4) {
            self.label("=> without a blank before it");
            return;
        }
        self.sp();
    }

    // ---- arguments ----

    /// Arguments up to (not including) the closing bracket. Returns them and whether a block is passed.
    /// `what` names the construct; `kwargs` whether trailing pairs are keyword arguments.
    pub fn call_args_in(&mut self, what: &'static str, kwargs: bool, fwd: bool) -> (Vec<T>, bool) {
        let d = std::mem::replace(&mut self.env.no_do, 0);
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let r = self.call_args_inner(what, kwargs, fwd);
        self.env.no_do = d;
        self.env.void_ok = void;
        r
    }

    fn call_args_inner(&mut self, what: &'static str, kwargs: bool, fwd: bool) -> (Vec<T>, bool) {
        self.skipnl();
        let array = what == "array";
        let n = if self.depth >= self.cfg.max_depth { self.t.draw(2) } else { self.t.weighted(&[3, 5, 3, 1]) };
        if !array && self.t.chance(1, 25) && self.spend() {
            let c = self.command(X::ANY, false);
            self.close_nl(true);
            return (vec![c], false);
        }
        let mut items = vec![];
        let mut pairs: Vec<T> = vec![];
        let mut first = true;
        if self.t.chance(1, 500) {
            for _ in 0..self.size() {
                if !first {
                    self.tk("tCOMMA", ",");
                }
                first = false;
                let l = self.tk("tINTEGER", "1");
                items.push(T::new("Int").s("value", "1").e(l));
            }
        }
        for _ in 0..n {
            if !first {
                self.comma();
            }
            first = false;
            if self.t.chance(1, 7) {
                let o = self.tk("tSTAR", "*");
                let v = self.arg(X::ANY);
                let e = join(o, v.ex());
                self.label("splat");
                items.push(T::new("Splat").n("value", v).l("operator_l", o).e(e));
            } else {
                items.push(self.arg(X::ANY));
            }
        }
        if fwd && self.env.fwd_all && self.t.chance(1, 2) {
            if !first {
                self.comma();
            }
            let l = self.tk("tBDOT3", "...");
            self.label("forwarded arguments");
            items.push(T::new("ForwardedArgs").e(l));
            self.close_nl(false);
            return (items, true);
        }
        if self.t.chance(1, 5) {
            for _ in 0..self.t.range(1, 2) {
                if !first {
                    self.comma();
                }
                first = false;
                let p = self.pair(X::ANY, false);
                pairs.push(p);
            }
        }
        let had_pairs = !pairs.is_empty();
        if had_pairs {
            let e = join(pairs[0].ex(), pairs.last().unwrap().ex());
            items.push(T::new(if kwargs { "Kwargs" } else { "Hash" }).li("pairs", pairs).e(e));
        }
        let mut blk = false;
        if !array && what != "tRBRACK" && what != "yield" && self.t.chance(1, 8) {
            if !first {
                self.comma();
            }
            first = false;
            blk = true;
            items.push(self.block_pass());
        }
        let short = self.shorthand_last();
        if !first && !blk && self.t.chance(1, 10) && what != "yield" {
            self.osp();
            self.tk("tCOMMA", ",");
            self.skipnl();
        } else if !first && !short {
            self.close_nl(true);
        } else {
            self.osp_plain();
        }
        (items, blk)
    }
    pub fn comma(&mut self) {
        if self.t.chance(1, 8) {
            self.raw(" ");
        }
        self.tk("tCOMMA", ",");
        self.skipnl();
    }
    fn block_pass(&mut self) -> T {
        let o = self.tk("tAMPER", "&");
        self.label("block pass");
        if self.env.fwd_block && self.t.chance(1, 2) {
            return T::new("BlockPass").l("operator_l", o).e(o);
        }
        let v = self.arg(X::ANY);
        let e = join(o, v.ex());
        T::new("BlockPass").n("value", v).l("operator_l", o).e(e)
    }

    /// Arguments of a call without parentheses; a blank has been written. `mid`: after return, break, next.
    pub fn command_args(&mut self, x: X, mid: bool, kwargs: bool, yld: bool) -> (Vec<T>, bool) {
        let d = self.env.no_do;
        self.env.no_do |= 1;
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let fx = if mid { X { follow: x.follow, ..X::MID } } else { X { follow: x.follow, ..X::FIRST } };
        let r = self.command_args_inner(fx, kwargs, yld);
        self.env.no_do = d;
        self.env.void_ok = void;
        r
    }
    fn command_args_inner(&mut self, fx: X, kwargs: bool, yld: bool) -> (Vec<T>, bool) {
        if self.t.chance(1, 14) && self.spend() {
            self.depth += 1;
            let c = self.command(X { first: fx.first, ..fx }, false);
            self.depth -= 1;
            // no `do` behind `a b (c) { }`: the grammar is done with the arguments at the brace
            return (vec![c], self.brace_arg_end == self.pos());
        }
        let kinds = self.t.weighted(&[8, 3, if yld { 0 } else { 1 }]);
        let mut items = vec![];
        let mut n = 0;
        if kinds == 0 {
            let k = self.t.range(1, 3);
            for i in 0..k {
                if n > 0 {
                    self.comma();
                }
                n += 1;
                let x = X { first: if i == 0 { fx.first } else { 0 }, ..fx };
                if self.t.chance(1, 8) {
                    let o = self.tk("tSTAR", "*");
                    let v = self.arg(X { first: 0, ..x });
                    let e = join(o, v.ex());
                    items.push(T::new("Splat").n("value", v).l("operator_l", o).e(e));
                } else {
                    items.push(self.arg(x));
                }
            }
        }
        if kinds == 1 || (kinds == 0 && self.t.chance(1, 6)) {
            let mut pairs = vec![];
            for _ in 0..self.t.range(1, 2) {
                if n > 0 {
                    self.comma();
                }
                let first = if n == 0 { fx.first } else { 0 };
                n += 1;
                pairs.push(self.pair_no_shorthand(X { first, ..fx }));
            }
            let e = join(pairs[0].ex(), pairs.last().unwrap().ex());
            items.push(T::new(if kwargs { "Kwargs" } else { "Hash" }).li("pairs", pairs).e(e));
        }
        let mut blk = false;
        if !yld && (kinds == 2 || self.t.chance(1, 12)) {
            if n > 0 {
                self.comma();
            }
            blk = true;
            let o = self.tk("tAMPER", "&");
            let v = self.arg(X { first: 0, ..fx });
            let e = join(o, v.ex());
            items.push(T::new("BlockPass").n("value", v).l("operator_l", o).e(e));
        }
        (items, blk)
    }
    /// A pair that says its value: `f a:` would take the next line.
    fn pair_no_shorthand(&mut self, x: X) -> T {
        // no labels after return
        let lab = if x.first == 2 { 0 } else { 1 };
        match self.t.weighted(&[4 * lab, 3, lab, 1]) {
            1 => {
                let k = self.arg(X { follow: 0, ..x });
                self.sp();
                let o = self.tk("tASSOC", "=>");
                self.skipnl();
                let v = self.arg(X { first: 0, lead: 0, ..x });
                let e = join(k.ex(), v.ex());
                T::new("Pair").n("key", k).n("value", v).l("operator_l", o).e(e)
            }
            2 => {
                let k = self.quoted_label();
                self.sp();
                let v = self.arg(X { first: 0, lead: 0, ..x });
                let kl = k.ex();
                let e = join(kl, v.ex());
                T::new("Pair").n("key", k).n("value", v).l("operator_l", (kl.1, kl.1 + 1)).e(e)
            }
            3 => {
                let o = self.tk("tDSTAR", "**");
                let v = self.arg(X { first: 0, lead: 0, ..x });
                let e = join(o, v.ex());
                T::new("Kwsplat").n("value", v).l("operator_l", o).e(e)
            }
            _ => self.pair_label(x),
        }
    }

    // ---- calls ----

    /// A method name behind a dot.
    fn dot_name(&mut self) -> (String, L) {
        match self.t.weighted(&[10, 2, 2, 2, 1]) {
            0 => {
                let n = self.name();
                let l = self.tk("tIDENTIFIER", &n);
                (n, l)
            }
            1 => {
                let n = self.const_name();
                let l = self.tk("tCONSTANT", &n);
                (n, l)
            }
            2 => {
                let n = self.name() + *self.t.pick(&["?", "!"]);
                let l = self.tk("tFID", &n);
                (n, l)
            }
            3 => {
                let n = self.t.pick(lit::KEYWORDS).0;
                let (k, n) = match n {
                    "defined?" => ("tFID", n),
                    "BEGIN" | "END" => ("tCONSTANT", n),
                    n => ("tIDENTIFIER", n),
                };
                let l = self.tk(k, n);
                (n.to_string(), l)
            }
            _ => {
                let ops: Vec<_> = lit::OPNAMES.iter().filter(|o| !o.0.starts_with('[') && o.0 != "&" && o.0 != "|").collect();
                let (n, k) = **self.t.pick(&ops);
                let r = self.op_name(n, k);
                self.name_end = self.pos();
                r
            }
        }
    }

    fn dot(&mut self) -> (&'static str, L) {
        // a chain may go on at the next line
        if self.no_nl == 0 && !self.pending() && self.t.chance(1, 12) {
            let c = self.cfg.comments;
            self.nl_plain(c);
            self.label("leading dot");
        } else if self.t.chance(1, 30) {
            self.sp();
            self.label("blanks around a dot");
        }
        let d = if self.t.chance(1, 4) && !(self.name_end == self.pos() && self.out.last() == Some(&b'&')) { ("tANDDOT", self.tk("tANDDOT", "&.")) } else { ("tDOT", self.tk("tDOT", ".")) };
        if self.no_nl == 0 && self.t.chance(1, 25) {
            self.nl();
        } else if self.t.chance(1, 30) {
            self.sp();
            self.label("blanks around a dot");
        }
        d
    }

    pub fn postfix(&mut self, r: T) -> T {
        match self.t.weighted(&[6, 6, 3, 2, 2, 1, 1]) {
            0 => {
                let d = self.dot();
                let (n, l) = self.dot_name();
                let t = call_node(Some(r), Some(d), &n, Some(l), None, vec![]);
                self.maybe_block(t, false)
            }
            1 => {
                let d = self.dot();
                let (n, l) = if self.t.chance(1, 25) {
                    let (n, k) = *self.t.pick(&[("[]", "tAREF"), ("[]=", "tASET"), ("&", "tAMPER2"), ("|", "tPIPE")]);
                    self.op_name(n, k)
                } else {
                    self.dot_name()
                };
                let b = self.tk("tLPAREN2", "(");
                let (args, blk) = self.call_args_in("call", true, true);
                let e = self.tk("tRPAREN", ")");
                self.label("method call");
                let t = call_node(Some(r), Some(d), &n, Some(l), Some((b, e)), args);
                self.maybe_block(t, blk)
            }
            2 => {
                if self.end_state() && self.t.chance(1, 8) {
                    self.sp();
                    self.label("blank before [ of an index");
                }
                let b = self.tk("tLBRACK2", "[");
                let (args, _) = self.call_args_in("index", true, false);
                let e = self.tk("tRBRACK", "]");
                let l = join(r.ex(), e);
                self.label("index");
                T::new("Index").n("recv", r).li("indexes", args).l("begin_l", b).l("end_l", e).e(l)
            }
            3 => {
                if self.end_state() && self.t.chance(1, 10) {
                    self.sp();
                    self.label("blank before ::");
                }
                let d = self.tk("tCOLON2", "::");
                if self.t.chance(1, 20) {
                    self.sp();
                }
                let n = self.const_name();
                let l = self.tk("tCONSTANT", &n);
                if self.t.chance(1, 4) {
                    let b = self.tk("tLPAREN2", "(");
                    let (args, blk) = self.call_args_in("call", true, true);
                    let e = self.tk("tRPAREN", ")");
                    let t = call_node(Some(r), Some(("tCOLON2", d)), &n, Some(l), Some((b, e)), args);
                    return self.maybe_block(t, blk);
                }
                let e = join(r.ex(), l);
                T::new("Const").n("scope", r).s("name", n).l("double_colon_l", d).l("name_l", l).e(e)
            }
            4 => {
                let d = self.tk("tCOLON2", "::");
                let n = self.name();
                let l = self.tk("tIDENTIFIER", &n);
                if self.t.chance(1, 2) {
                    let b = self.tk("tLPAREN2", "(");
                    let (args, blk) = self.call_args_in("call", true, true);
                    let e = self.tk("tRPAREN", ")");
                    let t = call_node(Some(r), Some(("tCOLON2", d)), &n, Some(l), Some((b, e)), args);
                    return self.maybe_block(t, blk);
                }
                let t = call_node(Some(r), Some(("tCOLON2", d)), &n, Some(l), None, vec![]);
                self.maybe_block(t, false)
            }
            5 => {
                let d = if self.t.chance(1, 4) { ("tCOLON2", self.tk("tCOLON2", "::")) } else { self.dot() };
                let b = self.tk(if d.0 == "tCOLON2" { "tLPAREN2" } else { "tLPAREN2" }, "(");
                let (args, blk) = self.call_args_in("call", true, true);
                let e = self.tk("tRPAREN", ")");
                self.label("implicit call");
                let t = call_node(Some(r), Some(d), "call", None, Some((b, e)), args);
                self.maybe_block(t, blk)
            }
            _ => {
                let d = self.dot();
                let (n, l) = self.dot_name();
                let t = call_node(Some(r), Some(d), &n, Some(l), None, vec![]);
                self.block(t)
            }
        }
    }

    fn maybe_block(&mut self, t: T, passed: bool) -> T {
        if !passed && self.t.chance(1, 6) && self.spend() {
            self.block(t)
        } else {
            t
        }
    }

    fn fcall(&mut self) -> T {
        let kind = self.t.weighted(&[8, 2, 3]);
        let (n, l) = match kind {
            0 => {
                let n = self.name();
                let l = self.tk("tIDENTIFIER", &n);
                (n, l)
            }
            1 => {
                let n = self.const_name();
                let l = self.tk("tCONSTANT", &n);
                (n, l)
            }
            _ => {
                let n = self.name() + *self.t.pick(&["?", "!"]);
                let l = self.tk("tFID", &n);
                (n, l)
            }
        };
        if self.t.chance(1, 4) {
            let t = call_node(None, None, &n, Some(l), None, vec![]);
            return self.block(t);
        }
        let b = self.tk("tLPAREN2", "(");
        let (args, blk) = self.call_args_in("call", true, true);
        let e = self.tk("tRPAREN", ")");
        self.label("method call");
        let t = call_node(None, None, &n, Some(l), Some((b, e)), args);
        self.maybe_block(t, blk)
    }

    /// A name at the beginning of a statement and its do block.
    pub fn do_call(&mut self) -> T {
        let (n, k) = match self.t.draw(4) {
            0 => (self.const_name(), "tCONSTANT"),
            1 => (self.name() + *self.t.pick(&["?", "!"]), "tFID"),
            _ => (self.name(), "tIDENTIFIER"),
        };
        let n = if k == "tIDENTIFIER" && self.is_declared(&n) { "zq".to_string() } else { n };
        let l = self.tk(k, &n);
        self.label("do block of the first name of a statement inside the arguments of a command");
        let t = call_node(None, None, &n, Some(l), None, vec![]);
        self.block_with(t, false, "kDO")
    }

    fn super_call(&mut self) -> T {
        let k = self.tk("kSUPER", "super");
        self.label("super");
        if self.t.chance(1, 2) {
            let t = T::new("ZSuper").e(k);
            return self.maybe_block(t, false);
        }
        let b = self.tk("tLPAREN2", "(");
        let (args, blk) = self.call_args_in("call", true, true);
        let e = self.tk("tRPAREN", ")");
        let t = T::new("Super").li("args", args).l("keyword_l", k).l("begin_l", b).l("end_l", e).e(join(k, e));
        self.maybe_block(t, blk)
    }

    // ---- blocks ----

    /// Runs `f` in the scope of a block.
    pub fn in_block<R>(&mut self, numbered: bool, f: impl FnOnce(&mut Self) -> R) -> (R, usize) {
        let mut env = self.env.clone();
        std::mem::swap(&mut env, &mut self.env);
        self.env.scopes.push(Scope { vars: vec![], dynamic: true });
        self.env.no_do = 0;
        self.env.void_ok = true;
        self.env.in_loop = true;
        self.env.numparam_taken |= numbered;
        self.env.numparam = if numbered { Some(0) } else { None };
        self.nummax.push(0);
        let r = f(self);
        let n = self.nummax.pop().unwrap();
        let inner = std::mem::replace(&mut self.env, env);
        // assignments to outer variables are in the outer scopes already
        let k = self.env.scopes.len();
        for (i, s) in inner.scopes.into_iter().take(k).enumerate() {
            self.env.scopes[i] = s;
        }
        (r, n)
    }

    /// Adds a block to a call.
    pub fn block(&mut self, call: T) -> T {
        let brace = self.env.no_do != 0 || self.t.chance(3, 5);
        self.block_with(call, brace, "kDO")
    }
    pub fn block_with(&mut self, call: T, brace: bool, kdo: &'static str) -> T {
        self.label(if brace { "brace block" } else { "do block" });
        if brace {
            self.sp_or_none();
        } else {
            self.sp();
        }
        let b = if !brace {
            self.tk(kdo, "do")
        } else if kdo == "tLBRACE_ARG" {
            self.tk("tLBRACE_ARG", "{")
        } else {
            self.tk("tLCURLY", "{")
        };
        let numbered = !self.env.numparam_taken && self.t.chance(1, 6);
        let ((args, body), n) = self.in_block(numbered, |g| {
            let mut args = None;
            if !numbered && g.t.chance(1, 2) {
                if brace {
                    g.osp();
                } else {
                    g.sp();
                }
                args = Some(g.block_params());
            }
            let body = if brace {
                g.body(b'}', args.is_none())
            } else {
                g.body_rescue(args.is_none(), false)
            };
            (args, body)
        });
        let e = if brace { self.tk("tRCURLY", "}") } else { self.tk("kEND", "end") };
        if brace && kdo == "tLBRACE_ARG" {
            self.brace_arg_end = self.pos();
        }
        let l = join(call.ex(), e);
        if n > 0 {
            T::new("Numblock").n("call", call).num("numargs", n as u64).on("body", body).l("begin_l", b).l("end_l", e).e(l)
        } else {
            T::new("Block").n("call", call).on("args", args).on("body", body).l("begin_l", b).l("end_l", e).e(l)
        }
    }

    pub fn lambda(&mut self) -> T {
        let a = self.tk("tLAMBDA", "->");
        let call = T::new("Lambda").e(a);
        let numbered = !self.env.numparam_taken && self.t.chance(1, 8);
        self.label("lambda");
        let mut bl = (0, 0);
        let outer_no_do = self.env.no_do;
        let ((args, body, e), n) = self.in_block(numbered, |g| {
            g.env.lambda_brace = true;
            let args = if numbered { None } else { g.lambda_params() };
            g.sp_or_none();
            let brace = g.t.chance(3, 5);
            let body;
            let e;
            if brace {
                bl = g.tk("tLAMBEG", "{");
                g.env.lambda_brace = true;
                body = g.body(b'}', true);
                e = g.tk("tRCURLY", "}");
            } else {
                if !matches!(g.out.last(), Some(b' ' | b'\t' | b')' | b'\x0c' | b'\x0b' | b'>')) {
                    g.raw(" ");
                }
                bl = g.tk("kDO_LAMBDA", "do");
                // unlike braces this does not hide the condition of an enclosing loop
                g.env.no_do = outer_no_do & 2;
                body = g.body_rescue(true, false);
                e = g.tk("kEND", "end");
            }
            (args, body, e)
        });
        let l = join(a, e);
        if n > 0 {
            T::new("Numblock").n("call", call).num("numargs", n as u64).on("body", body).l("begin_l", bl).l("end_l", e).e(l)
        } else {
            T::new("Block").n("call", call).on("args", args).on("body", body).l("begin_l", bl).l("end_l", e).e(l)
        }
    }

    // ---- calls without parentheses ----

    /// A call without parentheses but with arguments. `blk`: may take a do block.
    pub fn command(&mut self, x: X, blk: bool) -> T {
        self.command_of(x, if blk { None } else { Some(false) })
    }
    /// `blk`: whether it has a do block; None leaves it open.
    pub fn command_of(&mut self, x: X, blk: Option<bool>) -> T {
        self.label("command call");
        let k = self.t.weighted(&[8, 5, 1, if self.env.in_def && blk != Some(true) { 1 } else { 0 }]);
        let (mut t, passed);
        match k {
            0 => {
                let (n, kind) = match self.t.weighted(&[6, 1, 2]) {
                    0 => (self.free_name(), "tIDENTIFIER"),
                    1 => (self.const_name(), "tCONSTANT"),
                    _ => (self.name() + *self.t.pick(&["?", "!"]), "tFID"),
                };
                // a statement begins here: its first name is no label
                // (not so at the beginning: a program may be put into parentheses, where it is one)
                let start = match self.toks.last() {
                    Some(TokItem::Tok(t)) => matches!(t.kind, "tNL" | "tSEMI" | "tSTRING_DBEG" | "tLCURLY" | "kBEGIN" | "kELSE" | "kTHEN" | "kENSURE" | "kDO"),
                    _ => false,
                };
                let l = self.tk(kind, &n);
                if start && self.t.chance(1, 8) {
                    self.label("command call with a symbol next to its name");
                    let b = self.tk("tSYMBEG", ":");
                    let s = self.name();
                    let e = join(b, self.tk("tIDENTIFIER", &s));
                    let a = T::new("Sym").s("name", s.as_str()).l("begin_l", b).e(e);
                    passed = false;
                    t = call_node(None, None, &n, Some(l), None, vec![a]);
                } else {
                    self.sp();
                    if self.t.chance(1, 20) {
                        let t = self.paren_arg();
                        let t = call_node(None, None, &n, Some(l), None, vec![t]);
                        return self.block_with(t, true, "tLBRACE_ARG");
                    }
                    let (args, p) = self.command_args(x, false, true, false);
                    passed = p;
                    t = call_node(None, None, &n, Some(l), None, args);
                }
            }
            1 => {
                let r = self.primary(X { min: 20, follow: 20, first: x.first, lead: x.lead });
                let d = if self.t.chance(1, 6) { ("tCOLON2", self.tk("tCOLON2", "::")) } else { self.dot() };
                let (n, l) = self.dot_name();
                self.sp();
                if self.t.chance(1, 20) {
                    let a = self.paren_arg();
                    let t = call_node(Some(r), Some(d), &n, Some(l), None, vec![a]);
                    return self.block_with(t, true, "tLBRACE_ARG");
                }
                let (args, p) = self.command_args(x, false, true, false);
                passed = p;
                t = call_node(Some(r), Some(d), &n, Some(l), None, args);
            }
            2 => {
                let kw = self.tk("kSUPER", "super");
                self.sp();
                let (args, p) = self.command_args(x, false, true, false);
                passed = p;
                let e = join(kw, args.last().unwrap().ex());
                t = T::new("Super").li("args", args).l("keyword_l", kw).e(e);
            }
            _ => {
                let kw = self.tk("kYIELD", "yield");
                self.sp();
                let (args, _) = self.command_args(x, false, true, true);
                passed = true;
                let e = join(kw, args.last().unwrap().ex());
                t = T::new("Yield").li("args", args).l("keyword_l", kw).e(e);
            }
        }
        if blk != Some(false) && !passed && (self.env.no_do == 0 || self.env.no_do == 4) && (blk == Some(true) || self.t.chance(1, 5) && self.spend()) {
            // The block belongs to the outermost call of `a b 1 do end`.
            t = self.block_with(t, false, "kDO_BLOCK");
            self.label("do block of a command");
            while blk.is_none() && self.t.chance(1, 6) {
                // a chain goes on
                let d = if self.t.chance(1, 6) { ("tCOLON2", self.tk("tCOLON2", "::")) } else { self.dot() };
                let (n, l) = self.dot_name();
                self.label("call on the block of a command");
                match self.t.weighted(&[3, 3, 1, 1]) {
                    0 => {
                        t = call_node(Some(t), Some(d), &n, Some(l), None, vec![]);
                        t = self.maybe_block(t, false);
                    }
                    1 => {
                        let b = self.tk("tLPAREN2", "(");
                        let (args, blk) = self.call_args_in("call", true, true);
                        let e = self.tk("tRPAREN", ")");
                        t = call_node(Some(t), Some(d), &n, Some(l), Some((b, e)), args);
                        t = self.maybe_block(t, blk);
                    }
                    k => {
                        self.sp();
                        let (args, p) = self.command_args(x, false, true, false);
                        t = call_node(Some(t), Some(d), &n, Some(l), None, args);
                        if k == 2 || p {
                            break;
                        }
                        t = self.block_with(t, false, "kDO_BLOCK");
                    }
                }
            }
        }
        t
    }
    /// `(x)` as the only argument of a call without parentheses.
    fn paren_arg(&mut self) -> T {
        let d = self.env.no_do;
        let void = std::mem::replace(&mut self.env.void_ok, false);
        // with a newline before the parenthesis the brace would not be read as that of a block
        self.no_nl += 1;
        let t = self.paren(X::FIRST);
        self.no_nl -= 1;
        self.env.no_do = d;
        self.env.void_ok = void;
        self.label("brace block behind an argument in parentheses");
        t
    }
}

/// `( statements )`.
pub fn begin_node(b: L, body: Option<T>, e: L) -> T {
    let l = join(b, e);
    match body {
        Some(mut t) if t.kind == "Begin" && t.loc("begin_l").is_none() => {
            t.set_loc("begin_l", b);
            t.set_loc("end_l", e);
            t.set_loc("expression_l", l);
            t
        }
        Some(t) => T::new("Begin").li("statements", vec![t]).l("begin_l", b).l("end_l", e).e(l),
        None => T::new("Begin").l("begin_l", b).l("end_l", e).e(l),
    }
}
