//! Patterns of case/in and one-line matches.
use super::expr::X;
use super::*;

/// State of one pattern: variables bound so far, and whether more may be.
struct P {
    vars: Vec<String>,
    keys: Vec<String>,
    /// Inside an alternative: no variables.
    alt: usize,
    depth: usize,
}

impl<'a> G<'a> {
    pub fn top_pattern(&mut self) -> T {
        self.no_nl += 1;
        let void = std::mem::replace(&mut self.env.void_ok, false);
        let d = self.env.no_do;
        let mut p = P { vars: vec![], keys: vec![], alt: if self.env.no_decl { 1 } else { 0 }, depth: 0 };
        let t = match self.t.weighted(&[10, 2, 1, 2]) {
            0 => self.p_expr(&mut p),
            1 => {
                let (items, tail) = self.p_items(&mut p, true, false);
                self.p_array_node(items, tail, None)
            }
            2 => {
                let items = self.p_find_items(&mut p);
                let e = join(items[0].ex(), items.last().unwrap().ex());
                T::new("FindPattern").li("elements", items).e(e)
            }
            _ => {
                let items = self.p_hash_items(&mut p, true);
                let e = join(items[0].ex(), items.last().unwrap().ex());
                T::new("HashPattern").li("elements", items).e(e)
            }
        };
        self.env.no_do = d;
        self.env.void_ok = void;
        self.no_nl -= 1;
        self.label("pattern");
        t
    }

    fn p_var_name(&mut self, p: &mut P) -> Option<String> {
        if !self.env.no_decl && self.t.chance(1, 8) {
            // such a name may stand in alternatives, and more than once
            let n = self.t.pick(&["_y", "_", "_été"]).to_string();
            if self.env.cur_arg.as_deref() != Some(&n) {
                if p.vars.contains(&n) {
                    self.label("a pattern variable twice");
                }
                p.vars.push(n.clone());
                return Some(n);
            }
        }
        if p.alt > 0 {
            return None;
        }
        for _ in 0..3 {
            let n = self.name();
            if !p.vars.contains(&n) && self.env.cur_arg.as_deref() != Some(&n) {
                p.vars.push(n.clone());
                return Some(n);
            }
        }
        None
    }

    fn p_expr(&mut self, p: &mut P) -> T {
        let mut t = self.p_alt(p);
        while self.t.chance(1, 10) {
            let n = match self.p_var_name(p) {
                Some(n) => n,
                None => break,
            };
            self.sp();
            let o = self.tk("tASSOC", "=>");
            self.sp();
            let l = self.tk("tIDENTIFIER", &n);
            self.declare(&n);
            let v = T::new("MatchVar").s("name", n).l("name_l", l).e(l);
            let e = join(t.ex(), l);
            self.label("pattern =>");
            t = T::new("MatchAs").n("value", t).n("as_", v).l("operator_l", o).e(e);
        }
        t
    }

    fn p_alt(&mut self, p: &mut P) -> T {
        let n = if p.depth < 3 { self.t.weighted(&[8, 1, 1]) } else { 0 };
        if n > 0 {
            p.alt += 1;
        }
        let mut t = self.p_basic(p);
        for _ in 0..n {
            self.sp();
            let o = self.tk("tPIPE", "|");
            self.sp();
            let b = self.p_basic(p);
            let e = join(t.ex(), b.ex());
            self.label("pattern alternative");
            t = T::new("MatchAlt").n("lhs", t).n("rhs", b).l("operator_l", o).e(e);
        }
        if n > 0 {
            p.alt -= 1;
        }
        t
    }

    fn p_basic(&mut self, p: &mut P) -> T {
        if p.depth >= 3 || self.t.exhausted() {
            return self.p_simple(p);
        }
        p.depth += 1;
        let t = match self.t.weighted(&[6, 4, 3, 3, 3, 2]) {
            0 => self.p_simple(p),
            1 => self.p_const_with(p),
            2 => {
                let b = self.tk("tLBRACK", "[");
                self.osp();
                let t = match self.t.weighted(&[1, 5, 1]) {
                    0 => {
                        let e = self.tk("tRBRACK", "]");
                        T::new("ArrayPattern").l("begin_l", b).l("end_l", e).e(join(b, e))
                    }
                    1 => {
                        let (items, tail) = self.p_items(p, false, true);
                        self.osp();
                        let e = self.tk("tRBRACK", "]");
                        self.p_array_node(items, tail, Some((b, e)))
                    }
                    _ => {
                        let items = self.p_find_items(p);
                        self.osp();
                        let e = self.tk("tRBRACK", "]");
                        T::new("FindPattern").li("elements", items).l("begin_l", b).l("end_l", e).e(join(b, e))
                    }
                };
                t
            }
            3 => {
                let b = self.tk("tLBRACE", "{");
                self.osp();
                let items = if self.t.chance(1, 6) { vec![] } else { self.p_hash_items(p, false) };
                self.osp();
                let e = self.tk("tRCURLY", "}");
                T::new("HashPattern").li("elements", items).l("begin_l", b).l("end_l", e).e(join(b, e))
            }
            4 => {
                let b = self.tk("tLPAREN", "(");
                self.osp();
                let t = if self.t.chance(1, 5) { self.p_open_range() } else { self.p_expr(p) };
                self.osp();
                let e = self.tk("tRPAREN", ")");
                T::new("Begin").li("statements", vec![t]).l("begin_l", b).l("end_l", e).e(join(b, e))
            }
            _ => self.p_range(),
        };
        p.depth -= 1;
        t
    }

    fn p_simple(&mut self, p: &mut P) -> T {
        match self.t.weighted(&[6, 6, 3, 3]) {
            0 => {
                if let Some(n) = self.p_var_name(p) {
                    let l = self.tk("tIDENTIFIER", &n);
                    self.declare(&n);
                    T::new("MatchVar").s("name", n).l("name_l", l).e(l)
                } else {
                    self.p_primitive()
                }
            }
            1 => self.p_primitive(),
            2 => self.p_pin(),
            _ => self.p_const(),
        }
    }

    fn p_primitive(&mut self) -> T {
        match self.t.weighted(&[6, 3, 3, 2, 3, 1]) {
            0 => self.number(),
            1 => self.plain_symbol(),
            2 => self.keyword_var(),
            3 => self.neg_number(),
            4 => self.string_like(X::PRIMARY),
            _ => {
                if self.depth < self.cfg.max_depth {
                    self.depth += 1;
                    let t = self.lambda();
                    self.depth -= 1;
                    t
                } else {
                    self.number()
                }
            }
        }
    }

    fn p_num(&mut self) -> T {
        match self.t.draw(4) {
            0 => self.number(),
            1 => self.neg_number(),
            2 => self.plain_symbol_word(),
            _ => self.simple_string(),
        }
    }
    fn plain_symbol_word(&mut self) -> T {
        let b = self.tk("tSYMBEG", ":");
        let n = self.name();
        let l = self.tk("tIDENTIFIER", &n);
        T::new("Sym").s("name", n).l("begin_l", b).e(join(b, l))
    }
    fn p_range(&mut self) -> T {
        let (mut op, mut tok, mut kind) = *self.t.pick(&[("..", "tDOT2", "Irange"), ("...", "tDOT3", "Erange")]);
        if self.env.lambda_brace {
            (op, tok, kind) = ("..", "tDOT2", "Irange");
        }
        self.label("range pattern");
        if self.t.chance(1, 4) {
            let o = if op == ".." { self.tk("tBDOT2", op) } else { self.tk("tBDOT3", op) };
            self.osp();
            let b = self.p_num();
            let e = join(o, b.ex());
            return T::new(kind).n("right", b).l("operator_l", o).e(e);
        }
        let a = self.p_num();
        let ws = self.t.chance(1, 2);
        if ws {
            self.raw(" ");
        }
        let o = self.tk(tok, op);
        if ws {
            self.raw(" ");
        }
        let b = self.p_num();
        let e = join(a.ex(), b.ex());
        T::new(kind).n("left", a).n("right", b).l("operator_l", o).e(e)
    }
    fn p_open_range(&mut self) -> T {
        let (op, tok, kind) = *self.t.pick(&[("..", "tDOT2", "Irange"), ("...", "tDOT3", "Erange")]);
        let a = self.p_num();
        let o = self.tk(tok, op);
        let e = join(a.ex(), o);
        T::new(kind).n("left", a).l("operator_l", o).e(e)
    }

    fn p_pin(&mut self) -> T {
        let c = self.tk("tCARET", "^");
        self.label("pin");
        let vis: Vec<String> = self.visible().into_iter().filter(|v| !expr::is_numparam(v) && self.env.cur_arg.as_ref() != Some(v)).collect();
        let v = match self.t.weighted(&[if vis.is_empty() { 0 } else { 6 }, 1, 1, 1, 2]) {
            0 => {
                let n = vis[self.t.draw(vis.len())].clone();
                let l = self.tk("tIDENTIFIER", &n);
                T::new("Lvar").s("name", n).e(l)
            }
            1 => self.ivar(),
            2 => {
                let l = self.tk("tGVAR", "$a");
                T::new("Gvar").s("name", "$a").e(l)
            }
            3 => self.cvar(),
            _ => {
                let b = self.tk("tLPAREN", "(");
                self.osp();
                let x = self.in_brackets(|g| g.expr(X::ANY));
                self.osp();
                let e = self.tk("tRPAREN", ")");
                T::new("Begin").li("statements", vec![x]).l("begin_l", b).l("end_l", e).e(join(b, e))
            }
        };
        let e = join(c, v.ex());
        T::new("Pin").n("var", v).l("selector_l", c).e(e)
    }

    fn p_const(&mut self) -> T {
        let mut t = if self.t.chance(1, 6) { self.top_constant() } else { self.constant() };
        while self.t.chance(1, 6) {
            let d = self.tk("tCOLON2", "::");
            let n = self.const_name();
            let l = self.tk("tCONSTANT", &n);
            let e = join(t.ex(), l);
            t = T::new("Const").n("scope", t).s("name", n).l("double_colon_l", d).l("name_l", l).e(e);
        }
        t
    }

    fn p_const_with(&mut self, p: &mut P) -> T {
        let c = self.p_const();
        let (bk, bs, ek, es) = *self.t.pick(&[("tLPAREN2", "(", "tRPAREN", ")"), ("tLBRACK2", "[", "tRBRACK", "]")]);
        let b = self.tk(bk, bs);
        self.osp();
        self.label("constant pattern");
        let inner = match self.t.weighted(&[1, 4, 3, 1]) {
            0 => None,
            1 => {
                let (items, tail) = self.p_items(p, false, true);
                Some(self.p_array_node(items, tail, None))
            }
            2 => {
                let items = self.p_hash_items(p, false);
                let e = join(items[0].ex(), items.last().unwrap().ex());
                Some(T::new("HashPattern").li("elements", items).e(e))
            }
            _ => {
                let items = self.p_find_items(p);
                let e = join(items[0].ex(), items.last().unwrap().ex());
                Some(T::new("FindPattern").li("elements", items).e(e))
            }
        };
        self.osp();
        let e = self.tk(ek, es);
        let inner = inner.unwrap_or_else(|| T::new("ArrayPattern").l("begin_l", b).l("end_l", e).e(join(b, e)));
        let l = join(c.ex(), e);
        T::new("ConstPattern").n("const_", c).n("pattern", inner).l("begin_l", b).l("end_l", e).e(l)
    }

    fn p_array_node(&mut self, items: Vec<T>, tail: Option<L>, br: Option<(L, L)>) -> T {
        let kind = if tail.is_some() { "ArrayPatternWithTail" } else { "ArrayPattern" };
        let e = match br {
            Some((b, e)) => join(b, e),
            None => join(items[0].ex(), tail.unwrap_or(items.last().unwrap().ex())),
        };
        call::paren_locs(T::new(kind).li("elements", items), br).e(e)
    }

    fn p_rest(&mut self, p: &mut P) -> T {
        let o = self.tk("tSTAR", "*");
        self.label("splat pattern");
        if self.t.chance(1, 2) {
            if let Some(n) = self.p_var_name(p) {
                let l = self.tk("tIDENTIFIER", &n);
                self.declare(&n);
                let v = T::new("MatchVar").s("name", n).l("name_l", l).e(l);
                return T::new("MatchRest").n("name", v).l("operator_l", o).e(join(o, l));
            }
        }
        T::new("MatchRest").l("operator_l", o).e(o)
    }

    /// Elements with at most one splat; second result: the comma at the end, if any.
    /// `top`: without brackets, where a single element alone would not be an array pattern.
    fn p_items(&mut self, p: &mut P, top: bool, trailing: bool) -> (Vec<T>, Option<L>) {
        let _ = trailing;
        let n = self.t.range(1, 3);
        let splat = if self.t.chance(1, 3) { Some(self.t.draw(n)) } else { None };
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.tk("tCOMMA", ",");
                self.sp();
            }
            if splat == Some(i) {
                v.push(self.p_rest(p));
            } else {
                v.push(self.p_expr(p));
            }
        }
        let mut tail = None;
        if splat.is_none() && ((top && n == 1) || self.t.chance(1, 10)) {
            tail = Some(self.tk("tCOMMA", ","));
            self.label("array pattern with trailing comma");
        }
        (v, tail)
    }

    fn p_find_items(&mut self, p: &mut P) -> Vec<T> {
        self.label("find pattern");
        let mut v = vec![self.p_rest(p)];
        for _ in 0..self.t.range(1, 2) {
            self.tk("tCOMMA", ",");
            self.sp();
            v.push(self.p_expr(p));
        }
        self.tk("tCOMMA", ",");
        self.sp();
        v.push(self.p_rest(p));
        v
    }

    fn p_hash_items(&mut self, p: &mut P, top: bool) -> Vec<T> {
        self.label("hash pattern");
        let keys = std::mem::take(&mut p.keys);
        let n = self.t.range(0, 2);
        let mut v = vec![];
        for _ in 0..n {
            if !v.is_empty() {
                self.tk("tCOMMA", ",");
                self.sp();
            }
            v.push(self.p_kw(p, top));
        }
        if v.is_empty() || self.t.chance(1, 4) {
            if !v.is_empty() {
                self.tk("tCOMMA", ",");
                self.sp();
            }
            let o = self.tk("tDSTAR", "**");
            match self.t.draw(3) {
                0 => {
                    let l = self.tk("kNIL", "nil");
                    v.push(T::new("MatchNilPattern").l("operator_l", o).l("name_l", l).e(join(o, l)));
                }
                1 => v.push(T::new("MatchRest").l("operator_l", o).e(o)),
                _ => match self.p_var_name(p) {
                    Some(n) => {
                        let l = self.tk("tIDENTIFIER", &n);
                        self.declare(&n);
                        let mv = T::new("MatchVar").s("name", n).l("name_l", l).e(l);
                        v.push(T::new("MatchRest").n("name", mv).l("operator_l", o).e(join(o, l)));
                    }
                    None => v.push(T::new("MatchRest").l("operator_l", o).e(o)),
                },
            }
        } else if self.t.chance(1, 10) && !self.shorthand_last() {
            self.tk("tCOMMA", ",");
        }
        p.keys = keys;
        v
    }

    fn p_kw(&mut self, p: &mut P, _top: bool) -> T {
        // key: pattern, or key: alone, which binds a variable
        if self.t.chance(1, 3) {
            if let Some(n) = self.p_var_name(p) {
                if !p.keys.contains(&n) {
                    p.keys.push(n.clone());
                    let b = self.pos();
                    let nl = (b, b + n.len());
                    self.label("key binding a variable");
                    if self.t.chance(1, 5) {
                        // "key":
                        let sb = self.tk("tSTRING_BEG", "\"");
                        let c = self.tk("tSTRING_CONTENT", &n);
                        let e = self.tk("tLABEL_END", "\":");
                        self.declare(&n);
                        return T::new("MatchVar").s("name", n).l("name_l", c).e(join(sb, e));
                    }
                    let l = self.tkv("tLABEL", &format!("{}:", n), n.as_bytes());
                    self.declare(&n);
                    return T::new("MatchVar").s("name", n).l("name_l", nl).e(l);
                }
            }
        }
        let mut n = self.label_name();
        let mut i = 0;
        while p.keys.contains(&n) {
            n = format!("k{}", i);
            i += 1;
        }
        p.keys.push(n.clone());
        let b = self.pos();
        let (k, op, l);
        if self.t.chance(1, 6) {
            let sb = self.tk("tSTRING_BEG", "\"");
            self.tk("tSTRING_CONTENT", &n);
            let e = self.tk("tLABEL_END", "\":");
            let q = (e.0, e.0 + 1);
            k = T::new("Sym").s("name", &n).l("begin_l", sb).l("end_l", q).e(join(sb, q));
            op = (e.0 + 1, e.1);
            l = join(sb, e);
        } else {
            let kl = (b, b + n.len());
            l = self.tkv("tLABEL", &format!("{}:", n), n.as_bytes());
            k = T::new("Sym").s("name", &n).e(kl);
            op = (kl.1, l.1);
        }
        self.sp();
        let keys = std::mem::take(&mut p.keys);
        let v = self.p_expr(p);
        p.keys = keys;
        let e = join(l, v.ex());
        T::new("Pair").n("key", k).n("value", v).l("operator_l", op).e(e)
    }
}
