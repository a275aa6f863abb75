//! Parameter lists.
use super::expr::X;
use super::*;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    DefParen,
    DefBare,
    Block,
    LambdaParen,
    LambdaBare,
}

struct Params {
    items: Vec<T>,
    /// One required parameter and nothing else.
    single: bool,
}

impl<'a> G<'a> {
    fn param_name(&mut self, used: &mut Vec<String>) -> String {
        for _ in 0..4 {
            let n = self.name();
            // names with an underscore may come again
            if !used.contains(&n) || n.starts_with('_') {
                if used.contains(&n) {
                    self.label("parameter name given twice");
                }
                used.push(n.clone());
                return n;
            }
        }
        for i in 0.. {
            let n = format!("v{}", i);
            if !used.contains(&n) {
                used.push(n.clone());
                return n;
            }
        }
        unreachable!()
    }

    fn pcomma(&mut self, k: Kind, first: &mut bool) {
        if *first {
            *first = false;
            return;
        }
        self.tk("tCOMMA", ",");
        if k == Kind::DefBare || k == Kind::LambdaBare || k == Kind::Block {
            self.osp();
        } else {
            self.skipnl();
        }
    }

    fn req_param(&mut self, k: Kind, used: &mut Vec<String>, first: bool) -> T {
        let bare = k == Kind::DefBare || k == Kind::LambdaBare;
        if self.t.chance(1, 6) && !(bare && first) {
            return self.destructure(used, 0);
        }
        let n = self.param_name(used);
        let l = self.tk("tIDENTIFIER", &n);
        self.declare_here(&n);
        T::new("Arg").s("name", n).e(l)
    }

    fn destructure(&mut self, used: &mut Vec<String>, depth: usize) -> T {
        let b = self.tk("tLPAREN", "(");
        self.osp();
        let n = self.t.range(1, 3);
        let rest = if self.t.chance(1, 3) { Some(self.t.draw(n)) } else { None };
        let mut items = vec![];
        for i in 0..n {
            if i > 0 {
                self.tk("tCOMMA", ",");
                self.osp();
            }
            if rest == Some(i) {
                let o = self.tk("tSTAR", "*");
                if self.t.chance(1, 3) {
                    items.push(T::new("Restarg").l("operator_l", o).e(o));
                } else {
                    let n = self.param_name(used);
                    let l = self.tk("tIDENTIFIER", &n);
                    self.declare_here(&n);
                    items.push(T::new("Restarg").s("name", n).l("operator_l", o).l("name_l", l).e(join(o, l)));
                }
            } else if depth < 2 && self.t.chance(1, 6) {
                items.push(self.destructure(used, depth + 1));
            } else {
                let n = self.param_name(used);
                let l = self.tk("tIDENTIFIER", &n);
                self.declare_here(&n);
                items.push(T::new("Arg").s("name", n).e(l));
            }
        }
        self.osp();
        let e = self.tk("tRPAREN", ")");
        self.label("destructuring parameter");
        T::new("Mlhs").li("items", items).l("begin_l", b).l("end_l", e).e(join(b, e))
    }

    fn default(&mut self, k: Kind, name: &str) -> T {
        let cur = self.env.cur_arg.replace(name.to_string());
        let d = std::mem::replace(&mut self.env.no_do, if k != Kind::DefParen { 3 } else { 0 });
        let np = self.env.numparam.take();
        let nl = self.no_nl;
        if k == Kind::DefBare || k == Kind::LambdaBare || k == Kind::Block {
            self.no_nl += 1;
        }
        let t = match k {
            Kind::Block => self.primary(X::PRIMARY),
            Kind::LambdaBare => self.leaf(X::PRIMARY),
            _ => self.arg(X::ANY),
        };
        self.no_nl = nl;
        self.env.numparam = np;
        self.env.no_do = d;
        self.env.cur_arg = cur;
        t
    }

    fn params(&mut self, k: Kind) -> Params {
        let bare = k == Kind::DefBare || k == Kind::LambdaBare;
        let tail = k != Kind::LambdaBare;
        let mut used = vec![];
        let mut items: Vec<T> = vec![];
        let mut first = true;
        let nreq = self.t.weighted(&[3, 5, 2, 1]);
        let nopt = self.t.weighted(&[6, 2, 1]);
        let rest = self.t.chance(1, 5);
        let npost = if nopt > 0 || rest { self.t.weighted(&[5, 1, 1]) } else { 0 };
        let nkw = if tail { self.t.weighted(&[5, 2, 1]) } else { 0 };
        let kwrest = if tail { self.t.weighted(&[6, 1, 1]) } else { 0 };
        let blk = tail && self.t.chance(1, 6);
        let fwd = k == Kind::DefParen && !rest && nkw == 0 && kwrest == 0 && !blk && self.t.chance(1, 6);
        for _ in 0..nreq {
            let f = first;
            self.pcomma(k, &mut first);
            items.push(self.req_param(k, &mut used, f));
        }
        for _ in 0..nopt {
            self.pcomma(k, &mut first);
            let n = self.param_name(&mut used);
            let l = self.tk("tIDENTIFIER", &n);
            self.declare_here(&n);
            self.sp_plain_or_none();
            let o = self.tk("tEQL", "=");
            self.raw(" ");
            let d = self.default(k, &n);
            let e = join(l, d.ex());
            self.label("optional parameter");
            items.push(T::new("Optarg").s("name", n).n("default", d).l("name_l", l).l("operator_l", o).e(e));
        }
        if rest {
            let f = first;
            self.pcomma(k, &mut first);
            let o = self.tk(if bare && f { "tSTAR2" } else { "tSTAR" }, "*");
            self.label("rest parameter");
            if self.t.chance(1, 3) {
                items.push(T::new("Restarg").l("operator_l", o).e(o));
            } else {
                let n = self.param_name(&mut used);
                let l = self.tk("tIDENTIFIER", &n);
                self.declare_here(&n);
                items.push(T::new("Restarg").s("name", n).l("operator_l", o).l("name_l", l).e(join(o, l)));
            }
        }
        for _ in 0..npost {
            self.pcomma(k, &mut first);
            let r = self.req_param(k, &mut used, false);
            items.push(r);
        }
        for i in 0..nkw {
            self.pcomma(k, &mut first);
            let n = self.param_name(&mut used);
            let b = self.pos();
            let nl = (b, b + n.len());
            let l = self.tkv("tLABEL", &format!("{}:", n), n.as_bytes());
            self.declare_here(&n);
            self.label("keyword parameter");
            let _ = i;
            if self.t.chance(1, 2) {
                items.push(T::new("Kwarg").s("name", n).l("name_l", nl).e(l));
            } else {
                self.raw(" ");
                let d = self.default(k, &n);
                let e = join(l, d.ex());
                items.push(T::new("Kwoptarg").s("name", n).n("default", d).l("name_l", nl).e(e));
            }
        }
        match kwrest {
            1 => {
                let f = first;
                self.pcomma(k, &mut first);
                let o = self.tk(if bare && f { "tPOW" } else { "tDSTAR" }, "**");
                if self.t.chance(1, 3) {
                    items.push(T::new("Kwrestarg").l("operator_l", o).e(o));
                } else {
                    let n = self.param_name(&mut used);
                    let l = self.tk("tIDENTIFIER", &n);
                    self.declare_here(&n);
                    items.push(T::new("Kwrestarg").s("name", n).l("operator_l", o).l("name_l", l).e(join(o, l)));
                }
            }
            2 if nkw == 0 => {
                let f = first;
                self.pcomma(k, &mut first);
                let o = self.tk(if bare && f { "tPOW" } else { "tDSTAR" }, "**");
                let l = self.tk("kNIL", "nil");
                self.label("**nil");
                items.push(T::new("Kwnilarg").l("name_l", l).e(join(o, l)));
            }
            _ => {}
        }
        if blk {
            let f = first;
            self.pcomma(k, &mut first);
            let o = self.tk(if bare && f { "tAMPER2" } else { "tAMPER" }, "&");
            self.label("block parameter");
            if self.t.chance(1, 3) && (k == Kind::DefParen || k == Kind::DefBare) {
                self.env.fwd_block = true;
                items.push(T::new("Blockarg").l("operator_l", o).e(o));
            } else {
                let n = self.param_name(&mut used);
                let l = self.tk("tIDENTIFIER", &n);
                self.declare_here(&n);
                items.push(T::new("Blockarg").s("name", n).l("operator_l", o).l("name_l", l).e(join(o, l)));
            }
        }
        if fwd {
            self.pcomma(k, &mut first);
            let l = self.tk("tBDOT3", "...");
            self.env.fwd_all = true;
            items.push(T::new("ForwardArg").e(l));
        }
        let single = nreq == 1 && items.len() == 1;
        if (k == Kind::Block || k == Kind::LambdaParen) && self.t.chance(1, 10) {
            self.osp_plain();
            self.tk("tSEMI", ";");
            self.osp_plain();
            for i in 0..self.t.range(1, 2) {
                if i > 0 {
                    self.tk("tCOMMA", ",");
                }
                let n = self.param_name(&mut used);
                let l = self.tk("tIDENTIFIER", &n);
                self.declare_here(&n);
                self.label("block-local variable");
                items.push(T::new("Shadowarg").s("name", n).e(l));
            }
        }
        Params { items, single }
    }
    fn sp_plain_or_none(&mut self) {
        if !self.t.chance(1, 4) {
            self.raw(" ");
        }
    }

    /// `|...|`
    pub fn block_params(&mut self) -> T {
        let b = self.tk("tPIPE", "|");
        if self.t.chance(1, 12) {
            let e = self.tk("tPIPE", "|");
            return T::new("Args").l("begin_l", b).l("end_l", e).e(join(b, e));
        }
        self.osp_plain();
        let Params { mut items, single } = self.params(Kind::Block);
        if single {
            if self.t.chance(1, 10) && items.len() == 1 {
                self.tk("tCOMMA", ",");
                self.label("trailing comma in block parameters");
            } else {
                let p = items.remove(0);
                let e = p.ex();
                let t = if p.kind == "Mlhs" {
                    T::new("Procarg0").li("args", p.list("items").to_vec()).l("begin_l", p.loc("begin_l").unwrap()).l("end_l", p.loc("end_l").unwrap()).e(e)
                } else {
                    T::new("Procarg0").li("args", vec![p]).e(e)
                };
                items.insert(0, t);
            }
        }
        self.osp_plain();
        let e = self.tk("tPIPE", "|");
        T::new("Args").li("args", items).l("begin_l", b).l("end_l", e).e(join(b, e))
    }

    pub fn lambda_params(&mut self) -> Option<T> {
        match self.t.weighted(&[2, 5, 3]) {
            0 => None,
            1 => {
                self.osp_plain();
                let b = self.tk("tLPAREN2", "(");
                self.osp_plain();
                let p = self.params(Kind::LambdaParen);
                self.osp_plain();
                let e = self.tk("tRPAREN", ")");
                Some(T::new("Args").li("args", p.items).l("begin_l", b).l("end_l", e).e(join(b, e)))
            }
            _ => {
                self.osp_plain();
                let p = self.params(Kind::LambdaBare);
                if p.items.is_empty() {
                    return None;
                }
                let e = join(p.items[0].ex(), p.items.last().unwrap().ex());
                Some(T::new("Args").li("args", p.items).e(e))
            }
        }
    }

    pub fn def_params_paren(&mut self) -> T {
        let b = self.tk("tLPAREN2", "(");
        self.skipnl();
        let p = self.params(Kind::DefParen);
        if p.items.last().map_or(false, |i| i.kind != "Kwarg") && self.t.chance(1, 10) {
            self.close_nl(true);
        } else {
            self.osp_plain();
        }
        let e = self.tk("tRPAREN", ")");
        T::new("Args").li("args", p.items).l("begin_l", b).l("end_l", e).e(join(b, e))
    }

    /// Parameters without parentheses; the caller writes the terminator.
    pub fn def_params_bare(&mut self) -> Option<T> {
        if self.t.chance(1, 2) {
            return None;
        }
        self.raw(" ");
        let p = self.params(Kind::DefBare);
        if p.items.is_empty() {
            return None;
        }
        let e = join(p.items[0].ex(), p.items.last().unwrap().ex());
        Some(T::new("Args").li("args", p.items).e(e))
    }
}
