//! Generated programs against the tree, locations, tokens and comments their generator predicts.
use crate::conv::conv;
use crate::gen::{Cfg, Program, ANY, G, W};
use crate::guard::guarded;
use crate::run::{Case, Family, Prop};
use crate::tape::Tape;
use crate::tree::{diff, show, Mode, T};
use lib_ruby_parser::{ErrorLevel, Parser, ParserOptions, ParserResult};

pub fn parse(src: &[u8]) -> Result<ParserResult, String> {
    parse_with(src, ParserOptions::default())
}
pub fn parse_with(src: &[u8], o: ParserOptions) -> Result<ParserResult, String> {
    guarded(|| Parser::new(src.to_vec(), o).do_parse()).map_err(|e| format!("the parser panicked: {}", e))
}

pub fn errors(r: &ParserResult) -> Vec<String> {
    r.diagnostics.iter().filter(|d| d.level == ErrorLevel::Error).map(|d| format!("{}..{} {}", d.loc.begin, d.loc.end, d.render_message())).collect()
}

pub fn no_errors(r: &ParserResult) -> Result<(), String> {
    match errors(r).first() {
        Some(e) => Err(format!("error reported for a valid program: {}", e)),
        None => Ok(()),
    }
}

pub fn structure(p: &Program, r: &ParserResult) -> Result<(), String> {
    no_errors(r)?;
    tree(p, r, Mode::Struct)
}
pub fn tree(p: &Program, r: &ParserResult, mode: Mode) -> Result<(), String> {
    let act = r.ast.as_ref().map(|a| conv(a));
    match (&p.ast, act) {
        (None, None) => Ok(()),
        (Some(e), Some(a)) => match diff(e, &a, mode) {
            Some(d) => Err(d),
            None => Ok(()),
        },
        (e, a) => {
            if mode == Mode::Struct {
                let f = |t: Option<&T>| t.map_or("nothing".into(), |t| t.sexp());
                Err(format!("expected {} but parsed {}", f(e.as_ref()), f(a.as_ref())))
            } else {
                Ok(())
            }
        }
    }
}

pub fn tokens(p: &Program, r: &ParserResult) -> Result<(), String> {
    let mut i = 0;
    for t in &r.tokens {
        let name = t.token_name();
        if name == "EOF" || name == "END_OF_INPUT" {
            break;
        }
        let val = t.token_value.as_raw();
        match p.toks.get(i) {
            None => return Err(format!("token {}: expected the end but got {} {:?} at {}..{}", i, name, show(val), t.loc.begin, t.loc.end)),
            Some(e) => {
                if e.kind != name || &e.val != val || (e.loc != ANY && e.loc != (t.loc.begin, t.loc.end)) {
                    return Err(format!("token {}: expected {} {:?} {}..{} but got {} {:?} {}..{}", i, e.kind, show(&e.val), e.loc.0, e.loc.1, name, show(val), t.loc.begin, t.loc.end));
                }
            }
        }
        i += 1;
    }
    if i < p.toks.len() {
        return Err(format!("token {}: expected {} {:?} but the tokens end", i, p.toks[i].kind, show(&p.toks[i].val)));
    }
    Ok(())
}

pub fn comments(p: &Program, r: &ParserResult) -> Result<(), String> {
    let act: Vec<_> = r.comments.iter().map(|c| ((c.location.begin, c.location.end), format!("{:?}", c.kind))).collect();
    let exp: Vec<_> = p.comments.iter().map(|c| (c.loc, c.kind.to_string())).collect();
    if act != exp {
        return Err(format!("comments: expected {:?} but got {:?}", exp, act));
    }
    Ok(())
}

pub fn magic(p: &Program, r: &ParserResult) -> Result<(), String> {
    let act: Vec<_> = r.magic_comments.iter().map(|c| (format!("{:?}", c.kind), (c.key_l.begin, c.key_l.end), (c.value_l.begin, c.value_l.end))).collect();
    let exp: Vec<_> = p.magics.iter().map(|c| (c.kind.to_string(), c.key_l, c.value_l)).collect();
    if act != exp {
        return Err(format!("magic comments: expected {:?} but got {:?}", exp, act));
    }
    Ok(())
}

/// What of the prediction is compared.
#[derive(Clone, Copy, PartialEq)]
pub enum Cmp {
    Struct,
    Locs,
    Tokens,
    Comments,
}

/// Generates a program, parses it and compares.
pub fn run(t: &mut Tape, c: &mut Case, cfg: Cfg, cmps: &[Cmp]) -> Result<(), String> {
    let p = G::new(t, cfg).program();
    compare(p, c, cmps)
}
pub fn compare(p: Program, c: &mut Case, cmps: &[Cmp]) -> Result<(), String> {
    c.input = p.src.clone();
    c.labels = p.labels.clone();
    c.nontrivial = p.ast.as_ref().map_or(false, |a| a.count() > 1);
    let r = parse(&p.src)?;
    if cmps == [Cmp::Comments] {
        c.nontrivial = !p.comments.is_empty();
    }
    compare_to(&p, &r, cmps)
}
pub fn compare_to(p: &Program, r: &ParserResult, cmps: &[Cmp]) -> Result<(), String> {
    for m in cmps {
        match m {
            Cmp::Struct => structure(p, r)?,
            Cmp::Locs => {
                // where the structure differs there is nothing to compare locations with
                if tree(p, r, Mode::Struct).is_ok() {
                    tree(p, r, Mode::Locs)?
                }
            }
            Cmp::Tokens => tokens(p, r)?,
            Cmp::Comments => comments(p, r).and_then(|_| magic(p, r))?,
        }
    }
    Ok(())
}

pub fn general() -> Cfg {
    Cfg::default()
}
pub fn small() -> Cfg {
    Cfg { max_depth: 3, fuel: 10, ..Cfg::default() }
}
pub fn large() -> Cfg {
    Cfg { max_depth: 8, fuel: 150, ..Cfg::default() }
}
pub fn deep() -> Cfg {
    Cfg { max_depth: 120, fuel: 160, w: W { calls: 3, ..W::default() }, ..Cfg::default() }
}
pub fn crlf() -> Cfg {
    Cfg { crlf: true, ..Cfg::default() }
}
pub fn focus(f: impl FnOnce(&mut W)) -> Cfg {
    let mut c = Cfg { max_depth: 4, fuel: 25, ..Cfg::default() };
    f(&mut c.w);
    c
}
pub fn ops() -> Cfg {
    focus(|w| w.ops = 6)
}
pub fn strings() -> Cfg {
    focus(|w| w.strings = 8)
}
pub fn heredocs() -> Cfg {
    focus(|w| w.heredocs = 8)
}
pub fn numbers() -> Cfg {
    focus(|w| w.numbers = 12)
}
pub fn vars() -> Cfg {
    let mut c = focus(|w| w.vars = 4);
    c.fuel = 45;
    c
}
pub fn params() -> Cfg {
    focus(|w| w.params = 8)
}
pub fn patterns() -> Cfg {
    focus(|w| w.patterns = 8)
}
pub fn calls() -> Cfg {
    focus(|w| w.calls = 5)
}
pub fn stmts() -> Cfg {
    focus(|w| w.stmts = 4)
}

pub fn commented() -> Cfg {
    let mut c = focus(|w| w.magic = 21);
    c.fuel = 12;
    c
}

#[macro_export]
macro_rules! fam {
    ($name:expr, $q:expr, $t:expr, $limit:expr, $cfg:expr, $($m:ident),+) => {{
        fn f(t: &mut $crate::tape::Tape, c: &mut $crate::run::Case) -> Result<(), String> {
            $crate::props::program::run(t, c, $cfg, &[$($crate::props::program::Cmp::$m),+])
        }
        $crate::run::Family { name: $name, quick: $q, thorough: $t, limit: $limit, f }
    }};
}

/// Ill-formed constructs of some kinds among the programs of a flavour.
macro_rules! refused {
    ($q:expr, $t:expr, $cfg:expr, $kinds:expr) => {{
        fn f(t: &mut $crate::tape::Tape, c: &mut $crate::run::Case) -> Result<(), String> {
            $crate::props::invalid::injected(t, c, Cfg { bad: $kinds, ..$cfg })
        }
        $crate::run::Family { name: "refused", quick: $q, thorough: $t, limit: 500, f }
    }};
}

const RULE: &str = "a choice tape drives a generator of well-formed Ruby programs that predicts the parser's answer while it writes the source; non-trivial: the predicted tree has more than one node (family refused: an error is due), and distinct by source text";
const MODEL: &[&str] = &["the generator's prediction is right about Ruby 3.1: it was written from the language's rules and reconciled with the parser difference by difference", "constructs the generator never writes are not covered"];

pub fn props() -> Vec<Prop> {
    let prop = |id, families| Prop { id, rule: RULE, assumptions: MODEL, families };
    vec![
        prop("C02", vec![
            fam!("general", 200_000, 6_000_000, 600, general(), Struct),
            fam!("small", 150_000, 4_000_000, 300, small(), Struct),
            fam!("large", 25_000, 1_000_000, 2500, large(), Struct),
            fam!("deep", 8_000, 300_000, 4000, deep(), Struct),
            fam!("statements", 120_000, 4_000_000, 600, stmts(), Struct),
            fam!("crlf", 30_000, 1_000_000, 600, crlf(), Struct),
            fam!("variables", 40_000, 1_000_000, 600, vars(), Struct),
            fam!("calls", 40_000, 1_000_000, 600, calls(), Struct),
            fam!("parameters", 40_000, 1_000_000, 600, params(), Struct),
            fam!("patterns", 40_000, 1_000_000, 600, patterns(), Struct),
            fam!("operators", 40_000, 1_000_000, 600, ops(), Struct),
            fam!("strings", 40_000, 1_000_000, 600, strings(), Struct),
        ]),
        prop("C03", vec![
            fam!("general", 200_000, 6_000_000, 600, general(), Locs),
            fam!("small", 150_000, 4_000_000, 300, small(), Locs),
            fam!("large", 25_000, 1_000_000, 2500, large(), Locs),
            fam!("deep", 8_000, 300_000, 4000, deep(), Locs),
            fam!("statements", 60_000, 4_000_000, 600, stmts(), Locs),
            fam!("crlf", 60_000, 1_000_000, 600, crlf(), Locs),
            fam!("heredocs", 60_000, 2_000_000, 600, heredocs(), Locs),
            fam!("parameters", 60_000, 2_000_000, 600, params(), Locs),
            fam!("patterns", 60_000, 2_000_000, 600, patterns(), Locs),
            fam!("strings", 40_000, 1_000_000, 600, strings(), Locs),
            fam!("calls", 40_000, 1_000_000, 600, calls(), Locs),
        ]),
        prop("C05", vec![
            fam!("general", 200_000, 6_000_000, 600, general(), Tokens),
            fam!("small", 150_000, 4_000_000, 300, small(), Tokens),
            fam!("large", 25_000, 1_000_000, 2500, large(), Tokens),
            fam!("deep", 8_000, 300_000, 4000, deep(), Tokens),
            fam!("strings", 80_000, 2_000_000, 600, strings(), Tokens),
            fam!("heredocs", 60_000, 2_000_000, 600, heredocs(), Tokens),
            fam!("numbers", 60_000, 2_000_000, 600, numbers(), Tokens),
            fam!("calls", 60_000, 2_000_000, 600, calls(), Tokens),
            fam!("operators", 60_000, 2_000_000, 600, ops(), Tokens),
            fam!("crlf", 40_000, 1_000_000, 600, crlf(), Tokens),
            Family { name: "words", quick: 60_000, thorough: 1_000_000, limit: 20, f: super::words::case },
        ]),
        prop("C06", vec![
            fam!("operators", 400_000, 12_000_000, 400, ops(), Struct),
            fam!("general", 100_000, 3_000_000, 600, general(), Struct),
        ]),
        prop("C07", vec![
            fam!("strings", 350_000, 12_000_000, 500, strings(), Struct, Locs),
            fam!("general", 100_000, 3_000_000, 600, general(), Struct),
            refused!(60_000, 2_000_000, strings(), &[8, 9, 10, 11, 44]),
        ]),
        prop("C08", vec![
            fam!("heredocs", 350_000, 12_000_000, 500, heredocs(), Struct, Locs, Tokens),
            fam!("crlf", 80_000, 2_000_000, 500, Cfg { crlf: true, ..heredocs() }, Struct, Locs),
        ]),
        prop("C09", vec![
            fam!("numbers", 400_000, 12_000_000, 300, numbers(), Struct, Locs),
            Family { name: "recogniser", quick: 600_000, thorough: 20_000_000, limit: 60, f: super::numbers::case },
        ]),
        prop("C10", vec![
            fam!("variables", 350_000, 12_000_000, 700, vars(), Struct),
            fam!("general", 120_000, 3_000_000, 600, general(), Struct),
            fam!("parameters", 60_000, 2_000_000, 600, params(), Struct),
            fam!("patterns", 40_000, 2_000_000, 600, patterns(), Struct),
        ]),
        prop("C11", vec![
            fam!("comments", 250_000, 8_000_000, 400, commented(), Comments),
            fam!("crlf", 100_000, 3_000_000, 400, Cfg { crlf: true, ..commented() }, Comments),
            fam!("general", 100_000, 3_000_000, 600, general(), Comments),
            fam!("heredocs", 50_000, 2_000_000, 600, heredocs(), Comments),
            fam!("large", 10_000, 300_000, 2500, large(), Comments),
        ]),
        prop("C18", vec![
            fam!("parameters", 400_000, 12_000_000, 500, params(), Struct, Locs),
            fam!("general", 80_000, 3_000_000, 600, general(), Struct, Locs),
            refused!(80_000, 2_000_000, params(), &[12, 13, 15, 16, 17, 18, 21, 22, 23]),
        ]),
        prop("C19", vec![
            fam!("patterns", 400_000, 12_000_000, 500, patterns(), Struct, Locs),
            refused!(80_000, 2_000_000, patterns(), &[35]),
        ]),
        prop("C23", vec![
            fam!("calls", 350_000, 12_000_000, 500, calls(), Struct, Locs),
            fam!("general", 100_000, 3_000_000, 600, general(), Struct, Locs),
            fam!("deep", 20_000, 600_000, 4000, deep(), Struct),
            refused!(60_000, 2_000_000, calls(), &[24, 25, 26, 27]),
        ]),
    ]
}
