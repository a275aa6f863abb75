//! C17: the environment of local variables, from outside and across parses.
use super::program::{compare_to, general, no_errors, params, patterns, small, vars, Cmp};
use crate::conv::conv;
use crate::gen::{Program, G, NAMES};
use crate::guard::guarded;
use crate::run::{Case, Family, Prop};
use crate::tape::Tape;
use crate::tree::{diff, Mode, T};
use lib_ruby_parser::{Parser, ParserOptions, ParserResult, StaticEnvironment};
use std::collections::BTreeSet;

/// Histories of calls on environments and their copies against a model.
fn model(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    const N: &[&str] = &["a", "b", "été", "", "A", "_1", "FORWARD", "a b"];
    struct M {
        cur: BTreeSet<&'static str>,
        stack: Vec<BTreeSet<&'static str>>,
    }
    let fresh = || M { cur: BTreeSet::new(), stack: vec![] };
    let mut ms = vec![fresh()];
    let mut es: Vec<(StaticEnvironment, usize)> = vec![(StaticEnvironment::new(), 0)];
    let n = t.range(1, 40);
    let mut log = String::new();
    let mut kinds = 0u32;
    let mut res = Ok(());
    for _ in 0..n {
        let k = t.draw(es.len());
        let mi = es[k].1;
        let op = t.weighted(&[4, 3, 3, 3, 6, 1, 1]);
        kinds |= 1 << op;
        let e = es[k].0.clone();
        let r: Result<(), String> = guarded(|| {
            let m = &mut ms[mi];
            match op {
                0 => {
                    let n = *t.pick(N);
                    log += &format!("{}.declare({:?}) ", k, n);
                    e.declare(n);
                    m.cur.insert(n);
                }
                1 => {
                    log += &format!("{}.extend_dynamic ", k);
                    e.extend_dynamic();
                    m.stack.push(m.cur.clone());
                }
                2 => {
                    log += &format!("{}.extend_static ", k);
                    e.extend_static();
                    m.stack.push(std::mem::take(&mut m.cur));
                }
                3 => {
                    if let Some(s) = m.stack.pop() {
                        log += &format!("{}.unextend ", k);
                        e.unextend();
                        m.cur = s;
                    }
                }
                4 => {
                    let n = *t.pick(N);
                    log += &format!("{}.is_declared({:?}) ", k, n);
                }
                5 => {
                    log += &format!("{}.clone ", k);
                    es.push((e.clone(), mi));
                }
                _ => {
                    log += "new ";
                    ms.push(fresh());
                    es.push((if ms.len() % 2 == 0 { StaticEnvironment::new() } else { StaticEnvironment::default() }, ms.len() - 1));
                }
            }
        });
        if let Err(e) = r {
            res = Err(e);
            break;
        }
        // every copy answers for every name
        for (i, (e, mi)) in es.iter().enumerate() {
            for n in N {
                let (x, y) = (ms[*mi].cur.contains(n), e.is_declared(n));
                if x != y && res.is_ok() {
                    res = Err(format!("environment {} after {}: is_declared({:?}) gives {}", i, log, n, y));
                }
            }
        }
        if res.is_err() {
            break;
        }
    }
    c.input = log.into_bytes();
    c.nontrivial = kinds.count_ones() >= 3;
    res
}

/// Names a program may declare at its top level.
fn names() -> Vec<String> {
    NAMES.iter().copied().chain(["_", "_été"]).map(|n| n.to_string()).chain(crate::gen::long_names()).collect()
}

fn run(src: &[u8], declared: &[String]) -> Result<(ParserResult, StaticEnvironment), String> {
    guarded(|| {
        let p = Parser::new(src.to_vec(), ParserOptions::default());
        for n in declared {
            p.static_env.declare(n);
        }
        let env = p.static_env.clone();
        (p.do_parse(), env)
    })
    .map_err(|e| format!("the parser panicked: {}", e))
}

fn pick_cfg(t: &mut Tape) -> crate::gen::Cfg {
    match t.draw(5) {
        0 | 1 => vars(),
        2 => general(),
        3 => patterns(),
        _ => params(),
    }
}

fn check_env(p: &Program, env: &StaticEnvironment) -> Result<(), String> {
    for n in names() {
        let (x, y) = (p.top_vars.iter().any(|v| *v == n), env.is_declared(&n));
        if x != y {
            return Err(format!("after the parse is_declared({:?}) gives {} for the parser's environment", n, y));
        }
    }
    Ok(())
}

/// Variables declared before the parse are variables in it, and those of the top level remain.
fn predeclared(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let n = t.range(0, 4);
    let declared: Vec<String> = (0..n).map(|_| t.pick(NAMES).to_string()).collect();
    let cfg = pick_cfg(t);
    let mut g = G::new(t, cfg);
    for n in &declared {
        g.declare(n);
    }
    let p = g.program();
    c.input = format!("{:?}: ", declared).into_bytes();
    c.input.extend_from_slice(&p.src);
    c.labels = p.labels.clone();
    c.nontrivial = !declared.is_empty() && p.ast.is_some();
    let (r, env) = run(&p.src, &declared)?;
    compare_to(&p, &r, &[Cmp::Struct])?;
    check_env(&p, &env)
}

/// Statement after statement with the variables carried over gives what the whole gives.
fn incremental(t: &mut Tape, c: &mut Case) -> Result<(), String> {
    let cfg = if t.draw(3) == 0 { small() } else { pick_cfg(t) };
    let p = G::new(t, cfg).program();
    c.input = p.src.clone();
    c.labels = p.labels.clone();
    c.nontrivial = p.cuts.len() > 0;
    let want: Vec<&T> = match &p.ast {
        None => vec![],
        Some(a) if a.kind == "Begin" && a.loc("begin_l").is_none() => a.list("statements").iter().collect(),
        Some(a) => vec![a],
    };
    let mut declared: Vec<String> = vec![];
    let mut from = 0;
    let mut got = 0;
    for cut in p.cuts.iter().copied().chain([p.src.len()]) {
        let (r, env) = run(&p.src[from..cut], &declared)?;
        no_errors(&r).map_err(|e| format!("piece {}..{}: {}", from, cut, e))?;
        if let Some(a) = &r.ast {
            let mut a = conv(a);
            crate::gen::shift(&mut a, from);
            let list: Vec<T> = if a.kind == "Begin" && a.loc("begin_l").is_none() { a.list("statements").to_vec() } else { vec![a] };
            for x in list {
                match want.get(got) {
                    None => return Err(format!("piece {}..{}: one statement too many: {}", from, cut, x.sexp())),
                    Some(w) => {
                        if let Some(d) = diff(w, &x, Mode::Struct).or_else(|| diff(w, &x, Mode::Locs)) {
                            return Err(format!("piece {}..{}: {}", from, cut, d));
                        }
                    }
                }
                got += 1;
            }
        }
        declared = names().into_iter().filter(|n| env.is_declared(n)).map(|n| n.to_string()).collect();
        from = cut;
    }
    if got != want.len() {
        return Err(format!("{} statements in pieces, {} in the whole", got, want.len()));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "at least three kinds of operation (model), variables declared before a program that is not empty (predeclared), more than one piece (incremental); distinct by input",
        assumptions: &["unextend is only called where something was extended", "the generator's prediction is right about Ruby's scopes"],
        families: vec![
            Family { name: "model", quick: 250_000, thorough: 8_000_000, limit: 200, f: model },
            Family { name: "predeclared", quick: 200_000, thorough: 6_000_000, limit: 600, f: predeclared },
            Family { name: "incremental", quick: 200_000, thorough: 6_000_000, limit: 600, f: incremental },
        ],
    }
}
