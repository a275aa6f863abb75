//! Case loop, statistics, shrinking, replay files and evidence.
use crate::guard;
use crate::tape::{mix, shrink, Tape};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// What one case did.
#[derive(Default)]
pub struct Case {
    /// The input, for reports and for counting distinct cases.
    pub input: Vec<u8>,
    /// Met the property's rule for being non-trivial.
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
}

pub type CaseFn = fn(&mut Tape, &mut Case) -> Result<(), String>;

pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Draws per case, bounding its size.
    pub limit: usize,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(&'static str, String)>,
}

struct Ctx {
    id: String,
    seed: u64,
    replay_dir: String,
}
static CTX: Mutex<Option<Ctx>> = Mutex::new(None);

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn hash(b: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}

fn case_seed(seed: u64, id: &str, fam: &str, i: u64) -> u64 {
    mix(mix(mix(seed, hash(id.as_bytes())), hash(fam.as_bytes())), i)
}

fn write_replay(dir: &str, id: &str, fam: &str, seed: u64, case: u64, tape: &[u32], input: &[u8], msg: &str) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-{}-{}-{}.json", dir, id, fam, seed, case);
    let hex: String = input.iter().map(|b| format!("{:02x}", b)).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"family\": {},\n \"seed\": {},\n \"case\": {},\n \"message\": {},\n \"input\": {},\n \"input_hex\": {},\n \"tape\": {:?}\n}}\n",
        json_str(id), json_str(fam), seed, case, json_str(msg),
        json_str(&String::from_utf8_lossy(input)), json_str(&hex), tape
    );
    if let Err(e) = std::fs::write(&path, body) {
        eprintln!("cannot write {}: {}", path, e);
        std::process::exit(2);
    }
    path
}

fn runaway(slot: usize, what: &str) {
    let running = if slot < guard::SLOTS { guard::CURRENT[slot].lock().unwrap().clone() } else { None };
    let g = CTX.lock().unwrap();
    let ctx = g.as_ref().unwrap();
    match running {
        Some(r) => {
            eprintln!("{}: {} case {}: {}", ctx.id, r.family, r.case, what);
            // The tape is not available from here: the case is identified by its seed.
            let path = write_replay(&ctx.replay_dir, &ctx.id, r.family, ctx.seed, r.case, &[], &[], &format!("{} (case_seed {})", what, r.case_seed));
            println!("VIOLATION property={} replay={}", ctx.id, path);
            unsafe { libc::_exit(1) }
        }
        None => eprintln!("{}: {}", ctx.id, what),
    }
    std::process::exit(2);
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub threads: usize,
    pub scale: f64,
    pub only: Option<String>,
    pub keep_going: bool,
}

/// Known findings that match this property: (substring of the failure message, description).
pub type Known = Vec<(String, String)>;

pub fn check(p: &Prop, o: &Opts, known: &Known) -> i32 {
    let t0 = std::time::Instant::now();
    *CTX.lock().unwrap() = Some(Ctx { id: p.id.into(), seed: o.seed, replay_dir: o.replay_dir.clone() });
    guard::on_runaway(runaway);
    guard::start_watchdog();
    guard::on_signal();
    let total = Arc::new(Mutex::new(Stats::default()));
    let mut fam_stats: Vec<(&'static str, u64, u64)> = vec![];
    let mut failures: Vec<(usize, u64, String)> = vec![];
    let known_hits = Arc::new(Mutex::new(BTreeMap::<usize, (u64, String)>::new()));

    for (fi, fam) in p.families.iter().enumerate() {
        if let Some(only) = &o.only {
            if only != fam.name {
                continue;
            }
        }
        let n = ((if o.tier == "thorough" { fam.thorough } else { fam.quick }) as f64 * o.scale).ceil() as u64;
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let fails = Arc::new(Mutex::new(Vec::<(u64, String)>::new()));
        let fstats = Arc::new(Mutex::new((0u64, 0u64)));
        let mut handles = vec![];
        for slot in 0..o.threads {
            let (next, stop, fails, total, fstats, known_hits) = (next.clone(), stop.clone(), fails.clone(), total.clone(), fstats.clone(), known_hits.clone());
            let (f, limit, name, seed, id) = (fam.f, fam.limit, fam.name, o.seed, p.id);
            let known = known.clone();
            let keep_going = o.keep_going;
            handles.push(
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn(move || {
                        guard::register_worker(slot);
                        let mut s = Stats::default();
                        let batch = 64;
                        'outer: loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let start = next.fetch_add(batch, Ordering::SeqCst);
                            if start >= n {
                                break;
                            }
                            for i in start..(start + batch).min(n) {
                                let cs = case_seed(seed, id, name, i);
                                *guard::CURRENT[slot].lock().unwrap() = Some(guard::Running { family: name, case: i, case_seed: cs });
                                let mut tape = Tape::random(cs, limit);
                                let mut c = Case::default();
                                let r = f(&mut tape, &mut c);
                                s.evals += 1;
                                if c.nontrivial {
                                    s.nontrivial += 1;
                                    s.distinct.insert(hash(&c.input));
                                }
                                for l in &c.labels {
                                    *s.labels.entry(l).or_default() += 1;
                                }
                                if s.samples.len() < 3 && c.nontrivial && (i % 37 == 5 || n < 1000) {
                                    s.samples.push((name, String::from_utf8_lossy(&c.input).into_owned()));
                                }
                                if let Err(m) = r {
                                    if let Some(k) = known.iter().position(|k| m.contains(&k.0)) {
                                        let mut h = known_hits.lock().unwrap();
                                        let e = h.entry(k).or_insert((0, m));
                                        e.0 += 1;
                                        continue;
                                    }
                                    let mut fl = fails.lock().unwrap();
                                    fl.push((i, m));
                                    if !keep_going || fl.len() > 2000 {
                                        stop.store(true, Ordering::Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                        }
                        guard::unregister_worker(slot);
                        let mut fs = fstats.lock().unwrap();
                        fs.0 += s.evals;
                        fs.1 += s.distinct.len() as u64;
                        let mut t = total.lock().unwrap();
                        t.evals += s.evals;
                        t.nontrivial += s.nontrivial;
                        t.distinct.extend(s.distinct);
                        for (k, v) in s.labels {
                            *t.labels.entry(k).or_default() += v;
                        }
                        t.samples.extend(s.samples);
                    })
                    .unwrap(),
            );
        }
        let mut harness_error = false;
        for h in handles {
            harness_error |= h.join().is_err();
        }
        if harness_error {
            eprintln!("{}: harness error in family {}", p.id, fam.name);
            return 2;
        }
        let fs = fstats.lock().unwrap();
        fam_stats.push((fam.name, fs.0, fs.1));
        let mut fl = fails.lock().unwrap().clone();
        fl.sort();
        for (i, m) in fl {
            failures.push((fi, i, m));
        }
        if !failures.is_empty() && !o.keep_going {
            break;
        }
    }

    let mut t = total.lock().unwrap();
    for (k, (cnt, m)) in known_hits.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {} ({} cases in this run, e.g. {})", p.id, known[*k].1, cnt, m.lines().next().unwrap_or(""));
    }
    let mut code = 0;
    if o.keep_going && failures.len() > 1 {
        dev_groups(p, o, &failures);
    }
    if let Some((fi, i, m)) = failures.first() {
        let fam = &p.families[*fi];
        let cs = case_seed(o.seed, p.id, fam.name, *i);
        let mut tape = Tape::random(cs, fam.limit);
        let mut c = Case::default();
        let f = fam.f;
        let first = std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || f(&mut tape, &mut c)).unwrap().join()
        });
        let first = match first {
            Ok(Err(m)) => m,
            _ => {
                // depends on what ran before or beside it
                eprintln!("{}: {} case {} failed in the run but not on its own: {}", p.id, fam.name, i, m);
                let path = write_replay(&o.replay_dir, p.id, fam.name, o.seed, *i, &tape.data, &c.input, m);
                println!("VIOLATION property={} replay={}", p.id, path);
                return 1;
            }
        };
        // Keep to the same kind of failure while shrinking.
        let data = tape.data.clone();
        let known = known.clone();
        let small = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    let mut evals = 0;
                    let begin = std::time::Instant::now();
                    shrink(data, 4000, &mut |d| {
                        evals += 1;
                        if begin.elapsed().as_secs() > 60 {
                            return false;
                        }
                        let mut c = Case::default();
                        match f(&mut Tape::replay(d.to_vec()), &mut c) {
                            Err(m) => !known.iter().any(|k| m.contains(&k.0)),
                            Ok(()) => false,
                        }
                    })
                })
                .unwrap()
                .join()
        });
        let small = small.unwrap_or_else(|_| tape.data.clone());
        let mut c2 = Case::default();
        let msg = match f(&mut Tape::replay(small.clone()), &mut c2) {
            Err(m) => m,
            Ok(()) => first,
        };
        let path = write_replay(&o.replay_dir, p.id, fam.name, o.seed, *i, &small, &c2.input, &msg);
        eprintln!("{}: family {} case {}\n--- input\n{}\n---\n{}", p.id, fam.name, i, String::from_utf8_lossy(&c2.input), msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    }
    if let Some(ev) = &o.evidence {
        t.samples.sort();
        t.samples.dedup();
        let mut samples: Vec<String> = vec![];
        for fam in &p.families {
            for s in t.samples.iter().filter(|s| s.0 == fam.name).take(4) {
                samples.push(format!("{{\"family\": {}, \"input\": {}}}", json_str(s.0), json_str(&s.1.chars().take(1500).collect::<String>())));
            }
        }
        let labels: Vec<String> = t.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        let fams: Vec<String> = fam_stats.iter().map(|(k, a, b)| format!("{}: {{\"evaluations\": {}, \"distinct_nontrivial_per_worker_sum\": {}}}", json_str(k), a, b)).collect();
        let assumptions: Vec<String> = p.assumptions.iter().map(|a| json_str(a)).collect();
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"families\": {{{}}},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            json_str(p.id), json_str(&o.tier), o.seed, t.evals, t.distinct.len(), json_str(p.rule), fams.join(", "), labels.join(", "), samples.join(", "), assumptions.join(", "),
            t0.elapsed().as_secs_f64(), failures.len().min(1)
        );
        if let Err(e) = std::fs::write(ev, body) {
            eprintln!("cannot write {}: {}", ev, e);
            return 2;
        }
    }
    eprintln!("{}: {} cases, {} distinct non-trivial, {:.1} s", p.id, t.evals, t.distinct.len(), t0.elapsed().as_secs_f64());
    code
}

/// Development aid: group failures by the shape of their message and shrink one of each.
fn dev_groups(p: &Prop, o: &Opts, failures: &[(usize, u64, String)]) {
    fn key(m: &str) -> String {
        let m = m.strip_prefix("at ").map_or(m, |r| {
            let p = r.split(": ").next().unwrap_or("");
            let cut = p.rfind(':').map_or(0, |x| x + 1);
            let r = &r[cut..];
            if r.contains(".value: expected \"") { &r[..r.find(' ').unwrap()] } else { r }
        });
        let mut q = false;
        m.lines().next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).filter(|c| {
            if *c == '"' { q = !q; }
            !q || m.starts_with("diagnostic") || !m.contains("holds")
        }).take(65).collect()
    }
    let mut g: BTreeMap<String, (u64, usize, u64)> = BTreeMap::new();
    for (fi, i, m) in failures {
        g.entry(key(m)).or_insert((0, *fi, *i)).0 += 1;
    }
    let mut v: Vec<_> = g.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    let show = std::env::var("SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(12usize);
    for (k, (n, fi, i)) in v.iter().take(show) {
        let fam = &p.families[*fi];
        let f = fam.f;
        let cs = case_seed(o.seed, p.id, fam.name, *i);
        std::thread::scope(|s| {
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || {
                let mut tape = Tape::random(cs, fam.limit);
                let mut c = Case::default();
                let _ = f(&mut tape, &mut c);
                let small = shrink(tape.data.clone(), 30000, &mut |d| {
                    let mut c = Case::default();
                    matches!(f(&mut Tape::replay(d.to_vec()), &mut c), Err(m) if key(&m) == *k)
                });
                let mut c = Case::default();
                let m = f(&mut Tape::replay(small), &mut c).err().unwrap_or_default();
                println!("[{} x] {:?} {} case {}: {}\n{}\n", n, k, fam.name, i, m.lines().next().unwrap_or("").chars().take(400).collect::<String>(), String::from_utf8_lossy(&c.input).trim_end());
                if c.input.len() < 30 { println!("{:?}", String::from_utf8_lossy(&c.input)); }
            });
            let _ = h.unwrap().join();
        });
    }
    println!("{} groups", v.len());
}
