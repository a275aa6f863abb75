mod conv;
mod gen;
mod guard;
mod props;
mod run;
mod tape;
mod tree;

#[global_allocator]
static A: guard::Counting = guard::Counting;

fn main() {
    guard::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let all = props::all();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(2).expect("property id");
            let p = all.iter().find(|p| p.id == *id).unwrap_or_else(|| {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            });
            let o = run::Opts {
                tier: get("--tier").unwrap_or_else(|| "quick".into()),
                seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                evidence: get("--evidence"),
                replay_dir: get("--replays").unwrap_or_else(|| "/verif/replays".into()),
                threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                only: get("--family"),
                keep_going: args.iter().any(|a| a == "--keep-going"),
            };
            let mut known = vec![];
            if let Some(k) = get("--known") {
                for line in std::fs::read_to_string(k).unwrap_or_default().lines() {
                    // property<TAB>signature<TAB>description
                    let f: Vec<&str> = line.split('\t').collect();
                    if f.len() == 3 && f[0] == p.id && !line.starts_with('#') && !line.starts_with("fixed:") {
                        known.push((f[1].to_string(), f[2].to_string()));
                    }
                }
            }
            std::process::exit(run::check(p, &o, &known));
        }
        Some("sample") => {
            let p = all.iter().find(|p| p.id == args[2]).expect("property");
            let n: u64 = get("-n").and_then(|s| s.parse().ok()).unwrap_or(10);
            let from: u64 = get("--from").and_then(|s| s.parse().ok()).unwrap_or(0);
            for f in &p.families {
                if get("--family").map_or(false, |x| x != f.name) {
                    continue;
                }
                for i in from..from + n {
                    let mut c = run::Case::default();
                    let r = (f.f)(&mut tape::Tape::random(tape::mix(7, i), f.limit), &mut c);
                    println!("=== {} {} nontrivial={} {:?} {}\n{}", f.name, i, c.nontrivial, r, c.labels.join(","), String::from_utf8_lossy(&c.input));
                }
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let field = |k: &str| {
                let i = text.find(&format!("\"{}\": \"", k))? + k.len() + 5;
                Some(text[i..].split('"').next()?.to_string())
            };
            let id = field("property").expect("property");
            let fam = field("family").expect("family");
            let i = text.find("\"tape\": [").expect("tape") + 9;
            let tape: Vec<u32> = text[i..].split(']').next().unwrap().split(',').filter_map(|x| x.trim().parse().ok()).collect();
            let p = all.iter().find(|p| p.id == id).expect("property");
            let f = p.families.iter().find(|f| f.name == fam).expect("family");
            let mut c = run::Case::default();
            let mut t = match text.find("case_seed ") {
                Some(k) => tape::Tape::random(text[k + 10..].split(')').next().unwrap().parse().expect("case seed"), f.limit),
                None => tape::Tape::replay(tape),
            };
            match (f.f)(&mut t, &mut c) {
                Ok(()) => println!("replay passes\n{}", String::from_utf8_lossy(&c.input)),
                Err(m) => {
                    println!("replay fails: {}\n{}", m, String::from_utf8_lossy(&c.input));
                    std::process::exit(1);
                }
            }
        }
        Some("texts") => props::locs::texts(20000),
        Some("pairs") => props::locs::pairs(150000),
        Some("parse") => {
            use std::io::Read;
            let mut b = vec![];
            std::io::stdin().read_to_end(&mut b).unwrap();
            let r = guard::guarded(|| lib_ruby_parser::Parser::new(b, Default::default()).do_parse());
            match r {
                Ok(r) => {
                    if let Some(a) = &r.ast {
                        println!("{}", conv::conv(a).show());
                    }
                    println!("{:?}", r.tokens);
                    println!("{:?}", r.diagnostics);
                    println!("{:?} {:?}", r.comments, r.magic_comments);
                }
                Err(e) => println!("PANIC {}", e),
            }
        }
        _ => {
            eprintln!("usage: vp check ID | sample ID | replay FILE | parse");
            std::process::exit(2);
        }
    }
}
