//! monitor PROP --seed N --tier quick|thorough --out evidence.json --known file --replays dir
mod diff;
mod inputs;
mod io;
mod props;

use std::io::Write as _;
use std::time::Instant;
use vcore::alloc::Counting;
use vcore::ops::Entry;
use vcore::report::{jstr, Report};

#[global_allocator]
static ALLOC: Counting = Counting;

pub fn zoo() -> Vec<Entry> {
    let mut v = zoo_a::entries();
    v.extend(zoo_b::entries());
    v.extend(zoo_c::entries());
    v.extend(zoo_d::entries());
    v.extend(zoo_e::entries());
    v.extend(zoo_f::entries());
    v.extend(zoo_g::entries());
    v.extend(zoo_p0::entries());
    v.extend(zoo_p1::entries());
    v.extend(zoo_p2::entries());
    v.extend(zoo_x::entries());
    v
}

static WHERE: std::sync::OnceLock<(String, String, u64, String)> = std::sync::OnceLock::new();

fn fatal(what: &str, on: &str) {
    let Some((prop, dir, seed, tier)) = WHERE.get() else { return };
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{prop}-{seed}.txt");
    let _ = std::fs::write(&path, format!("monitor {prop} --seed {seed} --tier {tier}\n{what}: {on}\n"));
    println!("  {what}: {on}");
    println!("VIOLATION property={prop} replay={path}");
    std::process::exit(1);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = opt("--tier").unwrap_or_else(|| "quick".into());
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    let mut rep = Report::new(&prop, &tier, seed);
    if let Some(f) = opt("--known") {
        for line in std::fs::read_to_string(f).unwrap_or_default().lines() {
            let pre = format!("known: property={prop} ");
            if let Some(r) = line.strip_prefix(&pre) {
                // `known: property=ID "text found in the report" description`
                if let Some((k, d)) = r.strip_prefix('"').and_then(|r| r.split_once('"')) {
                    rep.known.push((k.to_string(), d.trim().to_string()));
                }
            }
        }
    }
    // these end the process, so they are reported from where they happen
    let _ = WHERE.set((prop.clone(), opt("--replays").unwrap_or_else(|| "/tmp".into()), seed, tier.clone()));
    vcore::watch::start(60, |what| fatal("does not end", &what));
    vcore::alloc::on_huge(|n| fatal(&format!("allocates {n} bytes"), &vcore::watch::here()));
    let mut entries = zoo();
    if let Some(f) = opt("--only") {
        entries.retain(|e| e.name == f);
    }
    let meta = match props::run(&prop, &mut rep, &entries) {
        Some(m) => m,
        None => {
            eprintln!("unknown property {prop}");
            std::process::exit(3);
        }
    };
    let wall = start.elapsed().as_secs_f64();
    if let Some(out) = opt("--out") {
        let mut s = String::from("{\n");
        let counters: Vec<String> = rep.counters.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
        let samples: Vec<String> = rep.samples.iter().map(|v| jstr(v)).collect();
        let viol: Vec<String> = rep.violations.iter().map(|v| jstr(&format!("{} :: {}", v.key, v.detail))).collect();
        let assume: Vec<String> = meta.assumptions.iter().map(|v| jstr(v)).collect();
        s.push_str(&format!(
            "\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {},\n\"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n\"observed\": {{{}}},\n\"samples\": [{}], \"violation_details\": [{}]}},\n\"assumptions\": [{}],\n\"wall_s\": {wall:.2},\n\"violations\": {}\n}}\n",
            jstr(&prop), jstr(&tier), jstr(meta.level), rep.evaluations, rep.distinct.len(), jstr(meta.rule), counters.join(", "), samples.join(",\n"), viol.join(",\n"), assume.join(", "), rep.violations.len()
        ));
        std::fs::write(out, s).expect("evidence");
    }
    for (k, d) in &rep.known {
        println!("KNOWN-FINDING: property={prop} {k} {d}");
    }
    println!(
        "{prop}: {} evaluations, {} distinct, {} violations, {wall:.1}s",
        rep.evaluations,
        rep.distinct.len(),
        rep.violations.len()
    );
    if rep.evaluations == 0 {
        eprintln!("nothing was observed");
        std::process::exit(2);
    }
    if !rep.violations.is_empty() {
        let dir = opt("--replays").unwrap_or_else(|| "/tmp".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed}.txt");
        if let Ok(mut f) = std::fs::File::create(&path) {
            let _ = writeln!(f, "monitor {prop} --seed {seed} --tier {tier}");
            for v in &rep.violations {
                let _ = writeln!(f, "{} :: {}", v.key, v.detail);
            }
        }
        for v in rep.violations.iter().take(8) {
            let mut d = v.detail.clone();
            d.truncate((0..=d.len().min(700)).rev().find(|i| d.is_char_boundary(*i)).unwrap_or(0));
            println!("  {} :: {}", v.key, d);
        }
        println!("VIOLATION property={prop} replay={path}");
        std::process::exit(1);
    }
}
