//! hist gen PROP TIER SEED PART NPARTS OUT      record histories for TraceMap.tla
//! hist replay PROP MD MW FILE PART NPARTS       replay TLC scripts (model depth MD, width MW)
//! hist one PROP MD MW FILE CFG EMBED LINE       a single replay, verbosely
use hibit_harness::hist::*;
use hibit_harness::json::J;
use hibit_harness::mat;
use hibit_harness::rng::Rng;
use hibit_harness::trees::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn record(out: &mut std::fs::File, h: &mut Hist, f: impl FnOnce(&mut Hist)) {
    // what is running, should the process die
    let r = catch_unwind(AssertUnwindSafe(|| f(h)));
    let died = r.err().map(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()));
    writeln!(out, "{}", h.line(died)).unwrap();
}

fn gen(a: &[String]) {
    let p = Prof::parse(&a[0]);
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let (part, nparts): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let mut out = std::fs::File::create(&a[5]).unwrap();
    let mult = if thorough { 12 } else { 1 };
    let replies = matches!(p, Prof::C01 | Prof::C11 | Prof::C12 | Prof::C15);
    let mut cfgs: Vec<String> = match p {
        Prof::C11 | Prof::C12 => (1..=9).flat_map(|d| vec![format!("d{d}"); 8]).collect(),
        Prof::C16 => { let mut v = default_configs(); v.push("h:r128_2".into()); v.push("b:r128_2".into()); v.push("o:r128_2".into()); v }
        _ => { let mut v = configs(); v.extend(default_configs()); v.extend(other_configs()); v }
    };
    if p == Prof::C15 { cfgs.retain(|c| !c.contains(':')) }
    let mut jobs: Vec<(String, usize)> = vec![];
    for c in &cfgs { for k in 0..(match p { Prof::C16 => 6, Prof::C11 => 1, _ => 4 }) * mult { jobs.push((c.clone(), k)) } }
    for (n, (c, kind)) in jobs.iter().enumerate() {
        if n % nparts != part { continue }
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n as u64));
        std::fs::write(format!("{}.at", a[5]), format!("{{\"cfg\":\"{c}\",\"job\":{n},\"kind\":{kind}}}")).unwrap();
        let t = make(c);
        let (w, d) = (t.width(), t.depth());
        if matches!(p, Prof::C11 | Prof::C12) {
            let np = 6 + rng.below(30);
            let pool = if kind % 4 == 3 { fanout_pool(&mut rng, w, d) } else { pool(&mut rng, w, d, np) };
            let mut h = Hist::new(c, t, pool, replies);
            record(&mut out, &mut h, |h| { let density = *rng.pick(&[1, 3, 6, 8, 10]); mat::start(h, &mut rng, n, density); churn(h, &mut rng, p, 80) });
            continue;
        }
        if p == Prof::C15 {
            let pool = if kind % 4 == 0 { fanout_pool(&mut rng, w, d) } else { pool(&mut rng, w, d, 8) };
            let mut h = Hist::new(c, t, pool, replies);
            record(&mut out, &mut h, |h| {
                range(h, &mut rng);
                if kind % 4 == 0 { fanout(h, &mut rng, p) } else { churn(h, &mut rng, p, 30); }
                range(h, &mut rng);
            });
            continue;
        }
        if kind % 4 == 3 {
            let pool = fanout_pool(&mut rng, w, d);
            let mut h = Hist::new(c, t, pool, replies);
            record(&mut out, &mut h, |h| fanout(h, &mut rng, p));
        } else {
            let np = [6, 14, 40][kind % 4 % 3];
            let pool = pool(&mut rng, w, d, np);
            let mut h = Hist::new(c, t, pool, replies);
            let steps = [60, 120, 160][kind % 3];
            record(&mut out, &mut h, |h| churn(h, &mut rng, p, steps));
        }
    }
    if p == Prof::C01 {
        let mut jobs: Vec<(String, usize)> = vec![];
        for c in configs().into_iter().chain(["r64_3".into(), "r128_4".into(), "h:d4".into(), "o:s64_3".into()]) { for _ in 0..mult { jobs.push((c.clone(), 300)) } }
        for c in if thorough { configs() } else { vec![] }.into_iter().chain(["d2", "d3", "s64_2", "s64_3", "s64_4", "s128_3", "s256_2", "s256_3"].map(|c| c.to_string())) { jobs.push((c, 66_000)) }
        for (n, (c, rounds)) in jobs.iter().enumerate() {
            if n % nparts != part { continue }
            let mut rng = Rng::new(seed.wrapping_mul(55_001).wrapping_add(n as u64));
            std::fs::write(format!("{}.at", a[5]), format!("{{\"cfg\":\"{c}\",\"cycles\":{n}}}")).unwrap();
            let t = make(c);
            let pool = pool(&mut rng, t.width(), t.depth(), 12);
            let mut h = Hist::new(c, t, pool, replies);
            record(&mut out, &mut h, |h| cycles(h, &mut rng, *rounds));
        }
    }
    if p != Prof::C15 {
        // more entries, and more nodes (also released ones), than two bytes can number
        let jobs: &[(&str, usize)] = match p {
            Prof::C12 | Prof::C11 => &[("d3", 3), ("d2", 2), ("d4", 3)],
            Prof::C16 => &[("r64_3", 3), ("r256_2", 2), ("r128_2", 2)],
            _ => &[("d3", 3), ("s64_4", 3), ("s256_2", 2), ("r128_3", 3), ("d4", 2)],
        };
        let jobs: Vec<&(&str, usize)> = if thorough { std::iter::repeat(jobs).take(4).flatten().collect() } else { jobs.iter().collect() };
        for (n, (c, j)) in jobs.iter().enumerate() {
            if (n + 3) % nparts != part { continue }
            let mut rng = Rng::new(seed.wrapping_mul(99_001).wrapping_add(n as u64));
            std::fs::write(format!("{}.at", a[5]), format!("{{\"cfg\":\"{c}\",\"bulk\":{n}}}")).unwrap();
            let t = make(c);
            let (w, d) = (t.width(), t.depth());
            let cc = interesting(&mut rng, w).min(w - 2);
            let mut h = Hist::new(c, t, spread_pool(w, d, *j, cc), replies);
            record(&mut out, &mut h, |h| {
                if matches!(p, Prof::C11 | Prof::C12) { mat::start(h, &mut rng, n + seed as usize, 10) }
                bulk(h, &mut rng, p)
            });
        }
    }
    if p == Prof::C15 {
        // completely full trees and levels
        let mut jobs: Vec<(String, usize)> = vec![];   // configuration, number of leading digits that take every value
        for c in ["d1", "s64_1", "s128_1", "s256_1", "r128_1", "r256_1"] { jobs.push((c.into(), 1)) }
        for c in ["d2", "s64_2", "s128_2", "s256_2", "r64_2"] { jobs.push((c.into(), 2)) }
        for c in ["d3", "s64_3", "s128_3", "s256_3"] { jobs.push((c.into(), 2)) }
        for c in ["s64_3", "s64_4", "s128_3"] { jobs.push((c.into(), 3)) }
        if thorough { for c in ["s64_5", "s128_4", "s256_4", "d3", "d4", "r64_3", "r128_3", "s128_5"] { jobs.push((c.into(), 3)) } }
        if thorough { for c in ["s64_4", "s128_4", "s256_4", "s256_8", "d4", "r256_2", "r256_3", "r128_2"] { jobs.push((c.into(), 2)) } }
        for (n, (c, j)) in jobs.iter().enumerate() {
            if n % nparts != part { continue }
            let mut rng = Rng::new(seed.wrapping_mul(77_003).wrapping_add(n as u64));
            std::fs::write(format!("{}.at", a[5]), format!("{{\"cfg\":\"{c}\",\"bulk\":{n}}}")).unwrap();
            let t = make(c);
            let (w, d) = (t.width(), t.depth());
            let cc = interesting(&mut rng, w).min(w - 2);
            let mut h = Hist::new(c, t, spread_pool(w, d, *j, cc), replies);
            record(&mut out, &mut h, |h| bulk(h, &mut rng, p));
        }
    }
    std::fs::write(format!("{}.at", a[5]), "done").unwrap();
}

fn replay(a: &[String]) {
    let prop = &a[0];
    let (md, mw): (usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let text = std::fs::read_to_string(&a[3]).unwrap();
    let (part, nparts): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let scripts: Vec<J> = text.lines().map(J::parse).collect();
    let cfgs = if prop == "C16" { default_configs() } else { configs() };
    let (mut runs, mut n) = (0u64, 0usize);
    for c in cfgs {
        let t = make(&c);
        let (w, d) = (t.width(), t.depth());
        if d < md { continue }
        drop(t);
        for (ei, e) in embeddings(w, d, md, mw).iter().enumerate() {
            n += 1;
            if n % nparts != part { continue }
            std::fs::write(format!("{}.at{part}", a[3]), format!("{c} {ei}")).unwrap();
            for (si, s) in scripts.iter().enumerate() {
                runs += 1;
                let r = catch_unwind(AssertUnwindSafe(|| run_script(&c, e, s, prop)));
                let msg = match r { Ok(Ok(())) => continue, Ok(Err(m)) => m, Err(_) => "panicked".into() };
                println!("MISMATCH {c} {ei} {si} {msg}");
                return;
            }
        }
    }
    println!("REPLAYED {runs}");
}

/// hist nodes THOROUGH WIDTH FILE PART NPARTS      scripts of MCNode.tla
fn nodes(a: &[String]) {
    let (thorough, width): (bool, usize) = (a[0] == "thorough", a[1].parse().unwrap());
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let (part, nparts): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let places = mat::places(width);
    let mut runs = 0u64;
    for (si, l) in text.lines().enumerate() {
        if si % nparts != part { continue }
        let s = J::parse(l);
        let kind = s.get("s").arr()[0].str().to_string();
        let first = s.get("s").arr()[1].ints();
        let ops: Vec<(usize, usize)> = s.get("h").arr().iter().map(|o| { let o = o.ints(); (o[0], o[1]) }).collect();
        for (pi, p) in places.iter().enumerate() {
            if !thorough && (pi + si) % 5 != 0 { continue }
            // a level-0 node is the root, and nothing else is
            if (p.level == 0) != (s.get("root").us() == 1) { continue }
            runs += 1;
            std::fs::write(format!("{}.at{part}", a[2]), format!("place {pi}, script {si}")).unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| mat::run_node(p, si + pi, (&kind, first.clone()), &ops, &s.get("m").ints())));
            let msg = match r { Ok(Ok(())) => continue, Ok(Err(m)) => m, Err(_) => "panicked".into() };
            println!("MISMATCH depth-{}-level-{} {pi} {si} {msg}", p.d, p.level);
            return;
        }
    }
    println!("REPLAYED {runs}");
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[0].as_str() {
        "gen" => gen(&a[1..]),
        "replay" => replay(&a[1..]),
        "nodes" => nodes(&a[1..]),
        "one" => {
            let text = std::fs::read_to_string(&a[4]).unwrap();
            let s = J::parse(text.lines().nth(a[7].parse().unwrap()).unwrap());
            let t = make(&a[5]);
            let (md, mw) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let e = &embeddings(t.width(), t.depth(), md, mw)[a[6].parse::<usize>().unwrap()];
            println!("levels {:?} digits {:?} other {}: {:?}", e.levels, e.map, e.other, run_script(&a[5], e, &s, &a[1]));
        }
        _ => panic!("usage"),
    }
}
