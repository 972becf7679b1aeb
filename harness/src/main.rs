mod exec;
mod cases;
mod machine;
mod prob;
mod props;
mod solvers;
mod trace;
#[cfg(feature = "full")]
mod ckprops;

use std::sync::Mutex;
use std::time::{Duration, Instant};

static NOW: Mutex<Option<(Instant, u64)>> = Mutex::new(None);

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}
fn cut(s: &str, n: usize) -> String { if s.chars().count() > n { s.chars().take(n).collect::<String>() + "..." } else { s.to_string() } }

#[allow(clippy::too_many_arguments)]
fn report(out: &str, prop: &str, cases: usize, nontrivial: usize, distinct: usize, samples: &[String], viol: Option<(u64, String, String)>, secs: f64) {
    let v = match viol { None => "null".to_string(), Some((s, m, d)) => format!("{{\"case_seed\": \"{s}\", \"message\": {}, \"case\": {}}}", esc(&cut(&m, 4000)), esc(&cut(&d, 4000))) };
    let t = format!("{{\"property\": \"{prop}\", \"cases\": {cases}, \"nontrivial\": {nontrivial}, \"distinct_nontrivial\": {distinct}, \"secs\": {secs:.2}, \"samples\": [{}], \"violation\": {v}}}\n", samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    if out == "-" { print!("{t}"); } else { std::fs::write(out, t).expect("result file"); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let cmd = a.get(1).cloned().unwrap_or_default();
    let prop = a.get(2).cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    if !props::PROPS.contains(&prop.as_str()) { eprintln!("unknown property {prop}"); std::process::exit(2); }
    let out = get("--out").unwrap_or_else(|| "-".into());
    let (out2, prop2) = (out.clone(), prop.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let n = *NOW.lock().unwrap();
        if let Some((t, s)) = n {
            if t.elapsed() > Duration::from_secs(90) {
                report(&out2, &prop2, 1, 1, 1, &[], Some((s, "the case does not come to an end within 90 s (cases take milliseconds)".into(), format!("case {s}"))), 90.0);
                std::process::exit(1);
            }
        }
    });
    match cmd.as_str() {
        "case" => {
            let s: u64 = a[3].parse().expect("case seed");
            *NOW.lock().unwrap() = Some((Instant::now(), s));
            let r = match exec::guarded(|| props::run_case(&prop, s)) { Ok(r) => r, Err(e) => { eprintln!("error in the harness: {e}"); std::process::exit(3) } };
            println!("case: {}", r.desc);
            for m in &r.viol { println!("VIOLATED {prop}: {m}"); }
            if r.viol.is_empty() { println!("{prop} holds in this case"); }
            std::process::exit(if r.viol.is_empty() { 0 } else { 1 });
        }
        "run" => {
            let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
            let max: usize = get("--cases").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
            let t0 = Instant::now();
            let (mut n, mut nt) = (0, 0);
            let mut seen = std::collections::HashSet::new();
            let mut samples = vec![];
            let base = cases::mix(seed) ^ cases::mix(u64::from(prop.as_bytes()[1]) * 256 + u64::from(prop.as_bytes()[2]));
            while n < max && t0.elapsed().as_secs_f64() < secs {
                let s = cases::mix(base.wrapping_add(n as u64));
                *NOW.lock().unwrap() = Some((Instant::now(), s));
                let r = match exec::guarded(|| props::run_case(&prop, s)) { Ok(r) => r, Err(e) => { eprintln!("error in the harness, case {s}: {e}"); std::process::exit(3) } };
                n += 1;
                if r.nontrivial {
                    nt += 1;
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    r.desc.hash(&mut h);
                    seen.insert(h.finish());
                    if samples.len() < 2 { samples.push(cut(&r.desc, 600)); }
                }
                if let Some(m) = r.viol.first() {
                    report(&out, &prop, n, nt, seen.len(), &samples, Some((s, m.clone(), r.desc)), t0.elapsed().as_secs_f64());
                    std::process::exit(1);
                }
            }
            *NOW.lock().unwrap() = None;
            report(&out, &prop, n, nt, seen.len(), &samples, None, t0.elapsed().as_secs_f64());
        }
        _ => { eprintln!("usage: gsh run PROP --seed N --secs T [--cases K] --out FILE | gsh case PROP SEED"); std::process::exit(2); }
    }
}
