//! Native oracle of the properties: replays and searches call sequences on the real crate.
//!   replay search --prop C05 --seed 1 --budget 20 --out FILE [--directed FILE]
//!   replay run FILE
mod capi;
mod case;
mod check;
mod csr;
mod gen;
#[cfg(feature = "internal")]
mod int;
mod model;
mod sig;
use std::time::{Duration, Instant};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    if a.len() > 2 && a[1] == "run" {
        let t = std::fs::read_to_string(&a[2]).expect("replay file");
        let p = t.lines().find_map(|l| l.strip_prefix("# property ")).unwrap_or("C02").trim().to_string();
        #[cfg(feature = "internal")]
        if t.contains("\nint ") {
            match int::replay(&p, &t) {
                Ok(()) => println!("PASS {}", p),
                Err(m) => {
                    println!("FAIL {} {}", p, m);
                    std::process::exit(1);
                }
            }
            return;
        }
        match check::check(&p, &case::parse(&t)) {
            Ok(()) => println!("PASS {}", p),
            Err(m) => {
                println!("FAIL {} {}", p, m);
                std::process::exit(1);
            }
        }
        return;
    }
    let p = opt("--prop").expect("--prop");
    let seed: u64 = opt("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let budget: f64 = opt("--budget").and_then(|x| x.parse().ok()).unwrap_or(10.0);
    let out = opt("--out").unwrap_or("/tmp/replay.case".into());
    let threads = opt("--threads").and_then(|x| x.parse().ok()).unwrap_or(8usize);
    let end = Instant::now() + Duration::from_secs_f64(budget);
    if let Some(d) = opt("--directed") {
        if let Ok(t) = std::fs::read_to_string(&d) {
            for c in t.split("\n\n") {
                let props = c.lines().find_map(|l| l.strip_prefix("# for ")).unwrap_or("");
                if !props.split_whitespace().any(|x| x == p) {
                    continue;
                }
                let c = case::parse(c);
                if let Err(m) = check::check(&p, &c) {
                    fail(&p, c, m, &out, end);
                }
            }
        }
    }
    #[cfg(feature = "internal")]
    if let Err((m, t)) = int::search(&p, seed, budget) {
        std::fs::write(&out, format!("# property {}\n# {}\n{}", p, m.replace('\n', " "), t)).unwrap();
        println!("FAIL {} {}", p, m);
        std::process::exit(1);
    }
    let found = std::sync::Mutex::new(None);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let n = std::sync::atomic::AtomicUsize::new(0);
    let nt = std::sync::atomic::AtomicUsize::new(0);
    use std::sync::atomic::Ordering::Relaxed;
    std::thread::scope(|s| {
        for t in 0..threads {
            let (p, found, stop, n, nt) = (&p, &found, &stop, &n, &nt);
            s.spawn(move || {
                let mut g = sig::Rng::new(seed.wrapping_mul(1000003).wrapping_add(t as u64));
                while Instant::now() < end && !stop.load(Relaxed) {
                    let c = gen::case(&mut g, p);
                    n.fetch_add(1, Relaxed);
                    if c.iter().any(|o| matches!(o, case::Op::Add(_, s) if s.frames > 0)) && c.len() > 2 {
                        nt.fetch_add(1, Relaxed);
                    }
                    if let Err(m) = check::check(p, &c) {
                        stop.store(true, Relaxed);
                        *found.lock().unwrap() = Some((c, m));
                    }
                }
            });
        }
    });
    let sample = gen::case(&mut sig::Rng::new(seed), &p);
    println!("CASES {} NONTRIVIAL {} SAMPLE {}", n.load(Relaxed), nt.load(Relaxed), case::show(&sample).trim().replace('\n', "; "));
    if let Some((c, m)) = found.into_inner().unwrap() {
        fail(&p, c, m, &out, end);
    }
    println!("PASS {}", p);
}
fn fail(p: &str, mut c: case::Case, mut m: String, out: &str, end: Instant) -> ! {
    let end = end.max(Instant::now()) + Duration::from_secs(20);
    'o: loop {
        for d in gen::shrink(&c) {
            if Instant::now() > end {
                break 'o;
            }
            if let Err(x) = check::check(p, &d) {
                c = d;
                m = x;
                continue 'o;
            }
        }
        break;
    }
    std::fs::write(out, format!("# property {}\n# {}\n{}", p, m.replace('\n', " "), case::show(&c))).unwrap();
    println!("FAIL {} {}", p, m);
    std::process::exit(1);
}
