//! The parts behind the API, reached through the crate's internal-tests feature: exact energies, samples that panic.
use crate::model::{self, Blocks};
use crate::sig::Rng;
use ebur128::history::History;

#[allow(dead_code)]
#[path = "../../../repo/src/histogram_bins.rs"]
mod hb;

type R = Result<(), String>;

#[derive(Clone, Debug)]
enum H {
    Add(f64),
    Many(f64, usize),
    Max(usize),
    Reset,
}
fn parse(t: &str) -> (Vec<(bool, usize, Vec<H>)>, u64) {
    let mut v: Vec<(bool, usize, Vec<H>)> = vec![];
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.first() != Some(&"int") {
            continue;
        }
        match w[1] {
            "history" => v.push((w[2] == "true", w[3].parse().unwrap(), vec![])),
            "energy" => v.last_mut().unwrap().2.push(H::Add(f64::from_bits(u64::from_str_radix(w[2], 16).unwrap()))),
            "many" => v.last_mut().unwrap().2.push(H::Many(f64::from_bits(u64::from_str_radix(w[2], 16).unwrap()), w[3].parse().unwrap())),
            "max" => v.last_mut().unwrap().2.push(H::Max(w[2].parse().unwrap())),
            "reset" => v.last_mut().unwrap().2.push(H::Reset),
            _ => (),
        }
    }
    (v, 0)
}
fn show(v: &[(bool, usize, Vec<H>)]) -> String {
    let mut o = String::from("\n");
    for (h, m, ops) in v {
        o += &format!("int history {} {}\n", h, m);
        for x in ops {
            o += &match x {
                H::Add(e) => format!("int energy {:016x} {:e}\n", e.to_bits(), e),
                H::Many(e, n) => format!("int many {:016x} {} {:e}\n", e.to_bits(), n, e),
                H::Max(m) => format!("int max {}\n", m),
                H::Reset => "int reset\n".to_string(),
            };
        }
    }
    o
}
/// as the reference, but with the exact boundaries and centres of the tables
fn bin(e: f64) -> usize {
    let mut k = 0;
    while k < 999 && e >= hb::BOUNDARIES[k + 1] {
        k += 1;
    }
    k
}
fn add(b: &mut Blocks, e: f64) {
    if e < hb::BOUNDARIES[0] {
        return;
    }
    b.v.push(if b.hist { hb::ENERGIES[bin(e)] } else { e });
    b.trim();
}
fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 2e-6
}
fn near(b: &Blocks, f: f64) -> bool {
    let n = b.v.len();
    if n == 0 {
        return false;
    }
    // sums of few small multiples of a power of two are exact in every order, so an equality is one
    let m = b.v.iter().cloned().fold(f64::INFINITY, f64::min);
    if n <= 100 && m.is_normal() && m.to_bits() << 12 == 0 && b.v.iter().all(|x| x / m < 1e6 && (x / m).fract() == 0.0) {
        return false;
    }
    let t = b.v.iter().sum::<f64>() / n as f64 * f;
    b.v.iter().any(|x| (x - t).abs() <= 1e-9 * t)
}
fn histories(p: &str, v: &[(bool, usize, Vec<H>)]) -> R {
    let mut all: Vec<(History, Blocks)> = vec![];
    let blocks = p != "C11";
    let range = p != "C10";
    for (h, m, ops) in v {
        let mut a = History::new(*h, *m);
        let mut b = Blocks::new(*h, *m);
        for o in ops {
            match o {
                H::Add(e) => {
                    a.add(*e);
                    add(&mut b, *e);
                }
                H::Many(e, n) => {
                    (0..*n).for_each(|_| a.add(*e));
                    if !(*e < hb::BOUNDARIES[0]) {
                        let x = if *h { hb::ENERGIES[bin(*e)] } else { *e };
                        b.v.extend(std::iter::repeat(x).take(*n));
                        b.trim();
                    }
                }
                H::Max(m) => {
                    a.set_max_size(*m);
                    b.max = *m;
                    b.trim();
                }
                H::Reset => {
                    a.reset();
                    b.v.clear();
                }
            }
        }
        if p != "C14" {
            if blocks && !near(&b, 0.1) {
                let q = a.gating_block_count_and_energy().ok();
                let g = model::gate(&[&b]);
                if let (Some((n, x)), Ok((k, y))) = (q, g) {
                    if n != k || (x - y).abs() > 1e-9 * y.abs() {
                        return Err(format!("blocks and energy {:?} but must be {:?}", q, g));
                    }
                } else if !matches!((q, g), (None, Err(_))) {
                    return Err(format!("blocks and energy {:?} but must be {:?}", q, g));
                }
                let (x, y) = (a.gated_loudness(), model::integrated(&[&b]));
                if !close(x, y) {
                    return Err(format!("gated loudness {} but must be {}", x, y));
                }
                let (x, y) = (a.relative_threshold(), model::rel_thr(&b));
                if !close(x, y) {
                    return Err(format!("relative threshold {} but must be {}", x, y));
                }
            }
            if range && !near(&b, 0.01) {
                let (x, y) = (a.loudness_range(), model::lra(&[&b]));
                if !close(x, y) {
                    return Err(format!("loudness range {} but must be {}", x, y));
                }
            }
        }
        all.push((a, b));
    }
    if p == "C14" {
        let hs: Vec<&History> = all.iter().map(|x| &x.0).collect();
        let bs: Vec<&Blocks> = all.iter().map(|x| &x.1).collect();
        let mut one = Blocks::new(false, usize::MAX);
        one.v = bs.iter().flat_map(|b| b.v.iter().copied()).collect();
        if !near(&one, 0.1) {
            let (x, y) = (History::gated_loudness_multiple(&hs), model::integrated(&bs));
            if !close(x, y) {
                return Err(format!("gated loudness of several {} but must be {}", x, y));
            }
        }
        let k = bs.iter().filter(|b| b.hist).count();
        let q = History::loudness_range_multiple(&hs);
        if k != 0 && k != bs.len() {
            if q.is_ok() {
                return Err("mixed kinds are accepted".into());
            }
        } else if !near(&one, 0.01) {
            let (x, y) = (q.map_err(|e| format!("{:?}", e))?, model::lra(&bs));
            if !close(x, y) {
                return Err(format!("loudness range of several {} but must be {}", x, y));
            }
        }
    }
    Ok(())
}
fn guard(f: impl FnOnce() -> R + std::panic::UnwindSafe) -> R {
    match std::panic::catch_unwind(f) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
pub fn replay(p: &str, t: &str) -> R {
    if t.contains("int tables") {
        return tables();
    }
    if t.contains("int csr") {
        return csr();
    }
    let v = parse(t).0;
    guard(move || histories(p, &v))
}
/// all 1000 bins, at the boundaries and next to them
fn tables() -> R {
    let (e, b) = (&hb::ENERGIES, &hb::BOUNDARIES);
    if e.len() != 1000 || b.len() != 1001 {
        return Err("table sizes".into());
    }
    for i in 0..1000 {
        if !(b[i] < e[i] && e[i] < b[i + 1]) || !(i == 0 || e[i - 1] < e[i]) {
            return Err(format!("centre {} is outside of its bin", i));
        }
        for (x, y, n) in [(e[i], model::centre(i), "centre"), (b[i], model::bound(i), "boundary"), (b[i + 1], model::bound(i + 1), "next boundary")] {
            if (x - y).abs() > 2e-13 * y {
                return Err(format!("{} of bin {} is {:e} but must be {:e}", n, i, x, y));
            }
        }
        for x in [b[i], f64::from_bits(b[i].to_bits() + 1), e[i], f64::from_bits(b[i + 1].to_bits() - 1)] {
            let mut h = History::new(true, 1);
            h.add(x);
            let g = h.gating_block_count_and_energy().ok();
            if g != Some((1, e[i])) {
                return Err(format!("energy {:e} of bin {} is counted as {:?} instead of {:e}", x, i, g, e[i]));
            }
        }
    }
    for x in [f64::from_bits(b[0].to_bits() - 1), 0.0, -1.0, f64::NEG_INFINITY] {
        let mut h = History::new(true, 1);
        h.add(x);
        if h.gating_block_count_and_energy().is_ok() {
            return Err(format!("energy {:e} is recorded", x));
        }
    }
    for x in [b[1000], f64::MAX, f64::INFINITY] {
        let mut h = History::new(true, 1);
        h.add(x);
        if h.gating_block_count_and_energy().ok() != Some((1, e[999])) {
            return Err(format!("energy {:e} is not counted in the last bin", x));
        }
    }
    Ok(())
}

/// samples that panic, or look at the control register
#[derive(Clone, Copy)]
struct Probe<'a> {
    data: &'a [f32],
    ch: usize,
    bomb: usize,
    log: &'a std::cell::RefCell<Vec<u32>>,
}
#[cfg(target_arch = "x86_64")]
impl<'a> ebur128::Samples<'a, f32> for Probe<'a> {
    fn foreach_sample(&self, channel: usize, mut func: impl FnMut(&'a f32)) {
        for (i, v) in self.data.chunks_exact(self.ch).enumerate() {
            self.log.borrow_mut().push(crate::csr::get());
            if i == self.bomb {
                panic!("bomb");
            }
            func(&v[channel])
        }
    }
    fn foreach_sample_zipped<U>(&self, channel: usize, iter: impl Iterator<Item = U>, mut func: impl FnMut(&'a f32, U)) {
        for (i, (v, u)) in self.data.chunks_exact(self.ch).zip(iter).enumerate() {
            self.log.borrow_mut().push(crate::csr::get());
            if i == self.bomb {
                panic!("bomb");
            }
            func(&v[channel], u)
        }
    }
    fn foreach_frame<F: dasp_frame::Frame<Sample = f32>>(&self, mut func: impl FnMut(F)) {
        for f in self.data.chunks_exact(self.ch) {
            self.log.borrow_mut().push(crate::csr::get());
            func(F::from_samples(&mut f.iter().copied()).unwrap());
        }
    }
    fn frames(&self) -> usize {
        self.data.len() / self.ch
    }
    fn channels(&self) -> usize {
        self.ch
    }
    fn split_at(self, sample: usize) -> (Self, Self) {
        let (a, b) = self.data.split_at(sample * self.ch);
        (Probe { data: a, ..self }, Probe { data: b, ..self })
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn csr() -> R {
    Ok(())
}
#[cfg(target_arch = "x86_64")]
fn csr() -> R {
    use ebur128::filter::Filter;
    let orig = crate::csr::get();
    let data: Vec<f32> = (0..200).map(|i| (i as f32 * 0.7).sin()).collect();
    for bits in 0..16u32 {
        let w = 0x1f80 | (bits & 3) << 13 | (bits >> 2 & 1) << 15 | (bits >> 3 & 1) << 6;
        for seed in [false, true] {
            for bomb in [usize::MAX, 0, 5, 99] {
                for tp in [false, true] {
                    let log = std::cell::RefCell::new(vec![]);
                    let src = Probe { data: &data, ch: 2, bomb, log: &log };
                    let map = [ebur128::Channel::Left, ebur128::Channel::Right];
                    let mut dest = vec![0.0; 400];
                    let mut f = Filter::new(48000, 2, true, tp);
                    crate::csr::set(w);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        if seed {
                            f.seed(src, &map)
                        } else {
                            f.process(src, &mut dest, 0, &map)
                        }
                    }));
                    let a = crate::csr::get();
                    crate::csr::set(orig);
                    if a & !0x3f != w {
                        return Err(format!("the control register is {:#x} instead of {:#x} after filtering{}", a & !0x3f, w, if r.is_err() { " that panicked" } else { "" }));
                    }
                    if log.borrow().iter().any(|x| x & 0x8000 == 0) {
                        return Err("denormals are not flushed to zero while filtering".into());
                    }
                    if log.borrow().iter().any(|x| x & 0x7f80 & !0x8000 != w & 0x7f80) {
                        return Err("another control bit changes while filtering".into());
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn search(p: &str, seed: u64, budget: f64) -> Result<(), (String, String)> {
    match p {
        "C10" | "C11" | "C12" | "C14" => guard(tables).map_err(|m| (m, "\nint tables\n".to_string()))?,
        "C19" => guard(csr).map_err(|m| (m, "\nint csr\n".to_string()))?,
        _ => (),
    }
    if !matches!(p, "C10" | "C11" | "C12" | "C13" | "C14" | "C05") {
        return Ok(());
    }
    let end = std::time::Instant::now() + std::time::Duration::from_secs_f64(budget * 0.3);
    let mut g = Rng::new(seed ^ 0x5555);
    while std::time::Instant::now() < end {
        let n = if p == "C14" { g.range(1, 4) } else { 1 };
        let kind = g.chance(if p == "C12" { 1.0 } else if p == "C13" { 0.1 } else { 0.5 });
        let mut v = vec![];
        for _ in 0..n {
            let h = if p == "C14" && g.chance(0.1) { !kind } else { kind };
            let m = if g.chance(0.4) { g.range(1, 12) as usize } else { 100000 };
            let mut ops = vec![];
            let k = if g.chance(0.2) { g.range(0, 3) } else if g.chance(0.05) { g.range(60, 400) } else { g.range(0, 60) };
            let few: Vec<f64> = if g.chance(0.2) { (0..g.range(1, 6)).map(|_| g.f()).collect() } else { vec![] };
            let long = g.chance(0.02);
            let spread = g.pick(&[3.0, 15.0, 30.0, 90.0]);
            let base = g.f() * 60.0 - 60.0;
            if !h && p != "C13" && g.chance(0.15) {
                let u = 2f64.powi(-(g.below(8) as i32));
                let big = if p == "C11" || (p == "C14" && g.chance(0.5)) { 199.0 } else { 19.0 };
                for _ in 0..g.range(1, 3) {
                    ops.push(H::Add(u));
                    ops.push(H::Add(big * u));
                }
                v.push((h, m, ops));
                continue;
            }
            for _ in 0..k {
                let x = g.f();
                ops.push(if x < 0.25 {
                    let b = hb::BOUNDARIES[if g.chance(0.1) { 0 } else { g.below(1001) as usize }].to_bits();
                    H::Add(f64::from_bits(b + g.below(3) - 1))
                } else if x < 0.90 {
                    let y = if few.is_empty() { g.f() } else { g.pick(&few) };
                    let e = 10f64.powf((base + spread * (y - 0.5) + 0.691) / 10.0);
                    if long && g.chance(0.1) {
                        H::Many(e, 1 << g.range(4, 17))
                    } else {
                        H::Add(e)
                    }
                } else if x < 0.97 {
                    H::Max(g.range(1, 40) as usize)
                } else {
                    H::Reset
                });
            }
            if p != "C13" && g.chance(0.5) {
                ops.retain(|o| matches!(o, H::Add(_) | H::Many(..)));
            }
            v.push((h, m, ops));
        }
        let w = v.clone();
        let pp = p.to_string();
        if let Err(m) = guard(move || histories(&pp, &w)) {
            // drop what is not needed
            let mut m = m;
            let mut k = 0;
            while k < v.len() {
                let mut j = 0;
                while j < v[k].2.len() {
                    let mut w = v.clone();
                    w[k].2.remove(j);
                    let (x, pp) = (w.clone(), p.to_string());
                    match guard(move || histories(&pp, &x)) {
                        Err(y) => {
                            v = w;
                            m = y;
                        }
                        Ok(()) => j += 1,
                    }
                }
                k += 1;
            }
            return Err((m, show(&v)));
        }
    }
    Ok(())
}
