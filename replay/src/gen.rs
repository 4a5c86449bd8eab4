//! random cases per property
use crate::case::*;
use crate::model::*;
use crate::sig::*;

const RATES: [u32; 14] = [4000, 8000, 11025, 4004, 4005, 3507, 16000, 5996, 22050, 44100, 48000, 95999, 96000, 192000];
const LOW: [u32; 14] = [16, 17, 24, 25, 33, 44, 45, 74, 75, 100, 999, 1001, 2000, 3333];

fn mode(g: &mut Rng, p: &str) -> u8 {
    let h = if g.chance(0.4) { HIST } else { 0 };
    match p {
        "C01" | "C02" | "C16" | "C18" => {
            if g.chance(0.4) {
                g.below(128) as u8
            } else {
                g.pick(&[M, S, I, LRA, SP, TP, I | LRA | SP | TP, S | SP]) | h
            }
        }
        "C05" | "C10" if g.chance(0.08) => g.pick(&[M, S, LRA, SP, S | TP]) | h,
        "C06" | "C07" => g.pick(&[M, S, S, I | S, LRA | I]),
        "C08" => g.pick(&[SP, SP | S, SP | I, TP]),
        "C09" => TP | g.pick(&[0, SP, I]),
        "C10" => I | h | g.pick(&[0, S, LRA]),
        "C11" => LRA | h | g.pick(&[0, I]),
        "C12" => I | LRA | HIST,
        "C13" => I | LRA | if g.chance(0.15) { HIST } else { 0 } | g.pick(&[0, 0, SP]),
        "C14" => {
            if g.chance(0.9) {
                I | LRA | h
            } else {
                g.pick(&[S, I, LRA])
            }
        }
        _ => g.pick(&[I | LRA | SP | TP, I | LRA | SP | TP, I, LRA, S | TP, S | SP]) | h,
    }
}
fn chans(g: &mut Rng, p: &str) -> u32 {
    match p {
        "C02" | "C09" | "C08" | "C03" | "C04" | "C20" | "C07" => g.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 2, 4, 6, 8, 12]),
        _ => g.pick(&[1, 1, 2, 2, 3, 4, 5, 6, 7]),
    }
}
fn frames(g: &mut Rng, s: usize, ch: usize, big: bool) -> usize {
    let lim = 260_000 / ch.max(1);
    let n = match g.below(if big { 10 } else { 8 }) {
        0 => g.below(4) as usize,
        1 => s - 1 + g.below(3) as usize,
        2 => 4 * s - 1 + g.below(3) as usize,
        3 => g.below(4 * s as u64) as usize,
        4 => g.below(10 * s as u64) as usize,
        5 => s * g.range(1, 12) as usize,
        6 => g.below(60) as usize,
        7 => g.below(35 * s as u64) as usize,
        8 => 30 * s - 1 + g.below(3) as usize,
        _ => g.below(70 * s as u64) as usize,
    };
    n.min(lim)
}
fn sig(g: &mut Rng, p: &str, s: usize, ch: usize) -> Sig {
    let kinds: &[u8] = match p {
        "C02" => &[0, 1, 2, 3, 4, 7, 9, 9],
        "C03" | "C04" | "C17" | "C19" | "C18" => &[0, 1, 2, 3, 5, 6, 7, 8, 9],
        "C08" => &[0, 1, 2, 5, 7, 9],
        "C09" => &[0, 1, 2, 4, 5, 7, 8],
        "C10" | "C11" | "C12" | "C13" | "C14" => &[0, 6, 6, 8, 8, 1],
        _ => &[0, 1, 2, 3, 5, 6, 7, 8],
    };
    let big = !matches!(p, "C08" | "C19" | "C16");
    Sig {
        frames: if p == "C13" || p == "C11" || p == "C12" || p == "C14" || p == "C10" {
            if g.chance(0.6) { (s * g.range(10, 70) as usize).min(400_000 / ch) } else { frames(g, s, ch, big) }
        } else {
            frames(g, s, ch, big)
        },
        channels: ch,
        kind: g.pick(kinds),
        amp_db: if p != "C17" && g.chance(0.06) { g.pick(&[12, 20, 30, 60, 100]) } else { g.pick(&[0, -1, -6, -20, -23, -40, -60, -69, -3, 6, -300]).min(if p == "C17" { 0 } else { 20 }) },
        seed: g.u() >> 16,
        fmt: g.pick(&[Fmt::F64, Fmt::F64, Fmt::F32, Fmt::I16, Fmt::I32]),
    }
}
fn cmap(g: &mut Rng, ch: u32) -> Vec<u8> {
    (0..ch)
        .map(|_| if ch == 1 { g.pick(&[1, 6, 4, 0, 3]) } else { g.pick(&[0u8, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 23, 26, 31, 30]) })
        .collect()
}
fn log_range(g: &mut Rng, a: u32, b: u32) -> u32 {
    ((a as f64) * (b as f64 / a as f64).powf(g.f())) as u32
}
/// configurations of any size and hardly any audio
fn wide(g: &mut Rng, big: bool) -> Case {
    let lim = if big && g.chance(0.1) { 100_000_000u64 } else { 8_000_000 };
    let md = mode(g, "C01") | if g.chance(0.8) { M } else { 0 };
    let mut win = if md & S == S { 3000u64 } else { 400 };
    let pick = |g: &mut Rng, win: u64| loop {
        let c = if g.chance(0.3) { g.pick(&[1, 2, 63, 64]) } else { g.range(1, 64) as u32 };
        let r = if g.chance(0.1) { 2822400 } else { log_range(g, 16, 2822400) };
        if c as u64 * r as u64 / 1000 * win < lim {
            return (c, r);
        }
    };
    let (mut c, mut r) = pick(g, win);
    let mut v = vec![Op::New(c, r, md)];
    for _ in 0..g.range(1, 6) {
        match g.below(6) {
            0 | 1 => {
                let n = pick(g, win);
                c = if g.chance(0.3) { c } else { n.0 };
                r = if c != n.0 && g.chance(0.5) { r } else { n.1 };
                if c as u64 * r as u64 / 1000 * win >= 2 * lim {
                    (c, r) = n;
                }
                v.push(Op::Change(c, r));
            }
            2 => {
                let w = log_range(g, 1, 100_000);
                let x = (w as u64).max(if md & S == S { 3000 } else { 400 });
                if c as u64 * r as u64 / 1000 * x < lim {
                    win = x;
                    v.push(Op::Window(w));
                }
            }
            3 => v.push(Op::History(log_range(g, 1, u32::MAX))),
            4 => v.push(Op::Chan(g.below(c as u64 + 2) as u32, g.below(32) as u8)),
            _ => v.push(Op::Map(cmap(g, c))),
        }
    }
    v
}
pub fn case(g: &mut Rng, p: &str) -> Case {
    let mut v = vec![];
    let self_cmp = matches!(p, "C02" | "C03" | "C04" | "C17" | "C16" | "C18" | "C19");
    let n = if p == "C14" { g.range(1, 3) } else { 1 };
    let cfg = matches!(p, "C01" | "C02" | "C15" | "C16" | "C18");
    if matches!(p, "C01" | "C16" | "C02") && g.chance(0.05) {
        return wide(g, p != "C02");
    }
    for _ in 0..n {
        let mut ch = chans(g, p);
        let mut rate = if (self_cmp && g.chance(0.4)) || (p == "C05" && g.chance(0.25)) { g.pick(&LOW) } else if g.chance(0.7) { RATES[g.below(7) as usize] } else { g.pick(&RATES) };
        if p == "C10" || p == "C11" || p == "C12" || p == "C13" || p == "C14" {
            rate = g.pick(&[4000, 4005, 8000, 3507, 5000]);
            ch = ch.min(3);
        }
        if matches!(p, "C06" | "C07" | "C08" | "C09" | "C20" | "C15") && g.chance(0.12) {
            rate = log_range(g, 4000, 250_000);
        }
        if !matches!(p, "C10" | "C11" | "C12" | "C13" | "C14") && g.chance(0.04) {
            ch = g.range(1, 64) as u32;
        }
        if p == "C01" && g.chance(0.4) {
            v.push(Op::New(g.pick(&[0, 1, 2, 64, 65, 100, u32::MAX]), g.pick(&[0, 1, 15, 16, 17, 48000, 2822400, 2822401, u32::MAX]), g.below(256) as u8));
        }
        if p == "C02" && g.chance(0.1) {
            rate = g.pick(&[2822400, 192001, 383999]);
            ch = ch.min(2);
        }
        if (p == "C01" || p == "C16") && g.chance(0.1) {
            ch = 64;
            rate = 4000;
        }
        let md = mode(g, p);
        v.push(Op::New(ch, rate, md));
        if g.chance(0.5) {
            v.push(Op::Map(cmap(g, ch)));
        }
        let ops = match p {
            "C08" | "C09" => g.range(2, 6),
            _ => g.range(2, 9),
        };
        let mut total = 0usize;
        for _ in 0..ops {
            let s = (rate as usize + 5) / 10;
            let x = g.f();
            if x < if cfg { 0.45 } else { 0.66 } {
                let mut sg = sig(g, p, s, ch as usize);
                let mut cap = 700_000;
                if matches!(p, "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C17" | "C20" | "C02" | "C18") && g.chance(0.01) {
                    sg.frames = (60_000.0 * 20f64.powf(g.f())) as usize / (ch as usize).min(4);
                    cap = 1_500_000;
                }
                if total + sg.frames * ch as usize > cap {
                    continue;
                }
                total += sg.frames * ch as usize;
                let sd = g.chance(if p == "C20" { 0.45 } else if cfg || matches!(p, "C03" | "C04" | "C07" | "C09" | "C17" | "C19") { 0.15 } else { 0.03 });
                let pl = g.chance(0.4);
                v.push(if sd { Op::Seed(pl, sg) } else { Op::Add(pl, sg) });
            } else if x < if cfg { 0.55 } else { 0.70 } {
                v.push(Op::Reset);
            } else if x < if cfg { 0.62 } else { 0.75 } {
                let w = g.pick(&[0, 100, 400, 401, 3000, 3050, 4567, 10000, 2950, 123]);
                v.push(Op::Window(w));
            } else if x < if cfg { 0.70 } else if p == "C13" { 0.90 } else { 0.80 } {
                let w = if p == "C13" { g.range(300, 12000) as u32 } else { g.pick(&[0, 400, 1000, 3000, 6000, 9999, 500000, u32::MAX]) };
                v.push(Op::History(w));
            } else if x < if cfg { 0.80 } else { 0.90 } {
                if matches!(p, "C10" | "C11" | "C12" | "C13" | "C14") && g.chance(0.7) {
                    continue;
                }
                let (mut nc, mut nr) = (ch, rate);
                if g.chance(0.5) {
                    nc = chans(g, p);
                }
                if g.chance(0.6) {
                    nr = if self_cmp { g.pick(&[16, 25, 100, 4000, 48000, 96000]) } else { g.pick(&[4000, 8000, 4005, 48000, 96000]) };
                }
                if matches!(p, "C01" | "C16" | "C18" | "C02") && g.chance(0.3) {
                    nc = g.pick(&[0, 64, 65, u32::MAX, ch]);
                    nr = g.pick(&[0, 15, 16, 4000, 2822401, u32::MAX, rate]);
                }
                v.push(Op::Change(nc, nr));
                if valid(nc, nr) {
                    ch = nc;
                    rate = nr;
                }
            } else if x < 0.90 || (x < 0.95 && matches!(p, "C04" | "C01" | "C02")) {
                match g.below(4) {
                    0 => v.push(Op::Chan(g.pick(&[0, 1, 2, ch - 1, ch, u32::MAX]), g.below(32) as u8)),
                    1 => v.push(Op::Chan(0, 6)),
                    2 => {
                        let c = if g.chance(0.5) { ch } else { g.range(0, 9) as u32 };
                        let mut m = cmap(g, c);
                        if g.chance(0.2) && !m.is_empty() {
                            let i = g.below(m.len() as u64) as usize;
                            m[i] = 6;
                        }
                        v.push(Op::Map(m));
                    }
                    _ => v.push(Op::Map(cmap(g, ch))),
                }
            } else if matches!(p, "C04" | "C01" | "C02" | "C03") {
                let sd = g.chance(0.4);
                if g.chance(0.5) {
                    v.push(Op::BadI(sd, g.below(50) as usize));
                } else {
                    let c = if g.chance(0.5) { ch as usize } else { g.range(0, 9) as usize };
                    let a = g.below(20) as usize;
                    let l = (0..c).map(|_| if g.chance(0.1) { g.below(20) as usize } else { a }).collect();
                    v.push(Op::BadP(sd, l));
                }
            } else {
                v.push(Op::Query);
            }
        }
        if p == "C15" && !v.contains(&Op::Reset) {
            v.push(Op::Reset);
        }
        if matches!(p, "C15" | "C20") {
            if p == "C20" && !v.iter().any(|o| matches!(o, Op::Seed(..))) {
                let sg = sig(g, p, (rate as usize + 5) / 10, ch as usize);
                v.push(Op::Seed(g.chance(0.5), sg));
            }
            let sg = sig(g, p, (rate as usize + 5) / 10, ch as usize);
            v.push(Op::Add(g.chance(0.3), sg));
        }
    }
    v
}
/// smaller variants
pub fn shrink(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    for k in (0..c.len()).rev() {
        if k > 0 || c.len() > 1 && matches!(c[1], Op::New(..)) {
            let mut d = c.clone();
            d.remove(k);
            out.push(d);
        }
    }
    for k in 0..c.len() {
        if let Op::Add(p, s) | Op::Seed(p, s) = &c[k] {
            let seed = matches!(c[k], Op::Seed(..));
            let mut put = |pl: bool, s: Sig| {
                let mut d = c.clone();
                d[k] = if seed { Op::Seed(pl, s) } else { Op::Add(pl, s) };
                if d != *c {
                    out.push(d);
                }
            };
            for n in [s.frames / 4, s.frames / 2, s.frames * 3 / 4, s.frames * 9 / 10, s.frames.saturating_sub(1)] {
                put(*p, Sig { frames: n, ..s.clone() });
            }
            put(false, s.clone());
            put(*p, Sig { fmt: Fmt::F64, ..s.clone() });
            put(*p, Sig { kind: 0, ..s.clone() });
        }
        if let Op::New(ch, r, m) = c[k] {
            for x in [Op::New(1, r, m), Op::New(ch.saturating_sub(1).max(1), r, m), Op::New(ch, 4000, m)] {
                if x != c[k] {
                    let mut d = c.clone();
                    d[k] = x;
                    out.push(d);
                }
            }
        }
    }
    out
}
