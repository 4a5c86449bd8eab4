//! per-property oracles
use crate::case::*;
use crate::model::{self, has, Ref};
use crate::sig::*;
use ebur128::EbuR128;

type R = Result<(), String>;

fn close(a: f64, b: f64) -> bool {
    let tiny = |x: f64| x < -280.0;
    a == b || (a.is_nan() && b.is_nan()) || (tiny(a) && tiny(b)) || (a - b).abs() <= 2e-6
}
fn closee(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-7 * a.abs().max(b.abs()) + 1e-30
}
fn want(n: &str, got: f64, exp: f64) -> R {
    if close(got, exp) {
        Ok(())
    } else {
        Err(format!("{} is {:.9} but must be {:.9}", n, got, exp))
    }
}
fn f(r: Result<f64, ebur128::Error>) -> Result<f64, String> {
    r.map_err(|e| format!("unexpected error {:?}", e))
}

pub struct What {
    pub config: bool,
    pub windows: bool,
    pub speak: bool,
    pub tpeak: bool,
    pub blocks: bool,
    pub range: bool,
    pub codes: bool,
    /// a failing call changes nothing
    pub errs: bool,
}
pub fn what(p: &str) -> What {
    let n = What { config: false, windows: false, speak: false, tpeak: false, blocks: false, range: false, codes: false, errs: false };
    match p {
        "C01" => What { config: true, codes: true, errs: true, ..n },
        "C05" => What { blocks: true, range: true, ..n },
        "C06" | "C07" => What { windows: true, ..n },
        "C08" => What { speak: true, ..n },
        "C09" => What { tpeak: true, ..n },
        "C10" => What { blocks: true, ..n },
        "C11" => What { range: true, ..n },
        "C12" => What { blocks: true, range: true, ..n },
        "C13" => What { blocks: true, range: true, ..n },
        "C15" => What { config: true, windows: true, speak: true, tpeak: true, blocks: true, range: true, codes: false, errs: false },
        "C20" => What { windows: true, speak: true, tpeak: true, blocks: true, range: true, ..n },
        _ => n,
    }
}
/// how near a comparison of the reference is to a tie
fn near_gate(b: &model::Blocks, factor: f64) -> bool {
    if b.v.is_empty() {
        return false;
    }
    let t = b.v.iter().sum::<f64>() / b.v.len() as f64 * factor;
    b.v.iter().any(|x| (x - t).abs() <= 1e-9 * t)
}
pub fn compare(e: &EbuR128, r: &Ref, w: &What, salt: u64) -> R {
    if w.config {
        if e.mode().bits() != r.mode {
            return Err(format!("mode() is {:#x} but must be {:#x}", e.mode().bits(), r.mode));
        }
        let c = |n: &str, a: usize, b: usize| if a == b { Ok(()) } else { Err(format!("{} is {} but must be {}", n, a, b)) };
        c("channels()", e.channels() as usize, r.ch)?;
        c("rate()", e.rate() as usize, r.rate as usize)?;
        c("max_window()", e.max_window(), r.win)?;
        c("max_history()", e.max_history(), r.hist)?;
        let m: Vec<u8> = e.channel_map().iter().map(|x| *x as u32 as u8).collect();
        if m != r.map {
            return Err(format!("channel_map() is {:?} but must be {:?}", m, r.map));
        }
    }
    if w.windows && !r.dirty {
        want("momentary loudness", f(e.loudness_momentary())?, r.loudness(4 * r.s100))?;
        if r.win >= 3000 {
            want("short-term loudness", f(e.loudness_shortterm())?, r.loudness(30 * r.s100))?;
        }
        let mut g = Rng::new(salt);
        for k in 0..3 {
            let ms = if k == 0 { r.win as u64 } else { g.range(1, r.win as u64 + 200) };
            let fr = r.rate as u64 * ms / 1000;
            if fr == 0 || ms > u32::MAX as u64 {
                continue;
            }
            let q = e.loudness_window(ms as u32);
            if ms <= r.win as u64 {
                want(&format!("loudness of the last {} ms", ms), f(q)?, r.loudness(fr as usize))?;
            } else if fr as usize > (r.rate as usize * r.win / 1000 + r.s100).max(r.s100 * r.win / 100) && q != Err(ebur128::Error::InvalidMode) {
                return Err(format!("a window of {} ms is accepted with a maximum of {} ms", ms, r.win));
            }
        }
    }
    if w.speak && has(r.mode, model::SP) {
        for c in 0..r.ch {
            for (n, a, b) in [("sample peak", f(e.sample_peak(c as u32))?, r.sp[c]), ("sample peak of the last call", f(e.prev_sample_peak(c as u32))?, r.psp[c])] {
                if a != b {
                    return Err(format!("{} of channel {} is {:e} but must be {:e}", n, c, a, b));
                }
            }
        }
    }
    if w.tpeak && has(r.mode, model::TP) {
        for c in 0..r.ch {
            let m = |a: f64, b: f64| if a > b { a } else { b };
            for (n, a, b, s) in [
                ("true peak", f(e.true_peak(c as u32))?, m(r.sp[c], r.tp[c]), r.sp[c]),
                ("true peak of the last call", f(e.prev_true_peak(c as u32))?, m(r.psp[c], r.ptp[c]), r.psp[c]),
            ] {
                if !(a == b || (a - b).abs() <= 3e-6 * (1.0 + b.abs())) || a < s {
                    return Err(format!("{} of channel {} is {:e} but must be {:e}", n, c, a, b));
                }
            }
        }
    }
    if w.blocks && !has(r.mode, model::I) {
        if let Some(x) = e.gating_block_count_and_energy() {
            return Err(format!("gating blocks {:?} are recorded but the mode has no integrated loudness", x));
        }
    }
    if w.blocks && has(r.mode, model::I) && !r.dirty && !near_gate(&r.blocks, 0.1) {
        let q = e.gating_block_count_and_energy();
        match (q, model::gate(&[&r.blocks])) {
            (Some((n, x)), Ok((m, y))) => {
                if n != m {
                    return Err(format!("{} gating blocks but must be {} (of {} recorded)", n, m, r.blocks.v.len()));
                }
                if !closee(x, y) {
                    return Err(format!("gating block energy is {:e} but must be {:e}", x, y));
                }
            }
            (None, Err(false)) => (),
            (a, b) => {
                if !matches!(b, Err(true)) {
                    return Err(format!("gating blocks are {:?} but must be {:?}", a, b));
                }
            }
        }
        want("integrated loudness", f(e.loudness_global())?, model::integrated(&[&r.blocks]))?;
        want("relative threshold", f(e.relative_threshold())?, model::rel_thr(&r.blocks))?;
    }
    if w.range && has(r.mode, model::LRA) && !r.dirty && !near_gate(&r.sblocks, 0.01) {
        want("loudness range", f(e.loudness_range())?, model::lra(&[&r.sblocks]))?;
    }
    Ok(())
}

/// real analyzer and reference side by side
pub fn lockstep(case: &Case, w: &What, last: &mut String) -> R {
    let mut cur: Option<(EbuR128, Ref)> = None;
    for (k, op) in case.iter().enumerate() {
        *last = format!("call {}", k);
        if let Op::New(c, h, m) = op {
            let a = create(*c, *h, *m);
            let b = Ref::new(*c, *h, *m);
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    compare(&a, &b, w, k as u64)?;
                    cur = Some((a, b));
                }
                (Err(a), Err(b)) if a == b || !w.codes => cur = None,
                (a, b) => return Err(format!("new({}, {}, {:#x}) gives {:?} but must give {:?}", c, h, m, a.map(|_| ()), b.map(|_| ()))),
            }
            continue;
        }
        let (e, r) = match cur.as_mut() {
            Some((e, r)) => (e, r),
            None => continue,
        };
        let before = if w.errs { Some(observe(e, true)) } else { None };
        let a = apply(e, op);
        let b = apply_ref(r, op);
        if let Some(b) = b {
            if a.is_ok() != b.is_ok() || (w.codes && a != b) {
                return Err(format!("{:?} gives {:?} but must give {:?}", op, a, b));
            }
        }
        if let (true, Some(o)) = (a.is_err(), before) {
            same(&o, &observe(e, true)).map_err(|m| format!("after the failed {:?}: {}", op, m))?;
        }
        compare(e, r, w, (k as u64) << 8 | case.len() as u64).map_err(|m| format!("after call {} ({:?}): {}", k, op, m))?;
    }
    Ok(())
}

/// run a case and call `after` with the analyzer after every call
fn run(case: &Case, mut hook: impl FnMut(&mut EbuR128, usize, &Op) -> Result<bool, String>, mut after: impl FnMut(&EbuR128, usize, &Op, Result<(), u8>) -> R) -> R {
    let mut cur: Option<EbuR128> = None;
    for (k, op) in case.iter().enumerate() {
        if let Op::New(c, h, m) = op {
            cur = create(*c, *h, *m).ok();
            continue;
        }
        if let Some(e) = cur.as_mut() {
            let r = if hook(e, k, op)? { Ok(()) } else { apply(e, op) };
            after(e, k, op, r)?;
        }
    }
    Ok(())
}
fn trace(case: &Case, prev: bool) -> Vec<Obs> {
    let mut v = vec![];
    let _ = run(case, |_, _, _| Ok(false), |e, _, _, _| { v.push(observe(e, prev)); Ok(()) });
    v
}
fn sig_of(op: &Op, ch: usize) -> Option<(bool, bool, Sig)> {
    match op {
        Op::Add(p, s) => Some((false, *p, Sig { channels: ch, ..s.clone() })),
        Op::Seed(p, s) => Some((true, *p, Sig { channels: ch, ..s.clone() })),
        _ => None,
    }
}

fn c03(case: &Case) -> R {
    let base = trace(case, false);
    let mut i = 0;
    run(
        case,
        |e, k, op| {
            let ch = e.channels() as usize;
            if let Some((sd, pl, s)) = sig_of(op, ch) {
                let b = s.gen();
                let mut g = Rng::new(s.seed ^ (k as u64) << 7);
                let mut pos = 0;
                let mode = g.below(4);
                while pos < s.frames {
                    let left = s.frames - pos;
                    let mut n = match mode {
                        0 => g.range(0, left.min(7) as u64) as usize,
                        1 => g.range(0, left as u64) as usize,
                        2 => g.range(0, left.min(5000) as u64) as usize,
                        _ => (e.rate() as usize / 10).min(left),
                    };
                    if n == 0 && g.chance(0.5) {
                        n = 1;
                    }
                    // not too many calls
                    if mode == 0 && pos > 300 {
                        n = left;
                    }
                    let piece = b.sub(pos * ch, (pos + n) * ch);
                    let p = observe(e, true);
                    let r = if sd { seed(e, &piece, pl, ch) } else { add(e, &piece, pl, ch) };
                    if r.is_err() {
                        return Err(format!("a piece of {} frames is refused: {:?}", n, r));
                    }
                    if n == 0 {
                        same(&p, &observe(e, true)).map_err(|m| format!("an empty call changes {}", m))?;
                    }
                    pos += n;
                }
                return Ok(true);
            }
            Ok(false)
        },
        |e, _, op, _| {
            same(&base[i], &observe(e, false)).map_err(|m| format!("cut into pieces, after {:?}: {}", op, m))?;
            i += 1;
            Ok(())
        },
    )
}
fn c04(case: &Case) -> R {
    let flip: Case = case
        .iter()
        .map(|o| match o {
            Op::Add(p, s) => Op::Add(!p, s.clone()),
            Op::Seed(p, s) => Op::Seed(!p, s.clone()),
            o => o.clone(),
        })
        .collect();
    let base = trace(case, true);
    let mut i = 0;
    run(
        &flip,
        |e, _, op| {
            if let Some(true) = malformed(op, e.channels() as usize) {
                let p = observe(e, true);
                if apply(e, op).is_ok() {
                    return Err(format!("malformed input is accepted: {:?} for {} channels", op, e.channels()));
                }
                same(&p, &observe(e, true)).map_err(|m| format!("refused input changes {}", m))?;
                return Ok(true);
            }
            Ok(false)
        },
        |e, _, op, _| {
            same(&base[i], &observe(e, true)).map_err(|m| format!("planar and interleaved differ after {:?}: {}", op, m))?;
            i += 1;
            Ok(())
        },
    )
}
fn c15(case: &Case) -> R {
    // what follows the last reset, on the analyzer and on a new one configured alike
    if let Some(at) = case.iter().rposition(|o| *o == Op::Reset) {
        let mut cur: Option<EbuR128> = None;
        let mut mode = 0;
        let mut fresh: Option<EbuR128> = None;
        for (k, op) in case.iter().enumerate() {
            if let Op::New(c, h, m) = op {
                cur = create(*c, *h, *m).ok();
                mode = *m;
                fresh = None;
                continue;
            }
            if let Some(e) = cur.as_mut() {
                apply(e, op).ok();
                if k == at {
                    let mut n = create(e.channels(), e.rate(), mode).map_err(|_| "cannot create an analyzer like the one in use".to_string())?;
                    if n.max_window() != e.max_window() {
                        rc(n.set_max_window(e.max_window() as u32)).map_err(|x| format!("error {}", x))?;
                    }
                    if n.max_history() != e.max_history() {
                        rc(n.set_max_history(e.max_history() as u32)).map_err(|x| format!("error {}", x))?;
                    }
                    rc(n.set_channel_map(e.channel_map())).map_err(|x| format!("error {}", x))?;
                    same(&observe(&n, true), &observe(e, true)).map_err(|m| format!("after reset, against a new analyzer: {}", m))?;
                    fresh = Some(n);
                } else if let Some(n) = fresh.as_mut() {
                    apply(n, op).ok();
                    same(&observe(n, true), &observe(e, true)).map_err(|m| format!("after reset and {:?}, against a new analyzer: {}", op, m))?;
                }
            }
        }
    }
    // calls with the values in effect
    let base = trace(case, true);
    let mut i = 0;
    run(
        case,
        |e, k, _| {
            if k % 2 == 1 {
                let p = observe(e, true);
                rc(e.change_parameters(e.channels(), e.rate())).map_err(|x| format!("error {}", x))?;
                rc(e.set_max_window(e.max_window() as u32)).map_err(|x| format!("error {}", x))?;
                if e.max_history() <= u32::MAX as usize {
                    rc(e.set_max_history(e.max_history() as u32)).map_err(|x| format!("error {}", x))?;
                }
                let m = e.channel_map().to_vec();
                rc(e.set_channel_map(&m)).map_err(|x| format!("error {}", x))?;
                same(&p, &observe(e, true)).map_err(|m| format!("reconfiguring with the values in effect changes {}", m))?;
            }
            Ok(false)
        },
        |e, _, op, _| {
            same(&base[i], &observe(e, true)).map_err(|m| format!("reconfiguring with the values in effect changes, after {:?}: {}", op, m))?;
            i += 1;
            Ok(())
        },
    )
}
fn c16(case: &Case) -> R {
    // results, with and without queries in between
    let mut plain: Vec<Obs> = vec![];
    let n = case.len();
    run(case, |_, _, _| Ok(false), |e, k, _, _| { if k + 1 == n { plain.push(observe(e, true)) } Ok(()) })?;
    run(
        case,
        |_, _, _| Ok(false),
        |e, k, op, _| {
            let a = observe(e, true);
            let b = observe(e, true);
            same(&a, &b).map_err(|m| format!("asked twice after {:?}: {}", op, m))?;
            if k + 1 == n {
                if let Some(p) = plain.first() {
                    same(p, &b).map_err(|m| format!("asking in between changes {}", m))?;
                }
            }
            let m = e.mode().bits();
            let ch = e.channels();
            let chk = |n: &str, r: Result<f64, ebur128::Error>, x: Option<u8>| -> R {
                let g = r.err().map(code);
                if g == x {
                    Ok(())
                } else {
                    Err(format!("{} gives error {:?} but must give {:?} in mode {:#x}", n, g, x, m))
                }
            };
            let im = |x: u8| if has(m, x) { None } else { Some(2) };
            chk("loudness_momentary", e.loudness_momentary(), None)?;
            chk("loudness_global", e.loudness_global(), im(model::I))?;
            chk("relative_threshold", e.relative_threshold(), im(model::I))?;
            chk("loudness_range", e.loudness_range(), im(model::LRA))?;
            chk("loudness_global_multiple", EbuR128::loudness_global_multiple([e, e].iter().map(|x| *x)), im(model::I))?;
            chk("loudness_range_multiple", EbuR128::loudness_range_multiple([e, e].iter().map(|x| *x)), im(model::LRA))?;
            if e.max_window() >= 3000 {
                chk("loudness_shortterm", e.loudness_shortterm(), None)?;
            } else if e.max_window() < 2900 {
                // rounding up to whole blocks
                let s = (e.rate() as usize + 5) / 10;
                if 30 * s > e.rate() as usize * e.max_window() / 1000 + s {
                    chk("loudness_shortterm", e.loudness_shortterm(), Some(2))?;
                }
            }
            for c in [0, ch - 1, ch, ch + 1, u32::MAX] {
                let x = |k: u8| if !has(m, k) { Some(2) } else if c >= ch { Some(3) } else { None };
                chk(&format!("sample_peak({})", c), e.sample_peak(c), x(model::SP))?;
                chk(&format!("prev_sample_peak({})", c), e.prev_sample_peak(c), x(model::SP))?;
                chk(&format!("true_peak({})", c), e.true_peak(c), x(model::TP))?;
                chk(&format!("prev_true_peak({})", c), e.prev_true_peak(c), x(model::TP))?;
            }
            Ok(())
        },
    )
}
fn c17(case: &Case) -> R {
    let base = trace(case, true);
    let mut i = 0;
    run(
        case,
        |e, _, op| {
            let ch = e.channels() as usize;
            if let Some((sd, pl, s)) = sig_of(op, ch) {
                let b = Buf::F64(s.gen().f64s());
                let r = if sd { seed(e, &b, pl, ch) } else { add(e, &b, pl, ch) };
                r.map_err(|x| format!("error {}", x))?;
                return Ok(true);
            }
            Ok(false)
        },
        |e, _, op, _| {
            same(&observe(e, true), &base[i]).map_err(|m| format!("against the same values as doubles, after {:?}: {}", op, m))?;
            i += 1;
            Ok(())
        },
    )
}
fn c20(case: &Case) -> R {
    run(
        case,
        |e, k, op| {
            if let Op::Seed(..) = op {
                let p = observe(e, true);
                let r = apply(e, op);
                if r.is_err() {
                    return Err(format!("call {}: seeding fails with {:?}", k, r));
                }
                same(&p, &observe(e, true)).map_err(|m| format!("seeding changes {}", m))?;
                return Ok(true);
            }
            Ok(false)
        },
        |_, _, _, _| Ok(()),
    )?;
    // seeded or added, followed by a restart of the window: the same from there on
    let at = match case.iter().rposition(|o| matches!(o, Op::Seed(..))) {
        Some(a) => a,
        None => return Ok(()),
    };
    let mut a: Option<EbuR128> = None;
    let mut b: Option<EbuR128> = None;
    for (k, op) in case.iter().enumerate() {
        match op {
            Op::New(c, h, m) => {
                a = create(*c, *h, *m).ok();
                b = create(*c, *h, *m).ok();
            }
            _ => {
                if let (Some(a), Some(b)) = (a.as_mut(), b.as_mut()) {
                    if k == at {
                        if let Op::Seed(p, s) = op {
                            apply(a, op).ok();
                            apply(b, &Op::Add(*p, s.clone())).ok();
                            let w = if a.max_window() == 3100 { 3200 } else { 3100 };
                            a.set_max_window(w).ok();
                            b.set_max_window(w).ok();
                        }
                    } else {
                        apply(a, op).ok();
                        apply(b, op).ok();
                    }
                    if k >= at {
                        let q = |e: &EbuR128| {
                            let mut o = observe(e, true);
                            o.0.retain(|x| x.0 == "momentary" || x.0 == "shortterm" || x.0.starts_with("window") || (k > at && x.0.starts_with("prev")));
                            o
                        };
                        if k == at || matches!(op, Op::Add(_, s) if s.frames > 0) {
                            same(&q(b), &q(a)).map_err(|m| format!("seeded against added, after {:?}: {}", op, m))?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn c14(case: &Case) -> R {
    let mut all: Vec<(EbuR128, Ref)> = vec![];
    for op in case {
        if let Op::New(c, h, m) = op {
            if let (Ok(a), Ok(b)) = (create(*c, *h, *m), Ref::new(*c, *h, *m)) {
                all.push((a, b));
            }
        } else if let Some((e, r)) = all.last_mut() {
            apply(e, op).ok();
            apply_ref(r, op);
        }
    }
    if all.iter().any(|x| x.1.dirty) {
        return Ok(());
    }
    let before: Vec<Obs> = all.iter().map(|x| observe(&x.0, true)).collect();
    let mut orders: Vec<Vec<usize>> = vec![(0..all.len()).collect(), (0..all.len()).rev().collect(), vec![]];
    for k in 0..all.len() {
        orders.push(vec![k]);
        if k > 0 {
            orders.push(vec![k - 1, k]);
            orders.push(vec![k, 0, k]);
        }
    }
    for n in [17, 70, 300] {
        orders.push((0..n).map(|i| i % all.len().max(1)).filter(|_| !all.is_empty()).collect());
    }
    for o in &orders {
        let es: Vec<&EbuR128> = o.iter().map(|k| &all[*k].0).collect();
        let g = EbuR128::loudness_global_multiple(es.iter().copied());
        let l = EbuR128::loudness_range_multiple(es.iter().copied());
        let rs: Vec<&Ref> = o.iter().map(|k| &all[*k].1).collect();
        if rs.iter().any(|r| !has(r.mode, model::I)) {
            if g != Err(ebur128::Error::InvalidMode) {
                return Err(format!("loudness_global_multiple({:?}) gives {:?} though a mode is missing", o, g));
            }
        } else {
            let bs: Vec<&model::Blocks> = rs.iter().map(|r| &r.blocks).collect();
            let mut one = model::Blocks::new(false, usize::MAX);
            one.v = bs.iter().flat_map(|b| b.v.iter().copied()).collect();
            if !near_gate(&one, 0.1) {
                want(&format!("loudness_global_multiple({:?})", o), f(g)?, model::integrated(&bs))?;
            }
            if o.len() == 1 {
                want("loudness_global_multiple of one", f(g)?, f(es[0].loudness_global())?)?;
            }
        }
        let modes = rs.iter().any(|r| !has(r.mode, model::LRA));
        let h = rs.iter().filter(|r| has(r.mode, model::HIST)).count();
        if modes || (h != 0 && h != rs.len()) {
            if l.is_ok() {
                return Err(format!("loudness_range_multiple({:?}) gives {:?} though a mode is missing or kinds are mixed", o, l));
            }
        } else {
            let bs: Vec<&model::Blocks> = rs.iter().map(|r| &r.sblocks).collect();
            let mut one = model::Blocks::new(false, usize::MAX);
            one.v = bs.iter().flat_map(|b| b.v.iter().copied()).collect();
            if !near_gate(&one, 0.01) {
                want(&format!("loudness_range_multiple({:?})", o), f(l)?, model::lra(&bs))?;
            }
        }
    }
    for (o, x) in before.iter().zip(&all) {
        same(o, &observe(&x.0, true)).map_err(|m| format!("measuring together changes {}", m))?;
    }
    Ok(())
}
/// a channel measured alone gives what it gives among others
fn alone(case: &Case) -> R {
    let mut cur: Option<(EbuR128, Vec<EbuR128>)> = None;
    for op in case {
        match op {
            Op::New(c, h, m) => {
                cur = match (create(*c, *h, *m), create(1, *h, *m)) {
                    (Ok(e), Ok(_)) => Some((e, (0..*c).map(|_| create(1, *h, *m).ok().unwrap()).collect())),
                    _ => None,
                }
            }
            _ => {
                if let Some((e, ones)) = cur.as_mut() {
                    let ch = e.channels() as usize;
                    match sig_of(op, ch) {
                        Some((sd, pl, s)) => {
                            let b = s.gen();
                            if sd { seed(e, &b, pl, ch).ok(); } else { add(e, &b, pl, ch).ok(); }
                            let v = b.f64s();
                            for (c, o) in ones.iter_mut().enumerate() {
                                let x = Buf::F64(v.iter().skip(c).step_by(ch).copied().collect());
                                if sd { seed(o, &x, false, 1).ok(); } else { add(o, &x, false, 1).ok(); }
                            }
                        }
                        None => match op {
                            Op::Change(c, _) if *c as usize != ch => return Ok(()),
                            Op::Change(_, r) => {
                                apply(e, op).ok();
                                ones.iter_mut().for_each(|o| { o.change_parameters(1, *r).ok(); });
                            }
                            Op::Window(_) | Op::History(_) | Op::Reset => {
                                apply(e, op).ok();
                                ones.iter_mut().for_each(|o| { apply(o, op).ok(); });
                            }
                            _ => (),
                        },
                    }
                    for (c, o) in ones.iter().enumerate() {
                        for (n, a, b) in [
                            ("sample peak", e.sample_peak(c as u32), o.sample_peak(0)),
                            ("last sample peak", e.prev_sample_peak(c as u32), o.prev_sample_peak(0)),
                            ("true peak", e.true_peak(c as u32), o.true_peak(0)),
                            ("last true peak", e.prev_true_peak(c as u32), o.prev_true_peak(0)),
                        ] {
                            if let (Ok(a), Ok(b)) = (a, b) {
                                if !(a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 3e-7 * a.abs().max(b.abs())) {
                                    return Err(format!("{} of channel {} is {:e} among {} channels but {:e} alone", n, c, a, ch, b));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn c02(case: &Case) -> R {
    run(
        case,
        |_, _, _| Ok(false),
        |e, k, _, _| {
            if k % 3 == 0 {
                observe(e, true);
                let _ = format!("{:?}", e);
                let _ = e.loudness_window(u32::MAX);
            }
            let _ = EbuR128::loudness_global_multiple([e, e].iter().map(|x| *x));
            let _ = EbuR128::loudness_range_multiple([e, e].iter().map(|x| *x));
            Ok(())
        },
    )
}

pub fn check(p: &str, case: &Case) -> R {
    let r = std::panic::catch_unwind(|| {
        let mut last = String::new();
        match p {
            "C02" => c02(case),
            "C03" => c03(case),
            "C04" => c04(case),
            "C08" | "C09" => lockstep(case, &what(p), &mut last).and_then(|_| alone(case)),
            "C14" => c14(case),
            "C15" => c15(case).and_then(|_| lockstep(case, &what(p), &mut last)),
            "C16" => c16(case),
            "C17" => c17(case),
            "C18" => crate::capi::check(case),
            "C19" => crate::csr::check(case),
            "C20" => c20(case).and_then(|_| lockstep(case, &what(p), &mut last)),
            _ => lockstep(case, &what(p), &mut last),
        }
    });
    match r {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}
