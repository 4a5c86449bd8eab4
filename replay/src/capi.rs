//! C18: the C functions against the Rust API
use crate::case::*;
use crate::sig::*;
use ebur128::capi::*;
use ebur128::EbuR128;
use std::os::raw::c_ulong;
use std::ptr;

#[repr(C)]
struct Mirror {
    mode: i32,
    channels: u32,
    samplerate: c_ulong,
    internal: *mut EbuR128,
}
type R = Result<(), String>;
const SENT: f64 = 12345.678;

struct H(*mut State);
impl Drop for H {
    fn drop(&mut self) {
        unsafe { ebur128_destroy(&mut self.0) }
    }
}
fn cmp(n: &str, rcode: i32, out: f64, exp: Result<f64, ebur128::Error>) -> R {
    let (c, v) = match exp {
        Ok(v) => (0, v),
        Err(e) => (code(e) as i32, SENT),
    };
    if rcode != c {
        return Err(format!("{} returns {} but must return {}", n, rcode, c));
    }
    if out.to_bits() != v.to_bits() && !(out.is_nan() && v.is_nan()) {
        return Err(format!("{} writes {:e} but must write {:e}", n, out, v));
    }
    Ok(())
}
/// a second analyzer of the same kind with a different signal, and one without any measurement
struct Others {
    same: (H, EbuR128),
    bad: (H, EbuR128),
}
fn others(mode: u8) -> Option<Others> {
    let one = |m: u8| -> Option<(H, EbuR128)> {
        let s = unsafe { ebur128_init(1, 8000, m as i32) };
        if s.is_null() {
            return None;
        }
        let h = H(s);
        let mut e = create(1, 8000, m).ok()?;
        let v: Vec<f64> = (0..28_000).map(|i| if i < 14_000 { 0.05 } else { 0.5 } * (i as f64 * 0.4).sin()).collect();
        e.add_frames_f64(&v).ok()?;
        unsafe { ebur128_add_frames_double(h.0, v.as_ptr(), v.len()) };
        Some((h, e))
    };
    Some(Others { same: one(mode)?, bad: one(1)? })
}
unsafe fn queries(h: *mut State, e: &EbuR128, ot: &Option<Others>, many: bool) -> R {
    macro_rules! q {
        ($f:ident, $x:expr) => {{
            let mut o = SENT;
            let r = $f(h, &mut o);
            cmp(stringify!($f), r, o, $x)?;
        }};
    }
    q!(ebur128_loudness_momentary, e.loudness_momentary());
    q!(ebur128_loudness_shortterm, e.loudness_shortterm());
    q!(ebur128_loudness_global, e.loudness_global());
    q!(ebur128_loudness_range, e.loudness_range());
    q!(ebur128_relative_threshold, e.relative_threshold());
    for w in [100u32, 400, 1234, 3000, 60000] {
        let mut o = SENT;
        let r = ebur128_loudness_window(h, w as c_ulong, &mut o);
        cmp("ebur128_loudness_window", r, o, e.loudness_window(w))?;
    }
    for w in [1u64 << 32, (1 << 32) + 400, u64::MAX] {
        let mut o = SENT;
        let r = ebur128_loudness_window(h, w as c_ulong, &mut o);
        cmp("ebur128_loudness_window (above 32 bit)", r, o, Err(ebur128::Error::NoMem))?;
    }
    for c in [0, 1, e.channels() - 1, e.channels(), u32::MAX] {
        macro_rules! p {
            ($f:ident, $m:ident) => {{
                let mut o = SENT;
                let r = $f(h, c, &mut o);
                cmp(&format!("{}({})", stringify!($f), c), r, o, e.$m(c))?;
            }};
        }
        p!(ebur128_sample_peak, sample_peak);
        p!(ebur128_prev_sample_peak, prev_sample_peak);
        p!(ebur128_true_peak, true_peak);
        p!(ebur128_prev_true_peak, prev_true_peak);
    }
    let mut lists: Vec<(String, Vec<(*mut State, &EbuR128)>)> = vec![];
    for n in 0..3usize {
        lists.push((format!("{} times the same", n), vec![(h, e); n]));
    }
    if let Some(o) = ot {
        let (s, b) = ((o.same.0 .0, &o.same.1), (o.bad.0 .0, &o.bad.1));
        lists.push(("it and another".into(), vec![(h, e), s]));
        lists.push(("another and it".into(), vec![s, (h, e)]));
        lists.push(("it and one of another kind".into(), vec![(h, e), b]));
        lists.push(("one of another kind and it".into(), vec![b, (h, e)]));
        if many {
            for n in [5usize, 17, 66, 260, 1030] {
                let mut v = vec![s; n];
                v[n - 1] = (h, e);
                lists.push((format!("{} others, and last it", n - 1), v.clone()));
                v.reverse();
                lists.push((format!("it, and {} others", n - 1), v));
                let mut v = vec![(h, e); n];
                v[n - 1] = b;
                lists.push((format!("{} times it, and last one of another kind", n - 1), v));
            }
        }
    }
    for (w, l) in &mut lists {
        let mut hs: Vec<*mut State> = l.iter().map(|x| x.0).collect();
        let pt = if hs.is_empty() { ptr::null_mut() } else { hs.as_mut_ptr() };
        let es: Vec<&EbuR128> = l.iter().map(|x| x.1).collect();
        let mut o = SENT;
        let r = ebur128_loudness_global_multiple(pt, es.len(), &mut o);
        cmp(&format!("ebur128_loudness_global_multiple of {}", w), r, o, EbuR128::loudness_global_multiple(es.iter().copied()))?;
        let mut o = SENT;
        let r = ebur128_loudness_range_multiple(pt, es.len(), &mut o);
        cmp(&format!("ebur128_loudness_range_multiple of {}", w), r, o, EbuR128::loudness_range_multiple(es.iter().copied()))?;
    }
    let m = &*(h as *const Mirror);
    if m.channels != e.channels() || m.samplerate != e.rate() as c_ulong {
        return Err(format!("the handle says {} channels at {} Hz but it is {} at {}", m.channels, m.samplerate, e.channels(), e.rate()));
    }
    Ok(())
}
fn eq(n: &str, got: i32, want: i32) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} returns {} but must return {}", n, got, want))
    }
}
fn ec(r: Result<(), u8>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(c) => c as i32,
    }
}
pub fn check(case: &Case) -> R {
    let mut cur: Option<(H, EbuR128, u8)> = None;
    let mut ot: Option<Others> = None;
    for (k, op) in case.iter().enumerate() {
        let tag = |m: String| format!("at call {} ({:?}): {}", k, op, m);
        if let Op::New(c, h, m) = op {
            for big in [(1u64 << 32) + *h as u64, u64::MAX] {
                let mut s = unsafe { ebur128_init(*c, big as c_ulong, *m as i32) };
                if !s.is_null() {
                    unsafe { ebur128_destroy(&mut s) };
                    return Err(tag("a rate above 32 bit is accepted".into()));
                }
            }
            let s = unsafe { ebur128_init(*c, *h as c_ulong, *m as i32) };
            let e = create(*c, *h, *m);
            match (s.is_null(), e) {
                (true, Err(_)) => cur = None,
                (false, Ok(e)) => {
                    cur = Some((H(s), e, *m));
                    ot = others(*m);
                }
                (n, e) => {
                    if !n {
                        drop(H(s));
                    }
                    return Err(tag(format!("null is {} but the Rust API gives {:?}", n, e.map(|_| ()))));
                }
            }
            if let Some((s, _, m)) = &cur {
                let mi = unsafe { &*(s.0 as *const Mirror) };
                if mi.mode != *m as i32 || mi.internal.is_null() {
                    return Err(tag("wrong fields of the handle".into()));
                }
            }
            continue;
        }
        if let Some((s, e, _)) = cur.as_mut() {
            let h = s.0;
            let r: R = (|| unsafe {
                match op {
                    Op::Chan(n, v) => {
                        for bad in [-1, 32, i32::MAX, i32::MIN] {
                            eq("ebur128_set_channel with an unknown channel type", ebur128_set_channel(h, *n, bad), 3)?;
                        }
                        let x = *v % 32;
                        eq("ebur128_set_channel", ebur128_set_channel(h, *n, x as i32), ec(apply(e, op)))?
                    }
                    Op::Map(v) => {
                        for (i, x) in v.iter().enumerate() {
                            let g = ebur128_set_channel(h, i as u32, (*x % 32) as i32);
                            eq("ebur128_set_channel", g, ec(rc(e.set_channel(i as u32, ech(*x)))))?
                        }
                    }
                    Op::Change(c, rt) => {
                        eq("ebur128_change_parameters above 32 bit", ebur128_change_parameters(h, *c, *rt as c_ulong + (1 << 32)), 1)?;
                        let x = if e.channels() == *c && e.rate() == *rt { 4 } else { ec(apply(e, op)) };
                        eq("ebur128_change_parameters", ebur128_change_parameters(h, *c, *rt as c_ulong), x)?
                    }
                    Op::Window(w) => {
                        eq("ebur128_set_max_window above 32 bit", ebur128_set_max_window(h, *w as c_ulong + (1 << 32)), 1)?;
                        let x = if e.max_window() == *w as usize { 4 } else { ec(apply(e, op)) };
                        eq("ebur128_set_max_window", ebur128_set_max_window(h, *w as c_ulong), x)?
                    }
                    Op::History(w) => {
                        eq("ebur128_set_max_history above 32 bit", ebur128_set_max_history(h, *w as c_ulong + (1 << 32)), 1)?;
                        let x = if e.max_history() == *w as usize { 4 } else { ec(apply(e, op)) };
                        eq("ebur128_set_max_history", ebur128_set_max_history(h, *w as c_ulong), x)?
                    }
                    Op::Add(_, sg) => {
                        let ch = e.channels() as usize;
                        let sg = Sig { channels: ch, ..sg.clone() };
                        let b = sg.gen();
                        let n = sg.frames;
                        if n > 0 {
                            if ch > 1 {
                                let over = usize::MAX / ch + 1;
                                eq("ebur128_add_frames_double with too many frames", ebur128_add_frames_double(h, ptr::null(), over), 1)?;
                                eq("ebur128_add_frames_short with too many frames", ebur128_add_frames_short(h, ptr::null(), over), 1)?;
                            }
                        }
                        let z = |l: bool| l;
                        let g = match &b {
                            Buf::I16(v) => ebur128_add_frames_short(h, if z(n == 0) { ptr::null() } else { v.as_ptr() }, n),
                            Buf::I32(v) => ebur128_add_frames_int(h, if z(n == 0) { ptr::null() } else { v.as_ptr() }, n),
                            Buf::F32(v) => ebur128_add_frames_float(h, if z(n == 0) { ptr::null() } else { v.as_ptr() }, n),
                            Buf::F64(v) => ebur128_add_frames_double(h, if z(n == 0) { ptr::null() } else { v.as_ptr() }, n),
                        };
                        eq("ebur128_add_frames", g, ec(add(e, &b, false, ch)))?
                    }
                    _ => (),
                }
                queries(h, e, &ot, k + 1 == case.len())
            })();
            r.map_err(tag)?;
        }
    }
    // destroy
    unsafe {
        let (mut a, mut b, mut c) = (1, 1, 1);
        ebur128_get_version(&mut a, &mut b, &mut c);
        if (a, b, c) != (1, 2, 6) {
            return Err(format!("version {}.{}.{}", a, b, c));
        }
        ebur128_destroy(ptr::null_mut());
        let mut n: *mut State = ptr::null_mut();
        ebur128_destroy(&mut n);
        let mut n = ebur128_init(2, 48000, 1);
        if !n.is_null() {
            ebur128_destroy(&mut n);
            if !n.is_null() {
                return Err("ebur128_destroy leaves the pointer".into());
            }
        }
    }
    Ok(())
}
