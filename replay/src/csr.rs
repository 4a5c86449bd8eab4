//! C19: the control register of the floating-point unit
use crate::case::*;
#[cfg(target_arch = "x86_64")]
use crate::sig::Rng;

#[cfg(target_arch = "x86_64")]
pub fn get() -> u32 {
    let mut v: u32 = 0;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v, options(nostack)) };
    v
}
#[cfg(target_arch = "x86_64")]
pub fn set(v: u32) {
    unsafe { std::arch::asm!("ldmxcsr [{}]", in(reg) &v, options(nostack)) };
}
#[cfg(not(target_arch = "x86_64"))]
pub fn check(_: &Case) -> Result<(), String> {
    Ok(())
}
#[cfg(target_arch = "x86_64")]
pub fn check(case: &Case) -> Result<(), String> {
    let mut cur = None;
    let mut g = Rng::new(case.len() as u64 * 31 + 7);
    let orig = get();
    // rounding mode, flush to zero, denormals are zero; exceptions stay masked
    for (k, op) in case.iter().enumerate() {
        let w = 0x1f80 | (g.below(4) as u32) << 13 | (g.below(2) as u32) << 15 | (g.below(2) as u32) << 6;
        if let Op::New(c, h, m) = op {
            set(w);
            cur = create(*c, *h, *m).ok();
            let a = get();
            set(orig);
            if a & !0x3f != w {
                return Err(format!("new() leaves the control register {:#x} instead of {:#x}", a & !0x3f, w));
            }
            continue;
        }
        if let Some(e) = cur.as_mut() {
            // the signal is made with the default register
            let pre = match op {
                Op::Add(_, s) | Op::Seed(_, s) => {
                    let mut s = s.clone();
                    s.channels = e.channels() as usize;
                    Some((s.gen(), s.channels))
                }
                _ => None,
            };
            set(w);
            match (&pre, op) {
                (Some((b, ch)), Op::Add(p, _)) => { add(e, b, *p, *ch).ok(); }
                (Some((b, ch)), Op::Seed(p, _)) => { seed(e, b, *p, *ch).ok(); }
                _ => { apply(e, op).ok(); }
            }
            let a = get();
            let _ = e.loudness_momentary();
            let _ = e.loudness_global();
            let _ = e.loudness_range();
            let b = get();
            set(orig);
            if a & !0x3f != w || b & !0x3f != w {
                return Err(format!("call {} ({:?}) leaves the control register {:#x} instead of {:#x}", k, op, a & !0x3f, w));
            }
        }
    }
    Ok(())
}
