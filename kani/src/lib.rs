//! The axioms on floats of contracts/00_prelude.vspec and 20_history.vspec, each a statement about IEEE 754 operations,
//! decided bit-precisely for all values of the operands (round to nearest, no flush to zero).
#![allow(dead_code)]
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
fn same32(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() }
fn pos64(x: f64) -> bool { same(x.abs(), x) && x <= x }
fn pos32(x: f32) -> bool { same32(x.abs(), x) && x <= x }

#[cfg(kani)]
mod proofs {
    use super::*;
    #[kani::proof]
    fn ax_f32_rt() { let x: f32 = kani::any(); if x <= x { assert!(same32(x as f64 as f32, x)); } }
    #[kani::proof]
    fn ax_f32_zero() { assert!(same32(0.0f64 as f32, 0.0) && same(0.0f32 as f64, 0.0) && 0.0f32 <= 0.0f32); }
    #[kani::proof]
    fn ax_f32_gt() { let (a, b): (f32, f32) = kani::any(); assert!((a as f64 > b as f64) == (a > b)); }
    #[kani::proof]
    fn ax_f32_gt_nn() { let (a, b): (f32, f32) = kani::any(); if a > b { assert!(a <= a && b <= b); } }
    #[kani::proof]
    fn ax_pos64() {
        let (a, b): (f64, f64) = kani::any();
        if pos64(a) && pos64(b) { assert!((a > b) == (a.to_bits() > b.to_bits())); assert!((a <= b) == (a.to_bits() <= b.to_bits())); }
    }
    #[kani::proof]
    fn ax_pos_bits() { let a: f64 = kani::any(); if a.to_bits() < 0x7ff0_0000_0000_0000 { assert!(pos64(a)); } }
    #[kani::proof]
    fn ax_zero_bits() { assert!(0.0f64.to_bits() == 0 && pos64(0.0)); }
    #[kani::proof]
    fn ax_pos32() {
        let (a, b): (f32, f32) = kani::any();
        if pos32(a) && pos32(b) { assert!((a > b) == (a.to_bits() > b.to_bits())); }
    }
    #[kani::proof]
    fn ax_abs64() {
        let (x, b): (f64, f64) = kani::any();
        assert!(same(x.abs().abs(), x.abs()));
        if x.abs() > b { assert!(pos64(x.abs())); }
        assert!(pos64(0.0));
    }
    #[kani::proof]
    fn ax_abs32() {
        let (x, b): (f32, f32) = kani::any();
        assert!(same32(x.abs().abs(), x.abs()));
        if x.abs() > b { assert!(pos32(x.abs())); }
        assert!(pos32(0.0));
    }
    #[kani::proof]
    fn ax_zero_least() { let p: f64 = kani::any(); if pos64(p) { assert!(!(0.0 > p)); } }
    #[kani::proof]
    fn ax_zero_least32() { let p: f32 = kani::any(); if pos32(p) { assert!(!(0.0 > p)); } }
    #[kani::proof]
    fn ax_pos_f32() { let x: f32 = kani::any(); if pos32(x) { assert!(pos64(x as f64)); } }
    fn div_amp(m: f64) {
        let (a, b): (f64, f64) = kani::any();
        if pos64(a) && pos64(b) {
            assert!(pos64(a / m));
            if a > b { assert!(!(b / m > a / m)); }
        }
        assert!(same(0.0 / m, 0.0));
    }
    #[kani::proof]
    fn ax_div_amp_1() { div_amp(1.0) }
    #[kani::proof]
    fn ax_div_amp_15() { div_amp(32768.0) }
    #[kani::proof]
    fn ax_div_amp_31() { div_amp(2147483648.0) }
    #[kani::proof]
    fn ax_div_one() { let a: f64 = kani::any(); if a <= a { assert!(same(a / 1.0, a)); } }
    fn abs_div(m: f64) {
        let x: f64 = kani::any();
        if x <= x { assert!(same((x / m).abs(), x.abs() / m)); assert!(pos64(x.abs())); assert!(x / m <= x / m); }
    }
    #[kani::proof]
    fn ax_abs_div_1() { abs_div(1.0) }
    #[kani::proof]
    fn ax_abs_div_15() { abs_div(32768.0) }
    #[kani::proof]
    fn ax_abs_div_31() { abs_div(2147483648.0) }
    #[kani::proof]
    fn ax_int() { let x: i32 = kani::any(); assert!(x as f64 <= x as f64); }
    #[kani::proof]
    fn ax_amp() { assert!(same(-(i16::MIN as f64), 32768.0) && same(-(i32::MIN as f64), 2147483648.0)); }
    #[kani::proof]
    fn ax_rank() {
        let n: u64 = kani::any();
        kani::assume(n >= 1 && n < 1 << 63);
        assert!((((n - 1) as f64) * 0.1 + 0.5) as u64 <= n - 1);
        assert!((((n - 1) as f64) * 0.95 + 0.5) as u64 <= n - 1);
    }

    // ---- dasp_sample and dasp_frame, as called by the crate
    use dasp_frame::Frame;
    use dasp_sample::Sample as _;
    #[kani::proof]
    fn ax_i16() {
        let x: i16 = kani::any();
        assert!(same(x.to_sample::<f64>(), x as f64 / 32768.0));
        assert!(same32(x.to_sample::<f32>(), (x as f64 / 32768.0) as f32));
    }
    #[kani::proof]
    fn ax_i32() {
        let x: i32 = kani::any();
        assert!(same(x.to_sample::<f64>(), x as f64 / 2147483648.0));
        assert!(same32(x.to_sample::<f32>(), (x as f64 / 2147483648.0) as f32));
    }
    #[kani::proof]
    fn float_samples() {
        let (x, y): (f32, f64) = kani::any();
        // payloads of NaN are left open
        assert!(x.to_sample::<f32>().to_bits() == x.to_bits());
        assert!(y.to_sample::<f64>().to_bits() == y.to_bits());
        if x <= x { assert!(same(x.to_sample::<f64>(), x as f64)); } else { assert!(x.to_sample::<f64>().is_nan()); }
        if y <= y { assert!(same32(y.to_sample::<f32>(), y as f32)); } else { assert!(y.to_sample::<f32>().is_nan()); }
    }
    fn from_samples<const N: usize, const M: usize>()
    where
        [i32; N]: Frame<Sample = i32>,
    {
        let a: [i32; M] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= M);
        match <[i32; N]>::from_samples(&mut a[..n].iter().copied()) {
            Some(f) => {
                assert!(n >= N);
                let i: usize = kani::any();
                if i < N { assert!(f[i] == a[i]); }
            }
            None => assert!(n < N),
        }
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn from_samples_1_2() { from_samples::<1, 3>(); from_samples::<2, 4>(); }
    #[kani::proof]
    #[kani::unwind(12)]
    fn from_samples_4_6() { from_samples::<4, 6>(); from_samples::<6, 8>(); }
    #[kani::proof]
    #[kani::unwind(12)]
    fn from_samples_8() { from_samples::<8, 10>(); }

    // ---- bitflags, on the crate's own Mode
    use ebur128::Mode;
    #[kani::proof]
    fn mode_contains() {
        let (a, b): (u8, u8) = kani::any();
        let (a, b) = (Mode::from_bits_truncate(a), Mode::from_bits_truncate(b));
        assert!(a.contains(b) == (a.bits() & b.bits() == b.bits()));
        assert!(a.intersects(b) == (a.bits() & b.bits() != 0));
        assert!(a.is_empty() == (a.bits() == 0));
        assert!((a | b).bits() == a.bits() | b.bits());
        assert!((a & b).bits() == a.bits() & b.bits());
        assert!((a == b) == (a.bits() == b.bits()));
    }
    #[kani::proof]
    fn mode_truncate() {
        let a: u8 = kani::any();
        assert!(Mode::from_bits_truncate(a).bits() == a & Mode::all().bits());
        assert!(Mode::all().bits() == (Mode::M | Mode::S | Mode::I | Mode::LRA | Mode::SAMPLE_PEAK | Mode::TRUE_PEAK | Mode::HISTOGRAM).bits());
    }
}
