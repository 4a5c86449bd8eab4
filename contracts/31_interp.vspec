@module interp interp.rs
@raw
use crate::fl::*;
use crate::pre::*;
use crate::utils::*;
broadcast use crate::fl::fl;
@item ALMOST_ZERO
@item TAPS
@item RollingBuffer
@item InterpF

@raw
// ------------------------------------------------------------------ specification
/// Coefficient j of the 48-tap windowed sinc for upsampling by fac.
pub open spec fn s_coeff(fac: int, j: int) -> f32 {
    let x = s_f64_of_int(j);
    let window = s_f64_of_int(48);
    let w = fmul(0.5f64, fsub(1.0f64, s_cos(fdiv(fmul(fmul(2.0f64, s_pi()), x), window))));
    let m = fsub(x, fdiv(window, 2.0f64));
    s_f32_of_f64(if fgt(s_abs64(m), 0.000001f64) {
        fdiv(fmul(w, s_sin(fdiv(fmul(m, s_pi()), s_f64_of_int(fac)))), fdiv(fmul(m, s_pi()), s_f64_of_int(fac)))
    } else {
        w
    })
}
/// A new sample enters the history of a channel; entry 0 is the newest.
pub open spec fn hist_push<X>(h: Seq<X>, x: X) -> Seq<X> { seq![x] + h.drop_last() }
/// Phase f of the interpolation from history h: the first n taps, accumulated from the newest.
pub open spec fn tp_out(h: Seq<f32>, fac: int, f: int, n: int) -> f32
    decreases n,
{
    if n <= 0 { 0.0f32 } else { mac32(tp_out(h, fac, f, n - 1), h[n - 1], s_coeff(fac, (n - 1) * fac + f)) }
}
pub open spec fn fr_ch<F: FrameAccumulator>(h: Seq<F>, c: int) -> Seq<f32> { Seq::new(h.len(), |t: int| h[t].fr()[c]) }

@raw
impl<T, const N: usize> RollingBuffer<T, N> {
    pub open spec fn wf(&self) -> bool {
        0 < N && 2 * N <= TAPS && self.position <= N && forall|i: int| 0 <= i < N ==> #[trigger] self.buf@[i] == self.buf@[i + N]
    }
    pub open spec fn hist(&self) -> Seq<T> { Seq::new(N as nat, |t: int| self.buf@[self.position + t]) }
}
/// The N entries of the buffer from position on, as an array.
#[verifier::external_body]
pub fn vx_window<T, const M: usize, const N: usize>(buf: &[T; M], position: usize) -> (r: &[T; N])
    requires position + N <= M,
    ensures r@ == buf@.subrange(position as int, position + N),
{ unimplemented!() }
impl<const ACTIVE_TAPS: usize, const FACTOR: usize, F: FrameAccumulator> InterpF<ACTIVE_TAPS, FACTOR, F> {
    pub open spec fn wf(&self) -> bool {
        &&& ACTIVE_TAPS * FACTOR == 48 && 2 <= FACTOR
        &&& self.buffer.wf()
        &&& forall|t: int, f: int| 0 <= t < ACTIVE_TAPS && 0 <= f < FACTOR ==> #[trigger] self.filter@[t]@[f] == s_coeff(FACTOR as int, t * FACTOR + f)
    }
    /// history of channel c, newest first
    pub open spec fn h(&self, c: int) -> Seq<f32> { fr_ch(self.buffer.hist(), c) }
}

@fn RollingBuffer::new() -> r
@props C02 C09 C15
@implhdr impl<T: FrameAccumulator, const N: usize> RollingBuffer<T, N>
@subst Default :: default() =>> T :: vx_default()
@spec
    requires 0 < N, 2 * N <= TAPS,
    ensures r.wf(),
        forall|t: int| 0 <= t < N ==> (#[trigger] r.hist()[t]).fr() == Seq::new(T::s_ch(), |i: int| 0.0f32), //# C09 C15

@fn RollingBuffer::push_front(v)
@props C02 C09
@implhdr impl<T: FrameAccumulator, const N: usize> RollingBuffer<T, N>
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).hist() =~= hist_push(old(self).hist(), v), //# C03 C09 C20

@fn RollingBuffer.AsRef::as_ref() -> r
@props C02 C09
@spec
    requires self.wf(),
    ensures r@ =~= self.hist(), //# C09

@fn InterpF::new() -> r
@props C09 C15
@implhdr impl<const ACTIVE_TAPS: usize, const FACTOR: usize, F: FrameAccumulator> InterpF<ACTIVE_TAPS, FACTOR, F>
@entry
    proof {
        assert(2 * ACTIVE_TAPS <= 48 && 0 < ACTIVE_TAPS) by (nonlinear_arith) requires ACTIVE_TAPS * FACTOR == 48, FACTOR >= 2, ACTIVE_TAPS >= 0;
    }
@loop 0
    invariant
        vx_n0 == ACTIVE_TAPS, vx_i0 <= vx_n0, vx_cnt0 == vx_i0 * FACTOR,
        forall|t: int, f: int| 0 <= t < vx_i0 && 0 <= f < FACTOR ==> #[trigger] filter@[t]@[f] == s_coeff(FACTOR as int, t * FACTOR + f),
    decreases vx_n0 - vx_i0
@loop 1
    invariant
        vx_n1 == FACTOR, vx_i1 <= vx_n1, vx_cnt0 == vx_k0 * FACTOR + vx_i1, vx_i0 == vx_k0 + 1,
        forall|t: int, f: int| 0 <= t < vx_k0 && 0 <= f < FACTOR ==> #[trigger] filter@[t]@[f] == s_coeff(FACTOR as int, t * FACTOR + f),
        forall|f: int| 0 <= f < vx_i1 ==> #[trigger] filter@[vx_k0 as int]@[f] == s_coeff(FACTOR as int, vx_k0 * FACTOR + f),
    decreases vx_n1 - vx_i1
@top 1
    proof {
        let m = s_abs64(fsub(s_f64_of_int(vx_k0 * FACTOR + vx_k1), fdiv(s_f64_of_int(48), 2.0f64)));
        fl_mid(vx_k0 * FACTOR + vx_k1); fl_cmp(m, 0.000001f64);
    }
@top 0
    proof {
        assert(vx_k0 * FACTOR + FACTOR <= 48) by (nonlinear_arith) requires vx_k0 < ACTIVE_TAPS, ACTIVE_TAPS * FACTOR == 48, FACTOR >= 2;
        assert((vx_k0 + 1) * FACTOR == vx_k0 * FACTOR + FACTOR) by (nonlinear_arith);
    }
@spec
    requires ACTIVE_TAPS * FACTOR == 48, 2 <= FACTOR,
    ensures r.wf(),
        forall|c: int, t: int| 0 <= c < F::s_ch() && 0 <= t < ACTIVE_TAPS ==> #[trigger] r.h(c)[t] == 0.0f32, //# C09 C15

@fn InterpF::interpolate(frame) -> r
@props C09
@implhdr impl<const ACTIVE_TAPS: usize, const FACTOR: usize, F: FrameAccumulator> InterpF<ACTIVE_TAPS, FACTOR, F>
@subst Default :: default() =>> F :: vx_default()
@entry
    let ghost vx_old = self.buffer.hist();
@pre 0
    let ghost vx_h = self.buffer.hist();
    proof {
        assert forall|c: int| 0 <= c < F::s_ch() implies #[trigger] self.h(c) =~= hist_push(old(self).h(c), frame.fr()[c]) by {
            assert(fr_ch(hist_push(vx_old, frame), c) =~= hist_push(fr_ch(vx_old, c), frame.fr()[c]));
        }
    }
@loop 0
    invariant
        self.wf(), vx_n0 == ACTIVE_TAPS, vx_i0 <= vx_n0, self.buffer.hist() == vx_h, buf@ == vx_h, vx_h.len() == ACTIVE_TAPS,
        forall|f: int, c: int| 0 <= c < F::s_ch() && 0 <= f < FACTOR ==> #[trigger] output@[f].fr()[c] == tp_out(fr_ch(vx_h, c), FACTOR as int, f, vx_i0 as int),
    decreases vx_n0 - vx_i0
@loop 1
    invariant
        vx_n1 == FACTOR, vx_i1 <= vx_n1, vx_i0 == vx_k0 + 1,
        forall|f: int, c: int| 0 <= c < F::s_ch() && 0 <= f < vx_i1 ==> #[trigger] output@[f].fr()[c] == tp_out(fr_ch(vx_h, c), FACTOR as int, f, vx_i0 as int),
        forall|f: int, c: int| 0 <= c < F::s_ch() && vx_i1 <= f < FACTOR ==> #[trigger] output@[f].fr()[c] == tp_out(fr_ch(vx_h, c), FACTOR as int, f, vx_k0 as int),
    decreases vx_n1 - vx_i1
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        forall|c: int| 0 <= c < F::s_ch() ==> #[trigger] final(self).h(c) =~= hist_push(old(self).h(c), frame.fr()[c]), //# C03 C09 C20
        forall|f: int, c: int| 0 <= c < F::s_ch() && 0 <= f < FACTOR ==> #[trigger] r@[f].fr()[c] == tp_out(final(self).h(c), FACTOR as int, f, ACTIVE_TAPS as int), //# C09

@fn InterpF::reset()
@props C09 C15
@implhdr impl<const ACTIVE_TAPS: usize, const FACTOR: usize, F: FrameAccumulator> InterpF<ACTIVE_TAPS, FACTOR, F>
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        forall|c: int, t: int| 0 <= c < F::s_ch() && 0 <= t < ACTIVE_TAPS ==> #[trigger] final(self).h(c)[t] == 0.0f32, //# C09 C15
