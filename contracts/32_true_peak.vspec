@module true_peak true_peak.rs
@raw
use crate::fl::*;
use crate::pre::*;
use crate::utils::*;
use crate::interp::*;
broadcast use crate::fl::fl;
@item UpsamplingScanner
@raw
use UpsamplingScanner::*;
@item TruePeak

@raw
// ------------------------------------------------------------------ specification
/// the first n samples of channel c, as the interpolator sees them
pub open spec fn xs32<'a, T: Sample + 'a, S: Samples<'a, T>>(src: S, c: int, n: int) -> Seq<f32> {
    Seq::new(n as nat, |i: int| src.smp(c, i).s_to32())
}
/// history after the samples xs
pub open spec fn tp_hist(h: Seq<f32>, xs: Seq<f32>) -> Seq<f32>
    decreases xs.len(),
{
    if xs.len() == 0 { h } else { hist_push(tp_hist(h, xs.drop_last()), xs.last()) }
}
/// peak p raised by the absolute values of the first n interpolated samples
pub open spec fn tp_max(h: Seq<f32>, fac: int, p: f32, n: int) -> f32
    decreases n,
{
    if n <= 0 { p } else {
        let q = tp_max(h, fac, p, n - 1);
        let o = s_abs32(tp_out(h, fac, n - 1, h.len() as int));
        if fgt32(o, q) { o } else { q }
    }
}
/// peak after the samples xs, from peak p and history h
pub open spec fn tp_peak(h: Seq<f32>, fac: int, p: f32, xs: Seq<f32>) -> f32
    decreases xs.len(),
{
    if xs.len() == 0 { p } else { tp_max(tp_hist(h, xs), fac, tp_peak(h, fac, p, xs.drop_last()), fac) }
}
pub proof fn tp_hist_len(h: Seq<f32>, xs: Seq<f32>)
    requires h.len() > 0,
    ensures tp_hist(h, xs).len() == h.len(),
    decreases xs.len(),
{
    if xs.len() > 0 { tp_hist_len(h, xs.drop_last()); }
}
pub proof fn tp_max_ok(h: Seq<f32>, fac: int, p: f32, n: int)
    requires fle32(p, p),
    ensures fle32(tp_max(h, fac, p, n), tp_max(h, fac, p, n)),
    decreases n,
{
    if n > 0 {
        tp_max_ok(h, fac, p, n - 1);
        fl_f32_gt_nn(s_abs32(tp_out(h, fac, n - 1, h.len() as int)), tp_max(h, fac, p, n - 1));
    }
}
pub proof fn tp_peak_ok(h: Seq<f32>, fac: int, p: f32, xs: Seq<f32>)
    requires fle32(p, p),
    ensures fle32(tp_peak(h, fac, p, xs), tp_peak(h, fac, p, xs)),
    decreases xs.len(),
{
    if xs.len() > 0 {
        tp_peak_ok(h, fac, p, xs.drop_last());
        tp_max_ok(tp_hist(h, xs), fac, tp_peak(h, fac, p, xs.drop_last()), fac);
    }
}
pub proof fn xs32_next<'a, T: Sample + 'a, S: Samples<'a, T>>(src: S, c: int, n: int)
    requires n >= 0,
    ensures xs32(src, c, n + 1).drop_last() == xs32(src, c, n), xs32(src, c, n + 1).last() == src.smp(c, n).s_to32(), xs32(src, c, n + 1).len() == n + 1,
{
    assert(xs32(src, c, n + 1).drop_last() =~= xs32(src, c, n));
}
/// A stored peak: a single-precision number, not a NaN.
pub open spec fn pk_ok(p: f64) -> bool { s_f64_of_f32(s_f32_of_f64(p)) == p && fle32(s_f32_of_f64(p), s_f32_of_f64(p)) }
/// one channel before and after a call with the samples xs
pub open spec fn tp_step(h0: Seq<f32>, p0: f64, h1: Seq<f32>, p1: f64, fac: int, xs: Seq<f32>) -> bool {
    h1 == tp_hist(h0, xs) && p1 == s_f64_of_f32(tp_peak(h0, fac, s_f32_of_f64(p0), xs)) && pk_ok(p1)
}
impl UpsamplingScanner {
    pub open spec fn fac(&self) -> int {
        match self {
            Mono2F(_) | Stereo2F(_) | Quad2F(_) | Surround2F(_) | OctoSurround2F(_) | Generic2F(_) => 2,
            _ => 4,
        }
    }
    pub open spec fn chs(&self) -> int {
        match self {
            Mono2F(_) | Mono4F(_) => 1,
            Stereo2F(_) | Stereo4F(_) => 2,
            Quad2F(_) | Quad4F(_) => 4,
            Surround2F(_) | Surround4F(_) => 6,
            OctoSurround2F(_) | OctoSurround4F(_) => 8,
            Generic2F(b) => b@.len() as int,
            Generic4F(b) => b@.len() as int,
        }
    }
    pub open spec fn wf(&self) -> bool {
        match self {
            Mono2F(i) => i.wf(), Stereo2F(i) => i.wf(), Quad2F(i) => i.wf(), Surround2F(i) => i.wf(), OctoSurround2F(i) => i.wf(),
            Mono4F(i) => i.wf(), Stereo4F(i) => i.wf(), Quad4F(i) => i.wf(), Surround4F(i) => i.wf(), OctoSurround4F(i) => i.wf(),
            Generic2F(b) => forall|c: int| 0 <= c < b@.len() ==> (#[trigger] b@[c]).wf(),
            Generic4F(b) => forall|c: int| 0 <= c < b@.len() ==> (#[trigger] b@[c]).wf(),
        }
    }
    pub open spec fn h(&self, c: int) -> Seq<f32> {
        match self {
            Mono2F(i) => i.h(c), Stereo2F(i) => i.h(c), Quad2F(i) => i.h(c), Surround2F(i) => i.h(c), OctoSurround2F(i) => i.h(c),
            Mono4F(i) => i.h(c), Stereo4F(i) => i.h(c), Quad4F(i) => i.h(c), Surround4F(i) => i.h(c), OctoSurround4F(i) => i.h(c),
            Generic2F(b) => b@[c].h(0),
            Generic4F(b) => b@[c].h(0),
        }
    }
}
impl TruePeak {
    pub open spec fn fac(&self) -> int { self.interp.fac() }
    pub open spec fn chs(&self) -> int { self.interp.chs() }
    pub open spec fn wf(&self) -> bool { self.interp.wf() }
    pub open spec fn h(&self, c: int) -> Seq<f32> { self.interp.h(c) }
}
/// the upsampling factor for a sample rate, 0 for none
pub open spec fn tp_factor(rate: int) -> int { if rate < 96000 { 4 } else if rate < 192000 { 2 } else { 0 } }
pub open spec fn h_zero(fac: int) -> Seq<f32> { Seq::new((48int / fac) as nat, |t: int| 0.0f32) }

@macrofn tp_specialized_impl in UpsamplingScanner::check_true_peak(CH, interpolator)
@props C03 C09 C17 C20
@sig
    fn vx_tp_specialized_impl<'a, const CH: usize, const A: usize, const FA: usize, T: Sample + 'a, S: Samples<'a, T>>(src: S, interpolator: &mut InterpF<A, FA, [f32; CH]>, peaks: &mut [f64])
@spec
    requires old(interpolator).wf(), src.s_wf(), src.s_channels() == CH, old(peaks)@.len() == CH,
        forall|c: int| 0 <= c < CH ==> pk_ok(#[trigger] old(peaks)@[c]),
    ensures final(interpolator).wf(), final(peaks)@.len() == CH,
        forall|c: int| 0 <= c < CH ==> tp_step(#[trigger] old(interpolator).h(c), old(peaks)@[c], final(interpolator).h(c), final(peaks)@[c], FA as int, xs32(src, c, src.s_frames())), //# C03 C09 C17 C20
@entry
    proof { src.facts(); }
    let ghost i0 = *interpolator;
    let ghost p0 = peaks@;
    let ghost gsrc = src;
    let ghost fr = src.s_frames();
@loop 0
    invariant
        vx_n0 == CH, vx_i0 <= vx_n0, peaks@ == p0, p0.len() == CH,
        forall|c: int| 0 <= c < vx_i0 ==> #[trigger] vx_arr0@[c] == s_f32_of_f64(p0[c]),
    decreases vx_n0 - vx_i0
@pre 1
    proof {
        assert forall|c: int| 0 <= c < CH implies tp_hist(#[trigger] i0.h(c), xs32(gsrc, c, 0)) == i0.h(c) by { assert(xs32(gsrc, c, 0) =~= Seq::empty()); }
    }
@loop 1
    invariant
        interpolator.wf(), vx_n1 == fr, vx_i1 <= vx_n1, src == gsrc, gsrc.s_wf(), gsrc.s_frames() == fr, gsrc.s_channels() == CH,
        forall|c: int| 0 <= c < CH ==> #[trigger] interpolator.h(c) == tp_hist(i0.h(c), xs32(gsrc, c, vx_i1 as int)),
        forall|c: int| 0 <= c < CH ==> #[trigger] tmp_peaks@[c] == tp_peak(i0.h(c), FA as int, s_f32_of_f64(p0[c]), xs32(gsrc, c, vx_i1 as int)),
    decreases vx_n1 - vx_i1
@top 1
    let ghost hh = *interpolator;
    let ghost pp = tmp_peaks@;
    proof {
        assert forall|c: int| 0 <= c < CH implies #[trigger] i0.h(c).len() == A by {}
    }
@loop 2
    invariant
        vx_n2 == CH, vx_i2 <= vx_n2, vx_src2@.len() == CH,
        forall|c: int| 0 <= c < vx_i2 ==> #[trigger] vx_arr1@[c] == vx_src2@[c].s_to32(),
    decreases vx_n2 - vx_i2
@pre 3
    proof {
        assert forall|c: int| 0 <= c < CH implies #[trigger] interpolator.h(c) == tp_hist(i0.h(c), xs32(gsrc, c, vx_i1 as int)) && interpolator.h(c).len() == A by {
            xs32_next(gsrc, c, vx_k1 as int);
            assert(hh.h(c) == tp_hist(i0.h(c), xs32(gsrc, c, vx_k1 as int)));
            assert(frame_f32.fr()[c] == gsrc.smp(c, vx_k1 as int).s_to32());
            assert(interpolator.h(c) == hist_push(hh.h(c), frame_f32.fr()[c]));
        }
    }
@loop 3
    invariant
        vx_n3 == FA, vx_i3 <= vx_n3, tmp_peaks@.len() == CH,
        forall|c: int| 0 <= c < CH ==> #[trigger] tmp_peaks@[c] == tp_max(interpolator.h(c), FA as int, pp[c], vx_i3 as int),
    decreases vx_n3 - vx_i3
@loop 4
    invariant
        vx_n4 == CH, vx_i4 <= vx_n4, vx_src5@.len() == CH,
        forall|c: int| 0 <= c < vx_i4 ==> #[trigger] vx_arr4@[c] == s_abs32(vx_src5@[c]),
    decreases vx_n4 - vx_i4
@bot 3
    proof {
        assert forall|c: int| 0 <= c < CH implies #[trigger] tmp_peaks@[c] == tp_max(interpolator.h(c), FA as int, pp[c], vx_i3 as int) by {
            assert(tmp_peaks@[c] == tmp_peaks.fr()[c]);
            assert(vx_src3@[vx_k3 as int].fr()[c] == tp_out(interpolator.h(c), FA as int, vx_k3 as int, A as int));
        }
    }
@bot 1
    proof {
        assert forall|c: int| 0 <= c < CH implies #[trigger] tmp_peaks@[c] == tp_peak(i0.h(c), FA as int, s_f32_of_f64(p0[c]), xs32(gsrc, c, vx_i1 as int)) by {
            xs32_next(gsrc, c, vx_k1 as int);
        }
    }
@loop 5
    invariant
        vx_n5 == CH, vx_i5 <= vx_n5, peaks@.len() == CH,
        forall|c: int| 0 <= c < vx_i5 ==> #[trigger] peaks@[c] == s_f64_of_f32(tmp_peaks@[c]),
    decreases vx_n5 - vx_i5
@post 5
    proof {
        assert forall|c: int| 0 <= c < CH implies tp_step(#[trigger] i0.h(c), p0[c], interpolator.h(c), peaks@[c], FA as int, xs32(gsrc, c, fr)) by {
            let p = s_f32_of_f64(p0[c]);
            assert(pk_ok(p0[c]));
            tp_peak_ok(i0.h(c), FA as int, p, xs32(gsrc, c, fr));
            fl_f32_rt(tp_peak(i0.h(c), FA as int, p, xs32(gsrc, c, fr)));
            assert(peaks@[c] == s_f64_of_f32(tmp_peaks@[c]));
        }
    }

@macrofn tp_generic_impl in UpsamplingScanner::check_true_peak(interpolators)
@props C03 C09 C17 C20
@sig
    fn vx_tp_generic_impl<'a, const A: usize, const FA: usize, T: Sample + 'a, S: Samples<'a, T>>(src: S, interpolators: &mut Box<[InterpF<A, FA, [f32; 1]>]>, peaks: &mut [f64])
@spec
    requires forall|c: int| 0 <= c < old(interpolators)@.len() ==> (#[trigger] old(interpolators)@[c]).wf(),
        src.s_wf(), src.s_channels() == old(interpolators)@.len(), old(peaks)@.len() == old(interpolators)@.len(),
        forall|c: int| 0 <= c < old(peaks)@.len() ==> pk_ok(#[trigger] old(peaks)@[c]),
    ensures final(interpolators)@.len() == old(interpolators)@.len(), final(peaks)@.len() == old(peaks)@.len(),
        forall|c: int| 0 <= c < old(interpolators)@.len() ==> (#[trigger] final(interpolators)@[c]).wf(),
        forall|c: int| 0 <= c < old(interpolators)@.len() ==> tp_step((#[trigger] old(interpolators)@[c]).h(0), old(peaks)@[c], final(interpolators)@[c].h(0), final(peaks)@[c], FA as int, xs32(src, c, src.s_frames())), //# C03 C09 C17 C20
@entry
    proof { src.facts(); }
    let ghost i0 = interpolators@;
    let ghost p0 = peaks@;
    let ghost fr = src.s_frames();
@loop 0
    invariant
        vx_n0 == i0.len(), vx_i0 <= vx_n0, interpolators@.len() == i0.len(), peaks@.len() == i0.len(),
        forall|c: int| 0 <= c < i0.len() ==> (#[trigger] interpolators@[c]).wf(),
        forall|c: int| 0 <= c < vx_i0 ==> tp_step((#[trigger] i0[c]).h(0), p0[c], interpolators@[c].h(0), peaks@[c], FA as int, xs32(src, c, fr)),
        forall|c: int| vx_i0 <= c < i0.len() ==> #[trigger] interpolators@[c] == i0[c],
        forall|c: int| vx_i0 <= c < i0.len() ==> #[trigger] peaks@[c] == p0[c],
    decreases vx_n0 - vx_i0
@top 0
    let ghost ch = vx_k0 as int;
    let ghost p = s_f32_of_f64(p0[ch]);
    let ghost i1 = interpolators@;
    let ghost p1 = peaks@;
    proof { assert(xs32(src, ch, 0) =~= Seq::empty()); assert(pk_ok(p0[ch])); assert(peaks@[ch] == p0[ch]); assert(interpolators@[ch] == i0[ch]); }
@loop 1
    invariant
        vx_n1 == fr, vx_i1 <= vx_n1, interpolators@.len() == i0.len(), peaks@.len() == i0.len(),
        forall|c: int| 0 <= c < i0.len() && c != ch ==> #[trigger] interpolators@[c] == i1[c],
        forall|c: int| 0 <= c < i0.len() && c != ch ==> #[trigger] peaks@[c] == p1[c],
        interpolators@[ch].wf(), interpolators@[ch].h(0) == tp_hist(i0[ch].h(0), xs32(src, ch, vx_i1 as int)),
        peaks@[ch] == s_f64_of_f32(tp_peak(i0[ch].h(0), FA as int, p, xs32(src, ch, vx_i1 as int))),
    decreases vx_n1 - vx_i1
@top 1
    proof { xs32_next(src, ch, vx_k1 as int); }
    let ghost pk = tp_peak(i0[ch].h(0), FA as int, p, xs32(src, ch, vx_k1 as int));
@loop 2
    invariant
        vx_n2 == FA, vx_i2 <= vx_n2, peaks@.len() == i0.len(),
        forall|c: int| 0 <= c < i0.len() && c != ch ==> #[trigger] peaks@[c] == p1[c],
        peaks@[ch] == s_f64_of_f32(tp_max(interpolators@[ch].h(0), FA as int, pk, vx_i2 as int)),
    decreases vx_n2 - vx_i2
@top 2
    proof {
        assert(vx_src1@[vx_k2 as int].fr()[0] == tp_out(interpolators@[ch].h(0), FA as int, vx_k2 as int, A as int));
        fl_f32_gt(s_abs32(vx_src1@[vx_k2 as int]@[0]), tp_max(interpolators@[ch].h(0), FA as int, pk, vx_k2 as int));
    }
@bot 0
    proof {
        tp_peak_ok(i0[ch].h(0), FA as int, p, xs32(src, ch, fr));
        fl_f32_rt(tp_peak(i0[ch].h(0), FA as int, p, xs32(src, ch, fr)));
    }

@fn UpsamplingScanner::new(rate, channels) -> r
@props C09
@spec
    ensures
        r is None <==> tp_factor(rate as int) == 0, //# C09
        r is Some ==> r->Some_0.wf() && r->Some_0.chs() == channels && r->Some_0.fac() == tp_factor(rate as int), //# C09
        r is Some ==> forall|c: int| 0 <= c < channels ==> #[trigger] r->Some_0.h(c) =~= h_zero(tp_factor(rate as int)), //# C09 C15
@fn UpsamplingScanner::check_true_peak(src, peaks)
@props C03 C09 C17 C20
@spec
    requires old(self).wf(), src.s_wf(), src.s_channels() == old(self).chs(), old(peaks)@.len() == old(self).chs(),
        forall|c: int| 0 <= c < old(self).chs() ==> pk_ok(#[trigger] old(peaks)@[c]),
    ensures final(self).wf(), final(self).chs() == old(self).chs(), final(self).fac() == old(self).fac(), final(peaks)@.len() == old(peaks)@.len(),
        forall|c: int| 0 <= c < old(self).chs() ==> tp_step(#[trigger] old(self).h(c), old(peaks)@[c], final(self).h(c), final(peaks)@[c], old(self).fac(), xs32(src, c, src.s_frames())), //# C03 C09 C17 C20
@fn UpsamplingScanner::reset()
@props C09 C15
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).chs() == old(self).chs(), final(self).fac() == old(self).fac(),
        forall|c: int| 0 <= c < old(self).chs() ==> #[trigger] final(self).h(c) =~= h_zero(old(self).fac()), //# C09 C15
@loop 0
    invariant
        vx_n0 == interpolators@.len(), vx_i0 <= vx_n0, interpolators@.len() == old(self).chs(),
        forall|c: int| 0 <= c < interpolators@.len() ==> (#[trigger] interpolators@[c]).wf(),
        forall|c: int, t: int| 0 <= c < vx_i0 && 0 <= t < 24 ==> #[trigger] interpolators@[c].h(0)[t] == 0.0f32,
    decreases vx_n0 - vx_i0
@loop 1
    invariant
        vx_n1 == interpolators@.len(), vx_i1 <= vx_n1, interpolators@.len() == old(self).chs(),
        forall|c: int| 0 <= c < interpolators@.len() ==> (#[trigger] interpolators@[c]).wf(),
        forall|c: int, t: int| 0 <= c < vx_i1 && 0 <= t < 12 ==> #[trigger] interpolators@[c].h(0)[t] == 0.0f32,
    decreases vx_n1 - vx_i1
@fn TruePeak::new(rate, channels) -> r
@props C09
@spec
    ensures
        r is None <==> tp_factor(rate as int) == 0, //# C09
        r is Some ==> r->Some_0.wf() && r->Some_0.chs() == channels && r->Some_0.fac() == tp_factor(rate as int), //# C09
        r is Some ==> forall|c: int| 0 <= c < channels ==> #[trigger] r->Some_0.h(c) =~= h_zero(tp_factor(rate as int)), //# C09 C15
@fn TruePeak::reset()
@props C09 C15
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).chs() == old(self).chs(), final(self).fac() == old(self).fac(),
        forall|c: int| 0 <= c < old(self).chs() ==> #[trigger] final(self).h(c) =~= h_zero(old(self).fac()), //# C09 C15
@fn TruePeak::check_true_peak(src, peaks)
@props C03 C09 C17 C20
@spec
    requires old(self).wf(), src.s_wf(), src.s_channels() == old(self).chs(), old(peaks)@.len() == old(self).chs(),
        forall|c: int| 0 <= c < old(self).chs() ==> pk_ok(#[trigger] old(peaks)@[c]),
    ensures final(self).wf(), final(self).chs() == old(self).chs(), final(self).fac() == old(self).fac(), final(peaks)@.len() == old(peaks)@.len(),
        forall|c: int| 0 <= c < old(self).chs() ==> tp_step(#[trigger] old(self).h(c), old(peaks)@[c], final(self).h(c), final(peaks)@[c], old(self).fac(), xs32(src, c, src.s_frames())), //# C03 C09 C17 C20
@fn TruePeak::seed(src)
@props C09 C20
@entry
    proof { src.facts(); fl_f32_zero(); }
@spec
    requires old(self).wf(), src.s_wf(), src.s_channels() == old(self).chs(),
    ensures final(self).wf(), final(self).chs() == old(self).chs(), final(self).fac() == old(self).fac(),
        forall|c: int| 0 <= c < old(self).chs() ==> #[trigger] final(self).h(c) == tp_hist(old(self).h(c), xs32(src, c, src.s_frames())), //# C09 C17 C20
