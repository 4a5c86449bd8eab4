@module filter filter.rs
@raw
use crate::fl::*;
use crate::pre::*;
use crate::utils::*;
use crate::ebur128::Channel;
use crate::interp::*;
use crate::true_peak::*;
broadcast use crate::fl::fl;
@item Filter

@raw
// ------------------------------------------------------------------ specification
/// position of frame i of channel c in a buffer holding the channels one after the other
pub closed spec fn ix(c: int, stride: int, i: int) -> int { c * stride + i }
pub proof fn ix_bound(c: int, stride: int, i: int, ch: int)
    requires 0 <= c < ch, 0 <= i < stride,
    ensures 0 <= ix(c, stride, i) < ch * stride, ix(c, stride, i) == c * stride + i, 0 <= c * stride, c * stride + stride <= ch * stride,
{
    assert(0 <= c * stride && c * stride + stride <= ch * stride) by (nonlinear_arith) requires 0 <= c < ch, 0 <= stride;
}
pub proof fn ix_eq(c: int, stride: int, i: int)
    ensures ix(c, stride, i) == c * stride + i,
{
}
pub proof fn ix_inj(c: int, i: int, d: int, j: int, stride: int)
    requires 0 <= i < stride, 0 <= j < stride, ix(c, stride, i) == ix(d, stride, j),
    ensures c == d, i == j,
{
    assert(c == d) by (nonlinear_arith) requires 0 <= i < stride, 0 <= j < stride, c * stride + i == d * stride + j;
}

/// The coefficients of the two-stage K-weighting filter at a sample rate.
pub open spec fn s_coefficients(rate: f64) -> (Seq<f64>, Seq<f64>) {
    let k1 = s_tan(fdiv(fmul(s_pi(), 1681.974450955533f64), rate));
    let q1 = 0.7071752369554196f64;
    let vh = s_powf(10.0f64, fdiv(3.999843853973347f64, 20.0f64));
    let vb = s_powf(vh, 0.4996667741545416f64);
    let a0 = fadd(fadd(1.0f64, fdiv(k1, q1)), fmul(k1, k1));
    let pb0 = fdiv(fadd(fadd(vh, fdiv(fmul(vb, k1), q1)), fmul(k1, k1)), a0);
    let pb1 = fdiv(fmul(2.0f64, fsub(fmul(k1, k1), vh)), a0);
    let pb2 = fdiv(fadd(fsub(vh, fdiv(fmul(vb, k1), q1)), fmul(k1, k1)), a0);
    let pa1 = fdiv(fmul(2.0f64, fsub(fmul(k1, k1), 1.0f64)), a0);
    let pa2 = fdiv(fadd(fsub(1.0f64, fdiv(k1, q1)), fmul(k1, k1)), a0);
    let k2 = s_tan(fdiv(fmul(s_pi(), 38.13547087602444f64), rate));
    let q2 = 0.5003270373238773f64;
    let d2 = fadd(fadd(1.0f64, fdiv(k2, q2)), fmul(k2, k2));
    let ra1 = fdiv(fmul(2.0f64, fsub(fmul(k2, k2), 1.0f64)), d2);
    let ra2 = fdiv(fadd(fsub(1.0f64, fdiv(k2, q2)), fmul(k2, k2)), d2);
    (
        conv3(pb0, pb1, pb2, 1.0f64, -2.0f64, 1.0f64),
        conv3(1.0f64, pa1, pa2, 1.0f64, ra1, ra2),
    )
}
/// product of two polynomials of degree two
pub open spec fn conv3(p0: f64, p1: f64, p2: f64, r0: f64, r1: f64, r2: f64) -> Seq<f64> {
    seq![
        fmul(p0, r0),
        fadd(fmul(p0, r1), fmul(p1, r0)),
        fadd(fadd(fmul(p0, r2), fmul(p1, r1)), fmul(p2, r0)),
        fadd(fmul(p1, r2), fmul(p2, r1)),
        fmul(p2, r2),
    ]
}
/// newest intermediate value of the filter for input x in state s
pub open spec fn filt_v(a: Seq<f64>, s: Seq<f64>, x: f64) -> f64 {
    fsub(fsub(fsub(fsub(x, fmul(a[1], s[1])), fmul(a[2], s[2])), fmul(a[3], s[3])), fmul(a[4], s[4]))
}
/// output for intermediate value v in state s
pub open spec fn filt_y(b: Seq<f64>, s: Seq<f64>, v: f64) -> f64 {
    fadd(fadd(fadd(fadd(fmul(b[0], v), fmul(b[1], s[1])), fmul(b[2], s[2])), fmul(b[3], s[3])), fmul(b[4], s[4]))
}
/// state of the filter after the samples xs
pub open spec fn filt_state(a: Seq<f64>, s: Seq<f64>, xs: Seq<f64>) -> Seq<f64>
    decreases xs.len(),
{
    if xs.len() == 0 { s } else {
        let t = filt_state(a, s, xs.drop_last());
        let v = filt_v(a, t, xs.last());
        seq![v, v, t[1], t[2], t[3]]
    }
}
/// output of the filter for the last of the samples xs
pub open spec fn filt_out(a: Seq<f64>, b: Seq<f64>, s: Seq<f64>, xs: Seq<f64>) -> f64 {
    let t = filt_state(a, s, xs.drop_last());
    filt_y(b, t, filt_v(a, t, xs.last()))
}
/// the first n samples of channel c, as the filter sees them
pub open spec fn xs64<'a, T: Sample + 'a, S: Samples<'a, T>>(src: S, c: int, n: int) -> Seq<f64> {
    Seq::new(n as nat, |i: int| src.smp(c, i).s_to64())
}
/// the first n samples of channel c, unscaled
pub open spec fn xsraw<'a, T: Sample + 'a, S: Samples<'a, T>>(src: S, c: int, n: int) -> Seq<f64> {
    Seq::new(n as nat, |i: int| src.smp(c, i).s_raw())
}
pub proof fn xs64_next<'a, T: Sample + 'a, S: Samples<'a, T>>(src: S, c: int, n: int)
    requires n >= 0,
    ensures xs64(src, c, n + 1).drop_last() == xs64(src, c, n), xs64(src, c, n + 1).last() == src.smp(c, n).s_to64(), xs64(src, c, n + 1).len() == n + 1,
{
    assert(xs64(src, c, n + 1).drop_last() =~= xs64(src, c, n));
}
pub proof fn xsraw_next<'a, T: Sample + 'a, S: Samples<'a, T>>(src: S, c: int, n: int)
    requires n >= 0,
    ensures xsraw(src, c, n + 1).drop_last() == xsraw(src, c, n), xsraw(src, c, n + 1).last() == src.smp(c, n).s_raw(), xsraw(src, c, n + 1).len() == n + 1,
{
    assert(xsraw(src, c, n + 1).drop_last() =~= xsraw(src, c, n));
}
/// largest absolute value, from 0 on
pub open spec fn max_abs(q: Seq<f64>) -> f64
    decreases q.len(),
{
    if q.len() == 0 { 0.0f64 } else {
        let m = max_abs(q.drop_last());
        if fgt(s_abs64(q.last()), m) { s_abs64(q.last()) } else { m }
    }
}
/// sample peak after a call with the samples q of full scale amp
pub open spec fn peak_step(p: f64, amp: f64, q: Seq<f64>) -> f64 {
    let m = fdiv(max_abs(q), amp);
    if fgt(m, p) { m } else { p }
}
impl Filter {
    pub open spec fn wf(&self) -> bool {
        &&& self.channels > 0
        &&& self.filter_state@.len() == self.channels && self.sample_peak@.len() == self.channels && self.true_peak@.len() == self.channels
        &&& self.tp is Some ==> self.tp->Some_0.wf() && self.tp->Some_0.chs() == self.channels
        &&& forall|c: int| 0 <= c < self.channels ==> pk_ok(#[trigger] self.true_peak@[c])
    }
    /// everything that stays as it is
    pub open spec fn same_setup(&self, o: &Filter) -> bool {
        &&& self.channels == o.channels && self.a == o.a && self.b == o.b && self.calculate_sample_peak == o.calculate_sample_peak
        &&& (self.tp is Some) == (o.tp is Some)
        &&& self.tp is Some ==> self.tp->Some_0.fac() == o.tp->Some_0.fac()
    }
}
/// what process does, as one predicate
#[verifier::opaque]
pub open spec fn processed<'a, T: Sample + 'a, S: Samples<'a, T>>(f0: &Filter, f1: &Filter, d0: Seq<f64>, d1: Seq<f64>, dest_index: int, map: Seq<Channel>, src: S) -> bool {
    let st = d0.len() as int / (f0.channels as int);
    &&& src.s_wf() && src.s_channels() == f0.channels
    &&& d1.len() == d0.len()
    &&& forall|c: int| 0 <= c < f0.channels ==> (#[trigger] f1.filter_state@[c])@ == if map[c] == Channel::Unused { f0.filter_state@[c]@ } else { filt_state(f0.a@, f0.filter_state@[c]@, xs64(src, c, src.s_frames())) }
    &&& forall|c: int, i: int| 0 <= c < f0.channels && 0 <= i < st ==>
            #[trigger] d1[ix(c, st, i)] == if map[c] != Channel::Unused && dest_index <= i < dest_index + src.s_frames() {
                filt_out(f0.a@, f0.b@, f0.filter_state@[c]@, xs64(src, c, i - dest_index + 1))
            } else { d0[ix(c, st, i)] }
    &&& forall|c: int| 0 <= c < f0.channels ==> #[trigger] f1.sample_peak@[c] == if f0.calculate_sample_peak { peak_step(f0.sample_peak@[c], T::s_amp(), xsraw(src, c, src.s_frames())) } else { f0.sample_peak@[c] }
    &&& f0.tp is Some ==> forall|c: int| 0 <= c < f0.channels ==> tp_step(#[trigger] f0.tp->Some_0.h(c), f0.true_peak@[c], f1.tp->Some_0.h(c), f1.true_peak@[c], f0.tp->Some_0.fac(), xs32(src, c, src.s_frames()))
    &&& f0.tp is None ==> f1.true_peak@ == f0.true_peak@
}
/// squares summed from the left
pub open spec fn sum_sq(q: Seq<f64>) -> f64
    decreases q.len(),
{
    if q.len() == 0 { 0.0f64 } else { fadd(sum_sq(q.drop_last()), fmul(q.last(), q.last())) }
}
/// The last n frames of channel c in a ring of stride frames whose next write position is index (newest part first when
/// the range wraps).
pub open spec fn ring_window(data: Seq<f64>, stride: int, c: int, index: int, n: int) -> Seq<f64> {
    if index < n {
        Seq::new(n as nat, |i: int| data[ix(c, stride, if i < index { i } else { stride - n + i })])
    } else {
        Seq::new(n as nat, |i: int| data[ix(c, stride, index - n + i)])
    }
}
/// weight of a channel position
pub open spec fn weighted(ch: Channel, s: f64) -> f64 {
    match ch {
        Channel::LeftSurround | Channel::RightSurround | Channel::Mp060 | Channel::Mm060 | Channel::Mp090 | Channel::Mm090 => fmul(s, 1.41f64),
        Channel::DualMono => fmul(s, 2.0f64),
        _ => s,
    }
}
/// weighted energy of the first k channels
pub open spec fn gate_sum(data: Seq<f64>, stride: int, map: Seq<Channel>, index: int, n: int, k: int) -> f64
    decreases k,
{
    if k <= 0 { 0.0f64 } else {
        let p = gate_sum(data, stride, map, index, n, k - 1);
        if map[k - 1] == Channel::Unused { p } else { fadd(p, weighted(map[k - 1], sum_sq(ring_window(data, stride, k - 1, index, n)))) }
    }
}

@fn filter_coefficients(rate) -> r
@props C07
@spec
    ensures r.0@ =~= s_coefficients(rate).0, r.1@ =~= s_coefficients(rate).1, //# C07

@fn Filter::new(rate, channels, calculate_sample_peak, calculate_true_peak) -> r
@props C02 C07 C08 C09 C15
@spec
    requires rate > 0, channels > 0,
    ensures r.wf(), r.channels == channels,
        r.b@ =~= s_coefficients(s_f64_of_int(rate as int)).0, r.a@ =~= s_coefficients(s_f64_of_int(rate as int)).1, //# C07 C15
        r.calculate_sample_peak == calculate_sample_peak, //# C08
        r.tp is Some <==> calculate_true_peak && tp_factor(rate as int) != 0, //# C09
        r.tp is Some ==> r.tp->Some_0.fac() == tp_factor(rate as int), //# C09
        r.tp is Some ==> forall|c: int| 0 <= c < channels ==> #[trigger] r.tp->Some_0.h(c) == h_zero(tp_factor(rate as int)), //# C09 C15
        forall|c: int| 0 <= c < channels ==> (#[trigger] r.filter_state@[c])@ =~= Seq::new(5, |i: int| 0.0f64), //# C07 C15
        forall|c: int| 0 <= c < channels ==> #[trigger] r.sample_peak@[c] == 0.0f64, //# C08 C15
        forall|c: int| 0 <= c < channels ==> #[trigger] r.true_peak@[c] == 0.0f64, //# C09 C15
@entry
    proof { fl_f32_zero(); }

@fn Filter::reset_peaks()
@props C03 C08 C09
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_setup(old(self)), final(self).filter_state == old(self).filter_state, final(self).tp == old(self).tp, //# C03 C07 C09
        forall|c: int| 0 <= c < old(self).channels ==> #[trigger] final(self).sample_peak@[c] == 0.0f64, //# C08
        forall|c: int| 0 <= c < old(self).channels ==> #[trigger] final(self).true_peak@[c] == 0.0f64, //# C09
@entry
    proof { fl_f32_zero(); }

@fn Filter::reset()
@props C15
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_setup(old(self)), //# C15
        forall|c: int| 0 <= c < old(self).channels ==> #[trigger] final(self).sample_peak@[c] == 0.0f64, //# C08 C15
        forall|c: int| 0 <= c < old(self).channels ==> #[trigger] final(self).true_peak@[c] == 0.0f64, //# C09 C15
        forall|c: int| 0 <= c < old(self).channels ==> (#[trigger] final(self).filter_state@[c])@ =~= Seq::new(5, |i: int| 0.0f64), //# C07 C15
        final(self).tp is Some ==> forall|c: int| 0 <= c < old(self).channels ==> #[trigger] final(self).tp->Some_0.h(c) == h_zero(old(self).tp->Some_0.fac()), //# C09 C15
@loop 0
    invariant
        vx_n0 == self.channels, vx_i0 <= vx_n0, self.wf(), self.same_setup(old(self)), self.tp == old(self).tp,
        forall|c: int| 0 <= c < self.channels ==> #[trigger] self.sample_peak@[c] == 0.0f64,
        forall|c: int| 0 <= c < self.channels ==> #[trigger] self.true_peak@[c] == 0.0f64,
        forall|c: int| 0 <= c < vx_i0 ==> (#[trigger] self.filter_state@[c])@ =~= Seq::new(5, |i: int| 0.0f64),
    decreases vx_n0 - vx_i0

@fn Filter::sample_peak() -> r
@props C08
@spec
    ensures r@ == self.sample_peak@, //# C08
@fn Filter::true_peak() -> r
@props C09
@spec
    ensures r@ == self.true_peak@, //# C09

@fn Filter::process(src, dest, dest_index, channel_map)
@props C02 C03 C07 C17 C20
@spec
    requires old(self).wf(), src.s_wf(), src.s_channels() == old(self).channels, channel_map@.len() == old(self).channels,
        old(dest)@.len() % (old(self).channels as nat) == 0, old(dest)@.len() > 0,
        dest_index + src.s_frames() <= old(dest)@.len() / (old(self).channels as nat),
    ensures final(self).wf(), final(self).same_setup(old(self)), final(dest)@.len() == old(dest)@.len(), //# C07
        // the filter
        forall|c: int| 0 <= c < old(self).channels ==> (#[trigger] final(self).filter_state@[c])@ == if channel_map@[c] == Channel::Unused { old(self).filter_state@[c]@ } else { filt_state(old(self).a@, old(self).filter_state@[c]@, xs64(src, c, src.s_frames())) }, //# C03 C07 C17 C20
        forall|c: int, i: int| 0 <= c < old(self).channels && 0 <= i < old(dest)@.len() / (old(self).channels as nat) ==>
            #[trigger] final(dest)@[ix(c, old(dest)@.len() as int / (old(self).channels as int), i)] == if channel_map@[c] != Channel::Unused && dest_index <= i < dest_index + src.s_frames() {
                filt_out(old(self).a@, old(self).b@, old(self).filter_state@[c]@, xs64(src, c, i - dest_index + 1))
            } else { old(dest)@[ix(c, old(dest)@.len() as int / (old(self).channels as int), i)] }, //# C03 C07 C17 C20
        // the peaks
        forall|c: int| 0 <= c < old(self).channels ==> #[trigger] final(self).sample_peak@[c] == if old(self).calculate_sample_peak { peak_step(old(self).sample_peak@[c], T::s_amp(), xsraw(src, c, src.s_frames())) } else { old(self).sample_peak@[c] }, //# C03 C08 C17
        old(self).tp is Some ==> forall|c: int| 0 <= c < old(self).channels ==> tp_step(#[trigger] old(self).tp->Some_0.h(c), old(self).true_peak@[c], final(self).tp->Some_0.h(c), final(self).true_peak@[c], old(self).tp->Some_0.fac(), xs32(src, c, src.s_frames())), //# C03 C09 C17 C20
        old(self).tp is None ==> final(self).true_peak@ == old(self).true_peak@, //# C09
        processed(old(self), final(self), old(dest)@, final(dest)@, dest_index as int, channel_map@, src),
@entry
    proof { src.facts(); }
    let ghost s0 = *self;
    let ghost d0 = dest@;
    let ghost gsrc = src;
    let ghost fr = src.s_frames();
    let ghost chs = self.channels as int;
    let ghost st = dest@.len() as int / chs;
    proof {
        assert(dest@.len() == chs * st && st > 0) by (nonlinear_arith) requires dest@.len() as int % chs == 0, dest@.len() > 0, chs > 0, st == dest@.len() as int / chs;
        assert(dest@.len() as int / st == chs) by (nonlinear_arith) requires dest@.len() == chs * st, st > 0, chs > 0;
    }
@loop 0
    invariant
        vx_n0 == chs, vx_i0 <= vx_n0, src == gsrc, self.wf(), self.same_setup(&s0), self.tp == s0.tp, self.true_peak == s0.true_peak, self.filter_state == s0.filter_state,
        forall|c: int| 0 <= c < vx_i0 ==> #[trigger] self.sample_peak@[c] == peak_step(s0.sample_peak@[c], T::s_amp(), xsraw(gsrc, c, fr)), //# C03 C08 C17
        forall|c: int| vx_i0 <= c < chs ==> #[trigger] self.sample_peak@[c] == s0.sample_peak@[c], //# C03 C08 C17
    decreases vx_n0 - vx_i0
@loop 1
    invariant
        vx_n1 == fr, vx_i1 <= vx_n1,
        $m1.0 == max_abs(xsraw(gsrc, vx_k0 as int, vx_i1 as int)), //# C03 C08 C17
    decreases vx_n1 - vx_i1
@top 1
    proof { xsraw_next(gsrc, vx_k0 as int, vx_k1 as int); }
@loop 2
    invariant
        vx_n2 == chs, vx_i2 <= vx_n2, src == gsrc, self.wf(), self.same_setup(&s0), self.tp == s0.tp, self.true_peak == s0.true_peak, dest@.len() == d0.len(),
        forall|c: int| 0 <= c < chs ==> #[trigger] self.sample_peak@[c] == if s0.calculate_sample_peak { peak_step(s0.sample_peak@[c], T::s_amp(), xsraw(gsrc, c, fr)) } else { s0.sample_peak@[c] }, //# C03 C08 C17
        forall|c: int| 0 <= c < vx_i2 ==> (#[trigger] self.filter_state@[c])@ == if channel_map@[c] == Channel::Unused { s0.filter_state@[c]@ } else { filt_state(s0.a@, s0.filter_state@[c]@, xs64(gsrc, c, fr)) },
        forall|c: int| vx_i2 <= c < chs ==> #[trigger] self.filter_state@[c] == s0.filter_state@[c],
        forall|c: int, i: int| 0 <= c < chs && 0 <= i < st ==> #[trigger] dest@[ix(c, st, i)] == if c < vx_i2 && channel_map@[c] != Channel::Unused && dest_index <= i < dest_index + fr {
                filt_out(s0.a@, s0.b@, s0.filter_state@[c]@, xs64(gsrc, c, i - dest_index + 1))
            } else { d0[ix(c, st, i)] },
    decreases vx_n2 - vx_i2
@pre 3
    let ghost ch = vx_k2 as int;
    let ghost s1 = *self;
    let ghost d1 = dest@;
    proof { assert(xs64(gsrc, ch, 0) =~= Seq::empty()); assert(self.filter_state@[ch] == s0.filter_state@[ch]); }
@loop 3
    invariant
        vx_in_ftz, //# C19
        vx_n3 == fr, vx_i3 <= vx_n3, self.wf(), self.same_setup(&s0),
        self.tp == s0.tp, self.true_peak == s0.true_peak, //# C09
        self.sample_peak == s1.sample_peak, //# C08
        dest@.len() == d0.len(),
        forall|c: int| 0 <= c < chs && c != ch ==> #[trigger] self.filter_state@[c] == s1.filter_state@[c],
        self.filter_state@[ch]@ =~= filt_state(s0.a@, s0.filter_state@[ch]@, xs64(gsrc, ch, vx_i3 as int)),
        forall|c: int, i: int| 0 <= c < chs && 0 <= i < st ==> #[trigger] dest@[ix(c, st, i)] == if c == ch && dest_index <= i < dest_index + vx_i3 {
                filt_out(s0.a@, s0.b@, s0.filter_state@[c]@, xs64(gsrc, c, i - dest_index + 1))
            } else { d1[ix(c, st, i)] },
    decreases vx_n3 - vx_i3
@top 3
    let ghost d2 = dest@;
    proof {
        xs64_next(gsrc, ch, vx_k3 as int);
        ix_bound(ch, st, dest_index + vx_k3, chs);
    }
@bot 3
    proof {
        assert forall|c: int, i: int| 0 <= c < chs && 0 <= i < st implies #[trigger] dest@[ix(c, st, i)] == (if c == ch && dest_index <= i < dest_index + vx_i3 {
                filt_out(s0.a@, s0.b@, s0.filter_state@[c]@, xs64(gsrc, c, i - dest_index + 1))
            } else { d1[ix(c, st, i)] }) by {
            ix_bound(c, st, i, chs);
            if ix(c, st, i) == ix(ch, st, dest_index + vx_k3) {
                ix_inj(c, i, ch, dest_index + vx_k3, st);
            } else {
                assert(dest@[ix(c, st, i)] == d2[ix(c, st, i)]);
            }
        }
    }
@exit
    proof {
        reveal(processed);
        if s0.tp is Some {
            assert forall|c: int| 0 <= c < chs implies pk_ok(#[trigger] self.true_peak@[c]) by { let h = s0.tp->Some_0.h(c); }
        }
    }
@loop 4
    invariant false,
    decreases vx_n4 - vx_i4

@fn Filter::seed(src, channel_map)
@props C02 C07 C17 C20
@spec
    requires old(self).wf(), src.s_wf(), src.s_channels() == old(self).channels, channel_map@.len() == old(self).channels,
    ensures final(self).wf(), final(self).same_setup(old(self)), final(self).sample_peak@ == old(self).sample_peak@, final(self).true_peak@ == old(self).true_peak@, //# C08 C09 C20
        forall|c: int| 0 <= c < old(self).channels ==> (#[trigger] final(self).filter_state@[c])@ == if channel_map@[c] == Channel::Unused { old(self).filter_state@[c]@ } else { filt_state(old(self).a@, old(self).filter_state@[c]@, xs64(src, c, src.s_frames())) }, //# C17 C20
        old(self).tp is Some ==> forall|c: int| 0 <= c < old(self).channels ==> #[trigger] final(self).tp->Some_0.h(c) == tp_hist(old(self).tp->Some_0.h(c), xs32(src, c, src.s_frames())), //# C17 C20
@entry
    proof { src.facts(); }
    let ghost s0 = *self;
    let ghost gsrc = src;
    let ghost fr = src.s_frames();
    let ghost chs = self.channels as int;
@loop 0
    invariant
        vx_n0 == chs, vx_i0 <= vx_n0, src == gsrc, self.wf(), self.same_setup(&s0), self.tp == s0.tp, self.true_peak == s0.true_peak, self.sample_peak == s0.sample_peak,
        forall|c: int| 0 <= c < vx_i0 ==> (#[trigger] self.filter_state@[c])@ == if channel_map@[c] == Channel::Unused { s0.filter_state@[c]@ } else { filt_state(s0.a@, s0.filter_state@[c]@, xs64(gsrc, c, fr)) },
        forall|c: int| vx_i0 <= c < chs ==> #[trigger] self.filter_state@[c] == s0.filter_state@[c],
    decreases vx_n0 - vx_i0
@pre 1
    let ghost ch = vx_k0 as int;
    let ghost s1 = *self;
    proof { assert(xs64(gsrc, ch, 0) =~= Seq::empty()); assert(self.filter_state@[ch] == s0.filter_state@[ch]); }
@loop 1
    invariant
        vx_in_ftz, //# C19
        vx_n1 == fr, vx_i1 <= vx_n1, self.wf(), self.same_setup(&s0), self.tp == s0.tp, self.true_peak == s0.true_peak, self.sample_peak == s0.sample_peak,
        forall|c: int| 0 <= c < chs && c != ch ==> #[trigger] self.filter_state@[c] == s1.filter_state@[c],
        self.filter_state@[ch]@ =~= filt_state(s0.a@, s0.filter_state@[ch]@, xs64(gsrc, ch, vx_i1 as int)),
    decreases vx_n1 - vx_i1
@top 1
    proof { xs64_next(gsrc, ch, vx_k1 as int); }
@loop 2
    invariant false,
    decreases vx_n2 - vx_i2

@fn Filter::calc_gating_block(frames_per_block, audio_data, audio_data_index, channel_map) -> r
@props C02 C05 C06
@spec
    requires channel_map@.len() > 0, audio_data@.len() > 0, audio_data@.len() % channel_map@.len() == 0,
        audio_data_index <= audio_data@.len() / channel_map@.len(), frames_per_block <= audio_data@.len() / channel_map@.len(),
    ensures r == fdiv(gate_sum(audio_data@, audio_data@.len() as int / channel_map@.len() as int, channel_map@, audio_data_index as int, frames_per_block as int, channel_map@.len() as int), s_f64_of_int(frames_per_block as int)), //# C05 C06
@entry
    let ghost chs = channel_map@.len() as int;
    let ghost st = audio_data@.len() as int / chs;
    let ghost ai = audio_data_index as int;
    let ghost n = frames_per_block as int;
    proof {
        assert(audio_data@.len() == chs * st && st > 0) by (nonlinear_arith) requires audio_data@.len() as int % chs == 0, audio_data@.len() > 0, chs > 0, st == audio_data@.len() as int / chs;
        assert(audio_data@.len() as int / st == chs) by (nonlinear_arith) requires audio_data@.len() == chs * st, st > 0, chs > 0;
    }
@loop 0
    invariant
        vx_n0 == chs, vx_i0 <= vx_n0, $m0.0 == gate_sum(audio_data@, st, channel_map@, ai, n, vx_i0 as int),
    decreases vx_n0 - vx_i0
@top 0
    let ghost w = ring_window(audio_data@, st, vx_k0 as int, ai, n);
    proof { ix_bound(vx_k0 as int, st, 0, chs); }
@loop 1
    invariant
        vx_i1 <= vx_n1, $m1.0 == sum_sq(w.subrange(0, vx_i1 as int)),
    decreases vx_n1 - vx_i1
@pre 1
    proof { assert(w.subrange(0, 0) =~= Seq::empty()); }
@top 1
    proof {
        ix_bound(vx_k0 as int, st, vx_k1 as int, chs);
        assert(w.subrange(0, vx_k1 + 1).drop_last() =~= w.subrange(0, vx_k1 as int));
        assert(w[vx_k1 as int] == audio_data@[ix(vx_k0 as int, st, vx_k1 as int)]);
    }
@loop 2
    invariant
        vx_i2 <= vx_n2, vx_n2 == n - ai, $m2.0 == sum_sq(w.subrange(0, ai + vx_i2)),
    decreases vx_n2 - vx_i2
@top 2
    proof {
        ix_bound(vx_k0 as int, st, st - n + ai + vx_k2, chs);
        assert(w.subrange(0, ai + vx_k2 + 1).drop_last() =~= w.subrange(0, ai + vx_k2));
        assert(w[ai + vx_k2] == audio_data@[ix(vx_k0 as int, st, st - n + ai + vx_k2)]);
    }
@post 2
    proof { assert(w.subrange(0, n) =~= w); }
@pre 3
    proof { assert(w.subrange(0, 0) =~= Seq::empty()); }
@loop 3
    invariant
        vx_i3 <= vx_n3, vx_n3 == n, $m3.0 == sum_sq(w.subrange(0, vx_i3 as int)),
    decreases vx_n3 - vx_i3
@top 3
    proof {
        ix_bound(vx_k0 as int, st, ai - n + vx_k3, chs);
        assert(w.subrange(0, vx_k3 + 1).drop_last() =~= w.subrange(0, vx_k3 as int));
        assert(w[vx_k3 as int] == audio_data@[ix(vx_k0 as int, st, ai - n + vx_k3)]);
    }
@post 3
    proof { assert(w.subrange(0, n) =~= w); }
