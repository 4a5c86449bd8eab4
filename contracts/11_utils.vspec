@module utils utils.rs
@raw
use crate::fl::*;
use crate::pre::*;
use crate::ebur128::Error;
broadcast use crate::fl::fl;
pub open spec fn s_loudness(e: f64) -> f64 { fsub(fmul(10.0f64, s_log10(e)), 0.691f64) }

@fn energy_to_loudness(energy) -> r
@props C06 C10 C11
@spec
    ensures r == s_loudness(energy), //# C06 C10 C11

@raw
// ------------------------------------------------------------------ samples
/// A sample format. s_raw is the value as a double, s_amp the value of full scale; s_to64 and s_to32 are the conversions
/// of dasp_sample (trusted, see DESIGN.md).
pub trait Sample: Sized + Copy + VxInit {
    spec fn s_raw(self) -> f64;
    spec fn s_amp() -> f64;
    spec fn s_to64(self) -> f64;
    spec fn s_to32(self) -> f32;
    proof fn amp()
        ensures amp_ok(Self::s_amp());
    fn vx_max_amplitude() -> (r: f64)
        ensures r == Self::s_amp();
    fn as_f64_raw(self) -> (r: f64)
        ensures r == self.s_raw();
    fn vx_to_f64_(self) -> (r: f64)
        ensures r == self.s_to64();
    fn vx_to_f32_(self) -> (r: f32)
        ensures r == self.s_to32();
}
pub fn vx_to_f64<T: Sample>(x: T) -> (r: f64) ensures r == x.s_to64() { x.vx_to_f64_() }
pub fn vx_to_f32<T: Sample>(x: T) -> (r: f32) ensures r == x.s_to32() { x.vx_to_f32_() }
pub uninterp spec fn dasp_i16_f64(x: i16) -> f64;
pub uninterp spec fn dasp_i16_f32(x: i16) -> f32;
pub uninterp spec fn dasp_i32_f64(x: i32) -> f64;
pub uninterp spec fn dasp_i32_f32(x: i32) -> f32;
// the conversions of dasp_sample, decided for all values by Kani (kani/)
pub axiom fn ax_i16(x: i16) ensures dasp_i16_f64(x) == fdiv(s_f64_of_int(x as int), 32768.0f64), dasp_i16_f32(x) == s_f32_of_f64(fdiv(s_f64_of_int(x as int), 32768.0f64));
pub axiom fn ax_i32(x: i32) ensures dasp_i32_f64(x) == fdiv(s_f64_of_int(x as int), 2147483648.0f64), dasp_i32_f32(x) == s_f32_of_f64(fdiv(s_f64_of_int(x as int), 2147483648.0f64));

pub open spec fn zip_len(a: int, b: int) -> nat { if a <= b { a as nat } else { b as nat } }
/// the closure was called with n frames of N samples each
pub open spec fn frames_logged<T, const N: usize>(l0: Seq<[T; N]>, l1: Seq<[T; N]>, n: int, smp: spec_fn(int, int) -> T) -> bool {
    &&& l1.len() == l0.len() + n
    &&& forall|i: int| 0 <= i < l0.len() ==> l1[i] == l0[i]
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] l1[l0.len() + i])@ =~= Seq::new(N as nat, |c: int| smp(c, i))
}
/// Frame::from_samples of dasp: the first N items
#[verifier::external_body]
pub fn vx_from_samples<T: Copy, const N: usize>(s: &[T], off: usize, len: usize) -> (r: Option<[T; N]>)
    requires off + len <= s@.len(),
    ensures r is Some <==> len >= N, r is Some ==> r->Some_0@ =~= s@.subrange(off as int, off + N),
{ unimplemented!() }
/// What a closure is called with, in order.
pub trait Rec<X> {
    spec fn log(&self) -> Seq<X>;
    fn call(&mut self, x: X)
        ensures final(self).log() == old(self).log().push(x);
}
pub trait Samples<'a, T: Sample + 'a>: Sized {
    spec fn s_wf(&self) -> bool;
    spec fn s_frames(&self) -> int;
    spec fn s_channels(&self) -> int;
    /// sample i of channel c
    spec fn smp(&self, c: int, i: int) -> T;
    proof fn facts(&self)
        requires self.s_wf(),
        ensures 0 <= self.s_frames() <= usize::MAX, 0 < self.s_channels() <= usize::MAX;
    fn foreach_sample<R: Rec<&'a T>>(&self, channel: usize, func: &mut R)
        requires self.s_wf(), channel < self.s_channels(),
        ensures final(func).log() =~= old(func).log() + Seq::new(self.s_frames() as nat, |i: int| &self.smp(channel as int, i));
    /// the k-th call gets sample k and item k of the iterator, which is taken as the Vec of its items
    fn foreach_sample_zipped<U: Copy, R: Rec<(&'a T, U)>>(&self, channel: usize, iter: Vec<U>, func: &mut R)
        requires self.s_wf(), channel < self.s_channels(),
        ensures final(func).log() =~= old(func).log() + Seq::new(zip_len(self.s_frames(), iter@.len() as int), |i: int| (&self.smp(channel as int, i), iter@[i]));
    fn foreach_frame<const N: usize, R: Rec<[T; N]>>(&self, func: &mut R)
        requires self.s_wf(), self.s_channels() == N,
        ensures frames_logged(old(func).log(), final(func).log(), self.s_frames(), |c: int, i: int| self.smp(c, i));
    fn frames(&self) -> (r: usize)
        requires self.s_wf(),
        ensures r == self.s_frames();
    fn channels(&self) -> (r: usize)
        requires self.s_wf(),
        ensures r == self.s_channels();
    fn split_at(self, sample: usize) -> (r: (Self, Self))
        requires self.s_wf(), sample <= self.s_frames(),
        ensures r.0.s_wf(), r.1.s_wf(), r.0.s_channels() == self.s_channels(), r.1.s_channels() == self.s_channels(),
            r.0.s_frames() == sample, r.1.s_frames() == self.s_frames() - sample,
            forall|c: int, i: int| 0 <= c < self.s_channels() && 0 <= i < sample ==> #[trigger] r.0.smp(c, i) == self.smp(c, i),
            forall|c: int, i: int| 0 <= c < self.s_channels() && 0 <= i < self.s_frames() - sample ==> #[trigger] r.1.smp(c, i) == self.smp(c, i + sample);
    /// the sample foreach_sample passes to its closure in its i-th call
    fn vx_sample(&self, c: usize, i: usize) -> (r: &'a T)
        requires self.s_wf(), c < self.s_channels(), i < self.s_frames(),
        ensures *r == self.smp(c as int, i as int);
    /// the frame foreach_frame passes to its closure in its i-th call
    fn vx_frame<const N: usize>(&self, i: usize) -> (r: [T; N])
        requires self.s_wf(), self.s_channels() == N, i < self.s_frames(),
        ensures r@ =~= Seq::new(N as nat, |c: int| self.smp(c, i as int)),
    {
        proof { self.facts(); }
        let mut r: [T; N] = [*self.vx_sample(0, i); N];
        let mut c: usize = 0;
        while c < N
            invariant
                c <= N, self.s_wf(), self.s_channels() == N, i < self.s_frames(),
                forall|k: int| 0 <= k < c ==> r@[k] == self.smp(k, i as int),
            decreases N - c
        {
            r[c] = *self.vx_sample(c, i);
            c = c + 1;
        }
        r
    }
}

@impl impl Sample for i16
@each let (a, b, c, d) = (0i16.s_raw(), i16::s_amp(), 0i16.s_to64(), 0i16.s_to32());
@raw
    open spec fn s_raw(self) -> f64 { s_f64_of_int(self as int) }
    open spec fn s_amp() -> f64 { s_neg(s_f64_of_int(-32768)) }
    open spec fn s_to64(self) -> f64 { dasp_i16_f64(self) }
    open spec fn s_to32(self) -> f32 { dasp_i16_f32(self) }
    proof fn amp() { fl_amp(); }
    #[verifier::external_body]
    fn vx_to_f64_(self) -> (r: f64) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_f32_(self) -> (r: f32) { unimplemented!() }
@fn i16.Sample::as_f64_raw() -> r
@props C08 C17
@fn i16.Sample::MAX_AMPLITUDE() -> r
@props C08 C17
@endimpl

@impl impl Sample for i32
@each let (a, b, c, d) = (0i32.s_raw(), i32::s_amp(), 0i32.s_to64(), 0i32.s_to32());
@raw
    open spec fn s_raw(self) -> f64 { s_f64_of_int(self as int) }
    open spec fn s_amp() -> f64 { s_neg(s_f64_of_int(-2147483648)) }
    open spec fn s_to64(self) -> f64 { dasp_i32_f64(self) }
    open spec fn s_to32(self) -> f32 { dasp_i32_f32(self) }
    proof fn amp() { fl_amp(); }
    #[verifier::external_body]
    fn vx_to_f64_(self) -> (r: f64) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_f32_(self) -> (r: f32) { unimplemented!() }
@fn i32.Sample::as_f64_raw() -> r
@props C08 C17
@fn i32.Sample::MAX_AMPLITUDE() -> r
@props C08 C17
@endimpl

@impl impl Sample for f32
@each let (a, b, c, d) = (0.0f32.s_raw(), f32::s_amp(), 0.0f32.s_to64(), 0.0f32.s_to32());
@raw
    open spec fn s_raw(self) -> f64 { s_f64_of_f32(self) }
    open spec fn s_amp() -> f64 { 1.0f64 }
    open spec fn s_to64(self) -> f64 { s_f64_of_f32(self) }
    open spec fn s_to32(self) -> f32 { self }
    proof fn amp() { fl_amp(); }
    #[verifier::external_body]
    fn vx_to_f64_(self) -> (r: f64) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_f32_(self) -> (r: f32) { unimplemented!() }
@fn f32.Sample::as_f64_raw() -> r
@props C08 C17
@fn f32.Sample::MAX_AMPLITUDE() -> r
@props C08 C17
@endimpl

@impl impl Sample for f64
@each let (a, b, c, d) = (0.0f64.s_raw(), f64::s_amp(), 0.0f64.s_to64(), 0.0f64.s_to32());
@raw
    open spec fn s_raw(self) -> f64 { self }
    open spec fn s_amp() -> f64 { 1.0f64 }
    open spec fn s_to64(self) -> f64 { self }
    open spec fn s_to32(self) -> f32 { s_f32_of_f64(self) }
    proof fn amp() { fl_amp(); }
    #[verifier::external_body]
    fn vx_to_f64_(self) -> (r: f64) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_f32_(self) -> (r: f32) { unimplemented!() }
@fn f64.Sample::as_f64_raw() -> r
@props C08 C17
@fn f64.Sample::MAX_AMPLITUDE() -> r
@props C08 C17
@endimpl

@item Interleaved
@item Planar

@raw
impl<'a, S> Interleaved<'a, S> {
    pub open spec fn ok(&self) -> bool { self.channels > 0 && self.data@.len() % (self.channels as nat) == 0 }
}
impl<'a, S> Planar<'a, S> {
    pub open spec fn ok(&self) -> bool {
        self.data@.len() > 0 && self.start <= self.end && forall|c: int| 0 <= c < self.data@.len() ==> self.end <= (#[trigger] self.data@[c])@.len()
    }
}

@fn Interleaved::new(data, channels) -> r
@props C02 C03 C04 C17
@spec
    ensures
        r is Ok <==> channels > 0 && data@.len() % (channels as nat) == 0, //# C04
        r is Err ==> r->Err_0 == Error::NoMem, //# C04
        r is Ok ==> r->Ok_0.ok() && r->Ok_0.data@ == data@ && r->Ok_0.channels == channels, //# C04

@fn Planar::new(data) -> r
@props C02 C03 C04 C17
@spec
    ensures
        r is Ok <==> data@.len() > 0 && forall|c: int| 0 <= c < data@.len() ==> (#[trigger] data@[c])@.len() == data@[0]@.len(), //# C04
        r is Err ==> r->Err_0 == Error::NoMem, //# C04
        r is Ok ==> r->Ok_0.ok() && r->Ok_0.data@ == data@ && r->Ok_0.start == 0 && r->Ok_0.end == data@[0]@.len(), //# C04
@loop 0
    invariant
        vx_n0 == data@.len(), vx_i0 <= vx_n0, data@.len() > 0,
        vx_acc0 == exists|c: int| 0 <= c < vx_i0 && (#[trigger] data@[c])@.len() != data@[0]@.len(),
    decreases vx_n0 - vx_i0

@impl impl<'a, S: Sample> Samples<'a, S> for Interleaved<'a, S>
@each let (a, b, c, d) = (self.s_wf(), self.s_frames(), self.s_channels(), self.smp(0, 0));
@raw
    open spec fn s_wf(&self) -> bool { self.ok() }
    open spec fn s_frames(&self) -> int { (self.data@.len() as int) / (self.channels as int) }
    open spec fn s_channels(&self) -> int { self.channels as int }
    open spec fn smp(&self, c: int, i: int) -> S { self.data@[i * self.channels + c] }
    proof fn facts(&self) {
        assert(self.data@.len() / (self.channels as nat) <= self.data@.len()) by (nonlinear_arith) requires self.channels > 0;
        vstd::slice::axiom_spec_len(self.data);
    }
    fn vx_sample(&self, c: usize, i: usize) -> (r: &'a S) {
        proof { vstd::slice::axiom_spec_len(self.data); il_index(self.data@.len() as int, self.channels as int, i as int, c as int); assert(i * self.channels >= 0) by (nonlinear_arith); }
        &self.data[i * self.channels + c]
    }
@fn Interleaved.Samples::foreach_sample(channel, func)
@props C02 C03 C04 C17
@sig
    fn foreach_sample<R: Rec<&'a S>>(&self, channel: usize, func: &mut R)
@loop 0
    invariant
        self.ok(), channel < self.channels, vx_n0 == self.s_frames(), vx_i0 <= vx_n0,
        func.log() == old(func).log() + Seq::new(vx_i0 as nat, |i: int| &self.smp(channel as int, i)),
    decreases vx_n0 - vx_i0
@top 0
    proof { il_index(self.data@.len() as int, self.channels as int, vx_k0 as int, channel as int); }
    let ghost vx_log = func.log();
@bot 0
    proof {
        assert(Seq::new(vx_i0 as nat, |i: int| &self.smp(channel as int, i)) =~= Seq::new(vx_k0 as nat, |i: int| &self.smp(channel as int, i)).push(&self.smp(channel as int, vx_k0 as int)));
        assert(func.log() =~= old(func).log() + Seq::new(vx_i0 as nat, |i: int| &self.smp(channel as int, i)));
    }
@fn Interleaved.Samples::foreach_sample_zipped(channel, iter, func)
@props C02 C03 C04 C17
@sig
    fn foreach_sample_zipped<U: Copy, R: Rec<(&'a S, U)>>(&self, channel: usize, iter: Vec<U>, func: &mut R)
@loop 0
    invariant
        self.ok(), channel < self.channels, vx_n0 == zip_len(self.s_frames(), iter@.len() as int), vx_i0 <= vx_n0,
        func.log() == old(func).log() + Seq::new(vx_i0 as nat, |i: int| (&self.smp(channel as int, i), iter@[i])),
    decreases vx_n0 - vx_i0
@top 0
    let ghost vx_log = func.log();
    proof { il_index(self.data@.len() as int, self.channels as int, vx_k0 as int, channel as int);  }
@bot 0
    proof {
        assert(Seq::new(vx_i0 as nat, |i: int| (&self.smp(channel as int, i), iter@[i])) =~= Seq::new(vx_k0 as nat, |i: int| (&self.smp(channel as int, i), iter@[i])).push((&self.smp(channel as int, vx_k0 as int), iter@[vx_k0 as int])));
        assert(func.log() =~= old(func).log() + Seq::new(vx_i0 as nat, |i: int| (&self.smp(channel as int, i), iter@[i])));
    }
@fn Interleaved.Samples::foreach_frame(func)
@props C02 C03 C04 C17
@sig
    fn foreach_frame<const N: usize, R: Rec<[S; N]>>(&self, func: &mut R)
@subst F :: vx_channels() =>> N
@loop 0
    invariant
        self.ok(), N == self.channels, vx_n0 == self.s_frames(), vx_i0 <= vx_n0,
        frames_logged(old(func).log(), func.log(), vx_i0 as int, |c: int, i: int| self.smp(c, i)),
    decreases vx_n0 - vx_i0
@top 0
    let ghost vx_log = func.log();
    proof { il_index(self.data@.len() as int, self.channels as int, vx_k0 as int, N as int - 1); il_index(self.data@.len() as int, self.channels as int, vx_k0 as int, 0); }
@bot 0
    proof {
        let n0 = old(func).log().len() as int;
        assert(func.log()[n0 + vx_k0]@ =~= Seq::new(N as nat, |c: int| self.smp(c, vx_k0 as int)));
        assert forall|i: int| 0 <= i < vx_i0 implies (#[trigger] func.log()[n0 + i])@ =~= Seq::new(N as nat, |c: int| self.smp(c, i)) by {
            assert(i == vx_k0 || func.log()[n0 + i] == vx_log[n0 + i]);
        }
        assert forall|i: int| 0 <= i < n0 implies func.log()[i] == old(func).log()[i] by {
            assert(func.log()[i] == vx_log[i]);
        }
    }
@fn Interleaved.Samples::frames() -> r
@props C02 C03 C04 C17
@fn Interleaved.Samples::channels() -> r
@props C02 C03 C04 C17
@fn Interleaved.Samples::split_at(sample) -> r
@props C02 C03 C04
@entry
    proof { self.facts(); vstd::slice::axiom_spec_len(self.data); il_split(self.data@.len() as int, self.channels as int, sample as int); }
@exit
    proof {
        let ch = self.channels as int;
        assert forall|c: int, i: int| 0 <= c < self.s_channels() && 0 <= i < sample implies #[trigger] vx_ret.0.smp(c, i) == self.smp(c, i) by {
            il_index(sample * ch, ch, i, c);
        }
        assert forall|c: int, i: int| 0 <= c < self.s_channels() && 0 <= i < self.s_frames() - sample implies #[trigger] vx_ret.1.smp(c, i) == self.smp(c, i + sample) by {
            il_index(self.data@.len() - sample * ch, ch, i, c);
            assert(i * ch + c + sample * ch == (i + sample) * ch + c) by (nonlinear_arith);
        }
    }
@endimpl

@raw
pub proof fn il_index(len: int, ch: int, i: int, c: int)
    requires 0 <= c < ch, 0 <= i < len / ch, len % ch == 0,
    ensures 0 <= i * ch + c < len, i * ch <= len,
{
    assert(len == ch * (len / ch)) by (nonlinear_arith) requires len % ch == 0, ch > 0;
    assert(i * ch + c < len && 0 <= i * ch) by (nonlinear_arith) requires 0 <= c < ch, 0 <= i < len / ch, len == ch * (len / ch);
}

@raw
pub proof fn il_split(len: int, ch: int, n: int)
    requires 0 < ch, 0 <= n <= len / ch, len % ch == 0,
    ensures 0 <= n * ch <= len, (n * ch) % ch == 0, (len - n * ch) % ch == 0, (n * ch) / ch == n, (len - n * ch) / ch == len / ch - n,
{
    assert(len == ch * (len / ch)) by (nonlinear_arith) requires len % ch == 0, ch > 0;
    let q = len / ch;
    assert(0 <= n * ch <= q * ch) by (nonlinear_arith) requires 0 <= n <= q, 0 < ch;
    assert(len - n * ch == (q - n) * ch) by (nonlinear_arith) requires len == ch * q;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n, ch);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(q - n, ch);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n, ch);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q - n, ch);
    assert(n * ch == ch * n) by (nonlinear_arith);
    assert((q - n) * ch == ch * (q - n)) by (nonlinear_arith);
}

@impl impl<'a, S: Sample> Samples<'a, S> for Planar<'a, S>
@each let (a, b, c, d) = (self.s_wf(), self.s_frames(), self.s_channels(), self.smp(0, 0));
@raw
    open spec fn s_wf(&self) -> bool { self.ok() }
    open spec fn s_frames(&self) -> int { self.end - self.start }
    open spec fn s_channels(&self) -> int { self.data@.len() as int }
    open spec fn smp(&self, c: int, i: int) -> S { self.data@[c]@[self.start + i] }
    proof fn facts(&self) { vstd::slice::axiom_spec_len(self.data); }
    fn vx_sample(&self, c: usize, i: usize) -> (r: &'a S) {
        assert(self.end <= self.data@[c as int]@.len());
        &self.data[c][self.start + i]
    }
@fn Planar.Samples::foreach_sample(channel, func)
@props C02 C03 C04 C17
@sig
    fn foreach_sample<R: Rec<&'a S>>(&self, channel: usize, func: &mut R)
@entry
    assert(self.end <= self.data@[channel as int]@.len());
@loop 0
    invariant
        self.ok(), channel < self.data@.len(), vx_n0 == self.end - self.start, vx_lo0 == self.start, vx_i0 <= vx_n0,
        self.end <= self.data@[channel as int]@.len(),
        func.log() == old(func).log() + Seq::new(vx_i0 as nat, |i: int| &self.smp(channel as int, i)),
    decreases vx_n0 - vx_i0
@bot 0
    proof {
        assert(Seq::new(vx_i0 as nat, |i: int| &self.smp(channel as int, i)) =~= Seq::new(vx_k0 as nat, |i: int| &self.smp(channel as int, i)).push(&self.smp(channel as int, vx_k0 as int)));
        assert(func.log() =~= old(func).log() + Seq::new(vx_i0 as nat, |i: int| &self.smp(channel as int, i)));
    }
@fn Planar.Samples::foreach_sample_zipped(channel, iter, func)
@props C02 C03 C04 C17
@sig
    fn foreach_sample_zipped<U: Copy, R: Rec<(&'a S, U)>>(&self, channel: usize, iter: Vec<U>, func: &mut R)
@entry
    assert(self.end <= self.data@[channel as int]@.len());
@loop 0
    invariant
        self.ok(), channel < self.data@.len(), vx_lo0 == self.start, self.end <= self.data@[channel as int]@.len(), vx_n0 == zip_len(self.s_frames(), iter@.len() as int), vx_i0 <= vx_n0,
        func.log() == old(func).log() + Seq::new(vx_i0 as nat, |i: int| (&self.smp(channel as int, i), iter@[i])),
    decreases vx_n0 - vx_i0
@bot 0
    proof {
        assert(Seq::new(vx_i0 as nat, |i: int| (&self.smp(channel as int, i), iter@[i])) =~= Seq::new(vx_k0 as nat, |i: int| (&self.smp(channel as int, i), iter@[i])).push((&self.smp(channel as int, vx_k0 as int), iter@[vx_k0 as int])));
        assert(func.log() =~= old(func).log() + Seq::new(vx_i0 as nat, |i: int| (&self.smp(channel as int, i), iter@[i])));
    }
@fn Planar.Samples::foreach_frame(func)
@props C02 C03 C04 C17
@sig
    fn foreach_frame<const N: usize, R: Rec<[S; N]>>(&self, func: &mut R)
@subst F :: vx_channels() =>> N
@loop 0
    invariant
        self.ok(), N == self.data@.len(), vx_lo0 == self.start, vx_n0 == self.s_frames(), vx_i0 <= vx_n0,
        frames_logged(old(func).log(), func.log(), vx_i0 as int, |c: int, i: int| self.smp(c, i)),
    decreases vx_n0 - vx_i0
@top 0
    let ghost vx_log = func.log();
@loop 1
    invariant
        vx_n1 == N, vx_i1 <= vx_n1, N == self.data@.len(), f < self.end, f == self.start + vx_k0, func.log() == vx_log,
        forall|c: int| 0 <= c < vx_i1 ==> #[trigger] vx_arr2@[c] == self.smp(c, vx_k0 as int),
    decreases vx_n1 - vx_i1
@top 1
    assert(self.end <= self.data@[vx_k1 as int]@.len());
@bot 0
    proof {
        let n0 = old(func).log().len() as int;
        assert(func.log()[n0 + vx_k0]@ =~= Seq::new(N as nat, |c: int| self.smp(c, vx_k0 as int)));
        assert forall|i: int| 0 <= i < vx_i0 implies (#[trigger] func.log()[n0 + i])@ =~= Seq::new(N as nat, |c: int| self.smp(c, i)) by {
            assert(i == vx_k0 || func.log()[n0 + i] == vx_log[n0 + i]);
        }
        assert forall|i: int| 0 <= i < n0 implies func.log()[i] == old(func).log()[i] by {
            assert(func.log()[i] == vx_log[i]);
        }
    }
@fn Planar.Samples::frames() -> r
@props C02 C03 C04 C17
@fn Planar.Samples::channels() -> r
@props C02 C03 C04 C17
@fn Planar.Samples::split_at(sample) -> r
@props C02 C03 C04
@endimpl

@raw
// ------------------------------------------------------------------ frames
/// A frame is an array of samples, one per channel.
pub trait FrameAccumulator: Sized + Copy {
    spec fn fr(&self) -> Seq<f32>;
    spec fn s_ch() -> nat;
    proof fn fr_len(&self)
        ensures self.fr().len() == Self::s_ch();
    fn vx_default() -> (r: Self)
        ensures r.fr() == Seq::new(Self::s_ch(), |i: int| 0.0f32);
    fn vx_channels() -> (r: usize)
        ensures r == Self::s_ch();
    fn scale_add(&mut self, other: &Self, coeff: f32)
        ensures final(self).fr() == Seq::new(Self::s_ch(), |i: int| mac32(old(self).fr()[i], other.fr()[i], coeff));
    fn retain_max_samples(&mut self, other: &Self)
        ensures final(self).fr() == Seq::new(Self::s_ch(), |i: int| if fgt32(other.fr()[i], old(self).fr()[i]) { other.fr()[i] } else { old(self).fr()[i] });
}
pub trait SampleAccumulator: Sized {
    spec fn s_scale_add(self, other: Self, coeff: f32) -> Self;
    fn scale_add(&mut self, other: Self, coeff: f32)
        ensures *final(self) == old(self).s_scale_add(other, coeff);
}
@impl impl SampleAccumulator for f32
@each let a = 0.0f32.s_scale_add(0.0f32, 0.0f32);
@raw
    open spec fn s_scale_add(self, other: f32, coeff: f32) -> f32 { mac32(self, other, coeff) }
@fn f32.SampleAccumulator::scale_add(other, coeff)
@props C09 C17
@entry
    proof { reveal(mac32); }
@endimpl
@impl impl<const C: usize> FrameAccumulator for [f32; C]
@each let (a, b) = (self.fr(), Self::s_ch());
@raw
    open spec fn fr(&self) -> Seq<f32> { self@ }
    open spec fn s_ch() -> nat { C as nat }
    proof fn fr_len(&self) {}
    fn vx_default() -> (r: [f32; C]) { let r = [0.0f32; C]; assert(r@ =~= Seq::new(C as nat, |i: int| 0.0f32)); r }
    fn vx_channels() -> (r: usize) { C }
@fn F.FrameAccumulator::scale_add(other, coeff)
@props C09 C17
@loop 0
    invariant
        vx_n0 == C, vx_i0 <= vx_n0,
        forall|i: int| 0 <= i < vx_i0 ==> #[trigger] self@[i] == mac32(old(self)@[i], other@[i], coeff),
        forall|i: int| vx_i0 <= i < C ==> #[trigger] self@[i] == old(self)@[i],
    decreases vx_n0 - vx_i0
@exit
    proof { assert(self@ =~= Seq::new(C as nat, |i: int| mac32(old(self)@[i], other@[i], coeff))); }
@fn F.FrameAccumulator::retain_max_samples(other)
@props C09 C17
@loop 0
    invariant
        vx_n0 == C, vx_i0 <= vx_n0,
        forall|i: int| 0 <= i < vx_i0 ==> #[trigger] self@[i] == (if fgt32(other@[i], old(self)@[i]) { other@[i] } else { old(self)@[i] }),
        forall|i: int| vx_i0 <= i < C ==> #[trigger] self@[i] == old(self)@[i],
    decreases vx_n0 - vx_i0
@exit
    proof { assert(self@ =~= Seq::new(C as nat, |i: int| if fgt32(other@[i], old(self)@[i]) { other@[i] } else { old(self)@[i] })); }
@endimpl

@# the code behind the feature `precision-true-peak`: a step of a sum of products, rounded once
@module precise utils.rs
@raw
use crate::fl::*;
use crate::pre::*;
broadcast use crate::fl::fl;
pub trait PreciseAccumulator: Sized {
    spec fn s_fused(self, other: Self, coeff: f32) -> Self;
    fn scale_add(&mut self, other: Self, coeff: f32)
        ensures *final(self) == old(self).s_fused(other, coeff);
}
@impl impl PreciseAccumulator for f32
@each let a = 0.0f32.s_fused(0.0f32, 0.0f32);
@raw
    open spec fn s_fused(self, other: f32, coeff: f32) -> f32 { ffma32(other, coeff, self) }
@fn f32.SampleAccumulator::scale_add(other, coeff)
@props C09 C17
@cfg precision-true-peak
@endimpl
