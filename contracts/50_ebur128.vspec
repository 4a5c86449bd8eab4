@module ebur128 ebur128.rs
@raw
use crate::fl::*;
use crate::pre::*;
use crate::utils::*;
use crate::filter::*;
use crate::history::*;
use crate::interp::*;
use crate::true_peak::*;
use crate::engine::*;
broadcast use crate::fl::fl;
@item Error
@item Channel
@modeflags
@item EbuR128
@item MAX_RATE
@item MAX_CHANNELS
@raw
// ------------------------------------------------------------------ modes
impl Mode {
    /// bitflags: the bits that are flags
    pub fn from_bits_truncate(bits: u8) -> (r: Mode)
        ensures r.bits == bits & 127u8,
    {
        let all = Mode::VX_ALL.bits;
        assert(all == 127u8) by { mode_all(); }
        Mode { bits: bits & all }
    }
    pub fn contains(&self, o: Mode) -> (r: bool)
        ensures r == has(*self, o.bits),
    {
        (self.bits & o.bits) == o.bits
    }
    pub fn intersects(&self, o: Mode) -> (r: bool)
        ensures r == ((self.bits & o.bits) != 0u8),
    {
        (self.bits & o.bits) != 0
    }
    pub fn bits(&self) -> (r: u8)
        ensures r == self.bits,
    {
        self.bits
    }
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.bits == 0u8),
    {
        self.bits == 0
    }
    /// `|` and `&` between modes
    pub fn union(self, o: Mode) -> (r: Mode)
        ensures r.bits == self.bits | o.bits,
    {
        Mode { bits: self.bits | o.bits }
    }
    pub fn intersection(self, o: Mode) -> (r: Mode)
        ensures r.bits == self.bits & o.bits,
    {
        Mode { bits: self.bits & o.bits }
    }
}
/// all the bits of a mode
pub open spec fn has(m: Mode, o: u8) -> bool { (m.bits & o) == o }
pub open spec fn has_m(m: Mode) -> bool { has(m, 1u8) }
pub open spec fn has_s(m: Mode) -> bool { has(m, 3u8) }
pub open spec fn has_i(m: Mode) -> bool { has(m, 5u8) }
pub open spec fn has_lra(m: Mode) -> bool { has(m, 11u8) }
pub open spec fn has_sp(m: Mode) -> bool { has(m, 17u8) }
pub open spec fn has_tp(m: Mode) -> bool { has(m, 49u8) }
pub open spec fn has_hist(m: Mode) -> bool { has(m, 64u8) }
/// the constants have the values of the C library, and include what they build on
pub proof fn mode_all()
    ensures Mode::VX_ALL.bits == 127u8,
{
    mode_values(Mode::M);
    assert(1u8 | 3u8 | 5u8 | 11u8 | 17u8 | 49u8 | 64u8 == 127u8) by (bit_vector);
}
pub proof fn mode_values(m: Mode)
    ensures Mode::M.bits == 1u8, Mode::S.bits == 3u8, Mode::I.bits == 5u8, Mode::LRA.bits == 11u8, Mode::SAMPLE_PEAK.bits == 17u8, Mode::TRUE_PEAK.bits == 49u8, Mode::HISTOGRAM.bits == 64u8,
        has_s(m) ==> has_m(m), has_i(m) ==> has_m(m), has_lra(m) ==> has_s(m), has_sp(m) ==> has_m(m), has_tp(m) ==> has_sp(m),
{
    let b = m.bits;
    assert((0b00000010u8 | 1u8) == 3u8) by (bit_vector);
    assert((0b00000100u8 | 1u8) == 5u8) by (bit_vector);
    assert((0b00001000u8 | 3u8) == 11u8) by (bit_vector);
    assert((0b00010000u8 | 1u8) == 17u8) by (bit_vector);
    assert((b & 3u8) == 3u8 ==> (b & 1u8) == 1u8) by (bit_vector);
    assert((b & 5u8) == 5u8 ==> (b & 1u8) == 1u8) by (bit_vector);
    assert((b & 11u8) == 11u8 ==> (b & 3u8) == 3u8) by (bit_vector);
    assert((b & 17u8) == 17u8 ==> (b & 1u8) == 1u8) by (bit_vector);
    assert((b & 49u8) == 49u8 ==> (b & 17u8) == 17u8) by (bit_vector);
}
// ------------------------------------------------------------------ state
pub open spec fn channels_ok(c: int) -> bool { 1 <= c <= 64 }
pub open spec fn rate_ok(r: int) -> bool { 16 <= r <= 2822400 }
/// smallest window and history of a mode
pub open spec fn least_ms(m: Mode) -> int { if has_s(m) { 3000 } else { 400 } }
pub open spec fn at_least(m: Mode, v: int) -> int { if v >= least_ms(m) { v } else { least_ms(m) } }
pub open spec fn s_default_map(n: int) -> Seq<Channel> {
    Seq::new(n as nat, |i: int|
        if n == 4 { if i == 0 { Channel::Left } else if i == 1 { Channel::Right } else if i == 2 { Channel::LeftSurround } else { Channel::RightSurround } }
        else if n == 5 { if i == 0 { Channel::Left } else if i == 1 { Channel::Right } else if i == 2 { Channel::Center } else if i == 3 { Channel::LeftSurround } else { Channel::RightSurround } }
        else { if i == 0 { Channel::Left } else if i == 1 { Channel::Right } else if i == 2 { Channel::Center } else if i == 4 { Channel::LeftSurround } else if i == 5 { Channel::RightSurround } else { Channel::Unused } })
}
pub open spec fn zeros64(n: int) -> Seq<f64> { Seq::new(n as nat, |i: int| 0.0f64) }
/// the interpolator of a mode and a rate, 0 for none
pub open spec fn s_fac(m: Mode, rate: int) -> int { if has_tp(m) { tp_factor(rate) } else { 0 } }
pub open spec fn s_cfg(m: Mode, rate: int, chs: int, window: int, map: Seq<Channel>) -> Cfg {
    Cfg {
        i: has_i(m), lra: has_lra(m), chs: chs, adf: s_adf(rate, window), s100: (rate + 5) / 10, map: map, fac: s_fac(m, rate),
        a: s_coefficients(s_f64_of_int(rate)).1, b: s_coefficients(s_f64_of_int(rate)).0,
    }
}
/// nothing fed yet; the histories as given
pub open spec fn fresh(g: Cfg, blk: HV, sh: HV) -> St {
    St {
        fs: Seq::new(g.chs as nat, |c: int| zeros64(5)),
        th: Seq::new((if g.fac == 0 { 0 } else { g.chs }) as nat, |c: int| h_zero(g.fac)),
        ring: Seq::new(g.chs as nat, |c: int| zeros64(g.adf)),
        idx: 0, need: g.s100 * 4, cnt: 0, blk: blk, sh: sh,
    }
}
/// state of the filters alone
pub open spec fn fstate(f: &crate::filter::Filter) -> Seq<Seq<f64>> { Seq::new(f.channels as nat, |c: int| f.filter_state@[c]@) }
pub open spec fn tstate(f: &crate::filter::Filter) -> Seq<Seq<f32>> { Seq::new((if f.tp is Some { f.channels as int } else { 0 }) as nat, |c: int| f.tp->Some_0.h(c)) }

impl EbuR128 {
    pub open spec fn cfg(&self) -> Cfg { s_cfg(self.mode, self.rate as int, self.channels as int, self.window as int, self.channel_map@) }
    pub open spec fn st(&self) -> St {
        St {
            fs: fstate(&self.filter),
            th: tstate(&self.filter),
            ring: rings(self.audio_data@, self.channels as int, s_adf(self.rate as int, self.window as int)),
            idx: self.audio_data_index as int, need: self.needed_frames as int, cnt: self.short_term_frame_counter as int,
            blk: self.block_energy_history.hv(), sh: self.short_term_block_energy_history.hv(),
        }
    }
    /// configuration and buffers fit together
    pub open spec fn shaped(&self) -> bool {
        &&& channels_ok(self.channels as int) && rate_ok(self.rate as int) && has_m(self.mode)
        &&& self.samples_in_100ms == (self.rate + 5) / 10
        &&& least_ms(self.mode) <= self.window <= u32::MAX && least_ms(self.mode) <= self.history
        &&& self.audio_data@.len() == self.channels * s_adf(self.rate as int, self.window as int)
        &&& self.channel_map@.len() == self.channels && self.sample_peak@.len() == self.channels && self.true_peak@.len() == self.channels
        &&& forall|c: int| 0 <= c < self.channels && #[trigger] self.channel_map@[c] == Channel::DualMono ==> self.channels == 1
    }
    pub open spec fn filter_ok(&self) -> bool {
        &&& self.filter.wf() && self.filter.channels == self.channels
        &&& self.filter.a@ == s_coefficients(s_f64_of_int(self.rate as int)).1 && self.filter.b@ == s_coefficients(s_f64_of_int(self.rate as int)).0
        &&& self.filter.calculate_sample_peak == has_sp(self.mode)
        &&& self.filter.tp is Some <==> s_fac(self.mode, self.rate as int) != 0
        &&& self.filter.tp is Some ==> self.filter.tp->Some_0.fac() == s_fac(self.mode, self.rate as int)
    }
    pub open spec fn hist_ok(&self) -> bool {
        &&& self.block_energy_history.wf() && self.short_term_block_energy_history.wf()
        &&& self.block_energy_history.is_hist() == has_hist(self.mode) && self.short_term_block_energy_history.is_hist() == has_hist(self.mode)
        &&& !has_hist(self.mode) ==> self.block_energy_history->Queue_0.max == self.history / 100 && self.short_term_block_energy_history->Queue_0.max == self.history / 3000
    }
    /// the position in the ring and the distance to the next block fit together
    pub open spec fn timed(&self) -> bool {
        let s = self.samples_in_100ms as int;
        &&& 0 < self.needed_frames && self.audio_data_index + self.needed_frames <= s_adf(self.rate as int, self.window as int)
        &&& (self.audio_data_index + self.needed_frames) % s == 0
        &&& self.needed_frames <= s || self.audio_data_index + self.needed_frames == 4 * s
        &&& has_lra(self.mode) ==> (self.short_term_frame_counter + self.needed_frames) % s == 0 && self.short_term_frame_counter + self.needed_frames <= 30 * s
        &&& !has_lra(self.mode) ==> self.short_term_frame_counter == 0
    }
    pub open spec fn peaks_ok(&self) -> bool {
        forall|c: int| 0 <= c < self.channels ==> #[trigger] pos64(self.sample_peak@[c]) && pos64(self.true_peak@[c])
    }
    pub open spec fn wf(&self) -> bool { self.shaped() && self.filter_ok() && self.hist_ok() && self.timed() && self.peaks_ok() }
    /// the counters have room for n more blocks
    pub open spec fn room(&self, n: int) -> bool {
        self.block_energy_history.blocks() + n < 0x8000_0000_0000_0000 && self.short_term_block_energy_history.blocks() + n < 0x8000_0000_0000_0000
    }
    pub open spec fn same_cfg(&self, o: &EbuR128) -> bool {
        self.mode == o.mode && self.rate == o.rate && self.channels == o.channels && self.window == o.window && self.history == o.history && self.channel_map@ == o.channel_map@
    }
}
pub proof fn wf_shape(e: &EbuR128)
    requires e.shaped(), e.filter_ok(),
    ensures shape(e.cfg(), e.st()), e.audio_data@.len() as int / (e.channels as int) == s_adf(e.rate as int, e.window as int), e.audio_data@.len() % (e.channels as nat) == 0,
        s_adf(e.rate as int, e.window as int) % ((e.rate + 5) / 10) == 0, s_adf(e.rate as int, e.window as int) >= 4 * ((e.rate + 5) / 10),
        has_s(e.mode) ==> s_adf(e.rate as int, e.window as int) >= 30 * ((e.rate + 5) / 10), 0 < s_adf(e.rate as int, e.window as int) <= 0x0100_0000_0000_0000,
        2 <= e.samples_in_100ms <= 282240, e.audio_data@.len() > 0,
{
    adf_facts(e.rate as int, e.window as int);
    let n = s_adf(e.rate as int, e.window as int);
    let k = e.channels as int;
    assert(n * k == k * n && k * n > 0) by (nonlinear_arith) requires n > 0, k > 0;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n, k);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n, k);
}

/// another channel map
pub proof fn wf_map(o: &EbuR128, e: &EbuR128)
    requires o.wf(), *e == (EbuR128 { channel_map: e.channel_map, ..*o }), e.channel_map@.len() == o.channels,
        forall|c: int| 0 <= c < o.channels && #[trigger] e.channel_map@[c] == Channel::DualMono ==> o.channels == 1,
    ensures e.wf(),
{
    assert(e.shaped());
    assert(e.filter_ok());
    assert(e.hist_ok());
    assert(e.timed());
    assert(e.peaks_ok());
}

/// an analyzer at its start
pub open spec fn at_start(e: &EbuR128) -> bool {
    &&& e.audio_data@ == zeros64(e.channels * s_adf(e.rate as int, e.window as int))
    &&& e.audio_data_index == 0 && e.needed_frames == e.samples_in_100ms * 4 && e.short_term_frame_counter == 0
}
pub open spec fn filter_at_start(e: &EbuR128) -> bool {
    &&& forall|c: int| 0 <= c < e.channels ==> (#[trigger] e.filter.filter_state@[c])@ =~= zeros64(5)
    &&& e.filter.tp is Some ==> forall|c: int| 0 <= c < e.channels ==> #[trigger] e.filter.tp->Some_0.h(c) == h_zero(e.filter.tp->Some_0.fac())
}
pub proof fn start_timed(e: &EbuR128)
    requires e.shaped(), at_start(e),
    ensures e.timed(), rings(e.audio_data@, e.channels as int, s_adf(e.rate as int, e.window as int)) == Seq::new(e.channels as nat, |c: int| zeros64(s_adf(e.rate as int, e.window as int))),
{
    mode_values(e.mode);
    adf_facts(e.rate as int, e.window as int);
    let s = e.samples_in_100ms as int;
    let n = s_adf(e.rate as int, e.window as int);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(4, s);
    let l = rings(e.audio_data@, e.channels as int, n);
    assert forall|c: int| 0 <= c < e.channels implies #[trigger] l[c] == zeros64(n) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] l[c][i] == 0.0f64 by { ix_bound(c, n, i, e.channels as int); }
        assert(l[c] =~= zeros64(n));
    }
    assert(l =~= Seq::new(e.channels as nat, |c: int| zeros64(n)));
}
pub proof fn start_fresh(e: &EbuR128)
    requires e.shaped(), e.filter_ok(), at_start(e), filter_at_start(e),
    ensures e.timed(), e.st() == fresh(e.cfg(), e.block_energy_history.hv(), e.short_term_block_energy_history.hv()),
{
    start_timed(e);
    let f = fresh(e.cfg(), e.block_energy_history.hv(), e.short_term_block_energy_history.hv());
    assert(e.st().fs =~= f.fs);
    assert(e.st().th =~= f.th);
}

@fn default_channel_map(channels) -> r
@props C01
@spec
    requires channels_ok(channels as int),
    ensures r@ =~= s_default_map(channels as int), //# C01

@fn EbuR128::allocate_audio_data(channels, rate, window) -> r
@props C01 C02 C06
@spec
    requires channels_ok(channels as int), rate_ok(rate as int), 400 <= window <= u32::MAX,
    ensures r is Ok, //# C01
        r->Ok_0@ == zeros64(channels * s_adf(rate as int, window as int)), //# C06 C15
@entry
    proof {
        adf_facts(rate as int, window as int);
        let k = channels as int;
        let n = s_adf(rate as int, window as int);
        assert(n * k == k * n && 0 <= k * n <= 64 * 0x0100_0000_0000_0000) by (nonlinear_arith) requires 0 < n <= 0x0100_0000_0000_0000, 1 <= k <= 64;
    }

@fn EbuR128::new(channels, rate, mode) -> r
@props C01 C02
@spec
    ensures
        r is Ok <==> channels_ok(channels as int) && rate_ok(rate as int) && has_m(mode), //# C01
        !(channels_ok(channels as int) && rate_ok(rate as int)) ==> r == Err::<EbuR128, Error>(Error::NoMem), //# C01
        channels_ok(channels as int) && rate_ok(rate as int) && !has_m(mode) ==> r == Err::<EbuR128, Error>(Error::InvalidMode), //# C01
        r is Ok ==> r->Ok_0.mode == mode && r->Ok_0.rate == rate && r->Ok_0.channels == channels && r->Ok_0.window == least_ms(mode) && r->Ok_0.history == usize::MAX, //# C01
        r is Ok ==> r->Ok_0.channel_map@ == s_default_map(channels as int), //# C01
        r is Ok ==> r->Ok_0.wf(), //# C01 C02
        r is Ok ==> r->Ok_0.st() == fresh(r->Ok_0.cfg(), hv_new(has_hist(mode), usize::MAX as int / 100), hv_new(has_hist(mode), usize::MAX as int / 3000)), //# C05 C06 C07 C13 C15
        r is Ok ==> r->Ok_0.sample_peak@ == zeros64(channels as int) && r->Ok_0.true_peak@ == zeros64(channels as int), //# C08 C09 C15
        r is Ok ==> r->Ok_0.filter.sample_peak@ == zeros64(channels as int) && r->Ok_0.filter.true_peak@ == zeros64(channels as int), //# C08 C09 C15
@entry
    proof { mode_values(mode); if rate_ok(rate as int) { adf_facts(rate as int, 400); adf_facts(rate as int, 3000); } fl_abs64(0.0f64, 0.0f64); }
@exit
    proof { start_fresh(&vx_ret->Ok_0); }

@fn EbuR128::set_channel(channel_number, value) -> r
@props C01 C02
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> channel_number < old(self).channels && !(value == Channel::DualMono && old(self).channels != 1), //# C01
        r is Err ==> r == Err::<(), Error>(Error::InvalidChannelIndex) && *final(self) == *old(self), //# C01
        *final(self) == (EbuR128 { channel_map: final(self).channel_map, ..*old(self) }), //# C01
        r is Ok ==> final(self).channel_map@ == old(self).channel_map@.update(channel_number as int, value), //# C01
        final(self).wf(), //# C02
@exit
    proof { wf_map(old(self), self); }

@fn EbuR128::set_channel_map(channel_map) -> r
@props C01 C02
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> channel_map@.len() == old(self).channels && forall|c: int| 0 <= c < channel_map@.len() && #[trigger] channel_map@[c] == Channel::DualMono ==> old(self).channels == 1, //# C01
        r is Err ==> r == Err::<(), Error>(Error::InvalidChannelIndex) && *final(self) == *old(self), //# C01
        *final(self) == (EbuR128 { channel_map: final(self).channel_map, ..*old(self) }), //# C01
        r is Ok ==> final(self).channel_map@ == channel_map@, //# C01
        final(self).wf(), //# C02
@loop 0
    invariant
        vx_n0 == channel_map@.len(), vx_i0 <= vx_n0, *self == *old(self),
        forall|c: int| 0 <= c < vx_i0 && #[trigger] channel_map@[c] == Channel::DualMono ==> old(self).channels == 1,
    decreases vx_n0 - vx_i0
@exit
    proof { wf_map(old(self), self); }

@fn EbuR128::change_parameters(channels, rate) -> r
@props C01 C02 C15
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> channels_ok(channels as int) && rate_ok(rate as int), //# C01
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01
        r is Ok && channels == old(self).channels && rate == old(self).rate ==> *final(self) == *old(self), //# C15
        r is Ok ==> final(self).channels == channels && final(self).rate == rate && final(self).mode == old(self).mode && final(self).window == old(self).window && final(self).history == old(self).history, //# C01
        r is Ok ==> final(self).channel_map@ == if channels == old(self).channels { old(self).channel_map@ } else { s_default_map(channels as int) }, //# C01
        r is Ok && !(channels == old(self).channels && rate == old(self).rate) ==> final(self).st() == fresh(final(self).cfg(), old(self).block_energy_history.hv(), old(self).short_term_block_energy_history.hv()), //# C05 C06 C07 C09 C15
        r is Ok && channels == old(self).channels ==> final(self).sample_peak@ == old(self).sample_peak@ && final(self).true_peak@ == old(self).true_peak@, //# C08 C09 C15
        r is Ok && channels != old(self).channels ==> final(self).sample_peak@ == zeros64(channels as int) && final(self).true_peak@ == zeros64(channels as int), //# C08 C09 C15
        r is Ok && !(channels == old(self).channels && rate == old(self).rate) ==> final(self).filter.sample_peak@ == zeros64(channels as int) && final(self).filter.true_peak@ == zeros64(channels as int), //# C08 C09 C15
        final(self).block_energy_history == old(self).block_energy_history && final(self).short_term_block_energy_history == old(self).short_term_block_energy_history, //# C13 C15
        final(self).wf(), //# C02
@entry
    proof { mode_values(self.mode); if rate_ok(rate as int) { adf_facts(rate as int, self.window as int); } fl_abs64(0.0f64, 0.0f64); }
@exit
    proof { start_fresh(self); }

@fn EbuR128::set_max_window(window) -> r
@props C01 C02 C15
@spec
    requires old(self).wf(),
    ensures
        r is Ok, //# C01
        final(self).window == at_least(old(self).mode, window as int), //# C01
        *final(self) == (EbuR128 { window: final(self).window, audio_data: final(self).audio_data, needed_frames: final(self).needed_frames, audio_data_index: final(self).audio_data_index, short_term_frame_counter: final(self).short_term_frame_counter, ..*old(self) }), //# C01 C13 C15
        final(self).window == old(self).window ==> *final(self) == *old(self), //# C15
        final(self).window != old(self).window ==> final(self).st() == (St { fs: old(self).st().fs, th: old(self).st().th, ..fresh(final(self).cfg(), old(self).block_energy_history.hv(), old(self).short_term_block_energy_history.hv()) }), //# C05 C06 C15
        final(self).wf(), //# C02
@entry
    proof { mode_values(self.mode); adf_facts(self.rate as int, at_least(self.mode, window as int)); }
@exit
    proof { start_timed(self); }

@fn EbuR128::set_max_history(history) -> r
@props C01 C02 C13
@spec
    requires old(self).wf(),
    ensures
        r is Ok, //# C01
        final(self).history == at_least(old(self).mode, history as int), //# C01
        *final(self) == (EbuR128 { history: final(self).history, block_energy_history: final(self).block_energy_history, short_term_block_energy_history: final(self).short_term_block_energy_history, ..*old(self) }), //# C01 C15
        final(self).history == old(self).history ==> *final(self) == *old(self), //# C13 C15
        final(self).block_energy_history.hv() == hv_set_max(old(self).block_energy_history.hv(), final(self).history as int / 100), //# C13
        final(self).short_term_block_energy_history.hv() == hv_set_max(old(self).short_term_block_energy_history.hv(), final(self).history as int / 3000), //# C13
        final(self).wf(), //# C02
        forall|n: int| old(self).room(n) ==> #[trigger] final(self).room(n),
@entry
    proof { mode_values(self.mode); }

@fn EbuR128::reset()
@props C15 C02
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_cfg(old(self)), //# C01 C02
        final(self).st() == fresh(old(self).cfg(), hv_new(has_hist(old(self).mode), old(self).history as int / 100), hv_new(has_hist(old(self).mode), old(self).history as int / 3000)), //# C05 C06 C07 C09 C13 C15
        final(self).sample_peak@ == zeros64(old(self).channels as int) && final(self).true_peak@ == zeros64(old(self).channels as int), //# C08 C09 C15
        final(self).filter.sample_peak@ == zeros64(old(self).channels as int) && final(self).filter.true_peak@ == zeros64(old(self).channels as int), //# C08 C09 C15
        final(self).room(0),
@entry
    proof { wf_shape(self); mode_values(self.mode); fl_abs64(0.0f64, 0.0f64); }
@exit
    proof {
        start_fresh(self);
        assert(self.filter.sample_peak@ =~= zeros64(self.channels as int));
        assert(self.filter.true_peak@ =~= zeros64(self.channels as int));
    }

@raw
/// what process does to the state is push
pub proof fn processed_push<'a, T: Sample + 'a, S: Samples<'a, T>>(e: &EbuR128, f: &crate::filter::Filter, d: Seq<f64>, src: S)
    requires e.shaped(), e.filter_ok(), processed(&e.filter, f, e.audio_data@, d, e.audio_data_index as int, e.channel_map@, src), f.wf(), f.same_setup(&e.filter),
        e.audio_data_index + src.s_frames() <= s_adf(e.rate as int, e.window as int),
    ensures
        fstate(f) == push(e.cfg(), e.st(), frames_of(src)).fs,
        tstate(f) == push(e.cfg(), e.st(), frames_of(src)).th,
        rings(d, e.channels as int, s_adf(e.rate as int, e.window as int)) == push(e.cfg(), e.st(), frames_of(src)).ring,
{
    reveal(processed);
    wf_shape(e);
    src.facts();
    let q = frames_of(src);
    let p = push(e.cfg(), e.st(), q);
    let n = s_adf(e.rate as int, e.window as int);
    let k = e.channels as int;
    assert forall|c: int| 0 <= c < k implies #[trigger] fstate(f)[c] == p.fs[c] by { frames_cols(src, c); assert(f.filter_state@[c]@ == fstate(f)[c]); }
    assert(fstate(f) =~= p.fs);
    assert forall|c: int| 0 <= c < p.th.len() implies #[trigger] tstate(f)[c] == p.th[c] by { frames_cols(src, c); assert(e.filter.tp->Some_0.h(c) == e.st().th[c]); }
    assert(tstate(f) =~= p.th);
    let l = rings(d, k, n);
    assert forall|c: int| 0 <= c < k implies #[trigger] l[c] == p.ring[c] by {
        frames_cols(src, c);
        assert forall|i: int| 0 <= i < n implies #[trigger] l[c][i] == p.ring[c][i] by {
            assert(l[c][i] == d[ix(c, n, i)]);
            assert(e.st().ring[c][i] == e.audio_data@[ix(c, n, i)]);
            assert(e.st().fs[c] == e.filter.filter_state@[c]@);
            if used(e.cfg(), c) && e.audio_data_index <= i < e.audio_data_index + src.s_frames() {
                assert(xs64(src, c, i - e.audio_data_index + 1) == cx(q, c).subrange(0, i - e.audio_data_index + 1));
            }
        }
        assert(l[c] =~= p.ring[c]);
    }
    assert(l =~= p.ring);
}
/// peaks of one call, from frames q
pub open spec fn call_peaks(e0: &EbuR128, f: &crate::filter::Filter, m: f64, q: Seq<Seq<Smp>>) -> bool {
    &&& forall|c: int| 0 <= c < e0.channels ==> #[trigger] f.sample_peak@[c] == if has_sp(e0.mode) { peak_step(0.0f64, m, cr(q, c)) } else { 0.0f64 }
    &&& forall|c: int| 0 <= c < e0.channels ==> #[trigger] f.true_peak@[c] == if s_fac(e0.mode, e0.rate as int) != 0 { tp_call(e0.filter.tp->Some_0.h(c), s_fac(e0.mode, e0.rate as int), cy(q, c)) } else { 0.0f64 }
    &&& f.tp is Some ==> forall|c: int| 0 <= c < e0.channels ==> #[trigger] f.tp->Some_0.h(c) == tp_hist(e0.filter.tp->Some_0.h(c), cy(q, c))
}
pub proof fn call_peaks_none(e0: &EbuR128, f: &crate::filter::Filter, m: f64)
    requires e0.shaped(), e0.filter_ok(), f.same_setup(&e0.filter), f.wf(), f.tp == e0.filter.tp, amp_ok(m),
        forall|c: int| 0 <= c < e0.channels ==> #[trigger] f.sample_peak@[c] == 0.0f64,
        forall|c: int| 0 <= c < e0.channels ==> #[trigger] f.true_peak@[c] == 0.0f64,
    ensures call_peaks(e0, f, m, seq![]),
{
    fl_f32_zero();
    fl_abs64(0.0f64, 0.0f64);
    fl_div_amp(0.0f64, 0.0f64, m);
    zero_least(0.0f64);
    assert forall|c: int| cr(seq![], c) == Seq::<f64>::empty() && #[trigger] cy(seq![], c) == Seq::<f32>::empty() by { assert(cr(seq![], c) =~= Seq::<f64>::empty()); assert(cy(seq![], c) =~= Seq::<f32>::empty()); }
    assert forall|c: int| 0 <= c < e0.channels implies #[trigger] f.sample_peak@[c] == if has_sp(e0.mode) { peak_step(0.0f64, m, cr(seq![], c)) } else { 0.0f64 } by {
        assert(cr(seq![], c) =~= Seq::<f64>::empty());
        fl_pos64(0.0f64, 0.0f64);
    }
}
pub proof fn call_peaks_next<'a, T: Sample + 'a, S: Samples<'a, T>>(e0: &EbuR128, e: &EbuR128, f: &crate::filter::Filter, d: Seq<f64>, q: Seq<Seq<Smp>>, src: S)
    requires e0.shaped(), e0.filter_ok(), e.shaped(), e.filter_ok(), e.same_cfg(e0), e.filter.same_setup(&e0.filter), call_peaks(e0, &e.filter, T::s_amp(), q),
        processed(&e.filter, f, e.audio_data@, d, e.audio_data_index as int, e.channel_map@, src), f.wf(), f.same_setup(&e.filter),
    ensures call_peaks(e0, f, T::s_amp(), q + frames_of(src)),
{
    reveal(processed);
    let r = frames_of(src);
    src.facts();
    T::amp();
    fl_abs64(0.0f64, 0.0f64);
    let fac = s_fac(e0.mode, e0.rate as int);
    assert forall|c: int| 0 <= c < e0.channels implies #[trigger] f.sample_peak@[c] == if has_sp(e0.mode) { peak_step(0.0f64, T::s_amp(), cr(q + r, c)) } else { 0.0f64 } by {
        frames_cols(src, c);
        assert(cr(q + r, c) =~= cr(q, c) + cr(r, c));
        peak_cat(0.0f64, T::s_amp(), cr(q, c), cr(r, c));
        assert(e.filter.sample_peak@[c] == if has_sp(e0.mode) { peak_step(0.0f64, T::s_amp(), cr(q, c)) } else { 0.0f64 });
    }
    if fac != 0 {
        assert forall|c: int| 0 <= c < e0.channels implies #[trigger] f.tp->Some_0.h(c) == tp_hist(e0.filter.tp->Some_0.h(c), cy(q + r, c)) && f.true_peak@[c] == tp_call(e0.filter.tp->Some_0.h(c), fac, cy(q + r, c)) by {
            frames_cols(src, c);
            let h = e0.filter.tp->Some_0.h(c);
            assert(cy(q + r, c) =~= cy(q, c) + cy(r, c));
            assert(e.filter.tp->Some_0.h(c) == tp_hist(h, cy(q, c)));
            assert(e.filter.true_peak@[c] == tp_call(h, fac, cy(q, c)));
            tp_hist_cat(h, cy(q, c), cy(r, c));
            tp_peak_cat(h, fac, 0.0f32, cy(q, c), cy(r, c));
            fl_f32_zero();
            tp_peak_ok(h, fac, 0.0f32, cy(q, c));
            fl_f32_rt(tp_peak(h, fac, 0.0f32, cy(q, c)));
        }
        assert forall|c: int| 0 <= c < e0.channels implies #[trigger] f.true_peak@[c] == tp_call(e0.filter.tp->Some_0.h(c), fac, cy(q + r, c)) by {
            assert(f.tp->Some_0.h(c) == tp_hist(e0.filter.tp->Some_0.h(c), cy(q + r, c)));
        }
    } else {
        assert forall|c: int| 0 <= c < e0.channels implies #[trigger] f.true_peak@[c] == 0.0f64 by { assert(e.filter.true_peak@[c] == 0.0f64); }
    }
}

@fn EbuR128::energy_in_interval(interval_frames) -> r
@props C06 C05 C16
@spec
    requires self.shaped(), self.filter_ok(), self.audio_data_index <= s_adf(self.rate as int, self.window as int),
    ensures
        interval_frames > s_adf(self.rate as int, self.window as int) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C06 C16
        interval_frames <= s_adf(self.rate as int, self.window as int) ==> r == Ok::<f64, Error>(energy(self.cfg(), self.st(), interval_frames as int)), //# C05 C06
@entry
    proof {
        wf_shape(self);
        if interval_frames <= s_adf(self.rate as int, self.window as int) {
            gate_wsum(self.audio_data@, s_adf(self.rate as int, self.window as int), self.channel_map@, self.audio_data_index as int, interval_frames as int, self.channels as int);
        }
    }
@fn EbuR128::energy_shortterm() -> r
@props C06 C05 C16
@spec
    requires self.shaped(), self.filter_ok(), self.audio_data_index <= s_adf(self.rate as int, self.window as int),
    ensures
        self.samples_in_100ms * 30 > s_adf(self.rate as int, self.window as int) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C06 C16
        self.samples_in_100ms * 30 <= s_adf(self.rate as int, self.window as int) ==> r == Ok::<f64, Error>(energy(self.cfg(), self.st(), self.samples_in_100ms * 30)), //# C05 C06

@raw
/// what holds before and after each turn of the loop of add_frames
#[verifier::opaque]
pub open spec fn adding<'a, T: Sample + 'a, S: Samples<'a, T>>(e0: &EbuR128, q0: Seq<Seq<Smp>>, e: &EbuR128, src: S) -> bool {
    &&& frames_of(src) == q0.subrange(q0.len() - src.s_frames(), q0.len() as int)
    &&& run(e0.cfg(), e.st(), frames_of(src)) == run(e0.cfg(), e0.st(), q0)
    &&& call_peaks(e0, &e.filter, T::s_amp(), q0.subrange(0, q0.len() - src.s_frames()))
}
/// one turn: e1 became e after the filter took cur, the first n frames of src1
pub proof fn adding_next<'a, T: Sample + 'a, S: Samples<'a, T>>(e0: &EbuR128, q0: Seq<Seq<Smp>>, e1: &EbuR128, src1: S, e: &EbuR128, n: int, cur: S, src: S)
    requires
        e0.shaped(), e0.filter_ok(), e1.shaped(), e1.filter_ok(), e1.timed(), e1.same_cfg(e0), e1.filter.same_setup(&e0.filter), adding(e0, q0, e1, src1),
        src1.s_frames() > 0, src1.s_frames() <= q0.len(),
        n == if src1.s_frames() >= e1.needed_frames { e1.needed_frames as int } else { src1.s_frames() },
        is_split(src1, n, cur, src),
        processed(&e1.filter, &e.filter, e1.audio_data@, e.audio_data@, e1.audio_data_index as int, e1.channel_map@, cur),
        e.filter.wf(), e.filter.same_setup(&e1.filter), e.same_cfg(e1),
        n < e1.needed_frames ==> added_part(e1, e, n),
        n == e1.needed_frames ==> added_block(e1, e),
    ensures
        adding(e0, q0, e, src),
{
    reveal(adding);
    let g = e0.cfg();
    let q = frames_of(src1);
    let st1 = push(g, e1.st(), q.subrange(0, n));
    frames_split(src1, n, cur, src);
    processed_push(e1, &e.filter, e.audio_data@, cur);
    call_peaks_next(e0, e1, &e.filter, e.audio_data@, q0.subrange(0, q0.len() - src1.s_frames()), cur);
    assert(q0.subrange(0, q0.len() - src1.s_frames()) + q.subrange(0, n) =~= q0.subrange(0, q0.len() - src.s_frames()));
    assert(frames_of(src) =~= q0.subrange(q0.len() - src.s_frames(), q0.len() as int));
    run_piece(g, e1.st(), q);
    if n == e1.needed_frames {
        wf_shape(e1);
        gate_wsum(e.audio_data@, s_adf(e.rate as int, e.window as int), e.channel_map@, e1.audio_data_index + n, e.samples_in_100ms * 4, e.channels as int);
        assert(e.st() == block(g, st1));
    } else {
        assert(e.st() == st1);
        assert(frames_of(src) =~= seq![]);
    }
}
/// after the last turn
pub proof fn added_all<'a, T: Sample + 'a, S: Samples<'a, T>>(e0: &EbuR128, q0: Seq<Seq<Smp>>, e: &EbuR128, src: S)
    requires adding(e0, q0, e, src), src.s_frames() == 0, e0.wf(), e.same_cfg(e0),
    ensures e.st() == run(e0.cfg(), e0.st(), q0), call_peaks(e0, &e.filter, T::s_amp(), q0),
        forall|c: int| 0 <= c < e0.channels ==> #[trigger] pos64(e.filter.sample_peak@[c]) && pos64(e.filter.true_peak@[c]),
        forall|c: int| 0 <= c < e0.channels ==> pos64(#[trigger] fmax(e0.sample_peak@[c], e.filter.sample_peak@[c])),
        forall|c: int| 0 <= c < e0.channels ==> pos64(#[trigger] fmax(e0.true_peak@[c], e.filter.true_peak@[c])),
{
    reveal(adding);
    T::amp();
    fl_abs64(0.0f64, 0.0f64);
    assert(q0.subrange(0, q0.len() as int) =~= q0);
    assert forall|c: int| 0 <= c < e0.channels implies #[trigger] pos64(e.filter.sample_peak@[c]) && pos64(e.filter.true_peak@[c]) by {
        peak_cat(0.0f64, T::s_amp(), cr(q0, c), seq![]);
        if s_fac(e0.mode, e0.rate as int) != 0 { tp_calls(0.0f64, e0.filter.tp->Some_0.h(c), s_fac(e0.mode, e0.rate as int), cy(q0, c), seq![]); }
    }
    assert forall|c: int| 0 <= c < e0.channels implies pos64(#[trigger] fmax(e0.sample_peak@[c], e.filter.sample_peak@[c])) by {
        assert(pos64(e.filter.sample_peak@[c]) && pos64(e0.sample_peak@[c]));
        fmax_assoc(e0.sample_peak@[c], e.filter.sample_peak@[c], 0.0f64);
    }
    assert forall|c: int| 0 <= c < e0.channels implies pos64(#[trigger] fmax(e0.true_peak@[c], e.filter.true_peak@[c])) by {
        assert(pos64(e.filter.sample_peak@[c]) && pos64(e0.sample_peak@[c]));
        fmax_assoc(e0.true_peak@[c], e.filter.true_peak@[c], 0.0f64);
    }
}
/// before the first turn
pub proof fn adding_none<'a, T: Sample + 'a, S: Samples<'a, T>>(e0: &EbuR128, e: &EbuR128, src: S)
    requires e0.shaped(), e0.filter_ok(), src.s_wf(), e.filter.same_setup(&e0.filter), e.filter.wf(), e.filter.filter_state == e0.filter.filter_state, e.filter.tp == e0.filter.tp,
        *e == (EbuR128 { filter: e.filter, ..*e0 }),
        forall|c: int| 0 <= c < e0.channels ==> #[trigger] e.filter.sample_peak@[c] == 0.0f64,
        forall|c: int| 0 <= c < e0.channels ==> #[trigger] e.filter.true_peak@[c] == 0.0f64,
    ensures adding(e0, frames_of(src), e, src), frames_of(src).len() == src.s_frames(),
{
    reveal(adding);
    src.facts();
    T::amp();
    let q0 = frames_of(src);
    call_peaks_none(e0, &e.filter, T::s_amp());
    assert(q0.subrange(0, 0) =~= seq![]);
    assert(q0.subrange(0, q0.len() as int) =~= q0);
    assert(e.st().fs =~= e0.st().fs);
    assert(e.st().th =~= e0.st().th);
}
/// no block boundary reached after n frames
pub open spec fn added_part(e1: &EbuR128, e: &EbuR128, n: int) -> bool {
    &&& e.audio_data_index == e1.audio_data_index + n && e.needed_frames == e1.needed_frames - n
    &&& e.short_term_frame_counter == if has_lra(e1.mode) { e1.short_term_frame_counter + n } else { e1.short_term_frame_counter as int }
    &&& e.block_energy_history.hv() == e1.block_energy_history.hv() && e.short_term_block_energy_history.hv() == e1.short_term_block_energy_history.hv()
}
/// a block boundary reached
pub open spec fn added_block(e1: &EbuR128, e: &EbuR128) -> bool {
    let w = s_adf(e1.rate as int, e1.window as int);
    let s = e1.samples_in_100ms as int;
    let i = e1.audio_data_index + e1.needed_frames;
    let full = has_lra(e1.mode) && e1.short_term_frame_counter + e1.needed_frames == s * 30;
    &&& e.samples_in_100ms == s
    &&& e.audio_data_index == (if i == w { 0 } else { i }) && e.needed_frames == s
    &&& e.short_term_frame_counter == if full { s * 20 } else if has_lra(e1.mode) { e1.short_term_frame_counter + e1.needed_frames } else { e1.short_term_frame_counter as int }
    &&& e.block_energy_history.hv() == if has_i(e1.mode) { hv_add(e1.block_energy_history.hv(), fdiv(gate_sum(e.audio_data@, w, e1.channel_map@, i, s * 4, e1.channels as int), s_f64_of_int(s * 4))) } else { e1.block_energy_history.hv() }
    &&& e.short_term_block_energy_history.hv() == if full { hv_add(e1.short_term_block_energy_history.hv(), fdiv(wsum(e1.channel_map@, rings(e.audio_data@, e1.channels as int, w), i, s * 30, e1.channels as int), s_f64_of_int(s * 30))) } else { e1.short_term_block_energy_history.hv() }
}

@fn EbuR128::add_frames(src) -> r
@attr #[verifier::rlimit(60)]
@props C02 C03 C05
@spec
    requires old(self).wf(), src.s_wf(), old(self).room(src.s_frames()),
    ensures
        r is Ok <==> src.s_channels() == old(self).channels, //# C04 C16
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04
        src.s_frames() == 0 ==> *final(self) == *old(self), //# C03 C08 C09
        final(self).same_cfg(old(self)), //# C01
        r is Ok ==> final(self).st() == run(old(self).cfg(), old(self).st(), frames_of(src)), //# C03 C04 C05 C06 C07 C09 C17
        r is Ok && src.s_frames() > 0 ==> call_peaks(old(self), &final(self).filter, T::s_amp(), frames_of(src)), //# C03 C08 C09 C17
        r is Ok && src.s_frames() > 0 ==> forall|c: int| 0 <= c < old(self).channels ==> #[trigger] final(self).sample_peak@[c] == fmax(old(self).sample_peak@[c], final(self).filter.sample_peak@[c]), //# C03 C08
        r is Ok && src.s_frames() > 0 ==> forall|c: int| 0 <= c < old(self).channels ==> #[trigger] final(self).true_peak@[c] == fmax(old(self).true_peak@[c], final(self).filter.true_peak@[c]), //# C03 C09
        final(self).wf(), //# C02
@entry
    let ghost e0 = *self;
    let ghost q0 = frames_of(src);
    let ghost fr0 = src.s_frames();
    let ghost mut e2 = *self;
    proof {
        src.facts(); mode_values(self.mode); wf_shape(self); fl_abs64(0.0f64, 0.0f64);
    }
@pre 0
    proof {
        adding_none(&e0, self, src);
    }
@loop 0
    invariant
        self.same_cfg(&e0), //# C01 C03
        self.shaped(), self.filter_ok(), self.hist_ok(), //# C02
        self.timed(), //# C02 C03 C05
        self.sample_peak == e0.sample_peak, //# C03 C08
        self.true_peak == e0.true_peak, //# C03 C09
        self.filter.same_setup(&e0.filter), //# C02 C07 C09
        src.s_wf(), src.s_channels() == e0.channels, 0 <= src.s_frames() <= fr0, q0.len() == fr0,
        adding(&e0, q0, self, src), //# C03 C04 C05 C06 C07 C08 C09 C17
        self.room(src.s_frames()),
    decreases src.s_frames()
@top 0
    let ghost e1 = *self;
    let ghost src1 = src;
    let ghost n = if src.s_frames() >= self.needed_frames { self.needed_frames as int } else { src.s_frames() };
    let ghost w = s_adf(self.rate as int, self.window as int);
    let ghost s100 = self.samples_in_100ms as int;
    proof {
        src.facts(); wf_shape(self);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(30, s100);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(21, s100);
        if self.audio_data_index + self.needed_frames < w { multiple_step(w, self.audio_data_index + self.needed_frames, s100); }
        vstd::arithmetic::div_mod::lemma_mod_self_0(s100);
        if has_lra(self.mode) && self.short_term_frame_counter + self.needed_frames < 30 * s100 { multiple_step(30 * s100, self.short_term_frame_counter + self.needed_frames, s100); }
    }
@bot 0
    proof {
        if n == e1.needed_frames {
            let i = e1.audio_data_index + e1.needed_frames;
            let full = has_lra(e1.mode) && e1.short_term_frame_counter + e1.needed_frames == s100 * 30;
            assert(self.needed_frames == s100 && self.samples_in_100ms == s100); //# C03 C05
            if i < w { vstd::arithmetic::div_mod::lemma_small_mod(i as nat, w as nat); } else { vstd::arithmetic::div_mod::lemma_mod_self_0(w); }
            assert(self.audio_data_index == (if i == w { 0 } else { i })); //# C03 C05 C06
            assert(self.short_term_frame_counter == if full { s100 * 20 } else if has_lra(e1.mode) { e1.short_term_frame_counter + e1.needed_frames } else { e1.short_term_frame_counter as int }); //# C03 C05 C11
            assert(self.block_energy_history.hv() == if has_i(e1.mode) { hv_add(e1.block_energy_history.hv(), fdiv(gate_sum(self.audio_data@, w, e1.channel_map@, i, s100 * 4, e1.channels as int), s_f64_of_int(s100 * 4))) } else { e1.block_energy_history.hv() }); //# C05 C10
            assert(self.short_term_block_energy_history.hv() == if full { hv_add(e1.short_term_block_energy_history.hv(), fdiv(wsum(e1.channel_map@, rings(self.audio_data@, e1.channels as int, w), i, s100 * 30, e1.channels as int), s_f64_of_int(s100 * 30))) } else { e1.short_term_block_energy_history.hv() }); //# C05 C11
            assert(added_block(&e1, self)); //# C03 C05 C06 C10 C11
        } else {
            assert(self.needed_frames == e1.needed_frames - n && self.samples_in_100ms == s100); //# C03 C05
            assert(self.audio_data_index == e1.audio_data_index + n); //# C03 C05 C06
            assert(self.short_term_frame_counter == e1.short_term_frame_counter + if has_lra(e1.mode) { n } else { 0 }); //# C03 C05 C11
            assert(self.block_energy_history.hv() == e1.block_energy_history.hv()); //# C05 C10
            assert(self.short_term_block_energy_history.hv() == e1.short_term_block_energy_history.hv()); //# C05 C11
            assert(added_part(&e1, self, n)); //# C03 C05 C06 C10 C11
        }
        assert forall|cur: S| #[trigger] processed(&e1.filter, &self.filter, e1.audio_data@, self.audio_data@, e1.audio_data_index as int, e1.channel_map@, cur) && is_split(src1, n, cur, src) implies
            adding(&e0, q0, self, src) by {
            adding_next(&e0, q0, &e1, src1, self, n, cur, src);
        }
        assert(exists|cur: S| #[trigger] processed(&e1.filter, &self.filter, e1.audio_data@, self.audio_data@, e1.audio_data_index as int, e1.channel_map@, cur) && is_split(src1, n, cur, src)); //# C03 C04 C05 C06 C07 C08 C09 C17
    }
@post 0
    proof {
        e2 = *self;
        added_all(&e0, q0, self, src);
    }
@loop 1
    invariant
        vx_i1 <= vx_n1, vx_n1 == e0.channels, *self == (EbuR128 { sample_peak: self.sample_peak, ..e2 }), self.sample_peak@.len() == e0.channels,
        forall|c: int| 0 <= c < vx_i1 ==> #[trigger] self.sample_peak@[c] == fmax(e0.sample_peak@[c], e2.filter.sample_peak@[c]), //# C03 C08
        forall|c: int| vx_i1 <= c < e0.channels ==> #[trigger] self.sample_peak@[c] == e0.sample_peak@[c], //# C03 C08
    decreases vx_n1 - vx_i1
@loop 2
    invariant
        vx_i2 <= vx_n2, vx_n2 == e0.channels, *self == (EbuR128 { sample_peak: self.sample_peak, true_peak: self.true_peak, ..e2 }), self.sample_peak@.len() == e0.channels, self.true_peak@.len() == e0.channels,
        forall|c: int| 0 <= c < e0.channels ==> #[trigger] self.sample_peak@[c] == fmax(e0.sample_peak@[c], e2.filter.sample_peak@[c]), //# C03 C08
        forall|c: int| 0 <= c < vx_i2 ==> #[trigger] self.true_peak@[c] == fmax(e0.true_peak@[c], e2.filter.true_peak@[c]), //# C03 C09
        forall|c: int| vx_i2 <= c < e0.channels ==> #[trigger] self.true_peak@[c] == e0.true_peak@[c], //# C03 C09
    decreases vx_n2 - vx_i2
@exit
    proof {
        assert(self.st() == e2.st());
    }

// ------------------------------------------------------------------ getters
@fn EbuR128::mode() -> r
@props C01 C16
@spec
    ensures r == self.mode, //# C01
@fn EbuR128::channels() -> r
@props C01 C16
@spec
    ensures r == self.channels, //# C01
@fn EbuR128::rate() -> r
@props C01 C16
@spec
    ensures r == self.rate, //# C01
@fn EbuR128::channel_map() -> r
@props C01 C16
@spec
    ensures r@ == self.channel_map@, //# C01
@fn EbuR128::max_window() -> r
@props C01 C16
@spec
    ensures r == self.window, //# C01
@fn EbuR128::max_history() -> r
@props C01 C16
@spec
    ensures r == self.history, //# C01

@raw
/// filters seeded with frames
pub open spec fn seeded(g: Cfg, s: St, q: Seq<Seq<Smp>>) -> St { St { fs: push(g, s, q).fs, th: push(g, s, q).th, ..s } }
pub proof fn seed_same<'a, T: Sample + 'a, S: Samples<'a, T>>(e: &EbuR128, f: &crate::filter::Filter, src: S)
    requires e.shaped(), e.filter_ok(), f.wf(), f.same_setup(&e.filter), src.s_wf(), src.s_channels() == e.channels,
        forall|c: int| 0 <= c < e.channels ==> (#[trigger] f.filter_state@[c])@ == if e.channel_map@[c] == Channel::Unused { e.filter.filter_state@[c]@ } else { filt_state(e.filter.a@, e.filter.filter_state@[c]@, xs64(src, c, src.s_frames())) },
        e.filter.tp is Some ==> forall|c: int| 0 <= c < e.channels ==> #[trigger] f.tp->Some_0.h(c) == tp_hist(e.filter.tp->Some_0.h(c), xs32(src, c, src.s_frames())),
    ensures fstate(f) == push(e.cfg(), e.st(), frames_of(src)).fs, tstate(f) == push(e.cfg(), e.st(), frames_of(src)).th,
{
    let p = push(e.cfg(), e.st(), frames_of(src));
    assert forall|c: int| 0 <= c < e.channels implies #[trigger] fstate(f)[c] == p.fs[c] by { frames_cols(src, c); assert(f.filter_state@[c]@ == fstate(f)[c]); }
    assert(fstate(f) =~= p.fs);
    assert forall|c: int| 0 <= c < p.th.len() implies #[trigger] tstate(f)[c] == p.th[c] by { frames_cols(src, c); assert(e.filter.tp->Some_0.h(c) == e.st().th[c]); }
    assert(tstate(f) =~= p.th);
}
@fn EbuR128::seed_frames(src) -> r
@props C20 C02
@spec
    requires old(self).wf(), src.s_wf(),
    ensures
        r is Ok <==> src.s_channels() == old(self).channels, //# C04 C16 C20
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C04 C20
        final(self).wf(), //# C02 C20
        *final(self) == (EbuR128 { filter: final(self).filter, ..*old(self) }), //# C20
        final(self).filter.sample_peak@ == old(self).filter.sample_peak@ && final(self).filter.true_peak@ == old(self).filter.true_peak@, //# C08 C09 C20
        r is Ok ==> final(self).st() == seeded(old(self).cfg(), old(self).st(), frames_of(src)), //# C07 C09 C17 C20
@exit
    proof { if vx_ret is Ok { seed_same(old(self), &self.filter, src); } }

// ------------------------------------------------------------------ queries
@raw
/// what is reported for an energy
pub open spec fn s_lufs(e: f64) -> f64 { if fle(e, 0.0f64) { s_neg(s_inf()) } else { s_loudness(e) } }
/// what is reported as loudness of the last n frames
pub open spec fn s_window(e: &EbuR128, n: int) -> Result<f64, Error> {
    if n > s_adf(e.rate as int, e.window as int) { Err(Error::InvalidMode) } else { Ok(s_lufs(energy(e.cfg(), e.st(), n))) }
}

@fn EbuR128::loudness_global() -> r
@props C10 C16 C02
@spec
    requires self.wf(), self.room(0),
    ensures
        !has_i(self.mode) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C10 C16
        has_i(self.mode) ==> r == Ok::<f64, Error>(integrated(seq![&self.block_energy_history])), //# C10
@entry
    proof { mode_values(self.mode); }

@fn EbuR128::loudness_momentary() -> r
@props C06 C16 C02
@spec
    requires self.wf(),
    ensures r == s_window(self, self.samples_in_100ms * 4), //# C06 C16
@entry
    proof { wf_shape(self); }

@fn EbuR128::loudness_shortterm() -> r
@props C06 C16 C02
@spec
    requires self.wf(),
    ensures r == s_window(self, self.samples_in_100ms * 30), //# C06 C16
@entry
    proof { wf_shape(self); }

@fn EbuR128::loudness_window(window) -> r
@props C06 C16 C02
@spec
    requires self.wf(),
    ensures
        self.rate * window <= usize::MAX ==> r == s_window(self, self.rate * window / 1000), //# C06 C16
        self.rate * window > usize::MAX ==> r == Err::<f64, Error>(Error::InvalidMode), //# C16
@entry
    proof { wf_shape(self); }

@fn EbuR128::loudness_range() -> r
@props C11 C16 C02
@spec
    requires self.wf(), self.room(0),
    ensures
        !has_lra(self.mode) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C11 C16
        has_lra(self.mode) ==> r is Ok && lra_is(seq![&self.short_term_block_energy_history], r), //# C11
@entry
    proof { mode_values(self.mode); }

@fn EbuR128::sample_peak(channel_number) -> r
@props C08 C16 C02
@spec
    requires self.wf(),
    ensures
        !has_sp(self.mode) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C08 C16
        has_sp(self.mode) && channel_number >= self.channels ==> r == Err::<f64, Error>(Error::InvalidChannelIndex), //# C16
        has_sp(self.mode) && channel_number < self.channels ==> r == Ok::<f64, Error>(self.sample_peak@[channel_number as int]), //# C08
@entry
    proof { mode_values(self.mode); }

@fn EbuR128::prev_sample_peak(channel_number) -> r
@props C08 C16 C02
@spec
    requires self.wf(),
    ensures
        !has_sp(self.mode) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C08 C16
        has_sp(self.mode) && channel_number >= self.channels ==> r == Err::<f64, Error>(Error::InvalidChannelIndex), //# C16
        has_sp(self.mode) && channel_number < self.channels ==> r == Ok::<f64, Error>(self.filter.sample_peak@[channel_number as int]), //# C08
@entry
    proof { mode_values(self.mode); }

@fn EbuR128::true_peak(channel_number) -> r
@props C09 C16 C02
@spec
    requires self.wf(),
    ensures
        !has_tp(self.mode) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C09 C16
        has_tp(self.mode) && channel_number >= self.channels ==> r == Err::<f64, Error>(Error::InvalidChannelIndex), //# C16
        has_tp(self.mode) && channel_number < self.channels ==> r == Ok::<f64, Error>(fmax(self.true_peak@[channel_number as int], self.sample_peak@[channel_number as int])), //# C09
@entry
    proof { mode_values(self.mode); }

@fn EbuR128::prev_true_peak(channel_number) -> r
@props C09 C16 C02
@spec
    requires self.wf(),
    ensures
        !has_tp(self.mode) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C09 C16
        has_tp(self.mode) && channel_number >= self.channels ==> r == Err::<f64, Error>(Error::InvalidChannelIndex), //# C16
        has_tp(self.mode) && channel_number < self.channels ==> r == Ok::<f64, Error>(fmax(self.filter.true_peak@[channel_number as int], self.filter.sample_peak@[channel_number as int])), //# C09
@entry
    proof { mode_values(self.mode); }

@fn EbuR128::relative_threshold() -> r
@props C10 C16 C02
@spec
    requires self.wf(), self.room(0),
    ensures
        !has_i(self.mode) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C10 C16
        has_i(self.mode) ==> r == Ok::<f64, Error>(rel_threshold_loudness(&self.block_energy_history)), //# C10
@entry
    proof { mode_values(self.mode); }

@fn EbuR128::gating_block_count_and_energy() -> r
@props C10 C16 C02
@spec
    requires self.wf(), self.room(0),
    ensures
        match gated(seq![&self.block_energy_history]) {
            Gated::Some(n, e) => r is Some && r->Some_0.0 == n && r->Some_0.1 == e,
            _ => r is None,
        }, //# C10 C16

@raw
pub open spec fn blocks_of(s: Seq<&EbuR128>) -> Seq<&History> { Seq::new(s.len(), |i: int| &s[i].block_energy_history) }
pub open spec fn shorts_of(s: Seq<&EbuR128>) -> Seq<&History> { Seq::new(s.len(), |i: int| &s[i].short_term_block_energy_history) }
@fn EbuR128::loudness_global_multiple(iter) -> r
@props C10 C14 C16 C02
@sig
    pub fn loudness_global_multiple<'a>(iter: Vec<&'a EbuR128>) -> (r: Result<f64, Error>)
@spec
    requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).wf(), all_blocks(blocks_of(iter@)) <= u64::MAX,
    ensures
        (exists|i: int| 0 <= i < iter@.len() && !has_i((#[trigger] iter@[i]).mode)) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C14 C16
        (forall|i: int| 0 <= i < iter@.len() ==> has_i((#[trigger] iter@[i]).mode)) ==> r == Ok::<f64, Error>(integrated(blocks_of(iter@))), //# C10 C14
@ty vx_out0 Vec<&'a History>
@loop 0
    invariant
        vx_i0 <= vx_n0, vx_n0 == iter@.len(), vx_out0@ =~= blocks_of(iter@.subrange(0, vx_i0 as int)),
        forall|i: int| 0 <= i < vx_i0 ==> has_i((#[trigger] iter@[i]).mode),
    decreases vx_n0 - vx_i0
@post 0
    proof { assert(iter@.subrange(0, iter@.len() as int) =~= iter@); }
@entry
    proof { mode_values(Mode { bits: 0 }); }

@fn EbuR128::loudness_range_multiple(iter) -> r
@props C11 C14 C16 C02
@sig
    pub fn loudness_range_multiple<'a>(iter: Vec<&'a EbuR128>) -> (r: Result<f64, Error>)
@spec
    requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).wf(), all_blocks(shorts_of(iter@)) < 0x8000_0000_0000_0000,
    ensures
        (exists|i: int| 0 <= i < iter@.len() && !has_lra((#[trigger] iter@[i]).mode)) ==> r == Err::<f64, Error>(Error::InvalidMode), //# C14 C16
        (forall|i: int| 0 <= i < iter@.len() ==> has_lra((#[trigger] iter@[i]).mode)) ==> lra_is(shorts_of(iter@), r), //# C11 C14
@ty vx_out0 Vec<&'a History>
@loop 0
    invariant
        vx_i0 <= vx_n0, vx_n0 == iter@.len(), vx_out0@ =~= shorts_of(iter@.subrange(0, vx_i0 as int)),
        forall|i: int| 0 <= i < vx_i0 ==> has_lra((#[trigger] iter@[i]).mode),
    decreases vx_n0 - vx_i0
@post 0
    proof { assert(iter@.subrange(0, iter@.len() as int) =~= iter@); }
@entry
    proof { mode_values(Mode { bits: 0 }); }

// ------------------------------------------------------------------ the formats
@raw
/// interleaved samples as frames
pub open spec fn il_frames<T: Sample>(d: Seq<T>, chs: int) -> Seq<Seq<Smp>> {
    Seq::new((d.len() as int / chs) as nat, |i: int| Seq::new(chs as nat, |c: int| smp_of(d[i * chs + c])))
}
/// samples by channel as frames
pub open spec fn pl_frames<T: Sample>(d: Seq<&[T]>) -> Seq<Seq<Smp>> {
    Seq::new(d[0]@.len(), |i: int| Seq::new(d.len(), |c: int| smp_of(d[c]@[i])))
}
/// the channels have the same length
pub open spec fn pl_ok<T: Sample>(d: Seq<&[T]>) -> bool { d.len() > 0 && forall|c: int| 0 <= c < d.len() ==> (#[trigger] d[c])@.len() == d[0]@.len() }
pub proof fn il_same<'a, T: Sample + 'a>(s: Interleaved<'a, T>)
    requires s.ok(),
    ensures frames_of(s) == il_frames(s.data@, s.channels as int), 0 <= s.s_frames() <= s.data@.len(),
{
    s.facts();
    assert(s.data@.len() / (s.channels as nat) <= s.data@.len()) by (nonlinear_arith) requires s.channels > 0;
    let l = frames_of(s); let r = il_frames(s.data@, s.channels as int);
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == r[i] by { assert(l[i] =~= r[i]); }
    assert(l =~= r);
}
pub proof fn pl_same<'a, T: Sample + 'a>(s: Planar<'a, T>)
    requires s.ok(), s.start == 0, s.end == s.data@[0]@.len(),
    ensures frames_of(s) == pl_frames(s.data@),
{
    s.facts();
    let l = frames_of(s); let r = pl_frames(s.data@);
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] == r[i] by { assert(l[i] =~= r[i]); }
    assert(l =~= r);
}
/// what adding the frames q does; m is full scale
pub open spec fn added(o: &EbuR128, n: &EbuR128, m: f64, q: Seq<Seq<Smp>>) -> bool {
    &&& n.same_cfg(o) && n.wf()
    &&& n.st() == run(o.cfg(), o.st(), q)
    &&& q.len() == 0 ==> *n == *o
    &&& q.len() > 0 ==> call_peaks(o, &n.filter, m, q)
    &&& q.len() > 0 ==> forall|c: int| 0 <= c < o.channels ==> #[trigger] n.sample_peak@[c] == fmax(o.sample_peak@[c], n.filter.sample_peak@[c])
    &&& q.len() > 0 ==> forall|c: int| 0 <= c < o.channels ==> #[trigger] n.true_peak@[c] == fmax(o.true_peak@[c], n.filter.true_peak@[c])
}
/// what seeding with the frames q does
pub open spec fn seeds(o: &EbuR128, n: &EbuR128, q: Seq<Seq<Smp>>) -> bool {
    &&& n.wf() && *n == (EbuR128 { filter: n.filter, ..*o })
    &&& n.filter.sample_peak@ == o.filter.sample_peak@ && n.filter.true_peak@ == o.filter.true_peak@
    &&& n.st() == seeded(o.cfg(), o.st(), q)
}

@fn EbuR128::add_frames_i16(frames) -> r
@props C03 C04 C05 C06 C07 C08 C09 C17 C02
@spec
    requires old(self).wf(), old(self).room(frames@.len() as int),
    ensures
        r is Ok <==> frames@.len() % (old(self).channels as nat) == 0, //# C04 C16
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04
        r is Ok ==> added(old(self), final(self), <i16 as Sample>::s_amp(), il_frames(frames@, old(self).channels as int)), //# C03 C04 C05 C06 C07 C08 C09 C17
@entry
    let ghost chs = self.channels as int;
    proof {
        assert forall|s: Interleaved<i16>| #[trigger] s.ok() && s.data@ == frames@ && s.channels == chs implies frames_of(s) == il_frames(frames@, chs) && 0 <= s.s_frames() <= frames@.len() by { il_same(s); }
    }

@fn EbuR128::add_frames_planar_i16(frames) -> r
@props C03 C04 C05 C06 C07 C08 C09 C17 C02
@spec
    requires old(self).wf(), frames@.len() > 0 ==> old(self).room(frames@[0]@.len() as int),
    ensures
        r is Ok <==> frames@.len() == old(self).channels && pl_ok(frames@), //# C04 C16
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04
        r is Ok ==> added(old(self), final(self), <i16 as Sample>::s_amp(), pl_frames(frames@)), //# C03 C04 C05 C06 C07 C08 C09 C17
@entry
    proof {
        assert forall|s: Planar<i16>| #[trigger] s.ok() && s.data@ == frames@ && s.start == 0 && s.end == frames@[0]@.len() implies frames_of(s) == pl_frames(frames@) by { pl_same(s); }
    }

@fn EbuR128::seed_frames_i16(frames) -> r
@props C04 C17 C20 C02
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> frames@.len() % (old(self).channels as nat) == 0, //# C04 C16 C20
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04 C20
        r is Ok ==> seeds(old(self), final(self), il_frames(frames@, old(self).channels as int)), //# C04 C17 C20
@entry
    let ghost chs = self.channels as int;
    proof {
        assert forall|s: Interleaved<i16>| #[trigger] s.ok() && s.data@ == frames@ && s.channels == chs implies frames_of(s) == il_frames(frames@, chs) && 0 <= s.s_frames() <= frames@.len() by { il_same(s); }
    }

@fn EbuR128::seed_frames_planar_i16(frames) -> r
@props C04 C17 C20 C02
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> frames@.len() == old(self).channels && pl_ok(frames@), //# C04 C16 C20
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04 C20
        r is Ok ==> seeds(old(self), final(self), pl_frames(frames@)), //# C04 C17 C20
@entry
    proof {
        assert forall|s: Planar<i16>| #[trigger] s.ok() && s.data@ == frames@ && s.start == 0 && s.end == frames@[0]@.len() implies frames_of(s) == pl_frames(frames@) by { pl_same(s); }
    }

@fn EbuR128::add_frames_i32(frames) -> r
@props C03 C04 C05 C06 C07 C08 C09 C17 C02
@spec
    requires old(self).wf(), old(self).room(frames@.len() as int),
    ensures
        r is Ok <==> frames@.len() % (old(self).channels as nat) == 0, //# C04 C16
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04
        r is Ok ==> added(old(self), final(self), <i32 as Sample>::s_amp(), il_frames(frames@, old(self).channels as int)), //# C03 C04 C05 C06 C07 C08 C09 C17
@entry
    let ghost chs = self.channels as int;
    proof {
        assert forall|s: Interleaved<i32>| #[trigger] s.ok() && s.data@ == frames@ && s.channels == chs implies frames_of(s) == il_frames(frames@, chs) && 0 <= s.s_frames() <= frames@.len() by { il_same(s); }
    }

@fn EbuR128::add_frames_planar_i32(frames) -> r
@props C03 C04 C05 C06 C07 C08 C09 C17 C02
@spec
    requires old(self).wf(), frames@.len() > 0 ==> old(self).room(frames@[0]@.len() as int),
    ensures
        r is Ok <==> frames@.len() == old(self).channels && pl_ok(frames@), //# C04 C16
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04
        r is Ok ==> added(old(self), final(self), <i32 as Sample>::s_amp(), pl_frames(frames@)), //# C03 C04 C05 C06 C07 C08 C09 C17
@entry
    proof {
        assert forall|s: Planar<i32>| #[trigger] s.ok() && s.data@ == frames@ && s.start == 0 && s.end == frames@[0]@.len() implies frames_of(s) == pl_frames(frames@) by { pl_same(s); }
    }

@fn EbuR128::seed_frames_i32(frames) -> r
@props C04 C17 C20 C02
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> frames@.len() % (old(self).channels as nat) == 0, //# C04 C16 C20
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04 C20
        r is Ok ==> seeds(old(self), final(self), il_frames(frames@, old(self).channels as int)), //# C04 C17 C20
@entry
    let ghost chs = self.channels as int;
    proof {
        assert forall|s: Interleaved<i32>| #[trigger] s.ok() && s.data@ == frames@ && s.channels == chs implies frames_of(s) == il_frames(frames@, chs) && 0 <= s.s_frames() <= frames@.len() by { il_same(s); }
    }

@fn EbuR128::seed_frames_planar_i32(frames) -> r
@props C04 C17 C20 C02
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> frames@.len() == old(self).channels && pl_ok(frames@), //# C04 C16 C20
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04 C20
        r is Ok ==> seeds(old(self), final(self), pl_frames(frames@)), //# C04 C17 C20
@entry
    proof {
        assert forall|s: Planar<i32>| #[trigger] s.ok() && s.data@ == frames@ && s.start == 0 && s.end == frames@[0]@.len() implies frames_of(s) == pl_frames(frames@) by { pl_same(s); }
    }

@fn EbuR128::add_frames_f32(frames) -> r
@props C03 C04 C05 C06 C07 C08 C09 C17 C02
@spec
    requires old(self).wf(), old(self).room(frames@.len() as int),
    ensures
        r is Ok <==> frames@.len() % (old(self).channels as nat) == 0, //# C04 C16
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04
        r is Ok ==> added(old(self), final(self), <f32 as Sample>::s_amp(), il_frames(frames@, old(self).channels as int)), //# C03 C04 C05 C06 C07 C08 C09 C17
@entry
    let ghost chs = self.channels as int;
    proof {
        assert forall|s: Interleaved<f32>| #[trigger] s.ok() && s.data@ == frames@ && s.channels == chs implies frames_of(s) == il_frames(frames@, chs) && 0 <= s.s_frames() <= frames@.len() by { il_same(s); }
    }

@fn EbuR128::add_frames_planar_f32(frames) -> r
@props C03 C04 C05 C06 C07 C08 C09 C17 C02
@spec
    requires old(self).wf(), frames@.len() > 0 ==> old(self).room(frames@[0]@.len() as int),
    ensures
        r is Ok <==> frames@.len() == old(self).channels && pl_ok(frames@), //# C04 C16
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04
        r is Ok ==> added(old(self), final(self), <f32 as Sample>::s_amp(), pl_frames(frames@)), //# C03 C04 C05 C06 C07 C08 C09 C17
@entry
    proof {
        assert forall|s: Planar<f32>| #[trigger] s.ok() && s.data@ == frames@ && s.start == 0 && s.end == frames@[0]@.len() implies frames_of(s) == pl_frames(frames@) by { pl_same(s); }
    }

@fn EbuR128::seed_frames_f32(frames) -> r
@props C04 C17 C20 C02
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> frames@.len() % (old(self).channels as nat) == 0, //# C04 C16 C20
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04 C20
        r is Ok ==> seeds(old(self), final(self), il_frames(frames@, old(self).channels as int)), //# C04 C17 C20
@entry
    let ghost chs = self.channels as int;
    proof {
        assert forall|s: Interleaved<f32>| #[trigger] s.ok() && s.data@ == frames@ && s.channels == chs implies frames_of(s) == il_frames(frames@, chs) && 0 <= s.s_frames() <= frames@.len() by { il_same(s); }
    }

@fn EbuR128::seed_frames_planar_f32(frames) -> r
@props C04 C17 C20 C02
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> frames@.len() == old(self).channels && pl_ok(frames@), //# C04 C16 C20
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04 C20
        r is Ok ==> seeds(old(self), final(self), pl_frames(frames@)), //# C04 C17 C20
@entry
    proof {
        assert forall|s: Planar<f32>| #[trigger] s.ok() && s.data@ == frames@ && s.start == 0 && s.end == frames@[0]@.len() implies frames_of(s) == pl_frames(frames@) by { pl_same(s); }
    }

@fn EbuR128::add_frames_f64(frames) -> r
@props C03 C04 C05 C06 C07 C08 C09 C17 C02
@spec
    requires old(self).wf(), old(self).room(frames@.len() as int),
    ensures
        r is Ok <==> frames@.len() % (old(self).channels as nat) == 0, //# C04 C16
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04
        r is Ok ==> added(old(self), final(self), <f64 as Sample>::s_amp(), il_frames(frames@, old(self).channels as int)), //# C03 C04 C05 C06 C07 C08 C09 C17
@entry
    let ghost chs = self.channels as int;
    proof {
        assert forall|s: Interleaved<f64>| #[trigger] s.ok() && s.data@ == frames@ && s.channels == chs implies frames_of(s) == il_frames(frames@, chs) && 0 <= s.s_frames() <= frames@.len() by { il_same(s); }
    }

@fn EbuR128::add_frames_planar_f64(frames) -> r
@props C03 C04 C05 C06 C07 C08 C09 C17 C02
@spec
    requires old(self).wf(), frames@.len() > 0 ==> old(self).room(frames@[0]@.len() as int),
    ensures
        r is Ok <==> frames@.len() == old(self).channels && pl_ok(frames@), //# C04 C16
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04
        r is Ok ==> added(old(self), final(self), <f64 as Sample>::s_amp(), pl_frames(frames@)), //# C03 C04 C05 C06 C07 C08 C09 C17
@entry
    proof {
        assert forall|s: Planar<f64>| #[trigger] s.ok() && s.data@ == frames@ && s.start == 0 && s.end == frames@[0]@.len() implies frames_of(s) == pl_frames(frames@) by { pl_same(s); }
    }

@fn EbuR128::seed_frames_f64(frames) -> r
@props C04 C17 C20 C02
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> frames@.len() % (old(self).channels as nat) == 0, //# C04 C16 C20
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04 C20
        r is Ok ==> seeds(old(self), final(self), il_frames(frames@, old(self).channels as int)), //# C04 C17 C20
@entry
    let ghost chs = self.channels as int;
    proof {
        assert forall|s: Interleaved<f64>| #[trigger] s.ok() && s.data@ == frames@ && s.channels == chs implies frames_of(s) == il_frames(frames@, chs) && 0 <= s.s_frames() <= frames@.len() by { il_same(s); }
    }

@fn EbuR128::seed_frames_planar_f64(frames) -> r
@props C04 C17 C20 C02
@spec
    requires old(self).wf(),
    ensures
        r is Ok <==> frames@.len() == old(self).channels && pl_ok(frames@), //# C04 C16 C20
        r is Err ==> r == Err::<(), Error>(Error::NoMem) && *final(self) == *old(self), //# C01 C04 C20
        r is Ok ==> seeds(old(self), final(self), pl_frames(frames@)), //# C04 C17 C20
@entry
    proof {
        assert forall|s: Planar<f64>| #[trigger] s.ok() && s.data@ == frames@ && s.start == 0 && s.end == frames@[0]@.len() implies frames_of(s) == pl_frames(frames@) by { pl_same(s); }
    }
