@module capi capi.rs
@raw
// The C interface. Pointers are modelled by what they point to: a handle is the State it owns, an output parameter the
// place it designates, an array a CPtr (null, or the elements behind it). See DESIGN.md.
use crate::fl::*;
use crate::pre::*;
use crate::utils::*;
use crate::filter::*;
use crate::history::*;
use crate::engine::*;
use crate::ebur128;
use crate::ebur128::*;
broadcast use crate::fl::fl;
@item State
@raw
/// Box::into_raw: the handle may be null, the pointer to the analyzer in it never is
pub trait VxOwn: Sized {
    type P;
    spec fn s_raw(b: Box<Self>) -> Self::P;
    fn vx_raw(b: Box<Self>) -> (r: Self::P) ensures r == Self::s_raw(b);
}
impl VxOwn for EbuR128 {
    type P = Box<EbuR128>;
    open spec fn s_raw(b: Box<Self>) -> Box<EbuR128> { b }
    fn vx_raw(b: Box<Self>) -> (r: Box<EbuR128>) { b }
}
impl VxOwn for State {
    type P = Option<Box<State>>;
    open spec fn s_raw(b: Box<Self>) -> Option<Box<State>> { Some(b) }
    fn vx_raw(b: Box<Self>) -> (r: Option<Box<State>>) { Some(b) }
}
pub fn vx_into_raw<T: VxOwn>(b: Box<T>) -> (r: T::P) ensures r == T::s_raw(b) { T::vx_raw(b) }
/// a C array: null, or some elements
pub struct CPtr<'a, T> { pub null: bool, pub data: &'a [T] }
#[verifier::external_body]
pub fn vx_from_raw_parts<'a, T>(p: CPtr<'a, T>, len: usize) -> (r: &'a [T])
    requires !p.null, len <= p.data@.len(),
    ensures r@ == p.data@.subrange(0, len as int),
{ unimplemented!() }
/// transmute of an integer to the channel with that discriminant
#[verifier::external_body]
pub fn vx_transmute_i32_Channel(x: i32) -> (r: Channel)
    requires 0 <= x <= (Channel::Bm045 as int),
    ensures r as int == x,
{ unimplemented!() }
/// the error codes of the C library
pub open spec fn code(e: Error) -> int { match e { Error::NoMem => 1, Error::InvalidMode => 2, Error::InvalidChannelIndex => 3 } }
impl Error {
    /// Into is the From below
    pub fn into(self) -> (r: i32)
        ensures r == code(self),
    { self.vx_from() }
}
impl State {
    /// the public fields are those of the analyzer behind the handle
    pub open spec fn ok(&self) -> bool {
        self.internal.wf() && self.channels == self.internal.channels && self.samplerate == self.internal.rate
    }
    pub open spec fn same(&self, o: &State) -> bool {
        self.mode == o.mode && self.channels == o.channels && self.samplerate == o.samplerate && *self.internal == *o.internal
    }
    /// only the analyzer may have changed
    pub open spec fn keeps(&self, o: &State) -> bool {
        self.mode == o.mode && self.channels == o.channels && self.samplerate == o.samplerate && self.ok()
    }
}
/// what a query of the C API returns and writes, for what the query of the Rust API gave
pub open spec fn gives(r: Result<f64, Error>, ret: i32, out0: f64, out: f64) -> bool {
    match r { Ok(v) => ret == 0 && out == v, Err(e) => ret == code(e) && out == out0 }
}
/// numbers of the channel positions in ebur128.h
pub proof fn channel_numbers()
    ensures Channel::Unused as int == 0, Channel::Left as int == 1, Channel::Right as int == 2, Channel::Center as int == 3, Channel::LeftSurround as int == 4, Channel::RightSurround as int == 5,
        Channel::DualMono as int == 6, Channel::MpSC as int == 7, Channel::MmSC as int == 8, Channel::Mp060 as int == 9, Channel::Mm060 as int == 10, Channel::Mp090 as int == 11, Channel::Mm090 as int == 12,
        Channel::Mp135 as int == 13, Channel::Mm135 as int == 14, Channel::Mp180 as int == 15, Channel::Up000 as int == 16, Channel::Up030 as int == 17, Channel::Um030 as int == 18, Channel::Up045 as int == 19,
        Channel::Um045 as int == 20, Channel::Up090 as int == 21, Channel::Um090 as int == 22, Channel::Up110 as int == 23, Channel::Um110 as int == 24, Channel::Up135 as int == 25, Channel::Um135 as int == 26,
        Channel::Up180 as int == 27, Channel::Tp000 as int == 28, Channel::Bp000 as int == 29, Channel::Bp045 as int == 30, Channel::Bm045 as int == 31,
{}

@fn i32.From::from(v) -> r
@props C18
@sig
pub fn vx_from(self) -> (r: i32)
@implhdr impl Error
@spec
    ensures r == code(self), //# C18
@entry
    let v = self;

@fn slice_from_array(array, len) -> r
@props C18 C02
@sig
pub fn slice_from_array<'a, T>(array: CPtr<'a, T>, len: usize) -> (r: &'a [T])
@subst std :: slice :: from_raw_parts (array , len) =>> vx_from_raw_parts(array, len)
@subst std :: slice :: from_raw_parts(array, len) =>> vx_from_raw_parts(array, len)
@spec
    requires len > 0 ==> !array.null && len <= array.data@.len(),
    ensures r@ =~= array.data@.subrange(0, len as int), //# C18

@fn ebur128_get_version(major, minor, patch)
@props C18
@sig
pub fn ebur128_get_version(major: &mut i32, minor: &mut i32, patch: &mut i32)
@spec
    ensures *final(major) == 1, *final(minor) == 2, *final(patch) == 6, //# C18

@fn ebur128_init(channels, samplerate, mode) -> r
@props C18
@sig
pub fn ebur128_init(channels: u32, samplerate: std::os::raw::c_ulong, mode: i32) -> (r: Option<Box<State>>)
@spec
    ensures
        r is Some <==> channels_ok(channels as int) && rate_ok(samplerate as int) && has_m(s_mode(mode)), //# C18
        r is Some ==> r->Some_0.mode == mode && r->Some_0.ok() && r->Some_0.channels == channels && r->Some_0.samplerate == samplerate, //# C18
        r is Some ==> r->Some_0.internal.mode == s_mode(mode) && r->Some_0.internal.window == least_ms(s_mode(mode)) && r->Some_0.internal.history == usize::MAX, //# C18
        r is Some ==> r->Some_0.internal.channel_map@ == s_default_map(channels as int), //# C18
        r is Some ==> r->Some_0.internal.st() == fresh(r->Some_0.internal.cfg(), hv_new(has_hist(s_mode(mode)), usize::MAX as int / 100), hv_new(has_hist(s_mode(mode)), usize::MAX as int / 3000)), //# C18
@raw
pub open spec fn s_mode(mode: i32) -> Mode { Mode { bits: ((mode as int % 256) as u8) & 127u8 } }

@raw
// ---- ebur128_destroy: here the pointers themselves matter, so there is a heap of what they own
pub struct HPtr { pub addr: usize }
pub struct EPtr { pub addr: usize }
impl HPtr {
    pub fn is_null(&self) -> (r: bool) ensures r == (self.addr == 0) { self.addr == 0 }
}
impl EPtr {
    pub fn is_null(&self) -> (r: bool) ensures r == (self.addr == 0) { self.addr == 0 }
}
impl Clone for HPtr { fn clone(&self) -> (r: HPtr) ensures r == *self { HPtr { addr: self.addr } } }
impl Copy for HPtr {}
impl Clone for EPtr { fn clone(&self) -> (r: EPtr) ensures r == *self { EPtr { addr: self.addr } } }
impl Copy for EPtr {}
/// a State behind a handle, with the pointer it holds
pub struct RState { pub mode: i32, pub channels: u32, pub samplerate: std::os::raw::c_ulong, pub internal: EPtr }
/// what has been turned into raw pointers and not been reclaimed
#[verifier::external_body]
pub struct Heap { x: usize }
impl Heap {
    pub uninterp spec fn states(&self) -> Map<usize, RState>;
    pub uninterp spec fn engines(&self) -> Set<usize>;
}
pub trait VxRaw: Sized {
    type T;
    spec fn owned(self, h: &Heap) -> bool;
    spec fn taken(self, h0: &Heap, h1: &Heap, r: Self::T) -> bool;
    fn vx_take(self, h: &mut Heap) -> (r: Self::T)
        requires self.owned(old(h)),
        ensures self.taken(old(h), final(h), r);
}
impl VxRaw for HPtr {
    type T = RState;
    open spec fn owned(self, h: &Heap) -> bool { h.states().dom().contains(self.addr) }
    open spec fn taken(self, h0: &Heap, h1: &Heap, r: RState) -> bool { r == h0.states()[self.addr] && h1.states() == h0.states().remove(self.addr) && h1.engines() == h0.engines() }
    #[verifier::external_body]
    fn vx_take(self, h: &mut Heap) -> (r: RState) { unimplemented!() }
}
impl VxRaw for EPtr {
    type T = ();
    open spec fn owned(self, h: &Heap) -> bool { h.engines().contains(self.addr) }
    open spec fn taken(self, h0: &Heap, h1: &Heap, r: ()) -> bool { h1.states() == h0.states() && h1.engines() == h0.engines().remove(self.addr) }
    #[verifier::external_body]
    fn vx_take(self, h: &mut Heap) -> (r: ()) { unimplemented!() }
}
/// Box::from_raw: the box is dropped at the end of the scope at the latest
pub fn vx_reclaim<P: VxRaw>(heap: &mut Heap, p: P) -> (r: P::T)
    requires p.owned(old(heap)),
    ensures p.taken(old(heap), final(heap), r),
{ p.vx_take(heap) }
pub fn vx_at(null: bool, p: &HPtr) -> (r: HPtr)
    requires !null,
    ensures r == *p,
{ *p }
pub fn vx_drop<T>(x: T) {}
pub fn vx_put(null: bool, p: &mut HPtr, v: HPtr)
    requires !null,
    ensures *final(p) == v,
{ *p = v; }

@fn ebur128_destroy(state)
@props C18
@sig
pub fn ebur128_destroy(state_null: bool, state: &mut HPtr, heap: &mut Heap)
@subst Box :: from_raw( =>> vx_reclaim(heap, 
@subst (heap,* state) =>> (heap, vx_at(state_null, &*state))
@subst drop( =>> vx_drop(
@subst state.is_null() =>> state_null
@subst = * state; =>> = vx_at(state_null, &*state);
@subst (* state) =>> vx_at(state_null, &*state)
@subst * state = None =>> vx_put(state_null, &mut *state, HPtr { addr: 0 })
@spec
    requires
        !state_null && old(state).addr != 0 ==> old(heap).states().dom().contains(old(state).addr) && old(heap).engines().contains(old(heap).states()[old(state).addr].internal.addr),
    ensures
        state_null || old(state).addr == 0 ==> final(heap).states() == old(heap).states() && final(heap).engines() == old(heap).engines() && *final(state) == *old(state), //# C18
        !state_null && old(state).addr != 0 ==> final(state).addr == 0, //# C18
        !state_null && old(state).addr != 0 ==> final(heap).states() == old(heap).states().remove(old(state).addr), //# C18
        !state_null && old(state).addr != 0 ==> final(heap).engines() == old(heap).engines().remove(old(heap).states()[old(state).addr].internal.addr), //# C18

@fn ebur128_set_channel(state, channel_number, value) -> r
@props C18 C02
@sig
pub fn ebur128_set_channel(state: &mut State, channel_number: u32, value: i32) -> (r: i32)
@spec
    requires old(state).ok(),
    ensures
        final(state).keeps(old(state)), //# C18
        r == 0 <==> channel_number < old(state).channels && 0 <= value <= 31 && !(value == 6 && old(state).channels != 1), //# C18
        r != 0 ==> r == 3 && final(state).same(old(state)), //# C18
        r == 0 ==> *final(state).internal == (EbuR128 { channel_map: final(state).internal.channel_map, ..*old(state).internal }), //# C18
        r == 0 ==> final(state).internal.channel_map@.len() == old(state).channels && forall|c: int| 0 <= c < old(state).channels ==> #[trigger] final(state).internal.channel_map@[c] as int == if c == channel_number { value as int } else { old(state).internal.channel_map@[c] as int }, //# C18
@entry
    proof { channel_numbers(); }

@fn ebur128_change_parameters(state, channels, samplerate) -> r
@props C18 C02
@sig
pub fn ebur128_change_parameters(state: &mut State, channels: u32, samplerate: std::os::raw::c_ulong) -> (r: i32)
@spec
    requires old(state).ok(),
    ensures
        final(state).ok() && final(state).mode == old(state).mode, //# C18
        r == 4 <==> channels == old(state).channels && samplerate == old(state).samplerate, //# C18
        r == 0 <==> r != 4 && channels_ok(channels as int) && rate_ok(samplerate as int), //# C18
        r != 0 ==> (r == 4 || r == 1) && final(state).same(old(state)), //# C18
        r == 0 ==> final(state).channels == channels && final(state).samplerate == samplerate, //# C18
        r == 0 ==> changed(&*old(state).internal, &*final(state).internal, channels as int), //# C18
@raw
/// what change_parameters to other values does
pub open spec fn changed(o: &EbuR128, n: &EbuR128, channels: int) -> bool {
    &&& n.mode == o.mode && n.window == o.window && n.history == o.history
    &&& n.channel_map@ == if channels == o.channels { o.channel_map@ } else { s_default_map(channels) }
    &&& n.st() == fresh(n.cfg(), o.block_energy_history.hv(), o.short_term_block_energy_history.hv())
    &&& channels == o.channels ==> n.sample_peak@ == o.sample_peak@ && n.true_peak@ == o.true_peak@
    &&& channels != o.channels ==> n.sample_peak@ == zeros64(channels) && n.true_peak@ == zeros64(channels)
    &&& n.filter.sample_peak@ == zeros64(channels) && n.filter.true_peak@ == zeros64(channels)
}

@fn ebur128_set_max_window(state, window) -> r
@props C18 C02
@sig
pub fn ebur128_set_max_window(state: &mut State, window: std::os::raw::c_ulong) -> (r: i32)
@spec
    requires old(state).ok(),
    ensures
        final(state).keeps(old(state)), //# C18
        window > u32::MAX ==> r == 1, //# C18
        window <= u32::MAX ==> r == (if window == old(state).internal.window { 4i32 } else { 0i32 }), //# C18
        r != 0 ==> final(state).same(old(state)), //# C18
        r == 0 ==> final(state).internal.window == at_least(old(state).internal.mode, window as int), //# C18
        r == 0 ==> *final(state).internal == (EbuR128 { window: final(state).internal.window, audio_data: final(state).internal.audio_data, needed_frames: final(state).internal.needed_frames, audio_data_index: final(state).internal.audio_data_index, short_term_frame_counter: final(state).internal.short_term_frame_counter, ..*old(state).internal }), //# C18
        r == 0 && final(state).internal.window == old(state).internal.window ==> *final(state).internal == *old(state).internal, //# C18
        r == 0 && final(state).internal.window != old(state).internal.window ==> final(state).internal.st() == (St { fs: old(state).internal.st().fs, th: old(state).internal.st().th, ..fresh(final(state).internal.cfg(), old(state).internal.block_energy_history.hv(), old(state).internal.short_term_block_energy_history.hv()) }), //# C18

@fn ebur128_set_max_history(state, history) -> r
@props C18 C02
@sig
pub fn ebur128_set_max_history(state: &mut State, history: std::os::raw::c_ulong) -> (r: i32)
@spec
    requires old(state).ok(),
    ensures
        final(state).keeps(old(state)), //# C18
        history > u32::MAX ==> r == 1, //# C18
        history <= u32::MAX ==> r == (if history == old(state).internal.history { 4i32 } else { 0i32 }), //# C18
        r != 0 ==> final(state).same(old(state)), //# C18
        r == 0 ==> final(state).internal.history == at_least(old(state).internal.mode, history as int), //# C18
        r == 0 ==> *final(state).internal == (EbuR128 { history: final(state).internal.history, block_energy_history: final(state).internal.block_energy_history, short_term_block_energy_history: final(state).internal.short_term_block_energy_history, ..*old(state).internal }), //# C18
        r == 0 && final(state).internal.history != old(state).internal.history ==> final(state).internal.block_energy_history.hv() == hv_set_max(old(state).internal.block_energy_history.hv(), final(state).internal.history as int / 100), //# C18
        r == 0 && final(state).internal.history != old(state).internal.history ==> final(state).internal.short_term_block_energy_history.hv() == hv_set_max(old(state).internal.short_term_block_energy_history.hv(), final(state).internal.history as int / 3000), //# C18
        r == 0 && final(state).internal.history == old(state).internal.history ==> *final(state).internal == *old(state).internal, //# C18

@fn ebur128_add_frames_short(state, src, frames) -> r
@props C18 C02
@sig
pub fn ebur128_add_frames_short<'a>(state: &mut State, src: CPtr<'a, i16>, frames: usize) -> (r: i32)
@spec
    requires old(state).ok(), frames * old(state).channels <= usize::MAX ==> old(state).internal.room(frames * old(state).channels),
        frames > 0 ==> !src.null && (frames * old(state).channels <= usize::MAX ==> frames * old(state).channels <= src.data@.len()),
    ensures
        final(state).keeps(old(state)), //# C18
        r == 0 <==> frames * old(state).channels <= usize::MAX, //# C18
        r != 0 ==> r == 1 && final(state).same(old(state)), //# C18
        r == 0 ==> added(&*old(state).internal, &*final(state).internal, <i16 as Sample>::s_amp(), il_frames(src.data@.subrange(0, frames * old(state).channels), old(state).channels as int)), //# C18
@entry
    proof { frames_total(frames as int, state.channels as int); }

@fn ebur128_add_frames_int(state, src, frames) -> r
@props C18 C02
@sig
pub fn ebur128_add_frames_int<'a>(state: &mut State, src: CPtr<'a, i32>, frames: usize) -> (r: i32)
@spec
    requires old(state).ok(), frames * old(state).channels <= usize::MAX ==> old(state).internal.room(frames * old(state).channels),
        frames > 0 ==> !src.null && (frames * old(state).channels <= usize::MAX ==> frames * old(state).channels <= src.data@.len()),
    ensures
        final(state).keeps(old(state)), //# C18
        r == 0 <==> frames * old(state).channels <= usize::MAX, //# C18
        r != 0 ==> r == 1 && final(state).same(old(state)), //# C18
        r == 0 ==> added(&*old(state).internal, &*final(state).internal, <i32 as Sample>::s_amp(), il_frames(src.data@.subrange(0, frames * old(state).channels), old(state).channels as int)), //# C18
@entry
    proof { frames_total(frames as int, state.channels as int); }

@fn ebur128_add_frames_float(state, src, frames) -> r
@props C18 C02
@sig
pub fn ebur128_add_frames_float<'a>(state: &mut State, src: CPtr<'a, f32>, frames: usize) -> (r: i32)
@spec
    requires old(state).ok(), frames * old(state).channels <= usize::MAX ==> old(state).internal.room(frames * old(state).channels),
        frames > 0 ==> !src.null && (frames * old(state).channels <= usize::MAX ==> frames * old(state).channels <= src.data@.len()),
    ensures
        final(state).keeps(old(state)), //# C18
        r == 0 <==> frames * old(state).channels <= usize::MAX, //# C18
        r != 0 ==> r == 1 && final(state).same(old(state)), //# C18
        r == 0 ==> added(&*old(state).internal, &*final(state).internal, <f32 as Sample>::s_amp(), il_frames(src.data@.subrange(0, frames * old(state).channels), old(state).channels as int)), //# C18
@entry
    proof { frames_total(frames as int, state.channels as int); }

@fn ebur128_add_frames_double(state, src, frames) -> r
@props C18 C02
@sig
pub fn ebur128_add_frames_double<'a>(state: &mut State, src: CPtr<'a, f64>, frames: usize) -> (r: i32)
@spec
    requires old(state).ok(), frames * old(state).channels <= usize::MAX ==> old(state).internal.room(frames * old(state).channels),
        frames > 0 ==> !src.null && (frames * old(state).channels <= usize::MAX ==> frames * old(state).channels <= src.data@.len()),
    ensures
        final(state).keeps(old(state)), //# C18
        r == 0 <==> frames * old(state).channels <= usize::MAX, //# C18
        r != 0 ==> r == 1 && final(state).same(old(state)), //# C18
        r == 0 ==> added(&*old(state).internal, &*final(state).internal, <f64 as Sample>::s_amp(), il_frames(src.data@.subrange(0, frames * old(state).channels), old(state).channels as int)), //# C18
@entry
    proof { frames_total(frames as int, state.channels as int); }

@raw
pub proof fn frames_total(n: int, c: int)
    requires n >= 0, c > 0,
    ensures (n * c) % c == 0, (n * c) / c == n, n * c >= 0, n * c > 0 <==> n > 0,
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n, c);
    vstd::arithmetic::div_mod::lemma_div_by_multiple(n, c);
    assert(n * c >= 0 && (n * c > 0 <==> n > 0)) by (nonlinear_arith) requires n >= 0, c > 0;
}

@fn ebur128_loudness_global(state, out) -> r
@props C18 C02
@sig
pub fn ebur128_loudness_global(state: &State, out: &mut f64) -> (r: i32)
@spec
    requires state.ok(), state.internal.room(0),
    ensures gives(if has_i(state.internal.mode) { Ok(integrated(seq![&state.internal.block_energy_history])) } else { Err(Error::InvalidMode) }, r, *old(out), *final(out)), //# C18

@fn ebur128_loudness_momentary(state, out) -> r
@props C18 C02
@sig
pub fn ebur128_loudness_momentary(state: &State, out: &mut f64) -> (r: i32)
@spec
    requires state.ok(), 
    ensures gives(s_window(&*state.internal, state.internal.samples_in_100ms * 4), r, *old(out), *final(out)), //# C18

@fn ebur128_loudness_shortterm(state, out) -> r
@props C18 C02
@sig
pub fn ebur128_loudness_shortterm(state: &State, out: &mut f64) -> (r: i32)
@spec
    requires state.ok(), 
    ensures gives(s_window(&*state.internal, state.internal.samples_in_100ms * 30), r, *old(out), *final(out)), //# C18

@fn ebur128_loudness_window(state, window, out) -> r
@props C18 C02
@sig
pub fn ebur128_loudness_window(state: &State, window: std::os::raw::c_ulong, out: &mut f64) -> (r: i32)
@spec
    requires state.ok(), 
    ensures window > u32::MAX ==> gives(Err(Error::NoMem), r, *old(out), *final(out)), //# C18
        window <= u32::MAX ==> gives(if state.internal.rate * window <= usize::MAX { s_window(&*state.internal, state.internal.rate * window / 1000) } else { Err(Error::InvalidMode) }, r, *old(out), *final(out)), //# C18

@fn ebur128_loudness_range(state, out) -> r
@props C18 C02
@sig
pub fn ebur128_loudness_range(state: &State, out: &mut f64) -> (r: i32)
@spec
    requires state.ok(), state.internal.room(0),
    ensures !has_lra(state.internal.mode) ==> gives(Err(Error::InvalidMode), r, *old(out), *final(out)), //# C18
        has_lra(state.internal.mode) ==> r == 0 && lra_is(seq![&state.internal.short_term_block_energy_history], Ok(*final(out))), //# C18

@fn ebur128_sample_peak(state, channel_number, out) -> r
@props C18 C02
@sig
pub fn ebur128_sample_peak(state: &State, channel_number: u32, out: &mut f64) -> (r: i32)
@spec
    requires state.ok(), 
    ensures gives(if !has_sp(state.internal.mode) { Err(Error::InvalidMode) } else if channel_number >= state.channels { Err(Error::InvalidChannelIndex) } else { Ok(state.internal.sample_peak@[channel_number as int]) }, r, *old(out), *final(out)), //# C18

@fn ebur128_prev_sample_peak(state, channel_number, out) -> r
@props C18 C02
@sig
pub fn ebur128_prev_sample_peak(state: &State, channel_number: u32, out: &mut f64) -> (r: i32)
@spec
    requires state.ok(), 
    ensures gives(if !has_sp(state.internal.mode) { Err(Error::InvalidMode) } else if channel_number >= state.channels { Err(Error::InvalidChannelIndex) } else { Ok(state.internal.filter.sample_peak@[channel_number as int]) }, r, *old(out), *final(out)), //# C18

@fn ebur128_true_peak(state, channel_number, out) -> r
@props C18 C02
@sig
pub fn ebur128_true_peak(state: &State, channel_number: u32, out: &mut f64) -> (r: i32)
@spec
    requires state.ok(), 
    ensures gives(if !has_tp(state.internal.mode) { Err(Error::InvalidMode) } else if channel_number >= state.channels { Err(Error::InvalidChannelIndex) } else { Ok(fmax(state.internal.true_peak@[channel_number as int], state.internal.sample_peak@[channel_number as int])) }, r, *old(out), *final(out)), //# C18

@fn ebur128_prev_true_peak(state, channel_number, out) -> r
@props C18 C02
@sig
pub fn ebur128_prev_true_peak(state: &State, channel_number: u32, out: &mut f64) -> (r: i32)
@spec
    requires state.ok(), 
    ensures gives(if !has_tp(state.internal.mode) { Err(Error::InvalidMode) } else if channel_number >= state.channels { Err(Error::InvalidChannelIndex) } else { Ok(fmax(state.internal.filter.true_peak@[channel_number as int], state.internal.filter.sample_peak@[channel_number as int])) }, r, *old(out), *final(out)), //# C18

@fn ebur128_relative_threshold(state, out) -> r
@props C18 C02
@sig
pub fn ebur128_relative_threshold(state: &State, out: &mut f64) -> (r: i32)
@spec
    requires state.ok(), state.internal.room(0),
    ensures gives(if has_i(state.internal.mode) { Ok(rel_threshold_loudness(&state.internal.block_energy_history)) } else { Err(Error::InvalidMode) }, r, *old(out), *final(out)), //# C18

@fn ebur128_loudness_global_multiple(state, size, out) -> r
@props C18 C02
@attr #[verifier::spinoff_prover]
@sig
pub fn ebur128_loudness_global_multiple<'a>(state: CPtr<'a, &'a State>, size: usize, out: &mut f64) -> (r: i32)
@spec
    requires size > 0 ==> !state.null && size <= state.data@.len(),
        forall|i: int| 0 <= i < size ==> (#[trigger] state.data@[i]).ok(), all_blocks(blocks_of(behind(state.data@.subrange(0, size as int)))) <= u64::MAX,
    ensures
        (exists|i: int| 0 <= i < size && !has_i((#[trigger] state.data@[i]).internal.mode)) ==> gives(Err(Error::InvalidMode), r, *old(out), *final(out)), //# C18
        (forall|i: int| 0 <= i < size ==> has_i((#[trigger] state.data@[i]).internal.mode)) ==> gives(Ok(integrated(blocks_of(behind(state.data@.subrange(0, size as int))))), r, *old(out), *final(out)), //# C18
@ty vx_out0 Vec<&'a EbuR128>
@loop 0
    invariant
        vx_i0 <= vx_n0, vx_n0 == size, size > 0 ==> !state.null && size <= state.data@.len(),
        vx_out0@ =~= behind(state.data@.subrange(0, vx_i0 as int)),
    decreases vx_n0 - vx_i0
@post 0
    assert(forall|i: int| 0 <= i < size ==> #[trigger] state.data@[i].internal.mode == vx_out0@[i].mode);

@fn ebur128_loudness_range_multiple(state, size, out) -> r
@props C18 C02
@attr #[verifier::spinoff_prover]
@sig
pub fn ebur128_loudness_range_multiple<'a>(state: CPtr<'a, &'a State>, size: usize, out: &mut f64) -> (r: i32)
@spec
    requires size > 0 ==> !state.null && size <= state.data@.len(),
        forall|i: int| 0 <= i < size ==> (#[trigger] state.data@[i]).ok(), all_blocks(shorts_of(behind(state.data@.subrange(0, size as int)))) < 0x8000_0000_0000_0000,
    ensures
        (exists|i: int| 0 <= i < size && !has_lra((#[trigger] state.data@[i]).internal.mode)) ==> gives(Err(Error::InvalidMode), r, *old(out), *final(out)), //# C18
        (forall|i: int| 0 <= i < size ==> has_lra((#[trigger] state.data@[i]).internal.mode)) ==> exists|v: Result<f64, Error>| #[trigger] lra_is(shorts_of(behind(state.data@.subrange(0, size as int))), v) && gives(v, r, *old(out), *final(out)), //# C18
@ty vx_out0 Vec<&'a EbuR128>
@loop 0
    invariant
        vx_i0 <= vx_n0, vx_n0 == size, size > 0 ==> !state.null && size <= state.data@.len(),
        vx_out0@ =~= behind(state.data@.subrange(0, vx_i0 as int)),
    decreases vx_n0 - vx_i0
@post 0
    assert(forall|i: int| 0 <= i < size ==> #[trigger] state.data@[i].internal.mode == vx_out0@[i].mode);

@raw
pub open spec fn behind(s: Seq<&State>) -> Seq<&EbuR128> { Seq::new(s.len(), |i: int| &*s[i].internal) }
