@module fl
@raw
// IEEE-754 machine arithmetic as the verifier's own float theory: these axioms only state that the executable operator
// computes the specification operator of the same name (and always may be called).
global size_of usize == 8;
use vstd::float::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
// The specification operators are opaque (revealed only inside the lemmas that need float theory), so that proofs about
// the code stay equational.
#[verifier::opaque] pub open spec fn fadd(a: f64, b: f64) -> f64 { a + b }
#[verifier::opaque] pub open spec fn fsub(a: f64, b: f64) -> f64 { a - b }
#[verifier::opaque] pub open spec fn fmul(a: f64, b: f64) -> f64 { a * b }
#[verifier::opaque] pub open spec fn fdiv(a: f64, b: f64) -> f64 { a / b }
#[verifier::opaque] pub open spec fn flt(a: f64, b: f64) -> bool { a < b }
#[verifier::opaque] pub open spec fn fle(a: f64, b: f64) -> bool { a <= b }
#[verifier::opaque] pub open spec fn fgt(a: f64, b: f64) -> bool { a > b }
#[verifier::opaque] pub open spec fn fge(a: f64, b: f64) -> bool { a >= b }
pub broadcast axiom fn ax_add_req(a: f64, b: f64) ensures #[trigger] AddSpec::add_req(a, b);
pub broadcast axiom fn ax_add(a: f64, b: f64, o: f64) requires #[trigger] add_ensures(a, b, o) ensures o == fadd(a, b);
pub broadcast axiom fn ax_sub_req(a: f64, b: f64) ensures #[trigger] SubSpec::sub_req(a, b);
pub broadcast axiom fn ax_sub(a: f64, b: f64, o: f64) requires #[trigger] sub_ensures(a, b, o) ensures o == fsub(a, b);
pub broadcast axiom fn ax_mul_req(a: f64, b: f64) ensures #[trigger] MulSpec::mul_req(a, b);
pub broadcast axiom fn ax_mul(a: f64, b: f64, o: f64) requires #[trigger] mul_ensures(a, b, o) ensures o == fmul(a, b);
pub broadcast axiom fn ax_div_req(a: f64, b: f64) ensures #[trigger] DivSpec::div_req(a, b);
pub broadcast axiom fn ax_div(a: f64, b: f64, o: f64) requires #[trigger] div_ensures(a, b, o) ensures o == fdiv(a, b);
pub broadcast axiom fn ax_lt(a: f64, b: f64, o: bool) requires #[trigger] lt_ensures(a, b, o) ensures o == flt(a, b);
pub broadcast axiom fn ax_le(a: f64, b: f64, o: bool) requires #[trigger] le_ensures(a, b, o) ensures o == fle(a, b);
pub broadcast axiom fn ax_gt(a: f64, b: f64, o: bool) requires #[trigger] gt_ensures(a, b, o) ensures o == fgt(a, b);
pub broadcast axiom fn ax_ge(a: f64, b: f64, o: bool) requires #[trigger] ge_ensures(a, b, o) ensures o == fge(a, b);
#[verifier::opaque] pub open spec fn fadd32(a: f32, b: f32) -> f32 { a + b }
#[verifier::opaque] pub open spec fn fsub32(a: f32, b: f32) -> f32 { a - b }
#[verifier::opaque] pub open spec fn fmul32(a: f32, b: f32) -> f32 { a * b }
#[verifier::opaque] pub open spec fn fdiv32(a: f32, b: f32) -> f32 { a / b }
/// a * b + c, rounded once
pub uninterp spec fn ffma32(a: f32, b: f32, c: f32) -> f32;
/// one step of a sum of products: acc + x * c (with the feature `precision-true-peak`: x * c + acc, rounded once)
#[verifier::opaque] pub open spec fn mac32(acc: f32, x: f32, c: f32) -> f32 { fadd32(acc, fmul32(x, c)) }
#[verifier::opaque] pub open spec fn flt32(a: f32, b: f32) -> bool { a < b }
#[verifier::opaque] pub open spec fn fle32(a: f32, b: f32) -> bool { a <= b }
#[verifier::opaque] pub open spec fn fgt32(a: f32, b: f32) -> bool { a > b }
#[verifier::opaque] pub open spec fn fge32(a: f32, b: f32) -> bool { a >= b }
pub broadcast axiom fn ax32_add_req(a: f32, b: f32) ensures #[trigger] AddSpec::add_req(a, b);
pub broadcast axiom fn ax32_add(a: f32, b: f32, o: f32) requires #[trigger] add_ensures(a, b, o) ensures o == fadd32(a, b);
pub broadcast axiom fn ax32_sub_req(a: f32, b: f32) ensures #[trigger] SubSpec::sub_req(a, b);
pub broadcast axiom fn ax32_sub(a: f32, b: f32, o: f32) requires #[trigger] sub_ensures(a, b, o) ensures o == fsub32(a, b);
pub broadcast axiom fn ax32_mul_req(a: f32, b: f32) ensures #[trigger] MulSpec::mul_req(a, b);
pub broadcast axiom fn ax32_mul(a: f32, b: f32, o: f32) requires #[trigger] mul_ensures(a, b, o) ensures o == fmul32(a, b);
pub broadcast axiom fn ax32_div_req(a: f32, b: f32) ensures #[trigger] DivSpec::div_req(a, b);
pub broadcast axiom fn ax32_div(a: f32, b: f32, o: f32) requires #[trigger] div_ensures(a, b, o) ensures o == fdiv32(a, b);
pub broadcast axiom fn ax32_lt(a: f32, b: f32, o: bool) requires #[trigger] lt_ensures(a, b, o) ensures o == flt32(a, b);
pub broadcast axiom fn ax32_le(a: f32, b: f32, o: bool) requires #[trigger] le_ensures(a, b, o) ensures o == fle32(a, b);
pub broadcast axiom fn ax32_gt(a: f32, b: f32, o: bool) requires #[trigger] gt_ensures(a, b, o) ensures o == fgt32(a, b);
pub broadcast axiom fn ax32_ge(a: f32, b: f32, o: bool) requires #[trigger] ge_ensures(a, b, o) ensures o == fge32(a, b);
// a > b and b < a are the same comparison, however the code writes it
pub broadcast proof fn lem_gt(a: f64, b: f64) ensures #[trigger] fgt(a, b) == flt(b, a) { reveal(fgt); reveal(flt); assert((a > b) == (b < a)) by (bit_vector); }
pub broadcast proof fn lem_ge(a: f64, b: f64) ensures #[trigger] fge(a, b) == fle(b, a) { reveal(fge); reveal(fle); assert((a >= b) == (b <= a)) by (bit_vector); }
pub broadcast proof fn lem_gt32(a: f32, b: f32) ensures #[trigger] fgt32(a, b) == flt32(b, a) { reveal(fgt32); reveal(flt32); assert((a > b) == (b < a)) by (bit_vector); }
pub broadcast proof fn lem_ge32(a: f32, b: f32) ensures #[trigger] fge32(a, b) == fle32(b, a) { reveal(fge32); reveal(fle32); assert((a >= b) == (b <= a)) by (bit_vector); }
// addition and multiplication commute (up to the payload of a NaN, which Rust leaves open)
pub broadcast axiom fn ax_add_comm(a: f64, b: f64) ensures #[trigger] fadd(a, b) == fadd(b, a);
pub broadcast axiom fn ax_mul_comm(a: f64, b: f64) ensures #[trigger] fmul(a, b) == fmul(b, a);
pub broadcast axiom fn ax32_add_comm(a: f32, b: f32) ensures #[trigger] fadd32(a, b) == fadd32(b, a);
pub broadcast axiom fn ax32_mul_comm(a: f32, b: f32) ensures #[trigger] fmul32(a, b) == fmul32(b, a);
pub broadcast axiom fn ax32_fma_comm(a: f32, b: f32, c: f32) ensures #[trigger] ffma32(a, b, c) == ffma32(b, a, c);
pub broadcast axiom fn ax_mul_one(a: f64) ensures #[trigger] fmul(a, 1.0f64) == a;
pub broadcast group fl {
    ax_add_comm, ax_mul_comm, ax32_add_comm, ax32_mul_comm, ax32_fma_comm, ax_mul_one, lem_gt, lem_ge, lem_gt32, lem_ge32,
    ax_add_req, ax_add, ax_sub_req, ax_sub, ax_mul_req, ax_mul, ax_div_req, ax_div, ax_lt, ax_le, ax_gt, ax_ge, ax32_add_req, ax32_add, ax32_sub_req, ax32_sub, ax32_mul_req, ax32_mul, ax32_div_req, ax32_div, ax32_lt, ax32_le, ax32_gt, ax32_ge,
}

@module pre
@raw
// Stand-ins for core operations the verifier has no specification for. Each is a trusted contract on std (see
// DESIGN.md, "Trusted base").
use crate::fl::*;
use vstd::float::*;
broadcast use crate::fl::fl;
use std::collections::VecDeque;

// ---- panics: reaching these with the condition false is the panic, so the condition is the obligation
pub fn vx_assert(b: bool)
    requires b,
{
}
#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false,
{
    unimplemented!()
}
pub fn vx_at(off: usize, len: usize, i: usize) -> (r: usize)
    requires i < len, off + i <= usize::MAX,
    ensures r == off + i,
{
    off + i
}

// ---- lengths
pub trait VxLen {
    spec fn vx_spec_len(&self) -> nat;
    fn vx_len_(&self) -> (r: usize)
        ensures r == self.vx_spec_len();
}
impl<T> VxLen for [T] {
    open spec fn vx_spec_len(&self) -> nat { self@.len() }
    fn vx_len_(&self) -> (r: usize) ensures r == self.vx_spec_len() { self.len() }
}
impl<T> VxLen for Vec<T> {
    open spec fn vx_spec_len(&self) -> nat { self@.len() }
    fn vx_len_(&self) -> (r: usize) ensures r == self.vx_spec_len() { self.len() }
}
impl<T> VxLen for VecDeque<T> {
    open spec fn vx_spec_len(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn vx_len_(&self) -> (r: usize) ensures r == self.vx_spec_len() { self.len() }
}
impl<T, const N: usize> VxLen for [T; N] {
    open spec fn vx_spec_len(&self) -> nat { N as nat }
    fn vx_len_(&self) -> (r: usize) ensures r == self.vx_spec_len() { N }
}
impl<T: VxLen + ?Sized> VxLen for Box<T> {
    open spec fn vx_spec_len(&self) -> nat { (**self).vx_spec_len() }
    fn vx_len_(&self) -> (r: usize) ensures r == self.vx_spec_len() { (**self).vx_len_() }
}
impl<'a, T: VxLen + ?Sized> VxLen for &'a T {
    open spec fn vx_spec_len(&self) -> nat { (**self).vx_spec_len() }
    fn vx_len_(&self) -> (r: usize) ensures r == self.vx_spec_len() { (**self).vx_len_() }
}
impl<'a, T: VxLen + ?Sized> VxLen for &'a mut T {
    open spec fn vx_spec_len(&self) -> nat { (**self).vx_spec_len() }
    #[verifier::external_body]
    fn vx_len_(&self) -> (r: usize) ensures r == self.vx_spec_len() { (**self).vx_len_() }
}
pub fn vx_len<T: VxLen + ?Sized>(x: &T) -> (r: usize)
    ensures r == x.vx_spec_len(),
{
    x.vx_len_()
}

pub fn vx_min_usize(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{
    if a <= b { a } else { b }
}
pub fn vx_sub_or_0(a: usize, b: usize) -> (r: usize)
    ensures r == if a >= b { (a - b) as int } else { 0int },
{
    if a >= b { a - b } else { 0 }
}
pub trait VxOrd: Sized {
    spec fn vx_int(self) -> int;
    fn vx_le(&self, o: &Self) -> (r: bool)
        ensures r == (self.vx_int() <= o.vx_int());
}
impl VxOrd for usize {
    open spec fn vx_int(self) -> int { self as int }
    fn vx_le(&self, o: &Self) -> (r: bool) ensures r == (self.vx_int() <= o.vx_int()) { *self <= *o }
}
impl VxOrd for u32 {
    open spec fn vx_int(self) -> int { self as int }
    fn vx_le(&self, o: &Self) -> (r: bool) ensures r == (self.vx_int() <= o.vx_int()) { *self <= *o }
}
impl VxOrd for u64 {
    open spec fn vx_int(self) -> int { self as int }
    fn vx_le(&self, o: &Self) -> (r: bool) ensures r == (self.vx_int() <= o.vx_int()) { *self <= *o }
}
pub fn vx_min<T: VxOrd>(a: T, b: T) -> (r: T)
    ensures r == if a.vx_int() <= b.vx_int() { a } else { b },
{
    if a.vx_le(&b) { a } else { b }
}
pub fn vx_max<T: VxOrd>(a: T, b: T) -> (r: T)
    ensures r == if a.vx_int() <= b.vx_int() { b } else { a },
{
    if a.vx_le(&b) { b } else { a }
}

// ---- slices
#[verifier::external_body]
pub fn vx_slice_<T>(s: &[T], lo: usize, hi: usize) -> (r: &[T])
    requires lo <= hi <= s@.len(),
    ensures r@ == s@.subrange(lo as int, hi as int),
{
    &s[lo..hi]
}
pub trait VxSeq<T> {
    spec fn vx_seq(&self) -> Seq<T>;
}
impl<T> VxSeq<T> for [T] { open spec fn vx_seq(&self) -> Seq<T> { self@ } }
impl<T> VxSeq<T> for Vec<T> { open spec fn vx_seq(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxSeq<T> for [T; N] { open spec fn vx_seq(&self) -> Seq<T> { self@ } }
impl<T, S: VxSeq<T> + ?Sized> VxSeq<T> for Box<S> { open spec fn vx_seq(&self) -> Seq<T> { (**self).vx_seq() } }
impl<'a, T, S: VxSeq<T> + ?Sized> VxSeq<T> for &'a S { open spec fn vx_seq(&self) -> Seq<T> { (**self).vx_seq() } }
#[verifier::external_body]
pub fn vx_slice<T, S: VxSeq<T> + ?Sized>(s: &S, lo: usize, hi: usize) -> (r: &[T])
    requires lo <= hi <= s.vx_seq().len(),
    ensures r@ == s.vx_seq().subrange(lo as int, hi as int),
{
    unimplemented!()
}
#[verifier::external_body]
pub fn vx_copy_into<T: Copy>(s: &mut Vec<T>, off: usize, len: usize, src: &[T])
    requires off + len <= old(s)@.len(), src@.len() == len,
    ensures final(s)@.len() == old(s)@.len(),
        forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == (if off <= i < off + len { src@[i - off] } else { old(s)@[i] }),
{
    s[off..off + len].copy_from_slice(src)
}
#[verifier::external_body]
pub fn vx_copy_from_slice<T: Copy>(s: &mut Box<[T]>, src: &[T])
    requires old(s)@.len() == src@.len(),
    ensures final(s)@ == src@,
{
    s.copy_from_slice(src)
}
#[verifier::external_body]
pub fn vx_extend_from_slice<T: Copy>(s: &mut Vec<T>, src: &[T])
    ensures final(s)@ == old(s)@ + src@,
{
    s.extend_from_slice(src)
}
#[verifier::external_body]
pub fn vx_into_boxed<T>(s: Vec<T>) -> (r: Box<[T]>)
    ensures r@ == s@,
{
    s.into_boxed_slice()
}
// (for the types the code uses it with, Clone is a copy: f64, f32, arrays of them, and structs deriving Clone from those)
#[verifier::external_body]
pub fn vx_vec<T>(e: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == e, r@ == Seq::new(n as nat, |i: int| e),
{
    unimplemented!()
}
#[verifier::external_body]
pub fn vx_as_slices<T>(q: &VecDeque<T>) -> (r: (&[T], &[T]))
    ensures r.0@ + r.1@ == q@,
{
    q.as_slices()
}
pub trait VxFill<T> {
    fn vx_fill(&mut self, v: T);
}
impl<T: Copy> VxFill<T> for Box<[T]> {
    #[verifier::external_body]
    fn vx_fill(&mut self, v: T)
        ensures final(self)@ == Seq::new(old(self)@.len(), |i: int| v),
    { self.fill(v) }
}
impl<T: Copy, const N: usize> VxFill<T> for [T; N] {
    #[verifier::external_body]
    fn vx_fill(&mut self, v: T)
        ensures final(self)@ == Seq::new(N as nat, |i: int| v),
    { self.fill(v) }
}
impl<T: Copy, const N: usize> VxFill<T> for Box<[T; N]> {
    #[verifier::external_body]
    fn vx_fill(&mut self, v: T)
        ensures final(self)@ == Seq::new(N as nat, |i: int| v),
    { self.fill(v) }
}
#[verifier::external_body]
pub fn vx_binary_search<S: VxSeq<u64> + ?Sized>(s: &S, x: &u64) -> (r: Result<usize, usize>)
    ensures
        r is Ok ==> r->Ok_0 < s.vx_seq().len() && s.vx_seq()[r->Ok_0 as int] == *x,
        r is Err ==> r->Err_0 <= s.vx_seq().len(),
        // for a sorted slice
        (forall|i: int, j: int| 0 <= i < j < s.vx_seq().len() ==> s.vx_seq()[i] <= s.vx_seq()[j]) && r is Err ==> {
            &&& forall|i: int| 0 <= i < r->Err_0 ==> s.vx_seq()[i] < *x
            &&& forall|i: int| r->Err_0 <= i < s.vx_seq().len() ==> s.vx_seq()[i] > *x
        },
{
    unimplemented!()
}
pub fn vx_ok_or_err(r: Result<usize, usize>) -> (o: usize)
    ensures o == match r { Ok(v) => v, Err(v) => v },
{
    match r { Ok(v) => v, Err(v) => v }
}

// ---- floats
pub uninterp spec fn s_tan(x: f64) -> f64;
pub uninterp spec fn s_sin(x: f64) -> f64;
pub uninterp spec fn s_cos(x: f64) -> f64;
pub uninterp spec fn s_powf(x: f64, y: f64) -> f64;
pub uninterp spec fn s_log10(x: f64) -> f64;
pub uninterp spec fn s_ln(x: f64) -> f64;
pub uninterp spec fn s_inf() -> f64;
pub uninterp spec fn s_nan() -> f64;
pub uninterp spec fn s_epsilon() -> f64;
pub uninterp spec fn s_pi() -> f64;
pub uninterp spec fn s_ln_10() -> f64;
#[verifier::opaque] pub open spec fn s_neg(x: f64) -> f64 { -x }
#[verifier::external_body]
pub fn vx_tan(x: f64) -> (r: f64) ensures r == s_tan(x) { x.tan() }
#[verifier::external_body]
pub fn vx_sin(x: f64) -> (r: f64) ensures r == s_sin(x) { x.sin() }
#[verifier::external_body]
pub fn vx_cos(x: f64) -> (r: f64) ensures r == s_cos(x) { x.cos() }
#[verifier::external_body]
pub fn vx_powf(x: f64, y: f64) -> (r: f64) ensures r == s_powf(x, y) { x.powf(y) }
#[verifier::external_body]
pub fn vx_log10(x: f64) -> (r: f64) ensures r == s_log10(x) { x.log10() }
#[verifier::external_body]
pub fn vx_ln(x: f64) -> (r: f64) ensures r == s_ln(x) { x.ln() }
#[verifier::external_body]
pub fn vx_inf() -> (r: f64) ensures r == s_inf() { f64::INFINITY }
#[verifier::external_body]
pub fn vx_nan() -> (r: f64) ensures r == s_nan() { f64::NAN }
#[verifier::external_body]
pub fn vx_epsilon() -> (r: f64) ensures r == s_epsilon() { f64::EPSILON }
#[verifier::external_body]
pub fn vx_pi() -> (r: f64) ensures r == s_pi() { std::f64::consts::PI }
#[verifier::external_body]
pub fn vx_ln_10() -> (r: f64) ensures r == s_ln_10() { std::f64::consts::LN_10 }
#[verifier::external_body]
pub fn vx_neg(x: f64) -> (r: f64) ensures r == s_neg(x) { -x }

// |x|; of a NaN only that it stays one is said
pub uninterp spec fn s_abs_nan64(x: f64) -> f64;
pub uninterp spec fn s_abs_nan32(x: f32) -> f32;
#[verifier::opaque] pub open spec fn s_abs64(x: f64) -> f64 { if x > 0.0f64 { x } else if x < 0.0f64 { -x } else if x == 0.0f64 || x == -0.0f64 { 0.0f64 } else { s_abs_nan64(x) } }
#[verifier::opaque] pub open spec fn s_abs32(x: f32) -> f32 { if x > 0.0f32 { x } else if x < 0.0f32 { -x } else if x == 0.0f32 || x == -0.0f32 { 0.0f32 } else { s_abs_nan32(x) } }
pub axiom fn ax_abs_nan64(x: f64) requires !fle(x, x) ensures !fle(s_abs_nan64(x), s_abs_nan64(x)), s_abs_nan64(s_abs_nan64(x)) == s_abs_nan64(x);
pub axiom fn ax_abs_nan32(x: f32) requires !fle32(x, x) ensures !fle32(s_abs_nan32(x), s_abs_nan32(x)), s_abs_nan32(s_abs_nan32(x)) == s_abs_nan32(x);
pub trait VxAbs: Sized {
    type Out;
    spec fn s_abs(self) -> Self::Out;
    fn vx_abs_(self) -> (r: Self::Out)
        ensures r == self.s_abs();
}
impl VxAbs for f64 {
    type Out = f64;
    open spec fn s_abs(self) -> f64 { s_abs64(self) }
    #[verifier::external_body]
    fn vx_abs_(self) -> (r: f64) { self.abs() }
}
impl VxAbs for f32 {
    type Out = f32;
    open spec fn s_abs(self) -> f32 { s_abs32(self) }
    #[verifier::external_body]
    fn vx_abs_(self) -> (r: f32) { self.abs() }
}
impl<'a> VxAbs for &'a f64 {
    type Out = f64;
    open spec fn s_abs(self) -> f64 { s_abs64(*self) }
    #[verifier::external_body]
    fn vx_abs_(self) -> (r: f64) { self.abs() }
}
impl<'a> VxAbs for &'a f32 {
    type Out = f32;
    open spec fn s_abs(self) -> f32 { s_abs32(*self) }
    #[verifier::external_body]
    fn vx_abs_(self) -> (r: f32) { self.abs() }
}
// f32 embeds exactly into f64
pub proof fn pos64_is(x: f64)
    ensures pos64(x) == (x > 0.0f64 || x == 0.0f64)
{
    reveal(s_abs64); reveal(fle);
    assert(x > 0.0f64 ==> x <= x) by (bit_vector);
    assert(x < 0.0f64 ==> -x != x && !(x > 0.0f64)) by (bit_vector);
    assert(!(0.0f64 < 0.0f64) && !(0.0f64 > 0.0f64) && 0.0f64 <= 0.0f64) by (bit_vector);
    assert(0.0f64 != -0.0f64) by (bit_vector);
    assert(!(x > 0.0f64) && !(x < 0.0f64) && x != 0.0f64 && x != -0.0f64 ==> !(x <= x)) by (bit_vector);
    assert(!(-0.0f64 < 0.0f64) && !(-0.0f64 > 0.0f64)) by (bit_vector);
    assert(x < 0.0f64 ==> x != 0.0f64) by (bit_vector);
}
pub proof fn pos32_is(x: f32)
    ensures pos32(x) == (x > 0.0f32 || x == 0.0f32)
{
    reveal(s_abs32); reveal(fle32);
    assert(x > 0.0f32 ==> x <= x) by (bit_vector);
    assert(x < 0.0f32 ==> -x != x && !(x > 0.0f32)) by (bit_vector);
    assert(!(0.0f32 < 0.0f32) && !(0.0f32 > 0.0f32) && 0.0f32 <= 0.0f32) by (bit_vector);
    assert(0.0f32 != -0.0f32) by (bit_vector);
    assert(!(x > 0.0f32) && !(x < 0.0f32) && x != 0.0f32 && x != -0.0f32 ==> !(x <= x)) by (bit_vector);
    assert(!(-0.0f32 < 0.0f32) && !(-0.0f32 > 0.0f32)) by (bit_vector);
    assert(x < 0.0f32 ==> x != 0.0f32) by (bit_vector);
}
pub proof fn fl_f32_rt(x: f32) requires fle32(x, x) ensures s_f32_of_f64(s_f64_of_f32(x)) == x
{
    reveal(s_f64_of_f32); reveal(s_f32_of_f64); reveal(fle32);
    let y = x as f64;
    assert(x <= x && y == (x as f64) ==> (y as f32) == x) by (bit_vector);
    assert((y as f32) == x);
}
pub proof fn fl_f32_zero() ensures s_f32_of_f64(0.0f64) == 0.0f32, s_f64_of_f32(0.0f32) == 0.0f64, fle32(0.0f32, 0.0f32)
{
    reveal(s_f64_of_f32); reveal(s_f32_of_f64); reveal(fle32);
    assert((0.0f64 as f32) == 0.0f32 && (0.0f32 as f64) == 0.0f64 && 0.0f32 <= 0.0f32) by (bit_vector);
}
pub proof fn fl_f32_gt(a: f32, b: f32) ensures fgt(s_f64_of_f32(a), s_f64_of_f32(b)) == fgt32(a, b)
{
    reveal(s_f64_of_f32); reveal(fgt); reveal(fgt32);
    assert((a as f64 > b as f64) == (a > b)) by (bit_vector);
}
pub proof fn fl_f32_gt_nn(a: f32, b: f32) ensures fgt32(a, b) ==> fle32(a, a) && fle32(b, b)
{
    reveal(fgt32); reveal(fle32);
    assert(a > b ==> a <= a && b <= b) by (bit_vector);
}
// non-negative numbers are ordered like their bit patterns (discharged bit-precisely, see kani/)
pub open spec fn pos64(x: f64) -> bool { s_abs64(x) == x && fle(x, x) }
pub open spec fn pos32(x: f32) -> bool { s_abs32(x) == x && fle32(x, x) }
#[verifier::opaque] pub open spec fn s_bits64(x: f64) -> int { x.to_bits_spec() as int }
#[verifier::opaque] pub open spec fn s_bits32(x: f32) -> int { x.to_bits_spec() as int }
pub axiom fn ax_pos64(a: f64, b: f64) requires pos64(a), pos64(b) ensures fgt(a, b) == (s_bits64(a) > s_bits64(b)), fle(a, b) == (s_bits64(a) <= s_bits64(b));
pub proof fn fl_pos64(a: f64, b: f64) requires pos64(a), pos64(b) ensures fgt(a, b) == (s_bits64(a) > s_bits64(b)), fle(a, b) == (s_bits64(a) <= s_bits64(b)), s_bits64(a) == s_bits64(b) ==> a == b
{
    ax_pos64(a, b); reveal(s_bits64);
}
pub axiom fn ax_pos_bits(a: f64) requires 0 <= s_bits64(a) < 0x7ff0_0000_0000_0000 ensures pos64(a);
pub proof fn fl_zero_bits() ensures s_bits64(0.0f64) == 0, pos64(0.0f64)
{
    reveal(s_bits64); pos64_is(0.0f64);
    assert((0.0f64).to_bits_spec() == 0u64);
}
pub proof fn fl_bits64(a: f64, b: f64) requires s_bits64(a) == s_bits64(b) ensures a == b
{
    reveal(s_bits64);
}
pub axiom fn ax_pos32(a: f32, b: f32) requires pos32(a), pos32(b) ensures fgt32(a, b) == (s_bits32(a) > s_bits32(b));
pub proof fn fl_pos32(a: f32, b: f32) requires pos32(a), pos32(b) ensures fgt32(a, b) == (s_bits32(a) > s_bits32(b)), s_bits32(a) == s_bits32(b) ==> a == b
{
    ax_pos32(a, b); reveal(s_bits32);
}
pub proof fn fl_abs64(x: f64, b: f64) ensures s_abs64(s_abs64(x)) == s_abs64(x), fgt(s_abs64(x), b) ==> pos64(s_abs64(x)), pos64(0.0f64)
{
    pos64_is(0.0f64);
    pos64_is(s_abs64(x));
    reveal(s_abs64); reveal(fle); reveal(fgt);
    let z = s_abs64(x);
    assert(z > b ==> z <= z) by (bit_vector);
    if x > 0.0f64 { }
    else if x < 0.0f64 { assert(x < 0.0f64 ==> -x > 0.0f64) by (bit_vector); }
    else if x == 0.0f64 || x == -0.0f64 { }
    else {
        assert(!(x > 0.0f64) && !(x < 0.0f64) && x != 0.0f64 && x != -0.0f64 ==> !(x <= x)) by (bit_vector);
        ax_abs_nan64(x);
        assert(!(z <= z) ==> !(z > 0.0f64) && !(z < 0.0f64) && z != 0.0f64 && z != -0.0f64) by (bit_vector);
    }
    assert(!(0.0f64 < 0.0f64) && !(0.0f64 > 0.0f64)) by (bit_vector);
}
pub proof fn fl_abs32(x: f32, b: f32) ensures s_abs32(s_abs32(x)) == s_abs32(x), fgt32(s_abs32(x), b) ==> pos32(s_abs32(x)), pos32(0.0f32)
{
    pos32_is(0.0f32);
    pos32_is(s_abs32(x));
    reveal(s_abs32); reveal(fle32); reveal(fgt32);
    let z = s_abs32(x);
    assert(z > b ==> z <= z) by (bit_vector);
    if x > 0.0f32 { }
    else if x < 0.0f32 { assert(x < 0.0f32 ==> -x > 0.0f32) by (bit_vector); }
    else if x == 0.0f32 || x == -0.0f32 { }
    else {
        assert(!(x > 0.0f32) && !(x < 0.0f32) && x != 0.0f32 && x != -0.0f32 ==> !(x <= x)) by (bit_vector);
        ax_abs_nan32(x);
        assert(!(z <= z) ==> !(z > 0.0f32) && !(z < 0.0f32) && z != 0.0f32 && z != -0.0f32) by (bit_vector);
    }
    assert(!(0.0f32 < 0.0f32) && !(0.0f32 > 0.0f32)) by (bit_vector);
}
pub proof fn fl_zero_least(p: f64) requires pos64(p) ensures !fgt(0.0f64, p)
{
    pos64_is(p); reveal(fgt);
    assert(p > 0.0f64 || p == 0.0f64 ==> !(0.0f64 > p)) by (bit_vector);
}
pub proof fn fl_zero_least32(p: f32) requires pos32(p) ensures !fgt32(0.0f32, p)
{
    pos32_is(p); reveal(fgt32);
    assert(p > 0.0f32 || p == 0.0f32 ==> !(0.0f32 > p)) by (bit_vector);
}
pub proof fn fl_pos_f32(x: f32) requires pos32(x) ensures pos64(s_f64_of_f32(x))
{
    pos32_is(x); pos64_is(s_f64_of_f32(x)); reveal(s_f64_of_f32);
    assert(x > 0.0f32 || x == 0.0f32 ==> (x as f64) > 0.0f64 || (x as f64) == 0.0f64) by (bit_vector);
}
// division by the full scale is monotone
pub open spec fn amp_ok(m: f64) -> bool { m == 1.0f64 || m == 32768.0f64 || m == 2147483648.0f64 }
#[verifier::rlimit(100)]
pub proof fn div_pos(a: f64, m: f64) requires a > 0.0f64 || a == 0.0f64, amp_ok(m) ensures a / m > 0.0f64 || a / m == 0.0f64
{
    assert(a > 0.0f64 || a == 0.0f64 ==> a / 1.0f64 > 0.0f64 || a / 1.0f64 == 0.0f64) by (bit_vector);
    assert(a > 0.0f64 || a == 0.0f64 ==> a / 32768.0f64 > 0.0f64 || a / 32768.0f64 == 0.0f64) by (bit_vector);
    assert(a > 0.0f64 || a == 0.0f64 ==> a / 2147483648.0f64 > 0.0f64 || a / 2147483648.0f64 == 0.0f64) by (bit_vector);
}
#[verifier::rlimit(300)]
pub proof fn div_mono(a: f64, b: f64, m: f64) requires b > 0.0f64 || b == 0.0f64, a > b, amp_ok(m) ensures !(b / m > a / m)
{
    assert((b > 0.0f64 || b == 0.0f64) && a > b ==> !(b / 1.0f64 > a / 1.0f64)) by (bit_vector);
    assert((b > 0.0f64 || b == 0.0f64) && a > b ==> !(b / 32768.0f64 > a / 32768.0f64)) by (bit_vector);
    assert((b > 0.0f64 || b == 0.0f64) && a > b ==> !(b / 2147483648.0f64 > a / 2147483648.0f64)) by (bit_vector);
}
pub proof fn fl_div_amp(a: f64, b: f64, m: f64) requires pos64(a), pos64(b), amp_ok(m) ensures pos64(fdiv(a, m)), fgt(a, b) ==> !fgt(fdiv(b, m), fdiv(a, m)), fdiv(0.0f64, m) == 0.0f64
{
    pos64_is(a); pos64_is(b); pos64_is(fdiv(a, m)); reveal(fdiv); reveal(fgt);
    div_pos(a, m);
    if a > b { div_mono(a, b, m); }
    assert(0.0f64 / 1.0f64 == 0.0f64 && 0.0f64 / 32768.0f64 == 0.0f64 && 0.0f64 / 2147483648.0f64 == 0.0f64) by (bit_vector);
}
pub proof fn fl_div_one(a: f64) requires fle(a, a) ensures fdiv(a, 1.0f64) == a
{
    reveal(fle); reveal(fdiv);
    assert(a <= a ==> a / 1.0f64 == a) by (bit_vector);
}
#[verifier::rlimit(100)]
pub proof fn fl_abs_div(x: f64, m: f64) requires amp_ok(m), fle(x, x) ensures s_abs64(fdiv(x, m)) == fdiv(s_abs64(x), m), pos64(s_abs64(x)), fle(fdiv(x, m), fdiv(x, m))
{
    pos64_is(s_abs64(x));
    reveal(fle); reveal(fdiv); reveal(s_abs64);
    assert(x <= x ==> x / 1.0f64 <= x / 1.0f64) by (bit_vector);
    assert(x <= x ==> x / 32768.0f64 <= x / 32768.0f64) by (bit_vector);
    assert(x <= x ==> x / 2147483648.0f64 <= x / 2147483648.0f64) by (bit_vector);
    assert(x <= x && !(x > 0.0f64) && !(x < 0.0f64) ==> x == 0.0f64 || x == -0.0f64) by (bit_vector);
    assert(x < 0.0f64 ==> -x > 0.0f64 && !(x > 0.0f64)) by (bit_vector);
    assert(0.0f64 / 1.0f64 == 0.0f64 && 0.0f64 / 32768.0f64 == 0.0f64 && 0.0f64 / 2147483648.0f64 == 0.0f64) by (bit_vector);
    assert((-0.0f64) / 1.0f64 == -0.0f64 && (-0.0f64) / 32768.0f64 == -0.0f64 && (-0.0f64) / 2147483648.0f64 == -0.0f64) by (bit_vector);
    assert(!(-0.0f64 < 0.0f64) && !(-0.0f64 > 0.0f64) && !(0.0f64 < 0.0f64) && !(0.0f64 > 0.0f64)) by (bit_vector);
    let y = x / m;
    assert(!(y < 0.0f64 && y > 0.0f64) && (y == 0.0f64 || y == -0.0f64 ==> !(y < 0.0f64 || y > 0.0f64))) by (bit_vector);
    if x > 0.0f64 {
        div_pos(x, m);
    } else if x < 0.0f64 {
        assert(x < 0.0f64 ==> -(x / 1.0f64) == (-x) / 1.0f64 && (x / 1.0f64 < 0.0f64 || x / 1.0f64 == -0.0f64)) by (bit_vector);
        assert(x < 0.0f64 ==> -(x / 32768.0f64) == (-x) / 32768.0f64 && (x / 32768.0f64 < 0.0f64 || x / 32768.0f64 == -0.0f64)) by (bit_vector);
        assert(x < 0.0f64 ==> -(x / 2147483648.0f64) == (-x) / 2147483648.0f64 && (x / 2147483648.0f64 < 0.0f64 || x / 2147483648.0f64 == -0.0f64)) by (bit_vector);
        assert(-(-0.0f64) == 0.0f64) by (bit_vector);
    }
}
/// integers of up to 32 bits
pub proof fn fl_int(x: int) requires -0x8000_0000 <= x <= 0x7fff_ffff ensures fle(s_f64_of_int(x), s_f64_of_int(x))
{
    reveal(fle); reveal(s_f64_of_int);
    let u = x as u64; let i = x as i32;
    assert((u as f64) <= (u as f64)) by (bit_vector);
    assert((i as f64) <= (i as f64)) by (bit_vector);
}
/// for numbers the comparisons are complementary
pub proof fn fl_cmp(x: f64, b: f64) requires fle(x, x), fle(b, b) ensures fle(x, b) == !fgt(x, b), flt(x, b) == !fge(x, b)
{
    reveal(fle); reveal(fgt); reveal(flt); reveal(fge);
    assert(x <= x && b <= b ==> (x <= b) == !(x > b) && (x < b) == !(x >= b)) by (bit_vector);
}
/// the distance from the middle of the window is a number
pub proof fn fl_mid(j: int) requires 0 <= j <= 48
    ensures fle(s_abs64(fsub(s_f64_of_int(j), fdiv(s_f64_of_int(48), 2.0f64))), s_abs64(fsub(s_f64_of_int(j), fdiv(s_f64_of_int(48), 2.0f64)))), fle(0.000001f64, 0.000001f64)
{
    reveal(fle); reveal(fsub); reveal(fdiv); reveal(s_f64_of_int); reveal(s_abs64);
    let u = j as u64; let w = 48u64;
    let x = (u as f64) - (w as f64) / 2.0f64;
    assert(u <= 48 && w == 48 ==> ((u as f64) - (w as f64) / 2.0f64) <= ((u as f64) - (w as f64) / 2.0f64)) by (bit_vector);
    assert(x <= x);
    assert(s_f64_of_int(j) == (u as f64));
    assert(s_f64_of_int(48) == (w as f64));
    assert(fsub(s_f64_of_int(j), fdiv(s_f64_of_int(48), 2.0f64)) == x);
    assert(x <= x ==> x > 0.0f64 || x < 0.0f64 || x == 0.0f64 || x == -0.0f64) by (bit_vector);
    let z = s_abs64(x);
    if x > 0.0f64 { assert(z == x); }
    else if x < 0.0f64 { assert(z == -x); assert(x < 0.0f64 ==> -x <= -x) by (bit_vector); }
    else { assert(z == 0.0f64); }
    assert(0.0f64 <= 0.0f64) by (bit_vector);
    assert(0.000001f64 <= 0.000001f64) by (bit_vector);
}
pub proof fn fl_amp() ensures s_neg(s_f64_of_int(-32768)) == 32768.0f64, s_neg(s_f64_of_int(-2147483648)) == 2147483648.0f64
{
    reveal(s_neg); reveal(s_f64_of_int);
    assert(-((-32768i32) as f64) == 32768.0f64) by (bit_vector);
    assert(-((-2147483648i32) as f64) == 2147483648.0f64) by (bit_vector);
}
pub fn vx_abs<T: VxAbs>(x: T) -> (r: T::Out) ensures r == x.s_abs() { x.vx_abs_() }
pub open spec fn s_nan64(x: f64) -> bool { !fle(x, x) }
pub trait VxNan {
    spec fn n_is(&self) -> bool;
    fn n_is_(&self) -> (r: bool) ensures r == self.n_is();
}
impl VxNan for f64 {
    open spec fn n_is(&self) -> bool { s_nan64(*self) }
    #[verifier::external_body]
    fn n_is_(&self) -> (r: bool) { self.is_nan() }
}
impl<'a> VxNan for &'a f64 {
    open spec fn n_is(&self) -> bool { s_nan64(**self) }
    #[verifier::external_body]
    fn n_is_(&self) -> (r: bool) { self.is_nan() }
}
pub fn vx_is_nan<T: VxNan>(x: T) -> (r: bool) ensures r == x.n_is() { x.n_is_() }

pub open spec fn s_partial_cmp(a: f64, b: f64) -> Option<std::cmp::Ordering> {
    if flt(a, b) { Some(std::cmp::Ordering::Less) }
    else if fgt(a, b) { Some(std::cmp::Ordering::Greater) }
    else if fle(a, b) { Some(std::cmp::Ordering::Equal) }
    else { None }
}
#[verifier::external_body]
pub fn vx_partial_cmp(a: &f64, b: &f64) -> (r: Option<std::cmp::Ordering>)
    ensures r == s_partial_cmp(*a, *b),
{ a.partial_cmp(b) }
#[verifier::external_body]
pub fn vx_cmp(a: bool, b: &bool) -> (r: std::cmp::Ordering)
    ensures r == (if a == *b { std::cmp::Ordering::Equal } else if *b { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }),
{ a.cmp(b) }

// ---- numeric casts
pub uninterp spec fn s_f64_of_big(x: int) -> f64;
pub uninterp spec fn s_int_of_big(x: f64) -> nat;
#[verifier::opaque] pub open spec fn s_f64_of_int(x: int) -> f64 { if 0 <= x <= u64::MAX { (x as u64) as f64 } else if i32::MIN <= x < 0 { (x as i32) as f64 } else { s_f64_of_big(x) } }
#[verifier::opaque] pub open spec fn s_f64_of_f32(x: f32) -> f64 { x as f64 }
#[verifier::opaque] pub open spec fn s_f32_of_f64(x: f64) -> f32 { x as f32 }
#[verifier::opaque] pub open spec fn s_int_of_f64(x: f64) -> int { if x >= 0.0f64 && x <= 9223372036854775808.0f64 { if 0 <= (x as u64) { (x as u64) as int } else { 0 } } else { s_int_of_big(x) as int } }
pub trait VxAsF64: Sized {
    spec fn s_as_f64(self) -> f64;
    fn vx_as_f64_(self) -> (r: f64)
        ensures r == self.s_as_f64();
}
impl VxAsF64 for usize {
    open spec fn s_as_f64(self) -> f64 { s_f64_of_int(self as int) }
    #[verifier::external_body]
    fn vx_as_f64_(self) -> (r: f64) { self as f64 }
}
impl VxAsF64 for u64 {
    open spec fn s_as_f64(self) -> f64 { s_f64_of_int(self as int) }
    #[verifier::external_body]
    fn vx_as_f64_(self) -> (r: f64) { self as f64 }
}
impl VxAsF64 for u32 {
    open spec fn s_as_f64(self) -> f64 { s_f64_of_int(self as int) }
    #[verifier::external_body]
    fn vx_as_f64_(self) -> (r: f64) { self as f64 }
}
impl VxAsF64 for i16 {
    open spec fn s_as_f64(self) -> f64 { s_f64_of_int(self as int) }
    #[verifier::external_body]
    fn vx_as_f64_(self) -> (r: f64) { self as f64 }
}
impl VxAsF64 for i32 {
    open spec fn s_as_f64(self) -> f64 { s_f64_of_int(self as int) }
    #[verifier::external_body]
    fn vx_as_f64_(self) -> (r: f64) { self as f64 }
}
impl VxAsF64 for f32 {
    open spec fn s_as_f64(self) -> f64 { s_f64_of_f32(self) }
    #[verifier::external_body]
    fn vx_as_f64_(self) -> (r: f64) { self as f64 }
}
impl VxAsF64 for f64 {
    open spec fn s_as_f64(self) -> f64 { self }
    fn vx_as_f64_(self) -> (r: f64) ensures r == self.s_as_f64() { self }
}
pub fn vx_as_f64<T: VxAsF64>(x: T) -> (r: f64) ensures r == x.s_as_f64() { x.vx_as_f64_() }
#[verifier::external_body]
pub fn vx_as_f32(x: f64) -> (r: f32) ensures r == s_f32_of_f64(x) { x as f32 }
pub trait VxAsInt: Sized {
    spec fn s_as_int(self) -> int;
    fn vx_as_usize_(self) -> (r: usize) ensures 0 <= self.s_as_int() <= usize::MAX ==> r == self.s_as_int();
    fn vx_as_u64_(self) -> (r: u64) ensures 0 <= self.s_as_int() <= u64::MAX ==> r == self.s_as_int();
    fn vx_as_u32_(self) -> (r: u32) ensures 0 <= self.s_as_int() <= u32::MAX ==> r == self.s_as_int();
}
impl VxAsInt for u32 {
    open spec fn s_as_int(self) -> int { self as int }
    fn vx_as_usize_(self) -> (r: usize) ensures 0 <= self.s_as_int() <= usize::MAX ==> r == self.s_as_int() { self as usize }
    fn vx_as_u64_(self) -> (r: u64) ensures 0 <= self.s_as_int() <= u64::MAX ==> r == self.s_as_int() { self as u64 }
    fn vx_as_u32_(self) -> (r: u32) ensures 0 <= self.s_as_int() <= u32::MAX ==> r == self.s_as_int() { self }
}
impl VxAsInt for u64 {
    open spec fn s_as_int(self) -> int { self as int }
    fn vx_as_usize_(self) -> (r: usize) ensures 0 <= self.s_as_int() <= usize::MAX ==> r == self.s_as_int() { self as usize }
    fn vx_as_u64_(self) -> (r: u64) ensures 0 <= self.s_as_int() <= u64::MAX ==> r == self.s_as_int() { self }
    fn vx_as_u32_(self) -> (r: u32) ensures 0 <= self.s_as_int() <= u32::MAX ==> r == self.s_as_int() { #[verifier::truncate] (self as u32) }
}
impl VxAsInt for usize {
    open spec fn s_as_int(self) -> int { self as int }
    fn vx_as_usize_(self) -> (r: usize) ensures 0 <= self.s_as_int() <= usize::MAX ==> r == self.s_as_int() { self }
    fn vx_as_u64_(self) -> (r: u64) ensures 0 <= self.s_as_int() <= u64::MAX ==> r == self.s_as_int() { self as u64 }
    fn vx_as_u32_(self) -> (r: u32) ensures 0 <= self.s_as_int() <= u32::MAX ==> r == self.s_as_int() { #[verifier::truncate] (self as u32) }
}
impl VxAsInt for u8 {
    open spec fn s_as_int(self) -> int { self as int }
    fn vx_as_usize_(self) -> (r: usize) ensures 0 <= self.s_as_int() <= usize::MAX ==> r == self.s_as_int() { self as usize }
    fn vx_as_u64_(self) -> (r: u64) ensures 0 <= self.s_as_int() <= u64::MAX ==> r == self.s_as_int() { self as u64 }
    fn vx_as_u32_(self) -> (r: u32) ensures 0 <= self.s_as_int() <= u32::MAX ==> r == self.s_as_int() { self as u32 }
}
impl VxAsInt for u16 {
    open spec fn s_as_int(self) -> int { self as int }
    fn vx_as_usize_(self) -> (r: usize) ensures 0 <= self.s_as_int() <= usize::MAX ==> r == self.s_as_int() { self as usize }
    fn vx_as_u64_(self) -> (r: u64) ensures 0 <= self.s_as_int() <= u64::MAX ==> r == self.s_as_int() { self as u64 }
    fn vx_as_u32_(self) -> (r: u32) ensures 0 <= self.s_as_int() <= u32::MAX ==> r == self.s_as_int() { self as u32 }
}
impl VxAsInt for i64 {
    open spec fn s_as_int(self) -> int { self as int }
    fn vx_as_usize_(self) -> (r: usize) ensures 0 <= self.s_as_int() <= usize::MAX ==> r == self.s_as_int() { #[verifier::truncate] (self as usize) }
    fn vx_as_u64_(self) -> (r: u64) ensures 0 <= self.s_as_int() <= u64::MAX ==> r == self.s_as_int() { #[verifier::truncate] (self as u64) }
    fn vx_as_u32_(self) -> (r: u32) ensures 0 <= self.s_as_int() <= u32::MAX ==> r == self.s_as_int() { #[verifier::truncate] (self as u32) }
}
impl VxAsInt for i32 {
    open spec fn s_as_int(self) -> int { self as int }
    fn vx_as_usize_(self) -> (r: usize) ensures 0 <= self.s_as_int() <= usize::MAX ==> r == self.s_as_int() { #[verifier::truncate] (self as usize) }
    fn vx_as_u64_(self) -> (r: u64) ensures 0 <= self.s_as_int() <= u64::MAX ==> r == self.s_as_int() { #[verifier::truncate] (self as u64) }
    fn vx_as_u32_(self) -> (r: u32) ensures 0 <= self.s_as_int() <= u32::MAX ==> r == self.s_as_int() { #[verifier::truncate] (self as u32) }
}
/// integer to byte: the low eight bits
pub trait VxAsU8: Sized {
    spec fn s_low(self) -> int;
    fn vx_as_u8_(self) -> (r: u8) ensures r == self.s_low();
}
impl VxAsU8 for i32 {
    open spec fn s_low(self) -> int { self as int % 256 }
    #[verifier::external_body]
    fn vx_as_u8_(self) -> (r: u8) { self as u8 }
}
impl VxAsU8 for u32 {
    open spec fn s_low(self) -> int { self as int % 256 }
    #[verifier::external_body]
    fn vx_as_u8_(self) -> (r: u8) { self as u8 }
}
pub fn vx_as_u8<T: VxAsU8>(x: T) -> (r: u8) ensures r == x.s_low() { x.vx_as_u8_() }
impl VxAsInt for f64 {
    open spec fn s_as_int(self) -> int { s_int_of_f64(self) }
    #[verifier::external_body]
    fn vx_as_usize_(self) -> (r: usize) ensures 0 <= self.s_as_int() <= usize::MAX ==> r == self.s_as_int() { self as usize }
    #[verifier::external_body]
    fn vx_as_u64_(self) -> (r: u64) ensures 0 <= self.s_as_int() <= u64::MAX ==> r == self.s_as_int() { self as u64 }
    #[verifier::external_body]
    fn vx_as_u32_(self) -> (r: u32) ensures 0 <= self.s_as_int() <= u32::MAX ==> r == self.s_as_int() { self as u32 }
}
pub trait VxFma: Sized {
    spec fn s_fma(self, b: Self, c: Self) -> Self;
    fn vx_mul_add_(self, b: Self, c: Self) -> (r: Self) ensures r == self.s_fma(b, c);
}
impl VxFma for f32 {
    open spec fn s_fma(self, b: f32, c: f32) -> f32 { ffma32(self, b, c) }
    #[verifier::external_body]
    fn vx_mul_add_(self, b: f32, c: f32) -> (r: f32) { self.mul_add(b, c) }
}
pub fn vx_as_usize<T: VxAsInt>(x: T) -> (r: usize) ensures 0 <= x.s_as_int() <= usize::MAX ==> r == x.s_as_int() { x.vx_as_usize_() }
pub fn vx_as_u64<T: VxAsInt>(x: T) -> (r: u64) ensures 0 <= x.s_as_int() <= u64::MAX ==> r == x.s_as_int() { x.vx_as_u64_() }
pub fn vx_as_u32<T: VxAsInt>(x: T) -> (r: u32) ensures 0 <= x.s_as_int() <= u32::MAX ==> r == x.s_as_int() { x.vx_as_u32_() }

// ---- std sums: iter().sum::<f64>() adds from the left, starting with -0.0
pub open spec fn s_sum(q: Seq<f64>) -> f64
    decreases q.len(),
{
    if q.len() == 0 { -0.0f64 } else { fadd(s_sum(q.drop_last()), q.last()) }
}
pub trait VxSum {
    spec fn vx_fseq(&self) -> Seq<f64>;
    fn vx_sum_(&self) -> (r: f64) ensures r == s_sum(self.vx_fseq());
}
impl VxSum for VecDeque<f64> {
    open spec fn vx_fseq(&self) -> Seq<f64> { self@ }
    #[verifier::external_body]
    fn vx_sum_(&self) -> (r: f64) { self.iter().sum::<f64>() }
}
impl<'a> VxSum for &'a [f64] {
    open spec fn vx_fseq(&self) -> Seq<f64> { self@ }
    #[verifier::external_body]
    fn vx_sum_(&self) -> (r: f64) { self.iter().sum::<f64>() }
}
impl VxSum for [f64] {
    open spec fn vx_fseq(&self) -> Seq<f64> { self@ }
    #[verifier::external_body]
    fn vx_sum_(&self) -> (r: f64) { self.iter().sum::<f64>() }
}
pub fn vx_sum_f64<T: VxSum + ?Sized>(x: &T) -> (r: f64) ensures r == s_sum(x.vx_fseq()) { x.vx_sum_() }

// ---- arrays
pub trait VxInit: Sized + Copy {
    spec fn s_init() -> Self;
    fn vx_init() -> (r: Self)
        ensures r == Self::s_init();
}
impl VxInit for f32 {
    open spec fn s_init() -> f32 { 0.0f32 }
    fn vx_init() -> (r: f32) ensures r == Self::s_init() { 0.0 }
}
impl VxInit for f64 {
    open spec fn s_init() -> f64 { 0.0f64 }
    fn vx_init() -> (r: f64) ensures r == Self::s_init() { 0.0 }
}
impl VxInit for i16 {
    open spec fn s_init() -> i16 { 0i16 }
    fn vx_init() -> (r: i16) ensures r == Self::s_init() { 0 }
}
impl VxInit for i32 {
    open spec fn s_init() -> i32 { 0i32 }
    fn vx_init() -> (r: i32) ensures r == Self::s_init() { 0 }
}
// ---- flush-to-zero guard of filter.rs: on this target (SSE2) the closure gets Some; the change of rounding is not modelled
pub struct VxFtz;
pub fn vx_ftz() -> (r: Option<VxFtz>)
    ensures r is Some,
{ Some(VxFtz) }
pub fn vx_array_init<T: VxInit, const N: usize>() -> (r: [T; N])
    ensures r@.len() == N,
{ [T::vx_init(); N] }
pub fn vx_array_like<X, T: VxInit, const N: usize>(x: &[X; N]) -> (r: [T; N])
    ensures r@.len() == N,
{ [T::vx_init(); N] }
// ---- std functions without a specification in vstd
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
pub assume_specification<T, A: std::alloc::Allocator>[ VecDeque::<T, A>::capacity ](s: &VecDeque<T, A>) -> (r: usize)
    ensures r >= s@.len();
pub assume_specification<T, A: std::alloc::Allocator>[ VecDeque::<T, A>::shrink_to_fit ](s: &mut VecDeque<T, A>)
    ensures final(s)@ == old(s)@;
