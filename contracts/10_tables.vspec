@module flem
@raw
// lemmas of the float theory (each discharged by bit-blasting)
use crate::fl::*;
use crate::pre::*;
/// partial_cmp gives up exactly on NaN
pub broadcast proof fn cmp_nan(a: f64, b: f64)
    ensures (#[trigger] s_partial_cmp(a, b) is None) == (s_nan64(a) || s_nan64(b)),
{
    reveal(flt); reveal(fle); reveal(fgt);
    assert((!(a < b) && !(a > b) && !(a <= b)) == (!(a <= a) || !(b <= b))) by (bit_vector);
}

@module tables histogram_bins.rs
@raw
// The two tables of histogram_bins.rs: copied literal by literal; the bits of the literals are computed by the
// extractor and, independently, by the verifier, and facts about all of them are proved by computation.
use crate::fl::*;
use crate::pre::*;
broadcast use crate::fl::fl;
use vstd::float::*;
pub open spec fn en(i: int) -> f64 { HISTOGRAM_ENERGIES@[i] }
pub open spec fn bd(i: int) -> f64 { HISTOGRAM_BOUNDARIES@[i] }
@table en_bits ENERGIES HISTOGRAM_ENERGIES 1000
@table bd_bits BOUNDARIES HISTOGRAM_BOUNDARIES 1001
@raw
/// from i on: every centre lies strictly inside its bin, both tables increase, positive and finite
pub open spec fn ordered(e: Seq<u64>, b: Seq<u64>, i: int) -> bool
    decreases 1000 - i,
{
    i >= 1000 || {
        &&& 0 < b[i] < e[i] < b[i + 1] < 0x7ff0_0000_0000_0000
        &&& ordered(e, b, i + 1)
    }
}
@compute tables_ordered C10 C11 C12 C14
pub proof fn tables_ordered()
    ensures ordered(en_bits(), bd_bits(), 0),
{
    assert(ordered(en_bits(), bd_bits(), 0)) by (compute_only);
}
@raw
// ---- the values: with 60 decimals, rounded down, ratio() is 10^0.01 (0.1 LU), first_en() 10^((-69.95 + 0.691) / 10) and
// first_bd() 10^((-70 + 0.691) / 10); every further nominal value is the one before times the ratio
pub open spec fn pw(x: int, n: int) -> int
    decreases n,
{
    if n <= 0 { 1 } else if n % 2 == 0 { pw(x * x, n / 2) } else { x * pw(x, n - 1) }
}
pub open spec fn scale() -> int { pw(10, 60) }
pub open spec fn ratio() -> int { 1023292992280754130966275174819877827341164057237981308599425int }
// 10^0.0741 and 10^0.0691: -6.9259 = -7 + 0.0741, -6.9309 = -7 + 0.0691
pub open spec fn first_en() -> int { 1186041812948025088904831980148530851317543014645614340499392int }
pub open spec fn first_bd() -> int { 1172465304582296395954385279500360012676549451737658143849441int }
/// 10^0.41 and 10^0.91
pub open spec fn p41() -> int { 2570395782768863800700345082561900713472587414330031237988951int }
pub open spec fn p91() -> int { 8128305161640992465412787977313298018756885110006245463660232int }
/// x is the n-th root of a number that lies between lo and hi, rounded down
pub open spec fn root(x: int, n: int, lo: int, hi: int) -> bool { pw(x, n) <= lo && hi <= pw(x + 1, n) }
pub open spec fn constants() -> bool {
    &&& root(ratio(), 100, 10 * pw(scale(), 100), 10 * pw(scale(), 100))
    &&& root(p41(), 100, pw(10, 41) * pw(scale(), 100), pw(10, 41) * pw(scale(), 100))
    &&& root(first_en(), 100, pw(10, 7) * p41() * pw(scale(), 99), pw(10, 7) * (p41() + 1) * pw(scale(), 99))
    &&& root(p91(), 100, pw(10, 91) * pw(scale(), 100), pw(10, 91) * pw(scale(), 100))
    &&& root(first_bd(), 100, pw(10, 6) * p91() * pw(scale(), 99), pw(10, 6) * (p91() + 1) * pw(scale(), 99))
}
pub proof fn constants_ok()
    ensures constants(),
{
    assert(constants()) by (compute_only);
}
/// the double with these bits is nom / 10^67, up to a relative error of 2e-13
pub open spec fn near(bits: u64, nom: int) -> bool {
    let m = (bits % 0x10_0000_0000_0000) as int + 0x10_0000_0000_0000;
    let k = 1075 - (bits / 0x10_0000_0000_0000) as int;
    let a = m * pw(10, 67);
    let c = nom * pw(2, k);
    0 <= k && (a - c) * 5 * pw(10, 12) <= c && (c - a) * 5 * pw(10, 12) <= c
}
pub open spec fn valued(t: Seq<u64>, i: int, nom: int) -> bool
    decreases t.len() - i,
{
    i >= t.len() || (near(t[i], nom) && valued(t, i + 1, nom * ratio() / scale()))
}
@compute centres_valued C10 C11 C12 C14
pub proof fn centres_valued()
    ensures valued(en_bits(), 0, first_en()),
{
    assert(valued(en_bits(), 0, first_en())) by (compute_only);
}
@compute boundaries_valued C10 C11 C12 C14
pub proof fn boundaries_valued()
    ensures valued(bd_bits(), 0, first_bd()),
{
    assert(valued(bd_bits(), 0, first_bd())) by (compute_only);
}
@raw
pub proof fn ordered_at(i: int, j: int)
    requires 0 <= i <= j < 1000, ordered(en_bits(), bd_bits(), i),
    ensures 0 < bd_bits()[j] < en_bits()[j] < bd_bits()[j + 1] < 0x7ff0_0000_0000_0000,
    decreases j - i,
{
    if i < j { ordered_at(i + 1, j); }
}
pub proof fn bits_lt(a: f64, b: f64)
    requires 0 < s_bits64(a) < s_bits64(b) < 0x7ff0_0000_0000_0000,
    ensures flt(a, b), fgt(a, 0.0f64), fgt(b, 0.0f64),
{
    ax_pos_bits(a);
    ax_pos_bits(b);
    fl_zero_bits();
    fl_pos64(b, a);
    fl_pos64(a, 0.0f64);
    fl_pos64(b, 0.0f64);
}
pub proof fn inside(i: int)
    requires 0 <= i < 1000,
    ensures flt(bd(i), en(i)), flt(en(i), bd(i + 1)),
{
    tables_ordered();
    ordered_at(0, i);
    fl_en_bits(i);
    fl_bd_bits(i);
    fl_bd_bits(i + 1);
    bits_lt(bd(i), en(i));
    bits_lt(en(i), bd(i + 1));
}
pub proof fn increasing(i: int)
    requires 0 <= i < 1000,
    ensures flt(bd(i), bd(i + 1)), i < 999 ==> flt(en(i), en(i + 1)),
{
    inside(i);
    lt_trans(bd(i), en(i), bd(i + 1));
    if i < 999 {
        inside(i + 1);
        lt_trans(en(i), bd(i + 1), en(i + 1));
    }
}
pub proof fn positive(i: int)
    requires 0 <= i < 1000,
    ensures fgt(bd(i), 0.0f64), fgt(en(i), 0.0f64),
{
    tables_ordered();
    ordered_at(0, i);
    fl_en_bits(i);
    fl_bd_bits(i);
    bits_lt(bd(i), en(i));
}

pub proof fn lt_trans(a: f64, b: f64, c: f64)
    ensures
        flt(a, b) && flt(b, c) ==> flt(a, c),
        fle(a, b) && flt(b, c) ==> flt(a, c),
        flt(a, b) && fle(b, c) ==> flt(a, c),
        fle(a, b) && fle(b, c) ==> fle(a, c),
        flt(a, b) ==> fle(a, b),
        flt(a, b) ==> fgt(b, a),
        fgt(a, b) ==> flt(b, a),
        fge(a, b) ==> fle(b, a),
        fle(a, b) ==> fge(b, a),
        flt(a, b) ==> !(flt(b, a)),
        flt(a, b) ==> !(fle(b, a)),
        fle(a, b) ==> !(flt(b, a)),
        flt(a, b) ==> !(fge(a, b)),
        fge(a, b) ==> !(flt(a, b)),
        fgt(a, b) ==> !(fle(a, b)),
        (fle(a, a) && fle(b, b) && !(flt(a, b))) ==> fle(b, a),
        fle(a, b) ==> fle(a, a) && fle(b, b),
        flt(a, b) ==> fle(a, a) && fle(b, b),
{
    reveal(flt); reveal(fle); reveal(fgt); reveal(fge);
    assert((a < b && b < c) ==> a < c) by (bit_vector);
    assert((a <= b && b < c) ==> a < c) by (bit_vector);
    assert((a < b && b <= c) ==> a < c) by (bit_vector);
    assert((a <= b && b <= c) ==> a <= c) by (bit_vector);
    assert(a < b ==> a <= b) by (bit_vector);
    assert(a < b ==> b > a) by (bit_vector);
    assert(a > b ==> b < a) by (bit_vector);
    assert(a >= b ==> b <= a) by (bit_vector);
    assert(a <= b ==> b >= a) by (bit_vector);
    assert(a < b ==> !(b < a)) by (bit_vector);
    assert(a < b ==> !(b <= a)) by (bit_vector);
    assert(a <= b ==> !(b < a)) by (bit_vector);
    assert(a < b ==> !(a >= b)) by (bit_vector);
    assert(a >= b ==> !(a < b)) by (bit_vector);
    assert(a > b ==> !(a <= b)) by (bit_vector);
    assert((a <= a && b <= b && !(a < b)) ==> b <= a) by (bit_vector);
    assert(a <= b ==> (a <= a && b <= b)) by (bit_vector);
    assert(a < b ==> (a <= a && b <= b)) by (bit_vector);
}
pub proof fn bd_sorted(i: int, j: int)
    requires 0 <= i < j <= 1000,
    ensures flt(bd(i), bd(j)),
    decreases j - i,
{
    increasing(j - 1);
    if i < j - 1 {
        bd_sorted(i, j - 1);
        lt_trans(bd(i), bd(j - 1), bd(j));
    }
}
pub proof fn en_sorted(i: int, j: int)
    requires 0 <= i < j < 1000,
    ensures flt(en(i), en(j)),
    decreases j - i,
{
    increasing(j - 1);
    if i < j - 1 {
        en_sorted(i, j - 1);
        lt_trans(en(i), en(j - 1), en(j));
    }
}
/// The bin of an energy: its boundary below is not above the energy, the next one is not reached by it.
pub open spec fn is_bin(e: f64, i: int) -> bool {
    &&& 0 <= i < 1000
    &&& i == 0 || fge(e, bd(i))
    &&& i == 999 || !(fge(e, bd(i + 1)))
}
pub proof fn bin_unique(e: f64, i: int, j: int)
    requires is_bin(e, i), is_bin(e, j),
    ensures i == j,
{
    if i < j {
        if i + 1 < j { bd_sorted(i + 1, j); }
        lt_trans(bd(i + 1), bd(j), e);
        lt_trans(e, bd(j), bd(j));
        lt_trans(bd(i + 1), e, e);
        lt_trans(e, bd(i + 1), e);
    } else if j < i {
        if j + 1 < i { bd_sorted(j + 1, i); }
        lt_trans(bd(j + 1), bd(i), e);
        lt_trans(e, bd(i), bd(i));
        lt_trans(bd(j + 1), e, e);
        lt_trans(e, bd(j + 1), e);
    }
}
/// start index of the bins that are not below a threshold
pub open spec fn is_start(thr: f64, k: int) -> bool {
    &&& 0 <= k <= 1000
    &&& forall|i: int| 0 <= i < k ==> flt(#[trigger] en(i), thr)
    &&& forall|i: int| k <= i < 1000 ==> !(flt(#[trigger] en(i), thr))
}
pub proof fn start_unique(thr: f64, i: int, j: int)
    requires is_start(thr, i), is_start(thr, j),
    ensures i == j,
{
    if i < j { assert(flt(en(i), thr)); }
    if j < i { assert(flt(en(j), thr)); }
}
/// what the code computes as start index is one
pub proof fn start_from_bin(thr: f64, b: int)
    requires is_bin(thr, b), !(flt(thr, bd(0))),
    ensures is_start(thr, if fgt(thr, en(b)) { b + 1 } else { b }),
{
    let k = if fgt(thr, en(b)) { b + 1 } else { b };
    assert forall|i: int| 0 <= i < k implies flt(#[trigger] en(i), thr) by {
        inside(i);
        if i < b {
            if i + 1 < b { bd_sorted(i + 1, b); }
            lt_trans(en(i), bd(i + 1), bd(b));
            lt_trans(thr, bd(b), bd(b));
            lt_trans(en(i), bd(b), thr);
        } else {
            lt_trans(thr, en(b), en(b));
        }
    }
    assert forall|i: int| k <= i < 1000 implies !(flt(#[trigger] en(i), thr)) by {
        inside(i);
        inside(b);
        if i == b {
            lt_trans(en(b), thr, thr);
            lt_trans(thr, en(b), en(b));
        } else {
            // b < i, so b < 999 and flt(thr, bd(b + 1)) or NaN
            en_sorted(b, i);
            if b + 1 < i { bd_sorted(b + 1, i); }
            lt_trans(bd(b + 1), bd(i), en(i));
            lt_trans(bd(i), en(i), thr);
            lt_trans(bd(b + 1), en(i), thr);
            lt_trans(bd(b + 1), thr, thr);
            lt_trans(thr, bd(b + 1), thr);
            lt_trans(bd(b + 1), en(i), en(i));
            if flt(en(i), thr) {
                assert(flt(bd(b + 1), thr));
                assert(fge(thr, bd(b + 1))) by {
                    gt_ge(bd(b + 1), thr);
                }
            }
        }
    }
}
pub proof fn gt_ge(a: f64, b: f64)
    ensures flt(a, b) ==> fge(b, a), flt(a, b) ==> fgt(b, a), fle(a, b) ==> fge(b, a),
{
    reveal(flt); reveal(fle); reveal(fgt); reveal(fge);
    assert(a < b ==> b >= a) by (bit_vector);
    assert(a < b ==> b > a) by (bit_vector);
    assert(a <= b ==> b >= a) by (bit_vector);
}
pub proof fn start_from_zero(thr: f64)
    requires flt(thr, bd(0)),
    ensures is_start(thr, 0),
{
    assert forall|i: int| 0 <= i < 1000 implies !(flt(#[trigger] en(i), thr)) by {
        inside(i);
        if 0 < i { bd_sorted(0, i); }
        lt_trans(thr, bd(0), bd(i));
        lt_trans(bd(0), bd(i), en(i));
        lt_trans(thr, bd(0), en(i));
        lt_trans(thr, bd(i), en(i));
        lt_trans(thr, en(i), en(i));
    }
}
