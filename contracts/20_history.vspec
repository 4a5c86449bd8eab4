@module history history.rs
@raw
use crate::fl::*;
use crate::pre::*;
use crate::tables::*;
use crate::ebur128::Error;
use crate::utils::{energy_to_loudness, s_loudness};
use std::collections::VecDeque;
broadcast use {crate::fl::fl, crate::flem::cmp_nan, vstd::std_specs::vecdeque::group_vec_dequeue_axioms};

@item Histogram
@item Queue
@item HistoryError
@item History

@raw
// ------------------------------------------------------------------ specification

/// number of blocks in the first n bins
pub open spec fn cum(c: Seq<u64>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { cum(c, n - 1) + c[n - 1] }
}
/// summed energy of the first n bins, each block with the centre energy of its bin
pub open spec fn cum_e(c: Seq<u64>, n: int) -> f64
    decreases n,
{
    if n <= 0 { 0.0f64 } else { fadd(cum_e(c, n - 1), fmul(s_f64_of_int(c[n - 1] as int), en(n - 1))) }
}
pub proof fn cum_mono(c: Seq<u64>, i: int, j: int)
    requires 0 <= i <= j <= c.len(),
    ensures 0 <= cum(c, i) <= cum(c, j),
    decreases j,
{
    if j > 0 && i < j { cum_mono(c, i, j - 1); }
    if i > 0 && i == j { cum_mono(c, i - 1, j - 1); }
}
pub proof fn cum_update(c: Seq<u64>, k: int, v: u64, n: int)
    requires 0 <= k < c.len(), 0 <= n <= c.len(),
    ensures cum(c.update(k, v), n) == cum(c, n) + (if k < n { v - c[k] } else { 0 }),
    decreases n,
{
    if n > 0 { cum_update(c, k, v, n - 1); }
}
pub proof fn cum_ge(c: Seq<u64>, k: int, n: int)
    requires 0 <= k < n <= c.len(),
    ensures c[k] <= cum(c, n),
    decreases n,
{
    cum_mono(c, 0, n - 1);
    if k < n - 1 { cum_ge(c, k, n - 1); }
}

impl Histogram {
    pub open spec fn counts(&self) -> Seq<u64> { self.0@ }
    pub open spec fn total(&self) -> int { cum(self.counts(), 1000) }
}

/// abstract contents of a history
pub enum HV { H(Seq<u64>), Q(Seq<f64>, int) }
/// the bin of an energy
pub open spec fn bin(e: f64) -> int { choose|i: int| is_bin(e, i) }
pub open spec fn zeros() -> Seq<u64> { Seq::new(1000, |i: int| 0u64) }
/// records a block: below the lowest bin (-70 LUFS) it is not kept
pub open spec fn hv_add(v: HV, e: f64) -> HV {
    if flt(e, bd(0)) { v } else {
        match v {
            HV::H(c) => HV::H(c.update(bin(e), (c[bin(e)] + 1) as u64)),
            HV::Q(q, m) => HV::Q(record(q, m, e), m),
        }
    }
}
pub open spec fn hv_total(v: HV) -> int {
    match v { HV::H(c) => cum(c, 1000), HV::Q(q, m) => q.len() as int }
}
pub open spec fn hv_wf(v: HV) -> bool {
    match v { HV::H(c) => c.len() == 1000, HV::Q(q, m) => q.len() <= m && 0 <= m <= usize::MAX }
}
pub open spec fn hv_reset(v: HV) -> HV {
    match v { HV::H(c) => HV::H(zeros()), HV::Q(q, m) => HV::Q(seq![], m) }
}
pub open spec fn hv_set_max(v: HV, max: int) -> HV {
    match v { HV::H(c) => v, HV::Q(q, m) => HV::Q(keep_last(q, max), max) }
}
pub open spec fn hv_new(use_histogram: bool, max: int) -> HV {
    if use_histogram { HV::H(zeros()) } else { HV::Q(seq![], max) }
}
pub proof fn hv_add_facts(v: HV, e: f64)
    requires hv_wf(v), hv_total(v) < u64::MAX, exists|i: int| is_bin(e, i),
    ensures hv_wf(hv_add(v, e)), hv_total(v) <= hv_total(hv_add(v, e)) <= hv_total(v) + 1,
{
    match v {
        HV::H(c) => {
            let b = bin(e);
            cum_ge(c, b, 1000);
            cum_update(c, b, (c[b] + 1) as u64, 1000);
        }
        HV::Q(q, m) => {}
    }
}

impl History {
    pub open spec fn hv(&self) -> HV {
        match self {
            History::Histogram(h) => HV::H(h.counts()),
            History::Queue(q) => HV::Q(q.queue@, q.max as int),
        }
    }
    /// number of recorded blocks
    pub open spec fn blocks(&self) -> int {
        match self {
            History::Histogram(h) => h.total(),
            History::Queue(q) => q.queue@.len() as int,
        }
    }
    /// sum of the energies of the recorded blocks
    pub open spec fn esum(&self) -> f64 {
        match self {
            History::Histogram(h) => cum_e(h.counts(), 1000),
            History::Queue(q) => s_sum(q.queue@),
        }
    }
    pub open spec fn is_hist(&self) -> bool { self is Histogram }
    /// the stored blocks never exceed the maximum
    pub open spec fn wf(&self) -> bool {
        match self {
            History::Histogram(h) => true,
            History::Queue(q) => q.queue@.len() <= q.max,
        }
    }
}

/// keeps the last n blocks
pub open spec fn keep_last<A>(q: Seq<A>, n: int) -> Seq<A> {
    if q.len() <= n { q } else { q.subrange(q.len() - n, q.len() as int) }
}
/// what recording a block does to a history that keeps at most max blocks
pub open spec fn record(q: Seq<f64>, max: int, e: f64) -> Seq<f64> {
    keep_last(q.push(e), max)
}

/// blocks of all histories, and the sum of their energies
pub open spec fn all_blocks(s: Seq<&History>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { all_blocks(s.drop_last()) + s.last().blocks() }
}
pub open spec fn all_esum(s: Seq<&History>) -> f64
    decreases s.len(),
{
    if s.len() == 0 { 0.0f64 } else { fadd(all_esum(s.drop_last()), s.last().esum()) }
}
pub proof fn all_blocks_mono(s: Seq<&History>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).blocks() >= 0,
    ensures 0 <= all_blocks(s.subrange(0, k)) <= all_blocks(s),
    decreases s.len(),
{
    if k < s.len() {
        all_blocks_mono(s.drop_last(), k);
        assert(s.drop_last().subrange(0, k) =~= s.subrange(0, k));
    } else {
        assert(s.subrange(0, k) =~= s);
        if s.len() > 0 {
            all_blocks_mono(s.drop_last(), s.len() - 1);
            assert(s.drop_last().subrange(0, s.len() - 1) =~= s.drop_last());
        }
    }
}
pub proof fn blocks_nonneg(h: &History)
    ensures h.blocks() >= 0,
{
    match h {
        History::Histogram(x) => { cum_mono(x.counts(), 0, 1000); }
        History::Queue(q) => {}
    }
}
pub proof fn prefix_step<A>(s: Seq<A>, k: int)
    requires 0 <= k < s.len(),
    ensures s.subrange(0, k + 1).drop_last() == s.subrange(0, k), s.subrange(0, k + 1).last() == s[k],
        s.subrange(0, s.len() as int) == s, s.subrange(0, 0) == Seq::<A>::empty(), s.subrange(0, k + 1) == s.subrange(0, k).push(s[k]),
{
    assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
    assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k]));
    assert(s.subrange(0, s.len() as int) =~= s);
    assert(s.subrange(0, 0) =~= Seq::<A>::empty());
}

/// relative threshold: 10 LU below the mean energy
pub open spec fn rel_threshold(n: int, e: f64) -> f64 {
    fmul(fdiv(e, s_f64_of_int(n)), s_powf(10.0f64, fdiv(-10.0f64, 10.0f64)))
}

/// (number, energy) of the bins from the given one on whose centre energy is not below the threshold
pub open spec fn gate_hist(c: Seq<u64>, thr: f64, n: int) -> Seq<(u64, f64)>
    decreases n,
{
    if n <= 0 {
        seq![]
    } else if flt(en(n - 1), thr) {
        gate_hist(c, thr, n - 1)
    } else {
        gate_hist(c, thr, n - 1).push((c[n - 1], fmul(s_f64_of_int(c[n - 1] as int), en(n - 1))))
    }
}
/// (1, energy) for each stored block whose energy is not below the threshold
pub open spec fn gate_queue(q: Seq<f64>, thr: f64) -> Seq<(u64, f64)>
    decreases q.len(),
{
    if q.len() == 0 {
        seq![]
    } else if fge(q.last(), thr) {
        gate_queue(q.drop_last(), thr).push((1u64, q.last()))
    } else {
        gate_queue(q.drop_last(), thr)
    }
}
impl History {
    pub open spec fn gate(&self, thr: f64) -> Seq<(u64, f64)> {
        match self {
            History::Histogram(h) => gate_hist(h.counts(), thr, 1000),
            History::Queue(q) => gate_queue(q.queue@, thr),
        }
    }
}
pub open spec fn gate_all(s: Seq<&History>, thr: f64) -> Seq<(u64, f64)>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { gate_all(s.drop_last(), thr) + s.last().gate(thr) }
}
pub open spec fn g_count(g: Seq<(u64, f64)>) -> int
    decreases g.len(),
{
    if g.len() == 0 { 0 } else { g_count(g.drop_last()) + g.last().0 }
}
pub open spec fn g_energy(g: Seq<(u64, f64)>) -> f64
    decreases g.len(),
{
    if g.len() == 0 { 0.0f64 } else { fadd(g_energy(g.drop_last()), g.last().1) }
}
pub proof fn g_count_add(a: Seq<(u64, f64)>, b: Seq<(u64, f64)>)
    ensures g_count(a + b) == g_count(a) + g_count(b), g_count(b) >= 0,
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        g_count_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn gate_hist_count(c: Seq<u64>, thr: f64, n: int)
    requires 0 <= n <= c.len(),
    ensures 0 <= g_count(gate_hist(c, thr, n)) <= cum(c, n),
    decreases n,
{
    if n > 0 {
        gate_hist_count(c, thr, n - 1);
        if !flt(en(n - 1), thr) {
            assert(gate_hist(c, thr, n).drop_last() =~= gate_hist(c, thr, n - 1));
        }
    }
}
pub proof fn gate_queue_count(q: Seq<f64>, thr: f64)
    ensures 0 <= g_count(gate_queue(q, thr)) <= q.len(),
    decreases q.len(),
{
    if q.len() > 0 {
        gate_queue_count(q.drop_last(), thr);
        if fge(q.last(), thr) {
            assert(gate_queue(q, thr).drop_last() =~= gate_queue(q.drop_last(), thr));
        }
    }
}
pub proof fn gate_all_count(s: Seq<&History>, thr: f64)
    ensures 0 <= g_count(gate_all(s, thr)) <= all_blocks(s),
    decreases s.len(),
{
    if s.len() > 0 {
        gate_all_count(s.drop_last(), thr);
        g_count_add(gate_all(s.drop_last(), thr), s.last().gate(thr));
        match s.last() {
            History::Histogram(h) => { gate_hist_count(h.counts(), thr, 1000); }
            History::Queue(q) => { gate_queue_count(q.queue@, thr); }
        }
    }
}
pub proof fn g_count_prefix(g: Seq<(u64, f64)>, k: int)
    requires 0 <= k <= g.len(),
    ensures 0 <= g_count(g.subrange(0, k)) <= g_count(g),
{
    g_count_add(g.subrange(0, k), g.subrange(k, g.len() as int));
    assert(g.subrange(0, k) + g.subrange(k, g.len() as int) =~= g);
    g_count_add(Seq::empty(), g.subrange(0, k));
    assert(Seq::<(u64, f64)>::empty() + g.subrange(0, k) =~= g.subrange(0, k));
}
/// bins below the start index contribute nothing
pub proof fn gate_hist_skip(c: Seq<u64>, thr: f64, k: int, n: int)
    requires is_start(thr, k), 0 <= n <= k,
    ensures gate_hist(c, thr, n) == Seq::<(u64, f64)>::empty(),
    decreases n,
{
    if n > 0 {
        gate_hist_skip(c, thr, k, n - 1);
        assert(flt(en(n - 1), thr));
    }
}

pub enum Gated { Empty, Nan, Some(int, f64) }
pub open spec fn gated(s: Seq<&History>) -> Gated {
    if all_blocks(s) == 0 {
        Gated::Empty
    } else if s_nan64(all_esum(s)) {
        Gated::Nan
    } else {
        let g = gate_all(s, rel_threshold(all_blocks(s), all_esum(s)));
        if g_count(g) == 0 { Gated::Empty } else { Gated::Some(g_count(g), g_energy(g)) }
    }
}
/// Integrated loudness of the blocks of several histories
pub open spec fn integrated(s: Seq<&History>) -> f64 {
    match gated(s) {
        Gated::Empty => s_neg(s_inf()),
        Gated::Nan => s_nan(),
        Gated::Some(n, e) => s_loudness(fdiv(e, s_f64_of_int(n))),
    }
}
pub open spec fn rel_threshold_loudness(h: &History) -> f64 {
    if h.blocks() == 0 { -70.0f64 }
    else if s_nan64(h.esum()) { s_nan() }
    else { s_loudness(rel_threshold(h.blocks(), h.esum())) }
}

// ---- loudness range
/// nearest rank of the p-quantile of n sorted values
pub open spec fn rank(n: int, p: f64) -> int {
    s_int_of_f64(fadd(fmul(s_f64_of_int(n - 1), p), 0.5f64))
}
pub open spec fn lra_threshold(mean: f64) -> f64 {
    fmul(s_powf(10.0f64, fdiv(-20.0f64, 10.0f64)), mean)
}
/// rank-in-range
#[verifier::rlimit(300)]
pub proof fn fl_rank(n: int)
    requires 1 <= n < 0x8000_0000_0000_0000,
    ensures 0 <= rank(n, 0.1f64) <= n - 1, 0 <= rank(n, 0.95f64) <= n - 1,
{
    reveal(fadd); reveal(fmul); reveal(s_f64_of_int); reveal(s_int_of_f64);
    let m = (n - 1) as u64;
    let x = m as f64;
    let y = x * 0.1f64 + 0.5f64;
    assert(m < 0x7fff_ffff_ffff_ffffu64 && x == (m as f64) && y == x * 0.1f64 + 0.5f64 ==> y >= 0.0f64 && y <= 9223372036854775808.0f64 && (y as u64) <= m) by (bit_vector);
    let z = x * 0.95f64 + 0.5f64;
    assert(m < 0x7fff_ffff_ffff_ffffu64 && x == (m as f64) && z == x * 0.95f64 + 0.5f64 ==> z >= 0.0f64 && z <= 9223372036854775808.0f64 && (z as u64) <= m) by (bit_vector);
}

/// the bin that holds the block of rank r (blocks sorted by energy)
pub open spec fn is_rank_bin(c: Seq<u64>, r: int, j: int) -> bool {
    0 <= j < 1000 && cum(c, j) <= r < cum(c, j + 1)
}
pub proof fn rank_bin_unique(c: Seq<u64>, r: int, i: int, j: int)
    requires c.len() == 1000, is_rank_bin(c, r, i), is_rank_bin(c, r, j),
    ensures i == j,
{
    if i < j { cum_mono(c, i + 1, j); }
    if j < i { cum_mono(c, j + 1, i); }
}
pub open spec fn rank_bin(c: Seq<u64>, r: int) -> int { choose|j: int| is_rank_bin(c, r, j) }
pub open spec fn start_bin(thr: f64) -> int { choose|k: int| is_start(thr, k) }

pub open spec fn lra_hist(c: Seq<u64>) -> f64 {
    let n = cum(c, 1000);
    let e = cum_e(c, 1000);
    if n == 0 { 0.0f64 }
    else if s_nan64(e) { s_nan() }
    else {
        let start = start_bin(lra_threshold(fdiv(e, s_f64_of_int(n))));
        let below = cum(c, start);
        let m = n - below;
        if m == 0 { 0.0f64 } else {
            fsub(s_loudness(en(rank_bin(c, rank(m, 0.95f64) + below))), s_loudness(en(rank_bin(c, rank(m, 0.1f64) + below))))
        }
    }
}
/// number of leading elements of q that are below the threshold (all of them when q is sorted)
pub open spec fn is_below(q: Seq<f64>, thr: f64, k: int) -> bool {
    &&& 0 <= k <= q.len()
    &&& forall|i: int| 0 <= i < k ==> flt(#[trigger] q[i], thr)
    &&& k < q.len() ==> !flt(q[k], thr)
}
pub open spec fn below(q: Seq<f64>, thr: f64) -> int { choose|k: int| is_below(q, thr, k) }
pub proof fn below_unique(q: Seq<f64>, thr: f64, i: int, j: int)
    requires is_below(q, thr, i), is_below(q, thr, j),
    ensures i == j,
{
    if i < j { assert(flt(q[i], thr)); }
    if j < i { assert(flt(q[j], thr)); }
}
/// loudness range of sorted energies
pub open spec fn lra_sorted(q: Seq<f64>) -> f64 {
    if q.len() == 0 { 0.0f64 }
    else {
        let b = below(q, lra_threshold(fdiv(s_sum(q), s_f64_of_int(q.len() as int))));
        let m = q.len() - b;
        if m == 0 { 0.0f64 } else {
            fsub(s_loudness(q[b + rank(m, 0.95f64)]), s_loudness(q[b + rank(m, 0.1f64)]))
        }
    }
}
pub open spec fn sorted(q: Seq<f64>) -> bool {
    forall|i: int, j: int| 0 <= i < j < q.len() ==> fle(#[trigger] q[i], #[trigger] q[j])
}
pub open spec fn has_nan(q: Seq<f64>) -> bool {
    exists|i: int| 0 <= i < q.len() && s_nan64(#[trigger] q[i])
}
pub open spec fn concat(s: Seq<&History>) -> Seq<f64>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else {
        concat(s.drop_last()) + (match s.last() { History::Queue(q) => q.queue@, History::Histogram(h) => seq![] })
    }
}
pub open spec fn m_count(s: Seq<&History>, i: int) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else {
        m_count(s.drop_last(), i) + (match s.last() { History::Histogram(h) => h.counts()[i] as int, History::Queue(q) => 0int })
    }
}
/// the bins of several histograms added up
pub open spec fn merged(s: Seq<&History>) -> Seq<u64> { Seq::new(1000, |i: int| m_count(s, i) as u64) }
pub open spec fn all_hist(s: Seq<&History>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_hist() }
pub open spec fn all_queue(s: Seq<&History>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).is_hist() }
pub open spec fn m_cum(s: Seq<&History>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { m_cum(s, n - 1) + m_count(s, n - 1) }
}
pub proof fn m_count_le(s: Seq<&History>, i: int)
    requires 0 <= i < 1000,
    ensures 0 <= m_count(s, i) <= all_blocks(s),
    decreases s.len(),
{
    if s.len() > 0 {
        m_count_le(s.drop_last(), i);
        blocks_nonneg(s.last());
        match s.last() { History::Histogram(h) => { cum_ge(h.counts(), i, 1000); } History::Queue(q) => {} }
    }
}
pub proof fn m_cum_split(s: Seq<&History>, n: int)
    requires s.len() > 0, 0 <= n <= 1000,
    ensures m_cum(s, n) == m_cum(s.drop_last(), n) + (match s.last() { History::Histogram(h) => cum(h.counts(), n), History::Queue(q) => 0int }),
    decreases n,
{
    if n > 0 { m_cum_split(s, n - 1); }
}
pub proof fn m_cum_empty(s: Seq<&History>, n: int)
    requires s.len() == 0, n <= 1000,
    ensures m_cum(s, n) == 0,
    decreases n,
{
    if n > 0 { m_cum_empty(s, n - 1); }
}
pub proof fn m_cum_total(s: Seq<&History>)
    ensures m_cum(s, 1000) <= all_blocks(s), all_hist(s) ==> m_cum(s, 1000) == all_blocks(s),
    decreases s.len(),
{
    if s.len() == 0 { m_cum_empty(s, 1000); } else {
        m_cum_split(s, 1000);
        m_cum_total(s.drop_last());
        blocks_nonneg(s.last());
        assert(all_hist(s) ==> s[s.len() - 1].is_hist());
        assert(all_hist(s) ==> all_hist(s.drop_last())) by {
            if all_hist(s) { assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).is_hist() by { assert(s[i].is_hist()); } }
        }
    }
}
pub proof fn merged_cum(s: Seq<&History>, n: int)
    requires 0 <= n <= 1000, all_blocks(s) <= u64::MAX,
    ensures cum(merged(s), n) == m_cum(s, n),
    decreases n,
{
    if n > 0 { merged_cum(s, n - 1); m_count_le(s, n - 1); }
}
pub proof fn merged_one(s: Seq<&History>)
    requires s.len() == 1, s[0].is_hist(),
    ensures merged(s) == s[0]->Histogram_0.counts(),
{
    let c = s[0]->Histogram_0.counts();
    assert forall|i: int| 0 <= i < 1000 implies merged(s)[i] == c[i] by {
        assert(m_count(s, i) == m_count(s.drop_last(), i) + c[i]);
        assert(s.drop_last().len() == 0);
        assert(m_count(s.drop_last(), i) == 0);
    }
    assert(merged(s) =~= c);
}
/// the comparator given to the sort orders numbers, puts NaN last and reports whether it saw one
pub open spec fn vx_cmp_contract(a: f64, b: f64, flag0: bool, flag1: bool, r: std::cmp::Ordering) -> bool {
    &&& (!s_nan64(a) && !s_nan64(b) ==> flag1 == flag0 && s_partial_cmp(a, b) == Some(r))
    &&& (s_nan64(a) || s_nan64(b) ==> flag1)
}
/// slice::sort_unstable_by with a comparator that satisfies the contract above: a NaN among at least two elements is
/// compared at least once; without one the result is the sorted permutation
#[verifier::external_body]
pub fn vx_sort_flag(v: &mut Vec<f64>, flag: &mut bool)
    requires *old(flag) == false,
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        final(v)@.len() == old(v)@.len(),
        !*final(flag) ==> sorted(final(v)@),
        *final(flag) ==> old(v)@.len() >= 2 && has_nan(old(v)@),
        old(v)@.len() >= 2 && has_nan(old(v)@) ==> *final(flag),
{
    unimplemented!()
}

@fn find_histogram_index(energy) -> r
@props C12 C02
@attr #[verifier::loop_isolation(true)]
@ty $m0.0 usize
@ty $m0.1 usize
@spec
    ensures
        is_bin(energy, r as int), //# C12
@loop 0
    invariant_except_break
        0 <= $m0.0, $m0.0 + 2 <= $m0.1, $m0.1 <= 1000,
        $m0.0 == 0 || fge(energy, bd($m0.0 as int)),
        $m0.1 == 1000 || !fge(energy, bd($m0.1 as int)),
    ensures
        0 <= $m0.0, $m0.0 + 1 == $m0.1, $m0.1 <= 1000,
        $m0.0 == 0 || fge(energy, bd($m0.0 as int)),
        $m0.1 == 1000 || !fge(energy, bd($m0.1 as int)),
    decreases $m0.1 - $m0.0

@fn Histogram::new -> r
@props C12 C15
@spec
    ensures r.counts() == Seq::new(1000, |i: int| 0u64), r.total() == 0,
@exit
    proof { assert(vx_ret.0@ =~= Seq::new(1000, |i: int| 0u64)); cum_zero(vx_ret.0@, 1000); }

@raw
pub proof fn cum_zero(c: Seq<u64>, n: int)
    requires c.len() == 1000, forall|i: int| 0 <= i < 1000 ==> c[i] == 0, n <= 1000,
    ensures cum(c, n) == 0,
    decreases n,
{
    if n > 0 { cum_zero(c, n - 1); }
}

@fn Histogram::add(energy)
@props C12 C02
@spec
    requires old(self).total() < u64::MAX,
    ensures
        is_bin(energy, bin(energy)), //# C12
        // exactly one more block, in the bin of its energy
        final(self).counts() == old(self).counts().update(bin(energy), (old(self).counts()[bin(energy)] + 1) as u64), //# C12
        final(self).total() == old(self).total() + 1,
@entry
    proof {
        assert forall|i: int| 0 <= i < 1000 implies old(self).0@[i] < u64::MAX by { cum_ge(old(self).0@, i, 1000); }
    }
@exit
    proof {
        let i = bin(energy);
        assert forall|j: int| is_bin(energy, j) implies j == i by { bin_unique(energy, i, j); }
        let c = (old(self).0@[i] + 1) as u64;
        assert(self.0@ =~= old(self).0@.update(i, c));
        cum_update(old(self).0@, i, c, 1000);
    }

@fn Histogram::reset
@props C15 C12
@spec
    ensures final(self).counts() == Seq::new(1000, |i: int| 0u64), final(self).total() == 0,
@exit
    proof { assert(self.0@ =~= Seq::new(1000, |i: int| 0u64)); cum_zero(self.0@, 1000); }

@fn Histogram::calc_relative_threshold -> r
@props C10 C02
@spec
    requires self.total() <= u64::MAX,
    ensures r.0 == self.total(), r.1 == cum_e(self.counts(), 1000), //# C10
@loop 0
    invariant
        vx_i0 <= vx_n0, vx_n0 == 1000,
        $m0.0 == cum(self.counts(), vx_i0 as int),
        $m0.1 == cum_e(self.counts(), vx_i0 as int),
    decreases vx_n0 - vx_i0
@top 0
    proof { cum_mono(self.counts(), vx_k0 + 1, 1000); cum_mono(self.counts(), 0, vx_k0 as int); }

@fn Histogram::loudness_range(h) -> r
@attr #[verifier::rlimit(100)]
@attr #[verifier::spinoff_prover]
@attr #[verifier::loop_isolation(true)]
@props C11 C02
@spec
    requires cum(h@, 1000) < 0x8000_0000_0000_0000,
    ensures r == lra_hist(h@), //# C11
@loop 0
    invariant
        vx_i0 <= vx_n0, vx_n0 == 1000, cum(h@, 1000) < 0x8000_0000_0000_0000,
        size == cum(h@, vx_i0 as int),
        power == cum_e(h@, vx_i0 as int),
        forall|i: int| 0 <= i < vx_i0 ==> h_sum@[i] == cum(h@, i + 1),
    decreases vx_n0 - vx_i0
@top 0
    proof { cum_mono(h@, vx_k0 + 1, 1000); cum_mono(h@, 0, vx_k0 as int); }
@post 0
    let ghost c = h@;
    let ghost total = size;
    proof {
        cum_mono(c, 0, 1000);
        assert forall|i: int, j: int| 0 <= i < j < 1000 implies h_sum@[i] <= h_sum@[j] by { cum_mono(c, i + 1, j + 1); }
    }
@subst let before =>> proof { if !flt(integrated, bd(0)) { let b = choose|b: int| is_bin(integrated, b); assert forall|j: int| is_bin(integrated, j) implies j == b by { bin_unique(integrated, b, j); } start_from_bin(integrated, b); } else { start_from_zero(integrated); } assert(is_start(integrated, index as int)); start_unique(integrated, index as int, start_bin(integrated)); cum_mono(c, index as int, 1000); } let before
@subst let percentile_low =>> proof { fl_rank(size as int); assert(before == cum(c, index as int)); assert(size as int + before as int == cum(c, 1000)); } let percentile_low
@pre 1
    proof {
        let sub = h_sum@.subrange(index as int, 1000);
        assert(sub[999 - index] == h_sum@[999]);
        assert forall|a: int, b: int| 0 <= a < b < sub.len() implies sub[a] <= sub[b] by {
            assert(h_sum@[index + a] <= h_sum@[index + b]);
        }
        assert(percentile_low < h_sum@[999]);
        assert(sub[j as int] == h_sum@[index + j]);
        assert(index + j < 1000 && h_sum@[index + j] > percentile_low);
    }
@loop 1
    invariant
        vx_i1 <= vx_n1, vx_n1 <= 1000, vx_lo2 == 0,
        vx_acc0 is None ==> forall|i: int| 0 <= i < vx_i1 ==> h_sum@[i] > percentile_low,
        vx_acc0 is Some ==> vx_acc0->0 < vx_i1 && h_sum@[vx_acc0->0 as int] <= percentile_low
            && forall|i: int| vx_acc0->0 < i < vx_i1 ==> h_sum@[i] > percentile_low,
    decreases vx_n1 - vx_i1
@subst let l_en =>> proof { rank_lemma(c, h_sum@, index as int, before as int, percentile_low as int, j as int); } let l_en
@pre 2
    proof {
        let sub = h_sum@.subrange(index as int, 1000);
        assert(sub[999 - index] == h_sum@[999]);
        assert forall|a: int, b: int| 0 <= a < b < sub.len() implies sub[a] <= sub[b] by {
            assert(h_sum@[index + a] <= h_sum@[index + b]);
        }
        assert(percentile_high < h_sum@[999]);
        assert(sub[j as int] == h_sum@[index + j]);
        assert(index + j < 1000 && h_sum@[index + j] > percentile_high);
    }
@loop 2
    invariant
        vx_i2 <= vx_n2, vx_n2 <= 1000, vx_lo6 == 0,
        vx_acc1 is None ==> forall|i: int| 0 <= i < vx_i2 ==> h_sum@[i] > percentile_high,
        vx_acc1 is Some ==> vx_acc1->0 < vx_i2 && h_sum@[vx_acc1->0 as int] <= percentile_high
            && forall|i: int| vx_acc1->0 < i < vx_i2 ==> h_sum@[i] > percentile_high,
    decreases vx_n2 - vx_i2
@subst let h_en =>> proof { rank_lemma(c, h_sum@, index as int, before as int, percentile_high as int, j as int); } let h_en

@raw
pub proof fn rank_lemma(c: Seq<u64>, hs: Seq<u64>, index: int, before: int, p: int, j: int)
    requires
        c.len() == 1000, hs.len() == 1000,
        forall|i: int| 0 <= i < 1000 ==> hs[i] == cum(c, i + 1),
        0 <= p < cum(c, 1000),
        0 <= j < 1000,
        j == 0 || hs[j - 1] <= p,
        hs[j] > p,
    ensures is_rank_bin(c, p, j), j == rank_bin(c, p),
{
    assert(is_rank_bin(c, p, j));
    rank_bin_unique(c, p, j, rank_bin(c, p));
}

@fn Queue::new(max) -> r
@props C13 C02
@spec
    ensures r.queue@ == Seq::<f64>::empty(), r.max == max, //# C13 C15

@fn Queue::add(energy)
@props C13 C02
@spec
    requires old(self).queue@.len() <= old(self).max, old(self).max > 0,
    ensures
        final(self).queue@ == record(old(self).queue@, old(self).max as int, energy), //# C13
        final(self).max == old(self).max, //# C13
@exit
    proof {
        assert(self.queue@ =~= record(old(self).queue@, old(self).max as int, energy));
    }

@fn Queue::set_max_size(max)
@props C13 C02
@spec
    ensures
        final(self).queue@ == keep_last(old(self).queue@, max as int), //# C13
        final(self).max == max, //# C13
@loop 0
    invariant
        self.queue@.len() <= old(self).queue@.len(),
        old(self).queue@.len() <= max ==> self.queue@.len() == old(self).queue@.len(),
        old(self).queue@.len() > max ==> self.queue@.len() >= max,
        self.queue@ == old(self).queue@.subrange(old(self).queue@.len() - self.queue@.len(), old(self).queue@.len() as int),
    decreases self.queue@.len()
@exit
    proof { assert(self.queue@ =~= keep_last(old(self).queue@, max as int)); }

@fn Queue::reset
@props C15 C13
@spec
    ensures final(self).queue@ == Seq::<f64>::empty(), final(self).max == old(self).max, //# C15 C13

@fn Queue::calc_relative_threshold -> r
@props C10 C02
@spec
    ensures r.0 == self.queue@.len(), r.1 == s_sum(self.queue@), //# C10

@fn Queue::loudness_range(q) -> r
@props C11 C02
@spec
    requires q@.len() < 0x8000_0000_0000_0000,
    ensures r == lra_sorted(q@), //# C11
@loop 0
    invariant_except_break
        vx_acc0 == vx_i0,
        forall|i: int| 0 <= i < vx_acc0 ==> flt(#[trigger] q@[i], integrated),
    invariant
        vx_i0 <= vx_n0, vx_n0 == q@.len(),
    ensures
        is_below(q@, integrated, vx_acc0 as int),
    decreases vx_n0 - vx_i0
@attr #[verifier::loop_isolation(true)]
@post 0
    proof {
        below_unique(q@, integrated, vx_acc0 as int, below(q@, integrated));
        if q@.len() - vx_acc0 > 0 { fl_rank(q@.len() - vx_acc0); }
    }

@fn History::new(use_histogram, max) -> r
@props C13 C15
@spec
    ensures r.hv() == hv_new(use_histogram, max as int), //# C13 C15
        r.wf(), r.blocks() == 0,

@fn History::add(energy)
@props C05 C10 C11 C12 C13 C02
@spec
    requires old(self).wf(), old(self).blocks() < u64::MAX, (*old(self)) is Queue ==> (*old(self))->Queue_0.max > 0,
    ensures
        final(self).hv() == hv_add(old(self).hv(), energy), //# C05 C10 C11 C12 C13
        final(self).wf(), //# C13
        final(self).blocks() <= old(self).blocks() + 1,

@fn History::set_max_size(max)
@props C13
@spec
    ensures final(self).hv() == hv_set_max(old(self).hv(), max as int), //# C13
        final(self).wf(), final(self).blocks() <= old(self).blocks(), //# C13

@fn History::reset
@props C15
@spec
    ensures final(self).hv() == hv_reset(old(self).hv()), //# C15
        old(self).wf() ==> final(self).wf(), final(self).blocks() == 0,

@fn History::calc_relative_threshold -> r
@props C10 C02
@spec
    requires self.blocks() <= u64::MAX,
    ensures r.0 == self.blocks(), r.1 == self.esum(), //# C10

@fn History::gated_loudness -> r
@props C10 C14 C02
@spec
    requires self.blocks() <= u64::MAX,
    ensures r == integrated(seq![self]), //# C10 C14
@subst Self :: gated_loudness_multiple(& [self]) =>> let vx_one = [self]; proof { one_history(self); assert(vx_one@ =~= seq![self]); } Self :: gated_loudness_multiple(& vx_one)

@raw
pub proof fn one_history(h: &History)
    ensures all_blocks(seq![h]) == h.blocks(), all_blocks(seq![h]) >= 0,
        h.is_hist() == all_hist(seq![h]), h.is_hist() != all_queue(seq![h]),
        concat(seq![h]) == (match h { History::Queue(q) => q.queue@, History::Histogram(h) => seq![] }),
{
    blocks_nonneg(h);
    assert(seq![h].drop_last() =~= Seq::<&History>::empty());
    assert(all_blocks(seq![h].drop_last()) == 0);
    assert(concat(seq![h].drop_last()) =~= Seq::<f64>::empty());
    assert(seq![h][0] == h); if h.is_hist() { assert(all_hist(seq![h])); } else { assert(all_queue(seq![h])); }
    assert(concat(seq![h]) =~= (match h { History::Queue(q) => q.queue@, History::Histogram(h) => seq![] }));
}
pub proof fn start_lemma(thr: f64, idx: int)
    requires
        flt(thr, bd(0)) ==> idx == 0,
        !flt(thr, bd(0)) ==> exists|b: int| is_bin(thr, b) && idx == (if fgt(thr, en(b)) { b + 1 } else { b }),
    ensures is_start(thr, idx), idx == start_bin(thr),
{
    if flt(thr, bd(0)) {
        start_from_zero(thr);
    } else {
        let b = choose|b: int| is_bin(thr, b) && idx == (if fgt(thr, en(b)) { b + 1 } else { b });
        start_from_bin(thr, b);
    }
    start_unique(thr, idx, start_bin(thr));
}

@fn History::iter_gating_block_count_and_energy(s)
@props C10 C14 C02
@attr #[verifier::loop_isolation(true)]
@attr #[verifier::rlimit(40)]
@sig
pub fn iter_gating_block_count_and_energy(s: &[&History]) -> (r: Result<Vec<(u64, f64)>, HistoryError>)
@spec
    requires all_blocks(s@) <= u64::MAX,
    ensures
        all_blocks(s@) == 0 ==> r == Result::<Vec<(u64, f64)>, HistoryError>::Err(HistoryError::NoBlocksAboveThreshold), //# C10 C14
        all_blocks(s@) != 0 && s_nan64(all_esum(s@)) ==> r == Result::<Vec<(u64, f64)>, HistoryError>::Err(HistoryError::RelativeThresholdIsNan), //# C10
        all_blocks(s@) != 0 && !s_nan64(all_esum(s@)) ==>
            r is Ok && r->Ok_0@ == gate_all(s@, rel_threshold(all_blocks(s@), all_esum(s@))), //# C10 C14
@ty $m0.0 u64
@ty $m0.1 f64
@ty vx_out0 Vec<(u64, f64)>
@ty vx_out1 Vec<(u64, f64)>
@ty vx_out6 Vec<(u64, f64)>
@ty histogram_iterator Option<Vec<(u64, f64)>>
@ty queue_iterator Option<Vec<(u64, f64)>>
@loop 0
    invariant
        vx_i0 <= vx_n0, vx_n0 == s@.len(), all_blocks(s@) <= u64::MAX,
        $m0.0 == all_blocks(s@.subrange(0, vx_i0 as int)),
        $m0.1 == all_esum(s@.subrange(0, vx_i0 as int)),
    decreases vx_n0 - vx_i0
@top 0
    proof {
        assert forall|i: int| 0 <= i < s@.len() implies (#[trigger] s@[i]).blocks() >= 0 by { blocks_nonneg(s@[i]); }
        all_blocks_mono(s@, vx_i0 as int);
        all_blocks_mono(s@, vx_k0 as int);
        prefix_step(s@, vx_k0 as int);
    }
@post 0
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); }
@pre 1
    let ghost start = start_index as int;
    proof {
        start_lemma(relative_threshold, start);
        assert(relative_threshold == rel_threshold(all_blocks(s@), all_esum(s@)));
        assert(s@.subrange(0, 0) =~= Seq::<&History>::empty());
    }
@loop 1
    invariant
        vx_i1 <= vx_n1, vx_n1 == s@.len(), start == start_index, is_start(relative_threshold, start),
        vx_out0@ == gate_all(s@.subrange(0, vx_i1 as int), relative_threshold),
    decreases vx_n1 - vx_i1
@top 1
    let ghost base = vx_out0@;
    let ghost hist = s@[vx_k1 as int];
    proof { prefix_step(s@, vx_k1 as int); }
@pre 2
    proof { gate_hist_skip(h.0@, relative_threshold, start, start); assert(vx_out1@ =~= Seq::<(u64, f64)>::empty()); }
@loop 2
    invariant
        vx_i2 <= vx_n2, vx_n2 == 1000 - start, vx_lo2 == start, vx_lo4 == start, start == start_index, is_start(relative_threshold, start),
        vx_out1@ == gate_hist(h.0@, relative_threshold, start + vx_i2),
    decreases vx_n2 - vx_i2
@bot 2
    proof { assert(!flt(en(vx_lo4 + vx_k2), relative_threshold)); }
@pre 3
    proof { assert(q.queue@.subrange(0, 0) =~= Seq::<f64>::empty()); assert(vx_out6@ =~= Seq::<(u64, f64)>::empty()); }
@loop 3
    invariant
        vx_i3 <= vx_n3, vx_n3 == q.queue@.len(),
        vx_out6@ == gate_queue(q.queue@.subrange(0, vx_i3 as int), relative_threshold),
    decreases vx_n3 - vx_i3
@top 3
    proof { prefix_step(q.queue@, vx_k3 as int); }
@post 3
    proof { assert(q.queue@.subrange(0, q.queue@.len() as int) =~= q.queue@); }
@pre 4
    proof { assert(base + vx_inner8@.subrange(0, 0) =~= base); }
@loop 4
    invariant
        vx_i4 <= vx_n4, vx_n4 == vx_inner8@.len(),
        vx_out0@ == base + vx_inner8@.subrange(0, vx_i4 as int),
    decreases vx_n4 - vx_i4
@bot 4
    proof { assert(base + vx_inner8@.subrange(0, vx_i4 as int) =~= (base + vx_inner8@.subrange(0, vx_k4 as int)).push(vx_inner8@[vx_k4 as int])); }
@post 4
    proof { assert(vx_inner8@.subrange(0, vx_inner8@.len() as int) =~= vx_inner8@); }
@pre 5
    proof { assert(base + vx_inner9@.subrange(0, 0) =~= base); }
@loop 5
    invariant
        vx_i5 <= vx_n5, vx_n5 == vx_inner9@.len(),
        vx_out0@ == base + vx_inner9@.subrange(0, vx_i5 as int),
    decreases vx_n5 - vx_i5
@bot 5
    proof { assert(base + vx_inner9@.subrange(0, vx_i5 as int) =~= (base + vx_inner9@.subrange(0, vx_k5 as int)).push(vx_inner9@[vx_k5 as int])); }
@post 5
    proof { assert(vx_inner9@.subrange(0, vx_inner9@.len() as int) =~= vx_inner9@); }
@post 1
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); }

@fn History::gated_loudness_multiple(s) -> r
@props C10 C14 C02
@spec
    requires all_blocks(s@) <= u64::MAX,
    ensures r == integrated(s@), //# C10 C14

@fn History::gating_block_count_and_energy -> r
@props C10 C02
@spec
    requires self.blocks() <= u64::MAX,
    ensures gated_is(gated(seq![self]), r), //# C10
@subst Self :: gating_block_count_and_energy_multiple(& [self]) =>> let vx_one = [self]; proof { one_history(self); assert(vx_one@ =~= seq![self]); } Self :: gating_block_count_and_energy_multiple(& vx_one)

@raw
pub open spec fn gated_is(g: Gated, r: Result<(u64, f64), HistoryError>) -> bool {
    match g {
        Gated::Empty => r == Result::<(u64, f64), HistoryError>::Err(HistoryError::NoBlocksAboveThreshold),
        Gated::Nan => r == Result::<(u64, f64), HistoryError>::Err(HistoryError::RelativeThresholdIsNan),
        Gated::Some(n, e) => r is Ok && r->Ok_0.0 == n && r->Ok_0.1 == e,
    }
}

@fn History::gating_block_count_and_energy_multiple(s) -> r
@props C10 C14 C02
@attr #[verifier::loop_isolation(true)]
@spec
    requires all_blocks(s@) <= u64::MAX,
    ensures gated_is(gated(s@), r), //# C10 C14
@pre 0
    proof {
        gate_all_count(s@, rel_threshold(all_blocks(s@), all_esum(s@)));
        assert(iter@.subrange(0, 0) =~= Seq::<(u64, f64)>::empty());
    }
@loop 0
    invariant
        vx_i0 <= vx_n0, vx_n0 == iter@.len(), g_count(iter@) <= u64::MAX,
        $m0.0 == g_count(iter@.subrange(0, vx_i0 as int)),
        $m0.1 == g_energy(iter@.subrange(0, vx_i0 as int)),
    decreases vx_n0 - vx_i0
@top 0
    proof {
        g_count_prefix(iter@, vx_i0 as int);
        prefix_step(iter@, vx_k0 as int);
    }
@post 0
    proof { assert(iter@.subrange(0, iter@.len() as int) =~= iter@); }

@fn History::relative_threshold -> r
@props C10 C02
@spec
    requires self.blocks() <= u64::MAX,
    ensures r == rel_threshold_loudness(self), //# C10

@raw
/// loudness range of the blocks of several histories of the same kind
pub open spec fn lra_is(s: Seq<&History>, r: Result<f64, Error>) -> bool {
    if s.len() == 0 { r == Result::<f64, Error>::Ok(0.0f64) }
    else if all_hist(s) { r == Result::<f64, Error>::Ok(lra_hist(merged(s))) }
    else if all_queue(s) {
        if concat(s).len() >= 2 && has_nan(concat(s)) { r == Result::<f64, Error>::Ok(s_nan()) }
        else {
            exists|w: Seq<f64>| #[trigger] w.to_multiset() == concat(s).to_multiset() && w.len() == concat(s).len() && sorted(w)
                && r == Result::<f64, Error>::Ok(lra_sorted(w))
        }
    } else { r == Result::<f64, Error>::Err(Error::InvalidMode) }
}
pub proof fn concat_len(s: Seq<&History>)
    ensures concat(s).len() <= all_blocks(s),
    decreases s.len(),
{
    if s.len() > 0 { concat_len(s.drop_last()); blocks_nonneg(s.last()); }
}

@fn History::loudness_range -> r
@props C11 C02
@spec
    requires self.blocks() < 0x8000_0000_0000_0000,
    ensures lra_is(seq![self], Result::<f64, Error>::Ok(r)), //# C11
@subst Self :: loudness_range_multiple(& [self]) =>> let vx_one = [self]; proof { one_history(self); assert(vx_one@ =~= seq![self]); } Self :: loudness_range_multiple(& vx_one)

@fn History::loudness_range_multiple(s) -> r
@props C11 C14 C02
@attr #[verifier::loop_isolation(true)]
@attr #[verifier::rlimit(40)]
@ty len usize
@subst combined = [0; 1000]; =>> combined = [0u64; 1000];
@subst let mut combined = Vec =>> let mut combined: Vec<f64> = Vec
@spec
    requires all_blocks(s@) < 0x8000_0000_0000_0000,
    ensures
        lra_is(s@, r), //# C11 C14
@entry
    proof {
        assert forall|i: int| 0 <= i < s@.len() implies (#[trigger] s@[i]).blocks() >= 0 by { blocks_nonneg(s@[i]); }
        m_cum_total(s@); merged_cum(s@, 1000);
        if s@.len() == 1 && s@[0].is_hist() { merged_one(s@); }
        concat_len(s@);
    }
@pre 0
    proof { assert(s@.subrange(0, 0) =~= Seq::<&History>::empty()); }
@loop 0
    invariant
        vx_i0 <= vx_n0, vx_n0 == s@.len(), all_blocks(s@) < 0x8000_0000_0000_0000, s@.len() > 0, s@[0].is_hist(),
        forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]).blocks() >= 0,
        forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] s@[i]).is_hist(),
        forall|i: int| 0 <= i < 1000 ==> combined@[i] == m_count(s@.subrange(0, vx_i0 as int), i),
    decreases vx_n0 - vx_i0
@top 0
    let ghost pre_c: Seq<u64> = combined@;
    proof {
        all_blocks_mono(s@, vx_i0 as int);
        prefix_step(s@, vx_k0 as int);
        assert forall|i: int| 0 <= i < 1000 implies pre_c[i] + (match s@[vx_k0 as int] { History::Histogram(h) => h.counts()[i] as int, History::Queue(q) => 0int }) == m_count(s@.subrange(0, vx_i0 as int), i)
            && m_count(s@.subrange(0, vx_i0 as int), i) <= u64::MAX by { m_count_le(s@.subrange(0, vx_i0 as int), i); }
    }
@pre 1
    proof {
        assert forall|i: int| 0 <= i < 1000 implies pre_c[i] + h.0@[i] <= u64::MAX by {
            assert(pre_c[i] + s@[vx_k0 as int]->Histogram_0.counts()[i] == m_count(s@.subrange(0, vx_i0 as int), i));
        }
    }
@loop 1
    invariant
        vx_i1 <= vx_n1, vx_n1 == 1000,
        forall|i: int| 0 <= i < 1000 ==> pre_c[i] + h.0@[i] <= u64::MAX,
        forall|i: int| 0 <= i < 1000 ==> combined@[i] == (if i < vx_i1 { pre_c[i] + h.0@[i] } else { pre_c[i] as int }),
    decreases vx_n1 - vx_i1
@post 0
    proof {
        assert(s@.subrange(0, s@.len() as int) =~= s@);
        assert forall|i: int| 0 <= i < 1000 implies combined@[i] == merged(s@)[i] by { m_count_le(s@, i); }
        assert(combined@ =~= merged(s@));
    }
@pre 2
    proof { assert(s@.subrange(0, 0) =~= Seq::<&History>::empty()); }
@loop 2
    invariant
        vx_i2 <= vx_n2, vx_n2 == s@.len(), all_blocks(s@) < 0x8000_0000_0000_0000, s@.len() > 0, !s@[0].is_hist(),
        forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]).blocks() >= 0,
        forall|i: int| 0 <= i < vx_i2 ==> !(#[trigger] s@[i]).is_hist(),
        len == all_blocks(s@.subrange(0, vx_i2 as int)),
    decreases vx_n2 - vx_i2
@top 2
    proof {
        all_blocks_mono(s@, vx_i2 as int); prefix_step(s@, vx_k2 as int);
        assert(all_blocks(s@.subrange(0, vx_i2 as int)) == all_blocks(s@.subrange(0, vx_k2 as int)) + s@[vx_k2 as int].blocks());
        assert(s@[vx_k2 as int].blocks() >= 0);
    }
@pre 3
    proof { assert(combined@ =~= Seq::<f64>::empty()); }
@loop 3
    invariant
        vx_i3 <= vx_n3, vx_n3 == s@.len(), all_queue(s@),
        combined@ == concat(s@.subrange(0, vx_i3 as int)),
    decreases vx_n3 - vx_i3
@top 3
    proof { prefix_step(s@, vx_k3 as int); }
    let ghost pre3 = combined@;
@bot 3
    proof { let q = s@[vx_k3 as int]->Queue_0; assert(combined@ =~= pre3 + q.queue@); }
@post 3
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); }
