@module together
@raw
// Several analyzers together, and the same analyzer again: statements over the specifications of the queries.
use crate::fl::*;
use crate::pre::*;
use crate::utils::*;
use crate::filter::*;
use crate::history::*;
use crate::interp::*;
use crate::true_peak::*;
use crate::tables::*;
use crate::engine::*;
use crate::ebur128::*;
use crate::theorems::*;
use vstd::multiset::*;
broadcast use crate::fl::fl;

// ------------------------------------------------------------------ histories in any order
pub open spec fn queue_of(h: &History) -> Seq<f64> { match h { History::Queue(q) => q.queue@, History::Histogram(h) => seq![] } }
pub open spec fn count_of(h: &History, i: int) -> int { match h { History::Histogram(h) => h.counts()[i] as int, History::Queue(q) => 0int } }
pub proof fn together_add(a: Seq<&History>, b: Seq<&History>, i: int)
    ensures concat(a + b) == concat(a) + concat(b), m_count(a + b, i) == m_count(a, i) + m_count(b, i), all_blocks(a + b) == all_blocks(a) + all_blocks(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(concat(a) + concat(b) =~= concat(a));
    } else {
        together_add(a, b.drop_last(), i);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((concat(a) + concat(b.drop_last())) + queue_of(b.last()) =~= concat(a) + concat(b));
    }
}
pub proof fn together_one(h: &History, i: int)
    ensures concat(seq![h]) == queue_of(h), m_count(seq![h], i) == count_of(h, i), all_blocks(seq![h]) == h.blocks(),
{
    let s: Seq<&History> = seq![h];
    assert(s.drop_last() =~= Seq::<&History>::empty());
    assert(s.last() == h);
    reveal_with_fuel(concat, 2);
    reveal_with_fuel(m_count, 2);
    reveal_with_fuel(all_blocks, 2);
    assert(concat(s) =~= queue_of(h));
}
pub proof fn less_one<A>(p: Multiset<A>, x: Multiset<A>, y: Multiset<A>, a: A)
    requires p.insert(a) == x.insert(a).add(y),
    ensures p == x.add(y),
{
    broadcast use vstd::multiset::group_multiset_axioms;
    assert forall|v: A| p.count(v) == #[trigger] x.add(y).count(v) by {
        assert(p.insert(a).count(v) == x.insert(a).add(y).count(v));
        if v == a { lemma_insert_increases_count_by_1(p, a); lemma_insert_increases_count_by_1(x, a); }
        else { lemma_insert_other_elements_unchanged(p, a, v); lemma_insert_other_elements_unchanged(x, a, v); }
    }
    assert(p =~= x.add(y));
}
/// C14: the blocks of several histories do not depend on their order
pub proof fn any_order(s: Seq<&History>, r: Seq<&History>, i: int)
    requires s.to_multiset() == r.to_multiset(),
    ensures concat(s).to_multiset() == concat(r).to_multiset(), m_count(s, i) == m_count(r, i), all_blocks(s) == all_blocks(r),
        all_hist(s) == all_hist(r), all_queue(s) == all_queue(r), s.len() == r.len(),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.to_multiset().len() == s.len() && r.to_multiset().len() == r.len());
    if s.len() == 0 {
        assert(s =~= r);
        return;
    }
    let a = s.last();
    let p = s.drop_last();
    assert(p.push(a) =~= s);
    assert(s.to_multiset() =~= p.to_multiset().insert(a));
    assert(r.to_multiset().count(a) > 0);
    assert(r.contains(a));
    let j = choose|j: int| 0 <= j < r.len() && r[j] == a;
    let x = r.subrange(0, j);
    let y = r.subrange(j + 1, r.len() as int);
    assert(r =~= (x + seq![a]) + y);
    assert(r =~= x.push(a) + y);
    vstd::seq_lib::lemma_multiset_commutative(x.push(a), y);
    vstd::seq_lib::lemma_multiset_commutative(x, y);
    assert(x.push(a).to_multiset() =~= x.to_multiset().insert(a));
    less_one(p.to_multiset(), x.to_multiset(), y.to_multiset(), a);
    assert((x + y).to_multiset() == p.to_multiset());
    any_order(p, x + y, i);
    together_add(p, seq![a], i);
    together_add(x + seq![a], y, i);
    together_add(x, seq![a], i);
    together_add(x, y, i);
    together_one(a, i);
    assert(s =~= p + seq![a]);
    vstd::seq_lib::lemma_multiset_commutative(concat(p), queue_of(a));
    vstd::seq_lib::lemma_multiset_commutative(concat(x) + queue_of(a), concat(y));
    vstd::seq_lib::lemma_multiset_commutative(concat(x), queue_of(a));
    vstd::seq_lib::lemma_multiset_commutative(concat(x), concat(y));
    assert(concat(s).to_multiset() =~= concat(r).to_multiset());
    assert(all_hist(s) == all_hist(r)) by { kinds(s, r); kinds(r, s); }
    assert(all_queue(s) == all_queue(r)) by { kinds(s, r); kinds(r, s); }
}
pub proof fn kinds(s: Seq<&History>, r: Seq<&History>)
    requires s.to_multiset() == r.to_multiset(),
    ensures all_hist(s) ==> all_hist(r), all_queue(s) ==> all_queue(r),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < r.len() implies s.contains(#[trigger] r[i]) by {
        assert(r.to_multiset().count(r[i]) > 0);
        assert(s.to_multiset().count(r[i]) > 0);
    }
}

// ------------------------------------------------------------------ sorting
pub open spec fn all_pos(q: Seq<f64>) -> bool { forall|i: int| 0 <= i < q.len() ==> pos64(#[trigger] q[i]) }
pub open spec fn by_bits(a: f64, b: f64) -> bool { s_bits64(a) <= s_bits64(b) }
/// numbers that are not negative have one order only
pub proof fn sorted_once(v: Seq<f64>, w: Seq<f64>)
    requires v.to_multiset() == w.to_multiset(), sorted(v), sorted(w), all_pos(v),
    ensures v == w,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let leq = |a: f64, b: f64| by_bits(a, b);
    all_pos_any_order(v, w);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies leq(#[trigger] v[i], #[trigger] v[j]) by { fl_pos64(v[i], v[j]); assert(fle(v[i], v[j])); }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies leq(#[trigger] w[i], #[trigger] w[j]) by { fl_pos64(w[i], w[j]); assert(fle(w[i], w[j])); }
    assert forall|a: f64, b: f64| #[trigger] leq(a, b) && leq(b, a) implies a == b by { fl_bits64(a, b); }
    assert(vstd::relations::sorted_by(v, leq));
    assert(vstd::relations::sorted_by(w, leq));
    assert(vstd::relations::total_ordering(leq));
    vstd::seq_lib::lemma_sorted_unique(v, w, leq);
}
pub proof fn all_pos_any_order(v: Seq<f64>, w: Seq<f64>)
    requires v.to_multiset() == w.to_multiset(), all_pos(v),
    ensures all_pos(w), v.len() == w.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(v.to_multiset().len() == v.len() && w.to_multiset().len() == w.len());
    assert forall|i: int| 0 <= i < w.len() implies pos64(#[trigger] w[i]) by {
        assert(w.to_multiset().count(w[i]) > 0);
        assert(v.to_multiset().count(w[i]) > 0);
        assert(v.contains(w[i]));
    }
}
/// C13: what is kept without the histogram is never negative or NaN
pub proof fn recorded_pos(q: Seq<f64>, m: int, es: Seq<f64>)
    requires all_pos(q), 0 <= m, forall|i: int| 0 <= i < es.len() ==> pos64(#[trigger] es[i]) || flt(es[i], bd(0)),
    ensures recorded(HV::Q(q, m), es) is Q, recorded(HV::Q(q, m), es)->Q_1 == m, all_pos(recorded(HV::Q(q, m), es)->Q_0),
    decreases es.len(),
{
    if es.len() > 0 {
        assert forall|i: int| 0 <= i < es.drop_last().len() implies pos64(#[trigger] es.drop_last()[i]) || flt(es.drop_last()[i], bd(0)) by { assert(es.drop_last()[i] == es[i]); }
        recorded_pos(q, m, es.drop_last());
        assert(es.last() == es[es.len() - 1]);
    }
}

// ------------------------------------------------------------------ loudness range
/// C11 C14: loudness range is a function of the blocks alone, whatever their order and however they are spread over analyzers
pub proof fn range_once(s: Seq<&History>, r: Seq<&History>, x: Result<f64, Error>, y: Result<f64, Error>)
    requires s.len() > 0, r.len() > 0, all_queue(s), all_queue(r), concat(s).to_multiset() == concat(r).to_multiset(), all_pos(concat(s)), lra_is(s, x), lra_is(r, y),
    ensures x == y,
{
    all_pos_any_order(concat(s), concat(r));
    assert(!all_hist(s)) by { assert(!s[0].is_hist()); }
    assert(!all_hist(r)) by { assert(!r[0].is_hist()); }
    assert(!has_nan(concat(s))) by { no_nan(concat(s)); }
    assert(!has_nan(concat(r))) by { no_nan(concat(r)); }
    let v = choose|w: Seq<f64>| #[trigger] w.to_multiset() == concat(s).to_multiset() && w.len() == concat(s).len() && sorted(w) && x == Result::<f64, Error>::Ok(lra_sorted(w));
    let w = choose|w: Seq<f64>| #[trigger] w.to_multiset() == concat(r).to_multiset() && w.len() == concat(r).len() && sorted(w) && y == Result::<f64, Error>::Ok(lra_sorted(w));
    all_pos_any_order(concat(s), v);
    sorted_once(v, w);
}
pub proof fn no_nan(q: Seq<f64>)
    requires all_pos(q),
    ensures !has_nan(q),
{
    assert forall|i: int| 0 <= i < q.len() implies !s_nan64(#[trigger] q[i]) by { assert(pos64(q[i])); }
}
/// C14: ... and equals what one analyzer holding all the blocks reports
pub proof fn range_merged(s: Seq<&History>, h: &History, x: Result<f64, Error>, y: Result<f64, Error>)
    requires s.len() > 0, lra_is(s, x), lra_is(seq![h], y),
        (all_queue(s) && !h.is_hist() && queue_of(h).to_multiset() == concat(s).to_multiset() && all_pos(concat(s)))
            || (all_hist(s) && h.is_hist() && (forall|i: int| 0 <= i < 1000 ==> h->Histogram_0.counts()[i] == #[trigger] m_count(s, i))),
    ensures x == y,
{
    let r: Seq<&History> = seq![h];
    together_one(h, 0);
    if all_queue(s) && !h.is_hist() {
        assert(all_queue(r));
        range_once(s, r, x, y);
    } else {
        assert(all_hist(r)) by { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).is_hist() by { assert(r[i] == h); } }
        merged_one(r);
        assert forall|i: int| 0 <= i < 1000 implies merged(s)[i] == merged(r)[i] by {
            together_one(h, i);
            assert(h->Histogram_0.counts()[i] == m_count(s, i));
        }
        assert(merged(s) =~= merged(r));
    }
}
/// C14: ... in any order
pub proof fn range_any_order(s: Seq<&History>, r: Seq<&History>, x: Result<f64, Error>, y: Result<f64, Error>)
    requires s.to_multiset() == r.to_multiset(), lra_is(s, x), lra_is(r, y), all_queue(s) ==> all_pos(concat(s)),
    ensures x == y,
{
    any_order(s, r, 0);
    if s.len() == 0 {
    } else if all_hist(s) {
        assert forall|i: int| 0 <= i < 1000 implies merged(s)[i] == merged(r)[i] by { any_order(s, r, i); }
        assert(merged(s) =~= merged(r));
    } else if all_queue(s) {
        range_once(s, r, x, y);
    }
}
/// C14: none gives 0 and minus infinity
pub proof fn of_none()
    ensures integrated(seq![]) == s_neg(s_inf()), forall|x: Result<f64, Error>| lra_is(seq![], x) ==> x == Ok::<f64, Error>(0.0f64),
{
}

// ------------------------------------------------------------------ integrated loudness
pub proof fn gate_queue_add(p: Seq<f64>, q: Seq<f64>, thr: f64)
    ensures gate_queue(p + q, thr) == gate_queue(p, thr) + gate_queue(q, thr),
    decreases q.len(),
{
    if q.len() == 0 {
        assert(p + q =~= p);
        assert(gate_queue(p, thr) + gate_queue(q, thr) =~= gate_queue(p, thr));
    } else {
        gate_queue_add(p, q.drop_last(), thr);
        assert((p + q).drop_last() =~= p + q.drop_last());
        assert((p + q).last() == q.last());
        assert(gate_queue(p + q, thr) =~= gate_queue(p, thr) + gate_queue(q, thr));
    }
}
/// C10 C14: above a threshold the same blocks count, one by one, as of one analyzer that holds them all
pub proof fn gate_merged(s: Seq<&History>, thr: f64)
    requires all_queue(s),
    ensures gate_all(s, thr) == gate_queue(concat(s), thr), all_blocks(s) == concat(s).len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !(#[trigger] s.drop_last()[i]).is_hist() by { assert(s.drop_last()[i] == s[i]); }
        gate_merged(s.drop_last(), thr);
        assert(!s[s.len() - 1].is_hist());
        gate_queue_add(concat(s.drop_last()), queue_of(s.last()), thr);
    }
}
/// number of blocks in the bins that are not below the threshold
pub open spec fn above(c: Seq<u64>, thr: f64, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { above(c, thr, n - 1) + if flt(en(n - 1), thr) { 0int } else { c[n - 1] as int } }
}
pub open spec fn m_above(s: Seq<&History>, thr: f64, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { m_above(s, thr, n - 1) + if flt(en(n - 1), thr) { 0int } else { m_count(s, n - 1) } }
}
pub proof fn gate_hist_above(c: Seq<u64>, thr: f64, n: int)
    requires 0 <= n <= c.len(),
    ensures g_count(gate_hist(c, thr, n)) == above(c, thr, n),
    decreases n,
{
    if n > 0 {
        gate_hist_above(c, thr, n - 1);
        if !flt(en(n - 1), thr) {
            let g = gate_hist(c, thr, n);
            assert(g.drop_last() =~= gate_hist(c, thr, n - 1));
            assert(g.last().0 == c[n - 1]);
        }
    }
}
pub proof fn m_above_step(s: Seq<&History>, thr: f64, n: int)
    requires s.len() > 0, 0 <= n <= 1000, s.last().is_hist(),
    ensures m_above(s, thr, n) == m_above(s.drop_last(), thr, n) + above(s.last()->Histogram_0.counts(), thr, n),
    decreases n,
{
    if n > 0 { m_above_step(s, thr, n - 1); }
}
pub proof fn m_above_none(thr: f64, n: int)
    ensures m_above(seq![], thr, n) == 0,
    decreases n,
{
    if n > 0 { m_above_none(thr, n - 1); }
}
/// C10 C14: with the histogram the number of blocks that count is that of the bins added up
pub proof fn gate_bins_merged(s: Seq<&History>, thr: f64)
    requires all_hist(s),
    ensures g_count(gate_all(s, thr)) == m_above(s, thr, 1000),
    decreases s.len(),
{
    if s.len() == 0 { m_above_none(thr, 1000); assert(s =~= seq![]); } else {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).is_hist() by { assert(s.drop_last()[i] == s[i]); }
        gate_bins_merged(s.drop_last(), thr);
        assert(s[s.len() - 1].is_hist());
        m_above_step(s, thr, 1000);
        let c = s.last()->Histogram_0.counts();
        gate_hist_above(c, thr, 1000);
        g_count_add(gate_all(s.drop_last(), thr), s.last().gate(thr));
    }
}
/// C14: the number of blocks above a threshold does not depend on the order of the histories, of whatever kinds
pub proof fn gate_any_order(s: Seq<&History>, r: Seq<&History>, thr: f64)
    requires s.to_multiset() == r.to_multiset(),
    ensures g_count(gate_all(s, thr)) == g_count(gate_all(r, thr)),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.to_multiset().len() == s.len() && r.to_multiset().len() == r.len());
    if s.len() == 0 { assert(s =~= r); return; }
    let a = s.last();
    let p = s.drop_last();
    assert(p.push(a) =~= s);
    assert(s.to_multiset() =~= p.to_multiset().insert(a));
    assert(r.to_multiset().count(a) > 0);
    assert(r.contains(a));
    let j = choose|j: int| 0 <= j < r.len() && r[j] == a;
    let x = r.subrange(0, j);
    let y = r.subrange(j + 1, r.len() as int);
    assert(r =~= x.push(a) + y);
    vstd::seq_lib::lemma_multiset_commutative(x.push(a), y);
    vstd::seq_lib::lemma_multiset_commutative(x, y);
    assert(x.push(a).to_multiset() =~= x.to_multiset().insert(a));
    less_one(p.to_multiset(), x.to_multiset(), y.to_multiset(), a);
    assert((x + y).to_multiset() == p.to_multiset());
    gate_any_order(p, x + y, thr);
    gate_all_add(p, seq![a], thr);
    gate_all_add(x.push(a), y, thr);
    gate_all_add(x, seq![a], thr);
    gate_all_add(x, y, thr);
    assert(x.push(a) =~= x + seq![a]);
    assert(s =~= p + seq![a]);
}
pub proof fn gate_all_add(a: Seq<&History>, b: Seq<&History>, thr: f64)
    ensures g_count(gate_all(a + b, thr)) == g_count(gate_all(a, thr)) + g_count(gate_all(b, thr)),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        gate_all_add(a, b.drop_last(), thr);
        assert((a + b).drop_last() =~= a + b.drop_last());
        g_count_add(gate_all((a + b).drop_last(), thr), b.last().gate(thr));
        g_count_add(gate_all(b.drop_last(), thr), b.last().gate(thr));
    }
}

// ------------------------------------------------------------------ the same observations
/// what can be observed of an analyzer, now or later
pub open spec fn alike(a: &EbuR128, b: &EbuR128) -> bool {
    &&& a.same_cfg(b) && a.st() == b.st()
    &&& a.sample_peak@ == b.sample_peak@ && a.true_peak@ == b.true_peak@
    &&& a.filter.sample_peak@ == b.filter.sample_peak@ && a.filter.true_peak@ == b.filter.true_peak@
}
/// C15 C03: analyzers that are alike stay alike when the same frames are added
pub proof fn alike_added(o: &EbuR128, n: &EbuR128, p: &EbuR128, z: &EbuR128, m: f64, q: Seq<Seq<Smp>>)
    requires o.wf(), p.wf(), alike(o, p), added(o, n, m, q), added(p, z, m, q),
    ensures alike(n, z),
{
    if q.len() > 0 {
        assert forall|c: int| 0 <= c < o.channels && s_fac(o.mode, o.rate as int) != 0 implies o.filter.tp->Some_0.h(c) == #[trigger] p.filter.tp->Some_0.h(c) by {
            assert(o.st().th[c] == p.st().th[c]);
        }
        assert(n.filter.sample_peak@ =~= z.filter.sample_peak@);
        assert(n.filter.true_peak@ =~= z.filter.true_peak@);
        assert(n.sample_peak@ =~= z.sample_peak@);
        assert(n.true_peak@ =~= z.true_peak@);
    }
}
/// C15: ... or seeded
pub proof fn alike_seeded(o: &EbuR128, n: &EbuR128, p: &EbuR128, z: &EbuR128, q: Seq<Seq<Smp>>)
    requires o.wf(), p.wf(), alike(o, p), seeds(o, n, q), seeds(p, z, q),
    ensures alike(n, z),
{
}
pub open spec fn same_blocks(a: &History, b: &History) -> bool { a.hv() == b.hv() }
pub proof fn gate_same(s: Seq<&History>, r: Seq<&History>, thr: f64)
    requires s.len() == r.len(), forall|i: int| 0 <= i < s.len() ==> same_blocks(#[trigger] s[i], r[i]),
    ensures gate_all(s, thr) == gate_all(r, thr), all_blocks(s) == all_blocks(r), all_esum(s) == all_esum(r), concat(s) == concat(r),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies same_blocks(#[trigger] s.drop_last()[i], r.drop_last()[i]) by { assert(same_blocks(s[i], r[i])); }
        gate_same(s.drop_last(), r.drop_last(), thr);
        assert(same_blocks(s[s.len() - 1], r[s.len() - 1]));
    }
}
/// C15 C16: what the queries report of analyzers that are alike is the same, bit for bit
pub proof fn alike_queries(a: &EbuR128, b: &EbuR128, n: int, x: Result<f64, Error>, y: Result<f64, Error>)
    requires a.wf(), b.wf(), alike(a, b),
    ensures
        s_window(a, n) == s_window(b, n),
        integrated(seq![&a.block_energy_history]) == integrated(seq![&b.block_energy_history]),
        gated(seq![&a.block_energy_history]) == gated(seq![&b.block_energy_history]),
        rel_threshold_loudness(&a.block_energy_history) == rel_threshold_loudness(&b.block_energy_history),
        lra_is(seq![&a.short_term_block_energy_history], x) ==> lra_is(seq![&b.short_term_block_energy_history], x),
{
    let s: Seq<&History> = seq![&a.block_energy_history];
    let r: Seq<&History> = seq![&b.block_energy_history];
    assert(a.st().blk == b.st().blk && a.st().sh == b.st().sh);
    assert forall|i: int| 0 <= i < s.len() implies same_blocks(#[trigger] s[i], r[i]) by {}
    gate_same(s, r, 0.0f64);
    gate_same(s, r, rel_threshold(all_blocks(s), all_esum(s)));
    let t: Seq<&History> = seq![&a.short_term_block_energy_history];
    let u: Seq<&History> = seq![&b.short_term_block_energy_history];
    assert forall|i: int| 0 <= i < t.len() implies same_blocks(#[trigger] t[i], u[i]) by {}
    gate_same(t, u, 0.0f64);
    assert(t[0].is_hist() == u[0].is_hist());
    assert(all_hist(t) == t[0].is_hist() && all_hist(u) == u[0].is_hist() && all_queue(t) == !t[0].is_hist() && all_queue(u) == !u[0].is_hist()) by {
        assert(t.len() == 1 && u.len() == 1);
    }
    if t[0].is_hist() { merged_one(t); merged_one(u); }
}
/// C15: ... as of two analyzers that have just been created or reset with the same configuration, so that a reset one is as new
pub proof fn alike_start(a: &EbuR128, b: &EbuR128, blk: HV, sh: HV)
    requires a.wf(), b.wf(), a.same_cfg(b), a.st() == fresh(a.cfg(), blk, sh), b.st() == fresh(b.cfg(), blk, sh),
        a.sample_peak@ == b.sample_peak@, a.true_peak@ == b.true_peak@, a.filter.sample_peak@ == b.filter.sample_peak@, a.filter.true_peak@ == b.filter.true_peak@,
    ensures alike(a, b),
{
}

// ------------------------------------------------------------------ calls
/// C03 C05 C06 C07 C08 C09: two calls leave the analyzer as one call with all their frames would, but for the peaks of the last call
pub proof fn cut_calls(o: &EbuR128, n: &EbuR128, z: &EbuR128, w: &EbuR128, m: f64, p: Seq<Seq<Smp>>, q: Seq<Seq<Smp>>)
    requires o.wf(), added(o, n, m, p), added(n, z, m, q), added(o, w, m, p + q), amp_ok(m),
    ensures z.same_cfg(w), z.st() == w.st(), z.sample_peak@ == w.sample_peak@, z.true_peak@ == w.true_peak@,
        q.len() > 0 && p.len() == 0 ==> z.filter.sample_peak@ == w.filter.sample_peak@ && z.filter.true_peak@ == w.filter.true_peak@,
{
    wf_shape(o);
    cut(o.cfg(), o.st(), p, q);
    if p.len() == 0 {
        assert(p + q =~= q);
        alike_added(o, z, o, w, m, q);
    } else if q.len() == 0 {
        assert(p + q =~= p);
        alike_added(o, z, o, w, m, p);
    } else {
        assert forall|c: int| 0 <= c < o.channels implies #[trigger] z.sample_peak@[c] == w.sample_peak@[c] by {
            let x = o.sample_peak@[c];
            assert(pos64(x));
            assert(cr(p + q, c) =~= cr(p, c) + cr(q, c));
            peak_calls(x, m, cr(p, c), cr(q, c));
            zero_least(x);
            assert(n.sample_peak@[c] == fmax(x, n.filter.sample_peak@[c]));
            assert(w.sample_peak@[c] == fmax(x, w.filter.sample_peak@[c]));
            assert(z.sample_peak@[c] == fmax(n.sample_peak@[c], z.filter.sample_peak@[c]));
        }
        assert forall|c: int| 0 <= c < o.channels implies #[trigger] z.true_peak@[c] == w.true_peak@[c] by {
            let x = o.true_peak@[c];
            assert(pos64(o.sample_peak@[c]));
            assert(pos64(x));
            assert(cy(p + q, c) =~= cy(p, c) + cy(q, c));
            zero_least(x);
            let f = s_fac(o.mode, o.rate as int);
            if f != 0 {
                tp_calls(x, o.filter.tp->Some_0.h(c), f, cy(p, c), cy(q, c));
                assert(n.filter.tp->Some_0.h(c) == tp_hist(o.filter.tp->Some_0.h(c), cy(p, c)));
            }
            assert(n.true_peak@[c] == fmax(x, n.filter.true_peak@[c]));
            assert(w.true_peak@[c] == fmax(x, w.filter.true_peak@[c]));
            assert(z.true_peak@[c] == fmax(n.true_peak@[c], z.filter.true_peak@[c]));
        }
        assert(z.sample_peak@ =~= w.sample_peak@);
        assert(z.true_peak@ =~= w.true_peak@);
    }
}
/// C07 C08 C09: what a channel leaves behind (K-weighted signal, filter memory, interpolator memory, peaks) depends on its own samples alone
pub proof fn channel_alone(g: Cfg, s0: St, p: Seq<Seq<Smp>>, q: Seq<Seq<Smp>>, c: int)
    requires starts(g, s0), roomy(g), p.len() == q.len(), 0 <= c < g.chs, forall|i: int| 0 <= i < q.len() ==> #[trigger] p[i][c] == q[i][c],
    ensures signal(g, s0, p)[c] == signal(g, s0, q)[c], run(g, s0, p).fs[c] == run(g, s0, q).fs[c], run(g, s0, p).ring[c] == run(g, s0, q).ring[c],
        g.fac != 0 ==> run(g, s0, p).th[c] == run(g, s0, q).th[c], cr(p, c) == cr(q, c), cy(p, c) == cy(q, c),
{
    stream(g, s0, p);
    stream(g, s0, q);
    assert(cx(p, c) =~= cx(q, c));
    assert(cy(p, c) =~= cy(q, c));
    assert(cr(p, c) =~= cr(q, c));
}
/// C09: the true peak that is reported is at least the sample peak, and one of the two
pub proof fn true_peak_least(t: f64, s: f64)
    requires pos64(t), pos64(s),
    ensures !fgt(s, fmax(t, s)), !fgt(t, fmax(t, s)), fmax(t, s) == t || fmax(t, s) == s,
{
    fl_pos64(t, s); fl_pos64(s, t);
    fl_pos64(s, s); fl_pos64(t, t);
}
/// C08: the largest absolute value is that of a sample (0 without), and no sample exceeds it; NaN does not count
pub proof fn largest(q: Seq<f64>)
    ensures forall|i: int| 0 <= i < q.len() ==> !fgt(s_abs64(#[trigger] q[i]), max_abs(q)),
        max_abs(q) == 0.0f64 || exists|i: int| 0 <= i < q.len() && max_abs(q) == s_abs64(#[trigger] q[i]),
        pos64(max_abs(q)),
    decreases q.len(),
{
    max_abs_pos(q);
    if q.len() > 0 {
        let p = q.drop_last();
        let l = q.last();
        largest(p);
        max_abs_pos(p);
        let m = max_abs(p);
        fl_abs64(l, m); fl_abs64(l, max_abs(q));
        assert forall|i: int| 0 <= i < q.len() implies !fgt(s_abs64(#[trigger] q[i]), max_abs(q)) by {
            let x = s_abs64(q[i]);
            fl_abs64(q[i], m); fl_abs64(q[i], max_abs(q));
            if fgt(x, max_abs(q)) {
                fl_pos64(x, max_abs(q)); fl_pos64(x, m); fl_pos64(max_abs(q), m);
                if i < p.len() { assert(p[i] == q[i]); assert(!fgt(s_abs64(p[i]), m)); }
            }
        }
        if max_abs(q) != 0.0f64 {
            if max_abs(q) == m {
                let i = choose|i: int| 0 <= i < p.len() && m == s_abs64(#[trigger] p[i]);
                assert(p[i] == q[i]);
            } else {
                assert(q[q.len() - 1] == l);
            }
        }
    }
}
