@module theorems
@raw
// What follows from the contracts, at the level of the properties: statements about any stream, over the functions the
// code is proved to compute (engine::run and the specifications of the queries). Nothing here mentions the code.
use crate::fl::*;
use crate::pre::*;
use crate::utils::*;
use crate::filter::*;
use crate::history::*;
use crate::interp::*;
use crate::true_peak::*;
use crate::tables::*;
use crate::engine::*;
use crate::ebur128::*;
broadcast use crate::fl::fl;

// ------------------------------------------------------------------ remainders
pub proof fn mod_unique(x: int, m: int, q: int, r: int)
    requires 0 <= r < m, x == q * m + r,
    ensures x % m == r,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse_mod(x, m, q, r);
}
pub proof fn mod_split(x: int, m: int) -> (q: int)
    requires m > 0,
    ensures x == q * m + x % m, 0 <= x % m < m,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, m);
    assert(m * (x / m) == (x / m) * m) by (nonlinear_arith);
    x / m
}
pub proof fn mod_next(x: int, m: int)
    requires m > 0,
    ensures (x + 1) % m == (if x % m == m - 1 { 0 } else { x % m + 1 }), 0 <= x % m < m,
{
    let q = mod_split(x, m);
    if x % m == m - 1 {
        assert(x + 1 == (q + 1) * m + 0) by (nonlinear_arith) requires x == q * m + (m - 1);
        mod_unique(x + 1, m, q + 1, 0);
    } else {
        mod_unique(x + 1, m, q, x % m + 1);
    }
}
/// the distance back to the last frame stored at position i, one frame later
pub proof fn age_next(t: int, m: int, i: int)
    requires m > 0, 0 <= i < m,
    ensures i == t % m ==> (t - i) % m == 0,
        i != t % m ==> (t - i) % m == (t - 1 - i) % m + 1,
        0 <= (t - i) % m < m, 0 <= (t - 1 - i) % m < m,
{
    mod_next(t - 1 - i, m);
    let q = mod_split(t, m);
    let p = mod_split(t - i, m);
    if i == t % m {
        assert(t - i == q * m + 0);
        mod_unique(t - i, m, q, 0);
    } else if (t - 1 - i) % m == m - 1 {
        assert(t == p * m + i);
        mod_unique(t, m, p, i);
    }
}

// ------------------------------------------------------------------ the K-weighted signal of a stream
/// output of the filter over xs, from the state f0
pub open spec fn outs(g: Cfg, f0: Seq<f64>, xs: Seq<f64>) -> Seq<f64> {
    Seq::new(xs.len(), |i: int| filt_out(g.a, g.b, f0, xs.subrange(0, i + 1)))
}
/// of every channel
pub open spec fn signal(g: Cfg, s0: St, q: Seq<Seq<Smp>>) -> Seq<Seq<f64>> {
    Seq::new(g.chs as nat, |c: int| outs(g, s0.fs[c], cx(q, c)))
}
/// frame t; silence before the start
pub open spec fn at(y: Seq<f64>, t: int) -> f64 { if 0 <= t < y.len() { y[t] } else { 0.0f64 } }
/// the n frames before time t
pub open spec fn before(y: Seq<f64>, t: int, n: int) -> Seq<f64> { Seq::new(n as nat, |k: int| at(y, t - n + k)) }
/// in the order in which they are summed: cut where the ring of w frames wraps, the later part first
pub open spec fn turned(y: Seq<f64>, t: int, n: int, w: int) -> Seq<f64> {
    let i = t % w;
    if i < n { before(y, t, n).subrange(n - i, n) + before(y, t, n).subrange(0, n - i) } else { before(y, t, n) }
}
/// weighted sum over the first k channels of the squares of the n frames before time t
pub open spec fn power(g: Cfg, ys: Seq<Seq<f64>>, t: int, n: int, k: int) -> f64
    decreases k,
{
    if k <= 0 { 0.0f64 } else {
        let p = power(g, ys, t, n, k - 1);
        if used(g, k - 1) { fadd(p, weighted(g.map[k - 1], sum_sq(turned(ys[k - 1], t, n, g.adf)))) } else { p }
    }
}
/// mean energy of the n frames before time t
pub open spec fn mean_power(g: Cfg, ys: Seq<Seq<f64>>, t: int, n: int) -> f64 { fdiv(power(g, ys, t, n, g.chs), s_f64_of_int(n)) }

// ------------------------------------------------------------------ when blocks are recorded
/// 400 ms have been fed, or a whole number of 100 ms after that
pub open spec fn is_block(g: Cfg, t: int) -> bool { g.i && t >= 4 * g.s100 && t % g.s100 == 0 }
/// 3 s have been fed, or a whole number of seconds after that
pub open spec fn is_short(g: Cfg, t: int) -> bool { g.lra && t >= 30 * g.s100 && t % (10 * g.s100) == 0 }
/// energies of the blocks up to time t, in order
pub open spec fn block_energies(g: Cfg, ys: Seq<Seq<f64>>, t: int) -> Seq<f64>
    decreases t,
{
    if t <= 0 { seq![] }
    else if is_block(g, t) { block_energies(g, ys, t - 1).push(mean_power(g, ys, t, g.s100 * 4)) }
    else { block_energies(g, ys, t - 1) }
}
pub open spec fn short_energies(g: Cfg, ys: Seq<Seq<f64>>, t: int) -> Seq<f64>
    decreases t,
{
    if t <= 0 { seq![] }
    else if is_short(g, t) { short_energies(g, ys, t - 1).push(mean_power(g, ys, t, g.s100 * 30)) }
    else { short_energies(g, ys, t - 1) }
}
/// a history after recording energies one after the other
pub open spec fn recorded(v: HV, es: Seq<f64>) -> HV
    decreases es.len(),
{
    if es.len() == 0 { v } else { hv_add(recorded(v, es.drop_last()), es.last()) }
}

// ------------------------------------------------------------------ the state after a stream
/// start of a measurement: after creation, reset or a reconfiguration (perhaps seeded)
pub open spec fn starts(g: Cfg, s0: St) -> bool {
    &&& shape(g, s0) && s0.idx == 0 && s0.need == 4 * g.s100 && s0.cnt == 0
    &&& forall|c: int, i: int| 0 <= c < g.chs && 0 <= i < g.adf ==> #[trigger] s0.ring[c][i] == 0.0f64
}
/// the ring holds whole steps of 100 ms, and the longest block
pub open spec fn roomy(g: Cfg) -> bool { g.adf % g.s100 == 0 && g.adf >= 4 * g.s100 && (g.lra ==> g.adf >= 30 * g.s100) }
pub open spec fn ring_after(y: Seq<f64>, w: int, t: int) -> Seq<f64> {
    Seq::new(w as nat, |i: int| at(y, t - 1 - (t - 1 - i) % w))
}
pub open spec fn after(g: Cfg, s0: St, q: Seq<Seq<Smp>>) -> St {
    let t = q.len() as int;
    let ys = signal(g, s0, q);
    St {
        fs: Seq::new(g.chs as nat, |c: int| if used(g, c) { filt_state(g.a, s0.fs[c], cx(q, c)) } else { s0.fs[c] }),
        th: Seq::new((if g.fac == 0 { 0 } else { g.chs }) as nat, |c: int| tp_hist(s0.th[c], cy(q, c))),
        ring: Seq::new(g.chs as nat, |c: int| if used(g, c) { ring_after(ys[c], g.adf, t) } else { s0.ring[c] }),
        idx: t % g.adf,
        need: if t < 4 * g.s100 { 4 * g.s100 - t } else { g.s100 - t % g.s100 },
        cnt: if !g.lra { 0 } else if t < 30 * g.s100 { t } else { 20 * g.s100 + t % (10 * g.s100) },
        blk: recorded(s0.blk, block_energies(g, ys, t)),
        sh: recorded(s0.sh, short_energies(g, ys, t)),
    }
}
/// what comes later does not change the signal so far
pub open spec fn agree(ys: Seq<Seq<f64>>, zs: Seq<Seq<f64>>, chs: int, t: int) -> bool {
    ys.len() == chs && zs.len() == chs && forall|c: int, i: int| 0 <= c < chs && i < t ==> #[trigger] at(ys[c], i) == at(zs[c], i)
}
pub proof fn power_agree(g: Cfg, ys: Seq<Seq<f64>>, zs: Seq<Seq<f64>>, t: int, n: int, k: int)
    requires agree(ys, zs, g.chs, t), 0 <= k <= g.chs, n >= 0,
    ensures power(g, ys, t, n, k) == power(g, zs, t, n, k),
    decreases k,
{
    if k > 0 {
        power_agree(g, ys, zs, t, n, k - 1);
        assert(before(ys[k - 1], t, n) =~= before(zs[k - 1], t, n));
    }
}
pub proof fn energies_agree(g: Cfg, ys: Seq<Seq<f64>>, zs: Seq<Seq<f64>>, t: int)
    requires agree(ys, zs, g.chs, t), g.s100 > 0, g.chs > 0,
    ensures block_energies(g, ys, t) == block_energies(g, zs, t), short_energies(g, ys, t) == short_energies(g, zs, t),
    decreases t,
{
    if t > 0 {
        energies_agree(g, ys, zs, t - 1);
        power_agree(g, ys, zs, t, g.s100 * 4, g.chs);
        power_agree(g, ys, zs, t, g.s100 * 30, g.chs);
    }
}
/// what the ring gives for the last n frames
pub proof fn ring_window_turned(y: Seq<f64>, w: int, t: int, i: int, n: int)
    requires w > 0, 0 <= n <= w, t >= 0, i == t % w || (t % w == 0 && i == w),
    ensures rwin(ring_after(y, w, t), i, n) == turned(y, t, n, w),
{
    let q = mod_split(t, w);
    let d = ring_after(y, w, t);
    let l = rwin(d, i, n);
    let r = turned(y, t, n, w);
    assert(l.len() == n && r.len() == n);
    assert forall|k: int| 0 <= k < n implies #[trigger] l[k] == r[k] by {
        if i < n && k < i {
            // position k, i - k frames back
            mod_unique(t - 1 - k, w, q, i - 1 - k);
            assert(r[k] == at(y, t - i + k));
        } else if i < n {
            assert(t - 1 - (w - n + k) == (q - 1) * w + (i - 1 + n - k)) by (nonlinear_arith) requires t == q * w + i;
            mod_unique(t - 1 - (w - n + k), w, q - 1, i - 1 + n - k);
            assert(r[k] == at(y, t - n + (k - i)));
        } else if i == w {
            assert(t - 1 - (w - n + k) == (q - 1) * w + (n - 1 - k)) by (nonlinear_arith) requires t == q * w;
            mod_unique(t - 1 - (w - n + k), w, q - 1, n - 1 - k);
            assert(r[k] == at(y, t - n + k));
        } else {
            mod_unique(t - 1 - (i - n + k), w, q, n - 1 - k);
            assert(r[k] == at(y, t - n + k));
        }
    }
    assert(l =~= r);
}
pub proof fn wsum_power(g: Cfg, ring: Seq<Seq<f64>>, ys: Seq<Seq<f64>>, t: int, i: int, n: int, k: int)
    requires 0 <= k <= g.chs, g.adf > 0, 0 <= n <= g.adf, t >= 0, i == t % g.adf || (t % g.adf == 0 && i == g.adf),
        forall|c: int| 0 <= c < g.chs && used(g, c) ==> #[trigger] ring[c] == ring_after(ys[c], g.adf, t),
    ensures wsum(g.map, ring, i, n, k) == power(g, ys, t, n, k),
    decreases k,
{
    if k > 0 {
        wsum_power(g, ring, ys, t, i, n, k - 1);
        if used(g, k - 1) {
            ring_window_turned(ys[k - 1], g.adf, t, i, n);
            assert(ring[k - 1] == ring_after(ys[k - 1], g.adf, t));
        }
    }
}
pub proof fn stream_0(g: Cfg, s0: St)
    requires starts(g, s0), roomy(g),
    ensures after(g, s0, Seq::<Seq<Smp>>::empty()) == s0,
{
    let q = Seq::<Seq<Smp>>::empty();
    let e = after(g, s0, q);
    let w = g.adf;
    let h = g.s100;
    vstd::arithmetic::div_mod::lemma_small_mod(0, w as nat);
    vstd::arithmetic::div_mod::lemma_small_mod(0, h as nat);
    assert(e.fs =~= s0.fs) by {
        assert forall|c: int| 0 <= c < g.chs implies #[trigger] e.fs[c] == s0.fs[c] by { assert(cx(q, c).len() == 0); }
    }
    assert(e.th =~= s0.th) by {
        assert forall|c: int| 0 <= c < s0.th.len() implies #[trigger] e.th[c] == s0.th[c] by { assert(cy(q, c).len() == 0); }
    }
    assert forall|c: int| 0 <= c < g.chs implies #[trigger] e.ring[c] == s0.ring[c] by {
        assert forall|i: int| 0 <= i < w implies #[trigger] e.ring[c][i] == s0.ring[c][i] by {}
        assert(e.ring[c] =~= s0.ring[c]);
    }
    assert(e.ring =~= s0.ring);
}
/// one frame more: filters, true-peak histories and rings
pub proof fn stream_rows(g: Cfg, s0: St, q: Seq<Seq<Smp>>)
    requires starts(g, s0), roomy(g), q.len() > 0,
    ensures ({
        let u = push(g, after(g, s0, q.drop_last()), seq![q.last()]);
        let e = after(g, s0, q);
        u.fs == e.fs && u.th == e.th && u.ring == e.ring
    }),
        agree(signal(g, s0, q.drop_last()), signal(g, s0, q), g.chs, q.len() - 1),
{
    let t = q.len() as int;
    let w = g.adf;
    let e = after(g, s0, q);
    let p = q.drop_last();
    let x = seq![q.last()];
    let y0 = signal(g, s0, p);
    let y1 = signal(g, s0, q);
    let s = after(g, s0, p);
    let u = push(g, s, x);
    assert(p + x =~= q);
    // the signal of a prefix
    assert forall|c: int, i: int| 0 <= c < g.chs && i < t - 1 implies #[trigger] at(y0[c], i) == at(y1[c], i) by {
        if i >= 0 { assert(cx(p, c).subrange(0, i + 1) =~= cx(q, c).subrange(0, i + 1)); }
    }
    assert(agree(y0, y1, g.chs, t - 1));
    mod_next(t - 1, w);
    // filters
    assert forall|c: int| 0 <= c < g.chs implies cx(q, c) == cx(p, c) + cx(x, c) && cy(q, c) == cy(p, c) + cy(x, c) by {
        assert(cx(q, c) =~= cx(p, c) + cx(x, c));
        assert(cy(q, c) =~= cy(p, c) + cy(x, c));
    }
    assert forall|c: int| 0 <= c < g.chs implies #[trigger] u.fs[c] == e.fs[c] by {
        if used(g, c) { filt_state_cat(g.a, s0.fs[c], cx(p, c), cx(x, c)); assert(cx(q, c) == cx(p, c) + cx(x, c)); }
    }
    assert(u.fs =~= e.fs);
    assert forall|c: int| 0 <= c < u.th.len() implies #[trigger] u.th[c] == e.th[c] by {
        tp_hist_cat(s0.th[c], cy(p, c), cy(x, c)); assert(cy(q, c) == cy(p, c) + cy(x, c));
    }
    assert(u.th =~= e.th);
    // ring
    assert forall|c: int| 0 <= c < g.chs implies #[trigger] u.ring[c] == e.ring[c] by {
        assert(cx(q, c) == cx(p, c) + cx(x, c));
        assert forall|i: int| 0 <= i < w implies #[trigger] u.ring[c][i] == e.ring[c][i] by {
            age_next(t - 1, w, i);
            if used(g, c) {
                assert(e.ring[c][i] == at(y1[c], t - 1 - (t - 1 - i) % w));
                if i == s.idx {
                    assert(cx(x, c).subrange(0, 1) =~= cx(x, c));
                    filt_out_cat(g.a, g.b, s0.fs[c], cx(p, c), cx(x, c));
                    assert(cx(q, c).subrange(0, t) =~= cx(q, c));
                } else {
                    assert(s.ring[c][i] == at(y0[c], t - 2 - (t - 2 - i) % w));
                    assert(at(y0[c], t - 2 - (t - 2 - i) % w) == at(y1[c], t - 2 - (t - 2 - i) % w));
                }
            }
        }
        assert(u.ring[c] =~= e.ring[c]);
    }
    assert(u.ring =~= e.ring);
}
/// when 100 ms and seconds end
pub proof fn stream_times(g: Cfg, t: int)
    requires g.s100 > 0, g.adf > 0, roomy(g), t > 0,
    ensures
        t % g.adf == 0 ==> t % g.s100 == 0 && t >= g.adf,
        t < 4 * g.s100 && t > 3 * g.s100 ==> t % g.s100 != 0,
        (4 * g.s100) % g.s100 == 0, (30 * g.s100) % (10 * g.s100) == 0,
        t % (10 * g.s100) == 0 ==> t % g.s100 == 0,
        20 * g.s100 < t < 30 * g.s100 ==> t % (10 * g.s100) == t - 20 * g.s100,
{
    let w = g.adf;
    let h = g.s100;
    // boundaries of 100 ms
    let k = mod_split(t, h);
    let kw = mod_split(t, w);
    let ww = mod_split(w, h);
    assert(t % w == 0 ==> t % h == 0 && t >= w) by {
        if t % w == 0 {
            assert(t == (kw * ww) * h + 0) by (nonlinear_arith) requires t == kw * w, w == ww * h;
            mod_unique(t, h, kw * ww, 0);
            assert(kw >= 1) by (nonlinear_arith) requires t == kw * w, t > 0, w > 0;
            assert(kw * w >= w) by (nonlinear_arith) requires kw >= 1, w > 0;
        }
    }
    mod_unique(4 * h, h, 4, 0);
    assert(t < 4 * h && t > 3 * h ==> t % h != 0) by { if t < 4 * h && t > 3 * h { mod_unique(t, h, 3, t - 3 * h); } }
    // boundaries of seconds
    let m = mod_split(t, 10 * h);
    assert(t % (10 * h) == 0 ==> t % h == 0) by {
        if t % (10 * h) == 0 {
            assert(t == (10 * m) * h + 0) by (nonlinear_arith) requires t == m * (10 * h);
            mod_unique(t, h, 10 * m, 0);
        }
    }
    mod_unique(30 * h, 10 * h, 3, 0);
    if t > 20 * h && t < 30 * h { mod_unique(t, 10 * h, 2, t - 20 * h); }
}
/// C05 C06 C07 C09: the state after a stream, in closed form: every channel's ring holds exactly the last frames of its own
/// K-weighted signal, a block is recorded at 400 ms and every 100 ms after, a short-term block at 3 s and every second after
pub proof fn stream(g: Cfg, s0: St, q: Seq<Seq<Smp>>)
    requires starts(g, s0), roomy(g),
    ensures run(g, s0, q) == after(g, s0, q),
    decreases q.len(),
{
    let r = run(g, s0, q);
    let e = after(g, s0, q);
    let t = q.len() as int;
    let w = g.adf;
    let h = g.s100;
    if t == 0 {
        assert(q =~= seq![]);
        stream_0(g, s0);
        return;
    }
    let p = q.drop_last();
    let x = seq![q.last()];
    let y0 = signal(g, s0, p);
    let y1 = signal(g, s0, q);
    let s = after(g, s0, p);
    stream(g, s0, p);
    cut(g, s0, p, x);
    assert(p + x =~= q);
    stream_rows(g, s0, q);
    energies_agree(g, y0, y1, t - 1);
    mod_next(t - 1, w);
    mod_next(t - 1, h);
    mod_next(t - 1, 10 * h);
    let u = push(g, s, x);
    assert(u.idx == t % w || (t % w == 0 && u.idx == w));
    stream_times(g, t);
    assert(s.need == 1 <==> (t >= 4 * h && t % h == 0));
    assert(run(g, s, x) == if s.need == 1 { block(g, u) } else { u }) by {
        assert(x.subrange(0, 1) =~= x);
        assert(x.subrange(1, 1) =~= seq![]);
        assert(run(g, block(g, u), x.subrange(1, 1)) == block(g, u));
    }
    if s.need == 1 {
        assert(g.lra ==> (u.cnt == h * 30 <==> is_short(g, t)));
        wsum_power(g, u.ring, y1, t, u.idx, h * 4, g.chs);
        assert(energy(g, u, h * 4) == mean_power(g, y1, t, h * 4));
        if g.lra {
            wsum_power(g, u.ring, y1, t, u.idx, h * 30, g.chs);
            assert(energy(g, u, h * 30) == mean_power(g, y1, t, h * 30));
        }
        if g.i {
            let es = block_energies(g, y1, t);
            assert(es.drop_last() =~= block_energies(g, y1, t - 1));
        }
        if is_short(g, t) {
            let es = short_energies(g, y1, t);
            assert(es.drop_last() =~= short_energies(g, y1, t - 1));
        }
        assert(r.blk == e.blk);
        assert(r.sh == e.sh);
        assert(r.need == e.need);
        assert(r.cnt == e.cnt);
        assert(r.idx == e.idx);
    } else {
        assert(!is_block(g, t));
        assert(!is_short(g, t)) by {
            if is_short(g, t) { assert(t % h == 0); }
        }
        assert(r.cnt == e.cnt);
        assert(r.need == e.need);
        assert(r.idx == e.idx);
    }
}

// ------------------------------------------------------------------ of an analyzer
/// C05 C06 C15: the state of a new, reset or reconfigured analyzer is a start, and every configuration has room
pub proof fn fresh_starts(e: &EbuR128, blk: HV, sh: HV)
    requires e.wf(),
    ensures starts(e.cfg(), fresh(e.cfg(), blk, sh)), roomy(e.cfg()),
{
    mode_values(e.mode);
    wf_shape(e);
}
/// C20: ... also after seeding
pub proof fn seeded_starts(g: Cfg, s: St, q: Seq<Seq<Smp>>)
    requires starts(g, s),
    ensures starts(g, seeded(g, s, q)),
{
}
/// C06: momentary, short-term and window loudness are those of exactly the last n frames of the stream
pub proof fn window_exact(e: &EbuR128, s0: St, q: Seq<Seq<Smp>>, n: int)
    requires e.wf(), starts(e.cfg(), s0), e.st() == run(e.cfg(), s0, q), 0 <= n,
    ensures s_window(e, n) == (if n > e.cfg().adf { Err::<f64, Error>(Error::InvalidMode) } else { Ok::<f64, Error>(s_lufs(mean_power(e.cfg(), signal(e.cfg(), s0, q), q.len() as int, n))) }),
{
    let g = e.cfg();
    fresh_starts(e, s0.blk, s0.sh);
    stream(g, s0, q);
    if n <= g.adf {
        wsum_power(g, e.st().ring, signal(g, s0, q), q.len() as int, e.st().idx, n, g.chs);
    }
}
/// C06: the order of summation is a rotation of the frames of the window
pub proof fn turned_window(y: Seq<f64>, t: int, n: int, w: int)
    requires w > 0, 0 <= n <= w,
    ensures turned(y, t, n, w).len() == n, turned(y, t, n, w).to_multiset() == before(y, t, n).to_multiset(),
{
    let i = t % w;
    mod_next(t, w);
    let b = before(y, t, n);
    if i < n {
        assert(b =~= b.subrange(0, n - i) + b.subrange(n - i, n));
        vstd::seq_lib::lemma_multiset_commutative(b.subrange(0, n - i), b.subrange(n - i, n));
        vstd::seq_lib::lemma_multiset_commutative(b.subrange(n - i, n), b.subrange(0, n - i));
        assert(b.subrange(0, n - i).to_multiset().add(b.subrange(n - i, n).to_multiset()) =~= b.subrange(n - i, n).to_multiset().add(b.subrange(0, n - i).to_multiset()));
    }
}

// ------------------------------------------------------------------ histories
/// the energies that are recorded at all: not below the absolute gate
pub open spec fn loud(es: Seq<f64>) -> Seq<f64>
    decreases es.len(),
{
    if es.len() == 0 { seq![] } else if flt(es.last(), bd(0)) { loud(es.drop_last()) } else { loud(es.drop_last()).push(es.last()) }
}
/// C05 C13: without the histogram the history is the last m of the blocks that are not below -70 LUFS
pub proof fn recorded_queue(q: Seq<f64>, m: int, es: Seq<f64>)
    requires q.len() <= m,
    ensures recorded(HV::Q(q, m), es) == HV::Q(keep_last(q + loud(es), m), m),
    decreases es.len(),
{
    if es.len() == 0 {
        assert(q + loud(es) =~= q);
    } else {
        recorded_queue(q, m, es.drop_last());
        let a = q + loud(es.drop_last());
        if !flt(es.last(), bd(0)) {
            let b = q + loud(es);
            assert(b =~= a.push(es.last()));
            assert(keep_last(keep_last(a, m).push(es.last()), m) =~= keep_last(b, m));
        }
    }
}
/// C13: a smaller maximum keeps the last blocks, a larger one all of them
pub proof fn queue_max(q: Seq<f64>, m: int, n: int)
    requires q.len() <= m, n >= 0,
    ensures hv_set_max(HV::Q(q, m), n) == HV::Q(keep_last(q, n), n), n >= m ==> keep_last(q, n) == q, keep_last(q, n).len() <= n,
{
}
pub proof fn bin_from(e: f64, i: int) -> (b: int)
    requires 0 <= i < 1000, i == 0 || fge(e, bd(i)),
    ensures is_bin(e, b),
    decreases 1000 - i,
{
    if i == 999 || !fge(e, bd(i + 1)) { i } else { bin_from(e, i + 1) }
}
/// C12: every energy has exactly one bin
pub proof fn bin_exists(e: f64)
    ensures is_bin(e, bin(e)), forall|j: int| is_bin(e, j) ==> j == bin(e),
{
    let b = bin_from(e, 0);
    assert(is_bin(e, b));
    assert forall|j: int| is_bin(e, j) implies j == bin(e) by { bin_unique(e, j, bin(e)); }
}
pub open spec fn in_bin(es: Seq<f64>, b: int) -> int
    decreases es.len(),
{
    if es.len() == 0 { 0 } else { in_bin(es.drop_last(), b) + if !flt(es.last(), bd(0)) && bin(es.last()) == b { 1int } else { 0 } }
}
/// C12: with the histogram every recorded block is counted once, in its bin
pub proof fn recorded_histogram(c: Seq<u64>, es: Seq<f64>, b: int)
    requires c.len() == 1000, 0 <= b < 1000, forall|i: int| 0 <= i < 1000 ==> #[trigger] c[i] + es.len() <= u64::MAX,
    ensures recorded(HV::H(c), es) is H, recorded(HV::H(c), es)->H_0.len() == 1000, recorded(HV::H(c), es)->H_0[b] == c[b] + in_bin(es, b), 0 <= in_bin(es, b) <= es.len(),
    decreases es.len(),
{
    if es.len() > 0 {
        let e = es.last();
        recorded_histogram(c, es.drop_last(), b);
        bin_exists(e);
        recorded_histogram(c, es.drop_last(), bin(e));
        assert(c[bin(e)] + es.len() <= u64::MAX);
        assert(c[b] + es.len() <= u64::MAX);
    }
}

// ------------------------------------------------------------------ seeding
/// C20: frames after seeding are filtered as if the seeded frames had preceded them; what the filters remember is the same
pub proof fn seed_then_feed(g: Cfg, s: St, p: Seq<Seq<Smp>>, q: Seq<Seq<Smp>>, c: int, i: int)
    requires shape(g, s), 0 <= c < g.chs, 0 <= i < q.len(),
    ensures
        signal(g, seeded(g, s, p), q)[c][i] == if used(g, c) { signal(g, s, p + q)[c][p.len() + i] } else { signal(g, s, q)[c][i] },
        push(g, seeded(g, s, p), q).fs == push(g, s, p + q).fs, push(g, seeded(g, s, p), q).th == push(g, s, p + q).th,
{
    push_push(g, s, p, q);
    let z = seeded(g, s, p);
    let u = push(g, s, p);
    assert(push(g, z, q).fs =~= push(g, u, q).fs);
    assert(push(g, z, q).th =~= push(g, u, q).th);
    assert(cx(p + q, c) =~= cx(p, c) + cx(q, c));
    let x = cx(q, c).subrange(0, i + 1);
    assert(cx(p, c) + x =~= cx(p + q, c).subrange(0, p.len() + i + 1));
    if used(g, c) { filt_out_cat(g.a, g.b, s.fs[c], cx(p, c), x); }
}
/// C03 C07 C09: whatever blocks end in between, the filters see the stream as one
pub proof fn filters_run(g: Cfg, s: St, q: Seq<Seq<Smp>>)
    requires shape(g, s), s.need > 0, g.s100 > 0,
    ensures run(g, s, q).fs == push(g, s, q).fs, run(g, s, q).th == push(g, s, q).th,
    decreases q.len(),
{
    if q.len() > 0 && s.need <= q.len() {
        let p = q.subrange(0, s.need);
        let r = q.subrange(s.need, q.len() as int);
        let u = push(g, s, p);
        push_push(g, s, p, r);
        assert(p + r =~= q);
        let b = block(g, u);
        assert(shape(g, b)) by {
            assert forall|c: int| 0 <= c < g.chs implies (#[trigger] b.ring[c]).len() == g.adf by { assert(u.ring[c].len() == g.adf); }
        }
        filters_run(g, b, r);
        assert(push(g, b, r).fs =~= push(g, u, r).fs);
        assert(push(g, b, r).th =~= push(g, u, r).th);
    } else if q.len() == 0 {
        push_none(g, s, q);
    }
}
pub proof fn push_none(g: Cfg, s: St, q: Seq<Seq<Smp>>)
    requires shape(g, s), q.len() == 0,
    ensures push(g, s, q).fs == s.fs, push(g, s, q).th == s.th,
{
    assert forall|c: int| 0 <= c < g.chs implies #[trigger] push(g, s, q).fs[c] == s.fs[c] by { assert(cx(q, c).len() == 0); }
    assert(push(g, s, q).fs =~= s.fs);
    assert forall|c: int| 0 <= c < s.th.len() implies #[trigger] push(g, s, q).th[c] == s.th[c] by { assert(cy(q, c).len() == 0); }
    assert(push(g, s, q).th =~= s.th);
}

// ------------------------------------------------------------------ formats
/// the same values to the filter and the interpolator
pub open spec fn alike(p: Seq<Seq<Smp>>, q: Seq<Seq<Smp>>, chs: int) -> bool {
    &&& p.len() == q.len()
    &&& forall|i: int, c: int| 0 <= i < p.len() && 0 <= c < chs ==> px(#[trigger] p[i][c]) == px(q[i][c]) && py(p[i][c]) == py(q[i][c])
}
/// C17: the state depends on these alone
pub proof fn run_alike(g: Cfg, s: St, p: Seq<Seq<Smp>>, q: Seq<Seq<Smp>>)
    requires shape(g, s), alike(p, q, g.chs),
    ensures run(g, s, p) == run(g, s, q), push(g, s, p) == push(g, s, q), seeded(g, s, p) == seeded(g, s, q),
    decreases p.len(),
{
    assert forall|c: int| 0 <= c < g.chs implies #[trigger] cx(p, c) == cx(q, c) && cy(p, c) == cy(q, c) by {
        assert forall|i: int| 0 <= i < p.len() implies cx(p, c)[i] == cx(q, c)[i] && cy(p, c)[i] == cy(q, c)[i] by { assert(px(p[i][c]) == px(q[i][c])); }
        assert(cx(p, c) =~= cx(q, c));
        assert(cy(p, c) =~= cy(q, c));
    }
    let l = push(g, s, p);
    let r = push(g, s, q);
    assert forall|c: int| 0 <= c < g.chs implies #[trigger] l.fs[c] == r.fs[c] && l.ring[c] == r.ring[c] by {
        assert(cx(p, c) == cx(q, c));
        assert(l.ring[c] =~= r.ring[c]);
    }
    assert forall|c: int| 0 <= c < l.th.len() implies #[trigger] l.th[c] == r.th[c] by { assert(cx(p, c) == cx(q, c)); }
    assert(l.fs =~= r.fs && l.ring =~= r.ring && l.th =~= r.th);
    if 0 < s.need <= p.len() {
        let n = s.need;
        let u = push(g, s, p.subrange(0, n));
        push_push(g, s, p.subrange(0, n), seq![]);
        assert(alike(p.subrange(0, n), q.subrange(0, n), g.chs)) by {
            assert forall|i: int, c: int| 0 <= i < n && 0 <= c < g.chs implies px(#[trigger] p.subrange(0, n)[i][c]) == px(q.subrange(0, n)[i][c]) && py(p.subrange(0, n)[i][c]) == py(q.subrange(0, n)[i][c]) by { assert(px(p[i][c]) == px(q[i][c])); }
        }
        push_alike(g, s, p.subrange(0, n), q.subrange(0, n));
        let b = block(g, u);
        assert(shape(g, b)) by {
            assert forall|c: int| 0 <= c < g.chs implies (#[trigger] b.ring[c]).len() == g.adf by { assert(u.ring[c].len() == g.adf); }
        }
        let pr = p.subrange(n, p.len() as int);
        let qr = q.subrange(n, q.len() as int);
        assert(alike(pr, qr, g.chs)) by {
            assert forall|i: int, c: int| 0 <= i < pr.len() && 0 <= c < g.chs implies px(#[trigger] pr[i][c]) == px(qr[i][c]) && py(pr[i][c]) == py(qr[i][c]) by { assert(px(p[i + n][c]) == px(q[i + n][c])); }
        }
        run_alike(g, b, pr, qr);
    }
}
pub proof fn push_alike(g: Cfg, s: St, p: Seq<Seq<Smp>>, q: Seq<Seq<Smp>>)
    requires shape(g, s), alike(p, q, g.chs),
    ensures push(g, s, p) == push(g, s, q),
{
    assert forall|c: int| 0 <= c < g.chs implies #[trigger] cx(p, c) == cx(q, c) && cy(p, c) == cy(q, c) by {
        assert forall|i: int| 0 <= i < p.len() implies cx(p, c)[i] == cx(q, c)[i] && cy(p, c)[i] == cy(q, c)[i] by { assert(px(p[i][c]) == px(q[i][c])); }
        assert(cx(p, c) =~= cx(q, c));
        assert(cy(p, c) =~= cy(q, c));
    }
    let l = push(g, s, p);
    let r = push(g, s, q);
    assert forall|c: int| 0 <= c < g.chs implies #[trigger] l.fs[c] == r.fs[c] && l.ring[c] == r.ring[c] by {
        assert(cx(p, c) == cx(q, c));
        assert(l.ring[c] =~= r.ring[c]);
    }
    assert forall|c: int| 0 <= c < l.th.len() implies #[trigger] l.th[c] == r.th[c] by { assert(cx(p, c) == cx(q, c)); }
    assert(l.fs =~= r.fs && l.ring =~= r.ring && l.th =~= r.th);
}
/// the value of a sample as a double
pub open spec fn as_double_i16(x: i16) -> f64 { fdiv(s_f64_of_int(x as int), 32768.0f64) }
pub open spec fn as_double_i32(x: i32) -> f64 { fdiv(s_f64_of_int(x as int), 2147483648.0f64) }
/// C17: a sample of any format gives the filter and the interpolator what its value as a double gives them
pub proof fn sample_i16(x: i16)
    ensures px(smp_of(x)) == px(smp_of(as_double_i16(x))), py(smp_of(x)) == py(smp_of(as_double_i16(x))), pr(smp_of(as_double_i16(x))) == fdiv(pr(smp_of(x)), <i16 as Sample>::s_amp()),
        fle(pr(smp_of(x)), pr(smp_of(x))),
{
    ax_i16(x); fl_amp(); fl_int(x as int);
}
/// C17
pub proof fn sample_i32(x: i32)
    ensures px(smp_of(x)) == px(smp_of(as_double_i32(x))), py(smp_of(x)) == py(smp_of(as_double_i32(x))), pr(smp_of(as_double_i32(x))) == fdiv(pr(smp_of(x)), <i32 as Sample>::s_amp()),
        fle(pr(smp_of(x)), pr(smp_of(x))),
{
    ax_i32(x); fl_amp(); fl_int(x as int);
}
/// C17: single precision (but for the payload of NaN)
pub proof fn sample_f32(x: f32)
    requires fle32(x, x),
    ensures smp_of(x) == smp_of(s_f64_of_f32(x)), <f32 as Sample>::s_amp() == <f64 as Sample>::s_amp(),
{
    fl_f32_rt(x);
}
/// C08 C17: the peak of integer samples is that of their values as doubles
pub proof fn peak_scaled(m: f64, q: Seq<f64>, d: Seq<f64>)
    requires amp_ok(m), d.len() == q.len(), forall|i: int| 0 <= i < q.len() ==> fle(#[trigger] q[i], q[i]) && d[i] == fdiv(q[i], m),
    ensures max_abs(d) == fdiv(max_abs(q), m), forall|p: f64| #[trigger] peak_step(p, m, q) == peak_step(p, 1.0f64, d),
    decreases q.len(),
{
    max_abs_pos(q);
    max_abs_pos(d);
    if q.len() == 0 {
        fl_abs64(0.0f64, 0.0f64);
        fl_div_amp(0.0f64, 0.0f64, m);
    } else {
        assert forall|i: int| 0 <= i < q.drop_last().len() implies fle(#[trigger] q.drop_last()[i], q.drop_last()[i]) && d.drop_last()[i] == fdiv(q.drop_last()[i], m) by { assert(fle(q[i], q[i])); }
        peak_scaled(m, q.drop_last(), d.drop_last());
        let l = q.last();
        assert(fle(q[q.len() - 1], q[q.len() - 1]));
        max_abs_pos(q.drop_last());
        fl_abs_div(l, m);
        let a = s_abs64(l);
        let b = max_abs(q.drop_last());
        fl_div_amp(a, b, m); fl_div_amp(b, a, m);
        fl_pos64(a, b); fl_pos64(b, a);
        fl_pos64(fdiv(a, m), fdiv(b, m)); fl_pos64(fdiv(b, m), fdiv(a, m));
    }
    assert(fdiv(max_abs(d), 1.0f64) == max_abs(d)) by { fl_div_one(max_abs(d)); }
}
