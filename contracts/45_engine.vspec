@module engine
@raw
// The analyzer as a function of its input: what add_frames is proved to compute, and what follows from it for every input.
use crate::fl::*;
use crate::pre::*;
use crate::utils::*;
use crate::ebur128::Channel;
use crate::filter::*;
use crate::history::*;
use crate::interp::*;
use crate::true_peak::*;
broadcast use crate::fl::fl;

/// one sample, as the filter (x), the interpolator (y) and the sample peak (r) see it
pub ghost struct Smp { pub x: f64, pub y: f32, pub r: f64 }
pub open spec fn px(s: Smp) -> f64 { s.x }
pub open spec fn py(s: Smp) -> f32 { s.y }
pub open spec fn pr(s: Smp) -> f64 { s.r }
pub open spec fn smp_of<T: Sample>(t: T) -> Smp { Smp { x: t.s_to64(), y: t.s_to32(), r: t.s_raw() } }
/// the frames of a source
pub open spec fn frames_of<'a, T: Sample + 'a, S: Samples<'a, T>>(src: S) -> Seq<Seq<Smp>> {
    Seq::new(src.s_frames() as nat, |i: int| Seq::new(src.s_channels() as nat, |c: int| smp_of(src.smp(c, i))))
}
/// channel c of frames
pub open spec fn cx(q: Seq<Seq<Smp>>, c: int) -> Seq<f64> { Seq::new(q.len(), |i: int| px(q[i][c])) }
pub open spec fn cy(q: Seq<Seq<Smp>>, c: int) -> Seq<f32> { Seq::new(q.len(), |i: int| py(q[i][c])) }
pub open spec fn cr(q: Seq<Seq<Smp>>, c: int) -> Seq<f64> { Seq::new(q.len(), |i: int| pr(q[i][c])) }

pub ghost struct Cfg {
    /// blocks for integrated loudness, for loudness range
    pub i: bool,
    pub lra: bool,
    pub chs: int,
    /// length of the ring
    pub adf: int,
    pub s100: int,
    pub map: Seq<Channel>,
    /// upsampling factor, 0 if there is no interpolator
    pub fac: int,
    pub a: Seq<f64>,
    pub b: Seq<f64>,
}
pub ghost struct St {
    /// filter state and interpolator memory of each channel
    pub fs: Seq<Seq<f64>>,
    pub th: Seq<Seq<f32>>,
    /// the last filtered frames of each channel
    pub ring: Seq<Seq<f64>>,
    pub idx: int,
    /// frames to the next block
    pub need: int,
    /// frames towards the next short-term block
    pub cnt: int,
    pub blk: HV,
    pub sh: HV,
}
pub open spec fn used(g: Cfg, c: int) -> bool { g.map[c] != Channel::Unused }
pub open spec fn shape(g: Cfg, s: St) -> bool {
    &&& g.chs > 0 && g.adf > 0 && g.s100 > 0 && g.map.len() == g.chs
    &&& s.fs.len() == g.chs && s.ring.len() == g.chs && s.th.len() == (if g.fac == 0 { 0 } else { g.chs })
    &&& forall|c: int| 0 <= c < g.chs ==> (#[trigger] s.ring[c]).len() == g.adf
    &&& s.idx >= 0
}
/// the last n frames of a ring, next write position index (newest part first when the range wraps)
pub open spec fn rwin(d: Seq<f64>, index: int, n: int) -> Seq<f64> {
    if index < n {
        Seq::new(n as nat, |i: int| d[if i < index { i } else { d.len() - n + i }])
    } else {
        Seq::new(n as nat, |i: int| d[index - n + i])
    }
}
/// weighted sum of squares over the first k channels
pub open spec fn wsum(map: Seq<Channel>, ring: Seq<Seq<f64>>, index: int, n: int, k: int) -> f64
    decreases k,
{
    if k <= 0 { 0.0f64 } else {
        let p = wsum(map, ring, index, n, k - 1);
        if map[k - 1] == Channel::Unused { p } else { fadd(p, weighted(map[k - 1], sum_sq(rwin(ring[k - 1], index, n)))) }
    }
}
/// mean energy of the last n frames
pub open spec fn energy(g: Cfg, s: St, n: int) -> f64 { fdiv(wsum(g.map, s.ring, s.idx, n, g.chs), s_f64_of_int(n)) }

/// frames up to the next block boundary
pub open spec fn push(g: Cfg, s: St, q: Seq<Seq<Smp>>) -> St {
    St {
        fs: Seq::new(g.chs as nat, |c: int| if used(g, c) { filt_state(g.a, s.fs[c], cx(q, c)) } else { s.fs[c] }),
        th: Seq::new((if g.fac == 0 { 0 } else { g.chs }) as nat, |c: int| tp_hist(s.th[c], cy(q, c))),
        ring: Seq::new(g.chs as nat, |c: int| Seq::new(g.adf as nat, |i: int|
            if used(g, c) && s.idx <= i < s.idx + q.len() { filt_out(g.a, g.b, s.fs[c], cx(q, c).subrange(0, i - s.idx + 1)) } else { s.ring[c][i] })),
        idx: s.idx + q.len(),
        need: s.need - q.len(),
        cnt: if g.lra { s.cnt + q.len() } else { s.cnt },
        blk: s.blk,
        sh: s.sh,
    }
}
/// at a block boundary
pub open spec fn block(g: Cfg, s: St) -> St {
    let full = g.lra && s.cnt == g.s100 * 30;
    St {
        fs: s.fs,
        th: s.th,
        ring: s.ring,
        idx: if s.idx == g.adf { 0 } else { s.idx },
        need: g.s100,
        cnt: if full { g.s100 * 20 } else { s.cnt },
        blk: if g.i { hv_add(s.blk, energy(g, s, g.s100 * 4)) } else { s.blk },
        sh: if full { hv_add(s.sh, energy(g, s, g.s100 * 30)) } else { s.sh },
    }
}
/// any number of frames
pub open spec fn run(g: Cfg, s: St, q: Seq<Seq<Smp>>) -> St
    decreases q.len(),
{
    if q.len() == 0 { s }
    else if 0 < s.need <= q.len() { run(g, block(g, push(g, s, q.subrange(0, s.need))), q.subrange(s.need, q.len() as int)) }
    else { push(g, s, q) }
}

// ------------------------------------------------------------------ cutting the input anywhere changes nothing
pub proof fn filt_state_cat(a: Seq<f64>, s: Seq<f64>, p: Seq<f64>, q: Seq<f64>)
    ensures filt_state(a, filt_state(a, s, p), q) == filt_state(a, s, p + q),
    decreases q.len(),
{
    if q.len() == 0 { assert(p + q =~= p); } else {
        filt_state_cat(a, s, p, q.drop_last());
        assert((p + q).drop_last() =~= p + q.drop_last());
        assert((p + q).last() == q.last());
    }
}
pub proof fn filt_out_cat(a: Seq<f64>, b: Seq<f64>, s: Seq<f64>, p: Seq<f64>, q: Seq<f64>)
    requires q.len() > 0,
    ensures filt_out(a, b, filt_state(a, s, p), q) == filt_out(a, b, s, p + q),
{
    filt_state_cat(a, s, p, q.drop_last());
    assert((p + q).drop_last() =~= p + q.drop_last());
    assert((p + q).last() == q.last());
}
pub proof fn tp_hist_cat(h: Seq<f32>, p: Seq<f32>, q: Seq<f32>)
    ensures tp_hist(tp_hist(h, p), q) == tp_hist(h, p + q),
    decreases q.len(),
{
    if q.len() == 0 { assert(p + q =~= p); } else {
        tp_hist_cat(h, p, q.drop_last());
        assert((p + q).drop_last() =~= p + q.drop_last());
        assert((p + q).last() == q.last());
    }
}
pub proof fn tp_peak_cat(h: Seq<f32>, fac: int, m: f32, p: Seq<f32>, q: Seq<f32>)
    ensures tp_peak(tp_hist(h, p), fac, tp_peak(h, fac, m, p), q) == tp_peak(h, fac, m, p + q),
    decreases q.len(),
{
    if q.len() == 0 { assert(p + q =~= p); } else {
        tp_peak_cat(h, fac, m, p, q.drop_last());
        tp_hist_cat(h, p, q);
        assert((p + q).drop_last() =~= p + q.drop_last());
        assert((p + q).last() == q.last());
    }
}
pub proof fn push_push(g: Cfg, s: St, p: Seq<Seq<Smp>>, q: Seq<Seq<Smp>>)
    requires shape(g, s),
    ensures push(g, push(g, s, p), q) == push(g, s, p + q), shape(g, push(g, s, p)),
{
    let l = push(g, push(g, s, p), q);
    let r = push(g, s, p + q);
    assert forall|c: int| cx(p + q, c) == #[trigger] cx(p, c) + cx(q, c) by { assert(cx(p + q, c) =~= cx(p, c) + cx(q, c)); }
    assert forall|c: int| cy(p + q, c) == #[trigger] cy(p, c) + cy(q, c) by { assert(cy(p + q, c) =~= cy(p, c) + cy(q, c)); }
    assert forall|c: int| 0 <= c < g.chs implies #[trigger] l.fs[c] == r.fs[c] by {
        if used(g, c) { filt_state_cat(g.a, s.fs[c], cx(p, c), cx(q, c)); assert(cx(p + q, c) == cx(p, c) + cx(q, c)); }
    }
    assert(l.fs =~= r.fs);
    assert forall|c: int| 0 <= c < l.th.len() implies #[trigger] l.th[c] == r.th[c] by {
        tp_hist_cat(s.th[c], cy(p, c), cy(q, c)); assert(cy(p + q, c) == cy(p, c) + cy(q, c));
    }
    assert(l.th =~= r.th);
    assert forall|c: int| 0 <= c < g.chs implies #[trigger] l.ring[c] == r.ring[c] by {
        assert(cx(p + q, c) == cx(p, c) + cx(q, c));
        assert forall|i: int| 0 <= i < g.adf implies #[trigger] l.ring[c][i] == r.ring[c][i] by {
            if used(g, c) && s.idx <= i < s.idx + p.len() {
                assert(cx(p, c).subrange(0, i - s.idx + 1) =~= cx(p + q, c).subrange(0, i - s.idx + 1));
            } else if used(g, c) && s.idx + p.len() <= i < s.idx + p.len() + q.len() {
                let t = cx(q, c).subrange(0, i - s.idx - p.len() + 1);
                filt_out_cat(g.a, g.b, s.fs[c], cx(p, c), t);
                assert(cx(p, c) + t =~= cx(p + q, c).subrange(0, i - s.idx + 1));
            }
        }
        assert(l.ring[c] =~= r.ring[c]);
    }
    assert(l.ring =~= r.ring);
}
/// run as it is computed: one piece at a time
pub proof fn run_piece(g: Cfg, s: St, q: Seq<Seq<Smp>>)
    requires 0 < s.need, q.len() > 0,
    ensures q.len() >= s.need ==> run(g, s, q) == run(g, block(g, push(g, s, q.subrange(0, s.need))), q.subrange(s.need, q.len() as int)),
        q.len() < s.need ==> run(g, s, q) == push(g, s, q),
{
}
/// C03: a stream cut anywhere leaves the analyzer in the same state
pub proof fn cut(g: Cfg, s: St, p: Seq<Seq<Smp>>, q: Seq<Seq<Smp>>)
    requires shape(g, s), 0 < s.need, g.s100 > 0,
    ensures run(g, run(g, s, p), q) == run(g, s, p + q),
    decreases p.len(),
{
    let w = p + q;
    if p.len() == 0 {
        assert(w =~= q);
    } else if q.len() == 0 {
        assert(w =~= p);
    } else if s.need <= p.len() {
        let n = s.need;
        let t = push(g, s, p.subrange(0, n));
        push_push(g, s, p.subrange(0, n), seq![]);
        cut(g, block(g, t), p.subrange(n, p.len() as int), q);
        assert(w.subrange(0, n) =~= p.subrange(0, n));
        assert(w.subrange(n, w.len() as int) =~= p.subrange(n, p.len() as int) + q);
    } else {
        let t = push(g, s, p);
        push_push(g, s, p, seq![]);
        if t.need <= q.len() {
            push_push(g, s, p, q.subrange(0, t.need));
            assert(p + q.subrange(0, t.need) =~= w.subrange(0, s.need));
            assert(q.subrange(t.need, q.len() as int) =~= w.subrange(s.need, w.len() as int));
        } else {
            push_push(g, s, p, q);
        }
    }
}

// ------------------------------------------------------------------ sources and flat buffers
pub open spec fn is_split<'a, T: Sample + 'a, S: Samples<'a, T>>(s: S, n: int, p: S, q: S) -> bool {
    &&& s.s_wf() && 0 <= n <= s.s_frames() && p.s_wf() && q.s_wf() && p.s_channels() == s.s_channels() && q.s_channels() == s.s_channels()
    &&& p.s_frames() == n && q.s_frames() == s.s_frames() - n
    &&& forall|c: int, i: int| 0 <= c < s.s_channels() && 0 <= i < n ==> #[trigger] p.smp(c, i) == s.smp(c, i)
    &&& forall|c: int, i: int| 0 <= c < s.s_channels() && 0 <= i < s.s_frames() - n ==> #[trigger] q.smp(c, i) == s.smp(c, i + n)
}
pub proof fn frames_split<'a, T: Sample + 'a, S: Samples<'a, T>>(src: S, n: int, p: S, q: S)
    requires is_split(src, n, p, q),
    ensures frames_of(p) == frames_of(src).subrange(0, n), frames_of(q) == frames_of(src).subrange(n, src.s_frames()),
        frames_of(src).len() == src.s_frames(), frames_of(src) == frames_of(p) + frames_of(q),
{
    src.facts();
    assert forall|i: int| 0 <= i < n implies #[trigger] frames_of(p)[i] == frames_of(src)[i] by { assert(frames_of(p)[i] =~= frames_of(src)[i]); }
    assert forall|i: int| 0 <= i < src.s_frames() - n implies #[trigger] frames_of(q)[i] == frames_of(src)[i + n] by { assert(frames_of(q)[i] =~= frames_of(src)[i + n]); }
    assert(frames_of(p) =~= frames_of(src).subrange(0, n));
    assert(frames_of(q) =~= frames_of(src).subrange(n, src.s_frames()));
    assert(frames_of(src) =~= frames_of(p) + frames_of(q));
}
pub proof fn frames_cols<'a, T: Sample + 'a, S: Samples<'a, T>>(src: S, c: int)
    requires src.s_wf(), 0 <= c < src.s_channels(),
    ensures xs64(src, c, src.s_frames()) == cx(frames_of(src), c), xs32(src, c, src.s_frames()) == cy(frames_of(src), c), xsraw(src, c, src.s_frames()) == cr(frames_of(src), c),
        forall|k: int| 0 <= k <= src.s_frames() ==> #[trigger] xs64(src, c, k) == cx(frames_of(src), c).subrange(0, k),
        frames_of(src).len() == src.s_frames(),
{
    src.facts();
    assert(xs64(src, c, src.s_frames()) =~= cx(frames_of(src), c));
    assert(xs32(src, c, src.s_frames()) =~= cy(frames_of(src), c));
    assert(xsraw(src, c, src.s_frames()) =~= cr(frames_of(src), c));
    assert forall|k: int| 0 <= k <= src.s_frames() implies #[trigger] xs64(src, c, k) == cx(frames_of(src), c).subrange(0, k) by {
        assert(xs64(src, c, k) =~= cx(frames_of(src), c).subrange(0, k));
    }
}
/// a buffer holding the channels one after the other
pub open spec fn rings(d: Seq<f64>, chs: int, stride: int) -> Seq<Seq<f64>> {
    Seq::new(chs as nat, |c: int| Seq::new(stride as nat, |i: int| d[ix(c, stride, i)]))
}
pub proof fn gate_wsum(d: Seq<f64>, stride: int, map: Seq<Channel>, index: int, n: int, k: int)
    requires 0 <= k <= map.len(), 0 <= index <= stride, 0 <= n <= stride,
    ensures gate_sum(d, stride, map, index, n, k) == wsum(map, rings(d, map.len() as int, stride), index, n, k),
    decreases k,
{
    if k > 0 {
        gate_wsum(d, stride, map, index, n, k - 1);
        assert(ring_window(d, stride, k - 1, index, n) =~= rwin(rings(d, map.len() as int, stride)[k - 1], index, n));
    }
}
/// how long a buffer for a window is: at least the window, in whole steps of 100 ms
pub open spec fn s_adf(rate: int, window: int) -> int {
    let n = rate * window / 1000;
    let s = (rate + 5) / 10;
    let up = if n % s == 0 { n } else { n + s - n % s };
    let least = s * ((if window <= 3000 { window } else { 3000 }) / 100);
    if up >= least { up } else { least }
}
pub proof fn adf_facts(rate: int, window: int)
    requires 16 <= rate <= 2822400, 400 <= window <= 0xffff_ffff,
    ensures s_adf(rate, window) % ((rate + 5) / 10) == 0, s_adf(rate, window) >= 4 * ((rate + 5) / 10), window >= 3000 ==> s_adf(rate, window) >= 30 * ((rate + 5) / 10),
        0 < s_adf(rate, window) <= 0x0100_0000_0000_0000, s_adf(rate, window) >= rate * window / 1000,
        0 <= rate * window <= 2822400 * 0xffff_ffff, 2 <= (rate + 5) / 10 <= 282240,
{
    let n = rate * window / 1000;
    let s = (rate + 5) / 10;
    let w = (if window <= 3000 { window } else { 3000 }) / 100;
    assert(0 <= rate * window <= 2822400 * 0xffff_ffff) by (nonlinear_arith) requires 16 <= rate <= 2822400, 0 <= window <= 0xffff_ffff;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(w, s);
    assert(w * s == s * w) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, s);
    let q = n / s;
    assert((n + s - n % s) == (q + 1) * s) by (nonlinear_arith) requires n == s * q + n % s;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, s);
    assert(4 <= w <= 30);
    assert(s * w >= 4 * s) by (nonlinear_arith) requires w >= 4, s > 0;
    assert(s * w <= 30 * s) by (nonlinear_arith) requires w <= 30, s > 0;
}
pub proof fn multiple_step(x: int, y: int, s: int)
    requires s > 0, x % s == 0, y % s == 0, x > y,
    ensures x >= y + s, (x - y) % s == 0, (x + y) % s == 0, (y + s) % s == 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, s);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, s);
    let p = x / s;
    let q = y / s;
    assert(p > q) by (nonlinear_arith) requires s * p > s * q, s > 0;
    assert(s * p >= s * q + s) by (nonlinear_arith) requires p >= q + 1, s > 0;
    assert(x - y == (p - q) * s && x + y == (p + q) * s && y + s == (q + 1) * s) by (nonlinear_arith) requires x == s * p, y == s * q;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(p - q, s);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(p + q, s);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, s);
}

// ------------------------------------------------------------------ peaks
/// the larger of two peaks
pub open spec fn fmax(p: f64, q: f64) -> f64 { if fgt(q, p) { q } else { p } }
pub proof fn max_abs_pos(q: Seq<f64>)
    ensures pos64(max_abs(q)),
    decreases q.len(),
{
    fl_abs64(0.0f64, 0.0f64);
    if q.len() > 0 { max_abs_pos(q.drop_last()); fl_abs64(q.last(), max_abs(q.drop_last())); }
}
pub proof fn max_abs_cat(p: Seq<f64>, q: Seq<f64>)
    ensures max_abs(p + q) == fmax(max_abs(p), max_abs(q)),
    decreases q.len(),
{
    max_abs_pos(p); max_abs_pos(q);
    if q.len() == 0 {
        assert(p + q =~= p);
        zero_least(max_abs(p));
    } else {
        max_abs_cat(p, q.drop_last());
        assert((p + q).drop_last() =~= p + q.drop_last());
        let l = q.last();
        let a = max_abs(p);
        let b = max_abs(q.drop_last());
        max_abs_pos(q.drop_last());
        fl_abs64(l, a); fl_abs64(l, b); fl_abs64(l, fmax(a, b));
        fl_pos64(a, b); fl_pos64(b, a);
        if fle(s_abs64(l), s_abs64(l)) {
            let e = s_abs64(l);
            fl_pos64(e, a); fl_pos64(e, b); fl_pos64(a, e); fl_pos64(b, e); fl_pos64(e, fmax(a, b));
        }
    }
}
/// nothing is below 0
pub proof fn zero_least(p: f64)
    requires pos64(p),
    ensures !fgt(0.0f64, p), pos64(0.0f64), fmax(p, 0.0f64) == p, fmax(0.0f64, p) == p,
{
    fl_abs64(0.0f64, 0.0f64);
    fl_zero_least(p);
    fl_pos64(0.0f64, p); fl_pos64(p, 0.0f64);
}
pub proof fn fmax_assoc(a: f64, b: f64, c: f64)
    requires pos64(a), pos64(b), pos64(c),
    ensures fmax(fmax(a, b), c) == fmax(a, fmax(b, c)), pos64(fmax(a, b)),
{
    fl_pos64(a, b); fl_pos64(b, a); fl_pos64(a, c); fl_pos64(c, a); fl_pos64(b, c); fl_pos64(c, b);
}
/// the sample peak of frames fed in two parts
pub proof fn peak_cat(p: f64, m: f64, a: Seq<f64>, b: Seq<f64>)
    requires pos64(p), amp_ok(m),
    ensures peak_step(peak_step(p, m, a), m, b) == peak_step(p, m, a + b), pos64(peak_step(p, m, a)), peak_step(p, m, a) == fmax(p, peak_step(0.0f64, m, a)),
        pos64(peak_step(0.0f64, m, a)),
{
    max_abs_pos(a); max_abs_pos(b); max_abs_cat(a, b); fl_abs64(0.0f64, 0.0f64);
    let x = max_abs(a);
    let y = max_abs(b);
    fl_div_amp(x, y, m); fl_div_amp(y, x, m);
    let dx = fdiv(x, m);
    let dy = fdiv(y, m);
    fl_pos64(x, y); fl_pos64(y, x); fl_pos64(dx, dy); fl_pos64(dy, dx);
    fl_pos64(p, dx); fl_pos64(dx, p); fl_pos64(p, dy); fl_pos64(dy, p);
    zero_least(dx); zero_least(p);
}
/// C03 C08: the overall peak does not depend on how the frames were cut into calls
pub proof fn peak_calls(p: f64, m: f64, a: Seq<f64>, b: Seq<f64>)
    requires pos64(p), amp_ok(m),
    ensures fmax(fmax(p, peak_step(0.0f64, m, a)), peak_step(0.0f64, m, b)) == fmax(p, peak_step(0.0f64, m, a + b)),
{
    fl_abs64(0.0f64, 0.0f64);
    peak_cat(p, m, a, b); peak_cat(0.0f64, m, a, b); peak_cat(peak_step(p, m, a), m, b, b); peak_cat(p, m, a + b, b);
}
pub open spec fn fmax32(p: f32, q: f32) -> f32 { if fgt32(q, p) { q } else { p } }
pub proof fn tp_max_max(h: Seq<f32>, fac: int, p: f32, q: f32, n: int)
    requires pos32(p), pos32(q),
    ensures tp_max(h, fac, fmax32(p, q), n) == fmax32(p, tp_max(h, fac, q, n)), pos32(tp_max(h, fac, q, n)),
    decreases n,
{
    fl_pos32(p, q); fl_pos32(q, p);
    if n > 0 {
        tp_max_max(h, fac, p, q, n - 1);
        let x = tp_out(h, fac, n - 1, h.len() as int);
        let t = tp_max(h, fac, q, n - 1);
        let o = s_abs32(x);
        fl_abs32(x, t); fl_abs32(x, fmax32(p, t)); fl_abs32(x, p);
        fl_pos32(p, t); fl_pos32(t, p);
        if fle32(o, o) { fl_pos32(o, t); fl_pos32(t, o); fl_pos32(o, p); fl_pos32(p, o); fl_pos32(o, fmax32(p, t)); }
    }
}
pub proof fn tp_peak_max(h: Seq<f32>, fac: int, p: f32, q: f32, xs: Seq<f32>)
    requires pos32(p), pos32(q),
    ensures tp_peak(h, fac, fmax32(p, q), xs) == fmax32(p, tp_peak(h, fac, q, xs)), pos32(tp_peak(h, fac, q, xs)),
    decreases xs.len(),
{
    if xs.len() > 0 {
        tp_peak_max(h, fac, p, q, xs.drop_last());
        tp_max_max(tp_hist(h, xs), fac, p, tp_peak(h, fac, q, xs.drop_last()), fac);
    }
}
pub open spec fn tp_call(h: Seq<f32>, fac: int, xs: Seq<f32>) -> f64 { s_f64_of_f32(tp_peak(h, fac, 0.0f32, xs)) }
/// C03 C09: the overall true peak does not depend on how the frames were cut into calls
pub proof fn tp_calls(p: f64, h: Seq<f32>, fac: int, a: Seq<f32>, b: Seq<f32>)
    requires pos64(p),
    ensures fmax(fmax(p, tp_call(h, fac, a)), tp_call(tp_hist(h, a), fac, b)) == fmax(p, tp_call(h, fac, a + b)), pos64(tp_call(h, fac, a)),
{
    let h2 = tp_hist(h, a);
    fl_abs32(0.0f32, 0.0f32);
    let x = tp_peak(h, fac, 0.0f32, a);
    let y = tp_peak(h2, fac, 0.0f32, b);
    tp_peak_max(h, fac, 0.0f32, 0.0f32, a);
    tp_peak_max(h2, fac, x, 0.0f32, b);
    fl_zero_least32(x);
    tp_peak_cat(h, fac, 0.0f32, a, b);
    fl_pos32(0.0f32, x); fl_pos32(x, 0.0f32);
    assert(fmax32(x, 0.0f32) == x);
    fl_f32_gt(y, x);
    fl_pos_f32(x); fl_pos_f32(y);
    fmax_assoc(p, s_f64_of_f32(x), s_f64_of_f32(y));
}
