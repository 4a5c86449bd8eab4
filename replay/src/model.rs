//! An independent reference of the analyzer, written from the properties: it keeps every K-weighted frame since the last
//! restart and recomputes everything from lists.
pub const M: u8 = 1;
pub const S: u8 = 3;
pub const I: u8 = 5;
pub const LRA: u8 = 0x0b;
pub const SP: u8 = 0x11;
pub const TP: u8 = 0x31;
pub const HIST: u8 = 0x40;
pub fn has(mode: u8, m: u8) -> bool {
    mode & m == m
}

// channel numbers as in the documented list
pub const UNUSED: u8 = 0;
pub const DUAL: u8 = 6;

pub fn default_map(ch: usize) -> Vec<u8> {
    match ch {
        4 => vec![1, 2, 4, 5],
        5 => vec![1, 2, 3, 4, 5],
        _ => (0..ch).map(|i| [1u8, 2, 3, 0, 4, 5].get(i).copied().unwrap_or(0)).collect(),
    }
}
pub fn weight(c: u8) -> f64 {
    match c {
        0 => 0.0,
        4 | 5 | 9 | 10 | 11 | 12 => 1.41,
        6 => 2.0,
        _ => 1.0,
    }
}
/// BS.1770 coefficients
pub fn coeffs(rate: f64) -> ([f64; 5], [f64; 5]) {
    let f0 = 1681.974450955533;
    let g = 3.999843853973347;
    let q = 0.7071752369554196;
    let k = (std::f64::consts::PI * f0 / rate).tan();
    let vh = 10f64.powf(g / 20.0);
    let vb = vh.powf(0.4996667741545416);
    let a0 = 1.0 + k / q + k * k;
    let pb = [(vh + vb * k / q + k * k) / a0, 2.0 * (k * k - vh) / a0, (vh - vb * k / q + k * k) / a0];
    let pa = [1.0, 2.0 * (k * k - 1.0) / a0, (1.0 - k / q + k * k) / a0];
    let f0 = 38.13547087602444;
    let q = 0.5003270373238773;
    let k = (std::f64::consts::PI * f0 / rate).tan();
    let d = 1.0 + k / q + k * k;
    let rb = [1.0, -2.0, 1.0];
    let ra = [1.0, 2.0 * (k * k - 1.0) / d, (1.0 - k / q + k * k) / d];
    let mut b = [0.0; 5];
    let mut a = [0.0; 5];
    for i in 0..3 {
        for j in 0..3 {
            b[i + j] += pb[i] * rb[j];
            a[i + j] += pa[i] * ra[j];
        }
    }
    (b, a)
}
pub fn lufs(e: f64) -> f64 {
    10.0 * e.log10() - 0.691
}
/// bin boundaries and centres from their nominal loudness
pub fn bound(i: usize) -> f64 {
    10f64.powf((-70.0 + i as f64 / 10.0 + 0.691) / 10.0)
}
pub fn centre(i: usize) -> f64 {
    10f64.powf((-69.95 + i as f64 / 10.0 + 0.691) / 10.0)
}
pub fn bin(e: f64) -> usize {
    let mut k = 0;
    while k < 999 && e >= bound(k + 1) {
        k += 1;
    }
    k
}
#[derive(Clone, Debug)]
pub struct Blocks {
    pub hist: bool,
    pub max: usize,
    pub v: Vec<f64>,
}
impl Blocks {
    pub fn new(hist: bool, max: usize) -> Self {
        Blocks { hist, max, v: vec![] }
    }
    pub fn trim(&mut self) {
        if !self.hist && self.v.len() > self.max {
            let k = self.v.len() - self.max;
            self.v.drain(0..k);
        }
    }
    pub fn add(&mut self, e: f64) {
        if e < bound(0) {
            return;
        }
        self.v.push(if self.hist { centre(bin(e)) } else { e });
        self.trim();
    }
}
pub fn gate(all: &[&Blocks]) -> Result<(u64, f64), bool> {
    let n: usize = all.iter().map(|b| b.v.len()).sum();
    if n == 0 {
        return Err(false);
    }
    let e: f64 = all.iter().map(|b| b.v.iter().sum::<f64>()).sum();
    if e.is_nan() {
        return Err(true);
    }
    let thr = e / n as f64 * 0.1;
    let mut c = 0;
    let mut s = 0.0;
    for b in all {
        for x in &b.v {
            if *x >= thr {
                c += 1;
                s += x;
            }
        }
    }
    if c == 0 {
        return Err(false);
    }
    Ok((c, s))
}
pub fn integrated(all: &[&Blocks]) -> f64 {
    match gate(all) {
        Ok((n, e)) => lufs(e / n as f64),
        Err(false) => f64::NEG_INFINITY,
        Err(true) => f64::NAN,
    }
}
pub fn rel_thr(b: &Blocks) -> f64 {
    if b.v.is_empty() {
        return -70.0;
    }
    lufs(b.v.iter().sum::<f64>() / b.v.len() as f64 * 0.1)
}
pub fn lra(all: &[&Blocks]) -> f64 {
    let mut v: Vec<f64> = all.iter().flat_map(|b| b.v.iter().copied()).collect();
    if v.is_empty() {
        return 0.0;
    }
    if v.iter().any(|x| x.is_nan()) {
        return f64::NAN;
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let thr = v.iter().sum::<f64>() / v.len() as f64 * 0.01;
    let g: Vec<f64> = v.into_iter().filter(|x| !(*x < thr)).collect();
    if g.is_empty() {
        return 0.0;
    }
    let at = |p: f64| g[((g.len() - 1) as f64 * p + 0.5) as usize];
    lufs(at(0.95)) - lufs(at(0.1))
}

#[derive(Clone)]
pub struct Interp {
    factor: usize,
    hist: Vec<f32>,
    c: Vec<f32>,
}
impl Interp {
    pub fn new(factor: usize) -> Self {
        let n = 48 / factor;
        let c = (0..48)
            .map(|j| {
                let j = j as f64;
                let w = 0.5 * (1.0 - (2.0 * std::f64::consts::PI * j / 48.0).cos());
                let m = j - 24.0;
                (if m.abs() > 1e-6 {
                    w * (m * std::f64::consts::PI / factor as f64).sin() / (m * std::f64::consts::PI / factor as f64)
                } else {
                    w
                }) as f32
            })
            .collect();
        Interp { factor, hist: vec![0.0; n], c }
    }
    pub fn push(&mut self, s: f32) -> f32 {
        self.hist.pop();
        self.hist.insert(0, s);
        let mut m = 0.0f32;
        for f in 0..self.factor {
            let mut acc = 0.0f32;
            for t in 0..self.hist.len() {
                acc += self.hist[t] * self.c[t * self.factor + f];
            }
            if acc.abs() > m {
                m = acc.abs();
            }
        }
        m
    }
}

#[derive(Clone)]
pub struct Ref {
    pub mode: u8,
    pub rate: u32,
    pub ch: usize,
    pub map: Vec<u8>,
    pub win: usize,
    pub hist: usize,
    pub s100: usize,
    b: [f64; 5],
    a: [f64; 5],
    state: Vec<[f64; 5]>,
    /// K-weighted frames since the last restart of the windows
    pub data: Vec<Vec<f64>>,
    pub n: usize,
    pub blocks: Blocks,
    pub sblocks: Blocks,
    pub sp: Vec<f64>,
    pub psp: Vec<f64>,
    pub tp: Vec<f64>,
    pub ptp: Vec<f64>,
    interp: Vec<Interp>,
    /// energies of Unused channels that come into use again are not defined by the properties
    pub dirty: bool,
    pub recorded: usize,
    pub srecorded: usize,
}
pub fn valid(ch: u32, rate: u32) -> bool {
    (1..=64).contains(&ch) && (16..=2822400).contains(&rate)
}
impl Ref {
    pub fn new(ch: u32, rate: u32, mode: u8) -> Result<Ref, u8> {
        let mode = mode & 0x7f;
        if !valid(ch, rate) {
            return Err(1);
        }
        if !has(mode, M) {
            return Err(2);
        }
        let win = if has(mode, S) { 3000 } else { 400 };
        let h = has(mode, HIST);
        let mut r = Ref {
            mode,
            rate,
            ch: ch as usize,
            map: default_map(ch as usize),
            win,
            hist: usize::MAX,
            s100: 0,
            b: [0.0; 5],
            a: [0.0; 5],
            state: vec![],
            data: vec![],
            n: 0,
            blocks: Blocks::new(h, usize::MAX / 100),
            sblocks: Blocks::new(h, usize::MAX / 3000),
            sp: vec![0.0; ch as usize],
            psp: vec![],
            tp: vec![0.0; ch as usize],
            ptp: vec![],
            interp: vec![],
            dirty: false,
            recorded: 0,
            srecorded: 0,
        };
        r.restart_filter();
        r.restart_window();
        Ok(r)
    }
    fn restart_filter(&mut self) {
        let (b, a) = coeffs(self.rate as f64);
        self.b = b;
        self.a = a;
        self.s100 = (self.rate as usize + 5) / 10;
        self.state = vec![[0.0; 5]; self.ch];
        self.psp = vec![0.0; self.ch];
        self.ptp = vec![0.0; self.ch];
        self.interp = if has(self.mode, TP) && self.rate < 192000 {
            vec![Interp::new(if self.rate < 96000 { 4 } else { 2 }); self.ch]
        } else {
            vec![]
        };
    }
    fn restart_window(&mut self) {
        self.data = vec![vec![]; self.ch];
        self.n = 0;
        self.dirty = false;
    }
    pub fn set_channel(&mut self, n: u32, v: u8) -> Result<(), u8> {
        if n as usize >= self.ch || (v == DUAL && self.ch != 1) {
            return Err(3);
        }
        if self.map[n as usize] == UNUSED && v != UNUSED && self.n > 0 {
            self.dirty = true;
        }
        self.map[n as usize] = v;
        Ok(())
    }
    pub fn set_map(&mut self, m: &[u8]) -> Result<(), u8> {
        if m.len() != self.ch || (self.ch != 1 && m.contains(&DUAL)) {
            return Err(3);
        }
        for (o, n) in self.map.iter().zip(m) {
            if *o == UNUSED && *n != UNUSED && self.n > 0 {
                self.dirty = true;
            }
        }
        self.map = m.to_vec();
        Ok(())
    }
    pub fn change(&mut self, ch: u32, rate: u32) -> Result<bool, u8> {
        if !valid(ch, rate) {
            return Err(1);
        }
        if ch as usize == self.ch && rate == self.rate {
            return Ok(false);
        }
        if ch as usize != self.ch {
            self.ch = ch as usize;
            self.map = default_map(self.ch);
            self.sp = vec![0.0; self.ch];
            self.tp = vec![0.0; self.ch];
        }
        self.rate = rate;
        self.restart_filter();
        self.restart_window();
        Ok(true)
    }
    pub fn set_window(&mut self, w: u32) -> bool {
        let w = w.max(if has(self.mode, S) { 3000 } else { 400 }) as usize;
        if w == self.win {
            return false;
        }
        self.win = w;
        self.restart_window();
        true
    }
    pub fn set_history(&mut self, h: u32) {
        let h = h.max(if has(self.mode, S) { 3000 } else { 400 }) as usize;
        self.hist = h;
        self.blocks.max = h / 100;
        self.blocks.trim();
        self.sblocks.max = h / 3000;
        self.sblocks.trim();
    }
    pub fn reset(&mut self) {
        self.restart_filter();
        self.restart_window();
        self.sp = vec![0.0; self.ch];
        self.tp = vec![0.0; self.ch];
        self.blocks.v.clear();
        self.sblocks.v.clear();
        self.recorded = 0;
        self.srecorded = 0;
    }
    fn kw(&mut self, c: usize, x: f64) -> f64 {
        let s = &mut self.state[c];
        s[0] = x - self.a[1] * s[1] - self.a[2] * s[2] - self.a[3] * s[3] - self.a[4] * s[4];
        let y = self.b[0] * s[0] + self.b[1] * s[1] + self.b[2] * s[2] + self.b[3] * s[3] + self.b[4] * s[4];
        for k in (1..5).rev() {
            s[k] = s[k - 1];
        }
        y
    }
    /// interleaved frames
    pub fn add(&mut self, x: &[f64]) {
        let frames = x.len() / self.ch;
        if frames == 0 {
            return;
        }
        self.psp = vec![0.0; self.ch];
        self.ptp = vec![0.0; self.ch];
        for i in 0..frames {
            for c in 0..self.ch {
                let v = x[i * self.ch + c];
                let y = if self.map[c] != UNUSED { self.kw(c, v) } else { 0.0 };
                self.data[c].push(y);
                if has(self.mode, SP) && v.abs() > self.psp[c] {
                    self.psp[c] = v.abs();
                }
                if !self.interp.is_empty() {
                    let t = self.interp[c].push(v as f32) as f64;
                    if t > self.ptp[c] {
                        self.ptp[c] = t;
                    }
                }
            }
            self.n += 1;
            let s = self.s100;
            if has(self.mode, I) && self.n >= 4 * s && self.n % s == 0 {
                let e = self.energy(4 * s);
                self.recorded += 1;
                self.blocks.add(e);
            }
            if has(self.mode, LRA) && self.n >= 30 * s && self.n % (10 * s) == 0 {
                let e = self.energy(30 * s);
                self.srecorded += 1;
                self.sblocks.add(e);
            }
        }
        for c in 0..self.ch {
            if self.psp[c] > self.sp[c] {
                self.sp[c] = self.psp[c];
            }
            if self.ptp[c] > self.tp[c] {
                self.tp[c] = self.ptp[c];
            }
        }
    }
    pub fn seed(&mut self, x: &[f64]) {
        let frames = x.len() / self.ch;
        for i in 0..frames {
            for c in 0..self.ch {
                let v = x[i * self.ch + c];
                if self.map[c] != UNUSED {
                    self.kw(c, v);
                }
                if !self.interp.is_empty() {
                    self.interp[c].push(v as f32);
                }
            }
        }
    }
    /// weighted mean square of the last frames
    pub fn energy(&self, frames: usize) -> f64 {
        let mut sum = 0.0;
        for c in 0..self.ch {
            if self.map[c] == UNUSED {
                continue;
            }
            let d = &self.data[c];
            let k = d.len().saturating_sub(frames);
            sum += weight(self.map[c]) * d[k..].iter().map(|x| x * x).sum::<f64>();
        }
        sum / frames as f64
    }
    pub fn loudness(&self, frames: usize) -> f64 {
        let e = self.energy(frames);
        if e <= 0.0 {
            f64::NEG_INFINITY
        } else {
            lufs(e)
        }
    }
}
