//! deterministic random numbers and test signals
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.u();
        r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u() % n.max(1)
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fmt {
    I16,
    I32,
    F32,
    F64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sig {
    pub frames: usize,
    pub channels: usize,
    pub kind: u8,
    pub amp_db: i32,
    pub seed: u64,
    pub fmt: Fmt,
}
#[derive(Clone, Debug)]
pub enum Buf {
    I16(Vec<i16>),
    I32(Vec<i32>),
    F32(Vec<f32>),
    F64(Vec<f64>),
}
impl Buf {
    #[allow(dead_code)]
    pub fn len(&self) -> usize {
        match self {
            Buf::I16(v) => v.len(),
            Buf::I32(v) => v.len(),
            Buf::F32(v) => v.len(),
            Buf::F64(v) => v.len(),
        }
    }
    /// the values as doubles, full negative scale -1
    pub fn f64s(&self) -> Vec<f64> {
        match self {
            Buf::I16(v) => v.iter().map(|x| *x as f64 / 32768.0).collect(),
            Buf::I32(v) => v.iter().map(|x| *x as f64 / 2147483648.0).collect(),
            Buf::F32(v) => v.iter().map(|x| *x as f64).collect(),
            Buf::F64(v) => v.clone(),
        }
    }
    pub fn sub(&self, a: usize, b: usize) -> Buf {
        match self {
            Buf::I16(v) => Buf::I16(v[a..b].to_vec()),
            Buf::I32(v) => Buf::I32(v[a..b].to_vec()),
            Buf::F32(v) => Buf::F32(v[a..b].to_vec()),
            Buf::F64(v) => Buf::F64(v[a..b].to_vec()),
        }
    }
}
impl Sig {
    /// interleaved samples
    pub fn gen(&self) -> Buf {
        let mut r = Rng::new(self.seed);
        let amp = if self.amp_db <= -200 { 0.0 } else { 10f64.powf(self.amp_db as f64 / 20.0) };
        let n = self.frames * self.channels;
        let mut out = vec![0.0f64; n];
        let freqs: Vec<f64> = (0..self.channels).map(|_| 0.002 + 0.3 * r.f()).collect();
        let cg: Vec<f64> = (0..self.channels).map(|_| 0.2 + 0.8 * r.f()).collect();
        let special = if self.channels > 0 { r.below(self.channels as u64) as usize } else { 0 };
        let imp = r.below(self.frames.max(1) as u64) as usize;
        for i in 0..self.frames {
            for c in 0..self.channels {
                let v = match self.kind % 10 {
                    0 => amp * cg[c] * (2.0 * r.f() - 1.0),
                    1 => amp * cg[c] * (2.0 * std::f64::consts::PI * freqs[c] * i as f64).sin(),
                    2 => {
                        if i == imp && c == special {
                            amp
                        } else {
                            0.0
                        }
                    }
                    3 => 0.0,
                    // square at half the band
                    4 => amp * if (i / (1 + c)) % 2 == 0 { 1.0 } else { -1.0 },
                    // only one channel has signal
                    5 => {
                        if c == special {
                            amp * (2.0 * r.f() - 1.0)
                        } else {
                            0.0
                        }
                    }
                    // level steps
                    6 => {
                        let s = (i / 997) as u64;
                        let g = Rng::new(self.seed ^ s.wrapping_mul(77)).f();
                        amp * g * g * (2.0 * r.f() - 1.0)
                    }
                    // full scale extremes
                    7 => {
                        if r.chance(0.3) {
                            if r.chance(0.5) {
                                -1.0
                            } else {
                                1.0
                            }
                        } else {
                            amp * (2.0 * r.f() - 1.0)
                        }
                    }
                    // bursts
                    8 => {
                        if (i / 1501 + self.seed as usize) % 3 == 0 {
                            amp * (0.7 * i as f64).sin()
                        } else {
                            amp * 0.003 * (2.0 * r.f() - 1.0)
                        }
                    }
                    // specials: NaN and infinities
                    _ => match r.below(60) {
                        0 => f64::NAN,
                        1 if self.seed % 3 == 0 => f64::INFINITY,
                        2 if self.seed % 3 == 0 => -f64::INFINITY,
                        _ => amp * (2.0 * r.f() - 1.0),
                    },
                };
                out[i * self.channels + c] = v;
            }
        }
        match self.fmt {
            Fmt::F64 => Buf::F64(out),
            Fmt::F32 => Buf::F32(out.iter().map(|x| *x as f32).collect()),
            Fmt::I16 => Buf::I16(out.iter().map(|x| (x * 32768.0) as i16).collect()),
            Fmt::I32 => Buf::I32(out.iter().map(|x| (x * 2147483648.0) as i32).collect()),
        }
    }
}
