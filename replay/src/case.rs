//! cases: lists of calls on an analyzer, as text
use crate::model;
use crate::sig::*;
use ebur128::{Channel, EbuR128, Error, Mode};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New(u32, u32, u8),
    Map(Vec<u8>),
    Chan(u32, u8),
    Change(u32, u32),
    Window(u32),
    History(u32),
    Reset,
    /// planar?, cut positions seed, signal
    Add(bool, Sig),
    Seed(bool, Sig),
    /// malformed: interleaved length / planar lengths
    BadI(bool, usize),
    BadP(bool, Vec<usize>),
    Query,
    Win(u32),
}
pub type Case = Vec<Op>;

fn list<T: std::fmt::Display>(v: &[T]) -> String {
    let s = v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    if s.is_empty() {
        "-".into()
    } else {
        s
    }
}
fn unlist<T: std::str::FromStr>(s: &str) -> Vec<T> {
    if s == "-" {
        return vec![];
    }
    s.split(',').filter_map(|x| x.parse().ok()).collect()
}
fn sigs(s: &Sig) -> String {
    format!("{:?} frames={} channels={} kind={} amp={} seed={}", s.fmt, s.frames, s.channels, s.kind, s.amp_db, s.seed)
}
fn unsig(w: &[&str]) -> Sig {
    let f = |k: &str| w.iter().find_map(|x| x.strip_prefix(k)).unwrap().to_string();
    Sig {
        fmt: match w[0] {
            "I16" => Fmt::I16,
            "I32" => Fmt::I32,
            "F32" => Fmt::F32,
            _ => Fmt::F64,
        },
        frames: f("frames=").parse().unwrap(),
        channels: f("channels=").parse().unwrap(),
        kind: f("kind=").parse().unwrap(),
        amp_db: f("amp=").parse().unwrap(),
        seed: f("seed=").parse().unwrap(),
    }
}
fn ip(p: bool) -> &'static str {
    if p {
        "planar"
    } else {
        "interleaved"
    }
}
pub fn show(c: &Case) -> String {
    let mut o = String::new();
    for x in c {
        o += &match x {
            Op::New(c, r, m) => format!("new {} {} {}\n", c, r, m),
            Op::Map(v) => format!("map {}\n", list(v)),
            Op::Chan(n, v) => format!("chan {} {}\n", n, v),
            Op::Change(c, r) => format!("change {} {}\n", c, r),
            Op::Window(w) => format!("window {}\n", w),
            Op::History(w) => format!("history {}\n", w),
            Op::Reset => "reset\n".into(),
            Op::Add(p, s) => format!("add {} {}\n", ip(*p), sigs(s)),
            Op::Seed(p, s) => format!("seed {} {}\n", ip(*p), sigs(s)),
            Op::BadI(s, n) => format!("bad-interleaved {} {}\n", s, n),
            Op::BadP(s, n) => format!("bad-planar {} {}\n", s, list(n)),
            Op::Query => "query\n".into(),
            Op::Win(w) => format!("win {}\n", w),
        };
    }
    o
}
pub fn parse(t: &str) -> Case {
    let mut v = vec![];
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        let n = |i: usize| w[i].parse::<u64>().unwrap();
        v.push(match w[0] {
            "new" => Op::New(n(1) as u32, n(2) as u32, n(3) as u8),
            "map" => Op::Map(unlist(w[1])),
            "chan" => Op::Chan(n(1) as u32, n(2) as u8),
            "change" => Op::Change(n(1) as u32, n(2) as u32),
            "window" => Op::Window(n(1) as u32),
            "history" => Op::History(n(1) as u32),
            "reset" => Op::Reset,
            "add" => Op::Add(w[1] == "planar", unsig(&w[2..])),
            "seed" => Op::Seed(w[1] == "planar", unsig(&w[2..])),
            "bad-interleaved" => Op::BadI(w[1] == "true", n(2) as usize),
            "bad-planar" => Op::BadP(w[1] == "true", unlist(w[2])),
            "query" => Op::Query,
            "win" => Op::Win(n(1) as u32),
            _ => continue,
        });
    }
    v
}

pub const CHANNELS: [Channel; 32] = [
    Channel::Unused,
    Channel::Left,
    Channel::Right,
    Channel::Center,
    Channel::LeftSurround,
    Channel::RightSurround,
    Channel::DualMono,
    Channel::MpSC,
    Channel::MmSC,
    Channel::Mp060,
    Channel::Mm060,
    Channel::Mp090,
    Channel::Mm090,
    Channel::Mp135,
    Channel::Mm135,
    Channel::Mp180,
    Channel::Up000,
    Channel::Up030,
    Channel::Um030,
    Channel::Up045,
    Channel::Um045,
    Channel::Up090,
    Channel::Um090,
    Channel::Up110,
    Channel::Um110,
    Channel::Up135,
    Channel::Um135,
    Channel::Up180,
    Channel::Tp000,
    Channel::Bp000,
    Channel::Bp045,
    Channel::Bm045,
];
pub fn ech(v: u8) -> Channel {
    CHANNELS[v as usize % 32]
}
pub fn code(e: Error) -> u8 {
    match e {
        Error::NoMem => 1,
        Error::InvalidMode => 2,
        Error::InvalidChannelIndex => 3,
    }
}
pub fn rc<T>(r: Result<T, Error>) -> Result<T, u8> {
    r.map_err(code)
}
fn planar<T: Copy>(v: &[T], ch: usize) -> Vec<Vec<T>> {
    (0..ch).map(|c| v.iter().skip(c).step_by(ch).copied().collect()).collect()
}
macro_rules! feed {
    ($e:expr, $b:expr, $planar:expr, $ch:expr, $i:ident, $p:ident, $v:expr) => {
        if $planar {
            let pl = planar($v, $ch);
            let rf: Vec<&[_]> = pl.iter().map(|x| &x[..]).collect();
            $e.$p(&rf)
        } else {
            $e.$i($v)
        }
    };
}
pub fn add(e: &mut EbuR128, b: &Buf, pl: bool, ch: usize) -> Result<(), u8> {
    rc(match b {
        Buf::I16(v) => feed!(e, b, pl, ch, add_frames_i16, add_frames_planar_i16, v),
        Buf::I32(v) => feed!(e, b, pl, ch, add_frames_i32, add_frames_planar_i32, v),
        Buf::F32(v) => feed!(e, b, pl, ch, add_frames_f32, add_frames_planar_f32, v),
        Buf::F64(v) => feed!(e, b, pl, ch, add_frames_f64, add_frames_planar_f64, v),
    })
}
pub fn seed(e: &mut EbuR128, b: &Buf, pl: bool, ch: usize) -> Result<(), u8> {
    rc(match b {
        Buf::I16(v) => feed!(e, b, pl, ch, seed_frames_i16, seed_frames_planar_i16, v),
        Buf::I32(v) => feed!(e, b, pl, ch, seed_frames_i32, seed_frames_planar_i32, v),
        Buf::F32(v) => feed!(e, b, pl, ch, seed_frames_f32, seed_frames_planar_f32, v),
        Buf::F64(v) => feed!(e, b, pl, ch, seed_frames_f64, seed_frames_planar_f64, v),
    })
}
pub fn bad_i(e: &mut EbuR128, sd: bool, n: usize) -> Result<(), u8> {
    let v = vec![0.25f32; n];
    rc(if sd { e.seed_frames_f32(&v) } else { e.add_frames_f32(&v) })
}
pub fn bad_p(e: &mut EbuR128, sd: bool, n: &[usize]) -> Result<(), u8> {
    let v: Vec<Vec<f32>> = n.iter().map(|k| vec![0.25f32; *k]).collect();
    let v: Vec<&[f32]> = v.iter().map(|x| &x[..]).collect();
    rc(if sd { e.seed_frames_planar_f32(&v) } else { e.add_frames_planar_f32(&v) })
}

/// everything that can be asked for
#[derive(Clone, Debug, PartialEq)]
pub struct Obs(pub Vec<(String, Result<u64, u8>)>);
pub fn bits(r: Result<f64, Error>) -> Result<u64, u8> {
    r.map(|x| x.to_bits()).map_err(code)
}
pub fn observe(e: &EbuR128, prev: bool) -> Obs {
    let mut v: Vec<(String, Result<u64, u8>)> = vec![];
    let mut p = |n: &str, r: Result<u64, u8>| v.push((n.to_string(), r));
    p("mode", Ok(e.mode().bits() as u64));
    p("channels", Ok(e.channels() as u64));
    p("rate", Ok(e.rate() as u64));
    p("max_window", Ok(e.max_window() as u64));
    p("max_history", Ok(e.max_history() as u64));
    p("map length", Ok(e.channel_map().len() as u64));
    for (i, c) in e.channel_map().iter().enumerate() {
        p(&format!("map {}", i), Ok(*c as u32 as u64));
    }
    p("momentary", bits(e.loudness_momentary()));
    p("shortterm", bits(e.loudness_shortterm()));
    for w in [90u32, 100, 250, 400, 401, 1000, 2999, 3000, 4321] {
        if e.rate() as u64 * w as u64 >= 1000 {
            p(&format!("window {}", w), bits(e.loudness_window(w)));
        }
    }
    if e.max_window() <= u32::MAX as usize && e.rate() as u64 * e.max_window() as u64 >= 1000 {
        p("window max", bits(e.loudness_window(e.max_window() as u32)));
    }
    p("global", bits(e.loudness_global()));
    p("relative threshold", bits(e.relative_threshold()));
    let g = e.gating_block_count_and_energy();
    p("block count", g.map(|x| x.0).ok_or(9));
    p("block energy", g.map(|x| x.1.to_bits()).ok_or(9));
    p("range", bits(e.loudness_range()));
    for c in 0..e.channels() + 1 {
        p(&format!("sample peak {}", c), bits(e.sample_peak(c)));
        p(&format!("true peak {}", c), bits(e.true_peak(c)));
        if prev {
            p(&format!("prev sample peak {}", c), bits(e.prev_sample_peak(c)));
            p(&format!("prev true peak {}", c), bits(e.prev_true_peak(c)));
        }
    }
    Obs(v)
}
fn sv(n: &str, r: Result<u64, u8>) -> String {
    match r {
        Err(e) => format!("error {}", e),
        Ok(v) => {
            if ["mode", "channels", "rate", "max_window", "max_history", "map length", "block count"].contains(&n) || n.starts_with("map ") {
                format!("{}", v)
            } else {
                format!("{:e} ({:016x})", f64::from_bits(v), v)
            }
        }
    }
}
pub fn same(a: &Obs, b: &Obs) -> Result<(), String> {
    if a.0.len() != b.0.len() {
        return Err("different numbers of observables".into());
    }
    for (x, y) in a.0.iter().zip(&b.0) {
        let nan = |r: Result<u64, u8>| matches!(r, Ok(v) if f64::from_bits(v).is_nan());
        if x != y && !(x.0 == y.0 && nan(x.1) && nan(y.1)) {
            return Err(format!("{}: {} instead of {}", x.0, sv(&x.0, y.1), sv(&y.0, x.1)));
        }
    }
    Ok(())
}

/// one call; the channel count is the analyzer's
pub fn apply(e: &mut EbuR128, op: &Op) -> Result<(), u8> {
    match op {
        Op::New(..) => Ok(()),
        Op::Map(m) => {
            let m: Vec<Channel> = m.iter().map(|x| ech(*x)).collect();
            rc(e.set_channel_map(&m))
        }
        Op::Chan(n, v) => rc(e.set_channel(*n, ech(*v))),
        Op::Change(c, r) => rc(e.change_parameters(*c, *r)),
        Op::Window(w) => rc(e.set_max_window(*w)),
        Op::History(w) => rc(e.set_max_history(*w)),
        Op::Reset => {
            e.reset();
            Ok(())
        }
        Op::Add(p, s) => {
            let mut s = s.clone();
            s.channels = e.channels() as usize;
            let b = s.gen();
            add(e, &b, *p, s.channels)
        }
        Op::Seed(p, s) => {
            let mut s = s.clone();
            s.channels = e.channels() as usize;
            let b = s.gen();
            seed(e, &b, *p, s.channels)
        }
        Op::BadI(s, n) => bad_i(e, *s, *n),
        Op::BadP(s, n) => bad_p(e, *s, n),
        Op::Query => {
            observe(e, true);
            Ok(())
        }
        Op::Win(w) => {
            let _ = e.loudness_window(*w);
            Ok(())
        }
    }
}
pub fn create(c: u32, r: u32, m: u8) -> Result<EbuR128, u8> {
    rc(EbuR128::new(c, r, Mode::from_bits_truncate(m)))
}
/// whether a malformed call has to be refused
pub fn malformed(op: &Op, ch: usize) -> Option<bool> {
    match op {
        Op::BadI(_, n) => Some(n % ch != 0),
        Op::BadP(_, v) => Some(v.len() != ch || v.iter().any(|x| *x != v[0])),
        _ => None,
    }
}
/// the model's side of a call; None if it says nothing about the result
pub fn apply_ref(r: &mut model::Ref, op: &Op) -> Option<Result<(), u8>> {
    match op {
        Op::New(..) | Op::Query | Op::Win(_) => None,
        Op::Map(m) => Some(r.set_map(&m.iter().map(|x| x % 32).collect::<Vec<_>>())),
        Op::Chan(n, v) => Some(r.set_channel(*n, v % 32)),
        Op::Change(c, h) => Some(r.change(*c, *h).map(|_| ())),
        Op::Window(w) => {
            r.set_window(*w);
            Some(Ok(()))
        }
        Op::History(w) => {
            r.set_history(*w);
            Some(Ok(()))
        }
        Op::Reset => {
            r.reset();
            Some(Ok(()))
        }
        Op::Add(_, s) => {
            let mut s = s.clone();
            s.channels = r.ch;
            r.add(&s.gen().f64s());
            Some(Ok(()))
        }
        Op::Seed(_, s) => {
            let mut s = s.clone();
            s.channels = r.ch;
            r.seed(&s.gen().f64s());
            Some(Ok(()))
        }
        Op::BadI(sd, n) => {
            if n % r.ch != 0 {
                Some(Err(1))
            } else {
                let v = vec![0.25; *n];
                if *sd {
                    r.seed(&v)
                } else {
                    r.add(&v)
                }
                Some(Ok(()))
            }
        }
        Op::BadP(sd, n) => {
            if n.len() != r.ch || n.iter().any(|x| *x != n[0]) {
                Some(Err(1))
            } else {
                let v = vec![0.25; n[0] * r.ch];
                if *sd {
                    r.seed(&v)
                } else {
                    r.add(&v)
                }
                Some(Ok(()))
            }
        }
    }
}
