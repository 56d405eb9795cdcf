//! The chunk encodings in both directions (C17): files the encoder writes, and files assembled
//! here from the format with choices the encoder would not make.
use crate::data::*;
use crate::fileq::*;
use crate::util::*;
use ebi::api::decoder::DecoderOutput;
use rand::Rng;
use serde_json::json;

fn words(v: &[f64]) -> Vec<Vec<u8>> {
    v.iter().map(|x| x.to_bits().to_be_bytes().to_vec()).collect()
}

fn read(bytes: &[u8]) -> Out<Vec<f64>> {
    match open(bytes) {
        Out::Ok(mut d) => guard(|| {
            let mut out = DecoderOutput::from_vec(vec![]);
            d.materialize(&mut out, None, None)?;
            let b = out.into_writer().into_inner();
            ebi_dec(b.chunks_exact(8).map(|x| f64::from_le_bytes(x.try_into().unwrap())).collect())
        }),
        Out::Err(e) => Out::Err(e),
        Out::Panic(e) => Out::Panic(e),
    }
}

pub const CODECS: [Codec; 9] = [
    Codec::Uncompressed, Codec::RLE, Codec::Gorilla, Codec::Chimp, Codec::Chimp128, Codec::Elf, Codec::ElfOnChimp, Codec::Sprintz, Codec::BUFF,
];

fn is_elf(c: Codec) -> bool {
    matches!(c, Codec::Elf | Codec::ElfOnChimp)
}

fn size(c: &mut Ctx) -> usize {
    match c.below(8) {
        0 => c.below(3),
        7 => 100 + c.below(100),
        6 => 130 + c.below(220),
        _ => c.below(50),
    }
}

/// values for the codec; the second is the scale in decimal places
fn values(c: &mut Ctx, codec: Codec, n: usize) -> (Vec<f64>, u32) {
    if codec.decimal() {
        let p = match codec {
            Codec::BUFF => c.below(10) as u32,
            _ => c.below(10) as u32,
        };
        let lim = buff_limit(codec, p);
        let top = 63 - lim.leading_zeros();
        let lim = (1i64 << c.rng.gen_range(1..=top)).min(lim);
        return (ints(c, n, lim).into_iter().map(|k| dec(k, p)).collect(), p);
    }
    let mut v = floats(c, codec, n);
    if is_elf(codec) {
        let style = c.below(3);
        let p = c.below(9) as u32;
        for x in v.iter_mut() {
            let a = x.abs();
            if style == 0 || *x != 0.0 && !x.is_infinite() && !(1e-9..1e8).contains(&a) {
                let p = if style == 2 { c.below(10) as u32 } else { p };
                let (lo, hi) = (c.below(30), c.below(30));
                let k = c.rng.gen_range(-1i64 << lo..=1i64 << hi);
                *x = dec(k, p);
            }
        }
    }
    (v, 0)
}

fn written(c: &mut Ctx, codec: Codec) {
    let n = size(c);
    let (vals, p) = values(c, codec, n);
    let opt = chunk_option(c, n);
    let (cfg, _) = codec.config(c, 10u64.pow(p));
    let r = encode(&vals, opt, cfg);
    let mut st = r.st();
    let mut msg = r.msg();
    let mut e = json!({"ev":"written","begin":1,"codec":codec.name(),"p":p,"opt":format!("{opt:?}")});
    if let Out::Ok(b) = r {
        let ws = if codec == Codec::BUFF {
            let o = read(&b);
            st = o.st();
            msg = o.msg();
            match o {
                Out::Ok(v) => v,
                _ => vec![],
            }
        } else {
            vals
        };
        e["b"] = json!(b);
        e["ws"] = json!(words(&ws));
    }
    e["st"] = json!(st);
    e["msg"] = json!(msg);
    c.ev(e);
}

// ---------------------------------------------------------------------------------------------
// assembling chunks from the format

#[derive(Default)]
struct Bw(Vec<u8>);
impl Bw {
    fn put(&mut self, v: u64, n: u32) {
        for i in (0..n).rev() {
            self.0.push((v >> i & 1) as u8);
        }
    }
    fn bytes(mut self) -> Vec<u8> {
        while self.0.len() % 8 != 0 {
            self.0.push(0);
        }
        self.0.chunks(8).map(|b| b.iter().fold(0, |a, x| a << 1 | x)).collect()
    }
}
const NAN: u64 = 0x7ff8000000000000;
const LEADS: [u32; 8] = [0, 8, 12, 16, 18, 20, 22, 24];

/// does x have l leading and t trailing zeros at least?
fn fits(x: u64, l: u32, t: u32) -> bool {
    x.leading_zeros() >= l && x.trailing_zeros() >= t
}
/// the bits of x without the first l and the last t
fn middle(w: &mut Bw, x: u64, l: u32, t: u32) {
    w.put(x >> t, 64 - l - t);
}
/// a lead code that fits
fn lead(c: &mut Ctx, x: u64, canon: f64) -> usize {
    let n = LEADS.iter().filter(|l| x.leading_zeros() >= **l).count();
    if c.chance(canon) { n - 1 } else { c.below(n) }
}

struct Inner {
    codec: Codec, // Gorilla, Chimp, Chimp128, Elf
    first: bool,
    prev: u64,
    win: Option<(u32, u32)>,
    ring: Vec<u64>,
    cur: usize,
    canon: f64,
}
impl Inner {
    fn new(codec: Codec, canon: f64) -> Self {
        Inner { codec, first: true, prev: 0, win: None, ring: vec![], cur: 0, canon }
    }
    fn put(&mut self, c: &mut Ctx, w: &mut Bw, v: u64) {
        let x = self.prev ^ v;
        if self.first {
            match self.codec {
                Codec::Elf => {
                    let t = v.trailing_zeros();
                    w.put(t as u64, 7);
                    if t < 64 {
                        w.put((v >> t) >> 1, 63 - t);
                    }
                }
                _ => w.put(v, 64),
            }
            self.first = false;
            self.ring.push(v);
        } else {
            match self.codec {
                Codec::Gorilla => self.gorilla(c, w, x),
                Codec::Chimp => self.chimp(c, w, x),
                Codec::Chimp128 => self.chimp128(c, w, v, x),
                _ => self.elf(c, w, x),
            }
            self.cur = (self.cur + 1) % 128;
            if self.ring.len() < 128 {
                self.ring.push(v);
            } else {
                self.ring[self.cur] = v;
            }
        }
        self.prev = v;
    }
    fn gorilla(&mut self, c: &mut Ctx, w: &mut Bw, x: u64) {
        let canon = self.canon;
        if x == 0 && c.chance(0.3 + 0.7 * canon) {
            return w.put(0, 1);
        }
        if let Some((l, t)) = self.win {
            if fits(x, l, t) && c.chance(0.3 + 0.7 * canon) {
                w.put(2, 2);
                return middle(w, x, l, t);
            }
        }
        let ml = x.leading_zeros().min(31);
        let l = if c.chance(canon) { ml } else { c.rng.gen_range(0..=ml) };
        let mt = x.trailing_zeros().min(63 - l);
        let t = if c.chance(canon) { mt } else { c.rng.gen_range(0..=mt) };
        w.put(3, 2);
        w.put(l as u64, 5);
        w.put((64 - l - t - 1) as u64, 6);
        middle(w, x, l, t);
        self.win = Some((l, t));
    }
    fn lead_len(&mut self, c: &mut Ctx, w: &mut Bw, x: u64) {
        let i = lead(c, x, self.canon);
        let l = LEADS[i];
        let mt = x.trailing_zeros().min(63 - l);
        let t = if c.chance(self.canon) { mt } else { c.rng.gen_range(0..=mt) };
        w.put(i as u64, 3);
        w.put(((64 - l - t) % 64) as u64, 6);
        middle(w, x, l, t);
        self.win = None;
    }
    fn chimp_rest(&mut self, c: &mut Ctx, w: &mut Bw, x: u64) {
        if let Some((l, _)) = self.win {
            if fits(x, l, 0) && c.chance(0.6) {
                w.put(2, 2);
                return middle(w, x, l, 0);
            }
        }
        let i = lead(c, x, self.canon);
        w.put(3, 2);
        w.put(i as u64, 3);
        middle(w, x, LEADS[i], 0);
        self.win = Some((LEADS[i], 0));
    }
    fn chimp(&mut self, c: &mut Ctx, w: &mut Bw, x: u64) {
        if x == 0 && c.chance(0.3 + 0.7 * self.canon) {
            self.win = None;
            w.put(0, 2)
        } else if c.chance(0.35) {
            w.put(1, 2);
            self.lead_len(c, w, x)
        } else {
            self.chimp_rest(c, w, x)
        }
    }
    fn chimp128(&mut self, c: &mut Ctx, w: &mut Bw, v: u64, x: u64) {
        let same: Vec<usize> = (0..self.ring.len()).filter(|i| self.ring[*i] == v).collect();
        if !same.is_empty() && c.chance(0.5) {
            w.put(0, 2);
            w.put(c.pick(&same) as u64, 7);
            self.win = None;
        } else if c.chance(0.45) {
            // the slot with most trailing zeros, or any
            let i = if c.chance(self.canon) {
                (0..self.ring.len()).max_by_key(|i| (self.ring[*i] ^ v).trailing_zeros()).unwrap()
            } else {
                c.below(self.ring.len())
            };
            w.put(1, 2);
            w.put(i as u64, 7);
            let d = self.ring[i] ^ v;
            self.lead_len(c, w, d)
        } else {
            self.chimp_rest(c, w, x)
        }
    }
    fn elf(&mut self, c: &mut Ctx, w: &mut Bw, x: u64) {
        if x == 0 {
            // the stored window ends in a 1: a zero difference is 01, or 00 in a window
            match self.win {
                Some((l, t)) if c.chance(0.5 * (1.0 - self.canon)) => {
                    w.put(0, 2);
                    middle(w, x, l, t)
                }
                _ => w.put(1, 2),
            }
            return;
        }
        if let Some((l, t)) = self.win {
            if fits(x, l, t) && c.chance(0.3 + 0.7 * self.canon) {
                w.put(0, 2);
                return middle(w, x, l, t);
            }
        }
        let i = lead(c, x, self.canon);
        let l = LEADS[i];
        let t = x.trailing_zeros();
        let n = 64 - l - t;
        if n <= 16 && c.chance(0.3 + 0.7 * self.canon) {
            w.put(2, 2);
            w.put(i as u64, 3);
            w.put((n % 16) as u64, 4);
        } else {
            w.put(3, 2);
            w.put(i as u64, 3);
            w.put((n % 64) as u64, 6);
        }
        w.put((x >> t) >> 1, n - 1);
        self.win = Some((l, t));
    }
}

/// decimal digits and places of a value, if it is a short decimal
fn decimal(v: f64) -> Option<(u64, u32)> {
    if v == 0.0 || !v.is_finite() {
        return None;
    }
    let s = format!("{:e}", v.abs());
    let (m, e) = s.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let frac = m.len().saturating_sub(2);
    let d: u64 = m.replace('.', "").parse().ok()?;
    let a = frac as i32 - e;
    if d.to_string().len() > 14 || !(-8..8).contains(&e) {
        return None;
    }
    if a < 0 {
        Some((d * 10u64.pow((-a) as u32), 0))
    } else {
        Some((d, a as u32))
    }
}

fn chunk(c: &mut Ctx, codec: Codec, vs: &[f64], p: u32) -> Vec<u8> {
    let canon = c.pick(&[0.0, 0.5, 0.9]);
    match codec {
        Codec::Uncompressed => vs.iter().flat_map(|v| v.to_le_bytes()).collect(),
        Codec::RLE => {
            let mut runs: Vec<(u8, f64)> = vec![];
            for v in vs {
                match runs.last_mut() {
                    Some((n, w)) if w.to_bits() == v.to_bits() && *n < 255 && c.chance(0.3 + 0.7 * canon) => *n += 1,
                    _ => runs.push((1, *v)),
                }
            }
            let mut b = (runs.len() as u64).to_le_bytes().to_vec();
            for (n, v) in runs {
                b.push(n);
                b.extend(v.to_le_bytes());
            }
            b
        }
        Codec::Gorilla | Codec::Chimp | Codec::Chimp128 => {
            let mut w = Bw::default();
            let mut k = Inner::new(codec, canon);
            for v in vs {
                k.put(c, &mut w, v.to_bits());
            }
            k.put(c, &mut w, NAN);
            w.put(0, 1);
            w.bytes()
        }
        Codec::Elf | Codec::ElfOnChimp => {
            let mut w = Bw::default();
            let mut k = Inner::new(if codec == Codec::Elf { Codec::Elf } else { Codec::Chimp }, canon);
            let mut last = None;
            for v in vs {
                let bits = v.to_bits();
                let mut done = false;
                if let Some((d, a)) = decimal(*v) {
                    // erase up to the bits the decimal determines, at least one of them set
                    let f = (a as f64 * std::f64::consts::LOG2_10).ceil() as i64;
                    let e2 = ((bits >> 52) & 0x7ff) as i64 - 1023;
                    let most = (52 - f - e2).clamp(0, 52) as u32;
                    let least = bits.trailing_zeros() + 1;
                    let pow = a > 0 && d == 1;
                    let sp = d.to_string().len() as i64 - 1 - a as i64;
                    let bs = if pow { 0 } else { sp + a as i64 + 1 };
                    if (0..16).contains(&bs) && a > 0 && most >= least && c.chance(0.3 + 0.6 * canon.max(0.5)) {
                        let n = if c.chance(0.5) { most } else { c.rng.gen_range(least..=most) };
                        let er = bits & (u64::MAX << n);
                        if last == Some(bs) && c.chance(0.7) {
                            w.put(0, 1);
                        } else {
                            w.put(3, 2);
                            w.put(bs as u64, 4);
                        }
                        last = Some(bs);
                        k.put(c, &mut w, er);
                        done = true;
                    }
                }
                if !done {
                    w.put(2, 2);
                    k.put(c, &mut w, bits);
                }
            }
            w.put(2, 2);
            k.put(c, &mut w, NAN);
            w.put(0, 1);
            w.bytes()
        }
        Codec::Sprintz => {
            let s = 10f64.powi(p as i32);
            let ks: Vec<i64> = vs.iter().map(|v| (v * s).round() as i64).collect();
            let start = match c.below(4) {
                0 => 0,
                1 => ks.get(c.below(ks.len())).copied().unwrap_or(0),
                2 => ks[0].wrapping_add(c.rng.gen_range(-1000..=1000)),
                _ => ks[0],
            };
            let mut prev = start;
            let zs: Vec<u64> = ks
                .iter()
                .map(|k| {
                    let d = k - prev;
                    prev = *k;
                    ((d << 1) ^ (d >> 63)) as u64
                })
                .collect();
            let need = zs.iter().map(|z| 64 - z.leading_zeros()).max().unwrap();
            let nbits = match c.below(3) {
                0 => need.max(1),
                1 => (need + 1 + c.below(9) as u32).min(64),
                _ => c.rng.gen_range(need.max(1)..=64),
            };
            let mut w = Bw::default();
            w.put(start as u64, 64);
            w.put(10u64.pow(p), 32);
            w.put(nbits as u64, 8);
            for z in zs {
                w.put(z, nbits);
            }
            w.bytes()
        }
        Codec::BUFF => {
            let frac = [0u32, 5, 8, 11, 15, 18, 21, 25, 28, 31, 35, 38, 50][p as usize];
            let s = (1u64 << frac) as f64;
            let ks: Vec<i64> = vs.iter().map(|v| (v * s).round() as i64).collect();
            let min = *ks.iter().min().unwrap();
            let max = *ks.iter().max().unwrap();
            let base = match c.below(3) {
                0 => min,
                1 => min - c.rng.gen_range(0..=300),
                _ => min - (c.rng.gen::<u64>() >> c.rng.gen_range(20..63)) as i64,
            };
            let need = 64 - ((max - base) as u64).leading_zeros();
            let width = match c.below(3) {
                0 => need.max(1),
                1 => need.max(1) + c.below(9) as u32,
                _ => c.rng.gen_range(need.max(1)..=need.max(56)),
            }
            .min(60)
            .max(need.max(1))
            .max(frac.max(1));
            let mut b = base.to_le_bytes().to_vec();
            b.extend((ks.len() as u32).to_le_bytes());
            b.extend(width.to_le_bytes());
            b.extend(frac.to_le_bytes());
            let mut left = width;
            while left >= 8 {
                left -= 8;
                b.extend(ks.iter().map(|k| (((k - base) as u64 >> left) as u8) ^ 0x80));
            }
            let mut bits: Vec<u8> = vec![];
            for k in &ks {
                for i in 0..left {
                    bits.push(((k - base) as u64 >> i & 1) as u8);
                }
            }
            for g in bits.chunks(8) {
                b.push(g.iter().rev().fold(0, |a, x| a << 1 | x));
            }
            b
        }
        _ => unreachable!(),
    }
}

fn foreign(c: &mut Ctx, codec: Codec) {
    let n = size(c);
    let (vals, p) = values(c, codec, n);
    let (_, cfg) = codec.config(c, 10u64.pow(p));
    // chunks of any sizes, under the byte-size option
    let mut body = vec![];
    let mut foots = vec![];
    let mut at = 0;
    let max = c.pick(&[1usize, 5, 30, 200, 1000]);
    while at < n {
        let k = (1 + c.below(max)).min(n - at);
        foots.push((30 + body.len() as u64, at as u64));
        body.extend(chunk(c, codec, &vals[at..at + k], p));
        at += k;
    }
    let mut b = b"EBI1".to_vec();
    b.extend([0, crate::meta::scheme(codec) as u8, 2, 0]);
    b.extend(8192u64.to_le_bytes());
    b.extend((30 + body.len() as u64).to_le_bytes());
    for v in [0u16, 1, 0] {
        b.extend(v.to_le_bytes());
    }
    b.extend(body);
    b.extend((n as u64).to_le_bytes());
    b.extend((foots.len() as u64).to_le_bytes());
    for (x, y) in foots {
        b.extend(x.to_le_bytes());
        b.extend(y.to_le_bytes());
    }
    b.push(cfg.iter().map(|x| x.len()).sum::<usize>() as u8);
    b.extend(cfg.concat());
    b.extend([0u8; 160]);
    b.extend([0u8; 4]);
    let r = read(&b);
    let mut e = json!({"ev":"read","begin":1,"codec":codec.name(),"p":p,"st":r.st(),"msg":r.msg(),"b":b});
    if let Out::Ok(v) = r {
        e["ws"] = json!(words(&v));
    }
    c.ev(e);
}

pub fn run(c: &mut Ctx) {
    let per = c.n(20, 200);
    for _ in 0..per {
        for codec in CODECS {
            written(c, codec);
            foreign(c, codec);
        }
    }
}
