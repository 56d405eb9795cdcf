//! Files and queries on them: the recorder for TraceEbi (C01, C03, C06, C07, C08, C10, C11).
use crate::data::*;
use crate::script::{self, Rdr, Wtr};
use crate::util::*;
use ebi::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::compressor::CompressorConfig;
use ebi::decoder::FileReader;
use ebi::decoder::query::{Predicate, Range, RangeValue};
use ebi::encoder::{ChunkOption, FileWriter};
use rand::Rng;
use roaring::RoaringBitmap;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{Cursor, Seek, SeekFrom};

pub fn encode(vals: &[f64], opt: ChunkOption, cfg: CompressorConfig) -> Out<Vec<u8>> {
    guard(|| {
        let mut e = Encoder::new(EncoderInput::from_f64_slice(vals), EncoderOutput::from_vec(Vec::new()), opt, cfg);
        e.encode()?;
        ebi_ok(e.into_output().into_vec())
    })
}
/// The ways the library offers to encode the same values; all must give the same file.
pub fn encode_via(how: usize, tag: usize, vals: &[f64], opt: ChunkOption, cfg: CompressorConfig) -> Out<Vec<u8>> {
    let le: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes()).collect();
    guard(|| match how {
        0 => {
            let mut e = Encoder::new(EncoderInput::from_slice(&le), EncoderOutput::from_writer(Cursor::new(vec![])), opt, cfg);
            e.encode()?;
            ebi_ok(e.into_output().into_inner().into_inner())
        }
        1 => {
            let rd = std::io::BufReader::with_capacity(13, Cursor::new(&le));
            let mut e = Encoder::new(EncoderInput::from_reader(rd), EncoderOutput::from_vec(vec![]).into_buffered(), opt, cfg);
            e.encode()?;
            // encode has flushed
            ebi_ok(e.into_output().into_inner().get_ref().get_ref().clone())
        }
        2 => {
            let (i, o) = (format!("in_{tag}.bin"), format!("out_{tag}.ebi"));
            std::fs::write(&i, &le)?;
            // an old, longer file at the same place must not shine through
            std::fs::write(&o, vec![0x5a; le.len() * 2 + 700])?;
            let mut e = Encoder::new(EncoderInput::from_file(&i)?, EncoderOutput::from_file(&o)?, opt, cfg);
            let r = e.encode();
            drop(e);
            let b = std::fs::read(&o);
            std::fs::remove_file(&i)?;
            std::fs::remove_file(&o)?;
            r?;
            ebi_ok(b?)
        }
        3 => {
            // piecewise, with a fresh compressor for every chunk
            let mut out = Cursor::new(vec![]);
            let mut w = FileWriter::new(Cursor::new(&le), cfg, opt);
            let mut t = ebi::time::SegmentedExecutionTimes::new();
            w.write_header(&mut out)?;
            while let Some(mut cw) = w.chunk_writer() {
                cw.write(&mut out)?;
                t += *cw.timer();
            }
            w.write_footer(&mut out, t)?;
            out.seek(SeekFrom::Start(w.footer_offset_slot_offset() as u64))?;
            w.write_footer_offset(&mut out)?;
            out.seek(SeekFrom::Start(w.elapsed_time_slot_offset() as u64))?;
            w.write_elapsed_time(&mut out)?;
            ebi_ok(out.into_inner())
        }
        _ if vals.is_empty() => {
            let mut e = Encoder::new(EncoderInput::empty(), EncoderOutput::from_vec(vec![]), opt, cfg);
            e.encode()?;
            ebi_ok(e.into_output().into_vec())
        }
        _ => {
            let mut e = Encoder::new(EncoderInput::from_f64_slice(vals), EncoderOutput::from_vec(vec![]), opt, cfg);
            e.encode()?;
            ebi_ok(e.into_output().into_vec())
        }
    })
}

pub fn ebi_ok<T>(t: T) -> ebi::encoder::Result<T> {
    Ok(t)
}

pub type Dec<'a> = Decoder<Rdr<'a>>;

pub fn open(bytes: &[u8]) -> Out<Dec<'_>> {
    guard(|| Decoder::new(DecoderInput::from_reader(Rdr(Cursor::new(bytes)))))
}

/// How the values of a file are projected into the trace.
pub struct File {
    pub codec: Codec,
    pub p: u32,
    pub cls: &'static str, // exact | dec | buff
    pub vals: Vec<f64>,
    pub ks: Option<Vec<i64>>, // values in units
    pub unit_pow2: u32,       // exact: value = k / 2^unit_pow2
    ids: HashMap<u64, i64>,
    sorted: Vec<f64>,
    pub bytes: Vec<u8>,
    pub sizes: Vec<usize>,
    pub starts: Vec<usize>,
    /// sums and products of the values are exact
    pub dyadic: bool,
    pub cfgv: Vec<Vec<u8>>,
}

fn key(cls: &str, v: f64) -> u64 {
    if cls != "exact" && v == 0.0 {
        0
    } else {
        v.to_bits()
    }
}

/// floor(v * mul) exactly, for a finite v; saturates. The flag says whether it is exact.
pub fn floor_mul(v: f64, mul: i128) -> (i128, bool) {
    if !v.is_finite() {
        return (i64::MAX as i128, false);
    }
    let b = v.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = (b & ((1 << 52) - 1)) | if e == 0 { 0 } else { 1 << 52 };
    let e = if e == 0 { -1074 } else { e - 1075 };
    let m = if b >> 63 == 1 { -(m as i128) } else { m as i128 };
    match m.checked_mul(mul) {
        None => (i64::MAX as i128, false),
        Some(x) => {
            if e >= 0 {
                if x == 0 {
                    (0, true)
                } else if e > 40 || x.unsigned_abs().leading_zeros() as i32 <= e + 1 {
                    (i64::MAX as i128, false)
                } else {
                    (x << e, true)
                }
            } else if -e >= 127 {
                (if x < 0 { -1 } else { 0 }, x == 0)
            } else {
                (x >> -e, x & ((1i128 << -e) - 1) == 0)
            }
        }
    }
}

pub fn clamp32(x: i128) -> i64 {
    x.clamp(-2_000_000_000, 2_000_000_000) as i64
}

fn special(v: f64) -> Vec<i64> {
    vec![-1, if v.is_nan() { 3 } else if v > 0.0 { 1 } else { 2 }, 0, 0]
}

/// a file of integers in which some are infinite, or no numbers
fn special_file(c: &mut Ctx, codec: Codec, n: usize) -> Option<File> {
    let d = c.pick(&[0.01, 0.1, 0.5]);
    let nan = !matches!(codec, Codec::Gorilla | Codec::Chimp | Codec::Chimp128 | Codec::Elf | Codec::ElfOnChimp) && c.chance(0.5);
    let inf = c.pick(&[f64::INFINITY, f64::NEG_INFINITY]);
    let both = c.chance(0.3);
    let ks = ints(c, n, 1 << 20);
    let vals: Vec<f64> = ks
        .iter()
        .map(|k| {
            if !c.chance(d) {
                *k as f64
            } else if nan && c.chance(0.5) {
                f64::NAN
            } else if both && c.chance(0.5) {
                -inf
            } else {
                inf
            }
        })
        .collect();
    let opt = chunk_option(c, n);
    make_file(c, codec, 0, 0, vals, Some(ks), opt, false)
}

pub fn limbs(x: i128) -> Vec<i64> {
    vec![(x & 0xffff) as i64, (x >> 16 & 0xffff) as i64, (x >> 32 & 0xffff) as i64, clamp32(x >> 48)]
}

impl File {
    pub fn id(&self, v: f64) -> i64 {
        if self.cls == "buff" {
            // nearest grid value
            let (d16, _) = floor_mul(v, 16 * 10i128.pow(self.p));
            let k = (d16 + 8) >> 4;
            return *self.ids.get(&(k as i64 as u64)).unwrap_or(&-1);
        }
        *self.ids.get(&key(self.cls, v)).unwrap_or(&-1)
    }
    pub fn rank_const(&self, v: f64) -> i64 {
        if v.is_nan() {
            return 0;
        }
        match self.sorted.binary_search_by(|x| x.partial_cmp(&v).unwrap()) {
            Ok(i) => 2 * (i as i64 + 1),
            Err(i) => 2 * (i as i64) + 1,
        }
    }
    pub fn scale16(&self) -> i128 {
        if self.cls == "exact" { 16i128 << self.unit_pow2 } else { 16 * 10i128.pow(self.p) }
    }
    pub fn ids_of_bytes(&self, out: &[u8]) -> Vec<i64> {
        let mut r: Vec<i64> = out.chunks_exact(8).map(|b| self.id(f64::from_ne_bytes(b.try_into().unwrap()))).collect();
        if out.len() % 8 != 0 {
            r.push(-2);
        }
        r
    }
    pub fn out16(&self, out: &[u8]) -> Vec<Vec<i64>> {
        out.chunks_exact(8).map(|b| limbs(floor_mul(f64::from_ne_bytes(b.try_into().unwrap()), self.scale16()).0)).collect()
    }
}

/// Encodes and logs the file event. None if encoding did not succeed (logged).
#[allow(clippy::too_many_arguments)]
pub fn make_file(
    c: &mut Ctx,
    codec: Codec,
    p: u32,
    unit_pow2: u32,
    vals: Vec<f64>,
    ks: Option<Vec<i64>>,
    opt: ChunkOption,
    small: bool,
) -> Option<File> {
    let cls = match codec {
        Codec::BUFF => "buff",
        Codec::Sprintz => "dec",
        _ => "exact",
    };
    let scale = 10u64.pow(p);
    let (cfg, cfgv) = codec.config(c, scale);
    let how = if c.chance(0.5) { 4 } else { let h = c.below(5); if h == 2 && c.chance(0.7) { 3 } else { h } };
    let enc = encode_via(how, c.shard, &vals, opt, cfg);
    let mut f = File {
        codec, p, cls, vals, ks, unit_pow2,
        ids: HashMap::new(),
        sorted: vec![],
        bytes: vec![],
        sizes: vec![],
        starts: vec![],
        dyadic: true,
        cfgv,
    };
    let mut idv = vec![];
    for (i, v) in f.vals.iter().enumerate() {
        let k = if cls == "buff" { f.ks.as_ref().unwrap()[i] as u64 } else { key(cls, *v) };
        let n = f.ids.len() as i64 + 1;
        idv.push(*f.ids.entry(k).or_insert(n));
    }
    let mut s: Vec<f64> = f.vals.iter().copied().filter(|x| !x.is_nan()).collect();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    s.dedup_by(|a, b| a == b);
    f.sorted = s;
    let rk: Vec<i64> = f.vals.iter().map(|v| f.rank_const(*v)).collect();
    let (ok, ov) = okind(&opt);
    let hex: Vec<String> = if f.vals.len() > 5000 { vec![] } else { f.vals.iter().map(|v| format!("{:016x}", v.to_bits())).collect() };
    let mut e = json!({"begin":1,"ev":"file","how":how,"hex":hex.join(" "),"codec":codec.name(),"cls":cls,"p":p,"okind":ok,"oval":ov.min(1<<30),"ovb":ov.to_le_bytes(),
        "n":f.vals.len(),"ids":idv,"rk":rk,"st":enc.st(),"msg":enc.msg()});
    if let Some(ks) = &f.ks {
        // numbers that are none: EbiQuery!Special
        let k16: Vec<Vec<i64>> =
            ks.iter().zip(&f.vals).map(|(k, v)| if v.is_finite() { limbs(*k as i128 * 16) } else { special(*v) }).collect();
        e["kv"] = json!(k16);
        f.dyadic = cls != "buff" || ks.iter().all(|k| k % 5i64.pow(p) == 0);
        e["dy"] = json!(f.dyadic as u8);
        if small {
            e["iv"] = json!(ks);
        }
    }
    let bytes = match enc {
        Out::Ok(b) => b,
        _ => {
            e["sizes"] = json!([]);
            c.ev(e);
            return None;
        }
    };
    // chunk sizes as the decoder reports them
    let r = guard(|| {
        let d = Decoder::new(DecoderInput::from_reader(Cursor::new(&bytes[..])))?;
        let n = d.footer().number_of_records() as usize;
        let mut st: Vec<usize> = d.chunk_footers().iter().map(|c| c.logical_offset() as usize).collect();
        st.push(n);
        ebi_dec(st)
    });
    match r {
        Out::Ok(st) if st.windows(2).all(|w| w[0] <= w[1]) && st[0] == 0 => {
            f.sizes = st.windows(2).map(|w| w[1] - w[0]).collect();
            f.starts = st;
            e["sizes"] = json!(f.sizes);
            c.ev(e);
            f.bytes = bytes;
            Some(f)
        }
        o => {
            e["st"] = json!("badmeta");
            e["msg"] = json!(o.msg());
            e["sizes"] = json!([]);
            c.ev(e);
            None
        }
    }
}
pub fn ebi_dec<T>(t: T) -> ebi::decoder::Result<T> {
    Ok(t)
}

/// exact data whose sums, distances and products are exact: k / 2^s, |k| <= lim
pub fn numeric_file(c: &mut Ctx, codec: Codec, n: usize, small: bool, max_lim: i64, vec_ops: bool) -> Option<File> {
    let opt = chunk_option(c, n);
    if codec.decimal() {
        let p = match codec {
            Codec::BUFF => c.pick(&[0u32, 1, 2, 3, 4, 5, 6, 8, 10]),
            _ => c.pick(&[0u32, 1, 2, 3, 5, 8, 9]),
        };
        let p = if small { p.min(if vec_ops { 3 } else { 4 }) } else { p };
        let lim = buff_limit(codec, p).min(max_lim);
        // multiples of 5^p are dyadic: BUFF holds them exactly, so that sums and products are exact
        let step = if codec == Codec::BUFF && (vec_ops || c.chance(0.5)) { 5i64.pow(p) } else { 1 };
        let ks: Vec<i64> = ints(c, n, lim / step).into_iter().map(|k| k * step).collect();
        let vals = ks.iter().map(|k| dec(*k, p)).collect();
        make_file(c, codec, p, 0, vals, Some(ks), opt, small)
    } else {
        let s = if small { 0 } else { c.pick(&[0u32, 0, 1, 4, 10]) };
        let lim = max_lim.min(1 << 40);
        let ks = ints(c, n, lim);
        let vals = ks.iter().map(|k| *k as f64 / (1u64 << s) as f64).collect();
        make_file(c, codec, 0, s, vals, Some(ks), opt, small)
    }
}

/// A file of more than 2^16 records of small non-negative values (their sums fit the specification's integers).
pub fn big_file(c: &mut Ctx, codec: Codec, small: bool) -> Option<File> {
    let n = match c.below(4) {
        0 => c.pick(&[65535usize, 65536, 65537]),
        1 if c.thorough => 131072 + c.below(3000),
        _ => 65538 + c.below(5000),
    };
    let opt = match c.below(4) {
        0 => ChunkOption::Full,
        1 => ChunkOption::RecordCount(65538 + c.below(4000)),
        2 => ChunkOption::RecordCount(c.pick(&[65535usize, 65536, 65537])),
        _ => ChunkOption::RecordCount(20000 + c.below(40000)),
    };
    let p = if codec.decimal() { c.below(4) as u32 } else { 0 };
    let step = if codec == Codec::BUFF && (small || c.chance(0.5)) { 5i64.pow(p) } else { 1 };
    let lim = 1000 / step;
    let ks: Vec<i64> = match c.below(4) {
        // runs around the limits of one-byte and two-byte counters
        0 => {
            let mut v = vec![];
            while v.len() < n {
                let r = c.pick(&[1usize, 3, 254, 255, 256, 257, 510, 511, 600, 5000, 65536]);
                let x = c.rng.gen_range(0..=lim);
                v.extend(std::iter::repeat(x).take(r));
            }
            v.truncate(n);
            v
        }
        1 => (0..n).map(|i| (i as i64 / 7) % (lim + 1)).collect(),
        _ => ints(c, n, lim / 2).into_iter().map(|k| k + lim / 2).collect(),
    };
    let mut ks: Vec<i64> = ks.into_iter().map(|k| k * step).collect();
    if !small && c.chance(0.5) {
        // a few numbers that need more than 24 bits
        for _ in 0..1 + c.below(4) {
            let i = if c.chance(0.7) { n / 2 + c.below(n / 2) } else { c.below(n) };
            ks[i] = ((1 << 26) + 1 + 2 * c.below(1 << 20) as i64) / step * step;
        }
    }
    let vals = ks.iter().map(|k| dec(*k, p)).collect();
    make_file(c, codec, p, 0, vals, Some(ks), opt, small)
}

/// a file of many chunks: more than 256, or more than 65536 of one record each
pub fn many_chunks(c: &mut Ctx, codec: Codec, huge: bool) -> Option<File> {
    let (n, k) = if huge { (65536 + c.below(300), 1) } else { (c.pick(&[255usize, 256, 257, 258, 700, 1500, 2600]), 1) };
    let k = if huge || c.chance(0.6) { k } else { 2 };
    let ks: Vec<i64> = (0..n as i64 * k).map(|i| (i * 7) % 1000).collect();
    let vals = ks.iter().map(|k| dec(*k, 0)).collect();
    make_file(c, codec, 0, 0, vals, Some(ks), ChunkOption::RecordCount(k as usize), false)
}

/// the codecs whose large file this shard takes in a quick run
pub fn big_codecs(c: &Ctx) -> Vec<Codec> {
    ALL.iter().enumerate().filter(|(i, _)| c.thorough || i % c.shards == c.shard).map(|(_, x)| *x).collect()
}

/// largest |k| whose fixed-point image fits BUFF's 64-bit integers (Sprintz: 2^50)
pub fn buff_limit(codec: Codec, p: u32) -> i64 {
    if codec == Codec::BUFF {
        let frac = [0u32, 5, 8, 11, 15, 18, 21, 25, 28, 31, 35, 38, 50][p as usize];
        let v = 1i128 << (60 - frac);
        (v * 10i128.pow(p)).min(1 << 46) as i64
    } else {
        1 << 46
    }
}

pub fn bitmap(m: &[u32]) -> RoaringBitmap {
    m.iter().copied().collect()
}

#[derive(Clone)]
pub struct Args {
    pub ch: i64,
    pub mask: Option<Vec<u32>>,
}

pub fn args(c: &mut Ctx, f: &File) -> Args {
    let ch = if f.sizes.is_empty() || c.chance(0.6) { -1 } else { c.below(f.sizes.len()) as i64 };
    let mask = if c.chance(0.35) { None } else { Some(mask(c, f.vals.len(), &f.starts)) };
    Args { ch, mask }
}

pub fn base(ev: &str, lvl: &str, a: &Args) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("ev".into(), json!(ev));
    m.insert("lvl".into(), json!(lvl));
    m.insert("ch".into(), json!(a.ch));
    m.insert("hm".into(), json!(a.mask.is_some() as u8));
    // record numbers beyond 2^31 do not fit TLC integers; they select nothing either way
    let mk: Vec<u32> = a.mask.iter().flatten().copied().filter(|x| *x < 1 << 30).collect();
    m.insert("mask".into(), json!(mk));
    m
}

const BEYOND: [f64; 12] = [
    f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 1e300, -1e300, 1e19, -1e19, 4611686018427387904.0, -9223372036854775808.0, 1e12, -1e12,
];

pub fn pred(c: &mut Ctx, f: &File) -> (Predicate, Value) {
    let mut konst = |c: &mut Ctx| -> f64 {
        if let (Some(ks), true) = (&f.ks, f.codec.decimal()) {
            let k = if ks.is_empty() {
                0
            } else {
                let mut k = c.pick(ks);
                match c.below(6) {
                    0 => k += 1,
                    1 => k -= 1,
                    2 => {
                        let lo = *ks.iter().min().unwrap();
                        let hi = *ks.iter().max().unwrap();
                        k = c.pick(&[lo, hi, lo - 1, hi + 1, lo - (hi - lo) / 2, hi + (hi - lo) / 2 + 1, 0, -k]);
                    }
                    3 => k ^= 1 << c.below(12),
                    _ => {}
                }
                k
            };
            let lim = buff_limit(f.codec, f.p);
            let v = dec(k.clamp(-lim, lim), f.p);
            return match c.below(16) {
                // beyond the integer range of the codec
                0 => c.pick(&BEYOND),
                1 if c.chance(0.3) => f64::NAN,
                // off the decimal grid (a BUFF value is only known up to its precision)
                2 | 3 if f.codec == Codec::Sprintz => match c.below(4) {
                    0 => f64::from_bits(v.to_bits() ^ 1),
                    1 => v + 0.5 / 10f64.powi(f.p as i32),
                    2 => v - 0.3 / 10f64.powi(f.p as i32),
                    _ => c.pick(&[1e-300, -1e-300, 5e-324]),
                },
                _ => v,
            };
        }
        if f.vals.is_empty() {
            return 1.5;
        }
        let v = c.pick(&f.vals);
        let v = match c.below(6) {
            0 => f64::from_bits(v.to_bits() ^ 1),
            1 => v + 0.5,
            2 => c.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, 1e308, -1.0]),
            _ => v,
        };
        if c.chance(0.02) { f64::NAN } else if v.is_nan() && c.chance(0.7) { 0.25 } else { v }
    };
    let k = c.below(8);
    match k {
        0 | 1 => {
            let a = konst(c);
            (Predicate::Eq(a), json!({"op":"eq","a":f.rank_const(a),"ak":"none","b":0,"bk":"none"}))
        }
        2 => {
            let a = konst(c);
            (Predicate::Ne(a), json!({"op":"ne","a":f.rank_const(a),"ak":"none","b":0,"bk":"none"}))
        }
        _ => {
            let (mut a, mut b) = (konst(c), konst(c));
            if a > b && c.chance(0.9) {
                std::mem::swap(&mut a, &mut b);
            }
            let ak = c.pick(&["incl", "excl", "none"]);
            let bk = if ak == "none" && c.chance(0.8) { c.pick(&["incl", "excl"]) } else { c.pick(&["incl", "excl", "none"]) };
            let rv = |k: &str, v: f64| match k {
                "incl" => RangeValue::Inclusive(v),
                "excl" => RangeValue::Exclusive(v),
                _ => RangeValue::None,
            };
            (
                Predicate::Range(Range::new(rv(ak, a), rv(bk, b))),
                json!({"op":"range","a":f.rank_const(a),"ak":ak,"b":f.rank_const(b),"bk":bk}),
            )
        }
    }
}

pub fn put(m: &mut Map<String, Value>, k: &str, v: Value) {
    m.insert(k.into(), v);
}

pub fn finish<T>(m: &mut Map<String, Value>, o: &Out<T>) {
    put(m, "st", json!(o.st()));
    if script::active() {
        put(m, "hit", json!(script::hit() as u8));
    }
    if !matches!(o, Out::Ok(_)) {
        put(m, "msg", json!(o.msg()));
    }
}

pub fn put_out(m: &mut Map<String, Value>, f: &File, b: &[u8], prec: bool) {
    if script::active() {
        put_partial(m, f, b);
        return;
    }
    put(m, "out", json!(f.ids_of_bytes(b)));
    if prec {
        put(m, "out16", json!(f.out16(b)));
    }
}

/// output of a disturbed query: whole records, and which values the last incomplete one may be
fn put_partial(m: &mut Map<String, Value>, f: &File, b: &[u8]) {
    let whole = b.len() / 8 * 8;
    put(m, "out", json!(f.ids_of_bytes(&b[..whole])));
    let tail = &b[whole..];
    put(m, "part", json!(tail.len()));
    // 0: cannot tell (the codec may return another float for the same decimal)
    let mut ids: Vec<i64> = if f.cls != "exact" {
        vec![0]
    } else {
        f.vals.iter().filter(|v| v.to_ne_bytes().starts_with(tail)).map(|v| f.id(*v)).collect()
    };
    ids.sort();
    ids.dedup();
    put(m, "tail", json!(if tail.is_empty() { vec![] } else { ids }));
}

/// One query on a decoder (the whole-file API). Returns false when it did not return normally.
pub fn dec_query(c: &mut Ctx, f: &File, d: &mut Dec, op: &str, prec: bool) -> bool {
    let a = args(c, f);
    let bm = a.mask.as_ref().map(|m| bitmap(m));
    let bm = bm.as_ref();
    let ch = (a.ch >= 0).then(|| ChunkId::new(a.ch as usize));
    let mut m = base(op, "dec", &a);
    let ok = match op {
        "mat" => {
            let mut o = vec![];
            let r = guard(|| d.materialize(&mut DecoderOutput::from_writer(Wtr(&mut o)), bm, ch));
            finish(&mut m, &r);
            put_out(&mut m, f, &o, prec);
            matches!(r, Out::Ok(_))
        }
        "filter" => {
            let (p, pj) = pred(c, f);
            let r = guard(|| d.filter(p, bm, ch));
            put(&mut m, "p", pj);
            finish(&mut m, &r);
            if let Out::Ok(b) = &r {
                put(&mut m, "out", json!(b.iter().map(|x| x.min(1 << 30)).collect::<Vec<u32>>()));
            }
            matches!(r, Out::Ok(_))
        }
        "fmat" => {
            let (p, pj) = pred(c, f);
            let mut o = vec![];
            let r = guard(|| d.filter_materialize(&mut DecoderOutput::from_writer(Wtr(&mut o)), p, bm, ch));
            put(&mut m, "p", pj);
            finish(&mut m, &r);
            put_out(&mut m, f, &o, prec);
            matches!(r, Out::Ok(_))
        }
        "sum" => {
            let r = guard(|| d.sum(bm, ch));
            finish(&mut m, &r);
            put_sum(&mut m, f, &r);
            matches!(r, Out::Ok(_))
        }
        "min" | "max" => {
            let r = guard(|| if op == "min" { d.min(bm, ch) } else { d.max(bm, ch) });
            finish(&mut m, &r);
            if let Out::Ok(v) = r {
                put(&mut m, "id", json!(f.id(v)));
            }
            matches!(r, Out::Ok(_))
        }
        "knn" => return knn(c, f, d),
        "matmul" => return matmul(c, f, d),
        _ => unreachable!(),
    };
    c.ev(Value::Object(m));
    ok
}

fn put_sum(m: &mut Map<String, Value>, f: &File, r: &Out<f64>) {
    if let Out::Ok(v) = r {
        if !v.is_finite() {
            return put(m, "s", json!(special(*v)));
        }
        let (x, exact) = floor_mul(*v, f.scale16());
        put(m, "s", json!(limbs(x)));
        if f.cls == "exact" && !exact {
            put(m, "st", json!("inexact"));
        }
    }
}

pub fn knn(c: &mut Ctx, f: &File, d: &mut Dec) -> bool {
    let n = f.vals.len();
    let ks = f.ks.as_ref().unwrap();
    // distances to longer vectors of a large file do not fit the specification's integers
    let m = if n > 600 { c.pick(&[1usize, 2, 7, 16, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400]) } else { match c.below(9) {
        0 => 0,
        1 => 1,
        2 => n + 1,
        3 => n.max(1),
        4 => (n / 2).max(1),
        5 => 1 + c.below((n / 2).clamp(1, 80)),
        _ => 1 + c.below((n / 2).clamp(1, 24)),
    } };
    let t = vector(c, ks, m, f);
    let tf: Vec<f64> = t.iter().map(|k| dec(*k, f.p)).collect();
    let r = guard(|| d.knn1(&tf));
    let mut e = json!({"ev":"knn","lvl":"dec","t":t,"st":r.st(),"msg":r.msg(),"hit":script::hit() as u8});
    if let Out::Ok(k) = &r {
        e["idx"] = json!(if k.index == usize::MAX { -1 } else { clamp32(k.index as i128) });
        e["d"] = json!(if k.distance == f64::INFINITY { 2_000_000_000 } else { unit2(k.distance, f) });
    }
    c.ev(e);
    !matches!(r, Out::Panic(_))
}

/// stands for a record whose distance to anything is infinite (EbiQuery!Far)
const FAR: i64 = 1_000_000;

/// a file some of whose records are infinitely far from any target
fn far_file(c: &mut Ctx, codec: Codec, n: usize) -> Option<File> {
    let d = c.pick(&[0.02, 0.1, 0.5, 1.0]);
    let ks: Vec<i64> = ints(c, n, 500).into_iter().map(|k| if c.chance(d) { FAR } else { k }).collect();
    let vals = ks.iter().map(|k| if *k == FAR { c.pick(&[f64::INFINITY, f64::NEG_INFINITY, 1e200, -1e200, f64::MAX]) } else { *k as f64 }).collect();
    let opt = chunk_option(c, n);
    make_file(c, codec, 0, 0, vals, Some(ks), opt, true)
}

/// a product of two values in squared units, as an integer (rounded: the data are exact decimals)
fn unit2(v: f64, f: &File) -> i64 {
    if !v.is_finite() {
        return -7;
    }
    let s = 10f64.powi(2 * f.p as i32);
    let x = v * s;
    if (x - x.round()).abs() > 0.01 {
        return -9_999_999;
    }
    clamp32(x.round() as i128)
}

fn vector(c: &mut Ctx, ks: &[i64], m: usize, f: &File) -> Vec<i64> {
    // often close to an actual vector of the file
    let mut t: Vec<i64> = (0..m).map(|_| c.rng.gen_range(-20..=20)).collect();
    if m > 0 && ks.len() >= m && c.chance(0.7) {
        let i = c.below(ks.len() / m);
        t = ks[i * m..(i + 1) * m].to_vec();
        if c.chance(0.5) {
            let j = c.below(m);
            t[j] += c.rng.gen_range(-3..=3);
        }
    }
    let _ = f;
    t.into_iter().map(|k| if k > FAR / 2 { 0 } else { k }).collect()
}

pub fn matmul(c: &mut Ctx, f: &File, d: &mut Dec) -> bool {
    let n = f.vals.len();
    let divs: Vec<usize> = (1..=n.max(1)).filter(|x| n % x == 0 && (n <= 5000 || *x < 3000)).collect();
    let size = c.pick(&divs);
    let cols = c.pick(&(1..=size).filter(|x| size % x == 0).collect::<Vec<_>>());
    let (mut dr, mut dc) = (size / cols, cols);
    let mut tr = cols;
    let tc = match c.below(20) {
        0 | 1 => 0,
        2 if n <= 1000 => c.pick(&[8usize, 9, 15, 16, 17, 31, 32, 33, 40]),
        3 if n <= 1000 => 5 + c.below(36),
        _ => 1 + c.below(4),
    };
    // the answer has n / dc * tc entries
    let mut tlen = tr * tc;
    match c.below(10) {
        0 => tr += 1,
        1 => tlen += 1,
        2 => dr += 1,
        3 => {
            dc += 1;
            tr += 1;
            tlen = tr * tc;
        }
        4 => tlen = tlen.saturating_sub(1),
        5 if c.chance(0.3) => dr = 0,
        _ => {}
    }
    let t: Vec<i64> = (0..tlen).map(|_| c.rng.gen_range(-9..=9)).collect();
    let tf: Vec<f64> = t.iter().map(|k| dec(*k, f.p)).collect();
    let r = guard(|| d.matmul(&tf, (tr, tc), (dr, dc)));
    let mut e = json!({"ev":"matmul","lvl":"dec","t":t,"tr":tr,"tc":tc,"dr":dr,"dc":dc,"st":r.st(),"msg":r.msg(),"hit":script::hit() as u8});
    if let Out::Ok(o) = &r {
        e["out"] = json!(o.iter().map(|v| unit2(*v, f)).collect::<Vec<_>>());
    }
    c.ev(e);
    !matches!(r, Out::Panic(_))
}

pub const QOPS: [&str; 6] = ["mat", "filter", "fmat", "sum", "min", "max"];

/// A history on one chunk reader, including partial iteration and caching.
pub fn chunk_session(c: &mut Ctx, f: &File, d: &mut Dec, ops: &[&str], len: usize) -> bool {
    let seq: Vec<(&str, Option<bool>, Option<f64>)> = (0..len).map(|_| (c.pick(ops), None, None)).collect();
    chunk_run(c, f, d, &seq)
}

/// each operation with whether it is masked and which part is iterated (random if absent)
pub fn chunk_run(c: &mut Ctx, f: &File, d: &mut Dec, ops: &[(&str, Option<bool>, Option<f64>)]) -> bool {
    if f.sizes.is_empty() {
        return true;
    }
    let k = c.below(f.sizes.len());
    let mut a = Args { ch: k as i64, mask: None };
    let r = guard(|| d.chunk_reader(ChunkId::new(k)));
    let mut cr = match r {
        Out::Ok(cr) => cr,
        o => {
            c.ev(json!({"ev":"open","lvl":"chunk","ch":k,"st":o.st(),"msg":o.msg(),"hit":script::hit() as u8}));
            return false;
        }
    };
    let mut prec = false;
    c.ev(json!({"ev":"open","lvl":"chunk","ch":k,"st":"ok","of":[cr.number_of_records().min(1 << 30), cr.chunk_index().min(1 << 30),
        cr.is_last_chunk() as u8, cr.chunk_footer().logical_offset().min(1 << 30), cr.footer().number_of_records().min(1 << 30)]}));
    for (op, masked, part) in ops {
        let op = *op;
        let masked = masked.unwrap_or_else(|| c.chance(0.65));
        a.mask = if !masked { None } else { Some(mask(c, f.vals.len(), &f.starts)) };
        let bmo = a.mask.as_ref().map(|m| bitmap(m));
        let bm = bmo.as_ref();
        let mut m = base(op, "chunk", &a);
        let ok = match op {
            "mat" => {
                let mut o = vec![];
                let r = guard(|| cr.materialize(&mut Wtr(&mut o), bm));
                finish(&mut m, &r);
                put_out(&mut m, f, &o, prec);
                matches!(r, Out::Ok(_))
            }
            "filter" => {
                let (p, pj) = pred(c, f);
                let r = guard(|| cr.filter(p, bm));
                put(&mut m, "p", pj);
                finish(&mut m, &r);
                if let Out::Ok(b) = &r {
                    put(&mut m, "out", json!(b.iter().map(|x| x.min(1 << 30)).collect::<Vec<u32>>()));
                }
                matches!(r, Out::Ok(_))
            }
            "fmat" => {
                let (p, pj) = pred(c, f);
                let mut o = vec![];
                let r = guard(|| cr.filter_materialize(&mut Wtr(&mut o), p, bm));
                put(&mut m, "p", pj);
                finish(&mut m, &r);
                put_out(&mut m, f, &o, prec);
                matches!(r, Out::Ok(_))
            }
            "sum" => {
                let r = guard(|| cr.sum(bm));
                finish(&mut m, &r);
                put_sum(&mut m, f, &r);
                matches!(r, Out::Ok(_))
            }
            "min" | "max" => {
                let r = guard(|| if op == "min" { cr.min(bm) } else { cr.max(bm) });
                finish(&mut m, &r);
                if let Out::Ok(v) = r {
                    put(&mut m, "id", json!(f.id(v)));
                }
                matches!(r, Out::Ok(_))
            }
            "iter" => {
                let kk = match part {
                    Some(p) if *p == 0.01 => 1,
                    Some(p) => (f.sizes[k] as f64 * p) as usize,
                    None if c.chance(0.3) => 1 << 20,
                    None => c.below(f.sizes[k] + 2),
                };
                let r = guard(|| {
                    let it = cr.inner_mut().decompress_iter()?;
                    let mut o = vec![];
                    for v in it.take(kk) {
                        o.extend_from_slice(&v?.to_ne_bytes());
                    }
                    ebi_dec(o)
                });
                put(&mut m, "k", json!(kk));
                finish(&mut m, &r);
                if let Out::Ok(b) = &r {
                    put_out(&mut m, f, b, prec);
                }
                matches!(r, Out::Ok(_))
            }
            "full" => {
                put(&mut m, "ev", json!("iter"));
                put(&mut m, "k", json!(1 << 20));
                let r = guard(|| {
                    let mut t = ebi::time::SegmentedExecutionTimes::new();
                    let s = cr.inner_mut().decompress(&mut t)?;
                    ebi_dec(s.iter().flat_map(|v| v.to_ne_bytes()).collect::<Vec<u8>>())
                });
                finish(&mut m, &r);
                if let Out::Ok(b) = &r {
                    put_out(&mut m, f, b, prec);
                }
                matches!(r, Out::Ok(_))
            }
            "dist" | "dot" => {
                if !f.dyadic || (prec && f.cls == "buff") {
                    continue;
                }
                let off = c.below(f.sizes[k] + 1);
                let tl = if c.chance(0.25) { c.below(f.sizes[k].min(160) + 2) } else { c.below(20) };
                let t: Vec<i64> = (0..tl).map(|_| c.rng.gen_range(-20..=20)).collect();
                let tf: Vec<f64> = t.iter().map(|k| dec(*k, f.p)).collect();
                let r = guard(|| if op == "dist" { cr.distance_squared(off, &tf) } else { cr.dot_product(off, &tf) });
                put(&mut m, "off", json!(off));
                put(&mut m, "t", json!(t));
                finish(&mut m, &r);
                if let Out::Ok(v) = r {
                    put(&mut m, "d", json!(unit2(v, f)));
                }
                matches!(r, Out::Ok(_))
            }
            "prec" => {
                if f.cls != "buff" && c.chance(0.5) {
                    continue;
                }
                let q = c.rng.gen_range(f.p.saturating_sub(8)..f.p + 3).min(12);
                cr.with_precision(q as u32);
                prec = true;
                put(&mut m, "q", json!(q));
                put(&mut m, "st", json!("ok"));
                true
            }
            _ => unreachable!(),
        };
        c.ev(Value::Object(m));
        if !ok {
            return false;
        }
    }
    true
}

/// open a decoder, logging failure
pub fn opened<'a>(c: &mut Ctx, f: &'a File) -> Option<Dec<'a>> {
    match open(&f.bytes) {
        Out::Ok(d) => Some(d),
        o => {
            c.ev(json!({"ev":"open","lvl":"dec","st":o.st(),"msg":o.msg(),"hit":script::hit() as u8}));
            None
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// C01: files of arbitrary bit patterns, materialized whole, per chunk and by iteration.
pub fn lossless(c: &mut Ctx) {
    big_lossless(c);
    let per = c.n(90, 600);
    for round in 0..per {
        for codec in LOSSLESS {
            let n = if round % 20 == 19 { mid_length(c, 10000) } else { length(c) };
            let vals = floats(c, codec, n);
            let opt = chunk_option(c, n);
            let Some(f) = make_file(c, codec, 0, 0, vals, None, opt, false) else { continue };
            let Some(mut d) = opened(c, &f) else { continue };
            let all = Args { ch: -1, mask: None };
            whole(c, &f, &mut d, &all);
            if c.chance(0.3) && !f.sizes.is_empty() {
                let a = Args { ch: c.below(f.sizes.len()) as i64, mask: None };
                whole(c, &f, &mut d, &a);
            }
            if c.chance(0.4) {
                chunk_session(c, &f, &mut d, &["iter", "full", "mat"], 2);
            }
        }
    }
}

pub fn whole(c: &mut Ctx, f: &File, d: &mut Dec, a: &Args) {
    let ch = (a.ch >= 0).then(|| ChunkId::new(a.ch as usize));
    let mut m = base("mat", "dec", a);
    let via = if c.chance(0.05) { c.below(3) } else { 3 };
    let tag = c.shard;
    let r = guard(|| match via {
        0 => {
            let (i, o) = (format!("q_{tag}.ebi"), format!("q_{tag}.bin"));
            std::fs::write(&i, &f.bytes)?;
            std::fs::write(&o, vec![7; f.vals.len() * 8 + 100])?;
            let mut d = Decoder::new(DecoderInput::from_file(&i)?)?;
            let mut w = DecoderOutput::from_file(&o)?;
            let r = d.materialize(&mut w, None, ch);
            drop(w);
            let b = std::fs::read(&o);
            std::fs::remove_file(&i)?;
            std::fs::remove_file(&o)?;
            r?;
            ebi_dec(b?)
        }
        1 => {
            let mut d = Decoder::new(DecoderInput::from_reader(Cursor::new(&f.bytes[..])).into_buffered())?;
            let mut w = DecoderOutput::from_vec(vec![]).into_buffered();
            d.materialize(&mut w, None, ch)?;
            ebi_dec(w.into_writer().into_inner().map_err(|e| e.into_error())?.into_inner())
        }
        2 => {
            // chunk by chunk with the lower-level reader
            let mut r = FileReader::new();
            let mut cur = Cursor::new(&f.bytes[..]);
            r.fetch_header(&mut cur)?;
            r.seek_to_footer(&mut cur)?;
            r.fetch_footer(&mut cur)?;
            let md = r.metadata().unwrap();
            let mut o = vec![];
            for h in md.chunks_iter() {
                if a.ch >= 0 && h.chunk_index() as i64 != a.ch {
                    continue;
                }
                h.seek_to_chunk(&mut cur)?;
                h.make_chunk_reader(&mut cur)?.materialize(&mut o, None)?;
            }
            ebi_dec(o)
        }
        _ => {
            let mut o = DecoderOutput::from_vec(vec![]);
            d.materialize(&mut o, None, ch)?;
            ebi_dec(o.into_writer().into_inner())
        }
    });
    put(&mut m, "via", json!(via));
    finish(&mut m, &r);
    if let Out::Ok(b) = &r {
        put_out(&mut m, f, b, false);
    }
    c.ev(Value::Object(m));
}

fn big_lossless(c: &mut Ctx) {
    for codec in big_codecs(c) {
        let Some(f) = big_file(c, codec, false) else { continue };
        let Some(mut d) = opened(c, &f) else { continue };
        whole(c, &f, &mut d, &Args { ch: -1, mask: None });
        let a = Args { ch: c.below(f.sizes.len()) as i64, mask: None };
        whole(c, &f, &mut d, &a);
    }
    // chunks of tens of thousands of bit patterns of changing style
    for codec in big_codecs(c).into_iter().filter(|x| LOSSLESS.contains(x)) {
        for j in 0..5 {
            // around multiples of the 64 KiB blocks of the byte-oriented codecs
            let n = match j {
                0 => 8192 * (1 + c.below(3)) - 1,
                1 => 8192 * (1 + c.below(3)),
                2 => 8192 * (1 + c.below(3)) + 1,
                3 => 9000 + c.below(12000),
                _ => 20000 + c.below(20000),
            };
            let vals = long_floats(c, codec, n);
            let opt = if j < 3 || c.chance(0.7) { ChunkOption::Full } else { chunk_option(c, n) };
            let Some(f) = make_file(c, codec, 0, 0, vals, None, opt, false) else { continue };
            let Some(mut d) = opened(c, &f) else { continue };
            whole(c, &f, &mut d, &Args { ch: -1, mask: None });
            let first = c.pick(&["iter", "iter", "mat", "full"]);
            chunk_run(c, &f, &mut d, &[(first, None, None), ("iter", None, Some(1.0))]);
        }
    }
}

fn big_queries(c: &mut Ctx, ops: &[&str], session: &[&str], small: bool) {
    for codec in big_codecs(c) {
        let Some(f) = big_file(c, codec, small) else { continue };
        let Some(mut d) = opened(c, &f) else { continue };
        for op in ops {
            if !dec_query(c, &f, &mut d, op, false) {
                break;
            }
        }
        if !session.is_empty() {
            chunk_session(c, &f, &mut d, session, 2);
        }
    }
}

/// C06: filters and materializations.
pub fn filters(c: &mut Ctx) {
    big_queries(c, &["filter", "filter", "fmat", "mat"], &["filter", "fmat"], false);
    let per = c.n(70, 500);
    for _ in 0..per {
        for codec in ALL {
            let reps = if codec.decimal() { 4 } else { 1 };
            for _ in 0..reps {
                let n = if c.chance(0.03) { mid_length(c, 9000) } else { length(c).min(600) };
                let f = if codec.decimal() || c.chance(0.4) {
                    numeric_file(c, codec, n, false, i64::MAX, false)
                } else {
                    let vals = floats(c, codec, n);
                    let opt = chunk_option(c, n);
                    make_file(c, codec, 0, 0, vals, None, opt, false)
                };
                let Some(f) = f else { continue };
                let Some(mut d) = opened(c, &f) else { continue };
                for _ in 0..8 {
                    let op = c.pick(&["mat", "filter", "filter", "filter", "fmat"]);
                    if !dec_query(c, &f, &mut d, op, false) {
                        break;
                    }
                }
                chunk_session(c, &f, &mut d, &["filter", "fmat", "mat"], 2);
            }
        }
    }
}

/// C07: aggregates.
pub fn aggregates(c: &mut Ctx) {
    big_queries(c, &["sum", "min", "max", "sum"], &["sum", "min", "max"], false);
    let per = c.n(70, 500);
    for _ in 0..per {
        for codec in ALL {
            let reps = if codec.decimal() { 4 } else { 1 };
            for _ in 0..reps {
                let n = if c.chance(0.03) { mid_length(c, 9000) } else { length(c).min(600) };
                let floats_file = !codec.decimal() && c.chance(0.3);
                let f = if floats_file {
                    let vals = floats(c, codec, n);
                    let opt = chunk_option(c, n);
                    make_file(c, codec, 0, 0, vals, None, opt, false)
                } else if !codec.decimal() && c.chance(0.15) {
                    special_file(c, codec, n)
                } else {
                    numeric_file(c, codec, n, false, 1 << 30, false)
                };
                let Some(f) = f else { continue };
                let Some(mut d) = opened(c, &f) else { continue };
                let ops: &[&str] = if floats_file { &["min", "max"] } else { &["sum", "sum", "min", "max"] };
                for _ in 0..8 {
                    let op = c.pick(ops);
                    if !dec_query(c, &f, &mut d, op, false) {
                        break;
                    }
                }
                chunk_session(c, &f, &mut d, ops, 3);
            }
        }
    }
}

/// C08: long mixed histories on one decoder and one chunk reader.
pub fn histories(c: &mut Ctx) {
    enumerated(c);
    let per = c.n(25, 200);
    for _ in 0..per {
        for codec in ALL {
            let reps = if codec.decimal() { 3 } else { 2 };
            for _ in 0..reps {
                let n = if c.chance(0.04) { mid_length(c, 5000) } else { length(c).min(160) };
                let vec_ops = c.chance(0.5);
                let Some(f) = numeric_file(c, codec, n, true, 1500, vec_ops) else { continue };
                let Some(mut d) = opened(c, &f) else { continue };
                let mut prec = false;
                for _ in 0..4 {
                    if c.chance(0.6) {
                        let ops = ["mat", "filter", "fmat", "sum", "min", "max", "iter", "iter", "full", "dist", "dot", "prec"];
                        let len = 4 + c.below(8);
                        if prec {
                            // readers made from a decoder with a precision inherit it
                            c.ev(json!({"ev":"open","lvl":"dec","st":"ok"}));
                            d = match opened(c, &f) {
                                Some(d) => d,
                                None => break,
                            };
                            prec = false;
                        }
                        // a reader whose precision is raised and lowered again and again
                        let turns = ["mat", "full", "iter", "fmat", "prec", "prec", "prec", "prec"];
                        let ops: &[&str] = if f.cls == "buff" && c.chance(if f.dyadic { 0.1 } else { 0.7 }) { &turns } else { &ops };
                        if !chunk_session(c, &f, &mut d, ops, len) {
                            break;
                        }
                        c.ev(json!({"ev":"open","lvl":"dec","st":"ok"}));
                    } else {
                        for _ in 0..3 + c.below(6) {
                            if c.chance(0.1) {
                                let q = c.below(f.p as usize + 3);
                                d.with_precision(q as u32);
                                prec = true;
                                c.ev(json!({"ev":"prec","lvl":"dec","q":q,"st":"ok"}));
                            }
                            let op = c.pick(&["mat", "filter", "fmat", "sum", "min", "max", "knn", "matmul"]);
                            if (!f.dyadic || prec && f.cls == "buff") && (op == "knn" || op == "matmul") {
                                continue;
                            }
                            if !dec_query(c, &f, &mut d, op, prec) {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
}

/// the histories TLC enumerated, on every codec's chunk reader
fn enumerated(c: &mut Ctx) {
    let scn: Vec<Vec<String>> = c
        .my_scn()
        .iter()
        .map(|s| {
            let v: Value = serde_json::from_str(s).unwrap();
            v["ops"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
        })
        .collect();
    for codec in ALL {
        for part in scn.chunks(12) {
            let n = 20 + c.below(50);
            let Some(f) = numeric_file(c, codec, n, true, 1500, true) else { continue };
            let Some(mut d) = opened(c, &f) else { continue };
            for ops in part {
                let seq: Vec<(&str, Option<bool>, Option<f64>)> = ops
                    .iter()
                    .map(|o| match o.as_str() {
                        "iter0" => ("iter", None, Some(0.0)),
                        "iter1" => ("iter", None, Some(0.01)),
                        "iterhalf" => ("iter", None, Some(0.5)),
                        "iterall" => ("iter", None, Some(2.0)),
                        "full" => ("full", None, None),
                        "dist" => ("dist", None, None),
                        "dot" => ("dot", None, None),
                        "mat" | "filter" | "fmat" | "sum" | "min" | "max" => {
                            let o = ["mat", "filter", "fmat", "sum", "min", "max"].into_iter().find(|x| x == o).unwrap();
                            (o, Some(false), None)
                        }
                        m => (["mat", "filter", "fmat", "sum"].into_iter().find(|x| m == format!("{x}mask")).unwrap(), Some(true), None),
                    })
                    .collect();
                if !chunk_run(c, &f, &mut d, &seq) {
                    return;
                }
            }
        }
    }
}

/// C10 / C11
pub fn vectors(c: &mut Ctx, op: &str) {
    big_queries(c, &[op], &[], true);
    let per = c.n(100, 700);
    for _ in 0..per {
        for codec in ALL {
            let n = if op == "matmul" && c.chance(0.5) { c.pick(&[0usize, 12, 24, 36, 48, 60, 64, 96, 120, 180]) } else if c.chance(0.05) { mid_length(c, 5000) } else { length(c).min(150) };
            let far = op == "knn" && !codec.decimal() && c.chance(0.12);
            let f = if far { far_file(c, codec, n) } else { numeric_file(c, codec, n, true, 900, true) };
            let Some(f) = f else { continue };
            let Some(mut d) = opened(c, &f) else { continue };
            for _ in 0..4 {
                if !dec_query(c, &f, &mut d, op, false) {
                    break;
                }
            }
        }
    }
}

/// C02: the decimal codecs, whole range of scales and magnitudes, with and without a requested precision.
pub fn precision(c: &mut Ctx) {
    let per = c.n(130, 1000);
    for _ in 0..per {
        for codec in [Codec::BUFF, Codec::BUFF, Codec::Sprintz] {
            let n = if c.chance(0.04) { mid_length(c, 9000) } else { length(c).min(500) };
            let p = match codec {
                Codec::BUFF => c.below(13) as u32,
                _ => c.below(10) as u32,
            };
            let lim = match (codec, p) {
                (Codec::BUFF, 0) => 1i64 << 58,
                (Codec::Sprintz, 0) => 1i64 << 60,
                _ => buff_limit(codec, p),
            };
            let lim = if c.chance(0.5) { lim } else { 1i64 << c.rng.gen_range(1..=63 - lim.leading_zeros()) }.min(lim);
            // beyond 2^53 only the integers that are doubles
            let ks: Vec<i64> = ints(c, n, lim).into_iter().map(|k| k as f64 as i64).collect();
            let vals = ks.iter().map(|k| dec(*k, p)).collect();
            let opt = chunk_option(c, n);
            let Some(f) = make_file(c, codec, p, 0, vals, Some(ks), opt, false) else { continue };
            let Some(mut d) = opened(c, &f) else { continue };
            whole(c, &f, &mut d, &Args { ch: -1, mask: None });
            if c.chance(0.5) {
                dec_query(c, &f, &mut d, "mat", false);
            }
            if c.chance(0.5) {
                chunk_session(c, &f, &mut d, &["iter", "full", "mat"], 2);
            }
            if codec == Codec::BUFF && c.chance(0.4) {
                let first = c.pick(&["mat", "full", "iter"]);
                let seq: Vec<_> = [first, "prec", "mat", "prec", "mat", "prec", "full"].iter().map(|o| (*o, None, None)).collect();
                chunk_run(c, &f, &mut d, &seq);
                c.ev(json!({"ev":"open","lvl":"dec","st":"ok"}));
            }
            for _ in 0..3 {
                let lo = p.saturating_sub(8);
                let q = c.rng.gen_range(lo..=p.min(12));
                d.with_precision(q);
                c.ev(json!({"ev":"prec","lvl":"dec","q":q,"st":"ok"}));
                if !dec_query(c, &f, &mut d, "mat", true) {
                    break;
                }
                if c.chance(0.3) && !dec_query(c, &f, &mut d, "fmat", true) {
                    break;
                }
            }
        }
    }
}
