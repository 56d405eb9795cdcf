//! Data generators: value sequences per codec class, chunk options, bitmasks.
use crate::util::*;
use ebi::compressor::CompressorConfig;
use ebi::encoder::ChunkOption;
use rand::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Codec {
    Uncompressed,
    RLE,
    Gorilla,
    BUFF,
    Chimp,
    Chimp128,
    ElfOnChimp,
    Elf,
    Sprintz,
    Zstd,
    Gzip,
    Snappy,
}
use Codec::*;

pub const ALL: [Codec; 12] = [
    Uncompressed, RLE, Gorilla, BUFF, Chimp, Chimp128, ElfOnChimp, Elf, Sprintz, Zstd, Gzip, Snappy,
];
pub const LOSSLESS: [Codec; 10] =
    [Uncompressed, RLE, Gorilla, Chimp, Chimp128, ElfOnChimp, Elf, Zstd, Gzip, Snappy];

impl Codec {
    pub fn name(self) -> &'static str {
        match self {
            Uncompressed => "uncompressed",
            RLE => "rle",
            Gorilla => "gorilla",
            BUFF => "buff",
            Chimp => "chimp",
            Chimp128 => "chimp128",
            ElfOnChimp => "elf_on_chimp",
            Elf => "elf",
            Sprintz => "delta_sprintz",
            Zstd => "zstd",
            Gzip => "gzip",
            Snappy => "snappy",
        }
    }
    pub fn decimal(self) -> bool {
        matches!(self, BUFF | Sprintz)
    }
    /// does this codec reserve the word as its end marker?
    pub fn reserved(self, w: u64) -> bool {
        let f = f64::from_bits(w);
        match self {
            Gorilla | Chimp | Chimp128 => w == f64::NAN.to_bits(),
            Elf | ElfOnChimp => f.is_nan(),
            _ => false,
        }
    }
    /// a configuration and the values of its fields, in the order of the format
    pub fn config(self, c: &mut Ctx, scale: u64) -> (CompressorConfig, Vec<Vec<u8>>) {
        let cap = c.chance(0.3).then(|| c.pick(&[0u64, 1, 64, 8000]));
        let le = |v: u64| v.to_le_bytes().to_vec();
        let capv = le(cap.unwrap_or(8192));
        macro_rules! cap {
            ($m:ident) => {
                match cap {
                    Some(v) => (CompressorConfig::$m().capacity(v).build().into(), vec![capv]),
                    None => (CompressorConfig::$m().build().into(), vec![capv]),
                }
            };
        }
        match self {
            Uncompressed => cap!(uncompressed),
            RLE => cap!(rle),
            Gorilla => cap!(gorilla),
            BUFF => (CompressorConfig::buff().scale(scale).build().into(), vec![le(scale)]),
            Chimp => cap!(chimp),
            Chimp128 => cap!(chimp128),
            ElfOnChimp => cap!(elf_on_chimp),
            Elf => cap!(elf),
            Sprintz => match cap {
                Some(v) => (CompressorConfig::delta_sprintz().capacity(v).scale(scale).build().into(), vec![capv, le(scale)]),
                None => (CompressorConfig::delta_sprintz().scale(scale).build().into(), vec![capv, le(scale)]),
            },
            Zstd => {
                let l = c.pick(&[1i32, 3, 5, -2]);
                (CompressorConfig::zstd().level(l).build().into(), vec![l.to_le_bytes().to_vec()])
            }
            Gzip => {
                let l = c.pick(&[1u32, 6, 9, 0]);
                (CompressorConfig::gzip().level(l).build().into(), vec![l.to_le_bytes().to_vec()])
            }
            Snappy => (CompressorConfig::snappy().build().into(), vec![]),
        }
    }
}

pub fn okind(o: &ChunkOption) -> (&'static str, u64) {
    match o {
        ChunkOption::Full => ("full", 0),
        ChunkOption::RecordCount(n) => ("rec", *n as u64),
        ChunkOption::ByteSizeBestEffort(n) => ("bytes", *n as u64),
    }
}

pub fn chunk_option(c: &mut Ctx, n: usize) -> ChunkOption {
    if n > 960 {
        return mid_option(c, n);
    }
    if c.chance(0.02) {
        // a chunk holds at least one record
        return if c.chance(0.5) { ChunkOption::ByteSizeBestEffort(0) } else { ChunkOption::RecordCount(0) };
    }
    if c.chance(0.04) {
        // "everything in one chunk" said with a number
        let v = c.pick(&[usize::MAX, usize::MAX / 8, usize::MAX / 8 + 1, (1 << 61) + 1, (1 << 61) + 3, 1 << 60, 1 << 63]);
        return if c.chance(0.3) { ChunkOption::ByteSizeBestEffort(v) } else { ChunkOption::RecordCount(v) };
    }
    match c.below(10) {
        0 | 1 => ChunkOption::Full,
        2 => ChunkOption::ByteSizeBestEffort(c.pick(&[8, 16, 64, 100, 256, 1000, 4096, 8192])),
        3 | 4 => ChunkOption::RecordCount(c.rng.gen_range(1..=n.max(1))),
        5 => ChunkOption::RecordCount((n.max(1) + 1) / 2),
        _ => ChunkOption::RecordCount(c.pick(&[
            1usize, 2, 3, 5, 7, 8, 9, 13, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 130, 255,
            256, 257, 300,
        ])),
    }
}

fn mid_option(c: &mut Ctx, n: usize) -> ChunkOption {
    match c.below(8) {
        0 | 1 => ChunkOption::Full,
        2 | 3 => ChunkOption::RecordCount(n.div_ceil(2)),
        4 => ChunkOption::ByteSizeBestEffort(c.pick(&[4096usize, 8192, 16384, 65536])),
        5 => ChunkOption::RecordCount(c.rng.gen_range(300..=n)),
        _ => ChunkOption::RecordCount(c.pick(&[
            512usize, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193,
        ])),
    }
}

/// between the short files and those of more than 2^16 records: around the sizes of buffers and blocks
pub fn mid_length(c: &mut Ctx, max: usize) -> usize {
    let n = match c.below(3) {
        0 => c.pick(&[1000usize, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3072, 4095, 4096, 4097, 5000, 8190, 8191, 8192, 8193, 8200, 10000]),
        1 => 960 + c.below(1200),
        _ => 1200 + c.below(8000),
    };
    if n > max { 961 + c.below(max - 961) } else { n }
}

pub fn length(c: &mut Ctx) -> usize {
    match c.below(12) {
        0 => c.below(4),
        1 => c.pick(&[0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258]),
        2..=6 => c.below(70),
        7..=9 => c.below(200),
        10 => c.below(420),
        _ => 256 + c.below(700),
    }
}

const SPECIAL: [u64; 22] = [
    0x0000000000000000, // 0
    0x8000000000000000, // -0
    0x7ff0000000000000, // inf
    0xfff0000000000000, // -inf
    0x0000000000000001, // min subnormal
    0x8000000000000001,
    0x000fffffffffffff, // max subnormal
    0x0010000000000000, // min normal
    0x7fefffffffffffff, // max
    0xffefffffffffffff,
    0x3ff0000000000000, // 1
    0xbff0000000000000, // -1
    0x3fb999999999999a, // 0.1
    0x4340000000000000, // 2^53
    0x4340000000000001,
    0xffffffffffffffff, // a NaN
    0x7ff0000000000001, // signalling NaN
    0x7ff8000000000000, // canonical NaN
    0xfff8000000000000,
    0x7fffffffffffffff,
    0x4024000000000000, // 10
    0x3f50624dd2f1a9fc, // 0.001
];

fn decimal_of(k: i64, p: u32) -> f64 {
    // the double nearest to k / 10^p
    let s = if p == 0 {
        format!("{k}")
    } else {
        let neg = k < 0;
        let u = k.unsigned_abs();
        let d = 10u64.pow(p);
        format!("{}{}.{:0w$}", if neg { "-" } else { "" }, u / d, u % d, w = p as usize)
    };
    s.parse().unwrap()
}

pub fn dec(k: i64, p: u32) -> f64 {
    decimal_of(k, p)
}

/// A word whose XOR with `prev` has exactly `lead` leading and `trail` trailing zeros.
fn xor_step(c: &mut Ctx, prev: u64) -> u64 {
    let lead = c.pick(&[0u32, 1, 4, 7, 8, 9, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 31, 32, 33, 40, 50, 58, 60, 63]);
    let maxt = 63 - lead;
    let trail = match c.below(3) {
        0 => c.rng.gen_range(0..=maxt),
        1 => c.pick(&[0u32, 1, 5, 6, 7, 8, 12, 13, 14, 15, 20, 32, 40]).min(maxt),
        _ => maxt.saturating_sub(c.below(18) as u32),
    };
    let len = 64 - lead - trail;
    let body: u64 = if c.chance(0.3) { u64::MAX } else { c.rng.gen() };
    let mut x = if len == 64 { body } else { body & ((1u64 << len) - 1) };
    x |= 1;
    x |= 1u64 << (len - 1);
    prev ^ (x << trail)
}

/// Arbitrary 64-bit patterns in the styles the lossless codecs care about.
pub fn floats(c: &mut Ctx, codec: Codec, n: usize) -> Vec<f64> {
    if n > 8 && c.chance(0.06) {
        // the style changes on the way
        let k = 1 + c.below(n - 1);
        let mut v = floats(c, codec, k);
        v.extend(floats(c, codec, n - k));
        return v;
    }
    let mut v: Vec<u64> = Vec::with_capacity(n);
    let style = c.below(17);
    let p = c.below(8) as u32;
    let mag = 10i64.pow(c.rng.gen_range(1..=9));
    match style {
        0 => v.extend((0..n).map(|_| c.rng.gen::<u64>())),
        1 => {
            // XOR-crafted
            let mut w: u64 = c.rng.gen();
            while v.len() < n {
                v.push(w);
                if c.chance(0.85) {
                    w = xor_step(c, w);
                }
            }
        }
        2 => {
            // decimal random walk
            let mut k: i64 = c.rng.gen_range(-mag..=mag);
            while v.len() < n {
                v.push(decimal_of(k, p).to_bits());
                k += c.rng.gen_range(-50..=50);
            }
        }
        3 => v.extend((0..n).map(|_| decimal_of(c.rng.gen_range(-mag..=mag), p).to_bits())),
        4 => {
            // runs around the RLE limits
            while v.len() < n {
                let run = c.pick(&[1usize, 1, 2, 3, 10, 100, 127, 128, 254, 255, 256, 257, 509, 510, 511, 512]);
                let w = if c.chance(0.3) { c.pick(&SPECIAL) } else { c.rng.gen() };
                v.extend(std::iter::repeat(w).take(run));
            }
        }
        5 => {
            // few distinct values
            let t: Vec<u64> = (0..1 + c.below(6)).map(|_| if c.chance(0.5) { c.pick(&SPECIAL) } else { decimal_of(c.rng.gen_range(-mag..=mag), p).to_bits() }).collect();
            v.extend((0..n).map(|_| c.pick(&t)));
        }
        6 => v.extend((0..n).map(|_| c.pick(&SPECIAL))),
        7 => {
            // periodic pattern around the Chimp128 window
            let per = c.pick(&[1usize, 2, 3, 64, 126, 127, 128, 129, 130, 200]);
            let base: Vec<u64> = (0..per).map(|_| if c.chance(0.5) { c.rng.gen() } else { decimal_of(c.rng.gen_range(-mag..=mag), p).to_bits() }).collect();
            for i in 0..n {
                let mut w = base[i % per];
                if c.chance(0.2) {
                    w ^= 1 << (c.below(20) + 30);
                }
                v.push(w);
            }
        }
        8 => v.extend((0..n).map(|i| ((i as f64 * 0.1).sin() * 100.0).to_bits())),
        9 => v.extend((0..n).map(|_| (c.rng.gen_range(-mag..=mag) as f64).to_bits())),
        10 => {
            // same low 14 bits repeated (Chimp128 index), high bits vary
            let low: Vec<u64> = (0..4).map(|_| c.rng.gen::<u64>() & 0x3fff).collect();
            v.extend((0..n).map(|_| (c.rng.gen::<u64>() & !0x3fff) | c.pick(&low)));
        }
        11 => {
            // short mantissas: many trailing zeros
            v.extend((0..n).map(|_| {
                let k = c.below(30) as u32;
                c.rng.gen::<u64>() & !((1u64 << (22 + k)) - 1)
            }));
        }
        12 => {
            // subnormals and tiny values
            v.extend((0..n).map(|_| c.rng.gen::<u64>() & 0x801f_ffff_ffff_ffff));
        }
        13 => {
            // decimals of mixed precision, the Elf domain
            v.extend((0..n).map(|_| {
                let p = c.below(18) as u32;
                let m = 10i64.pow(c.below(18) as u32 + 1);
                let k: i64 = c.rng.gen_range(-m..m);
                decimal_of(k, p).to_bits()
            }));
        }
        14 => {
            // powers of ten and neighbours
            v.extend((0..n).map(|_| {
                let e = c.rng.gen_range(-25..25);
                let x: f64 = format!("1e{e}").parse().unwrap();
                let b = x.to_bits();
                c.pick(&[b, b + 1, b - 1, b | 1 << 63])
            }));
        }
        15 => {
            // monotone bits: all leading-zero counts against the first value
            let w: u64 = c.rng.gen();
            v.extend((0..n).map(|i| w ^ (1u64 << (i % 64))));
        }
        _ => {
            // mixture
            let mut w: u64 = c.rng.gen();
            while v.len() < n {
                match c.below(5) {
                    0 => w = c.rng.gen(),
                    1 => w = xor_step(c, w),
                    2 => w = decimal_of(c.rng.gen_range(-mag..=mag), p).to_bits(),
                    3 => w = c.pick(&SPECIAL),
                    _ => {}
                }
                v.push(w);
            }
        }
    }
    v.truncate(n);
    v.into_iter().map(|w| f64::from_bits(if codec.reserved(w) { 0x3ff8000000000000 } else { w })).collect()
}

/// Bit patterns whose style changes from stretch to stretch.
pub fn long_floats(c: &mut Ctx, codec: Codec, n: usize) -> Vec<f64> {
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let k = (1 + c.below(4000)).min(n - v.len());
        v.extend(floats(c, codec, k));
    }
    v
}

/// Scaled integers within +-lim in the styles the decimal codecs care about.
pub fn ints(c: &mut Ctx, n: usize, lim: i64) -> Vec<i64> {
    let mut v = Vec::with_capacity(n);
    let bits = 63 - lim.leading_zeros().min(62);
    // a value range of a chosen bit width
    let w: i64 = match c.below(4) {
        0 => lim,
        1 => 1i64 << c.rng.gen_range(0..=bits.min(9)),
        _ => 1i64 << c.rng.gen_range(0..=bits),
    }
    .clamp(1, lim);
    let base: i64 = match c.below(4) {
        0 => 0,
        1 => -w / 2,
        2 => lim - w,
        _ => c.rng.gen_range(-lim..=lim - w),
    }
    .clamp(-lim, lim - w);
    match c.below(10) {
        0 => v.extend(std::iter::repeat(base).take(n)),
        1 => {
            while v.len() < n {
                let r = c.pick(&[1usize, 2, 5, 30, 100]);
                let x = base + c.rng.gen_range(0..=w);
                v.extend(std::iter::repeat(x).take(r));
            }
        }
        2 => v.extend((0..n).map(|_| base + if c.chance(0.5) { 0 } else { w })),
        3 => {
            let st = (w / (n.max(1) as i64)).max(1);
            v.extend((0..n).map(|i| (base + i as i64 * st).min(base + w)));
            if c.chance(0.5) {
                v.reverse();
            }
        }
        4 => {
            // few distinct values
            let t: Vec<i64> = (0..1 + c.below(5)).map(|_| base + c.rng.gen_range(0..=w)).collect();
            v.extend((0..n).map(|_| c.pick(&t)));
        }
        5 => {
            // mostly small, rare outlier
            let s = w.min(10);
            v.extend((0..n).map(|_| if c.chance(0.03) { base + w } else { base + c.rng.gen_range(0..=s) }));
        }
        6 => {
            // values sharing high or low bytes
            let sh = c.pick(&[0u32, 1, 7, 8, 9, 15, 16, 17, 24]);
            v.extend((0..n).map(|_| {
                let x = c.rng.gen_range(0..=w);
                base + if c.chance(0.5) { x >> sh << sh } else { x & ((1i64 << sh.max(1)) - 1) }
            }));
        }
        _ => v.extend((0..n).map(|_| base + c.rng.gen_range(0..=w))),
    }
    v.truncate(n);
    v
}

/// Bitmasks, from empty to everything, also beyond the file.
pub fn mask(c: &mut Ctx, n: usize, starts: &[usize]) -> Vec<u32> {
    let mut m: Vec<u32> = match c.below(12) {
        0 => vec![],
        1 => (0..n as u32).collect(),
        2 => (0..n as u32 + 5).filter(|_| c.chance(0.5)).collect(),
        3 => (0..n as u32 + 70).filter(|_| c.chance(0.05)).collect(),
        4 => (0..n as u32).filter(|_| c.chance(0.07)).collect(),
        5 => (0..n as u32).filter(|_| c.chance(0.95)).collect(),
        6 => {
            // one chunk only
            if starts.len() < 2 {
                vec![]
            } else {
                let k = c.below(starts.len() - 1);
                (starts[k] as u32..starts[k + 1] as u32).filter(|_| c.chance(0.6)).collect()
            }
        }
        7 => {
            // chunk borders
            starts.iter().flat_map(|s| [s.wrapping_sub(1) as u32, *s as u32]).filter(|x| *x < n as u32 + 2).collect()
        }
        8 => vec![c.below(n.max(1)) as u32],
        9 => {
            let a = c.below(n.max(1));
            let b = a + c.below(n.max(1));
            // block borders, counted from the beginning of the file or of a chunk
            let q = c.pick(&[1usize, 1, 8, 64, 128, 256, 512, 1024, 2048, 4096, 65536]);
            let s = if starts.len() > 1 { c.pick(&starts[..starts.len() - 1]) } else { 0 };
            let snap = |x: usize| if x < s { x } else { s + (x - s) / q * q };
            let (a, b) = if q > n { (a, b) } else { (if c.chance(0.5) { a } else { snap(a) }, if c.chance(0.2) { b } else { snap(b) }) };
            (a as u32..b as u32).collect()
        }
        10 => vec![n as u32, n as u32 + 1, 70000, u32::MAX],
        _ => {
            let d = c.rng.gen_range(0.0..1.0);
            (0..n as u32).filter(|_| c.rng.gen_bool(d)).collect()
        }
    };
    m.sort();
    m.dedup();
    m
}
