//! C15: lives of compressor objects.
use crate::data::*;
use crate::util::*;
use ebi::compressor::run_length::RunLengthCompressor;
use ebi::compressor::uncompressed::UncompressedCompressor;
use ebi::compressor::{
    AppendableCompressor, Compressor, CompressorConfig, GenericCompressor, RewindableCompressor,
};
use serde_json::json;
use std::collections::HashMap;

enum Obj {
    G(GenericCompressor),
    U(UncompressedCompressor),
    R(RunLengthCompressor),
}

macro_rules! on {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            Obj::G($c) => $e,
            Obj::U($c) => $e,
            Obj::R($c) => $e,
        }
    };
}

impl Obj {
    fn out(&self) -> Vec<u8> {
        on!(self, c => c.buffers().concat())
    }
    fn tin(&self) -> usize {
        on!(self, c => c.total_bytes_in())
    }
}

fn fresh(cfg: &CompressorConfig, kind: u8) -> Obj {
    match kind {
        0 => Obj::G(cfg.build()),
        1 => Obj::U(UncompressedCompressor::new(16)),
        _ => Obj::R(RunLengthCompressor::new()),
    }
}

pub fn run(c: &mut Ctx) {
    let scn = c.my_scn();
    let rounds = c.n(1, 3);
    for _ in 0..rounds {
        for s in &scn {
            let ops: Vec<(String, usize)> = serde_json::from_str(s).unwrap();
            let app = ops.iter().any(|o| o.0 == "A" || o.0 == "R");
            let codecs: Vec<Codec> = if app {
                vec![c.pick(&[Codec::RLE, Codec::Uncompressed, Codec::RLE])]
            } else {
                ALL.to_vec()
            };
            for codec in codecs {
                one(c, codec, app, &ops);
            }
        }
    }
    // short lives of the codecs whose size is computed before the end marker is written
    let xor = [
        Codec::Gorilla,
        Codec::Chimp,
        Codec::Chimp128,
        Codec::Elf,
        Codec::ElfOnChimp,
    ];
    for i in 0..c.n(400, 3000) {
        let ops: Vec<(String, usize)> = match i % 4 {
            0 => vec![("C".into(), 1), ("P".into(), 0), ("C".into(), 2)],
            1 => vec![("C".into(), 1), ("X".into(), 0), ("C".into(), 2)],
            _ => vec![("C".into(), 1)],
        };
        one(c, xor[i % 5], false, &ops);
    }
}

/// The last records resemble the end marker (the canonical NaN) in their leading bits, so that the marker is
/// coded in every way the codec has.
fn near_marker(c: &mut Ctx, v: &mut [f64]) {
    use rand::Rng;
    let n = v.len();
    for i in n.saturating_sub(1 + c.below(4))..n {
        let lead = c.below(12);
        let trail = c.pick(&[0usize, 0, 1, 5, 6, 7, 20, 40]);
        let x = ((c.rng.gen::<u64>() >> lead) | (1 << (63 - lead))) >> trail << trail;
        v[i] = f64::from_bits(f64::NAN.to_bits() ^ x);
    }
}

fn one(c: &mut Ctx, codec: Codec, app: bool, ops: &[(String, usize)]) {
    let kind = if app || c.chance(0.1) {
        match codec {
            Codec::Uncompressed => 1,
            Codec::RLE => 2,
            _ => 0,
        }
    } else {
        0
    };
    let p = c.below(5) as u32;
    let (cfg, _) = codec.config(c, 10u64.pow(p));
    let small = c.chance(0.8);
    // a segment larger than the buffers compressors start with
    let large = c.chance(if c.thorough { 0.004 } else { 0.02 });
    let mut segs: Vec<Vec<f64>> = vec![vec![]];
    for _ in 0..2 {
        let n = if large && c.chance(0.6) {
            if c.chance(0.6) { 1000 + c.below(1500) } else { mid_length(c, 10000) }
        } else if small {
            1 + c.below(12)
        } else {
            1 + c.below(300)
        };
        segs.push(if codec.decimal() {
            ints(c, n, 1 << 30).into_iter().map(|k| dec(k, p)).collect()
        } else if kind == 2 {
            // few values, runs around the limit; sometimes hardly any runs
            let mut v = vec![];
            let single = c.chance(if large { 0.6 } else { 0.1 });
            while v.len() < n {
                let r = c
                    .pick(&[1usize, 2, 3, 20, 127, 128, 200, 254, 255, 256, 257, 300])
                    .min(n - v.len());
                let r = if single && c.chance(0.98) { 1 } else { r };
                let x = c.pick(&[1.5f64, 1.5, 0.0, -0.0, 7.0]);
                let x = if single { (v.len() % 1000) as f64 } else { x };
                v.extend(std::iter::repeat(x).take(r));
            }
            v
        } else {
            let mut v = floats(c, codec, n);
            if c.chance(0.4) {
                near_marker(c, &mut v);
            }
            v
        });
    }
    episode(c, &cfg, kind, codec, &segs, ops);
}

fn episode(
    c: &mut Ctx,
    cfg: &CompressorConfig,
    kind: u8,
    codec: Codec,
    segs: &[Vec<f64>],
    ops: &[(String, usize)],
) {
    let mut names: HashMap<u64, usize> = HashMap::new();
    let mut id = |v: &[f64]| -> Vec<usize> {
        v.iter()
            .map(|x| {
                let n = names.len();
                *names.entry(x.to_bits()).or_insert(n)
            })
            .collect()
    };
    let mut o = fresh(cfg, kind);
    let tin = o.tin();
    c.ev(json!({"begin":1,"ev":"new","st":"ok","tin":tin,"codec":codec.name(),"kind":kind}));
    // what the recorder believes is held: only used to build the fresh compressor; the specification judges it
    let mut held: Vec<f64> = vec![];
    let mut touched = false;
    let mut prepared = false;
    let no_empty = false;
    let mut all = ops.to_vec();
    all.push(("P".into(), 0));
    for (op, a) in &all {
        match op.as_str() {
            "C" | "A" => {
                let xs = &segs[*a];
                if xs.is_empty() && no_empty {
                    continue;
                }
                let append = op == "A";
                if append && prepared {
                    continue;
                }
                let r = guard(|| -> Result<(), String> {
                    if append {
                        match &mut o {
                            Obj::U(u) => u.append_compress(xs),
                            Obj::R(u) => u.append_compress(xs),
                            Obj::G(_) => unreachable!(),
                        }
                        Ok(())
                    } else {
                        on!(&mut o, k => k.compress(xs)).map_err(|e| e.to_string())
                    }
                });
                if !append {
                    held.clear();
                }
                held.extend_from_slice(xs);
                touched = true;
                prepared = false;
                let ids = id(xs);
                c.ev(json!({"ev": if append {"append"} else {"compress"},"st":r.st(),"msg":r.msg(),"xs":ids,"tin":o.tin()}));
            }
            "R" => {
                if prepared || held.is_empty() {
                    continue;
                }
                let n = match a {
                    0 => 0,
                    1 => 1,
                    2 => held.len() / 2,
                    3 => held.len(),
                    _ => held.len() + 1 + c.below(3),
                };
                let r = guard_ok(|| match &mut o {
                    Obj::U(u) => u.rewind(n),
                    Obj::R(u) => u.rewind(n),
                    Obj::G(_) => unreachable!(),
                });
                let ok = matches!(r, Out::Ok(true));
                if n <= held.len() {
                    held.truncate(held.len() - n);
                }
                c.ev(json!({"ev":"rewind","st":r.st(),"msg":r.msg(),"n":n,"ok":ok as u8,"tin":o.tin()}));
            }
            "X" => {
                let r = guard_ok(|| on!(&mut o, k => k.reset()));
                held.clear();
                touched = false;
                prepared = false;
                c.ev(json!({"ev":"reset","st":r.st(),"msg":r.msg(),"tin":o.tin()}));
            }
            _ => {
                if prepared {
                    continue;
                }
                let r = guard(|| -> Result<(usize, Vec<u8>, Vec<u8>), String> {
                    let ann = on!(&o, k => k.total_bytes_buffered());
                    on!(&mut o, k => k.prepare());
                    let mut f = fresh(cfg, kind);
                    if touched {
                        on!(&mut f, k => k.compress(&held)).map_err(|e| e.to_string())?;
                    }
                    on!(&mut f, k => k.prepare());
                    Ok((ann, o.out(), f.out()))
                });
                prepared = true;
                let fxs = id(&held);
                let (ann, out, fr) = match &r {
                    Out::Ok((a, b, d)) => (*a, b.clone(), d.clone()),
                    _ => (0, vec![], vec![]),
                };
                c.ev(json!({"ev":"prepare","st":r.st(),"msg":r.msg(),"tin":o.tin(),"fxs":fxs,"ftouched":touched as u8,
                    "announced":ann,"out":out,"fresh":fr}));
            }
        }
    }
}
