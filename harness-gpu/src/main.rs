//! Recorder for GPU contexts (C12), run over stand-ins for the CUDA driver and cuBLAS.
//! usage: ebivgpu <kind> <outdir> <shards> <seed> <quick|thorough> [scenario-file]
#[allow(dead_code)]
#[path = "../../harness/src/data.rs"]
mod data;
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;

use cuda_binding::{Context, GemmConfig};
use cudarc::cublas::sys::cublasOperation_t::{CUBLAS_OP_N, CUBLAS_OP_T};
use data::*;
use ebi::api::decoder::{Decoder, DecoderInput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::encoder::ChunkOption;
use rand::Rng;
use serde_json::{json, Value};
use std::io::Cursor;
use util::*;

fn ints(xs: &[f64]) -> Vec<i64> {
    xs.iter()
        .map(|x| if x.is_finite() && x.fract() == 0.0 && x.abs() < 2e9 { *x as i64 } else { 2_000_000_011 })
        .collect()
}

fn small(c: &mut Ctx, n: usize) -> Vec<f64> {
    (0..n).map(|_| c.rng.gen_range(-9..=9) as f64).collect()
}

/// the stand-in's switch for failing calls
fn fakegpu() -> (extern "C" fn(libc::c_int), extern "C" fn() -> libc::c_int) {
    unsafe {
        let h = libc::dlopen(c"libcuda.so".as_ptr(), libc::RTLD_NOW);
        let (a, b) = (libc::dlsym(h, c"fakegpu_fail".as_ptr()), libc::dlsym(h, c"fakegpu_failed".as_ptr()));
        assert!(!a.is_null() && !b.is_null(), "the stand-in is not loaded");
        (std::mem::transmute::<*mut libc::c_void, extern "C" fn(libc::c_int)>(a), std::mem::transmute::<*mut libc::c_void, extern "C" fn() -> libc::c_int>(b))
    }
}

/// operands that stay at one place in memory from call to call
struct Place(Vec<f64>, Vec<f64>, Vec<f64>);

#[derive(Clone, Copy)]
struct Q {
    m: i32,
    n: i32,
    k: i32,
    alpha: i32,
    beta: i32,
    ta: bool,
    tb: bool,
}

fn one(ctx: &mut Context, c: &mut Ctx, at: &mut Place, form: u64, q: Q, lens: (usize, usize, usize)) {
    // new numbers, the numbers of the last call, or new numbers in the place of the last
    if !(at.0.len() == lens.0 && c.chance(0.2)) {
        let a = small(c, lens.0);
        at.0.clear();
        at.0.extend(a);
    }
    if !(at.1.len() == lens.1 && c.chance(0.2)) {
        let b = small(c, lens.1);
        at.1.clear();
        at.1.extend(b);
    }
    let c0 = small(c, lens.2);
    at.2.clear();
    at.2.extend(&c0);
    let (mut fa, mut fb, mut fo);
    let (a, b, out): (&[f64], &[f64], &mut [f64]) = if c.chance(0.6) {
        (&at.0, &at.1, &mut at.2)
    } else {
        (fa, fb, fo) = (at.0.clone(), at.1.clone(), at.2.clone());
        fa.shrink_to_fit();
        fb.shrink_to_fit();
        (&fa, &fb, &mut fo)
    };
    let (m, n, k) = (q.m, q.n, q.k);
    let inject = c.chance(0.08);
    let (fail, failed) = fakegpu();
    if inject {
        fail(c.below(6) as i32);
    }
    let r = guard(|| match form {
        0 => ctx.gemm(b, a, out, Context::config_matmul_row_major(m as usize, n as usize, k as usize)),
        1 => ctx.gemm(a, b, out, Context::config_matmul_column_major(m as usize, n as usize, k as usize)),
        _ => ctx.gemm(
            a,
            b,
            out,
            GemmConfig {
                transa: if q.ta { CUBLAS_OP_T } else { CUBLAS_OP_N },
                transb: if q.tb { CUBLAS_OP_T } else { CUBLAS_OP_N },
                m,
                n,
                k,
                alpha: q.alpha as f64,
                beta: q.beta as f64,
                lda: if q.ta { k } else { m }.max(1),
                ldb: if q.tb { n } else { k }.max(1),
                ldc: m.max(1),
            },
        ),
    });
    let hit = failed() == 1;
    fail(-1);
    let mut e = json!({"hit": hit as u8, "ev": if form == 0 {"row"} else {"gemm"}, "m": m, "n": n, "k": k, "a": ints(a), "b": ints(b),
        "c": ints(&c0), "r": ints(out), "st": r.st(), "msg": r.msg()});
    if form != 0 {
        let o = e.as_object_mut().unwrap();
        let full = form >= 2;
        for (key, v) in [
            ("alpha", if full { q.alpha } else { 1 }),
            ("beta", if full { q.beta } else { 0 }),
            ("ta", (full && q.ta) as i32),
            ("tb", (full && q.tb) as i32),
        ] {
            o.insert(key.into(), v.into());
        }
    }
    c.ev(e);
    if c.chance(0.1) {
        let _ = ctx.synchronize();
    }
}

fn fresh(c: &mut Ctx) -> Option<Context> {
    match guard(|| Context::new_at(0)) {
        Out::Ok(x) => {
            c.ev(json!({"ev":"new","begin":1,"st":"ok"}));
            Some(x)
        }
        e => {
            c.ev(json!({"ev":"new","begin":1,"st":e.st(),"msg":e.msg()}));
            None
        }
    }
}

fn lens(m: i32, n: i32, k: i32) -> (usize, usize, usize) {
    let p = |a: i32, b: i32| (a.max(0) as usize) * (b.max(0) as usize);
    (p(m, k), p(k, n), p(m, n))
}

fn gemm(c: &mut Ctx) {
    let mut at = Place(vec![], vec![], vec![]);
    // every sequence of shapes generated from the specification
    for s in c.my_scn() {
        let calls: Vec<Vec<u64>> = serde_json::from_str(&s).unwrap();
        let Some(mut ctx) = fresh(c) else { return };
        for q in calls {
            let (m, n, k) = (q[0] as i32, q[1] as i32, q[2] as i32);
            let g = Q { m, n, k, alpha: 1, beta: q[3] as i32, ta: c.chance(0.5), tb: c.chance(0.5) };
            one(&mut ctx, c, &mut at, q[3], g, lens(m, n, k));
        }
    }
    // longer random lives with general calls and misfits
    for _ in 0..c.n(120, 1200) {
        let Some(mut ctx) = fresh(c) else { return };
        let steps = 2 + c.below(14);
        for _ in 0..steps {
            let big = c.chance(0.2);
            let d = |c: &mut Ctx| if big { 1 + c.below(9) as i32 } else { 1 + c.below(4) as i32 };
            let (mut m, mut n, mut k) = (d(c), d(c), d(c));
            if c.chance(0.03) {
                // beyond the sizes of warps and tiles
                let z = |c: &mut Ctx| c.pick(&[1, 2, 3, 15, 16, 17, 31, 32, 33, 40, 64, 65, 70]);
                (m, n, k) = (z(c), z(c), z(c));
                if m * n * k > 40000 {
                    k = 3;
                }
            }
            if c.chance(0.1) {
                n = 1;
                if c.chance(0.5) {
                    m = 1;
                }
            }
            let mut l = lens(m, n, k);
            if c.chance(0.15) {
                match c.below(8) {
                    0 => l.0 += 1,
                    1 => l.1 += 1,
                    2 => l.2 += 1,
                    3 => l.0 -= 1,
                    4 => l.1 -= 1,
                    5 => l.2 -= 1,
                    6 => std::mem::swap(&mut l.0, &mut l.2),
                    _ => std::mem::swap(&mut l.1, &mut l.0),
                }
            }
            let form = c.pick(&[0u64, 0, 1, 2, 2]);
            if form >= 1 && c.chance(0.05) {
                match c.below(5) {
                    0 => m = 0,
                    1 => n = 0,
                    2 => k = 0,
                    3 if form == 2 => m = -m,
                    4 if form == 2 => {
                        // a product of two negative dimensions is positive
                        m = -m;
                        k = -k;
                        n = -n;
                    }
                    _ => {}
                }
                if c.chance(0.5) {
                    l = lens(m, n, k);
                }
            }
            let q = Q {
                m,
                n,
                k,
                alpha: c.pick(&[1, 1, 2, -3, 0]),
                beta: c.pick(&[0, 0, 1, 2, -1]),
                ta: c.chance(0.4),
                tb: c.chance(0.4),
            };
            one(&mut ctx, c, &mut at, form, q, l);
        }
        if c.chance(0.3) {
            // shapes whose element counts do not fit 32 bits
            let h = c.pick(&[65536i32, 1 << 20, 1 << 30, i32::MAX]);
            let (m, n, k) = c.pick(&[(h, 1, h), (1, h, h), (h, h, 1), (h, h, h)]);
            let (a, b) = (small(c, 1), small(c, 1));
            let la = if c.chance(0.5) { 0 } else { 1 };
            let mut out = small(c, la);
            let r = guard(|| {
                ctx.gemm(&a[..la], &b[..la], &mut out, Context::config_matmul_column_major(m as usize, n as usize, k as usize))
            });
            c.ev(json!({"ev":"huge","m":m,"n":n,"k":k,"st":r.st(),"msg":r.msg()}));
        }
    }
    // the decoder's GPU query
    for _ in 0..c.n(150, 1500) {
        let codec = c.pick(&[Codec::Uncompressed, Codec::RLE, Codec::Gorilla, Codec::Chimp, Codec::Chimp128, Codec::ElfOnChimp,
            Codec::Elf, Codec::Sprintz, Codec::Zstd, Codec::Gzip, Codec::Snappy]);
        let (mut dr, mut dc, mut tc) = (1 + c.below(4), 1 + c.below(4), 1 + c.below(4));
        let mut batch = c.below(6);
        match c.below(20) {
            0 => batch = 10 + c.below(300),
            1 => (dr, dc, tc) = (1 + c.below(20), 1 + c.below(20), 1 + c.below(20)),
            2 => (dr, dc, tc) = (c.pick(&[1usize, 2, 32, 33, 64, 65]), c.pick(&[1usize, 3, 16, 32, 33, 64]), c.pick(&[1usize, 2, 33])),
            _ => {}
        }
        let mut n = dr * dc * batch;
        if c.chance(0.1) {
            n += 1;
        }
        let vals = small(c, n);
        let opt = match c.below(3) {
            0 => ChunkOption::Full,
            1 => ChunkOption::RecordCount(1 + c.below(n.max(1))),
            _ => ChunkOption::RecordCount(dr * dc * (1 + c.below(3))),
        };
        let (cfg, _) = codec.config(c, 1);
        let bytes = guard(|| {
            let mut e = Encoder::new(EncoderInput::from_f64_slice(&vals), EncoderOutput::from_vec(Vec::new()), opt, cfg);
            e.encode()?;
            { let r: ebi::encoder::Result<Vec<u8>> = Ok(e.into_output().into_vec()); r }
        });
        c.ev(json!({"ev":"file","begin":1,"st":bytes.st(),"msg":bytes.msg(),"codec":codec.name(),"xs":ints(&vals)}));
        let Out::Ok(bytes) = bytes else { continue };
        let mut dec = Decoder::new(DecoderInput::from_reader(Cursor::new(&bytes[..]))).unwrap();
        for _ in 0..1 + c.below(3) {
            let (mut dr, mut dc, mut tr, mut tc2) = (dr, dc, dc, tc);
            let mut tl = tr * tc2;
            if c.chance(0.2) {
                match c.below(6) {
                    0 => tr += 1,
                    1 => tc2 += 1,
                    2 => tl += 1,
                    3 => dr += 1,
                    4 => dr = 0,
                    _ => {
                        dc += 1;
                        tr += 1;
                        tl = tr * tc2
                    }
                }
            }
            let t = small(c, tl);
            let (fail, failed) = fakegpu();
            if c.chance(0.05) {
                fail(c.below(10) as i32);
            }
            let r = guard(|| dec.matmul_cuda(&t, (tr, tc2), (dr, dc)));
            let rv = match &r {
                Out::Ok(x) => json!(ints(x)),
                _ => Value::Array(vec![]),
            };
            let hit = failed() == 1;
            fail(-1);
            c.ev(json!({"ev":"query","hit":hit as u8,"dr":dr,"dc":dc,"tr":tr,"tc":tc2,"t":ints(&t),"st":r.st(),"msg":r.msg(),"r":rv}));
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        std::process::exit(3);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let shards: usize = a[3].parse().unwrap();
    let scn: Vec<String> = match a.get(6) {
        Some(p) => std::fs::read_to_string(p).unwrap().lines().map(|s| s.to_string()).collect(),
        None => vec![],
    };
    // one process-wide stand-in device: shards run one after another
    for i in 0..shards {
        let mut c = Ctx::new(&a[2], i, shards, a[4].parse().unwrap(), a[5] == "thorough", scn.clone());
        gemm(&mut c);
    }
}
