//! C09: expressions over column files.
use crate::data::*;
use crate::fileq::{encode, open, Dec};
use crate::util::*;
use ebi::api::decoder::{Aggregation, AggregationResult, ChunkId};
use ebi::decoder::expr::{Expr, Op};
use ebi::encoder::ChunkOption;
use ebi::time::SegmentedExecutionTimes;
use rand::Rng;
use roaring::RoaringBitmap;
use serde_json::{json, Value};

/// a double as a fraction in lowest terms; inf, -inf and NaN have denominator 0
fn frac(v: f64) -> Value {
    if v.is_nan() {
        return json!([0, 0]);
    }
    if v.is_infinite() {
        return json!([if v > 0.0 { 1 } else { -1 }, 0]);
    }
    let mut d = 1i64;
    let mut x = v;
    while x.fract() != 0.0 && d < 1 << 28 {
        x *= 2.0;
        d *= 2;
    }
    if x.fract() != 0.0 || x.abs() > 2e9 {
        // no exact result: can equal nothing the specification computes
        return json!([1, -1]);
    }
    json!([x as i64, d])
}

#[derive(Clone)]
enum X {
    Lit(f64),
    Ix(usize),
    Bin(char, Box<X>, Box<X>),
}

impl X {
    fn json(&self) -> Value {
        match self {
            X::Lit(v) => json!(["lit", frac(*v)]),
            X::Ix(i) => json!(["ix", i]),
            X::Bin(o, a, b) => json!([o.to_string(), a.json(), b.json()]),
        }
    }
    fn expr(&self) -> Expr {
        match self {
            X::Lit(v) => Expr::Literal(*v),
            X::Ix(i) => Expr::Index(*i),
            X::Bin(o, a, b) => Expr::Binary {
                op: match o {
                    '+' => Op::Add,
                    '-' => Op::Sub,
                    '*' => Op::Mul,
                    _ => Op::Div,
                },
                lhs: Box::new(a.expr()),
                rhs: Box::new(b.expr()),
            },
        }
    }
    /// bound on the magnitude of numerator and denominator for data |n| <= m
    fn bound(&self, m: f64) -> (f64, f64) {
        match self {
            X::Lit(v) => {
                let f = frac(*v);
                (f[0].as_f64().unwrap().abs(), f[1].as_f64().unwrap().max(1.0))
            }
            X::Ix(_) => (m, 4.0),
            X::Bin(o, a, b) => {
                let ((n, d), (k, e)) = (a.bound(m), b.bound(m));
                match o {
                    '*' => (n * k, d * e),
                    '/' => (n * e, d * k),
                    _ => (n * e + k * d, d * e),
                }
            }
        }
    }
}

/// `pow`: column holding nonzero powers of two, usable as a divisor
fn gen(c: &mut Ctx, ncols: usize, pow: usize, depth: usize) -> X {
    if depth == 0 || c.chance(0.15) {
        return if c.chance(0.3) { X::Lit(c.pick(&[2.0, -1.0, 0.5, 3.0, -2.0, 0.25, 1.0, 0.0])) } else { X::Ix(c.below(ncols)) };
    }
    let o = c.pick(&['+', '-', '-', '*', '/']);
    let a = gen(c, ncols, pow, depth - 1);
    let b = if o == '/' {
        if c.chance(0.4) { X::Lit(c.pick(&[2.0, -4.0, 0.5])) } else { X::Ix(pow) }
    } else {
        gen(c, ncols, pow, depth - 1)
    };
    X::Bin(o, Box::new(a), Box::new(b))
}

fn expr_ok(c: &mut Ctx, ncols: usize, pow: usize, n: usize) -> X {
    loop {
        let d = c.below(4);
        let x = gen(c, ncols, pow, d);
        let (a, b) = x.bound(8.0);
        // sums over the whole file and comparisons stay within TLC's integers
        if a * b * (n.max(4) as f64) < 1.5e8 && b * b * a < 1e9 {
            return x;
        }
    }
}

fn outs(r: &AggregationResult) -> Value {
    match r {
        AggregationResult::Array(v) => Value::Array(v.iter().map(|x| frac(*x)).collect()),
        AggregationResult::Scalar(v) => json!([frac(*v)]),
        AggregationResult::Integer(n) => json!([[*n, -2]]),
    }
}

const KINDS: [&str; 4] = ["sum", "min", "max", "none"];
fn agg(kind: &str, x: &X) -> Aggregation {
    match kind {
        "sum" => Aggregation::sum(x.expr()),
        "min" => Aggregation::min(x.expr()),
        "max" => Aggregation::max(x.expr()),
        _ => Aggregation::none(x.expr()),
    }
}

pub fn run(c: &mut Ctx) {
    let rounds = c.n(220, 3000);
    for round in 0..rounds {
        let mut ncols = 1 + c.below(4);
        let mut n = if c.chance(0.1) { c.below(3) } else { 1 + c.below(70) };
        let mut queries = 10;
        if c.chance(0.015) {
            n = mid_length(c, 9000);
            ncols = ncols.min(2);
            queries = 4;
        }
        if round == 0 && c.shard < if c.thorough { 8 } else { 3 } {
            n = c.pick(&[65536usize, 65537, 66000, 70000]);
            ncols = ncols.min(2);
            queries = 3;
        }
        let opt = match c.below(5) {
            0 => ChunkOption::Full,
            _ if n > 20000 => ChunkOption::RecordCount(c.pick(&[40000usize, 65535, 65536, 65537])),
            _ if n > 960 => ChunkOption::RecordCount(c.pick(&[300usize, 1000, 1024, 1025, 2048, 4096, 8191, 8192, 8193])),
            _ => ChunkOption::RecordCount(c.pick(&[1usize, 2, 3, 7, 8, 16, 31, 33, 64])),
        };
        let mut files = vec![];
        let mut cols = vec![];
        let mut codecs = vec![];
        let mut ok = true;
        let mut st = "ok".to_string();
        // the last column is the divisor column
        for k in 0..ncols {
            let codec = c.pick(&ALL);
            let special = !codec.decimal() && !codec.reserved(f64::NAN.to_bits()) && c.chance(0.3);
            let vals: Vec<f64> = (0..n)
                .map(|_| {
                    if k == ncols - 1 {
                        c.pick(&[1.0, 2.0, -2.0, 4.0, -1.0])
                    } else if special && c.chance(0.1) {
                        c.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN])
                    } else if codec.decimal() || c.chance(0.7) {
                        c.rng.gen_range(-8i32..=8) as f64
                    } else {
                        c.rng.gen_range(-16i32..=16) as f64 / 4.0
                    }
                })
                .map(|v| if v == 0.0 { 0.0 } else { v })
                .collect();
            let (cfg, _) = codec.config(c, 10);
            match encode(&vals, opt, cfg) {
                Out::Ok(b) => files.push(b),
                o => {
                    ok = false;
                    st = format!("{} {}", o.st(), o.msg());
                }
            }
            codecs.push(codec.name());
            cols.push(vals);
        }
        let sizes: Vec<usize> = match opt {
            ChunkOption::RecordCount(k) => (0..n).step_by(k).map(|s| k.min(n - s)).collect(),
            _ => if n == 0 { vec![] } else { vec![n] },
        };
        let jc: Vec<Vec<Value>> = cols.iter().map(|v| v.iter().map(|x| frac(*x)).collect()).collect();
        c.ev(json!({"begin":1,"ev":"cols","st":st,"n":n,"cols":jc,"sizes":sizes,"codecs":codecs}));
        if !ok {
            continue;
        }
        let mut decs: Vec<Dec> = vec![];
        for f in &files {
            match open(f) {
                Out::Ok(d) => decs.push(d),
                o => {
                    c.ev(json!({"ev":"cols","st":o.st(),"msg":o.msg()}));
                }
            }
        }
        if decs.len() != ncols {
            continue;
        }
        let starts: Vec<usize> = std::iter::once(0).chain(sizes.iter().scan(0, |a, s| { *a += s; Some(*a) })).collect();
        for _ in 0..queries {
            let hm = c.chance(0.7);
            let mask = if hm { mask(c, n, &starts) } else { vec![] };
            let bm: RoaringBitmap = mask.iter().copied().collect();
            let bmo = hm.then_some(&bm);
            let mask: Vec<i64> = mask.iter().map(|x| (*x).min(2_000_000_000) as i64).collect();
            let mut t = SegmentedExecutionTimes::new();
            if c.chance(0.3) {
                let d = c.below(5);
                let x = gen(c, 7, 6, d);
                let m = guard_ok(|| x.expr().max_chunk_reader_index());
                let (st, v) = match &m {
                    Out::Ok(v) => ("ok", v.map_or(-1, |v| v.min(1 << 20) as i64)),
                    o => (o.st(), -2),
                };
                c.ev(json!({"ev":"maxix","st":st,"e":x.json(),"v":v}));
            }
            match c.below(4) {
                0 | 1 => {
                    let x = expr_ok(c, ncols, ncols - 1, n);
                    let kind = c.pick(&KINDS);
                    let r = guard(|| agg(kind, &x).compute(&mut decs, bmo, &mut t));
                    let out = if let Out::Ok(r) = &r { outs(r) } else { json!([]) };
                    c.ev(json!({"ev":"agg","st":r.st(),"msg":r.msg(),"a":{"kind":kind,"e":x.json()},"hm":hm as u8,"mask":mask,"out":out}));
                }
                2 => {
                    let k = c.below(5);
                    let xs: Vec<(&str, X)> = (0..k).map(|_| (c.pick(&KINDS), expr_ok(c, ncols, ncols - 1, n))).collect();
                    let ags: Vec<Aggregation> = xs.iter().map(|(k, x)| agg(k, x)).collect();
                    let r = guard(|| Aggregation::compute_multiple(&ags, &mut decs, bmo, &mut t));
                    let out: Vec<Value> = if let Out::Ok(r) = &r { r.iter().map(outs).collect() } else { vec![] };
                    let jas: Vec<Value> = xs.iter().map(|(k, x)| json!({"kind":k,"e":x.json()})).collect();
                    c.ev(json!({"ev":"multi","st":r.st(),"msg":r.msg(),"as":jas,"hm":hm as u8,"mask":mask,"outs":out}));
                }
                _ => {
                    if sizes.is_empty() {
                        continue;
                    }
                    let ch = c.below(sizes.len());
                    // several expressions on the same readers
                    let xs: Vec<X> = (0..2).map(|_| expr_ok(c, ncols, ncols - 1, n)).collect();
                    let r = guard(|| {
                        let mut rs = decs.iter_mut().map(|d| d.chunk_reader(ChunkId::new(ch))).collect::<Result<Vec<_>, _>>()?;
                        let a = xs.iter().map(|x| x.expr().compute_chunk(&mut rs, bmo, &mut t).map_err(|e| e.to_string())).collect::<Vec<_>>();
                        ebi::decoder::Result::Ok(a)
                    });
                    for (i, x) in xs.iter().enumerate() {
                        let (st, out) = match &r {
                            Out::Ok(v) => match &v[i] {
                                Ok(a) => ("ok", a.iter().map(|x| frac(*x)).collect::<Vec<_>>()),
                                Err(_) => ("err", vec![]),
                            },
                            o => (if o.st() == "panic" { "panic" } else { "openerr" }, vec![]),
                        };
                        c.ev(json!({"ev":"chunk","st":st,"msg":r.msg(),"e":x.json(),"ch":ch,"hm":hm as u8,"mask":mask,"out":out}));
                    }
                }
            }
        }
    }
}
