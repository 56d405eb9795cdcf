//! Decimal arithmetic under Elf (C14): recorder for TraceElf.
use crate::util::*;
use ebi::compression_common::elf as e;
use rand::Rng;
use serde_json::{json, Value};

fn limbs(mut v: u64) -> Vec<u64> {
    let mut r = vec![];
    while v > 0 {
        r.push(v & 4095);
        v >>= 12;
    }
    r
}

/// (negative, mantissa, exponent) of a normal double: value = m * 2^e
fn parts(v: f64) -> (u64, u64, i64) {
    let b = v.to_bits();
    ((b >> 63), (b & ((1 << 52) - 1)) | (1 << 52), ((b >> 52) & 0x7ff) as i64 - 1075)
}

fn put(o: &mut Value, k: &[&str; 3], v: f64) {
    let (n, m, x) = parts(v);
    let o = o.as_object_mut().unwrap();
    o.insert(k[0].into(), n.into());
    o.insert(k[1].into(), limbs(m).into());
    o.insert(k[2].into(), x.into());
}

fn dec(c: &mut Ctx, d: u64, a: u32, neg: bool, last: i32) {
    let (mut d, mut a) = (d, a);
    while a > 0 && d % 10 == 0 {
        d /= 10;
        a -= 1;
    }
    let nd = d.to_string().len() as i32;
    let sp = nd - 1 - a as i32;
    if d == 0 || !(-10..9).contains(&sp) || a > 22 || nd > 15 {
        return;
    }
    let av: f64 = format!("{d}e-{a}").parse().unwrap();
    let v = if neg { -av } else { av };
    let mut o = json!({"ev":"dec","begin":1,"d":limbs(d),"nd":nd,"a":a,"last": if last == i32::MAX { -1 } else { last }, "erased":0});
    put(&mut o, &["neg", "m", "e"], v);
    let r = guard_ok(|| {
        let (alpha, bs) = e::get_alpha_and_beta_star(v, last);
        let f = e::get_f_alpha(alpha);
        let gsp = e::get_sp(av);
        let er = 52 - (f as i64 + parts(v).2 + 52);
        let mut rec = None;
        if bs < 16 && er > 4 && er <= 52 {
            let mask = u64::MAX << er;
            if !mask & v.to_bits() != 0 {
                let vp = f64::from_bits(v.to_bits() & mask);
                rec = Some((vp, e::recover(vp, bs), e::get_sp(vp.abs())));
            }
        }
        (alpha, bs, f, gsp, rec)
    });
    let m = o.as_object_mut().unwrap();
    m.insert("st".into(), r.st().into());
    m.insert("msg".into(), r.msg().into());
    if let Out::Ok((alpha, bs, f, gsp, rec)) = r {
        m.insert("alpha".into(), alpha.into());
        m.insert("bs".into(), bs.into());
        m.insert("f".into(), f.into());
        m.insert("sp".into(), gsp.into());
        if let Some((vp, rv, spp)) = rec {
            m.insert("erased".into(), 1.into());
            m.insert("spp".into(), spp.into());
            put(&mut o, &["pneg", "em", "pe"], vp);
            put(&mut o, &["rneg", "rm", "re"], rv);
        }
    }
    c.ev(o);
}

pub fn run(c: &mut Ctx) {
    if c.shard == 0 {
        for a in 0..=330u32 {
            let r = guard_ok(|| e::get_f_alpha(a));
            let f = if let Out::Ok(f) = &r { *f } else { 0 };
            c.ev(json!({"ev":"places","begin":1,"a":a,"f":f,"st":r.st(),"msg":r.msg()}));
        }
        for a in 0..=300u32 {
            let r = guard_ok(|| e::get_10i_n(a));
            let v = if let Out::Ok(v) = &r { *v } else { 1.0 };
            let mut o = json!({"ev":"pow","begin":1,"a":a,"st":r.st(),"msg":r.msg()});
            put(&mut o, &["neg", "m", "e"], v);
            c.ev(o);
        }
        // first places around every power of ten
        for i in -10i32..9 {
            let p: f64 = format!("1e{i}").parse().unwrap();
            for k in -3i64..=3 {
                let v = f64::from_bits((p.to_bits() as i64 + k) as u64);
                sp(c, v);
            }
            for k in 2..=9 {
                sp(c, p * k as f64);
                sp(c, p * k as f64 + p * 0.999999);
            }
        }
        // all decimals of at most two digits, all positive starts of the search
        for a in 0..=12u32 {
            for d in 1..100 {
                for last in [i32::MAX, 0, 1, 2] {
                    dec(c, d, a, d % 3 == 0, last);
                }
            }
        }
    }
    for _ in 0..c.n(12000, 60000) {
        let nd = c.rng.gen_range(1..=15u32);
        let lo = 10u64.pow(nd - 1);
        let d = match c.below(6) {
            0 => lo * c.rng.gen_range(1..10) + c.below(3) as u64,
            1 => (lo * 10 - 1) - c.below(5) as u64,
            _ => c.rng.gen_range(lo..lo * 10),
        };
        let a = match c.below(3) {
            0 => c.rng.gen_range(0..=nd.min(22)),
            1 => c.rng.gen_range(0..=4),
            _ => c.rng.gen_range(0..=22),
        };
        let last = match c.below(5) {
            0 => i32::MAX,
            1 => 0,
            2 => c.rng.gen_range(1..=17),
            3 => c.rng.gen_range(1..=nd as i32),
            _ => nd as i32,
        };
        let neg = c.chance(0.4);
        dec(c, d, a, neg, last);
    }
    for _ in 0..c.n(500, 5000) {
        let v = 10f64.powf(c.rng.gen_range(-10.0..9.0));
        if (1e-10..1e9).contains(&v) {
            sp(c, v);
        }
    }
    for _ in 0..c.n(1000, 10000) {
        let a = c.rng.gen_range(0..=22u32);
        let scale: f64 = format!("1e{a}").parse().unwrap();
        let k: f64 = match c.below(3) {
            0 => c.rng.gen_range(0.0f64..1000.0),
            1 => c.rng.gen_range(0u64..100000) as f64,
            _ => c.rng.gen_range(0u64..1 << 50) as f64 / 16.0,
        };
        let mut v = k / scale;
        if c.chance(0.3) {
            v = f64::from_bits(v.to_bits() + 1);
        } else if c.chance(0.3) && v > 0.0 {
            v = f64::from_bits(v.to_bits() & (u64::MAX << c.below(40)));
        }
        if v == 0.0 || v.is_subnormal() || v * scale >= (1u64 << 52) as f64 {
            continue;
        }
        if c.chance(0.4) {
            v = -v;
        }
        let r = guard_ok(|| e::round_up(v, a));
        let rv = if let Out::Ok(x) = &r { *x } else { 0.0 };
        let d = (rv.abs() * scale).round();
        let d = if d.is_finite() && d < 1e18 { d as u64 } else { 0 };
        let mut o = json!({"ev":"round","begin":1,"a":a,"d":limbs(d),"rz": (rv == 0.0) as i32,"st":r.st(),"msg":r.msg()});
        put(&mut o, &["neg", "m", "e"], v);
        put(&mut o, &["rneg", "rm", "re"], rv);
        c.ev(o);
    }
}

fn sp(c: &mut Ctx, v: f64) {
    if !(1e-10..1e9).contains(&v) {
        return;
    }
    let r = guard_ok(|| e::get_sp(v));
    let s = if let Out::Ok(s) = &r { *s } else { 99 };
    let mut o = json!({"ev":"sp","begin":1,"sp":s,"st":r.st(),"msg":r.msg()});
    put(&mut o, &["neg", "m", "e"], v);
    c.ev(o);
}
