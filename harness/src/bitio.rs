//! C13: random and boundary-directed histories of the bit writer and reader.
use crate::util::*;
use ebi::io::bit_read::{BitRead2, BufferedBitReader};
use ebi::io::bit_write::{BitWrite, BufferedBitWriter};
use rand::Rng;
use serde_json::json;

fn width(c: &mut Ctx) -> u32 {
    match c.below(4) {
        0 => c.pick(&[1u32, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64]),
        1 => c.pick(&[64, 63, 57, 56, 55]),
        _ => c.rng.gen_range(1..=64),
    }
}

fn value(c: &mut Ctx) -> u64 {
    match c.below(5) {
        0 => u64::MAX,
        1 => 0,
        2 => 1u64 << c.below(64),
        _ => c.rng.gen(),
    }
}

pub fn run(c: &mut Ctx) {
    let eps = c.n(60, 400);
    for ep in 0..eps {
        episode(c, ep);
    }
}

fn episode(c: &mut Ctx, ep: usize) {
    let how = c.below(3);
    c.ev(json!({"begin":1,"ev":"begin","st":"ok","ep":ep,"how":how}));
    let mut w = match how {
        0 => BufferedBitWriter::new(),
        1 => BufferedBitWriter::with_capacity(c.below(40)),
        _ => {
            let junk: Vec<u8> = (0..c.below(20)).map(|_| c.rng.gen()).collect();
            BufferedBitWriter::from_vec(junk)
        }
    };
    let limit = if c.chance(0.2) { 1500 } else { 260 };
    let steps = c.rng.gen_range(4..30);
    for _ in 0..steps {
        let cur = w.number_of_bits_written();
        let op = c.below(12);
        let (name, n, bits) = if op < 2 {
            ("bit", 1u32, value(c) & 1)
        } else if op < 4 {
            ("byte", 8, c.rng.gen::<u8>() as u64)
        } else if op < 9 {
            ("bits", width(c), value(c))
        } else if op < 11 {
            let k = if c.chance(0.6) { c.below(cur + 1) } else { cur + c.below(40) };
            ("cursor", k as u32, 0)
        } else if c.chance(0.3) {
            ("reset", 0, 0)
        } else {
            ("bits", 64, value(c))
        };
        if cur > limit && name != "cursor" && name != "reset" {
            continue;
        }
        let r = guard_ok(|| {
            // the blanket impl for &mut W and the direct one must agree; alternate
            match name {
                "bit" => w.write_bit(bits & 1 == 1),
                "byte" => w.write_byte(bits as u8),
                "bits" => {
                    if bits & 1 == 0 {
                        w.write_bits(bits, n)
                    } else {
                        let mut r = &mut w;
                        BitWrite::write_bits(&mut r, bits, n)
                    }
                }
                "cursor" => w.set_cursor_at_in_bit(n as usize),
                _ => w.reset(),
            }
            (w.number_of_bits_written(), w.as_slice().to_vec())
        });
        let st = r.st();
        let (len, bytes) = if let Out::Ok(x) = r { x } else { (0, vec![]) };
        let e = match name {
            "bit" | "byte" | "bits" => json!({"ev":"write","op":name,"st":st,"n":n,"bits":bits64(bits),"len":len,"bytes":bytes}),
            "cursor" => json!({"ev":"cursor","st":st,"n":n,"len":len,"bytes":bytes}),
            _ => json!({"ev":"reset","st":st,"len":len,"bytes":bytes}),
        };
        c.ev(e);
        if st != "ok" {
            return;
        }
    }
    // read back: the writer's own bytes, or an arbitrary byte string
    let own = c.chance(0.7);
    let bytes: Vec<u8> = if own {
        if c.chance(0.5) { w.as_slice().to_vec() } else { w.close().to_vec() }
    } else {
        (0..c.below(30)).map(|_| c.rng.gen()).collect()
    };
    c.ev(json!({"ev":"open","st":"ok","own":own as u8,"bytes":bytes}));
    let total = bytes.len() * 8;
    let mut r = BufferedBitReader::new(bytes);
    let mut pos = 0usize;
    for _ in 0..c.rng.gen_range(5..40) {
        let left = total.saturating_sub(pos);
        // aim at the end of the stream often
        let n = match c.below(5) {
            0 if left >= 1 && left <= 64 => left as u32,
            1 if left < 64 => left as u32 + 1,
            _ => width(c),
        };
        let op = c.below(12);
        let mut by_ref = c.chance(0.3);
        if op == 9 || op == 10 {
            by_ref = false;
        }
        let res = guard_ok(|| {
            if by_ref {
                let mut rr = &mut r;
                read_op(&mut rr, op, n)
            } else if op == 9 || op == 10 {
                r.skip_bits(n as usize % 40);
                ("skip", n % 40, None)
            } else if op == 11 {
                r.reset();
                ("rewind", 0, None)
            } else {
                read_op(&mut r, op, n)
            }
        });
        match res {
            Out::Ok(("skip", n, _)) => {
                pos += n as usize;
                c.ev(json!({"ev":"skip","st":"ok","n":n}))
            }
            Out::Ok(("rewind", _, _)) => {
                pos = 0;
                c.ev(json!({"ev":"rewind","st":"ok"}))
            }
            Out::Ok((name, n, v)) => {
                let out: Vec<i64> = match v {
                    None => vec![-1],
                    // bits above the n-th must be zero: report them as an extra element
                    Some(v) if n < 64 && v >> n != 0 => vec![-2],
                    Some(v) => bits_n(v, n).iter().map(|b| *b as i64).collect(),
                };
                if name == "read" && v.is_some() {
                    pos += n as usize;
                }
                c.ev(json!({"ev":name,"st":"ok","n":n,"out":out}))
            }
            o => {
                c.ev(json!({"ev":"read","st":o.st(),"op":op,"n":n,"msg":o.msg()}));
                return;
            }
        }
    }
}

fn read_op<R: BitRead2>(r: &mut R, op: usize, n: u32) -> (&'static str, u32, Option<u64>) {
    match op {
        0 | 1 => ("read", 1, r.read_bit().map(|b| b as u64)),
        2 | 3 => ("read", 8, r.read_byte().map(|b| b as u64)),
        4 | 5 => ("peek", n, r.peak_bits(n as u8)),
        _ => ("read", n, r.read_bits(n as u8)),
    }
}
