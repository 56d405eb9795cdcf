//! C21: the precision chosen for a data set.
use crate::util::*;
use rand::Rng;
use serde_json::json;

fn digits(c: &mut Ctx, n: usize) -> String {
    (0..n).map(|_| (b'0' + c.below(10) as u8) as char).collect()
}

fn token(c: &mut Ctx, maxp: usize) -> String {
    let sign = c.pick(&["", "", "", "-", "+"]);
    let k = 1 + c.below(4);
    let mut int = digits(c, k);
    let frac = match c.below(4) {
        0 => String::new(),
        1 if c.chance(0.1) => ".".into(),
        _ => {
            let n = c.below(maxp + 1);
            if n == 0 { String::new() } else { format!(".{}", digits(c, n)) }
        }
    };
    if frac.len() > 1 && c.chance(0.05) {
        int.clear();
    }
    let exp = if c.chance(0.2) {
        let e = c.pick(&["e", "e", "E"]);
        let v = c.rng.gen_range(-(maxp as i64)..=4);
        let plus = if v >= 0 && c.chance(0.4) { "+" } else { "" };
        format!("{e}{plus}{v}")
    } else {
        String::new()
    };
    format!("{sign}{int}{frac}{exp}")
}

fn chars(s: &str) -> Vec<String> {
    s.chars().map(|x| x.to_string()).collect()
}

pub fn run(c: &mut Ctx) {
    for _ in 0..c.n(300, 4000) {
        // single tokens
        for _ in 0..8 {
            let t = token(c, 12);
            let r = guard_ok(|| experimenter::get_decimal_precision(&t));
            let p = if let Out::Ok(p) = &r { *p as i64 } else { -1 };
            c.ev(json!({"begin":1,"ev":"places","t":chars(&t),"st":r.st(),"p":p}));
        }
        // data sets: most tokens short, a share of them longer
        let n = match c.below(5) {
            0 => c.below(4),
            1 => 95 + c.below(12),
            2 => 195 + c.below(12),
            3 if c.chance(0.15) => 1000 + c.below(3000),
            _ => c.below(400),
        };
        let pat = c.pick(&[',', ',', ' ', ';']);
        let lo = c.below(4);
        let hi = lo + c.below(12);
        let share = c.pick(&[0.0, 0.004, 0.01, 0.015, 0.05, 0.5]);
        let mut toks = vec![];
        for _ in 0..n {
            let m = if c.chance(share) { hi } else { lo };
            toks.push(token(c, m));
        }
        let mut text = String::new();
        for (i, t) in toks.iter().enumerate() {
            text += t;
            if i + 1 < toks.len() || c.chance(0.5) {
                if c.chance(0.1) {
                    text.push(pat);
                }
                if c.chance(0.2) {
                    text += "\n";
                } else {
                    text.push(pat);
                }
            }
        }
        let tj: Vec<Vec<String>> = toks.iter().map(|t| chars(t)).collect();
        let s = guard(|| experimenter::get_appropriate_scale(text.as_bytes(), pat));
        let pe = guard(|| experimenter::get_appropriate_precision(text.as_bytes(), pat, true));
        let pa = guard(|| experimenter::get_appropriate_precision(text.as_bytes(), pat, false));
        // a scale is reported by its number of zeros; -1 if it is not a power of ten
        let sp = match &s {
            Out::Ok(v) => (0..10).find(|k| 10u32.pow(*k) == *v).map_or(-1, |k| k as i64),
            _ => -1,
        };
        let g = |x: &Out<u32>| if let Out::Ok(v) = x { *v as i64 } else { -1 };
        c.ev(json!({"begin":1,"ev":"set","toks":tj,"sst":s.st(),"scale":sp,"est":pe.st(),"exact":g(&pe),"ast":pa.st(),"approx":g(&pa)}));
    }
}
