//! Runs the real collect-stats on scratch directories and records what it reports.
use crate::util::Ctx;
use rand::Rng;
use serde_json::{json, Value};
use std::os::unix::process::CommandExt;
use std::process::Command;

/// decimal places as written for v / 10^p, in one of several forms
fn text(c: &mut Ctx, v: i64, p: u32) -> String {
    let sign = if v < 0 { "-" } else if c.chance(0.1) { "+" } else { "" };
    let a = v.unsigned_abs();
    let fixed = |k: u32| {
        let d = 10u64.pow(k);
        if k == 0 { format!("{a}") } else { format!("{}.{:0w$}", a / d, a % d, w = k as usize) }
    };
    let e = c.pick(&["e", "E"]);
    match c.below(8) {
        // a shifted point and an exponent that puts it back
        0 | 1 => {
            let k = c.below(6) as u32;
            let x = k as i64 - p as i64;
            let plus = if x >= 0 { c.pick(&["", "+"]) } else { "" };
            format!("{sign}{}{e}{plus}{x}", fixed(k))
        }
        2 => format!("{sign}{}{}", fixed(p), if p == 0 { ".".to_string() } else { String::new() } + &"0".repeat(c.below(5))),
        3 if p > 0 && a < 10u64.pow(p) => format!("{sign}{}", &fixed(p)[1..]),
        _ => format!("{sign}{}", fixed(p)),
    }
}

fn word(v: f64) -> Vec<u8> {
    v.to_bits().to_be_bytes().to_vec()
}

/// the nearest integer, far away for what is no number
fn near(v: &Value, f: impl Fn(f64) -> f64) -> i64 {
    match v.as_f64() {
        Some(x) if f(x).abs() < 2e9 => f(x).round() as i64,
        _ => 2_000_000_000,
    }
}

fn report(s: &Value, n: usize, unit: f64, shift: f64) -> Value {
    let (n1, m) = (n as f64, n.saturating_sub(1) as f64);
    let dist = |k: &str, u: f64, o: f64| {
        json!({"max": near(&s[format!("{k}_max")], |x| x), "min": near(&s[format!("{k}_min")], |x| x),
               "sum": near(&s[format!("{k}_avg")], |x| (x - o) * n1 * u), "spread": near(&s[format!("{k}_std")], |x| x * x * n1 * n1 * u * u)})
    };
    let zeros = |k: &str| near(&s[k], |x| if n < 2 { x } else { x * m * 100.0 });
    let w = |k: &str| word(s[k].as_f64().unwrap_or(f64::NAN));
    json!({"n": near(&s["num_values"], |x| x), "places": dist("decimal_precision", 1.0, 0.0), "exps": dist("exponent", 1.0, 0.0), "vals": dist("value", unit, if n == 0 { 0.0 } else { shift }),
           "maxw": w("value_max"), "minw": w("value_min"), "lead": zeros("xor_leading_zeros_avg"), "trail": zeros("xor_trailing_zeros_avg"),
           "dups": near(&s["non_unique_value_ratio"], |x| x * n1 * 100.0)})
}

pub fn run(c: &mut Ctx, outdir: &str, exe: &std::path::Path) {
    for rep in 0..c.n(150, 1500) {
        let dir = std::path::PathBuf::from(format!("{outdir}/stats_{}_{rep}", c.shard));
        let cwd = dir.join("cwd");
        std::fs::create_dir_all(&cwd).unwrap();
        let nested = c.chance(0.2);
        let files = c.pick(&[0usize, 1, 1, 2, 3, 5]);
        let mut evs = vec![];
        for k in 0..files {
            let n = match c.below(8) {
                0 => c.below(3),
                7 if c.chance(0.1) => 1000 + c.below(200),
                7 => 100 + c.below(200),
                _ => c.below(40),
            };
            let p = c.below(4) as u32;
            // far from zero the deviation stays the same (whole numbers, so that it is exact)
            let shift = if p == 0 && c.chance(0.5) { c.pick(&[1_000_000_000i64, -1_000_000_000, 4_000_000_000_000]) } else { 0 };
            let wide = shift == 0 && n <= 40 && c.chance(0.3);
            // many numbers stay small, so that sums of squares fit
            let span = if n > 40 { c.pick(&[1i64, 3, 20]) } else { c.pick(&[1i64, 5, 100, 1000]) };
            let base = if n > 40 { 0 } else { c.pick(&[0i64, 0, 900, -900]) };
            let (mut finite, mut nums, mut rows, mut row) = (1, vec![], vec![], vec![]);
            let mut last = String::new();
            for _ in 0..n {
                let (t, v) = if wide {
                    let x = match c.below(6) {
                        0 => c.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324]),
                        1 => c.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 2.0, -2.0, 1e22]),
                        2 => f64::from_bits(c.rng.gen::<u64>() & !(0x7ff << 52) | (c.rng.gen_range(1u64..2047) << 52)),
                        _ => c.rng.gen_range(-100000i32..100000) as f64 / 10f64.powi(c.rng.gen_range(0..5)),
                    };
                    finite &= x.is_finite() as i32;
                    (if c.chance(0.5) { format!("{x:e}") } else { format!("{x}") }, 0)
                } else {
                    // (no zero among many: its exponent is far out)
                    let v = (base + c.rng.gen_range(-span..=span)).clamp(-1000, 1000);
                    let v = if n > 40 && v == 0 { 1 } else { v };
                    (if shift == 0 { text(c, v, p) } else { format!("{}", shift + v) }, v)
                };
                // runs of one number
                let (t, v) = if !last.is_empty() && c.chance(0.15) { (last.clone(), nums.last().map_or(0, |x: &Value| x["v"].as_i64().unwrap())) } else { (t, v) };
                last = t.clone();
                let x: f64 = t.parse().unwrap();
                nums.push(json!({"t": t.chars().map(|x| x.to_string()).collect::<Vec<_>>(), "w": word(x), "v": v}));
                row.push(format!("{}{t}{}", c.pick(&["", "", " ", "\t"]), c.pick(&["", "", " "])));
                if c.chance(0.05) {
                    row.push(c.pick(&["", " "]).to_string());
                }
                if c.chance(0.15) {
                    rows.push(std::mem::take(&mut row));
                }
            }
            rows.push(row);
            let bad = c.chance(0.15);
            if bad {
                let r = c.below(rows.len());
                let i = c.below(rows[r].len() + 1);
                let t = c.pick(&["x", "1.2.3", "12a", "--1", "1e", "0x10", "1;2", "\u{fffd}", "1 2", "e", "E5", ".", "-"]);
                rows[r].insert(i, t.to_string());
            }
            let nl = c.pick(&["\n", "\n", "\r\n"]);
            let s = rows.iter().map(|r| r.join(",")).collect::<Vec<_>>().join(nl) + c.pick(&["", nl]);
            let bytes: Vec<u8> = s.chars().flat_map(|ch| if ch == '\u{fffd}' { vec![0xff] } else { ch.to_string().into_bytes() }).collect();
            let sub = if nested { format!("s{}/", c.below(2)) } else { String::new() };
            std::fs::create_dir_all(dir.join("in").join(&sub)).unwrap();
            let stem = format!("{k}{}", c.pick(&["d", "d.x", "d 1 ", "dé"]));
            let name = dir.join("in").join(format!("{sub}{stem}.csv"));
            let blocked = c.chance(0.05);
            if blocked {
                std::fs::create_dir_all(&name).unwrap();
            } else {
                std::fs::write(&name, &bytes).unwrap();
            }
            evs.push((stem, nums, !bad && !blocked, finite, !wide, 10f64.powi(p as i32), shift as f64));
        }
        // a result of an earlier run may be there
        if c.chance(0.3) {
            std::fs::write(cwd.join("stats.json"), "{\"old\": {\"num_values\": 3}}".repeat(c.pick(&[1usize, 400]))).unwrap();
        }
        let goods = evs.iter().filter(|e| e.2).count();
        let room = !(goods > 0 && c.chance(0.05));
        let mut cmd = Command::new(exe);
        cmd.arg(format!("{}/in/{}.csv", dir.display(), if nested { "*/*" } else { "*" })).current_dir(&cwd).stdin(std::process::Stdio::null());
        if !room {
            let l = c.below(300) as u64;
            unsafe {
                cmd.pre_exec(move || {
                    let r = libc::rlimit { rlim_cur: l, rlim_max: l };
                    if libc::setrlimit(libc::RLIMIT_FSIZE, &r) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    Ok(())
                });
            }
        }
        let o = cmd.output().expect("run collect-stats");
        let js: Value = std::fs::read(cwd.join("stats.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
        let err = String::from_utf8_lossy(&o.stderr).chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect::<String>();
        c.ev(json!({"begin":1,"ev":"run","st": if o.status.success() {"ok"} else {"failed"},"room":room as u8,"goods":goods,
            "entries": js.as_object().map_or(-1, |m| m.len() as i64), "msg": err}));
        if room {
            for (stem, nums, good, finite, small, unit, shift) in evs {
                let have = js.get(&stem).is_some();
                let stats = report(&js[&stem], nums.len(), unit, shift);
                c.ev(json!({"begin":1,"ev":"stats","file":stem,"good":good as u8,"finite":finite,"small":small as u8,"nums":nums,"have":have as u8,"stats":stats}));
            }
        }
        std::fs::remove_dir_all(&dir).unwrap();
    }
}
