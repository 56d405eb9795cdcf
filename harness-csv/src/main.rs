//! Recorder: runs the real csv2bin and collect-stats on scratch directories and writes traces for TLC.
//! usage: ebivcsv csv|stats <outdir> <shards> <seed> <quick|thorough> [scenario-file]
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;
mod stats;

use rand::Rng;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::os::unix::process::CommandExt;
use std::process::Command;
use util::Ctx;

/// a number and a way to write it
fn number(c: &mut Ctx) -> (f64, String) {
    let v = match c.below(7) {
        0 => c.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        1 => f64::from_bits(c.rng.gen::<u64>() & !(0x7ff << 52) | (c.rng.gen_range(1u64..2047) << 52)),
        2 => c.rng.gen_range(-1000i32..1000) as f64,
        _ => c.rng.gen_range(-100000i32..100000) as f64 / 10f64.powi(c.rng.gen_range(0..5)),
    };
    // every text below denotes v: shortest round-trip form, exponent form, with sign
    let s = match c.below(4) {
        0 => format!("{v:e}"),
        1 => format!("{v:?}"),
        2 if v.is_finite() && v > 0.0 => format!("+{v}"),
        _ => format!("{v}"),
    };
    (v, s)
}

fn lines(c: &mut Ctx, n: usize, bad: bool, ids: &mut HashMap<u64, i64>) -> (Vec<u8>, Vec<Vec<Value>>) {
    let mut rows: Vec<Vec<(Value, String)>> = vec![];
    let mut left = n;
    let wide = c.pick(&[0usize, 0, 0, 0, 0, 8, 60, 300]);
    let one = n > 1500 && c.chance(0.3);
    while left > 0 || (rows.is_empty() && c.chance(0.5)) {
        let w = c.pick(&[1usize, 1, 2, 3, 8, 50, 700]).max(if one { n } else { 0 }).min(left);
        let mut row = vec![];
        for _ in 0..w {
            if c.chance(0.1) {
                row.push((json!(["empty", 0]), String::new()));
            }
            let (v, s) = number(c);
            let k = ids.len() as i64 + 1;
            let id = *ids.entry(v.to_bits()).or_insert(k);
            let (a, b) = (c.pick(&["", "", "", " ", "\t"]), c.pick(&["", "", "", " "]));
            // padded to a column width, or with many zeros
            let (a, b) = (if wide > 0 { " ".repeat(c.below(wide)) + a } else { a.to_string() }, if wide > 0 && c.chance(0.5) { " ".repeat(c.below(wide)) } else { b.to_string() });
            row.push((json!(["num", id]), format!("{a}{s}{b}")));
        }
        if c.chance(0.1) {
            row.push((json!(["empty", 0]), String::new()));
        }
        left -= w;
        rows.push(row);
        if c.chance(0.05) {
            rows.push(vec![(json!(["empty", 0]), String::new())]);
        }
        if w == 0 {
            break;
        }
    }
    if bad {
        let r = c.below(rows.len().max(1));
        if rows.is_empty() {
            rows.push(vec![]);
        }
        let k = c.below(rows[r].len() + 1);
        let t = c.pick(&["x", "1.2.3", "12a", "--1", "1e", "0x10", "1;2", "\u{fffd}", " ", "\t", "1 2", "1_0", "\"1\"", "1f", "nul", "in", "ee"]);
        // a field of blanks is no number, however long
        let t = if t == " " { t.repeat(c.pick(&[1usize, 2, 40, 300])) } else { t.to_string() };
        rows[r].insert(k, (json!(["bad", 0]), t));
    }
    let nl = c.pick(&["\n", "\n", "\n", "\r\n"]);
    let last = c.chance(0.7);
    let mut text = vec![];
    let m = rows.len();
    for (i, r) in rows.iter().enumerate() {
        let s: Vec<&str> = r.iter().map(|x| x.1.as_str()).collect();
        // U+FFFD stands for a byte that is no UTF-8
        for ch in s.join(",").chars() {
            if ch == '\u{fffd}' {
                text.push(0xff);
            } else {
                let mut b = [0; 4];
                text.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
            }
        }
        if i + 1 < m || last {
            text.extend_from_slice(nl.as_bytes());
        }
    }
    (text, rows.into_iter().map(|r| r.into_iter().map(|x| x.0).collect()).collect())
}

fn run(c: &mut Ctx, outdir: &str, exe: &std::path::Path) {
    let reps = c.n(200, 1500);
    for rep in 0..reps {
        let dir = std::path::PathBuf::from(format!("{outdir}/csv_{}_{rep}", c.shard));
        std::fs::create_dir_all(&dir).unwrap();
        let files = c.pick(&[1usize, 1, 2, 4]);
        let nested = c.chance(0.2);
        let mut ids = HashMap::new();
        let mut evs = vec![];
        let mut total = 0;
        for k in 0..files {
            let n = match c.below(6) {
                0 => c.below(4),
                1..=3 => c.below(60),
                // more than one buffer of the output
                4 => 1000 + c.below(60),
                _ => c.below(3000),
            };
            let bad = c.chance(0.3);
            let (text, rows) = lines(c, n, bad, &mut ids);
            // directories of their own, dots, spaces and other letters in the names
            let sub = if nested { format!("s{}/", c.below(3)) } else { String::new() };
            std::fs::create_dir_all(dir.join(&sub)).unwrap();
            let stem = c.pick(&["d", "d", "d", "d.x", "d 1 ", "d.csv", "dé", "d.tar.bin"]);
            let (stem, ext) = (format!("{sub}{k}{stem}"), if k == 0 || c.chance(0.9) { ".csv" } else { ".txt.csv" });
            let name = format!("{stem}{ext}");
            let bin = format!("{sub}binary/{}.bin", name[sub.len()..].strip_suffix(".csv").unwrap());
            // the text cannot be read, or the output cannot be created
            let blocked = if c.chance(0.04) { 1 + c.below(2) } else { 0 };
            if blocked == 1 {
                std::fs::create_dir_all(dir.join(&name)).unwrap();
            } else {
                std::fs::write(dir.join(&name), &text).unwrap();
            }
            if blocked == 2 {
                std::fs::create_dir_all(dir.join(&bin)).unwrap();
            }
            // an output of an earlier run may be there
            let old = blocked != 2 && c.chance(0.3);
            if old {
                std::fs::create_dir_all(dir.join(&sub).join("binary")).unwrap();
                let m = c.pick(&[200usize, 200, 30000]);
                let m = c.below(m);
                std::fs::write(dir.join(&bin), vec![7u8; m]).unwrap();
            }
            total = total.max(n);
            evs.push((name, rows, old, bin, blocked));
        }
        // a limit on the size of a file makes writes beyond it fail
        let limit: i64 = match c.below(4) {
            0 if total > 0 => c.below(8 * total + 9) as i64,
            1 if total > 0 => 8 * total as i64 - c.below(9) as i64,
            _ => -1,
        };
        let mut cmd = Command::new(exe);
        cmd.arg(format!("{}/{}.csv", dir.display(), if nested { "*/*" } else { "*" })).stdin(std::process::Stdio::null());
        if limit >= 0 {
            let l = limit as u64;
            unsafe {
                cmd.pre_exec(move || {
                    let r = libc::rlimit { rlim_cur: l, rlim_max: l };
                    if libc::setrlimit(libc::RLIMIT_FSIZE, &r) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    Ok(())
                });
            }
        }
        let o = cmd.output().expect("run csv2bin");
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        for (name, rows, old, bin, blocked) in evs {
            let p = dir.join(&name);
            let failed = err.contains(&format!("{}", p.display())) || !o.status.success();
            let bin = dir.join(&bin);
            let out = std::fs::read(&bin).ok();
            let (have, oids, rest) = match &out {
                None => (0, vec![], 0),
                Some(b) => (
                    1,
                    b.chunks_exact(8).map(|x| ids.get(&u64::from_le_bytes(x.try_into().unwrap())).copied().unwrap_or(0)).collect::<Vec<i64>>(),
                    b.len() % 8,
                ),
            };
            c.ev(json!({"begin":1,"ev":"csv","file":name,"rows":rows,"limit":limit,"blocked":blocked,"old":old as u8,
                "st": if failed {"failed"} else {"ok"}, "have":have, "out":oids, "rest":rest, "msg": err.chars().take(200).collect::<String>()}));
        }
        std::fs::remove_dir_all(&dir).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 || !["csv", "stats"].contains(&a[1].as_str()) {
        eprintln!("usage");
        std::process::exit(3);
    }
    let shards: usize = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let thorough = a[5] == "thorough";
    let exe = std::env::current_exe().unwrap().with_file_name(if a[1] == "csv" { "csv2bin" } else { "collect-stats" });
    let kind = a[1].clone();
    let hs: Vec<_> = (0..shards)
        .map(|i| {
            let (out, exe, kind) = (a[2].clone(), exe.clone(), kind.clone());
            std::thread::spawn(move || {
                let mut c = Ctx::new(&out, i, shards, seed, thorough, vec![]);
                if kind == "csv" { run(&mut c, &out, &exe) } else { stats::run(&mut c, &out, &exe) }
            })
        })
        .collect();
    util::join_all(hs);
}
