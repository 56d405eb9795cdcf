//! C24: runs the real experimenter on scratch data sets and records what it reports.
use crate::util::Ctx;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;

pub const FAR: i64 = 2_000_000_000;
const CMDS: [&str; 6] = ["compress", "filter", "filter_materialize", "materialize", "max", "sum"];

fn kind(cmd: &str) -> &'static str {
    match cmd {
        "compress" => "Compress",
        "filter" => "Filter",
        "filter_materialize" => "FilterMaterialize",
        "materialize" => "Materialize",
        "max" => "Max",
        _ => "Sum",
    }
}

pub struct World {
    pub dir: PathBuf,
    pub exe: PathBuf,
    pub stems: Vec<String>,
    pub vals: Vec<Vec<i64>>,
    pub step: f64,
    pub names: HashMap<u64, i64>,
    /// records per chunk of the compressed file, 0: there is none
    pub k: Vec<usize>,
    /// what it was made from
    pub held: Vec<Vec<i64>>,
    /// chunks can be asked for
    pub by_count: Vec<bool>,
    pub cfgs: usize,
}

/// integers that keep the doubles' order
impl World {
    pub fn val(&self, i: i64) -> f64 {
        i as f64 * self.step
    }
    fn name(&self, v: f64) -> i64 {
        *self.names.get(&v.to_bits()).unwrap_or(&FAR)
    }
    pub fn bin(&self, f: usize, ext: &str) -> PathBuf {
        self.dir.join("bin").join(format!("{}.{ext}", self.stems[f]))
    }
    fn doubles(&self, p: &Path) -> Vec<i64> {
        let b = std::fs::read(p).unwrap_or_default();
        let mut v: Vec<i64> = b.chunks_exact(8).map(|x| self.name(f64::from_le_bytes(x.try_into().unwrap()))).collect();
        if b.len() % 8 != 0 || !p.exists() {
            v.push(FAR);
        }
        v
    }
    pub fn config(&mut self, text: &str) -> PathBuf {
        self.cfgs += 1;
        let p = self.dir.join(format!("cfg{}.json", self.cfgs));
        std::fs::write(&p, text).unwrap();
        p
    }
    /// everything of one file that a run may only add to
    fn image(&self, f: usize) -> BTreeMap<PathBuf, Vec<u8>> {
        fn walk(d: &Path, m: &mut BTreeMap<PathBuf, Vec<u8>>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, m);
                } else {
                    m.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
                }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.dir.join("result").join(&self.stems[f]), &mut m);
        for x in ["bin", "ebi"] {
            let p = self.bin(f, x);
            if let Ok(b) = std::fs::read(&p) {
                m.insert(p, b);
            }
        }
        m
    }
    pub fn start(&self, args: &[String], limit: Option<u64>) -> (bool, String, String) {
        let mut cmd = Command::new(&self.exe);
        cmd.args(args).current_dir(self.dir.join("cwd")).stdin(std::process::Stdio::null());
        if let Some(l) = limit {
            unsafe {
                cmd.pre_exec(move || {
                    let r = libc::rlimit { rlim_cur: l, rlim_max: l };
                    if libc::setrlimit(libc::RLIMIT_FSIZE, &r) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    Ok(())
                });
            }
        }
        let o = cmd.output().expect("run the experimenter");
        (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
    }
}

fn status(p: &Path, out: &str, err: &str) -> &'static str {
    let done = out.lines().any(|l| l.ends_with(&format!("Finished processing file: {}", p.display())));
    let failed = err.contains(&format!("Failed to process file {}:", p.display()));
    match (done, failed) {
        (true, false) => "ok",
        (false, true) => "failed",
        _ => "none",
    }
}

/// numbers outside of strings, as written
pub fn numbers(s: &str) -> Vec<String> {
    let (mut v, mut cur, mut quoted) = (vec![], String::new(), false);
    for ch in s.chars() {
        if ch == '"' {
            quoted = !quoted;
        }
        if !quoted && (ch.is_ascii_digit() || "+-.eE".contains(ch)) && (!cur.is_empty() || ch == '-' || ch.is_ascii_digit()) {
            cur.push(ch);
        } else if !cur.is_empty() {
            v.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

/// the JSON reader changes this constant (listed finding)
fn changed(t: &str) -> bool {
    let x: f64 = t.parse().unwrap();
    serde_json::from_str::<f64>(t).map_or(true, |y| y.to_bits() != x.to_bits())
}

pub fn whole(v: &Value, f: impl Fn(f64) -> f64) -> i64 {
    match v.as_f64() {
        Some(x) if f(x).abs() < 1.9e9 => f(x).round() as i64,
        _ => FAR,
    }
}

/// what one result says, with every field the specification may look at
pub fn report(w: &World, js: &Value, f: usize, cmd: &str, mem: bool, cfg: &Path, input: &Path) -> Value {
    let cs = &js["command_specific"];
    let rs = js["result_string"].as_str().unwrap_or("");
    let raw = cs["uncompressed_size"].as_f64().unwrap_or(0.0);
    let digits = |s: &str| s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse::<i64>().unwrap_or(FAR).min(FAR);
    let (mut listed, mut ids, mut count) = (0, vec![], -1);
    if cmd == "filter" {
        let nums: Vec<i64> = rs.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap_or(FAR)).collect();
        if rs.contains('[') {
            (listed, count, ids) = (1, nums.len() as i64, nums);
        } else if nums.len() == 3 {
            (count, ids) = (nums[0], nums[1..].to_vec());
        }
    }
    let value = rs.parse::<f64>().map_or(FAR, |x| if cmd == "sum" { if x.abs() < 1.9e9 && x.fract() == 0.0 { x as i64 } else { FAR } } else { w.name(x) });
    let _ = f;
    json!({
        "mem": i32::from(js["in_memory"] == json!(true)), "path": i32::from(js["config_path"] == json!(cfg.display().to_string())),
        "input": i32::from(js["input_filename"] == json!(input.display().to_string())), "type": i32::from(js["command_type"] == json!(kind(cmd)) && js["in_memory"] == json!(mem)),
        "conf": js["compression_config"].to_string(), "query": if cmd == "compress" { String::new() } else { cs.to_string() },
        "n": if cmd == "compress" { digits(rs) } else { -1 }, "raw": whole(&cs["uncompressed_size"], |x| x), "size": whole(&cs["compressed_size"], |x| x),
        "area": whole(&cs["compressed_size_chunk_only"], |x| x), "ratio": whole(&cs["compression_ratio"], |x| x * raw), "arearatio": whole(&cs["compression_ratio_chunk_only"], |x| x * raw),
        "count": count, "listed": listed, "ids": ids, "bytes": if rs.starts_with("bytes: ") { digits(rs) } else { -1 }, "value": value,
    })
}

/// one run over the given files: (exit, bad, on)
#[allow(clippy::too_many_arguments)]
fn run_cmd(c: &mut Ctx, w: &World, cmd: &str, mem: bool, cfg: &Path, on: &[usize], all: bool) -> Value {
    let ext = if cmd == "compress" { "bin" } else { "ebi" };
    let before: Vec<_> = on.iter().map(|&f| w.image(f)).collect();
    // a file that cannot be processed, before or after the others
    let mut bads: Vec<PathBuf> = vec![];
    if all && c.chance(0.3) {
        let p = w.dir.join("bin").join(format!("{}bad.{ext}", c.pick(&["0", "zz"])));
        if ext == "bin" || c.chance(0.3) {
            let _ = std::os::unix::fs::symlink(w.dir.join("nowhere"), &p);
        } else {
            let n = c.pick(&[0usize, 10, 30, 100, 400]);
            let b: Vec<u8> = match c.below(3) {
                0 => vec![0; n],
                1 => (0..n).map(|_| c.rng.gen()).collect(),
                _ => std::fs::read(w.bin(on[0], ext)).map_or(vec![], |mut b| {
                    b.truncate(b.len() / 2);
                    b
                }),
            };
            std::fs::write(&p, b).unwrap();
        }
        bads.push(p);
    }
    let pat = if all { w.dir.join("bin").join(format!("*.{ext}")) } else { w.bin(on[0], ext) };
    let mut args = vec!["-i".to_string(), pat.display().to_string(), cmd.replace('_', "-"), "-c".into(), cfg.display().to_string()];
    if mem || c.chance(0.3) {
        args.extend(["-i".to_string(), mem.to_string()]);
    }
    let (ok, out, err) = w.start(&args, None);
    let bad: Vec<Value> = bads
        .iter()
        .map(|p| {
            let d = w.dir.join("result").join(p.file_stem().unwrap()).join(cmd);
            let r = std::fs::read_dir(d).map_or(0, |x| x.count());
            json!({"st": status(p, &out, &err), "results": r})
        })
        .collect();
    for p in &bads {
        std::fs::remove_file(p).unwrap();
        // what a run on the bad file left beside it
        for x in ["ebi", "materialized", "filter_materialized"] {
            let _ = std::fs::remove_file(p.with_extension(x));
        }
    }
    let mut res = vec![];
    for (&f, old) in on.iter().zip(before) {
        let new = w.image(f);
        let input = w.bin(f, ext);
        let mut kept = 1;
        let mut fresh = vec![];
        let mut js = Value::Null;
        for (p, b) in &old {
            if new.get(p) != Some(b) && !(cmd == "compress" && *p == w.bin(f, "ebi")) {
                kept = 0;
            }
        }
        for (p, b) in &new {
            if old.contains_key(p) || *p == w.bin(f, "ebi") {
                continue;
            }
            let name = p.file_name().unwrap().to_string_lossy().into_owned();
            if p.parent() != Some(&w.dir.join("result").join(&w.stems[f]).join(cmd)) || name.len() != 8 || !name.ends_with(".json") {
                kept = 0;
                continue;
            }
            fresh.push(name[..3].parse::<i64>().unwrap_or(-1));
            js = serde_json::from_slice(b).unwrap_or(Value::Null);
        }
        let outp = match cmd {
            "compress" => None,
            "materialize" => Some("materialized"),
            "filter_materialize" => Some("filter_materialized"),
            _ => None,
        };
        let vals: Vec<i64> = match outp {
            Some(x) if !mem => w.doubles(&w.bin(f, x)),
            _ if cmd == "compress" => {
                // what the compressed file holds, read by the library
                let mut b = vec![];
                let r = (|| -> anyhow::Result<()> {
                    let mut d = ebi::api::decoder::Decoder::new(ebi::api::decoder::DecoderInput::from_file(w.bin(f, "ebi"))?)?;
                    let mut o = ebi::api::decoder::DecoderOutput::from_writer(std::io::Cursor::new(&mut b));
                    d.materialize(&mut o, None, None)?;
                    Ok(())
                })();
                if r.is_err() { vec![FAR] } else { b.chunks_exact(8).map(|x| w.name(f64::from_le_bytes(x.try_into().unwrap()))).collect() }
            }
            _ => vec![],
        };
        res.push(json!({"f": f + 1, "st": status(&input, &out, &err), "kept": kept, "fresh": fresh, "rep": report(w, &js, f, cmd, mem, cfg, &input),
            "len": std::fs::metadata(w.bin(f, "ebi")).map_or(-1, |m| m.len() as i64), "foot": std::fs::read(w.bin(f, "ebi")).map_or(-1, |b| b.get(16..24).map_or(-1, |x| i64::from_le_bytes(x.try_into().unwrap()).min(FAR))), "out": vals}));
    }
    json!({"exit": i32::from(!ok), "bad": bad, "on": res, "msg": err.chars().take(300).collect::<String>()})
}

pub fn no_query() -> Value {
    json!({"pred":{"kind":"Any","lo":0,"lok":"None","hi":0,"hik":"None"},"chunk":-1,"masked":0,"mask":[]})
}

fn compress(c: &mut Ctx, w: &mut World, m: usize, first: bool) {
    // by the whole: the lossless codecs, and the quantizing one on what it keeps
    let mut codecs = vec!["Uncompressed", "RLE", "Gorilla", "Chimp", "Chimp128", "ElfOnChimp", "Elf", "Zstd", "Gzip", "Snappy"];
    if w.step == 1.0 {
        codecs.push("DeltaSprintz");
    }
    let codec = if w.vals.len() == 1 && w.vals[0].len() >= 500 && c.chance(0.5) { "Uncompressed" } else { c.pick(&codecs) };
    let k = c.pick(&[1usize, 2, 3, 7, 16, 1000]);
    let (opt, k, by_count) = match m / 2 {
        0 => (json!({ "RecordCount": k }), k, true),
        _ if c.chance(0.5) => (json!("Full"), 1_000_000, true),
        _ => (json!({"ByteSizeBestEffort": 8 * k.max(2)}), 1_000_000, false),
    };
    let b = match codec {
        "Uncompressed" => ebi::compressor::CompressorConfig::uncompressed().build().into(),
        "RLE" => ebi::compressor::CompressorConfig::rle().build().into(),
        "Gorilla" => ebi::compressor::CompressorConfig::gorilla().build().into(),
        "Chimp" => ebi::compressor::CompressorConfig::chimp().build().into(),
        "Chimp128" => ebi::compressor::CompressorConfig::chimp128().build().into(),
        "ElfOnChimp" => ebi::compressor::CompressorConfig::elf_on_chimp().build().into(),
        "Elf" => ebi::compressor::CompressorConfig::elf().build().into(),
        "Zstd" => ebi::compressor::CompressorConfig::zstd().build().into(),
        "Gzip" => ebi::compressor::CompressorConfig::gzip().build().into(),
        "Snappy" => ebi::compressor::CompressorConfig::snappy().build().into(),
        _ => ebi::compressor::CompressorConfig::delta_sprintz().scale(c.pick(&[1u64, 10, 1000])).build().into(),
    };
    let b: ebi::compressor::CompressorConfig = b;
    let conf = json!({"chunk_option": opt, "compressor_config": serde_json::to_value(b).unwrap()});
    let p = w.config(&conf.to_string());
    let all = first || c.chance(0.6);
    let on: Vec<usize> = if all { (0..w.stems.len()).collect() } else { vec![c.below(w.stems.len())] };
    let mem = m % 2 == 1;
    // room for the report, but not for all of the compressed file
    if on.len() == 1 && codec == "Uncompressed" && w.vals[on[0]].len() >= 500 {
        let f = on[0];
        let l = c.rng.gen_range(3900..8 * w.vals[f].len() as u64 + 200);
        let mut args = vec!["-i".to_string(), w.bin(f, "bin").display().to_string(), "compress".into(), "-c".into(), p.display().to_string()];
        if mem {
            args.extend(["-i".to_string(), "true".to_string()]);
        }
        let (_, out, err) = w.start(&args, Some(l));
        c.ev(json!({"ev":"noroom","st": status(&w.bin(f, "bin"), &out, &err), "limit": l}));
    }
    let mut r = run_cmd(c, w, "compress", mem, &p, &on, all);
    for f in on {
        w.k[f] = k;
        w.held[f] = w.vals[f].clone();
        w.by_count[f] = by_count;
    }
    fill(&mut r, "compress", mem, conf.to_string(), k, String::new(), no_query(), w.step == 1.0, false);
    c.ev(r);
}

#[allow(clippy::too_many_arguments)]
fn fill(r: &mut Value, cmd: &str, mem: bool, conf: String, k: usize, query: String, q: Value, whole: bool, ulp: bool) {
    let o = r.as_object_mut().unwrap();
    for (n, v) in [("ev", json!("cmd")), ("cmd", json!(cmd)), ("mem", json!(i32::from(mem))), ("conf", json!(conf)), ("k", json!(k)), ("query", json!(query)), ("q", q),
                   ("whole", json!(i32::from(whole))), ("ulp", json!(i32::from(ulp)))] {
        o.insert(n.to_string(), v);
    }
}

/// a query configuration: its text and its meaning
fn query(c: &mut Ctx, w: &World, cmd: &str, on: &[usize]) -> (Value, Value, bool) {
    let (mut j, mut q, mut ulp) = (json!({}), no_query(), false);
    if cmd.starts_with("filter") {
        let konst = |c: &mut Ctx| {
            let f = c.pick(on);
            if w.held[f].is_empty() || c.chance(0.2) { c.rng.gen_range(-60i64..60) } else { c.pick(&w.held[f]) + c.pick(&[0, 0, 0, 1, -1]) }
        };
        let (a, b) = (konst(c), konst(c));
        let mut num = |i: i64| {
            ulp |= changed(&serde_json::to_string(&w.val(i)).unwrap());
            w.val(i)
        };
        match c.below(6) {
            0 => {
                j["predicate"] = json!({"type":"Eq","predicate":num(a)});
                q["pred"]["kind"] = json!("Eq");
                q["pred"]["lo"] = json!(a);
            }
            1 => {
                j["predicate"] = json!({"type":"Ne","predicate":num(a)});
                q["pred"]["kind"] = json!("Ne");
                q["pred"]["lo"] = json!(a);
            }
            _ => {
                let (lo, hi) = if c.chance(0.8) { (a.min(b), a.max(b)) } else { (a, b) };
                let kinds = ["None", "Inclusive", "Exclusive"];
                let (lk, hk) = (c.pick(&kinds), c.pick(&kinds));
                let mut side = |k: &str, v: i64| if k == "None" { json!("None") } else { json!({ k: num(v) }) };
                j["predicate"] = json!({"type":"Range","predicate":{"start": side(lk, lo), "end": side(hk, hi)}});
                q["pred"] = json!({"kind":"Range","lo":lo,"lok":lk,"hi":hi,"hik":hk});
            }
        }
    }
    // a chunk that every file has
    let chunks = on.iter().map(|&f| if w.by_count[f] { w.held[f].len().div_ceil(w.k[f]) } else { 0 }).min().unwrap();
    j["chunk_id"] = Value::Null;
    j["bitmask"] = Value::Null;
    if chunks > 0 && c.chance(0.3) {
        let n = c.below(chunks);
        j["chunk_id"] = json!(n);
        q["chunk"] = json!(n);
    }
    let len = on.iter().map(|&f| w.held[f].len()).min().unwrap();
    if c.chance(0.4) {
        let p = c.pick(&[0.0, 0.1, 0.5, 1.0]);
        let m: Vec<usize> = (0..len).filter(|_| c.chance(p)).collect();
        j["bitmask"] = json!(m);
        q["masked"] = json!(1);
        q["mask"] = json!(m);
    }
    (j, q, ulp)
}

fn ask(c: &mut Ctx, w: &mut World, cmd: &str, mem: bool) {
    let have: Vec<usize> = (0..w.stems.len()).filter(|&f| w.k[f] > 0).collect();
    let all = c.chance(0.6);
    let on = if all { have } else { vec![c.pick(&have)] };
    let (j, q, ulp) = query(c, w, cmd, &on);
    let p = w.config(&j.to_string());
    if mem && matches!(cmd, "filter" | "max" | "sum") && c.chance(0.1) {
        // no room for the result
        let f = on[0];
        let before = w.image(f);
        let l = c.pick(&[0u64, 1, 100, 700]);
        let args = ["-i".to_string(), w.bin(f, "ebi").display().to_string(), cmd.into(), "-c".into(), p.display().to_string(), "-i".into(), "true".into()];
        let (_, out, err) = w.start(&args, Some(l));
        c.ev(json!({"ev":"noroom","st": status(&w.bin(f, "ebi"), &out, &err)}));
        for x in w.image(f).keys().filter(|x| !before.contains_key(*x)) {
            std::fs::remove_file(x).unwrap();
        }
        return;
    }
    // room for the report, but not for all of the values
    let big = on.iter().copied().find(|&f| w.held[f].len() >= 500);
    if !mem && cmd == "materialize" && big.is_some() {
        let f = big.unwrap();
        let p = w.config("{\"chunk_id\":null,\"bitmask\":null}");
        let l = c.rng.gen_range(3900..8 * w.held[f].len() as u64);
        let args = ["-i".to_string(), w.bin(f, "ebi").display().to_string(), cmd.into(), "-c".into(), p.display().to_string()];
        let (_, out, err) = w.start(&args, Some(l));
        c.ev(json!({"ev":"noroom","st": status(&w.bin(f, "ebi"), &out, &err), "limit": l}));
    }
    let mut r = run_cmd(c, w, cmd, mem, &p, &on, all);
    fill(&mut r, cmd, mem, String::new(), 1, j.to_string(), q, w.step == 1.0, ulp);
    c.ev(r);
}

fn made(c: &mut Ctx, w: &mut World, mem: bool) {
    let own = c.chance(0.3);
    let all = !own;
    let on: Vec<usize> = if all { (0..w.stems.len()).collect() } else { vec![c.below(w.stems.len())] };
    let mut bads = vec![];
    if all && c.chance(0.4) {
        let p = w.dir.join("bin").join(format!("{}bad.bin", c.pick(&["0", "zz"])));
        match c.below(3) {
            0 => std::os::unix::fs::symlink(w.dir.join("nowhere"), &p).unwrap(),
            1 => std::fs::write(&p, []).unwrap(),
            _ => std::fs::write(&p, [1.0f64, f64::NAN, 2.0].iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()).unwrap(),
        }
        bads.push(p);
    }
    let base = if own { w.dir.join("own") } else { w.dir.join("filter_config") };
    let pat = if all { w.dir.join("bin").join("*.bin") } else { w.bin(on[0], "bin") };
    let mut args = vec!["-i".to_string(), pat.display().to_string(), "create-filter-config".to_string()];
    if own {
        args.extend(["-o".to_string(), base.display().to_string()]);
    }
    let (ok, out, err) = w.start(&args, None);
    let bad: Vec<Value> = bads
        .iter()
        .map(|p| {
            let d = base.join(p.file_stem().unwrap());
            json!({"st": status(p, &out, &err), "results": std::fs::read_dir(d).map_or(0, |x| x.count())})
        })
        .collect();
    for p in &bads {
        std::fs::remove_file(p).unwrap();
    }
    let dir_of = |w: &World, f: usize| if own { base.clone() } else { base.join(&w.stems[f]) };
    let names = ["greater_10th_percentile", "greater_50th_percentile", "greater_90th_percentile", "eq", "ne"];
    let mut texts: HashMap<(usize, usize), String> = HashMap::new();
    let mut res = vec![];
    for &f in &on {
        let mut consts = vec![];
        for (i, n) in names.iter().enumerate() {
            let t = std::fs::read_to_string(dir_of(w, f).join(format!("{n}.json"))).unwrap_or_default();
            let js: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
            let p = &js["predicate"];
            let shape = match *n {
                "eq" => p["type"] == json!("Eq"),
                "ne" => p["type"] == json!("Ne"),
                _ => p["type"] == json!("Range") && p["predicate"]["end"] == json!("None") && p["predicate"]["start"].get("Exclusive").is_some(),
            } && js["chunk_id"].is_null() && js["bitmask"].is_null();
            let ns = numbers(&t);
            if shape && ns.len() == 1 {
                consts.push(ns[0].parse::<f64>().map_or(FAR, |x| w.name(x)));
                texts.insert((f, i), ns[0].clone());
            } else {
                consts.push(FAR);
            }
        }
        res.push(json!({"f": f + 1, "st": status(&w.bin(f, "bin"), &out, &err), "consts": consts}));
    }
    c.ev(json!({"ev":"make","exit": i32::from(!ok), "bad": bad, "on": res, "msg": err.chars().take(300).collect::<String>()}));
    // and one of them is used
    let usable: Vec<usize> = on.into_iter().filter(|f| w.k[*f] > 0 && texts.contains_key(&(*f, 0))).collect();
    if usable.is_empty() {
        return;
    }
    let f = c.pick(&usable);
    let i = c.below(5);
    let Some(t) = texts.get(&(f, i)) else { return };
    let p = dir_of(w, f).join(format!("{}.json", names[i]));
    let v = w.name(t.parse().unwrap());
    let mut q = no_query();
    q["pred"] = match i {
        3 => json!({"kind":"Eq","lo":v,"lok":"None","hi":0,"hik":"None"}),
        4 => json!({"kind":"Ne","lo":v,"lok":"None","hi":0,"hik":"None"}),
        _ => json!({"kind":"Range","lo":v,"lok":"Exclusive","hi":0,"hik":"None"}),
    };
    let ulp = changed(t);
    let j: Value = serde_json::from_str(&std::fs::read_to_string(&p).unwrap()).unwrap();
    let cmd = c.pick(&["filter", "filter_materialize"]);
    let mut r = run_cmd(c, w, cmd, mem, &p, &[f], false);
    fill(&mut r, cmd, mem, String::new(), 1, j.to_string(), q, w.step == 1.0, ulp);
    c.ev(r);
}

fn remove(c: &mut Ctx, w: &World) {
    let mut have = vec![];
    for (f, s) in w.stems.iter().enumerate() {
        for cmd in CMDS {
            for e in std::fs::read_dir(w.dir.join("result").join(s).join(cmd)).into_iter().flatten().flatten() {
                have.push((f, cmd, e.path()));
            }
        }
    }
    have.sort();
    if have.is_empty() {
        return;
    }
    let (f, cmd, p) = c.pick(&have);
    let n: i64 = p.file_stem().unwrap().to_string_lossy().parse().unwrap();
    std::fs::remove_file(p).unwrap();
    c.ev(json!({"ev":"rm","f":f + 1,"cmd":cmd,"n":n}));
}

pub fn values(c: &mut Ctx) -> Vec<i64> {
    let len = match c.below(8) {
        0 => c.below(3),
        7 if c.chance(0.3) => 500 + c.below(100),
        7 => 100 + c.below(150),
        _ => 1 + c.below(40),
    };
    let span = c.pick(&[1i64, 5, 50, 1000]);
    (0..len).map(|_| c.rng.gen_range(-span..=span)).collect()
}

/// the data of one file is replaced
fn change(c: &mut Ctx, w: &mut World) {
    let f = c.below(w.stems.len());
    w.vals[f] = values(c);
    let b: Vec<u8> = w.vals[f].iter().flat_map(|&i| w.val(i).to_le_bytes()).collect();
    std::fs::write(w.bin(f, "bin"), b).unwrap();
    c.ev(json!({"ev":"change","f":f + 1,"vals":w.vals[f]}));
}

pub fn run(c: &mut Ctx, outdir: &str, exe: &Path) {
    for (rep, s) in c.my_scn().into_iter().enumerate() {
        let ops: Vec<(String, usize)> = serde_json::from_str(&s).unwrap();
        let dir = std::fs::canonicalize(outdir).unwrap().join(format!("exper_{}_{rep}", c.shard));
        for d in ["bin", "cwd"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        let n = c.pick(&[1usize, 1, 2, 3]);
        // (steps whose multiples stay apart)
        let step = c.pick(&[1.0, 1.0, 1.0, 0.1, 0.37, 1e300, 1.7e-300, 1234567.891]);
        let stems: Vec<String> = (0..n).map(|i| format!("{}{}", c.pick(&["a", "m.x", "b_"]), i)).collect();
        let vals: Vec<Vec<i64>> = (0..n).map(|_| values(c)).collect();
        let names = (-1100i64..=1100).map(|i| ((i as f64 * step).to_bits(), i)).collect();
        let mut w = World { dir: dir.clone(), exe: exe.to_path_buf(), stems, vals, step, names, k: vec![0; n], held: vec![vec![]; n], by_count: vec![false; n], cfgs: 0 };
        for f in 0..n {
            let b: Vec<u8> = w.vals[f].iter().flat_map(|&i| w.val(i).to_le_bytes()).collect();
            std::fs::write(w.bin(f, "bin"), b).unwrap();
        }
        c.ev(json!({"begin":1,"ev":"data","files":w.vals,"step":format!("{step:e}")}));
        for (i, (op, m)) in ops.iter().enumerate() {
            // some are repeated, so that results pile up
            for _ in 0..c.pick(&[1usize, 1, 1, 2, 4]) {
                match op.as_str() {
                    "compress" => compress(c, &mut w, *m, i == 0),
                    "made" => made(c, &mut w, *m == 1),
                    "data" => {
                        made(c, &mut w, *m == 1);
                        change(c, &mut w);
                        made(c, &mut w, *m == 1);
                    }
                    "rm" => remove(c, &w),
                    cmd => ask(c, &mut w, cmd, *m == 1),
                }
            }
            // a result is deleted and the command run again
            if i > 0 && CMDS.contains(&op.as_str()) && op != "compress" && c.chance(0.15) {
                remove(c, &w);
                ask(c, &mut w, op, *m == 1);
            }
        }
        std::fs::remove_dir_all(&dir).unwrap();
    }
}
