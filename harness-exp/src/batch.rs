//! C25: full experiments and patches of their results.
use crate::exper::{no_query, report, values, World};
use crate::util::Ctx;
use ebi::compressor::CompressorConfig as C;
use rand::Rng;
use serde_json::{json, Value};
use std::path::Path;

pub const NAMES: [&str; 13] = ["uncompressed", "chimp128", "chimp", "elf_on_chimp", "elf", "gorilla", "rle", "zstd", "gzip", "snappy", "ffi_alp", "delta_sprintz", "buff"];

pub fn config(name: &str, scale: u64) -> C {
    match name {
        "uncompressed" => C::uncompressed().build().into(),
        "chimp128" => C::chimp128().build().into(),
        "chimp" => C::chimp().build().into(),
        "elf_on_chimp" => C::elf_on_chimp().build().into(),
        "elf" => C::elf().build().into(),
        "gorilla" => C::gorilla().build().into(),
        "rle" => C::rle().build().into(),
        "zstd" => C::zstd().build().into(),
        "gzip" => C::gzip().build().into(),
        "snappy" => C::snappy().build().into(),
        "ffi_alp" => C::ffi_alp().build().into(),
        "delta_sprintz" => C::delta_sprintz().scale(scale).build().into(),
        _ => C::buff().scale(scale).build().into(),
    }
}

#[derive(Clone)]
struct Comp {
    name: &'static str,
    scheme: String,
    conf: Value,
    k: usize,
    off: bool,
}

fn comp(name: &'static str, scale: u64, opt: Value, k: usize) -> Comp {
    let c = config(name, scale);
    Comp { name, scheme: format!("{:?}", c.compression_scheme()), conf: json!({"chunk_option": opt, "compressor_config": serde_json::to_value(c).unwrap()}), k, off: name == "buff" && scale >= 10_000_000_000_000 }
}

struct Set {
    name: String,
    comps: Vec<Comp>,
    filters: Vec<(String, Value, Value)>,
    skip: bool,
    /// the round in which it appears
    from: usize,
}

fn pred(c: &mut Ctx, v: &[i64], step: f64) -> (Value, Value) {
    let a = c.pick(v) + c.pick(&[0, 0, 1, -1]);
    let b = c.pick(v) + c.pick(&[0, 0, 1, -1]);
    let (j, p) = match c.below(4) {
        0 => (json!({"type":"Eq","predicate":a as f64 * step}), json!({"kind":"Eq","lo":a,"lok":"None","hi":0,"hik":"None"})),
        1 => (json!({"type":"Ne","predicate":a as f64 * step}), json!({"kind":"Ne","lo":a,"lok":"None","hi":0,"hik":"None"})),
        _ => {
            let (lo, hi) = (a.min(b), a.max(b));
            let (lk, hk) = (c.pick(&["None", "Inclusive", "Exclusive"]), c.pick(&["None", "Inclusive", "Exclusive"]));
            let side = |k: &str, v: i64| if k == "None" { json!("None") } else { json!({ k: v as f64 * step }) };
            (json!({"type":"Range","predicate":{"start":side(lk, lo),"end":side(hk, hi)}}), json!({"kind":"Range","lo":lo,"lok":lk,"hi":hi,"hik":hk}))
        }
    };
    let mut q = no_query();
    q["pred"] = p;
    (json!({"predicate": j, "chunk_id": null, "bitmask": null}), q)
}

/// numbers of the results of one kind
fn results(dir: &Path, kind: &str) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(dir.join("result").join(kind))
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default()))
        .collect();
    v.sort();
    v
}

fn entries(w: &World, f: usize, inner: &Value, set: &Set, comp: Option<&Comp>, mem: bool) -> Vec<Value> {
    let mut out = vec![];
    let cc = w.dir.join("cc").join(&set.name);
    let fc = w.dir.join("fc").join(&set.name);
    let mut one = |cmd: &str, filter: &str, e: &Value| {
        let cfg = match cmd {
            "compress" => cc.join(format!("{}.json", comp.map_or("", |c| c.name))),
            "filter" | "filter_materialize" => fc.join(format!("{filter}.json")),
            _ => "<in-memory>".into(),
        };
        let input = w.bin(f, if cmd == "compress" { "bin" } else { "ebi" });
        let slot = if filter.is_empty() { cmd.to_string() } else { format!("{cmd}/{filter}") };
        out.push(json!({"slot": slot, "cmd": cmd, "filter": filter, "stamp": format!("{} {}", e["datetime"].as_str().unwrap_or(""), e["elapsed_time_nanos"]),
            "rep": report(w, e, f, cmd, mem, &cfg, &input)}));
    };
    for cmd in ["compress", "materialize", "max", "sum"] {
        for e in inner[cmd].as_array().into_iter().flatten() {
            one(cmd, "", e);
        }
    }
    for (name, fam) in inner["filters"].as_object().into_iter().flatten() {
        for cmd in ["filter", "filter_materialize"] {
            for e in fam[cmd].as_array().into_iter().flatten() {
                one(cmd, name, e);
            }
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn one_run(c: &mut Ctx, w: &World, sets: &[Set], kind: &str, create: bool, round: usize, fail: bool, latest: &mut Option<std::path::PathBuf>) {
    let n = c.pick(&[1usize, 1, 2, 3]);
    let mem = c.chance(0.5);
    let save = w.dir.join(format!("save{round}"));
    std::fs::create_dir_all(&save).unwrap();
    let d = |x: &str| w.dir.join(x).display().to_string();
    let before: Vec<_> = ["all", "all_patch"].iter().map(|k| results(&w.dir, k)).collect();
    let (mut args, mut pd, mut pc): (Vec<String>, Vec<String>, Vec<String>) = (vec![], vec![], vec![]);
    if kind == "all_patch" {
        args.extend(["-i".to_string(), latest.as_ref().unwrap().display().to_string()]);
    }
    args.push(kind.replace('_', "-"));
    args.extend(["-c".into(), d("cc"), "-f".into(), d("fc"), "-b".into(), d("bin"), "--save-dir".into(), save.display().to_string(), "--n".into(), n.to_string()]);
    if create {
        args.push("--create-config".into());
    }
    if mem {
        args.push("--in-memory".into());
    }
    if kind == "all_patch" {
        let (a, b) = (c.pick(&[0.0, 0.5, 0.5]), c.pick(&[0.0, 0.2, 0.5]));
        pd = sets.iter().map(|s| s.name.clone()).filter(|_| c.chance(a)).collect();
        pc = NAMES.iter().map(|s| s.to_string()).filter(|_| c.chance(b)).collect();
        for x in &pd {
            args.extend(["--pd".to_string(), x.clone()]);
        }
        for x in &pc {
            args.extend(["--pc".to_string(), x.clone()]);
        }
    }
    // a configuration that is no configuration, where it is needed
    let broken = w.dir.join(c.pick(&["cc", "fc"])).join(&sets[0].name).join("gorilla.json");
    let kept = std::fs::read(&broken).ok();
    if fail {
        std::fs::write(&broken, c.pick(&["", "{", "{\"chunk_option\":\"Full\"}", "[]"])).unwrap();
    }
    let (ok, _, err) = w.start(&args, None);
    if fail {
        match kept {
            Some(b) => std::fs::write(&broken, b).unwrap(),
            None => std::fs::remove_file(&broken).unwrap(),
        }
    }
    let after: Vec<_> = ["all", "all_patch"].iter().map(|k| results(&w.dir, k)).collect();
    let me = usize::from(kind == "all_patch");
    let is_kept = before.iter().zip(&after).all(|(b, a)| b.iter().all(|x| a.contains(x))) && before[1 - me].len() == after[1 - me].len();
    let fresh: Vec<&(String, Vec<u8>)> = after[me].iter().filter(|x| !before[me].iter().any(|y| y.0 == x.0)).collect();
    if let Some(x) = fresh.first() {
        *latest = Some(w.dir.join("result").join(kind).join(&x.0));
    }
    let js: Value = fresh.first().and_then(|x| serde_json::from_slice(&x.1).ok()).unwrap_or(Value::Null);
    let mut cells = vec![];
    for (set, by) in js.as_object().into_iter().flatten() {
        for (scheme, inner) in by.as_object().into_iter().flatten() {
            let i = sets.iter().position(|s| s.name == *set);
            let es = match i {
                Some(i) => entries(w, i, inner, &sets[i], sets[i].comps.iter().find(|x| x.scheme == *scheme), mem),
                None => vec![],
            };
            cells.push(json!({"set": set, "codec": scheme, "entries": es}));
        }
    }
    let js_sets: Vec<Value> = sets
        .iter()
        .enumerate()
        .filter(|(_, s)| s.from <= round)
        .map(|(i, s)| {
            json!({"name": s.name, "vals": w.vals[i], "skip": i32::from(s.skip && create),
            "comps": s.comps.iter().map(|x| json!({"name":x.name,"scheme":x.scheme,"conf":x.conf.to_string(),"k":x.k,"off":i32::from(x.off)})).collect::<Vec<_>>(),
            "filters": s.filters.iter().map(|x| json!({"name":x.0,"query":x.1.to_string(),"q":x.2})).collect::<Vec<_>>()})
        })
        .collect();
    c.ev(json!({"ev":"run","kind":kind,"n":n,"mem":i32::from(mem),"exit":i32::from(!ok),"fail":i32::from(fail),"kept":i32::from(is_kept),"most":13,"whole":i32::from(w.step == 1.0),
        "fresh": fresh.iter().map(|x| x.0.strip_suffix(".json").and_then(|s| s.parse::<i64>().ok()).unwrap_or(-1)).collect::<Vec<_>>(),
        "sets": js_sets, "pd": pd, "pc": pc, "cells": cells, "msg": err.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect::<String>()}));
}

/// codecs and filters for a data set, in place of what is configured
fn configure(c: &mut Ctx, w: &World, f: usize) -> (Vec<Comp>, Vec<(String, Value, Value)>) {
    let (mut comps, mut filters) = (vec![], vec![]);
    let (cc, fc) = (w.dir.join("cc").join(&w.stems[f]), w.dir.join("fc").join(&w.stems[f]));
    for d in [&cc, &fc] {
        if d.exists() {
            std::fs::remove_dir_all(d).unwrap();
        }
        std::fs::create_dir_all(d).unwrap();
    }
    let wide = w.step > 1.0 && w.vals[f].iter().any(|&x| x != 0);
    for x in NAMES {
        if c.chance(0.35) || (f == 0 && x == "gorilla") {
            let k = c.pick(&[1usize, 3, 16, 1000]);
            let (opt, k) = if c.chance(0.5) { (json!({ "RecordCount": k }), k) } else { (json!("Full"), 1_000_000) };
            let mut p = comp(x, if x == "buff" && c.chance(0.3) { 10_000_000_000_000 } else { c.pick(&[1u64, 10]) }, opt, k);
            std::fs::write(cc.join(format!("{x}.json")), p.conf.to_string()).unwrap();
            p.off |= wide && matches!(x, "buff" | "delta_sprintz");
            comps.push(p);
        }
    }
    for i in 0..3 {
        if c.chance(0.35) {
            let (j, q) = pred(c, &w.vals[f], w.step);
            let name = format!("f{i}");
            std::fs::write(fc.join(format!("{name}.json")), j.to_string()).unwrap();
            filters.push((name, j, q));
        }
    }
    // something that is no configuration lies there, too
    if c.chance(0.3) {
        std::fs::write(cc.join("notes.txt"), "x").unwrap();
    }
    (comps, filters)
}

pub fn run(c: &mut Ctx, outdir: &str, exe: &Path) {
    for rep in 0..c.n(12, 80) {
        let dir = std::fs::canonicalize(outdir).unwrap().join(format!("batch_{}_{rep}", c.shard));
        for d in ["bin", "cwd", "cc", "fc"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        let n = c.pick(&[1usize, 2, 2, 3, 3]);
        let create = c.chance(0.35);
        let stems: Vec<String> = (0..n).map(|i| format!("{}{i}", c.pick(&["a", "b_", "m"]))).collect();
        // numbers no fixed-point codec can hold (and serde_json reads exactly)
        let step = c.pick(&[1.0, 1.0, 1.0, 1e20]);
        let vals: Vec<Vec<i64>> = (0..n)
            .map(|_| {
                let mut v = values(c);
                v.truncate(120);
                // of one sign only, sometimes
                match c.below(5) {
                    0 => v.iter_mut().for_each(|x| *x = -x.abs()),
                    1 => v.iter_mut().for_each(|x| *x = x.abs()),
                    _ => {}
                }
                if v.is_empty() { vec![c.rng.gen_range(-50..50)] } else { v }
            })
            .collect();
        let names = (-1100i64..=1100).map(|i| ((i as f64 * step).to_bits(), i)).collect();
        let w = World { dir: dir.clone(), exe: exe.to_path_buf(), stems: stems.clone(), vals, step, names, k: vec![0; n], held: vec![vec![]; n], by_count: vec![false; n], cfgs: 0 };
        let mut sets: Vec<Set> = vec![];
        for f in 0..n {
            let skip = create && f > 0 && c.chance(0.25);
            let b: Vec<u8> = if skip { c.pick(&[vec![], f64::NAN.to_le_bytes().to_vec()]) } else { w.vals[f].iter().flat_map(|&i| w.val(i).to_le_bytes()).collect() };
            let from = if f > 0 && c.chance(0.25) { 1 + c.below(2) } else { 0 };
            let hold = |p: std::path::PathBuf| if from > 0 { p.with_extension("later") } else { p };
            std::fs::write(hold(w.bin(f, "bin")), b).unwrap();
            let per = 1 + c.below(5);
            let text = w.vals[f].chunks(per).map(|r| r.iter().map(|&i| w.val(i).to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("\n");
            std::fs::write(dir.join(format!("{}.csv", stems[f])), text).unwrap();
            let (mut comps, mut filters) = (vec![], vec![]);
            if create {
                comps = NAMES.iter().map(|x| comp(x, 1, json!({"RecordCount": 128 * 1024 * 1024 / 8}), 128 * 1024 * 1024 / 8)).collect();
                let mut v = w.vals[f].clone();
                v.sort();
                for (name, p, kind) in [("greater_10th_percentile", 10, "Range"), ("greater_50th_percentile", 50, "Range"), ("greater_90th_percentile", 90, "Range"), ("eq", 50, "Eq"), ("ne", 50, "Ne")] {
                    // (what the created file must say is C24; here it is what is run)
                    let x = v[v.len() * p / 100];
                    let j = if kind == "Range" { json!({"type":"Range","predicate":{"start":{"Exclusive":x as f64 * step},"end":"None"}}) } else { json!({"type":kind,"predicate":x as f64 * step}) };
                    let mut q = no_query();
                    q["pred"] = json!({"kind":kind,"lo":x,"lok":if kind == "Range" {"Exclusive"} else {"None"},"hi":0,"hik":"None"});
                    filters.push((name.to_string(), json!({"predicate":j,"chunk_id":null,"bitmask":null}), q));
                }
            } else {
                (comps, filters) = configure(c, &w, f);
            }
            sets.push(Set { name: stems[f].clone(), comps, filters, skip, from });
        }
        for (f, s) in sets.iter_mut().enumerate().filter(|_| create) {
            let wide = step > 1.0 && w.vals[f].iter().any(|&x| x != 0);
            s.comps.iter_mut().for_each(|x| x.off |= wide && matches!(x.name, "buff" | "delta_sprintz"));
        }
        c.ev(json!({"begin":1,"ev":"begin"}));
        let mut latest = None;
        for round in 0..c.pick(&[2usize, 3, 3, 4]) {
            let kind = if latest.is_some() && c.chance(0.85) { "all_patch" } else { "all" };
            for f in 0..n {
                if round > 0 && sets[f].from == round {
                    std::fs::rename(w.bin(f, "later"), w.bin(f, "bin")).unwrap();
                }
                if !create && round > 0 && c.chance(0.3) {
                    (sets[f].comps, sets[f].filters) = configure(c, &w, f);
                }
            }
            let fail = !create && kind == "all" && c.chance(0.15);
            one_run(c, &w, &sets, kind, create, round, fail, &mut latest);
        }
        std::fs::remove_dir_all(&dir).unwrap();
    }
}
