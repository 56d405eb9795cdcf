//! C26: classification and embedding experiments.
use crate::batch::{config, NAMES};
use crate::exper::{whole, World, FAR};
use crate::util::Ctx;
use ebi::api::decoder::{Decoder, DecoderInput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::encoder::ChunkOption;
use rand::Rng;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};

const RECORDS: usize = 128 * 1024 * 1024 / 8;

/// sizes of a fresh encoding: file, chunks
fn sizes(name: &str, scale: u64, bytes: &[u8]) -> (i64, i64) {
    let mut e = Encoder::new(EncoderInput::from_reader(bytes), EncoderOutput::from_vec(vec![]), ChunkOption::RecordCount(bytes.len() / 8 + 1), config(name, scale));
    e.encode().unwrap();
    let out = e.into_output().into_inner().into_inner();
    let d = Decoder::new(DecoderInput::from_reader(std::io::Cursor::new(&out[..]))).unwrap();
    (out.len() as i64, d.total_chunk_size() as i64)
}

struct Codec {
    scheme: String,
    conf: String,
    size: (i64, i64),
}

fn codecs(scale: u64, bytes: &[u8], quantize: bool) -> Vec<Codec> {
    NAMES
        .iter()
        .map(|n| {
            let c = config(n, scale);
            let q = matches!(*n, "buff" | "delta_sprintz");
            Codec {
                scheme: format!("{:?}", c.compression_scheme()),
                conf: json!({"chunk_option": {"RecordCount": RECORDS}, "compressor_config": serde_json::to_value(c).unwrap()}).to_string(),
                size: if q && !quantize { (0, 0) } else { sizes(n, scale, bytes) },
            }
        })
        .collect()
}

fn confs(cs: &[Codec]) -> Value {
    cs.iter().map(|c| (c.scheme.clone(), json!(c.conf))).collect::<Map<_, _>>().into()
}

fn stats(s: &Value, size: (i64, i64)) -> Value {
    let raw = s["uncompressed_size"].as_f64().unwrap_or(0.0);
    json!({"raw": whole(&s["uncompressed_size"], |x| x), "size": whole(&s["compressed_size"], |x| x), "area": whole(&s["compressed_size_chunk_only"], |x| x),
        "ratio": whole(&s["compression_ratio"], |x| x * raw), "arearatio": whole(&s["compression_ratio_chunk_only"], |x| x * raw), "esize": size.0, "earea": size.1})
}

fn len(v: &Value) -> i64 {
    v.as_array().map_or(-1, |a| a.len() as i64)
}
fn lens(v: &Value) -> Vec<i64> {
    v.as_array().into_iter().flatten().map(len).collect()
}

/// every file below a directory
fn tree(d: &Path) -> Vec<(PathBuf, Vec<u8>)> {
    let mut v = vec![];
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            v.extend(tree(&p));
        } else {
            let b = std::fs::read(&p).unwrap_or_default();
            v.push((p, b));
        }
    }
    v.sort();
    v
}

/// a line: label, values in units of 3 + shift places (i64::MAX: NaN), their texts and places
struct Line {
    label: i64,
    vals: Vec<i64>,
    texts: Vec<String>,
    places: Vec<usize>,
}

fn text(v: i64, places: usize, shift: usize) -> String {
    let s = if v < 0 { "-" } else { "" };
    let a = format!("{:0w$}", v.abs(), w = 4 + shift);
    let (whole, rest) = a.split_at(a.len() - 3 - shift);
    match places {
        0 => format!("{s}{whole}"),
        _ => format!("{s}{whole}.{}", &rest[..places]),
    }
}

fn line(c: &mut Ctx, width: usize, most: usize, high: f64, shift: usize, near: Option<&Line>) -> Line {
    let label = c.rng.gen_range(-1i64..4);
    let (mut vals, mut texts, mut places) = (vec![], vec![label.to_string()], vec![0]);
    for i in 0..width {
        let p = if c.chance(high) { 3 } else { c.below(most + 1) };
        let mut v = match near {
            Some(n) if n.vals[i] != i64::MAX && c.chance(0.7) => n.vals[i] + c.pick(&[0, 0, 1000, -1000, 100, -100]),
            _ => c.rng.gen_range(-2999i64..2999),
        };
        v = v.clamp(-2999, 2999);
        // of p places, and nothing that is half way or a negative zero when rounded
        v -= v % [1000, 100, 10, 1][p];
        if v % 10 == 5 || v % 10 == -5 || v / 10 % 10 == 5 || v / 10 % 10 == -5 || v / 100 % 10 == 5 || v / 100 % 10 == -5 {
            v -= v % 1000;
        }
        if v < 0 && v > -1000 {
            v = -v;
        }
        if shift == 0 && c.chance(0.03) {
            vals.push(i64::MAX);
            texts.push("NaN".into());
            places.push(0);
        } else {
            vals.push(v);
            texts.push(text(v, p + shift, shift));
            places.push(p + shift);
        }
    }
    Line { label, vals, texts, places }
}

fn js_line(l: &Line) -> Value {
    json!({"label": l.label, "vals": l.vals.iter().map(|&v| if v == i64::MAX { 0 } else { v }).collect::<Vec<_>>()})
}

fn write_lines(p: &Path, ls: &[Line], crlf: bool) {
    let end = if crlf { "\r\n" } else { "\n" };
    std::fs::write(p, ls.iter().map(|l| l.texts.join("\t") + end).collect::<String>()).unwrap();
}

struct Series {
    name: String,
    dir: PathBuf,
    train: Vec<Line>,
    test: Vec<Line>,
    p: u32,
    shift: usize,
    codecs: Vec<Codec>,
}

/// the one nearest line, with values rounded to units
fn nearest(train: &[Line], x: &Line, unit: i64) -> Option<usize> {
    let of = |v: i64| if v == i64::MAX { 0 } else { v.signum() * ((v.abs() + unit / 2) / unit) * unit };
    let d: Vec<i64> = train.iter().map(|t| t.vals.iter().zip(&x.vals).map(|(&a, &b)| (of(a) - of(b)).pow(2)).sum()).collect();
    let m = *d.iter().min()?;
    (d.iter().filter(|&&v| v == m).count() == 1).then(|| d.iter().position(|&v| v == m).unwrap())
}

fn series(c: &mut Ctx, dir: &Path, name: &str) -> Series {
    let width = 1 + c.below(5);
    let most = c.below(4);
    let shift = c.pick(&[0usize, 0, 0, 8]);
    let high = c.pick(&[0.0, 0.0, 0.008, 0.03]);
    let many = if c.chance(0.2) { 60 } else { 8 };
    let (a, b) = (2 + c.below(many), 2 + c.below(5));
    let mut train: Vec<Line> = vec![];
    for i in 0..a {
        let like = if i > 1 && c.chance(0.5) { Some(1 + c.below(i - 1)) } else { None };
        let l = match like {
            // a line that is only a little off another one, mostly of another class
            Some(k) => {
                let mut l = line(c, width, most, 0.0, shift, None);
                let at = c.below(width);
                for j in 0..width {
                    let (mut v, p) = (train[k].vals[j], train[k].places[j + 1]);
                    if v == i64::MAX {
                        continue;
                    }
                    if j == at && p > shift {
                        let u = [1000, 100, 10, 1][p - shift];
                        let to = v + u * c.pick(&[2, 3, 4, -2, -3, 7]);
                        if (0..4).all(|d| to.abs() / 10i64.pow(d) % 10 != 5) && (to >= 0 || to <= -1000) && to.abs() < 2999 {
                            v = to;
                        }
                    }
                    (l.vals[j], l.texts[j + 1], l.places[j + 1]) = (v, text(v, p, shift), p);
                }
                l
            }
            None => line(c, width, most, high, shift, None),
        };
        train.push(l);
    }
    let ps: Vec<usize> = train.iter().flat_map(|l| l.places.clone()).collect();
    let p = (0..=3 + shift).rev().find(|&p| ps.contains(&p) && 100 * ps.iter().filter(|&&x| x >= p).count() >= ps.len()).unwrap_or(0) as u32;
    let test: Vec<Line> = (0..b)
        .map(|_| {
            let near = 1 + c.below(a - 1);
            let most = if c.chance(0.3) { 2 } else { most };
            let mut l = line(c, width, most, 0.05, shift, Some(&train[near]));
            if c.chance(0.4) {
                (l.vals, l.texts, l.places) = (train[near].vals.clone(), train[near].texts.clone(), train[near].places.clone());
                l.texts[0] = l.label.to_string();
            }
            if c.chance(0.5) {
                l.label = train[near].label;
                l.texts[0] = l.label.to_string();
            }
            // for which it matters that it is rounded
            let unit = if (p as usize) < 3 + shift { 10i64.pow((3 + shift - p as usize) as u32) } else { 1 };
            for _ in 0..if unit > 1 && c.chance(0.5) { 100 } else { 0 } {
                let x = line(c, width, 2, 0.5, shift, None);
                let (Some(a), Some(b)) = (nearest(&train[1..], &x, 1), nearest(&train[1..], &x, unit)) else { continue };
                if train[1 + a].label != train[1 + b].label {
                    l = x;
                    l.label = train[1 + if c.chance(0.8) { b } else { a }].label;
                    l.texts[0] = l.label.to_string();
                    break;
                }
            }
            l
        })
        .collect();
    std::fs::create_dir_all(dir).unwrap();
    let crlf = c.chance(0.2);
    write_lines(&dir.join(format!("{name}_TRAIN.tsv")), &train, crlf);
    write_lines(&dir.join(format!("{name}_TEST.tsv")), &test, crlf);
    let scale = 10f64.powi(p as i32);
    let bytes: Vec<u8> = train[1..]
        .iter()
        .flat_map(|l| l.vals.clone())
        .flat_map(|v| (if v == i64::MAX { 0.0 } else { (v as f64 * scale / 10f64.powi(3 + shift as i32)).round() / scale }).to_le_bytes())
        .collect();
    Series { name: name.into(), dir: dir.into(), train, test, p, shift, codecs: codecs(10u64.pow(p), &bytes, true) }
}

/// names of the fresh result directories, and whether the old ones are as before
fn fresh(base: &Path, before: &[(PathBuf, Vec<u8>)], had: &[PathBuf]) -> (Vec<PathBuf>, bool) {
    let now = tree(base);
    let mut dirs: Vec<PathBuf> = std::fs::read_dir(base).into_iter().flatten().flatten().map(|e| e.path()).filter(|p| !had.contains(p)).collect();
    dirs.sort();
    (dirs.clone(), before.iter().all(|x| now.contains(x)) && now.iter().filter(|x| !dirs.iter().any(|d| x.0.starts_with(d))).count() == before.len())
}

fn number(p: &Path) -> i64 {
    p.file_name().and_then(|s| s.to_str()).filter(|s| s.len() >= 3).and_then(|s| s.parse().ok()).unwrap_or(-1)
}

fn read_json(p: &Path) -> Value {
    std::fs::read(p).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null)
}

fn ucr(c: &mut Ctx, w: &World, sets: &[Series], fail: bool) {
    let base = w.dir.join("result").join("ucr2018");
    let before = tree(&base);
    let had: Vec<PathBuf> = std::fs::read_dir(&base).into_iter().flatten().flatten().map(|e| e.path()).collect();
    let victim = &sets[c.below(sets.len())];
    let lost = victim.dir.join(format!("{}_{}.tsv", victim.name, c.pick(&["TRAIN", "TEST"])));
    if fail {
        std::fs::rename(&lost, w.dir.join("kept")).unwrap();
    }
    let (ok, _, err) = w.start(&["-i".into(), w.dir.join("ucr").display().to_string(), "ucr2018".into(), "-o".into(), w.dir.display().to_string()], None);
    if fail {
        std::fs::rename(w.dir.join("kept"), &lost).unwrap();
    }
    let (new, kept) = fresh(&base, &before, &had);
    let mut files = vec![];
    for (p, b) in new.first().map_or(vec![], |d| tree(d)) {
        let stem = p.file_stem().unwrap().to_string_lossy().into_owned();
        let (codec, q) = match stem.rsplit_once('_') {
            Some((a, b)) if b.parse::<i64>().is_ok() => (a.to_string(), b.parse().unwrap()),
            _ => (stem, -1i64),
        };
        let js: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
        let mut out = vec![];
        for (name, r) in js["results"].as_object().into_iter().flatten() {
            let s = sets.iter().find(|s| s.name == *name);
            let size = s.and_then(|s| s.codecs.iter().find(|x| x.scheme == codec)).map_or((-1, -1), |x| x.size);
            let unit = 16.0 * 10f64.powi(s.map_or(0, |s| s.p as i32));
            let tests = s.map_or(1, |s| s.test.len() - 1) as f64;
            let acc = r["accuracy"].as_f64().unwrap_or(-1.0);
            let correct = (acc * tests).round();
            let d = &r["decompression_result"];
            let first: Vec<Vec<i64>> = d["result_string"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|t| {
                    t.as_str().unwrap_or("").trim_matches(|c| c == '[' || c == ']').split(", ").filter(|x| !x.is_empty())
                        .map(|x| x.parse::<f64>().map_or(FAR, |v| if (v * unit).abs() < 1e9 { (v * unit).round() as i64 } else { FAR })).collect()
                })
                .collect();
            let mut o = stats(&r["compression_statistics"], size);
            o.as_object_mut().unwrap().extend(
                json!({"name": name, "conf": r["compression_config"].to_string(), "n": whole(&r["config"]["n"], |x| x), "k": whole(&r["config"]["k"], |x| x), "prec": whole(&r["config"]["precision"], |x| x),
                    "correct": correct as i64, "exact": i32::from(correct / tests == acc && r["dataset_name"] == json!(name)), "times": lens(&r["elapsed_time_nanos"]), "segs": lens(&r["execution_times"]),
                    "dn": whole(&d["n"], |x| x), "dtimes": len(&d["elapsed_time_nanos"]), "dsegs": len(&d["execution_times"]), "first": first})
                .as_object().unwrap().clone(),
            );
            out.push(o);
        }
        files.push(json!({"codec": codec, "q": q, "sets": out}));
    }
    let js_sets: Vec<Value> = sets
        .iter()
        .map(|s| json!({"name": s.name, "p": s.p, "shift": s.shift, "ps": s.train.iter().flat_map(|l| l.places.clone()).collect::<Vec<_>>(), "confs": confs(&s.codecs),
            "train": s.train.iter().map(js_line).collect::<Vec<_>>(), "test": s.test.iter().map(js_line).collect::<Vec<_>>()}))
        .collect();
    c.ev(json!({"ev":"ucr","exit":i32::from(!ok),"fail":i32::from(fail),"kept":i32::from(kept),"fresh":new.iter().map(|p| number(p)).collect::<Vec<_>>(),"precs":[1,3,5,8],
        "codecs": sets[0].codecs.iter().map(|x| x.scheme.clone()).collect::<Vec<_>>(), "sets": js_sets, "files": files, "msg": tail(&err)}));
}

fn tail(s: &str) -> String {
    s.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect()
}

struct Column {
    name: String,
    bytes: Vec<u8>,
    tenths: i64,
    codecs: Vec<Codec>,
}

fn column(c: &mut Ctx, w: &World, name: &str) -> Column {
    let p = c.pick(&[0u32, 1, 2, 3, 12, 13, 19, 20, 40]);
    let tenths = (p as i64 * 10 + c.pick(&[0, 0, 4, -5, 3])).max(0);
    let places = if p > 3 { c.below(3) as u32 } else { p };
    let n = c.pick(&[0usize, 1, 2, 7, 40]);
    let bytes: Vec<u8> = (0..n).flat_map(|_| (c.rng.gen_range(-2000i64..2000) as f64 / 10f64.powi(places as i32)).to_le_bytes()).collect();
    std::fs::write(w.dir.join("emb").join(format!("{name}.bin")), &bytes).unwrap();
    let scale = 10u64.checked_pow(((tenths + 5) / 10) as u32);
    let codecs = codecs(scale.unwrap_or(1), &bytes, scale.is_some_and(|s| s <= 10u64.pow(12)));
    Column { name: name.into(), bytes, tenths, codecs }
}

fn emb(c: &mut Ctx, w: &World, sets: &[Column], fail: bool) {
    let base = w.dir.join("result").join("embedding");
    let before = tree(&base);
    let had: Vec<PathBuf> = std::fs::read_dir(&base).into_iter().flatten().flatten().map(|e| e.path()).collect();
    let skip = if fail { c.below(sets.len()) } else { sets.len() };
    let map: Map<String, Value> = sets.iter().enumerate().filter(|(i, _)| *i != skip).map(|(_, s)| (s.name.clone(), json!(s.tenths as f64 / 10.0))).collect();
    std::fs::write(w.dir.join("emb").join("precision_data.json"), Value::from(map).to_string()).unwrap();
    let (ok, _, err) = w.start(&["-i".into(), w.dir.join("emb").display().to_string(), "embedding".into(), "-o".into(), w.dir.display().to_string()], None);
    let (new, kept) = fresh(&base, &before, &had);
    let js = new.first().map_or(Value::Null, |d| read_json(&d.join("embedding_result.json")));
    let mut out = vec![];
    for (name, by) in js.as_object().into_iter().flatten().filter(|x| x.1.is_object()) {
        let s = sets.iter().find(|s| s.name == *name);
        let mut cells = vec![];
        for (codec, r) in by.as_object().unwrap() {
            let size = s.and_then(|s| s.codecs.iter().find(|x| x.scheme == *codec)).map_or((-1, -1), |x| x.size);
            let keys = ["compression_elapsed_time_nanos", "compression_segmented_execution_times", "compression_result_string", "compression_statistics", "decompression_elapsed_time_nanos",
                "decompression_segmented_execution_times", "decompression_result_string"];
            cells.push(json!({"name": codec, "conf": r["compression_config"].to_string(), "n": whole(&r["n"], |x| x), "prec": whole(&r["precision"], |x| x), "same": i32::from(r["dataset_name"] == json!(name)),
                "lens": keys.iter().map(|k| len(&r[k])).collect::<Vec<_>>(), "stats": r["compression_statistics"].as_array().into_iter().flatten().map(|x| stats(x, size)).collect::<Vec<_>>(),
                "out": r["decompression_result_string"]}));
        }
        out.push(json!({"name": name, "cells": cells}));
    }
    let js_sets: Vec<Value> = sets
        .iter()
        .map(|s| json!({"name": s.name, "n": s.bytes.len() / 8, "tenths": s.tenths, "confs": confs(&s.codecs), "head": format!("{:?}", &s.bytes[..5.min(s.bytes.len())])}))
        .collect();
    c.ev(json!({"ev":"emb","exit":i32::from(!ok),"fail":i32::from(fail),"kept":i32::from(kept),"fresh":new.iter().map(|p| number(p)).collect::<Vec<_>>(),
        "codecs": sets[0].codecs.iter().map(|x| x.scheme.clone()).collect::<Vec<_>>(), "sets": js_sets, "sets2": out, "msg": tail(&err)}));
}

pub fn run(c: &mut Ctx, outdir: &str, exe: &Path) {
    for rep in 0..c.n(10, 80) {
        let dir = std::fs::canonicalize(outdir).unwrap().join(format!("bench_{}_{rep}", c.shard));
        for d in ["ucr", "emb", "cwd"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        let w = World { dir: dir.clone(), exe: exe.to_path_buf(), stems: vec![], vals: vec![], step: 1.0, names: HashMap::new(), k: vec![], held: vec![], by_count: vec![], cfgs: 0 };
        c.ev(json!({"begin":1,"ev":"begin"}));
        let sets: Vec<Series> = (0..1 + c.below(3))
            .map(|i| {
                let name = format!("{}{i}", c.pick(&["A", "Set_", "b"]));
                let at = if c.chance(0.3) { dir.join("ucr/Missing_value_and_variable_length_datasets_adjusted") } else { dir.join("ucr") };
                series(c, &at.join(&name), &name)
            })
            .collect();
        let cols: Vec<Column> = (0..1 + c.below(3)).map(|i| {
            let name = format!("{}{i}", c.pick(&["e", "glove_", "x"]));
            column(c, &w, &name)
        }).collect();
        for _ in 0..1 + c.below(3) {
            let fail = c.chance(0.15);
            if c.chance(0.5) {
                ucr(c, &w, &sets, fail);
            } else {
                emb(c, &w, &cols, fail);
            }
            if c.chance(0.25) {
                let kind = c.pick(&["ucr2018", "embedding"]);
                let mut ds: Vec<PathBuf> = std::fs::read_dir(dir.join("result").join(kind)).into_iter().flatten().flatten().map(|e| e.path()).collect();
                ds.sort();
                if !ds.is_empty() {
                    let d = c.pick(&ds);
                    std::fs::remove_dir_all(&d).unwrap();
                    c.ev(json!({"ev":"gone","kind":kind,"dir":number(&d)}));
                }
            }
        }
        std::fs::remove_dir_all(&dir).unwrap();
    }
}
