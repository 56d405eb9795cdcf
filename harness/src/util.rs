use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::Value;
use std::io::Write;

pub struct Ctx {
    pub out: std::fs::File,
    pub shard: usize,
    pub shards: usize,
    pub rng: ChaCha8Rng,
    pub thorough: bool,
    pub scn: Vec<String>,
    pub lines: usize,
}

impl Ctx {
    pub fn new(dir: &str, shard: usize, shards: usize, seed: u64, thorough: bool, scn: Vec<String>) -> Self {
        let out = std::fs::File::create(format!("{dir}/shard_{shard:03}.ndjson")).unwrap();
        let rng = ChaCha8Rng::seed_from_u64(seed.wrapping_mul(1_000_003).wrapping_add(shard as u64));
        Ctx { out, shard, shards, rng, thorough, scn, lines: 0 }
    }
    /// one event per line, written out at once so that a crash leaves it visible
    pub fn ev(&mut self, v: Value) {
        let mut s = v.to_string();
        s.push('\n');
        self.out.write_all(s.as_bytes()).unwrap();
        self.lines += 1;
    }
    /// quick / thorough repetition count
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    /// scenarios of this shard
    pub fn my_scn(&self) -> Vec<String> {
        self.scn.iter().enumerate().filter(|(i, _)| i % self.shards == self.shard).map(|(_, s)| s.clone()).collect()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.rng.gen_bool(p)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.rng.gen_range(0..n)
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.rng.gen_range(0..xs.len())].clone()
    }
}

pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}

impl<T> Out<T> {
    pub fn st(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "panic",
        }
    }
    pub fn msg(&self) -> String {
        match self {
            Out::Ok(_) => String::new(),
            Out::Err(e) | Out::Panic(e) => e.chars().take(200).collect(),
        }
    }
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs code under test; a panic is data.
pub fn guard<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e.to_string()),
        Err(p) => Out::Panic(panic_msg(p)),
    }
}

pub fn guard_ok<T>(f: impl FnOnce() -> T) -> Out<T> {
    guard::<T, String>(|| Ok(f()))
}

pub fn bits64(v: u64) -> Vec<u8> {
    (0..64).rev().map(|i| (v >> i & 1) as u8).collect()
}

pub fn bits_n(v: u64, n: u32) -> Vec<u8> {
    (0..n).rev().map(|i| (v >> i & 1) as u8).collect()
}

/// Waits for the recording threads. The recorders expect nothing of the environment but room to write:
/// if one of them panics outside guarded code, the code under test gave it something no correct code gives.
pub fn join_all(hs: Vec<std::thread::JoinHandle<()>>) {
    for h in hs {
        if let Err(e) = h.join() {
            let m = panic_msg(e);
            eprintln!("the recorder could not go on: {m}");
            let room = ["(os error 28)", "(os error 24)", "(os error 12)", "(os error 11)", "(os error 122)"];
            std::process::exit(if room.iter().any(|x| m.contains(x)) { 3 } else { 4 });
        }
    }
}
