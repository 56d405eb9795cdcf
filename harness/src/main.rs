//! Recorder: drives the real ebi code and writes traces for TLC.
//! usage: ebiv <kind> <outdir> <shards> <seed> <quick|thorough> [scenario-file]
mod bitio;
mod codec;
mod data;
mod elf;
mod expr;
mod fileq;
mod iofault;
mod life;
mod meta;
mod script;
mod times;
mod util;

use util::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage");
        std::process::exit(3);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let shards: usize = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let thorough = a[5] == "thorough";
    let scn: Vec<String> = match a.get(6) {
        Some(p) => std::fs::read_to_string(p).unwrap().lines().map(|s| s.to_string()).collect(),
        None => vec![],
    };
    let kind = a[1].clone();
    let mut hs = vec![];
    for i in 0..shards {
        let (kind, out, scn) = (kind.clone(), a[2].clone(), scn.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut c = Ctx::new(&out, i, shards, seed, thorough, scn);
                    match kind.as_str() {
                        "bitio" => bitio::run(&mut c),
                        "meta" => meta::meta(&mut c),
                        "format" => meta::format(&mut c),
                        "precision" => fileq::precision(&mut c),
                        "delivery" => iofault::delivery(&mut c),
                        "crashes" => iofault::crashes(&mut c),
                        "transfers" => script::transfers(&mut c),
                        "times" => times::times(&mut c),
                        "life" => life::run(&mut c),
                        "expr" => expr::run(&mut c),
                        "codec" => codec::run(&mut c),
                        "elf" => elf::run(&mut c),
                        "lossless" => fileq::lossless(&mut c),
                        "filters" => fileq::filters(&mut c),
                        "aggregates" => fileq::aggregates(&mut c),
                        "histories" => fileq::histories(&mut c),
                        "knn" => fileq::vectors(&mut c, "knn"),
                        "matmul" => fileq::vectors(&mut c, "matmul"),
                        _ => {
                            eprintln!("unknown kind {kind}");
                            std::process::exit(3)
                        }
                    }
                })
                .unwrap(),
        );
    }
    util::join_all(hs);
}
