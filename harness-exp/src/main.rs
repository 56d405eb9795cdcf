//! Recorder: drives the real experimenter library and writes traces for TLC.
//! usage: ebivexp <tpch|scale|exper|batch|bench> <outdir> <shards> <seed> <quick|thorough> [scenario-file]
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;
mod batch;
mod bench;
mod exper;
mod scale;
mod tpch;

use util::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage");
        std::process::exit(3);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let shards: usize = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let thorough = a[5] == "thorough";
    let scn: Vec<String> = match a.get(6) {
        Some(p) => std::fs::read_to_string(p).unwrap().lines().map(|s| s.to_string()).collect(),
        None => vec![],
    };
    // the experimenter itself lies beside the recorder
    let exe = std::env::current_exe().unwrap().with_file_name("expcli");
    let hs: Vec<_> = (0..shards)
        .map(|i| {
            let (out, kind, scn, exe) = (a[2].clone(), a[1].clone(), scn.clone(), exe.clone());
            std::thread::spawn(move || {
                let mut c = Ctx::new(&out, i, shards, seed, thorough, scn);
                match kind.as_str() {
                    "tpch" => tpch::run(&mut c, &out),
                    "scale" => scale::run(&mut c),
                    "batch" => batch::run(&mut c, &out, &exe),
                    "bench" => bench::run(&mut c, &out, &exe),
                    "exper" => exper::run(&mut c, &out, &exe),
                    _ => std::process::exit(3),
                }
            })
        })
        .collect();
    util::join_all(hs);
}
