//! C19: the execution times a decoder and a file report.
use crate::data::*;
use crate::fileq::*;
use crate::script::{self, Rdr, Wtr};
use crate::util::*;
use ebi::api::decoder::{Aggregation, ChunkId, DecoderOutput};
use ebi::decoder::expr::{Expr, Op};
use ebi::encoder::ChunkOption;
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::time::SegmentedExecutionTimes;
use serde_json::json;
use std::io::{Cursor, Seek, SeekFrom, Write};
use std::time::Instant;

fn segs(t: &SegmentedExecutionTimes) -> Vec<u64> {
    // in units of 100 ns, which fit TLC's integers
    [t.io_read(), t.io_write(), t.xor(), t.delta(), t.quantization(), t.bit_packing(), t.compare_insert(), t.sum(), t.decompression()]
        .iter()
        .map(|d| u(d.as_nanos()))
        .collect()
}
fn u(ns: u128) -> u64 {
    (ns / 100).min(1 << 30) as u64
}

/// an output that takes its time; remembers where each write went and how long it took
struct Slow<'a> {
    out: &'a mut Vec<u8>,
    pos: usize,
    log: &'a mut Vec<(usize, usize, u128)>,
}
impl Write for Slow<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut one = vec![];
        let before = script::waited().1;
        let n = Wtr(&mut one).write(b)?;
        self.log.push((self.pos, n, script::waited().1 - before));
        let end = self.pos + n;
        if self.out.len() < end {
            self.out.resize(end, 0);
        }
        self.out[self.pos..end].copy_from_slice(&one);
        self.pos = end;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Slow<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(x) => x as usize,
            SeekFrom::Current(x) => (self.pos as i64 + x) as usize,
            SeekFrom::End(x) => (self.out.len() as i64 + x) as usize,
        };
        Ok(self.pos as u64)
    }
}

/// the encoder itself: what the footer of the file says
fn encoding(c: &mut Ctx, codec: Codec) {
    let n = 1 + c.below(60);
    let p = if codec.decimal() { 2 } else { 0 };
    let vals: Vec<f64> = ints(c, n, 1000).iter().map(|k| dec(*k, p)).collect();
    let opt = chunk_option(c, n);
    let (cfg, _) = codec.config(c, 10u64.pow(p));
    let le: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes()).collect();
    let (rd, wd) = (c.pick(&[0u64, 60, 300]), c.pick(&[0u64, 60, 300]));
    script::set(script::delays(rd, wd));
    let t = Instant::now();
    let mut bytes = vec![];
    let mut log = vec![];
    let r = guard(|| {
        let out = Slow { out: &mut bytes, pos: 0, log: &mut log };
        let mut e = Encoder::new(EncoderInput::from_reader(Rdr(Cursor::new(&le))), EncoderOutput::from_writer(out), opt, cfg);
        e.encode()
    });
    let wall = t.elapsed();
    let (rd, _) = script::waited();
    script::set(None);
    let mut e = json!({"begin":1,"ev":"enc","codec":codec.name(),"n":n,"st":r.st(),"msg":r.msg(),"wall":u(wall.as_nanos()),"rd":u(rd)});
    if matches!(r, Out::Ok(_)) {
        match open(&bytes) {
            Out::Ok(d) => {
                let end = d.header().footer_offset() as usize;
                // writes of chunk bytes
                let wd: u128 = log.iter().filter(|(p, n, _)| *p >= 30 && p + n <= end).map(|x| x.2).sum();
                e["wd"] = json!(u(wd));
                e["elapsed"] = json!(u(d.footer().compression_elapsed_time_nano_secs()));
                e["segs"] = json!(segs(d.footer().segmented_execution_times()));
            }
            o => e["st"] = json!(format!("reopen-{}", o.st())),
        }
    }
    c.ev(e);
}

fn query(c: &mut Ctx, f: &File, d: &mut Dec, op: &str) -> bool {
    let a = args(c, f);
    let bm = a.mask.as_ref().map(|m| bitmap(m));
    let bm = bm.as_ref();
    let ch = (a.ch >= 0).then(|| ChunkId::new(a.ch as usize));
    let (p, _) = pred(c, f);
    let (rd, wd) = (c.pick(&[0u64, 60, 300]), c.pick(&[0u64, 0, 60]));
    let n = f.vals.len();
    let tl = 1 + c.below(6);
    let t: Vec<f64> = (0..tl).map(|i| i as f64).collect();
    let cols = c.pick(&(1..=n.max(1)).filter(|x| n % x == 0).collect::<Vec<_>>());
    let tm: Vec<f64> = (0..cols * 2).map(|i| i as f64).collect();
    let mut o = vec![];
    script::set(script::delays(rd, wd));
    let t0 = Instant::now();
    let r = guard(|| match op {
        "mat" => d.materialize(&mut DecoderOutput::from_writer(Wtr(&mut o)), bm, ch),
        "fmat" => d.filter_materialize(&mut DecoderOutput::from_writer(Wtr(&mut o)), p, bm, ch),
        "filter" => d.filter(p, bm, ch).map(|_| ()),
        "sum" => d.sum(bm, ch).map(|_| ()),
        "min" => d.min(bm, ch).map(|_| ()),
        "max" => d.max(bm, ch).map(|_| ()),
        "knn" => d.knn1(&t).map(|_| ()),
        _ => d.matmul(&tm, (cols, 2), (n / cols, cols)).map(|_| ()),
    });
    let wall = t0.elapsed();
    let (rd, wd) = script::waited();
    script::set(None);
    c.ev(json!({"ev":"query","op":op,"ch":a.ch,"codec":f.codec.name(),"st":r.st(),"msg":r.msg(),"wall":u(wall.as_nanos()),"rd":u(rd),"wd":u(wd),
        "segs":segs(&d.segmented_execution_times())}));
    matches!(r, Out::Ok(_))
}

/// what evaluations of expressions add to the timer they are given
fn expression(c: &mut Ctx, codec: Codec) {
    let n = 1 + c.below(60);
    let p = if codec.decimal() { 2 } else { 0 };
    let opt = ChunkOption::RecordCount(1 + c.below(n));
    let cols = 1 + c.below(3);
    let mut files = vec![];
    for _ in 0..cols {
        let vals: Vec<f64> = ints(c, n, 1000).iter().map(|k| dec(*k, p)).collect();
        let (cfg, _) = codec.config(c, 10u64.pow(p));
        match encode(&vals, opt, cfg) {
            Out::Ok(b) => files.push(b),
            o => {
                c.ev(json!({"begin":1,"ev":"file","st":o.st(),"msg":o.msg()}));
                return;
            }
        }
    }
    let mut decs = vec![];
    for b in &files {
        match open(b) {
            Out::Ok(d) => decs.push(d),
            o => {
                c.ev(json!({"begin":1,"ev":"file","st":o.st(),"msg":o.msg()}));
                return;
            }
        }
    }
    c.ev(json!({"begin":1,"ev":"file","st":"ok"}));
    let mut timer = SegmentedExecutionTimes::new();
    for _ in 0..1 + c.below(4) {
        // one timer for several evaluations, or a new one each
        if c.chance(0.5) {
            timer = SegmentedExecutionTimes::new();
        }
        let before = segs(&timer);
        let several = c.chance(0.5);
        let ags: Vec<Aggregation> = (0..if several { 1 + c.below(3) } else { 1 })
            .map(|_| {
                let ix = |c: &mut Ctx| Expr::Index(c.below(cols));
                let mut x = ix(c);
                for _ in 0..c.below(3) {
                    let y = if c.chance(0.3) { Expr::Literal(2.0) } else { ix(c) };
                    x = Expr::Binary { op: c.pick(&[0, 1]).eq(&0).then_some(Op::Add).unwrap_or(Op::Mul), lhs: Box::new(x), rhs: Box::new(y) };
                }
                match c.below(4) {
                    0 => Aggregation::sum(x),
                    1 => Aggregation::min(x),
                    2 => Aggregation::max(x),
                    _ => Aggregation::none(x),
                }
            })
            .collect();
        let mask: Option<Vec<u32>> = c.chance(0.4).then(|| (0..n as u32).filter(|_| c.chance(0.6)).collect());
        let bm = mask.as_ref().map(|m| bitmap(m));
        script::set(script::delays(c.pick(&[0u64, 60, 300]), 0));
        let t0 = Instant::now();
        let r = guard(|| {
            if several {
                Aggregation::compute_multiple(&ags, &mut decs, bm.as_ref(), &mut timer).map(|_| ())
            } else {
                ags[0].compute(&mut decs, bm.as_ref(), &mut timer).map(|_| ())
            }
        });
        let wall = t0.elapsed();
        let (rd, _) = script::waited();
        script::set(None);
        c.ev(json!({"ev":"expr","codec":codec.name(),"several":several as u8,"st":r.st(),"msg":r.msg(),"wall":u(wall.as_nanos()),"rd":u(rd),
            "before":before,"segs":segs(&timer)}));
        if !matches!(r, Out::Ok(_)) {
            return;
        }
    }
}

pub fn times(c: &mut Ctx) {
    for _ in 0..c.n(12, 120) {
        for codec in ALL {
            encoding(c, codec);
            expression(c, codec);
            let n = 1 + c.below(60);
            let Some(f) = numeric_file(c, codec, n, true, 900, true) else { continue };
            let Some(mut d) = opened(c, &f) else { continue };
            c.ev(json!({"ev":"fresh","segs":segs(&d.segmented_execution_times())}));
            for _ in 0..6 {
                let op = c.pick(&["mat", "fmat", "filter", "sum", "min", "max", "knn", "matmul"]);
                if !query(c, &f, &mut d, op) {
                    break;
                }
            }
        }
    }
}
