//! C04: how the input is delivered.  C05: crashes, failing outputs, truncated files.
use crate::data::*;
use crate::fileq::*;
use crate::util::*;
use ebi::api::decoder::{Decoder, DecoderInput, DecoderOutput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::encoder::ChunkOption;
use rand::Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{self, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

// ---------------------------------------------------------------- C04

/// -1: interrupted, -2: failure, k > 0: at most k bytes
struct Sched<'a> {
    data: &'a [u8],
    pos: usize,
    sched: Vec<i64>,
    at: usize,
    kind: ErrorKind,
    sticky: bool,
    failed: bool,
}

impl Read for Sched<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.failed && self.sticky {
            return Err(io::Error::new(self.kind, "again"));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let k = self.sched.get(self.at).copied().unwrap_or(i64::MAX);
        self.at += 1;
        match k {
            -1 => Err(io::Error::new(ErrorKind::Interrupted, "interrupted")),
            -2 => {
                self.failed = true;
                Err(io::Error::new(self.kind, "read failed"))
            }
            k => {
                let n = (k as usize).min(buf.len()).min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied, ErrorKind::InvalidData, ErrorKind::UnexpectedEof, ErrorKind::InvalidInput,
];

fn sizes_of(bytes: &[u8]) -> Out<Vec<usize>> {
    guard(|| {
        let d = Decoder::new(DecoderInput::from_reader(Cursor::new(bytes)))?;
        let mut st: Vec<usize> = d.chunk_footers().iter().map(|c| c.logical_offset() as usize).collect();
        st.push(d.footer().number_of_records() as usize);
        ebi_dec(st.windows(2).map(|w| w[1].wrapping_sub(w[0]).min(1 << 30)).collect())
    })
}

fn deliver(c: &mut Ctx, codec: Codec, total: usize, opt: ChunkOption, sched: Vec<i64>) {
    let n = total / 8;
    let (vals, ks) = if codec.decimal() {
        let ks = ints(c, n, 1000);
        (ks.iter().map(|k| dec(*k, 2)).collect::<Vec<f64>>(), Some(ks))
    } else {
        (floats(c, codec, n), None)
    };
    let p = if codec.decimal() { 2 } else { 0 };
    let mut data: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes()).collect();
    while data.len() < total {
        data.push(c.rng.gen());
    }
    let fails = sched.contains(&-2);
    let kind = c.pick(&KINDS);
    let sticky = c.chance(0.5);
    // the reference: everything at once, from a slice of complete records
    let Some(f) = make_file(c, codec, p, 0, vals, ks, opt, false) else { return };
    let (cfg, _) = codec.config(c, 10u64.pow(p));
    let r = guard(|| {
        let rd = Sched { data: &data, pos: 0, sched: sched.clone(), at: 0, kind, sticky, failed: false };
        let mut e = Encoder::new(EncoderInput::from_reader(rd), EncoderOutput::from_vec(vec![]), opt, cfg);
        e.encode()?;
        ebi_ok(e.into_output().into_vec())
    });
    let mut e = json!({"ev":"delivered","total":total,"sched":sched,"fails":fails as u8,"kind":format!("{kind:?}"),"st":r.st(),"msg":r.msg()});
    if let Out::Ok(b) = &r {
        let s = sizes_of(b);
        e["sizes"] = match s {
            Out::Ok(s) => json!(s),
            _ => json!([-1]),
        };
        e["out"] = match open(b) {
            Out::Ok(mut d) => match guard(|| {
                let mut o = DecoderOutput::from_vec(vec![]);
                d.materialize(&mut o, None, None)?;
                ebi_dec(o.into_writer().into_inner())
            }) {
                Out::Ok(o) => json!(f.ids_of_bytes(&o)),
                _ => json!([-3]),
            },
            _ => json!([-4]),
        };
    }
    c.ev(e);
}

pub fn delivery(c: &mut Ctx) {
    // schedules generated by TLC from the specification
    let scn = c.my_scn();
    for (i, s) in scn.iter().enumerate() {
        let v: Value = serde_json::from_str(s).expect("scenario");
        let total = v["total"].as_u64().unwrap() as usize;
        let cap = v["cap"].as_i64().unwrap();
        let sched: Vec<i64> = v["sched"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let opt = if cap == 0 { ChunkOption::Full } else { ChunkOption::RecordCount(cap as usize) };
        deliver(c, ALL[(i * 7 + c.shard) % ALL.len()], total, opt, sched);
    }
    // more than a block of the usual buffers: pieces and interruptions anywhere
    for i in 0..c.n(3, 12) {
        let codec = ALL[(c.shard * 3 + i) % ALL.len()];
        let n = if i == 0 { 65536 / 8 + c.below(4000) } else { 9000 + c.below(12000) };
        let total = n * 8 + c.below(8);
        let mut sched = vec![];
        let mut left = total as i64;
        let pieces: &[i64] = if c.chance(0.5) { &[8, 4096, 8192, 16384, 65536, 70000] } else { &[1000, 8191, 12345, 32768, 65535, 65537] };
        while left > 0 {
            while c.chance(0.3) {
                sched.push(-1);
            }
            let k = c.pick(pieces);
            sched.push(k);
            left -= k;
        }
        if c.chance(0.2) {
            let at = sched.len() - c.below(sched.len().min(4));
            sched.truncate(at);
            sched.push(-2);
        } else {
            sched.push(-1);
        }
        let opt = match c.below(3) {
            0 => ChunkOption::RecordCount(c.pick(&[8191, 8192, 8193, 8200])),
            _ => ChunkOption::Full,
        };
        deliver(c, codec, total, opt, sched);
    }
    // longer random ones
    for _ in 0..c.n(25, 200) {
        for codec in ALL {
            let n = match c.below(60) {
                0 => mid_length(c, 10000),
                1 if c.chance(0.15) => 65536 + c.below(4000),
                _ => length(c).min(300),
            };
            let total = n * 8 + if c.chance(0.4) { c.below(8) } else { 0 };
            let mut sched = vec![];
            let style = if n > 960 { 4 } else { c.below(4) };
            let mut left = total as i64;
            while left > 0 && sched.len() < 400 {
                if c.chance(0.15) {
                    sched.push(-1);
                    continue;
                }
                let k = match style {
                    0 => 1 + c.below(9) as i64,
                    1 => c.pick(&[1i64, 7, 8, 9, 63, 64, 65, 1000]),
                    2 => 1 + c.below(200) as i64,
                    4 => c.pick(&[1i64, 8, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000]),
                    _ => c.pick(&[3i64, 5, 13]),
                };
                sched.push(k);
                left -= k;
            }
            if c.chance(0.2) {
                let at = c.below(sched.len() + 1);
                sched.truncate(at);
                sched.push(-2);
            } else {
                for _ in 0..c.below(4) {
                    sched.push(-1);
                }
            }
            let opt = chunk_option(c, n);
            deliver(c, codec, total, opt, sched);
        }
    }
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug)]
enum Op {
    Write(u64, Vec<u8>),
    Seek,
    Flush,
}

#[derive(Default)]
struct Disk {
    img: Vec<u8>,
    pos: u64,
    ops: Vec<Op>,
    fail_at: Option<usize>, // operation number
    sticky: bool,
    failed: bool,
    zero: bool,          // report Ok(0) instead of an error
    max_write: usize,    // short writes
    room: Option<usize>, // disk full after that many bytes
    intr: u32,
}

#[derive(Clone)]
struct Out2(Rc<RefCell<Disk>>);

impl Disk {
    fn put(&mut self, b: &[u8]) {
        let p = self.pos as usize;
        if self.img.len() < p + b.len() {
            self.img.resize(p + b.len(), 0);
        }
        self.img[p..p + b.len()].copy_from_slice(b);
        self.pos += b.len() as u64;
    }
    fn fault(&mut self) -> bool {
        let f = self.fail_at == Some(self.ops.len()) || (self.failed && self.sticky);
        self.failed |= f;
        f
    }
}

fn eio() -> io::Error {
    io::Error::new(ErrorKind::Other, "output failed")
}

impl Write for Out2 {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut d = self.0.borrow_mut();
        if d.intr > 0 && d.ops.len() % 3 == 1 {
            d.intr -= 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        if d.fault() {
            d.ops.push(Op::Flush);
            return if d.zero { Ok(0) } else { Err(eio()) };
        }
        let mut n = buf.len().min(d.max_write);
        if let Some(r) = d.room {
            let end = (d.pos as usize + n).min(r.max(d.pos as usize));
            n = end - d.pos as usize;
            if n == 0 && !buf.is_empty() {
                d.failed = true;
                return Err(io::Error::new(ErrorKind::StorageFull, "full"));
            }
        }
        let p = d.pos;
        d.ops.push(Op::Write(p, buf[..n].to_vec()));
        d.put(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut d = self.0.borrow_mut();
        if d.fault() {
            d.ops.push(Op::Flush);
            return Err(eio());
        }
        d.ops.push(Op::Flush);
        Ok(())
    }
}

impl Seek for Out2 {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let mut d = self.0.borrow_mut();
        if d.fault() {
            d.ops.push(Op::Seek);
            return Err(eio());
        }
        d.pos = match s {
            SeekFrom::Start(x) => x,
            SeekFrom::End(x) => (d.img.len() as i64 + x) as u64,
            SeekFrom::Current(x) => (d.pos as i64 + x) as u64,
        };
        d.ops.push(Op::Seek);
        Ok(d.pos)
    }
}

/// what opening and reading an image gives
fn outcome(f: &File, img: &[u8]) -> Value {
    let r = guard(|| Decoder::new(DecoderInput::from_reader(Cursor::new(img))));
    let mut d = match r {
        Out::Ok(d) => d,
        o => return json!({"st": o.st(), "msg": o.msg()}),
    };
    let r = guard(|| {
        let mut o = DecoderOutput::from_vec(vec![]);
        d.materialize(&mut o, None, None)?;
        ebi_dec(o.into_writer().into_inner())
    });
    match r {
        Out::Ok(b) => json!({"st":"ok","n": d.footer().number_of_records().min(1 << 30), "out": f.ids_of_bytes(&b)}),
        // opened, but not readable
        o => json!({"st": format!("open-{}", o.st()), "msg": o.msg()}),
    }
}

fn run_encode(f: &File, cfgseed: ebi::compressor::CompressorConfig, opt: ChunkOption, disk: Disk, buffered: bool) -> (Out<()>, Rc<RefCell<Disk>>) {
    let rc = Rc::new(RefCell::new(disk));
    let o = Out2(rc.clone());
    let r = if buffered {
        let out = EncoderOutput::from_writer(o).into_buffered();
        let mut e = Encoder::new(EncoderInput::from_f64_slice(&f.vals), out, opt, cfgseed);
        let r = guard(|| e.encode());
        // the caller may lose the buffer: what counts is what reached the output by now
        std::mem::forget(e);
        r
    } else {
        let mut e = Encoder::new(EncoderInput::from_f64_slice(&f.vals), EncoderOutput::from_writer(o), opt, cfgseed);
        guard(|| e.encode())
    };
    (r, rc)
}

/// The footer offset slot (8 bytes) is assumed to reach the disk as a unit.
fn torn_slot(pos: u64, n: usize) -> bool {
    let end = pos + n as u64;
    end > 16 && end < 24 && pos < 24
}

pub fn crashes(c: &mut Ctx) {
    let per = c.n(5, 40);
    for _ in 0..per {
        for codec in ALL {
            let n = match c.below(5) {
                0 => c.below(3),
                _ => 1 + c.below(24),
            };
            let opt = match c.below(4) {
                0 => ChunkOption::Full,
                1 => ChunkOption::ByteSizeBestEffort(c.pick(&[8, 32, 64])),
                _ => ChunkOption::RecordCount(1 + c.below(n.max(1))),
            };
            let (vals, ks, p) = if codec.decimal() {
                let ks = ints(c, n, 100000);
                (ks.iter().map(|k| dec(*k, 2)).collect::<Vec<f64>>(), Some(ks), 2)
            } else {
                (floats(c, codec, n), None, 0)
            };
            let Some(f) = make_file(c, codec, p, 0, vals, ks, opt, false) else { continue };
            let (cfg, _) = codec.config(c, 100);
            one_crash(c, &f, cfg, opt);
        }
    }
}

fn one_crash(c: &mut Ctx, f: &File, cfg: ebi::compressor::CompressorConfig, opt: ChunkOption) {
    // 1. an undisturbed run gives the operations
    let (r, rc) = run_encode(f, cfg, opt, Disk { max_write: usize::MAX, ..Default::default() }, false);
    let d = rc.borrow();
    let mut e = json!({"ev":"end","how":"plain","enc":r.st()});
    e["img"] = outcome(f, &d.img);
    c.ev(e);
    if !matches!(r, Out::Ok(_)) {
        return;
    }
    let ops = d.ops.clone();
    let full = d.img.clone();
    // 2. a crash after every prefix of the writes
    let mut imgs: Vec<Value> = vec![];
    let mut disk = Disk { max_write: usize::MAX, ..Default::default() };
    let mut last: Option<Vec<u8>> = None;
    let cap = if c.thorough { usize::MAX } else { 700 };
    let total: usize = ops.iter().map(|o| if let Op::Write(_, b) = o { b.len() } else { 1 }).sum();
    for (i, o) in ops.iter().enumerate() {
        if let Op::Write(p, b) = o {
            for k in 0..=b.len() {
                if torn_slot(*p, k) {
                    continue;
                }
                if k != 0 && k != b.len() && total > cap && !c.chance(cap as f64 / total as f64) {
                    continue;
                }
                let mut t = Disk { img: disk.img.clone(), pos: *p, max_write: usize::MAX, ..Default::default() };
                t.put(&b[..k]);
                if last.as_ref() == Some(&t.img) {
                    continue;
                }
                let mut v = outcome(f, &t.img);
                v["at"] = json!([i, k]);
                imgs.push(v);
                last = Some(t.img);
            }
            disk.pos = *p;
            disk.put(b);
        }
    }
    c.ev(json!({"ev":"images","how":"crash","imgs":imgs}));
    // 3. truncations of the finished file
    let mut imgs: Vec<Value> = vec![];
    for k in 0..full.len() {
        if full.len() > cap && !c.chance(cap as f64 / full.len() as f64) {
            continue;
        }
        let mut v = outcome(f, &full[..k]);
        v["at"] = json!([k]);
        imgs.push(v);
    }
    c.ev(json!({"ev":"images","how":"prefix","imgs":imgs}));
    // 4. wrong magic
    let mut imgs: Vec<Value> = vec![];
    for k in 0..4 {
        for _ in 0..3 {
            let mut b = full.clone();
            b[k] ^= 1 << c.below(8);
            let mut v = outcome(f, &b);
            v["at"] = json!([k]);
            imgs.push(v);
        }
    }
    for m in [b"EBI0", b"EBI2", b"ebi1", b"1IBE", b"\0\0\0\0"] {
        let mut b = full.clone();
        b[..4].copy_from_slice(m);
        let mut v = outcome(f, &b);
        v["at"] = json!([9]);
        imgs.push(v);
    }
    c.ev(json!({"ev":"images","how":"magic","imgs":imgs}));
    // 5. every operation fails once
    for buffered in [false, true] {
        let nops = if buffered {
            let (r, rc) = run_encode(f, cfg, opt, Disk { max_write: usize::MAX, ..Default::default() }, true);
            let d = rc.borrow();
            let mut e = json!({"ev":"end","how":"buffered","enc":r.st()});
            e["img"] = outcome(f, &d.img);
            c.ev(e);
            let n = d.ops.len();
            n
        } else {
            ops.len()
        };
        for i in 0..nops {
            let disk = Disk { max_write: usize::MAX, fail_at: Some(i), sticky: c.chance(0.5), zero: c.chance(0.2), ..Default::default() };
            fail_event(c, f, cfg, opt, disk, buffered, "op", i);
        }
    }
    // 6. full disk
    for _ in 0..6 {
        let room = c.below(full.len());
        let disk = Disk { max_write: usize::MAX, room: Some(room), ..Default::default() };
        let b = c.chance(0.3);
        fail_event(c, f, cfg, opt, disk, b, "room", room);
    }
    // 7. short and interrupted writes are no failure
    for k in [1usize, 3, 7] {
        let (r, rc) = run_encode(f, cfg, opt, Disk { max_write: k, intr: 5, ..Default::default() }, false);
        let d = rc.borrow();
        let mut e = json!({"ev":"end","how":"short","enc":r.st(),"msg":r.msg()});
        e["img"] = outcome(f, &d.img);
        c.ev(e);
    }
    // 8. reading through a failing input
    let mut imgs = vec![];
    for k in 0..40 {
        let v = read_fault(f, &full, k, c.chance(0.5));
        let done = v["reads"].as_u64().unwrap_or(0) < k as u64;
        imgs.push(v);
        if done {
            break;
        }
    }
    c.ev(json!({"ev":"images","how":"read","imgs":imgs}));
}

#[allow(clippy::too_many_arguments)]
fn fail_event(c: &mut Ctx, f: &File, cfg: ebi::compressor::CompressorConfig, opt: ChunkOption, disk: Disk, buffered: bool, how: &str, at: usize) {
    let (r, rc) = run_encode(f, cfg, opt, disk, buffered);
    let d = rc.borrow();
    let mut e = json!({"ev":"wfail","how":how,"at":at,"buffered":buffered as u8,"failed":d.failed as u8,"enc":r.st(),"msg":r.msg()});
    e["img"] = outcome(f, &d.img);
    c.ev(e);
}

struct FailRead<'a> {
    c: Cursor<&'a [u8]>,
    reads: Rc<RefCell<usize>>,
    at: usize,
    short: bool,
}
impl Read for FailRead<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = self.reads.borrow_mut();
        *n += 1;
        if *n == self.at + 1 {
            return Err(eio());
        }
        let k = if self.short { buf.len().min(13) } else { buf.len() };
        self.c.read(&mut buf[..k])
    }
}
impl Seek for FailRead<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.c.seek(s)
    }
}

fn read_fault(f: &File, img: &[u8], at: usize, short: bool) -> Value {
    let reads = Rc::new(RefCell::new(0));
    let r = guard(|| {
        let rd = FailRead { c: Cursor::new(img), reads: reads.clone(), at, short };
        let mut d = Decoder::new(DecoderInput::from_reader(rd))?;
        let mut o = DecoderOutput::from_vec(vec![]);
        d.materialize(&mut o, None, None)?;
        let n = d.footer().number_of_records();
        ebi_dec((n, o.into_writer().into_inner()))
    });
    let mut v = match &r {
        Out::Ok((n, b)) => json!({"st":"ok","n":(*n).min(1 << 30),"out":f.ids_of_bytes(b)}),
        o => json!({"st":o.st(),"msg":o.msg()}),
    };
    v["reads"] = json!(*reads.borrow());
    v["at"] = json!([at]);
    v["hit"] = json!((*reads.borrow() > at) as u8);
    v
}
