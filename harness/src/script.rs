//! C18: input and output of a query that deliver piecemeal, are interrupted, end early or fail.
use crate::data::*;
use crate::fileq::*;
use crate::util::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{self, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};

/// k > 0: at most k bytes, -1: interrupted, -2: failure, -3: end of input / nothing taken
#[derive(Default, Clone)]
pub struct Script {
    rs: Vec<i64>,
    ws: Vec<i64>,
    /// number of reads / writes served normally before the script begins
    rskip: usize,
    wskip: usize,
    /// the seek that fails
    seek: Option<usize>,
    kind: Option<ErrorKind>,
    r: usize,
    w: usize,
    s: usize,
    hit: bool,
    /// C19: what each read / write takes, and what they took in sum
    pub rdelay: u64,
    pub wdelay: u64,
    pub rd: u128,
    pub wd: u128,
}

/// waits and returns how long it waited
fn wait(us: u64) -> u128 {
    if us == 0 {
        return 0;
    }
    let t = std::time::Instant::now();
    std::thread::sleep(std::time::Duration::from_micros(us));
    t.elapsed().as_nanos()
}
pub fn delays(r: u64, w: u64) -> Option<Script> {
    Some(Script { rdelay: r, wdelay: w, ..Default::default() })
}
pub fn waited() -> (u128, u128) {
    S.with(|x| x.borrow().as_ref().map_or((0, 0), |s| (s.rd, s.wd)))
}

thread_local! {
    static S: RefCell<Option<Script>> = const { RefCell::new(None) };
}

pub fn set(s: Option<Script>) {
    S.with(|x| *x.borrow_mut() = s);
}
pub fn active() -> bool {
    S.with(|x| x.borrow().is_some())
}
pub fn hit() -> bool {
    S.with(|x| x.borrow().as_ref().is_some_and(|s| s.hit))
}

fn step(list: fn(&mut Script) -> Option<i64>, want: usize) -> io::Result<usize> {
    S.with(|x| {
        let mut x = x.borrow_mut();
        let Some(s) = x.as_mut() else { return Ok(want) };
        match list(s) {
            None => Ok(want),
            Some(-1) => Err(io::Error::new(ErrorKind::Interrupted, "interrupted")),
            Some(-2) => {
                s.hit = true;
                Err(io::Error::new(s.kind.unwrap_or(ErrorKind::Other), "failed"))
            }
            Some(-3) => {
                s.hit = true;
                Ok(0)
            }
            Some(k) => Ok(want.min(k as usize)),
        }
    })
}

pub struct Rdr<'a>(pub Cursor<&'a [u8]>);
impl Read for Rdr<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = step(
            |s| {
                let i = s.r;
                s.r += 1;
                if i < s.rskip { None } else { s.rs.get(i - s.rskip).copied() }
            },
            buf.len(),
        )?;
        S.with(|x| {
            if let Some(s) = x.borrow_mut().as_mut() {
                s.rd += wait(s.rdelay);
            }
        });
        self.0.read(&mut buf[..n])
    }
}
impl Seek for Rdr<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let fail = S.with(|x| {
            let mut x = x.borrow_mut();
            let Some(s) = x.as_mut() else { return false };
            let f = s.seek == Some(s.s);
            s.s += 1;
            s.hit |= f;
            f
        });
        if fail {
            return Err(io::Error::new(ErrorKind::Other, "seek failed"));
        }
        self.0.seek(p)
    }
}

pub struct Wtr<'a>(pub &'a mut Vec<u8>);
impl Write for Wtr<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = step(
            |s| {
                let i = s.w;
                s.w += 1;
                if i < s.wskip { None } else { s.ws.get(i - s.wskip).copied() }
            },
            buf.len(),
        )?;
        S.with(|x| {
            if let Some(s) = x.borrow_mut().as_mut() {
                s.wd += wait(s.wdelay);
            }
        });
        self.0.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const KINDS: [ErrorKind; 7] = [
    ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof, ErrorKind::WriteZero,
];

fn list(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}

/// one disturbed query, then an undisturbed one on the same decoder
fn disturbed(c: &mut Ctx, f: &File, s: &Script) -> bool {
    // opening may be what is disturbed
    if c.chance(0.15) {
        set(Some(s.clone()));
        let d = opened(c, f);
        let h = hit();
        set(None);
        if d.is_some() {
            c.ev(json!({"ev":"open","lvl":"dec","st":"ok","hit":h as u8}));
        }
    }
    let Some(mut d) = opened(c, f) else { return false };
    let ops = ["mat", "mat", "fmat", "fmat", "filter", "sum", "min", "max", "knn", "matmul"];
    for i in 0..2 {
        let op = c.pick(&ops);
        let op = if !f.dyadic && (op == "knn" || op == "matmul") { "mat" } else { op };
        // sums, distances and products are only specified for numbers with a scale
        let numbers = f.ks.is_some();
        let op = if !numbers && (op == "sum" || op == "knn" || op == "matmul") { "mat" } else { op };
        set(Some(s.clone()));
        dec_query(c, f, &mut d, op, false);
        set(None);
        let op = c.pick(&ops[..8]);
        let op = if !numbers && op == "sum" { "filter" } else { op };
        if !dec_query(c, f, &mut d, op, false) {
            return false;
        }
        if i == 0 && c.chance(0.5) {
            break;
        }
    }
    // an output that fails under one chunk reader
    if c.chance(0.3) && !f.sizes.is_empty() {
        chunk_write_fault(c, f, &mut d, s);
    }
    true
}

fn chunk_write_fault(c: &mut Ctx, f: &File, d: &mut Dec, s: &Script) {
    let k = c.below(f.sizes.len());
    let Out::Ok(mut cr) = guard(|| d.chunk_reader(ebi::api::decoder::ChunkId::new(k))) else { return };
    c.ev(json!({"ev":"open","lvl":"chunk","ch":k,"st":"ok"}));
    let s = Script { rs: vec![], seek: None, ..s.clone() };
    for faulty in [true, false, true, false] {
        let mut a = Args { ch: k as i64, mask: None };
        if c.chance(0.5) {
            a.mask = Some(mask(c, f.vals.len(), &f.starts));
        }
        let bm = a.mask.as_ref().map(|m| bitmap(m));
        let op = c.pick(&["mat", "fmat"]);
        let mut m = base(op, "chunk", &a);
        let (p, pj) = pred(c, f);
        set(faulty.then(|| s.clone()));
        let mut o = vec![];
        let r = guard(|| {
            if op == "mat" {
                cr.materialize(&mut Wtr(&mut o), bm.as_ref())
            } else {
                cr.filter_materialize(&mut Wtr(&mut o), p, bm.as_ref())
            }
        });
        put(&mut m, "p", pj);
        finish(&mut m, &r);
        put_out(&mut m, f, &o, false);
        set(None);
        c.ev(Value::Object(m));
    }
    c.ev(json!({"ev":"open","lvl":"dec","st":"ok"}));
}

pub fn transfers(c: &mut Ctx) {
    let scn = c.my_scn();
    let mut i = c.shard;
    for part in scn.chunks(4) {
        let codec = ALL[i % ALL.len()];
        i += 1;
        let n = 1 + c.below(30);
        let Some(f) = numeric_file(c, codec, n, true, 900, true) else { continue };
        for t in part {
            let v: Value = serde_json::from_str(t).expect("scenario");
            let big = c.pick(&[13i64, 100, 1 << 30]);
            let rs = list(&v["rs"]).into_iter().map(|k| if k == 3 { big } else { k }).collect();
            let bigw = c.pick(&[7i64, 8, 1 << 30]);
            let ws = list(&v["ws"]).into_iter().map(|k| if k == 2 { bigw } else { k }).collect();
            let s = Script { rs, ws, kind: Some(c.pick(&KINDS)), ..Default::default() };
            if !disturbed(c, &f, &s) {
                break;
            }
        }
    }
    // files, chunks and answers larger than the usual buffers
    for j in 0..c.n(9, 24) {
        let codec = ALL[(c.shard * 5 + j) % ALL.len()];
        let n = if j == 0 { 8192 + c.below(2000) } else { 1025 + c.below(2500) };
        let f = if codec.decimal() || j % 3 == 0 {
            numeric_file(c, codec, n, true, 900, true)
        } else {
            let vals = floats(c, codec, n);
            let opt = chunk_option(c, n);
            make_file(c, codec, 0, 0, vals, None, opt, false)
        };
        let Some(f) = f else { continue };
        for i in 0..3 {
            let mut s = Script { kind: Some(c.pick(&KINDS)), ..Default::default() };
            let gen = |c: &mut Ctx| -> Vec<i64> {
                let m = c.pick(&[1000i64, 4096, 8191, 1 << 30]);
                (0..300).map(|_| if c.chance(0.1) { -1 } else { m }).collect()
            };
            // a single write may take any part of what it is given
            if i != 1 {
                s.rs = gen(c);
            }
            s.ws = gen(c);
            // among the first transfers, or after hundreds of them
            let k = c.below(12);
            let (v, x) = match c.below(7) {
                0 | 1 => (&mut s.rs, -2),
                2 | 3 => (&mut s.rs, -3),
                4 => (&mut s.ws, -2),
                5 => (&mut s.ws, -3),
                _ => (&mut s.ws, 1),
            };
            let k = if k < 9 { (k / 2).min(v.len()) } else { v.len() };
            v.insert(k, x);
            s.wskip = if c.chance(0.5) { 0 } else { c.below(n + 2) };
            if !disturbed(c, &f, &s) {
                break;
            }
        }
    }
    // faults deep inside longer queries
    for _ in 0..c.n(6, 80) {
        for codec in ALL {
            let n = length(c).min(120);
            let Some(f) = numeric_file(c, codec, n, true, 900, true) else { continue };
            for _ in 0..3 {
                let mut s = Script { kind: Some(c.pick(&KINDS)), ..Default::default() };
                let gen = |c: &mut Ctx| -> Vec<i64> { (0..c.below(12)).map(|_| c.pick(&[1i64, 2, 7, 8, 9, 50, 1 << 30, -1, -1])).collect() };
                s.rs = gen(c);
                s.ws = gen(c);
                s.rskip = c.below(8);
                s.wskip = c.below(2 * n + 2);
                match c.below(6) {
                    0 => s.rs.push(-2),
                    1 => s.rs.push(-3),
                    2 => s.ws.push(-2),
                    3 => s.ws.push(-3),
                    4 => s.seek = Some(c.below(4)),
                    _ => {}
                }
                if !disturbed(c, &f, &s) {
                    break;
                }
            }
        }
    }
}
