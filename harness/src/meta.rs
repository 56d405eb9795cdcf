//! Metadata and layout: C03 (what the decoder reports about real files) and C16 (serialization).
use crate::data::*;
use crate::fileq::*;
use crate::util::*;
use ebi::api::decoder::{Decoder, DecoderInput};
use ebi::compressor::CompressorConfig;
use ebi::decoder::FileReader;
use ebi::encoder::{ChunkOption, FileWriter};
use ebi::format::deserialize::{FromLeBytes, TryFromLeBytes};
use ebi::format::serialize::{AsBytes, ToLe};
use ebi::format::*;
use ebi::time::{SegmentedExecutionTimes, SerializableSegmentedExecutionTimes};
use rand::Rng;
use serde_json::{json, Value};
use std::io::{Cursor, Seek, SeekFrom};

fn b8(v: u64) -> Vec<u8> {
    v.to_le_bytes().to_vec()
}
fn b16(v: u128) -> Vec<u8> {
    v.to_le_bytes().to_vec()
}

fn opt_json(o: &ChunkOption) -> (u8, Vec<u8>) {
    match o {
        ChunkOption::Full => (0, b8(0)),
        ChunkOption::RecordCount(n) => (1, b8(*n as u64)),
        ChunkOption::ByteSizeBestEffort(n) => (2, b8(*n as u64)),
    }
}

fn cfg_bytes(cfg: CompressorConfig) -> Vec<u8> {
    let mut v = vec![];
    cfg.serialize(&mut v).unwrap();
    v
}

fn segs(t: &SegmentedExecutionTimes) -> Vec<Vec<u8>> {
    [t.io_read(), t.io_write(), t.xor(), t.delta(), t.quantization(), t.bit_packing(), t.compare_insert(), t.sum(), t.decompression()]
        .iter()
        .map(|d| b16(d.as_nanos()))
        .collect()
}

/// everything a decoder reports about a file
pub fn report(bytes: &[u8]) -> Out<Value> {
    guard(|| {
        let d = Decoder::new(DecoderInput::from_reader(Cursor::new(bytes)))?;
        let h = d.header();
        let f = d.footer();
        let (kind, value) = opt_json(h.config().chunk_option());
        let foots: Vec<Value> = d.chunk_footers().iter().map(|c| json!([b8(c.physical_offset()), b8(c.logical_offset())])).collect();
        // chunk handles
        let mut r = FileReader::new();
        let mut cur = Cursor::new(bytes);
        r.fetch_header(&mut cur)?;
        r.seek_to_footer(&mut cur)?;
        r.fetch_footer(&mut cur)?;
        let md = r.into_metadata().unwrap();
        // chunk handle sizes wrap on inconsistent offsets: only asked for on consistent ones
        let ph: Vec<u64> = d.chunk_footers().iter().map(|c| c.physical_offset()).chain([h.footer_offset()]).collect();
        let lo: Vec<u64> = d.chunk_footers().iter().map(|c| c.logical_offset()).chain([f.number_of_records()]).collect();
        let sane = ph.windows(2).all(|w| w[0] <= w[1]) && lo.windows(2).all(|w| w[0] <= w[1]);
        let handles: Vec<Value> = if sane {
            md.chunks_iter()
                .map(|c| {
                    let rr = c.logical_record_range();
                    let small = rr.end < u32::MAX as u64;
                    let r32 = if small { c.logical_record_range_u32() } else { 0..0 };
                    let mut cur = Cursor::new(bytes);
                    let mut at = |end: bool| -> Vec<u8> {
                        let r = if end { c.seek_to_chunk_end(&mut cur) } else { c.seek_to_chunk(&mut cur) };
                        r.and_then(|_| cur.stream_position()).map(b8).unwrap_or_default()
                    };
                    let (s, e) = (at(false), at(true));
                    json!([b8(c.chunk_size()), b8(c.number_of_records()), b8(c.physical_offset()), b8(c.next_physical_offset()),
                       b8(rr.start), b8(rr.end), b8(c.logical_offset()), b8(c.next_logical_offset()), c.is_last_chunk() as u8, c.chunk_index().min(1 << 30),
                       if small { b8(r32.start as u64) } else { b8(rr.start) }, if small { b8(r32.end as u64) } else { b8(rr.end) }, s, e])
                })
                .collect()
        } else {
            vec![]
        };
        let sizes = if sane { json!([b8(d.footer_size()), b8(d.total_chunk_size()), b8(d.total_file_size())]) } else { json!([]) };
        let v: Vec<u16> = h.version().to_vec();
        ebi_dec(json!({"magic": h.magic_number().to_vec(), "ft": *h.config().field_type() as u8, "id": *h.config().compression_scheme() as u8,
            "kind": kind, "value": value, "foff": b8(h.footer_offset()), "ver": v,
            "nrec": b8(f.number_of_records()), "nch": f.number_of_chunks().min(1 << 30), "foots": foots, "cfg": cfg_bytes(*f.compressor_config()),
            "scheme2": f.compressor_config().compression_scheme() as u8, "csize": f.compressor_config().serialized_size(),
            "elapsed": b16(f.compression_elapsed_time_nano_secs()), "elapsed2": b16(f.compression_elapsed_time().as_nanos()), "fsize": f.size(), "segs": segs(f.segmented_execution_times()), "crc": f.crc().to_le_bytes().to_vec(),
            "sane": sane as u8, "handles": handles, "sizes": sizes}))
    })
}

/// C03: real files, their metadata, and each chunk alone.
pub fn meta(c: &mut Ctx) {
    for codec in big_codecs(c) {
        let Some(f) = big_file(c, codec, false) else { continue };
        let r = report(&f.bytes);
        let mut e = json!({"ev":"meta","st":r.st(),"msg":r.msg(),"b":f.bytes,"cfgv":f.cfgv});
        if let Out::Ok(v) = r {
            e["r"] = v;
        }
        c.ev(e);
        let Some(mut d) = opened(c, &f) else { continue };
        for i in 0..f.sizes.len() {
            whole(c, &f, &mut d, &Args { ch: i as i64, mask: None });
        }
    }
    // many chunks
    let mut many: Vec<(Codec, bool)> = (0..c.n(2, 12)).map(|_| (c.pick(&ALL), false)).collect();
    if c.shard == 1 || c.thorough && c.shard < 8 {
        many.push((c.pick(&[Codec::Uncompressed, Codec::RLE, Codec::Gorilla, Codec::Chimp, Codec::Sprintz]), true));
    }
    for (codec, huge) in many {
        let Some(f) = many_chunks(c, codec, huge) else { continue };
        let r = report(&f.bytes);
        let mut e = json!({"ev":"meta","st":r.st(),"msg":r.msg(),"b":f.bytes,"cfgv":f.cfgv});
        if let Out::Ok(v) = r {
            e["r"] = v;
        }
        c.ev(e);
        let Some(mut d) = opened(c, &f) else { continue };
        let k = f.sizes.len();
        for i in [0, 1, 254, 255, 256, 257, 65535, 65536, k - 1, c.below(k), c.below(k), c.below(k)] {
            if i < k {
                whole(c, &f, &mut d, &Args { ch: i as i64, mask: None });
            }
        }
        whole(c, &f, &mut d, &Args { ch: -1, mask: None });
    }
    let per = c.n(35, 250);
    for round in 0..per {
        for codec in ALL {
            let n = match c.below(6) {
                0 => c.below(3),
                5 => c.below(250),
                _ => c.below(60),
            };
            let n = if round % 7 == 6 { 256 + c.below(500) } else { n };
            let f = if codec.decimal() || c.chance(0.3) {
                numeric_file(c, codec, n, false, 1 << 30, false)
            } else {
                let vals = floats(c, codec, n);
                let opt = chunk_option(c, n);
                make_file(c, codec, 0, 0, vals, None, opt, false)
            };
            let Some(f) = f else { continue };
            let r = report(&f.bytes);
            let mut e = json!({"ev":"meta","st":r.st(),"msg":r.msg(),"b":f.bytes,"cfgv":f.cfgv});
            if let Out::Ok(v) = r {
                e["r"] = v;
            }
            c.ev(e);
            let Some(mut d) = opened(c, &f) else { continue };
            // each chunk alone, in random order
            let mut ids: Vec<usize> = (0..f.sizes.len()).collect();
            for i in (1..ids.len()).rev() {
                ids.swap(i, c.below(i + 1));
            }
            ids.truncate(40);
            for i in ids {
                let a = Args { ch: i as i64, mask: None };
                whole(c, &f, &mut d, &a);
            }
            chunk_session(c, &f, &mut d, &["full", "iter", "mat"], 1);
            let a = Args { ch: -1, mask: None };
            whole(c, &f, &mut d, &a);
        }
    }
}

fn any64(c: &mut Ctx) -> u64 {
    match c.below(6) {
        0 => c.pick(&[0, 1, 255, 256, 65535, 65536, 1 << 31, 1 << 32, u64::MAX, u64::MAX - 1, 1 << 63, 0x0102030405060708]),
        1 => c.rng.gen::<u64>() & 0xff << (8 * c.below(8)),
        2 => c.rng.gen::<u32>() as u64,
        _ => c.rng.gen(),
    }
}
/// nanoseconds that fit a Duration
fn any_nanos(c: &mut Ctx) -> u128 {
    let max = u64::MAX as u128 * 1_000_000_000 + 999_999_999;
    match c.below(6) {
        0 => c.pick(&[0u128, 1, 999_999_999, 1_000_000_000, 1_000_000_001, max, u64::MAX as u128, u64::MAX as u128 + 1, 1 << 32]),
        1 => c.rng.gen_range(0..5_000_000_000u128),
        2 => c.rng.gen::<u64>() as u128,
        _ => c.rng.gen::<u128>() % (max + 1),
    }
}

fn any_config(c: &mut Ctx, codec: Codec) -> (CompressorConfig, Vec<Vec<u8>>) {
    let (a, s) = (any64(c), any64(c));
    macro_rules! cap {
        ($m:ident) => {
            (CompressorConfig::$m().capacity(a).build().into(), vec![b8(a)])
        };
    }
    match codec {
        Codec::Uncompressed => cap!(uncompressed),
        Codec::RLE => cap!(rle),
        Codec::Gorilla => cap!(gorilla),
        Codec::Chimp => cap!(chimp),
        Codec::Chimp128 => cap!(chimp128),
        Codec::ElfOnChimp => cap!(elf_on_chimp),
        Codec::Elf => cap!(elf),
        Codec::BUFF => (CompressorConfig::buff().scale(s).build().into(), vec![b8(s)]),
        Codec::Sprintz => (CompressorConfig::delta_sprintz().capacity(a).scale(s).build().into(), vec![b8(a), b8(s)]),
        Codec::Zstd => (CompressorConfig::zstd().level(a as i32).build().into(), vec![(a as i32).to_le_bytes().to_vec()]),
        Codec::Gzip => (CompressorConfig::gzip().level(a as u32).build().into(), vec![(a as u32).to_le_bytes().to_vec()]),
        Codec::Snappy => (CompressorConfig::snappy().build().into(), vec![]),
    }
}

pub fn scheme(codec: Codec) -> CompressionScheme {
    match codec {
        Codec::Uncompressed => CompressionScheme::Uncompressed,
        Codec::RLE => CompressionScheme::RLE,
        Codec::BUFF => CompressionScheme::BUFF,
        Codec::Gorilla => CompressionScheme::Gorilla,
        Codec::Chimp => CompressionScheme::Chimp,
        Codec::Chimp128 => CompressionScheme::Chimp128,
        Codec::ElfOnChimp => CompressionScheme::ElfOnChimp,
        Codec::Elf => CompressionScheme::Elf,
        Codec::Sprintz => CompressionScheme::DeltaSprintz,
        Codec::Zstd => CompressionScheme::Zstd,
        Codec::Gzip => CompressionScheme::Gzip,
        Codec::Snappy => CompressionScheme::Snappy,
    }
}

/// C16
pub fn format(c: &mut Ctx) {
    let per = c.n(60, 600);
    for _ in 0..per {
        for codec in ALL {
            one_config(c, codec);
            one_header(c, codec);
            one_written(c, codec);
            one_crafted(c, codec, false);
            one_crafted(c, codec, true);
        }
        one_struct(c);
    }
    // every unknown id
    for x in 0..=255u8 {
        if x as usize % c.shards == c.shard {
            for pos in [4usize, 5, 6] {
                crafted_byte(c, pos, x);
            }
        }
    }
}

/// configuration -> bytes -> configuration
fn one_config(c: &mut Ctx, codec: Codec) {
    let (mut cfg, mut fields) = any_config(c, codec);
    if codec.decimal() && c.chance(0.3) {
        let s = any64(c);
        cfg.set_scale(s);
        *fields.last_mut().unwrap() = b8(s);
    }
    let r = guard(|| {
        let b = cfg_bytes(cfg);
        let back = CompressorConfig::from_le_bytes(&cfg.compression_scheme(), &b[1.min(b.len())..]);
        ebi_dec(json!({"b": b, "size": cfg.serialized_size(), "back": cfg_bytes(back), "same": (format!("{back:?}") == format!("{cfg:?}")) as u8,
            "id": cfg.compression_scheme() as u8, "scale": cfg.scale().map(b8).unwrap_or_default(), "backscale": back.scale().map(b8).unwrap_or_default()}))
    });
    let mut e = json!({"begin":1,"ev":"cfg","codec":codec.name(),"fields":fields,"st":r.st(),"msg":r.msg()});
    if let Out::Ok(v) = r {
        e["r"] = v;
    }
    c.ev(e);
}

/// a header struct -> bytes -> header struct
fn one_header(c: &mut Ctx, codec: Codec) {
    let kind = c.below(3) as u8;
    let (value, foff) = (any64(c), any64(c));
    let ver: [u16; 3] = [c.rng.gen(), c.rng.gen(), c.rng.gen()];
    let mk = || FileHeader {
        magic_number: *b"EBI1",
        config: FileConfig {
            field_type: FieldType::F64,
            compression_scheme: scheme(codec),
            chunk_option: ebi::format::ChunkOption {
                kind: match kind {
                    0 => ChunkOptionKind::Full,
                    1 => ChunkOptionKind::RecordCount,
                    _ => ChunkOptionKind::ByteSize,
                },
                reserved: 0,
                value,
            },
        },
        footer_offset: foff,
        version: ver,
    };
    let r = guard(|| {
        let mut h = mk();
        let b = h.to_le().as_bytes().to_vec();
        let back = FileHeader::try_from_le_bytes(&b)?;
        let (v, f, ve) = (back.config.chunk_option.value, back.footer_offset, back.version);
        let k = match back.config.chunk_option.kind {
            ChunkOptionKind::Full => 0,
            ChunkOptionKind::RecordCount => 1,
            ChunkOptionKind::ByteSize => 2,
        };
        ebi_dec(json!({"b": b, "magic": back.magic_number.to_vec(), "ft": back.config.field_type as u8, "id": back.config.compression_scheme as u8,
            "kind": k, "value": b8(v), "foff": b8(f), "ver": ve.to_vec()}))
    });
    let mut e = json!({"begin":1,"ev":"header","codec":codec.name(),"kind":kind,"value":b8(value),"foff":b8(foff),"ver":ver.to_vec(),"st":r.st(),"msg":r.msg()});
    if let Out::Ok(v) = r {
        e["r"] = v;
    }
    c.ev(e);
}

/// footer structs -> bytes -> footer structs
fn one_struct(c: &mut Ctx) {
    let t: Vec<u128> = (0..9).map(|_| if c.chance(0.3) { c.rng.gen() } else { any_nanos(c) }).collect();
    let (a, b, crc, el) = (any64(c), any64(c), c.rng.gen::<u32>(), c.rng.gen::<u128>());
    let times = SerializableSegmentedExecutionTimes {
        io_read_nanos: t[0],
        io_write_nanos: t[1],
        xor_nanos: t[2],
        delta_nanos: t[3],
        quantization_nanos: t[4],
        bit_packing_nanos: t[5],
        compare_insert_nanos: t[6],
        sum_nanos: t[7],
        decompression_nanos: t[8],
    };
    let r = guard(|| {
        let mut f0 = FileFooter0 { number_of_records: a, number_of_chunks: b };
        let mut cf = ChunkFooter { physical_offset: a, logical_offset: b };
        let mut f3 = FileFooter3 { compression_elapsed_time_nano_secs: el, execution_elapsed_times_nano_secs: times, crc };
        let (b0, bc, b3) = (f0.to_le().as_bytes().to_vec(), cf.to_le().as_bytes().to_vec(), f3.to_le().as_bytes().to_vec());
        let r0 = FileFooter0::from_le_bytes(&b0);
        let rc = ChunkFooter::from_le_bytes(&bc);
        let r3 = FileFooter3::from_le_bytes(&b3);
        let (x0, y0, xc, yc) = (r0.number_of_records, r0.number_of_chunks, rc.physical_offset, rc.logical_offset);
        let tt = r3.execution_elapsed_times_nano_secs;
        let back: Vec<u128> = vec![
            tt.io_read_nanos, tt.io_write_nanos, tt.xor_nanos, tt.delta_nanos, tt.quantization_nanos, tt.bit_packing_nanos,
            tt.compare_insert_nanos, tt.sum_nanos, tt.decompression_nanos,
        ];
        let (e3, c3) = (r3.compression_elapsed_time_nano_secs, r3.crc);
        ebi_dec(json!({"b0": b0, "bc": bc, "b3": b3, "back0": [b8(x0), b8(y0)], "backc": [b8(xc), b8(yc)],
            "back3": back.iter().map(|x| b16(*x)).collect::<Vec<_>>(), "el3": b16(e3), "crc3": c3.to_le_bytes().to_vec()}))
    });
    let mut e = json!({"begin":1,"ev":"struct","x":b8(a),"y":b8(b),"el":b16(el),"segs":t.iter().map(|x| b16(*x)).collect::<Vec<_>>(),"crc":crc.to_le_bytes().to_vec(),"st":r.st(),"msg":r.msg()});
    if let Out::Ok(v) = r {
        e["r"] = v;
    }
    c.ev(e);
}

/// a file written piece by piece with FileWriter, with given segment times
fn one_written(c: &mut Ctx, codec: Codec) {
    let t: Vec<u128> = (0..9).map(|_| any_nanos(c)).collect();
    let times: SegmentedExecutionTimes = SerializableSegmentedExecutionTimes {
        io_read_nanos: t[0],
        io_write_nanos: t[1],
        xor_nanos: t[2],
        delta_nanos: t[3],
        quantization_nanos: t[4],
        bit_packing_nanos: t[5],
        compare_insert_nanos: t[6],
        sum_nanos: t[7],
        decompression_nanos: t[8],
    }
    .into();
    let n = c.pick(&[0usize, 0, 1, 2, 5]);
    let opt = match c.below(3) {
        0 => ChunkOption::Full,
        1 => ChunkOption::RecordCount(c.pick(&[1usize, 2, 3, 255, 256, 70000])),
        _ => ChunkOption::ByteSizeBestEffort(c.pick(&[8usize, 16, 255, 256, 70000])),
    };
    let (cfg, fields) = codec.config(c, 10);
    let vals: Vec<f64> = (0..n).map(|i| i as f64).collect();
    let input: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes()).collect();
    let r = guard(|| {
        let mut out = Cursor::new(Vec::new());
        let mut w = FileWriter::new(&input[..], cfg, opt);
        let io = |e: std::io::Error| ebi::encoder::error::EncoderError::from(e);
        w.write_header(&mut out).map_err(io)?;
        let mut comp = None;
        while let Some(mut cw) = w.chunk_writer_with_compressor(comp.take()) {
            cw.write(&mut out).map_err(|e| std::io::Error::other(e.to_string())).map_err(io)?;
            comp = Some(cw.into_compressor());
        }
        w.write_footer(&mut out, times).map_err(io)?;
        out.seek(SeekFrom::Start(w.footer_offset_slot_offset() as u64)).map_err(io)?;
        w.write_footer_offset(&mut out).map_err(io)?;
        out.seek(SeekFrom::Start(w.elapsed_time_slot_offset() as u64)).map_err(io)?;
        w.write_elapsed_time(&mut out).map_err(io)?;
        Ok::<_, ebi::encoder::error::EncoderError>(out.into_inner())
    });
    let (kind, value) = opt_json(&opt);
    let mut e = json!({"begin":1,"ev":"written","codec":codec.name(),"fields":fields,"n":n,"kind":kind,"value":value,
        "segs":t.iter().map(|x| b16(*x)).collect::<Vec<_>>(),"st":r.st(),"msg":r.msg()});
    if let Out::Ok(b) = r {
        let rep = report(&b);
        e["st"] = json!(rep.st());
        e["msg"] = json!(rep.msg());
        e["b"] = json!(b);
        if let Out::Ok(v) = rep {
            e["r"] = v;
        }
    }
    c.ev(e);
}

/// a file laid out by hand with arbitrary numbers
fn craft(c: &mut Ctx, codec: Codec) -> Vec<u8> {
    let mut b = b"EBI1".to_vec();
    b.push(0);
    b.push(scheme(codec) as u8);
    b.push(c.below(3) as u8);
    b.push(if c.chance(0.2) { c.rng.gen() } else { 0 });
    b.extend(b8(any64(c)));
    let body = c.below(40);
    b.extend(b8(30 + body as u64));
    for _ in 0..6 {
        b.push(c.rng.gen());
    }
    for _ in 0..body {
        b.push(c.rng.gen());
    }
    let nch = c.below(5);
    b.extend(b8(any64(c)));
    b.extend(b8(nch as u64));
    let inc = c.chance(0.4);
    let mut vs: Vec<(u64, u64)> = (0..nch).map(|_| (any64(c), any64(c))).collect();
    if inc {
        vs = (0..nch).map(|i| (30 + i as u64 * 3, 7 * i as u64)).collect();
    }
    for (p, l) in vs {
        b.extend(b8(p));
        b.extend(b8(l));
    }
    let (_, f) = any_config(c, codec);
    b.push(f.iter().map(|x| x.len()).sum::<usize>() as u8);
    b.extend(f.concat());
    b.extend(b16(any_nanos(c)));
    for _ in 0..9 {
        b.extend(b16(any_nanos(c)));
    }
    b.extend(c.rng.gen::<u32>().to_le_bytes());
    for _ in 0..if c.chance(0.2) { c.below(20) } else { 0 } {
        b.push(c.rng.gen());
    }
    b
}

fn one_crafted(c: &mut Ctx, codec: Codec, broken: bool) {
    let mut b = craft(c, codec);
    if broken {
        match c.below(3) {
            0 => {
                let n = c.below(b.len());
                b.truncate(n);
            }
            1 => b[c.below(4)] ^= 1 << c.below(8),
            _ => {
                let p = 4 + c.below(3);
                b[p] = c.rng.gen();
                if p == 5 && (b[5] as usize) < 12 && b[5] != scheme(codec) as u8 {
                    // another codec's configuration size: not a crafted file of this test
                    b[5] = 12 + b[5];
                }
            }
        }
    }
    crafted(c, b);
}

fn crafted_byte(c: &mut Ctx, pos: usize, x: u8) {
    let mut b = craft(c, Codec::Gorilla);
    b[pos] = x;
    if pos == 5 && (x as usize) < 12 && x != 3 {
        return;
    }
    crafted(c, b);
}

fn crafted(c: &mut Ctx, b: Vec<u8>) {
    let r = report(&b);
    let mut e = json!({"begin":1,"ev":"crafted","st":r.st(),"msg":r.msg(),"b":b});
    if let Out::Ok(v) = r {
        e["r"] = v;
    }
    c.ev(e);
}
