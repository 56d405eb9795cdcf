//! C22: the TPC-H queries.
use crate::util::*;
use arrow::array::{ArrayRef, Decimal128Array, StringArray};
use arrow::record_batch::RecordBatch;
use ebi::api::decoder::AggregationResult;
use experimenter::tpch;
use parquet::arrow::ArrowWriter;
use parquet::file::properties::WriterProperties;
use rand::Rng;
use serde_json::{json, Value};
use std::sync::Arc;

/// [quantity, price, discount, tax] in hundredths
type Row = [i64; 4];

fn rows(c: &mut Ctx, n: usize) -> Vec<Row> {
    // sums of products in millionths, with slack for intervals, stay within 32 bits
    let cap = (1_700_000_000i64 / (n.max(1) as i64 * 90_000)).clamp(1, 2000);
    (0..n)
        .map(|_| {
            let q = match c.below(4) {
                0 => c.pick(&[2300, 2400, 2500, 2399, 2401, 100]),
                _ => c.rng.gen_range(1i64..=50) * 100,
            };
            let d = match c.below(3) {
                0 => c.pick(&[4, 5, 6, 7, 8]),
                _ => c.rng.gen_range(0i64..=10),
            };
            [q, c.rng.gen_range(0..=cap), d, c.rng.gen_range(0i64..=8)]
        })
        .collect()
}

/// writes the columns in some order, in some row groups, next to columns that are no decimals
fn write(c: &mut Ctx, path: &str, rows: &[Row], with_tax: bool) {
    let dec = |k: usize| -> ArrayRef {
        Arc::new(Decimal128Array::from_iter_values(rows.iter().map(|r| r[k] as i128)).with_precision_and_scale(15, 2).unwrap())
    };
    let flag = |s: &str| -> ArrayRef { Arc::new(StringArray::from(vec![s; rows.len()])) };
    let mut cols: Vec<(&str, ArrayRef)> = vec![("l_quantity", dec(0)), ("l_extendedprice", dec(1)), ("l_discount", dec(2))];
    if with_tax {
        cols.push(("l_tax", dec(3)));
        cols.push(("l_returnflag", flag("R")));
        cols.push(("l_linestatus", flag("F")));
    }
    for i in (1..cols.len()).rev() {
        let j = c.below(i + 1);
        cols.swap(i, j);
    }
    let batch = RecordBatch::try_from_iter(cols).unwrap();
    let props = WriterProperties::builder().set_max_row_group_size(c.pick(&[7usize, 100, 1000, 100000]).max(rows.len() / 50 + 1)).build();
    let f = std::fs::File::create(path).unwrap();
    let mut w = ArrowWriter::try_new(f, batch.schema(), Some(props)).unwrap();
    w.write(&batch).unwrap();
    w.close().unwrap();
}

/// a result scaled to an integer: [value, 1 if it is one, kind]
fn scaled(r: &AggregationResult, f: f64) -> Value {
    match r {
        AggregationResult::Scalar(v) => {
            let x = v * f;
            let y = x.round();
            if !x.is_finite() || y.abs() > 2e9 {
                json!([-1, 0, 0])
            } else {
                json!([y as i64, ((x - y).abs() < 0.02) as u8, 0])
            }
        }
        AggregationResult::Integer(n) => json!([*n as i64, 1, 1]),
        AggregationResult::Array(_) => json!([-1, 0, 2]),
    }
}

fn stats_ok(m: &std::collections::HashMap<String, experimenter::CompressStatistics>, n: usize, cols: usize) -> u8 {
    (m.len() == cols
        && m.values().all(|s| {
            s.uncompressed_size == 8 * n as u64
                && s.compressed_size >= s.compressed_size_chunk_only
                && (s.compression_ratio * s.uncompressed_size as f64 - s.compressed_size as f64).abs() < 1e-6 * s.compressed_size as f64
                && (s.compression_ratio_chunk_only * s.uncompressed_size as f64 - s.compressed_size_chunk_only as f64).abs()
                    <= 1e-6 * s.compressed_size as f64
        })) as u8
}

pub fn run(c: &mut Ctx, outdir: &str) {
    for rep in 0..c.n(30, 400) {
        let n = match c.below(5) {
            0 => 1 + c.below(4),
            1 => 1000 + c.below(60),
            2 => 1024 * (1 + c.below(3)),
            3 if c.chance(0.05) => 8192 + c.below(3000),
            _ => 1 + c.below(120),
        };
        let rs = rows(c, n);
        let rs6 = if c.chance(0.5) { rs.clone() } else { let m = 1 + c.below(200); rows(c, m) };
        let dir = format!("{outdir}/tpch_{}_{rep}", c.shard);
        std::fs::create_dir_all(&dir).unwrap();
        write(c, &format!("{dir}/h01.parquet"), &rs, true);
        write(c, &format!("{dir}/h06.parquet"), &rs6, false);
        std::fs::write(format!("{dir}/notes.txt"), "other").unwrap();
        let r = guard(|| tpch::tpch_command(&dir));
        let (n1, n6) = (rs.len() as f64, rs6.len() as f64);
        let _ = n6;
        c.ev(json!({"begin":1,"ev":"tables","rows":rs,"rows6":rs6,"st":r.st(),"msg":r.msg()}));
        if let Out::Ok(r) = r {
            for (k, v) in &r.h01 {
                // quantity and price sums in hundredths, products in 10^-4 and 10^-6, averages as sums
                let f = [1e2, 1e2, 1e4, 1e6, 1e2 * n1, 1e2 * n1, 1e2 * n1, 1.0];
                let res: Vec<Value> = v.result.iter().zip(f.iter().chain(std::iter::repeat(&1.0))).map(|(x, f)| scaled(x, *f)).collect();
                c.ev(json!({"ev":"q01","method":k,"res":res,"names":v.query_names[1..].to_vec(),"stats":stats_ok(&v.compression, rs.len(), 4)}));
            }
            for (k, v) in &r.h01_simplified {
                let f = [1e2, 1e2, 1e2 * n1, 1e2 * n1, 1e2 * n1, 1.0];
                let res: Vec<Value> = v.result.iter().zip(f.iter().chain(std::iter::repeat(&1.0))).map(|(x, f)| scaled(x, *f)).collect();
                c.ev(json!({"ev":"q01s","method":k,"res":res,"names":v.query_names[1..].to_vec(),"stats":stats_ok(&v.compression, rs.len(), 4)}));
            }
            for (k, v) in &r.h06 {
                let res: Vec<Value> = v.result.iter().map(|x| scaled(x, 1e4)).collect();
                c.ev(json!({"ev":"q06","method":k,"res":res,"stats":stats_ok(&v.compression, rs6.len(), 3)}));
            }
        }
        std::fs::remove_dir_all(&dir).unwrap();
    }
}
