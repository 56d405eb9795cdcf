"""Which models, generators, recorders and trace specifications decide each property."""

PROPS = {
    "C13": dict(
        level="model_checking",
        models=[dict(module="MCBitIO", cfg="MCBitIO.cfg", min_states=50000)],
        models_thorough=[dict(module="MCBitIO", cfg="MCBitIO_big.cfg")],
        record=[dict(kind="bitio", trace="TraceBitIO", min_events=5000)],
        assumptions=["bytes are 8 bits wide in the code; the exhaustive model uses 3-bit bytes",
                     "histories are sampled; each is checked step by step against the specification"],
    ),
}

def _ebi(kind, models, **kw):
    return dict(level="model_checking", models=models, record=[dict(kind=kind, trace="TraceEbi", min_events=500)], **kw)


_VEC = dict(models=[dict(module="MCVectors", cfg="MCVectors.cfg", min_states=400000)],
            models_thorough=[dict(module="MCVectors", cfg="MCVectors_big.cfg")])
PROPS["C01"] = _ebi("lossless", [dict(module="MCXor", cfg="MCXor.cfg", min_states=100000)])
def _m(*names, **min_states):
    return dict(models=[dict(module=n, cfg=n + ".cfg", min_states=min_states.get(n, 1000)) for n in names],
                models_thorough=[dict(module=n, cfg=n + "_big.cfg") for n in names])


_PUSHED = _m("MCQuery", "MCColumns", "MCDeltas", MCQuery=80000, MCColumns=1000000, MCDeltas=2000000)
PROPS["C06"] = _ebi("filters", **_PUSHED)
PROPS["C07"] = _ebi("aggregates", **_PUSHED)
PROPS["C08"] = _ebi("histories", [dict(module="MCReader", cfg="MCReader.cfg", min_states=5000)],
                    models_thorough=[dict(module="MCReader", cfg="MCReader_big.cfg")])
PROPS["C08"]["record"][0]["gen"] = dict(name="histories", module="MCReader", cfg="GenHist.cfg", min=280,
                                        thorough=dict(cfg="GenHist_big.cfg", timeout=1200))
PROPS["C10"] = _ebi("knn", **_VEC)
PROPS["C11"] = _ebi("matmul", **_VEC)
PROPS["C03"] = _ebi("meta", **_m("MCFormat", MCFormat=90000))
PROPS["C16"] = dict(level="model_checking", **_m("MCFormat", MCFormat=90000), record=[dict(kind="format", trace="TraceFormat", min_events=500)])
PROPS["C02"] = _ebi("precision", **_m("MCDecimal", "MCDeltas", MCDecimal=1000000, MCDeltas=2000000))
PROPS["C04"] = dict(level="model_checking", models=[], record=[dict(kind="delivery", trace="TraceEbi", min_events=2000,
    gen=dict(name="schedules", module="Delivery", cfg="Delivery.cfg", min=2000, thorough=dict(cfg="Delivery_big.cfg", timeout=1200)))])
PROPS["C05"] = _ebi("crashes", [dict(module="FileLife", cfg="FileLife.cfg", min_states=400)],
                    models_thorough=[dict(module="FileLife", cfg="FileLife_big.cfg")])

PROPS["C15"] = dict(level="model_checking",
    models=[dict(module="RleLife", cfg="RleLife.cfg", min_states=100)],
    models_thorough=[dict(module="RleLife", cfg="RleLife_big.cfg")],
    record=[dict(kind="life", trace="TraceLife", min_events=2000,
        gen=dict(name="lives", module="GenLife", cfg="GenLife.cfg", min=2000, thorough=dict(cfg="GenLife_big.cfg", timeout=1200)))])

PROPS["C09"] = dict(level="model_checking",
    models=[dict(module="MCExpr", cfg="MCExpr.cfg", min_states=100000)],
    models_thorough=[dict(module="MCExpr", cfg="MCExpr_big.cfg")],
    record=[dict(kind="expr", trace="TraceExpr", min_events=2000)])

def _fakegpu(here, target):
    import subprocess
    subprocess.run(["bash", here + "/harness-gpu/fake/build.sh", target + "/fakegpu"], check=True)


PROPS["C12"] = dict(level="model_checking",
    models=[dict(module="MCGemm", cfg="MCGemm.cfg", min_states=30000)],
    models_thorough=[dict(module="MCGemm", cfg="MCGemm_big.cfg")],
    record=[dict(kind="gemm", trace="TraceGemm", min_events=5000, crate="harness-gpu", bin="ebivgpu", prebuild=_fakegpu,
        env={"LD_LIBRARY_PATH": "@TARGET@/fakegpu"},
        gen=dict(name="calls", module="GenGemm", cfg="GenGemm.cfg", min=5000, thorough=dict(cfg="GenGemm_big.cfg", timeout=1200)))],
    assumptions=["the CUDA driver and cuBLAS are stand-ins that follow their documented interface; memory they hand out is poisoned"])

PROPS["C14"] = dict(level="model_checking",
    models=[dict(module="MCElf", cfg="MCElf.cfg", min_states=100000)],
    models_thorough=[dict(module="MCElf", cfg="MCElf_big.cfg")],
    record=[dict(kind="elf", trace="TraceElf", min_events=5000)],
    assumptions=["decimals of at most 15 digits and 22 places with magnitude in [1e-10, 1e9)"])

PROPS["C17"] = dict(level="model_checking",
    models=[dict(module="MCXor", cfg="MCXor.cfg", min_states=100000)],
    record=[dict(kind="codec", trace="TraceCodec", min_events=1000)],
    assumptions=["Elf codecs: values of magnitude [1e-9, 1e8), zeros and infinities; Sprintz and BUFF on their decimal grid",
                 "Zstd, Gzip and Snappy chunks are opaque"])

PROPS["C18"] = _ebi("transfers", [dict(module="Transfer", cfg="Transfer.cfg", min_states=80000)],
                    models_thorough=[dict(module="Transfer", cfg="Transfer_big.cfg")])
PROPS["C18"]["record"][0]["gen"] = dict(name="schedules", module="Transfer", cfg="GenTransfer.cfg", min=500,
                                        thorough=dict(cfg="GenTransfer_big.cfg", timeout=1200))

PROPS["C19"] = dict(level="model_checking",
    models=[dict(module="MCTimes", cfg="MCTimes.cfg", min_states=1000)],
    models_thorough=[dict(module="MCTimes", cfg="MCTimes_big.cfg")],
    record=[dict(kind="times", trace="TraceTimes", min_events=2000)],
    assumptions=["the monotonic clock; only successful operations at the level of the decoder and the encoder"])

PROPS["C20"] = dict(level="model_checking",
    models=[dict(module="MCCsv", cfg="MCCsv.cfg", min_states=30000)],
    models_thorough=[dict(module="MCCsv", cfg="MCCsv_big.cfg")],
    record=[dict(kind="csv", trace="TraceCsv", min_events=500, crate="harness-csv", bin="ebivcsv")],
    assumptions=["fields of white space only count as bad; a write that fails does so because the output may not grow"])

def _expws(here, target):
    import subprocess
    subprocess.run(["bash", here + "/harness-exp/ws.sh", target + "/expws"], check=True)


PROPS["C21"] = dict(level="model_checking",
    models=[dict(module="MCScale", cfg="MCScale.cfg", min_states=10000)],
    models_thorough=[dict(module="MCScale", cfg="MCScale_big.cfg")],
    record=[dict(kind="scale", trace="TraceScale", min_events=3000, crate="harness-exp", bin="ebivexp", prebuild=_expws)],
    assumptions=["numbers of at most 16 places, as decimal digits with an optional point and exponent"])
PROPS["C22"] = dict(level="model_checking", **_m("MCTpch", MCTpch=90000),
    record=[dict(kind="tpch", trace="TraceTpch", min_events=3000, crate="harness-exp", bin="ebivexp", prebuild=_expws)],
    assumptions=["tables without nulls, at least one row; the ALP library is a stand-in that copies"])
PROPS["C23"] = dict(level="model_checking", **_m("MCStats", MCStats=40000),
    record=[dict(kind="stats", trace="TraceStats", min_events=2000, crate="harness-csv", bin="ebivcsv")],
    assumptions=["file names with distinct stems; averages and deviations of the values where their sums are small decimals, extremes where all values are finite"])
PROPS["C24"] = dict(level="model_checking", **_m("MCExper", MCExper=1000),
    record=[dict(kind="exper", trace="TraceExper", min_events=3000, crate="harness-exp", bin="ebivexp", prebuild=_expws,
                 gen=dict(name="commands", module="MCExper", cfg="GenExper.cfg", min=1296, thorough=dict(cfg="GenExper_big.cfg", timeout=1200)))],
    assumptions=["lossless codecs, and Delta-Sprintz on values it keeps; constants that serde_json reads back as other numbers are the listed finding"])
PROPS["C25"] = dict(level="model_checking", **_m("MCBatch", MCBatch=10000),
    record=[dict(kind="batch", trace="TraceBatch", min_events=150, crate="harness-exp", bin="ebivexp", prebuild=_expws)],
    assumptions=["one configuration per codec and data set, non-empty data sets of whole numbers, a save directory of its own for each run; the ALP library is a stand-in that copies"])
PROPS["C26"] = dict(level="model_checking", **_m("MCBench", MCBench=100000),
    record=[dict(kind="bench", trace="TraceBench", min_events=80, crate="harness-exp", bin="ebivexp", prebuild=_expws)],
    assumptions=["series of one length of at most three places, no number half way between two roundings; the ALP library is a stand-in that copies"])

# technique / note shown in MANIFEST.json
_T = ("TLA+ specification checked with TLC; traces recorded from the real code are validated event by event against it by TLC "
      "(no event the specification does not allow is accepted)")
_NOTES = {
    "C01": "sampled inputs and chunkings per codec aimed at every coding branch; exact comparison of bit patterns in the specification",
    "C02": "sampled decimal inputs; the error bound is checked with exact integer arithmetic on scaled values",
    "C03": "sampled files; the specification recomputes partition, offsets and sizes from the input",
    "C04": "read schedules are generated from the Delivery specification by TLC and replayed into the real encoder",
    "C05": "every write/seek/flush failure point and every image after each write of sampled encodings, plus every prefix of finished files",
    "C06": "sampled files, predicates, bitmasks and chunks",
    "C07": "sampled files, bitmasks and chunks; sums in exact integer arithmetic",
    "C08": "sampled operation histories on one decoder and on one chunk reader, each answer decided by the history-free specification",
    "C09": "chunk-wise evaluation model-checked against record-wise evaluation; sampled columns, codecs, expressions and bitmasks with exact fractions",
    "C10": "sampled files, targets and chunkings with exactly representable distances",
    "C11": "sampled files, shapes and chunkings with exactly representable products",
    "C12": "buffer reuse model-checked; every shape sequence of length 3 over {1,2,3} generated by TLC and replayed into the real context over a stand-in driver",
    "C13": "exhaustive model with 3-bit bytes, sampled histories of the real writer and reader validated against the same module at 8 bits",
    "C14": "erasing theorem model-checked exhaustively on small floats; sampled decimals decided with exact big-number arithmetic in TLA+",
    "C15": "operation histories enumerated by TLC from the life-cycle specification, replayed into every compressor; RLE's incremental representation model-checked",
    "C17": "every coding the formats allow model-checked to decode on 4-bit words; sampled written files and files assembled with other choices decided by a reader written in TLA+",
    "C18": "read and write schedules enumerated by TLC from Transfer, replayed under real queries; the answer or the error is decided by the specification",
    "C19": "timer composition model-checked; measured runs over slow inputs and outputs validated: segments within the wall time of that run alone, waiting attributed to reading and writing",
    "C20": "converter over a failing output model-checked; the real csv2bin run on sampled files, with bad fields and output limits at any byte, and decided by the specification",
    "C21": "the choice of a precision model-checked; sampled numbers and data sets decided by a reading of their characters in TLA+",
    "C22": "sampled tables in Parquet files; every codec's answers decided in exact integer arithmetic",
    "C23": "gathering model-checked against the definitions; the real collect-stats run on sampled files, its report decided in exact integer arithmetic",
    "C24": "result directory model-checked; every history of three commands generated by TLC and replayed into the real program, each report decided by the specification",
    "C25": "clearing and measuring model-checked against the table the definition asks for; sampled experiments and patches of their results by the real program",
    "C26": "the scan for the nearest line on inexact values model-checked against the interval the specification allows; sampled data sets run by the real program",
    "C16": "all header and footer fields of written and crafted files compared with the byte layout in Format.tla",
}
for _k, _v in PROPS.items():
    _v.setdefault("technique", _T)
    _v.setdefault("note", _NOTES.get(_k, ""))
