------------------------------- MODULE Format -------------------------------
(* The ebi file layout, byte for byte.  Bytes are 0..255, files are          *)
(* sequences of bytes; positions in the file are 0-based as in the code.     *)
(* Numbers are little-endian.  64- and 128-bit numbers exceed TLC's          *)
(* integers, so they appear as their little-endian byte strings wherever     *)
(* their value does not matter.                                              *)
EXTENDS Integers, Sequences, SequencesExt

At(b, i) == b[i + 1]
Bytes(b, i, n) == SubSeq(b, i + 1, i + n)

(* The value of n little-endian bytes, or -1 if it does not fit 31 bits      *)
Num(b, i, n) ==
  IF i + n > Len(b) \/ i < 0 THEN -1
  ELSE IF \E k \in 0..(n - 1) : (k >= 4 /\ At(b, i + k) # 0) \/ (k = 3 /\ At(b, i + k) >= 128) THEN -1
  ELSE FoldLeft(LAMBDA a, k : a * 256 + At(b, i + (IF n > 4 THEN 4 ELSE n) - k), 0,
                [k \in 1..(IF n > 4 THEN 4 ELSE n) |-> k])

LE(v, n) ==   \* v < 2^31 as n little-endian bytes
  [k \in 1..n |-> IF k > 4 THEN 0 ELSE (v \div (256 ^ (k - 1))) % 256]

Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

----------------------------------------------------------------------------
(* Header: magic 4, field type 1, codec 1, chunk option kind 1, reserved 1,  *)
(* chunk option value 8, footer offset 8, version 3 x 2.                     *)
HeaderLen == 30
Magic == <<69, 66, 73, 49>>   \* EBI1
NCodecs == 12
CodecId == [uncompressed |-> 0, rle |-> 1, buff |-> 2, gorilla |-> 3, chimp |-> 4, chimp128 |-> 5,
            elf_on_chimp |-> 6, elf |-> 7, delta_sprintz |-> 8, zstd |-> 9, gzip |-> 10, snappy |-> 11]
KindId == [full |-> 0, rec |-> 1, bytes |-> 2]

(* widths of the fields of a codec's configuration                           *)
CfgWidths(id) == CASE id \in {0, 1, 3, 4, 5, 6, 7} -> <<8>>     \* capacity
                   [] id = 2 -> <<8>>                           \* scale
                   [] id = 8 -> <<8, 8>>                        \* capacity, scale
                   [] id \in {9, 10} -> <<4>>                   \* level
                   [] id = 11 -> <<>>
CfgLen(id) == FoldLeft(LAMBDA a, w : a + w, 0, CfgWidths(id))

HeaderBytes(ft, id, kind, value8, foff8, ver) ==
  Magic \o <<ft, id, kind, 0>> \o value8 \o foff8 \o Cat([i \in 1..3 |-> LE(ver[i], 2)])

HeaderOf(b) ==
  [magic |-> Bytes(b, 0, 4), ft |-> At(b, 4), id |-> At(b, 5), kind |-> At(b, 6),
   value |-> Bytes(b, 8, 8), foff |-> Bytes(b, 16, 8),
   ver |-> [i \in 1..3 |-> Num(b, 24 + 2 * (i - 1), 2)]]

(* A header this version understands.                                        *)
HeaderKnown(h) == h.magic = Magic /\ h.ft = 0 /\ h.id < NCodecs /\ h.kind < 3

(* Footer: records 8, chunks 8, (physical 8, logical 8) per chunk, config    *)
(* size 1, config, elapsed 16, nine segment times of 16, crc 4.              *)
FooterLen(nch, cfglen) == 16 + 16 * nch + 1 + cfglen + 16 + 9 * 16 + 4

FooterBytes(nrec8, foots, cfg, elapsed, segs, crc) ==
  nrec8 \o LE(Len(foots), 8) \o Cat([i \in 1..Len(foots) |-> foots[i][1] \o foots[i][2]])
    \o <<Len(cfg)>> \o cfg \o elapsed \o Cat(segs) \o crc

(* A file is parseable if the header is known and a complete footer starts   *)
(* at the footer offset.                                                     *)
FOff(b) == Num(b, 16, 8)
Parseable(b) ==
  /\ Len(b) >= HeaderLen
  /\ HeaderKnown(HeaderOf(b))
  /\ FOff(b) >= HeaderLen
  /\ LET f == FOff(b)
         nch == Num(b, f + 8, 8)
     IN /\ nch >= 0
        /\ f + 16 + 16 * nch + 1 <= Len(b)
        /\ LET cs == At(b, f + 16 + 16 * nch)
           IN cs = CfgLen(At(b, 5)) /\ f + FooterLen(nch, cs) <= Len(b)

FooterOf(b) ==
  LET f == FOff(b)
      nch == Num(b, f + 8, 8)
      c == f + 16 + 16 * nch
      cs == At(b, c)
      e == c + 1 + cs
  IN [nrec |-> Bytes(b, f, 8), nch |-> nch,
      foots |-> [i \in 1..nch |-> <<Bytes(b, f + 16 * i, 8), Bytes(b, f + 16 * i + 8, 8)>>],
      cfg |-> Bytes(b, c + 1, cs), elapsed |-> Bytes(b, e, 16),
      segs |-> [i \in 1..9 |-> Bytes(b, e + 16 * i, 16)], crc |-> Bytes(b, e + 160, 4),
      len |-> FooterLen(nch, cs)]

(* A finished file: header, chunk bytes without gaps, footer, nothing else.  *)
(* sizes: records per chunk                                                  *)
Finished(b, sizes) ==
  /\ Parseable(b)
  /\ LET f == FOff(b)
         t == FooterOf(b)
         ph(i) == IF i > t.nch THEN f ELSE Num(t.foots[i][1], 0, 8)
     IN /\ f + t.len = Len(b)
        /\ t.nch = Len(sizes)
        /\ t.nch > 0 => ph(1) = HeaderLen
        /\ t.nch = 0 => f = HeaderLen
        /\ \A i \in 1..t.nch : ph(i) < ph(i + 1)
        /\ LET at(i) == IF i > t.nch THEN Num(t.nrec, 0, 8) ELSE Num(t.foots[i][2], 0, 8)
           IN /\ at(1) = 0
              /\ \A i \in 1..t.nch : at(i) >= 0 /\ at(i + 1) = at(i) + sizes[i]

----------------------------------------------------------------------------
(* What a decoder reports about the file b agrees with its bytes.            *)
ReportOK(b, r) ==
  LET h == HeaderOf(b)
      t == FooterOf(b)
      f == FOff(b)
      n == t.nch
      ph(i) == IF i > n THEN f ELSE Num(t.foots[i][1], 0, 8)
      lo(i) == IF i > n THEN Num(t.nrec, 0, 8) ELSE Num(t.foots[i][2], 0, 8)
      small == \A i \in 1..(n + 1) : ph(i) >= 0 /\ lo(i) >= 0
  IN /\ r.magic = h.magic /\ r.ft = h.ft /\ r.id = h.id /\ r.kind = h.kind
     /\ (h.kind # 0 => r.value = h.value)
     /\ r.foff = h.foff /\ r.ver = h.ver
     /\ r.nrec = t.nrec /\ r.nch = t.nch /\ r.foots = t.foots
     /\ r.cfg = <<Len(t.cfg)>> \o t.cfg /\ r.scheme2 = h.id /\ r.csize = Len(t.cfg) + 1
     /\ r.elapsed = t.elapsed /\ r.elapsed2 = t.elapsed /\ r.fsize = t.len /\ r.segs = t.segs /\ r.crc = t.crc
     /\ (small /\ r.sane = 1) =>
          /\ r.sizes = <<LE(t.len, 8), LE(f - ph(1), 8), LE(f + t.len, 8)>>
          /\ Len(r.handles) = n
          /\ \A i \in 1..n :
               r.handles[i] = <<LE(ph(i + 1) - ph(i), 8), LE(lo(i + 1) - lo(i), 8), LE(ph(i), 8), LE(ph(i + 1), 8),
                                LE(lo(i), 8), LE(lo(i + 1), 8), LE(lo(i), 8), LE(lo(i + 1), 8),
                                IF i = n THEN 1 ELSE 0, i - 1,
                                LE(lo(i), 8), LE(lo(i + 1), 8), LE(ph(i), 8), LE(ph(i + 1), 8)>>
=============================================================================
