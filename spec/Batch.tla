------------------------------- MODULE Batch -------------------------------
(* The full experiment and its patching (C25): a table of measurements with  *)
(* one cell per data set and codec. A cell holds entries [slot, stamp]; a    *)
(* slot is a command, for the two filter commands with the filter's name.    *)
EXTENDS Exper

Plain == {"compress", "materialize", "max", "sum"}
SlotsOf(filters) == Plain \cup {c \o "/" \o filters[i].name : c \in {"filter", "filter_materialize"}, i \in 1..Len(filters)}

(* which cells a run measures: of all data sets with the patched codecs, of  *)
(* the patched data sets with all                                            *)
Patched(set, codec, pd, pc) == set \in pd \/ codec \in pc

(* a measured cell has exactly n new entries per slot                        *)
Full(entries, slots, n, old) ==
  /\ \A i \in 1..Len(entries) : entries[i].slot \in slots /\ entries[i].stamp \notin old
  /\ \A s \in slots : Cardinality({i \in 1..Len(entries) : entries[i].slot = s}) = n
=============================================================================
