------------------------------- MODULE GenGemm ------------------------------
(* Generates call sequences for one context: shapes, form (row-major,        *)
(* column-major, or general with beta and transposes) and misfits.           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS K, Dims, Forms
VARIABLE h
Init == h = <<>>
Next == /\ Len(h) < K
        /\ \E m, n, k \in Dims, f \in Forms : h' = Append(h, <<m, n, k, f>>)
Spec == Init /\ [][Next]_h
Str(o) == "[" \o ToString(o[1]) \o "," \o ToString(o[2]) \o "," \o ToString(o[3]) \o "," \o ToString(o[4]) \o "]"
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN Str(s[1]) ELSE Str(s[1]) \o "," \o Join(Tail(s))
Emit == (Len(h) = K) => PrintT("SCN [" \o Join(h) \o "]")
=============================================================================
