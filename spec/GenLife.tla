------------------------------ MODULE GenLife -------------------------------
(* Generates compressor histories: every sequence of at most K operations    *)
(* the protocol allows, with symbolic segments (expanded to data per codec   *)
(* by the recorder): segments 0 = empty, 1..NSeg = data.                     *)
EXTENDS CompressorLife, TLC, Integers
CONSTANTS K, NSeg
VARIABLE h
vars == <<lvars, h>>
GInit == LInit /\ h = <<>>
(* held is kept as the sequence of segment names here                        *)
Op(o, a) == h' = Append(h, <<o, a>>)
GNext == /\ Len(h) < K
         /\ \/ \E s \in 0..NSeg : Compress(<<s>>) /\ Op("C", s)
            \/ \E s \in 0..NSeg : Append_(<<s>>) /\ Op("A", s)
            \/ \E r \in 0..4 : phase = "open" /\ held # <<>> /\ Op("R", r) /\ UNCHANGED lvars
            \/ Reset /\ Op("X", 0)
            \/ Prepare /\ Op("P", 0)
GSpec == GInit /\ [][GNext]_vars
Str(o) == "[\"" \o o[1] \o "\"," \o ToString(o[2]) \o "]"
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN Str(s[1]) ELSE Str(s[1]) \o "," \o Join(Tail(s))
Emit == (Len(h) = K) => PrintT("SCN [" \o Join(h) \o "]")
=============================================================================
