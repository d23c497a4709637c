---------------------------- MODULE MmdFileGen -----------------------------
(* Bounded model: every combination of header widths, every skinning type    *)
(* and bone flag combination, every morph kind, and element counts around    *)
(* each width boundary.  References are encoded and decoded field by field;  *)
(* the invariant says no reference (nor "none") is ever confused.            *)
EXTENDS MmdFile, Json
CONSTANTS FlagBits, BigCounts
VARIABLES cfg, phase, wire

Kinds == {"v", "t", "m", "b", "mo", "rb"}
W == {1, 2, 4}
Mixed == <<1, 0, 2, 1, 1, 2, 1, 4>>
SumFlags(S) == FoldSet(LAMBDA a, b : a + b, 0, S)
Widths == { [info |-> <<e, 1>> \o w, skin |-> 2, flags |-> 9001, mtype |-> 1, toon |-> 0, groups |-> 1]
              : e \in {0, 1}, w \in [1..6 -> W] }
Flagged == { [info |-> Mixed, skin |-> s, flags |-> SumFlags(F), mtype |-> 8, toon |-> 1, groups |-> 0]
              : s \in 0..3, F \in SUBSET FlagBits }
Morphed == { [info |-> <<e, x, w, 1, w, 2, w, 1>>, skin |-> 1, flags |-> 0, mtype |-> m, toon |-> t, groups |-> g]
              : e \in {0, 1}, x \in {0, 4}, w \in W, m \in 0..8, t \in {0, 1}, g \in {0, 2} }
Shapes == Widths \cup Flagged \cup Morphed
Base == [v |-> 3, t |-> 2, m |-> 1, b |-> 2, mo |-> 1, rb |-> 2]
BigVertexCounts == {255, 256, 257, 32768, 32769, 65535, 65536, 65537}
Bigs == { [Base EXCEPT ![k] = n] : k \in Kinds \ {"v"}, n \in BigCounts } \cup { [Base EXCEPT !.v = n] : n \in BigVertexCounts }

PmdBigs == { [Base EXCEPT !.v = n] : n \in BigVertexCounts \ {65537} } \cup { [Base EXCEPT ![k] = n] : k \in {"b", "mo"}, n \in {255, 256, 257} }

Width(k, n) == IF k = "v" THEN VertexWidth(n) ELSE OtherWidth(n)
Refs(k, n) == (IF k = "v" THEN {} ELSE {-1}) \cup { i \in {0, 1, 126, 127, 128, 129, 254, 255, 256, n \div 2, n - 2, n - 1} : i >= 0 /\ i < n }
Decode(k, w, r) == IF k = "v" THEN DecodeUnsigned(w, r) ELSE DecodeSigned(w, r)

GInit == /\ \/ \E s \in Shapes : cfg = [kind |-> "shape", v |-> s]
            \/ \E b \in Bigs : cfg = [kind |-> "big", v |-> b]
         /\ phase = "mem" /\ wire = <<>>
Counts == IF cfg.kind = "big" THEN cfg.v ELSE [v |-> 3, t |-> 2, m |-> 1, b |-> 3, mo |-> 2, rb |-> 2]
WidthIn(k) == IF cfg.kind = "big" THEN Width(k, Counts[k])
              ELSE cfg.v.info[CASE k = "v" -> 3 [] k = "t" -> 4 [] k = "m" -> 5 [] k = "b" -> 6 [] k = "mo" -> 7 [] k = "rb" -> 8]
DoWrite == phase = "mem" /\ phase' = "file"
           /\ wire' = [k \in Kinds |-> [r \in Refs(k, Counts[k]) |-> EncodeIdx(WidthIn(k), r)]]
           /\ UNCHANGED cfg
DoRead == phase = "file" /\ phase' = "read"
          /\ wire' = [k \in Kinds |-> [r \in DOMAIN wire[k] |-> Decode(k, WidthIn(k), wire[k][r])]]
          /\ UNCHANGED cfg
GNext == (DoWrite \/ DoRead) /\ UNCHANGED <<mem, file, lasthash>>
GSpec == Init /\ GInit /\ [][GNext]_<<cfg, phase, wire, mem, file, lasthash>>

RefsSurvive == phase = "read" => \A k \in Kinds : \A r \in DOMAIN wire[k] : wire[k][r] = r
NoConfusion == phase = "file" => \A k \in Kinds : \A r, s \in DOMAIN wire[k] : wire[k][r] = wire[k][s] => r = s
Emit == phase = "read" =>
  IF cfg.kind = "big" THEN /\ PrintT("CASE " \o ToJson([fmt |-> "pmx", big |-> cfg.v, ops |-> <<>>]))
       \* the same model written by somebody else, with the widths the format asks for
       /\ PrintT("CASE " \o ToJson([fmt |-> "pmxfile", big |-> cfg.v, ops |-> <<>>,
                                   info |-> <<1, 0, WidthIn("v"), WidthIn("t"), WidthIn("m"), WidthIn("b"), Width("mo", Counts.mo + 3), WidthIn("rb")>>]))
       /\ cfg.v \in PmdBigs => PrintT("CASE " \o ToJson([fmt |-> "pmdfile", big |-> cfg.v, ops |-> <<>>]))
  ELSE PrintT("CASE " \o ToJson([fmt |-> "pmx", shape |-> cfg.v, ops |-> <<"file", "read", "write", "read">>]))
       /\ PrintT("CASE " \o ToJson([fmt |-> "pmx", shape |-> cfg.v, ops |-> <<"build", "write", "read", "write">>]))
=============================================================================
