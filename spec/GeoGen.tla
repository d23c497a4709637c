------------------------------- MODULE GeoGen ------------------------------
(* Every single rotation (twelve angles per axis, four orders), and every    *)
(* two step history of generators; the laws are invariants of the model.     *)
EXTENDS Geo, Json
CONSTANT Deep
Scales == {<<1, 1, 1>>, <<2, 2, 2>>, <<1, 2, 3>>, <<-1, 1, 1>>, <<1, -2, 1>>}
Shifts == {<<0, 0, 0>>, <<1, -2, 3>>}
Turns == {<<1, 1, 1>>, <<4, 1, 1>>, <<1, 4, 1>>, <<1, 10, 7>>, <<2, 5, 9>>}
  \cup (IF Deep THEN {<<7, 1, 1>>, <<1, 1, 7>>, <<3, 4, 5>>, <<10, 10, 10>>} ELSE {})
VARIABLES kind, h, acc
Gens == { [e |-> e, ord |-> o, s |-> s, t |-> t] : e \in Turns, o \in 0..3, s \in Scales, t \in Shifts }
Id == [r |-> Ident(1), t |-> <<0, 0, 0>>]
Init == \/ kind = "single" /\ h = <<>> /\ acc = Id
        \/ kind = "chain" /\ h = <<>> /\ acc = Id
PickSingle == /\ kind = "single" /\ h = <<>>
              /\ \E a, b, c \in 1..12, o \in 0..3 :
                    h' = <<[e |-> <<a, b, c>>, ord |-> o]>> /\ acc' = [r |-> EulerMat(<<a, b, c>>, o), t |-> <<0, 0, 0>>]
              /\ UNCHANGED kind
Extend == /\ kind = "chain" /\ Len(h) < 2
          /\ \E g \in Gens : h' = Append(h, g) /\ acc' = (IF h = <<>> THEN TRS(g) ELSE Comp(acc, TRS(g)))
          /\ UNCHANGED kind
Next == PickSingle \/ Extend
Spec == Init /\ [][Next]_<<kind, h, acc>>
(* Laws. *)
Orthogonal == (kind = "single" /\ h # <<>>) => Mul3(acc.r, Tr3(acc.r)) = Ident(15625)
ProperPos == (kind = "single" /\ h # <<>>) => Det3(acc.r) = 125 * 125 * 125
DetScale == (kind = "chain" /\ Len(h) = 1) => Det3(acc.r) = 125 * 125 * 125 * h[1].s[1] * h[1].s[2] * h[1].s[3]
Assoc == (kind = "chain" /\ Len(h) = 2) =>
  \A v \in {<<1, 0, 0>>, <<0, 2, 0>>, <<1, 2, 3>>} :
     LET w == AppT(TRS(h[2]), v) IN [i \in 1..3 |-> App3(TRS(h[1]).r, w)[i] + 125 * TRS(h[1]).t[i]]
        = [i \in 1..3 |-> App3(acc.r, v)[i] + acc.t[i]]
Emit == (h # <<>> /\ (kind = "single" \/ Len(h) = 2)) => PrintT("CASE " \o ToJson([kind |-> kind, gens |-> h]))
=============================================================================
