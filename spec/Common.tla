------------------------------- MODULE Common -------------------------------
(* Operators shared by all specifications of modelconv.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Rng(s) == { s[i] : i \in DOMAIN s }
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(* Map an operator over a sequence. *)
Map(s, Op(_)) == [ i \in DOMAIN s |-> Op(s[i]) ]
MapI(s, Op(_, _)) == [ i \in DOMAIN s |-> Op(i, s[i]) ]

(* Concatenation of a sequence of sequences. *)
Flat(ss) == FlattenSeq(ss)

(* Subsequence of the elements satisfying T. *)
Filter(s, T(_)) == SelectSeq(s, T)

(* Number of occurrences; multiset equality of two sequences. *)
Count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A x \in Rng(s) \cup Rng(t) : Count(s, x) = Count(t, x)

NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

(* Strings: TLC treats them as sequences of characters for Len and SubSeq. *)
Char(s, i) == SubSeq(s, i, i)
Chars(s) == [ i \in 1..Len(s) |-> Char(s, i) ]
MapChars(s, Op(_)) == FoldLeft(LAMBDA a, c : a \o Op(c), "", Chars(s))
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
DropPrefix(s, p) == SubSeq(s, Len(p) + 1, Len(s))

(* A clause of a property: empty when satisfied, its name when violated. *)
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
