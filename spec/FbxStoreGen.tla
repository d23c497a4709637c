---------------------------- MODULE FbxStoreGen ----------------------------
(* Bounded model of the two encodings as token streams: every small tree is  *)
(* written and parsed back by a stack machine; histories of document edits   *)
(* followed by save and load.                                                *)
EXTENDS FbxStore, Json
CONSTANTS MaxOps
VARIABLES tree, toks, stack, pos, hist, hops

AttrSets == { <<>>,
  <<[k |-> "L", v |-> "-5"], [k |-> "N", v |-> <<"a", "Model">>], [k |-> "S", v |-> ""]>>,
  <<[k |-> "d", v |-> <<"1e-05", "2", "1e+30">>]>>,
  <<[k |-> "i", v |-> <<"0", "1", "-3">>]>>,
  <<[k |-> "C", v |-> "1"], [k |-> "D", v |-> "0.5"]>> }
Leaf(n, a) == [n |-> n, a |-> a, c |-> <<>>]
Leaves == { Leaf("P", a) : a \in AttrSets }
L1 == Leaves \cup { [n |-> "Q", a |-> a, c |-> <<x>>] : a \in {<<>>, <<[k |-> "S", v |-> "x"]>>}, x \in Leaves }
           \cup { [n |-> "Q", a |-> <<>>, c |-> <<x, Leaf("R", <<>>)>>] : x \in Leaves }
L2 == { [n |-> "_FBX_ROOT", a |-> <<>>, c |-> <<x>>] : x \in L1 } \cup { [n |-> "_FBX_ROOT", a |-> <<>>, c |-> <<x, y>>] : x \in L1, y \in Leaves }
      \cup { [n |-> "_FBX_ROOT", a |-> <<>>, c |-> <<[n |-> "Objects", a |-> <<>>, c |-> <<x, y>>]>>] : x, y \in { z \in L1 : z.n = "Q" } }

RECURSIVE Tokens(_)
Tokens(n) == <<[t |-> "open", n |-> n.n, a |-> n.a]>> \o Flat(Map(n.c, Tokens)) \o <<[t |-> "close"]>>
(* Parser: a stack of nodes under construction. *)
Push == /\ pos <= Len(toks) /\ toks[pos].t = "open"
        /\ stack' = Append(stack, [n |-> toks[pos].n, a |-> toks[pos].a, c |-> <<>>]) /\ pos' = pos + 1
Pop == /\ pos <= Len(toks) /\ toks[pos].t = "close"
       /\ LET k == Len(stack) IN
          IF k = 1 THEN stack' = stack
          ELSE stack' = Append(SubSeq(stack, 1, k - 2), [stack[k - 1] EXCEPT !.c = Append(@, stack[k])])
       /\ pos' = pos + 1
ParseStep == hist = "tree" /\ (Push \/ Pop) /\ UNCHANGED <<tree, toks, hist, hops, file, graph, saved>>
Parsed == hist = "tree" /\ pos > Len(toks)
ParsesBack == Parsed => stack = <<tree>>

(* Edit histories. *)
P3 == [n |-> "Lcl Translation", t |-> "Lcl Translation"]
Edits == { [op |-> "model", name |-> "m"], [op |-> "geom", name |-> "g"], [op |-> "mat", name |-> "x"], [op |-> "settr"], [op |-> "setcol"],
           [op |-> "save"] } \cup { [op |-> "conn", p |-> p, c |-> c] : p \in 0..2, c \in 1..3 }
Count2(h, s) == Cardinality({ i \in DOMAIN h : h[i].op \in s })
Objs == {"model", "geom", "mat"}
Allowed(h, e) ==
  CASE e.op \in Objs -> Count2(h, Objs) < 3
    [] e.op = "conn" -> e.p < e.c /\ e.c <= Count2(h, Objs) /\ ~\E i \in DOMAIN h : h[i] = e
    [] e.op \in {"settr", "setcol"} -> Count2(h, Objs) > 0 /\ Count2(h, {e.op}) < 1
    [] OTHER -> h # <<>> /\ h[Len(h)].op # "save" /\ Count2(h, {"save"}) < 2
Edit(e) == hist = "ops" /\ Len(hops) < MaxOps /\ Allowed(hops, e) /\ hops' = Append(hops, e) /\ UNCHANGED <<tree, toks, stack, pos, hist, file, graph, saved>>
GInit == /\ Init /\ stack = <<>> /\ pos = 1 /\ hops = <<>>
         /\ \/ \E x \in L2 : tree = x /\ toks = Tokens(x) /\ hist = "tree"
            \/ tree = None /\ toks = <<>> /\ hist = "ops"
GNext == ParseStep \/ \E e \in Edits : Edit(e)
GSpec == GInit /\ [][GNext]_<<tree, toks, stack, pos, hist, hops, file, graph, saved>>
Emit == /\ Parsed => PrintT("CASE " \o ToJson([tree |-> tree, fmts |-> <<"7400", "7500z", "text">>]))
        /\ (hist = "ops" /\ hops # <<>> /\ hops[Len(hops)].op = "save") => PrintT("CASE " \o ToJson([ops |-> hops]))
=============================================================================
