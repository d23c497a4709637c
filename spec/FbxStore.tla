------------------------------ MODULE FbxStore ------------------------------
(* C04.  A tree of FBX nodes and typed attributes, its binary and text      *)
(* encodings, and the graph of objects it describes.                        *)
(*                                                                          *)
(* Node  == [n |-> name, a |-> <<attribute>>, c |-> <<node>>]               *)
(* Attr  == [k |-> kind, v |-> value]; all values are carried as strings.   *)
(*   k: C B Y I L integers, F D floats, S string, N "name of a class"       *)
(*      (v = <<name, class>>), R raw bytes, b y i l f d arrays              *)
(* What the code returns for an attribute is projected to all views the API *)
(* offers: g (type), v (exact), i f d s (as integer, float, double, string) *)
(* ai af ad (as arrays).                                                    *)
EXTENDS Common

VARIABLES file,    \* [fmt, tree] held by the current file, or None
          graph,   \* objects of a document built through the API
          saved    \* graph the saved file must hold

None == [none |-> TRUE]
IntKinds == {"C", "B", "Y", "I", "L"}
ArrKinds == {"b", "y", "i", "l", "f", "d"}
NameBin(v) == v[1] \o "<00><01>" \o v[2]
NameText(v) == v[2] \o "::" \o v[1]

(* The attribute read back means the same as the one stored.                *)
SameBin(e, o) == IF e.k = "N" THEN o.g = "S" /\ o.v = NameBin(e.v) ELSE o.g = e.k /\ o.v = e.v
SameText(e, o) ==
  CASE e.k \in IntKinds -> o.i = e.v
    [] e.k = "F" -> o.f = e.v
    [] e.k = "D" -> o.d = e.v
    [] e.k = "S" -> o.s = e.v
    [] e.k = "N" -> o.s = NameText(e.v)
    [] e.k = "R" -> o.s = e.v
    [] e.k = "f" -> o.af = e.v
    [] e.k = "d" -> o.ad = e.v
    [] OTHER -> o.ai = e.v
Same(fmt, e, o) == IF fmt = "text" THEN SameText(e, o) ELSE SameBin(e, o)
SameAttrs(fmt, es, os) == Len(es) = Len(os) /\ \A i \in DOMAIN es : Same(fmt, es[i], os[i])

(* Empty arrays leave no trace in text.                                     *)
EmptyArr(e) == e.k \in ArrKinds /\ e.v = <<>>
Kept(fmt, as) == IF fmt = "text" THEN Filter(as, LAMBDA e : ~EmptyArr(e)) ELSE as
RECURSIVE SameTree(_, _, _)
SameTree(fmt, e, o) ==
  /\ e.n = o.n
  /\ SameAttrs(fmt, Kept(fmt, e.a), o.a)
  /\ Len(e.c) = Len(o.c)
  /\ \A i \in DOMAIN e.c : SameTree(fmt, e.c[i], o.c[i])
(* The tool's writer leaves out the binary file id.                         *)
Rewritten(t) == [t EXCEPT !.c = Filter(@, LAMBDA n : n.n # "FileId")]

(*************************** The object graph *******************************)
Child(n, name) == LET s == Filter(n.c, LAMBDA c : c.n = name) IN IF s = <<>> THEN [n |-> "", a |-> <<>>, c |-> <<>>] ELSE s[1]
Text(e) == IF e.k = "N" THEN e.v[1] \o "::" \o e.v[2] ELSE e.v
AttrOr(n, i) == IF Len(n.a) >= i THEN n.a[i] ELSE [k |-> "S", v |-> ""]
ObjNodes(t) == Child(t, "Objects").c
IdOf(n) == AttrOr(n, 1).v
Ids(t) == { IdOf(ObjNodes(t)[i]) : i \in DOMAIN ObjNodes(t) }
Conns(t) == Filter(Child(t, "Connections").c, LAMBDA c : Len(c.a) >= 3 /\ c.a[1].v \in {"OO", "OP"})
Known(t) == Ids(t) \cup {"0"}
RefsOf(t, id) == Map(Filter(Conns(t), LAMBDA c : c.a[3].v = id /\ c.a[2].v \in Known(t)), LAMBDA c : c.a[2].v)
ClassOf(t, id) == IF id = "0" THEN "Model" ELSE (CHOOSE i \in DOMAIN ObjNodes(t) : IdOf(ObjNodes(t)[i]) = id)
IsModel(t, id) == id = "0" \/ \E i \in DOMAIN ObjNodes(t) : IdOf(ObjNodes(t)[i]) = id /\ ObjNodes(t)[i].n = "Model"
ParentsOf(t, id) == Map(Filter(Conns(t), LAMBDA c : c.a[2].v = id /\ IsModel(t, id) /\ c.a[3].v \in Known(t) /\ IsModel(t, c.a[3].v)), LAMBDA c : c.a[3].v)
Template(t, cls) ==
  LET d == Filter(Child(t, "Definitions").c, LAMBDA c : c.n = "ObjectType" /\ AttrOr(c, 1).v = cls)
  IN IF d = <<>> THEN <<>> ELSE Child(Child(d[Len(d)], "PropertyTemplate"), "Properties70").c
Own(n) == Child(n, "Properties70").c
PropIn(ps, name) == Filter(ps, LAMBDA p : Len(p.a) >= 4 /\ p.a[1].v = name)
(* A property is looked up in the object, then in its class' template.      *)
PropOf(t, n, name) ==
  LET o == PropIn(Own(n), name) q == PropIn(Template(t, n.n), name)
  IN IF o # <<>> THEN o[Len(o)].a ELSE IF q # <<>> THEN q[Len(q)].a ELSE <<>>
SameProp(fmt, want, got) ==
  IF want = <<>> THEN got.t = "" /\ got.v = <<>>
  ELSE got.t = Text(want[2]) /\ got.l = Text(want[3]) /\ got.f = Text(want[4])
       /\ SameAttrs(fmt, Kept(fmt, SubSeq(want, 5, Len(want))), got.v)
SameObj(fmt, t, n, o) ==
  /\ o.cls = n.n /\ o.name = Text(AttrOr(n, 2)) /\ o.kind = Text(AttrOr(n, 3))
  /\ o.refs = RefsOf(t, o.id)
  /\ o.parent = (LET p == ParentsOf(t, o.id) IN IF p = <<>> THEN "" ELSE p[Len(p)])
  /\ \A i \in DOMAIN o.props : SameProp(fmt, PropOf(t, n, o.props[i].n), o.props[i])
(* Only files whose objects carry distinct identifiers have a graph.         *)
WellFormed(t) == /\ \A i \in DOMAIN ObjNodes(t) : Len(ObjNodes(t)[i].a) >= 3 /\ ObjNodes(t)[i].a[1].k = "L" /\ IdOf(ObjNodes(t)[i]) # "0"
                 /\ NoDup(Map(ObjNodes(t), IdOf))
GraphOK(fmt, t, objs) == WellFormed(t) =>
  /\ { objs[i].id : i \in DOMAIN objs } = Known(t)
  /\ \A i \in DOMAIN objs :
       IF objs[i].id = "0" THEN objs[i].refs = RefsOf(t, "0")
       ELSE \E j \in DOMAIN ObjNodes(t) : IdOf(ObjNodes(t)[j]) = objs[i].id /\ SameObj(fmt, t, ObjNodes(t)[j], objs[i])

(*********************** Documents built by the API *************************)
Scene0 == [id |-> "0", cls |-> "", name |-> "", kind |-> "", refs |-> <<>>, parent |-> "", props |-> <<>>]
NewGraph == <<Scene0>>
Has(g, id) == \E i \in DOMAIN g : g[i].id = id
At(g, id) == CHOOSE i \in DOMAIN g : g[i].id = id
AddObj(g, o) == Append(g, o)
Connect(g, p, c) ==
  LET g1 == [g EXCEPT ![At(g, p)].refs = Append(@, c)]
  IN IF g[At(g, c)].cls = "Model" /\ (p = "0" \/ g[At(g, p)].cls = "Model") THEN [g1 EXCEPT ![At(g, c)].parent = p] ELSE g1
SetProp(g, id, p) ==
  LET i == At(g, id) ks == { k \in DOMAIN g[i].props : g[i].props[k].n = p.n }
  IN IF ks = {} THEN [g EXCEPT ![i].props = Append(@, p)] ELSE [g EXCEPT ![i].props[CHOOSE k \in ks : TRUE] = p]

Init == file = None /\ graph = NewGraph /\ saved = NewGraph
=============================================================================
