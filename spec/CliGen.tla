------------------------------- MODULE CliGen --------------------------------
(* Requests on a small figure: every option alone and with every other.        *)
EXTENDS Cli, Json
CONSTANTS Rich
VARIABLES S
None == [scale |-> 0, sx |-> 1000, sy |-> 1000, sz |-> 1000, rot |-> FALSE, hide |-> <<>>, hidemat |-> <<>>, unlit |-> <<>>, chparent |-> <<>>, morph |-> <<>>, alpha |-> <<>>]
F(v, m) == [v |-> v, m |-> m, uv |-> <<>>, n |-> <<>>]
Tri(x, y) == << <<x, y, 0>>, <<x + 1000, y, 500>>, <<x, y + 2000, -500>> >>
Ob(n, d, verts, m) == [name |-> n, uid |-> 0, depth |-> d, vis |-> TRUE, verts |-> verts, faces |-> << F(<<1, 2, 3>>, m) >>, vids |-> <<>>, it |-> <<>>, l |-> <<>>, smth |-> 0, key |-> ""]
Mt(n, a, shd, am) == [name |-> n, col |-> <<1000, 500, 250, a>>, tex |-> "", dbl |-> FALSE, pow |-> 5000, emi |-> 0, shd |-> shd, edge |-> -1, ec |-> <<>>, met |-> IF am = 0 THEN 0 ELSE 250, rou |-> IF am = 0 THEN 0 ELSE 750, am |-> am, cut |-> IF am = 0 THEN 0 ELSE 400, unl |-> FALSE]
Bo(id, n, p, pos) == [id |-> id, name |-> n, parent |-> p, group |-> 0, pos |-> pos, mov |-> 0, ik |-> <<>>, w |-> <<>>]
Figure ==
  [objs |-> << Ob("body", 0, Tri(0, 0), 0), Ob("arm", 1, Tri(1000, 0), 1), Ob("hand", 2, Tri(2000, 0), 2), Ob("arm2", 1, Tri(-1000, 500), 0), Ob("face", 0, Tri(0, 4000), 1),
               [Ob("smile", 1, << <<0, 4500, 0>>, <<1000, 4000, 1500>>, <<0, 6000, -500>> >>, 1) EXCEPT !.vis = FALSE] >>,
   mats |-> << Mt("skin", 1000, "", 0), Mt("hair", 750, "glTF", 3), Mt("skin2", 500, "glTF", 1) >>,
   bones |-> << Bo(1, "root", 0, <<0, 0, 0>>), Bo(2, "arm", 1, <<1000, 500, 0>>), Bo(3, "hand", 2, <<2000, 500, -250>>), Bo(4, "head", 0, <<0, 4000, 0>>) >>,
   morphs |-> << [base |-> "face", targets |-> <<"smile">>] >>, bodies |-> <<>>, joints |-> <<>>]
A(p, k, v) == [p |-> p, k |-> k, v |-> v]
Ones == {
  [None EXCEPT !.scale = 2000], [None EXCEPT !.scale = 500, !.rot = TRUE], [None EXCEPT !.sy = 1500, !.sx = 500], [None EXCEPT !.rot = TRUE],
  [None EXCEPT !.hide = <<"arm">>], [None EXCEPT !.hide = <<"arm*", "nothing">>], [None EXCEPT !.hide = <<"*">>], [None EXCEPT !.hide = <<"body">>], [None EXCEPT !.hide = <<"hand", "f?ce">>],
  [None EXCEPT !.hidemat = <<"skin">>], [None EXCEPT !.hidemat = <<"skin*">>], [None EXCEPT !.hidemat = <<"nothing", "hair">>],
  [None EXCEPT !.unlit = <<"*">>], [None EXCEPT !.unlit = <<"hair">>], [None EXCEPT !.unlit = <<"skin">>],
  [None EXCEPT !.chparent = << <<"head", "root">> >>], [None EXCEPT !.chparent = << <<"hand", "head">>, <<"head", "root">> >>], [None EXCEPT !.chparent = << <<"nothing", "root">> >>],
  [None EXCEPT !.chparent = << <<"hand", "nothing">> >>], [None EXCEPT !.chparent = << <<"root", "hand">> >>], [None EXCEPT !.chparent = << <<"root", "head">>, <<"head", "hand">>, <<"head", "nothing">> >>],
  [None EXCEPT !.morph = << [n |-> "smile", v |-> 1000] >>], [None EXCEPT !.morph = << [n |-> "smile", v |-> 500], [n |-> "nothing", v |-> 1000] >>], [None EXCEPT !.morph = << [n |-> "smile", v |-> -500] >>],
  [None EXCEPT !.alpha = << A("skin", "mask", 0) >>], [None EXCEPT !.alpha = << A("skin*", "blend", 0) >>], [None EXCEPT !.alpha = << A("*", "opaque", 0), A("hair", "num", 250) >>],
  [None EXCEPT !.alpha = << A("hair", "num", 500) >>], [None EXCEPT !.alpha = << A("skin", "num", 500), A("nothing", "mask", 0) >>], [None EXCEPT !.alpha = << A("skin2", "0", 0) >>], [None EXCEPT !.alpha = << A("hair", "mask", 0), A("skin", "opaque", 0) >>] }
(* The union of two requests of different options. *)
Pick(f, a, b) == IF a[f] # None[f] THEN a[f] ELSE b[f]
Join(a, b) == [f \in DOMAIN None |-> Pick(f, a, b)]
Outs == {"mqo", "mqoz", "glb", "gltf", "pmx", "vrm"}
Cs(o, out, kind) == [kind |-> kind, doc |-> Figure, o |-> o, out |-> out, named |-> TRUE, bad |-> ""]
Clear(c) == ~Impossible(c.doc, c.o)
Bads == {"input", "garbage", "inext", "outext", "outdir", "chparent", "morph", "morphval", "alpha", "preset"}
Init == S \in { Cs(Join(a, b), out, "mqo") : a, b \in Ones \cup {None}, out \in {"mqo"} }
          \cup { Cs(o, out, kind) : o \in Ones \cup {None}, out \in Outs, kind \in {"mqo", "mqoz"} }
          \cup { Cs(Join(a, b), out, "mqo") : a, b \in (IF Rich THEN Ones ELSE { x \in Ones : x.alpha # <<>> \/ x.unlit # <<>> }), out \in {"glb"} }
          \cup { [Cs(None, out, "mqo") EXCEPT !.bad = b, !.named = n] : out \in Outs, b \in Bads, n \in {TRUE} }
          \cup { [Cs(o, out, "mqo") EXCEPT !.named = FALSE] : o \in {None, [None EXCEPT !.hide = <<"arm">>]}, out \in Outs }
Next == FALSE /\ UNCHANGED S
Spec == Init /\ [][Next]_S

(* ---- the design ---------------------------------------------------------------- *)
D == [S.doc EXCEPT !.mats = [i \in DOMAIN S.doc.mats |-> S.doc.mats[i]]]
E == Edited(D, S.o, S.kind)
Nothing == S.o = None => E = D
OnlyVis == [S.o EXCEPT !.hide = <<>>] = None => [i \in DOMAIN E.objs |-> [E.objs[i] EXCEPT !.vis = TRUE]] = [i \in DOMAIN D.objs |-> [D.objs[i] EXCEPT !.vis = TRUE]]
Trees == S.o.hide # <<>> => \A i \in DOMAIN D.objs : LET p == Parent(Depths(D), i) IN p # 0 /\ ~E.objs[p].vis /\ D.objs[p].vis => ~E.objs[i].vis
Again == HideObjs(HideObjs(D, S.o.hide), S.o.hide) = HideObjs(D, S.o.hide)
OneEach == \A i \in DOMAIN E.bones : E.bones[i].parent # D.bones[i].parent => \E k \in DOMAIN S.o.chparent : S.o.chparent[k][1] = E.bones[i].name
Refused == \A i \in DOMAIN S.o.chparent : Orphaned(D, S.o.chparent[i]) => Impossible(D, S.o)
TwiceTurned == LET f == Factor([None EXCEPT !.rot = TRUE], "mqo") IN ScaleDoc(ScaleDoc(D, f), f) = D
Laws == Nothing /\ OnlyVis /\ Trees /\ Again /\ OneEach /\ Refused /\ TwiceTurned
Emit == PrintT("CASE " \o ToJson(S))
=============================================================================
