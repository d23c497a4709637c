------------------------------ MODULE MmdFile ------------------------------
(* C01, C02.  An MMD model in memory and the file it is stored in.  A file   *)
(* comes either from the tool's own writer or from elsewhere (any header     *)
(* configuration); reading must yield exactly what the file holds.           *)
EXTENDS Common

VARIABLES mem,     \* model in memory (or None)
          file,    \* [origin, fmt, content]: what the current file holds (or None)
          lasthash \* digest of the last written bytes ("" if none)

None == [none |-> TRUE]

Bit(f, b) == (f \div b) % 2 = 1
Zero3 == <<0, 0, 0>>
One == 1065353216              \* bit pattern of 1.0

(***************** Index fields: widths, signs, none = -1 *******************)
Pow8(n) == IF n = 1 THEN 256 ELSE IF n = 2 THEN 65536 ELSE 0
(* Bytes are modelled as the residue; 4 byte fields are exact in this range. *)
EncodeIdx(w, v) == IF w = 4 THEN v ELSE ((v % Pow8(w)) + Pow8(w)) % Pow8(w)
DecodeSigned(w, r) == IF w = 4 THEN r ELSE IF r >= Pow8(w) \div 2 THEN r - Pow8(w) ELSE r
DecodeUnsigned(w, r) == r
(* Smallest widths that can hold every index of n elements.                  *)
VertexWidth(n) == IF n <= 256 THEN 1 ELSE IF n <= 65536 THEN 2 ELSE 4
OtherWidth(n) == IF n <= 128 THEN 1 ELSE IF n <= 32768 THEN 2 ELSE 4
WidthOK(info, m) ==
  /\ info[3] >= VertexWidth(Len(m.verts))
  /\ info[4] >= OtherWidth(Len(m.tex)) /\ info[5] >= OtherWidth(Len(m.mats))
  /\ info[6] >= OtherWidth(Len(m.bones)) /\ info[7] >= OtherWidth(Len(m.morphs))
  /\ info[8] >= OtherWidth(Len(m.bodies))

(******************* The part of a model the file holds *********************)
(* Skinning: no weight = bone none; one = full; two = complementary; three   *)
(* is padded to four; SDEF carries nine extra numbers.                       *)
StoredSkin(v) ==
  LET n == Len(v.bones) IN
  IF n = 0 THEN [v EXCEPT !.bones = <<-1>>, !.w = <<1000>>]
  ELSE IF n = 1 THEN [v EXCEPT !.w = <<1000>>]
  ELSE IF n = 2 THEN [v EXCEPT !.w = <<v.w[1], 1000 - v.w[1]>>]
  ELSE IF n = 3 THEN [v EXCEPT !.bones = Append(@, -1), !.w = Append(@, 0)]
  ELSE v
StoredLink(l) == IF l.has THEN l ELSE [l EXCEPT !.min = Zero3, !.max = Zero3]
StoredBone(b) ==
  LET inh == Bit(b.flags, 256) \/ Bit(b.flags, 512) IN
  [b EXCEPT !.tailid = IF Bit(b.flags, 1) THEN @ ELSE -1,
            !.tailpos = IF Bit(b.flags, 1) THEN Zero3 ELSE @,
            !.inh = IF inh THEN @ ELSE 0,
            !.inhw = IF inh THEN @ ELSE 0,
            !.axis = IF Bit(b.flags, 1024) THEN @ ELSE Zero3,
            !.ik = IF Bit(b.flags, 32) THEN [@ EXCEPT !.links = Map(@, StoredLink)]
                   ELSE [target |-> 0, loop |-> 0, limit |-> 0, links |-> <<>>]]
(* Bone morph offsets are skipped by the tool (but must not disturb others). *)
StoredMorph(m) == [m EXCEPT !.bone = <<>>]
Stored(m) == [m EXCEPT !.verts = Map(@, StoredSkin), !.bones = Map(@, StoredBone), !.morphs = Map(@, StoredMorph)]

(************************ PMD files: what they mean *************************)
Rec(m, f, d) == d   \* documentation: fields PMD lacks take their zero value
PmdVert(v) == [pos |-> v.pos, nrm |-> v.nrm, uv |-> v.uv, ext |-> <<>>,
               edge |-> IF v.edge = 0 THEN 0 ELSE One, bones |-> v.b,
               w |-> <<v.w * 10, 1000 - v.w * 10>>, sd |-> <<>>]
TexOf(t) == IF t.tex = "" THEN <<>> ELSE IF t.sph = "" THEN <<t.tex>> ELSE <<t.tex, t.sph>>
PmdTextures(m) == Flat(Map(m.mats, TexOf))
TexIndex(m, i) == IF m.mats[i].tex = "" THEN -1
                  ELSE Len(Flat([k \in 1..(i - 1) |-> TexOf(m.mats[k])]))
(* A translucent PMD material is drawn from both sides. *)
Translucent(alpha) == alpha # One
PmdMat(m, i) ==
  LET t == m.mats[i] IN
  [name |-> "mat" \o ToString(i), nameen |-> "", col |-> t.col, spec |-> t.spec, specp |-> t.specp, amb |-> t.amb,
   flags |-> IF Translucent(t.col[4]) THEN 1 ELSE 0, edgecol |-> <<0, 0, 0, 0>>,
   edge |-> IF t.edge = 0 THEN 0 ELSE One, tex |-> TexIndex(m, i), env |-> 0, envmode |-> 0, toontype |-> 0,
   toon |-> t.toon, memo |-> "", count |-> t.count]
NoIK == [target |-> 0, loop |-> 0, limit |-> 0, links |-> <<>>]
PmdBone(m, i) ==
  LET b == m.bones[i]
      ks == { k \in DOMAIN m.iks : m.iks[k].bone = i - 1 }
  IN [name |-> b.name, nameen |-> "", pos |-> b.pos, parent |-> b.parent, layer |-> 0, flags |-> 0,
      tailid |-> IF b.tail = 0 THEN -1 ELSE b.tail, tailpos |-> Zero3, inh |-> 0, inhw |-> 0, axis |-> Zero3,
      ik |-> IF ks = {} THEN NoIK
             ELSE LET k == m.iks[CHOOSE k \in ks : TRUE] IN
                  [target |-> k.target, loop |-> k.iter, limit |-> 0,
                   links |-> Map(k.links, LAMBDA t : [t |-> t, has |-> FALSE, min |-> Zero3, max |-> Zero3])]]
(* The first PMD morph lists the vertices the others refer to.               *)
PmdMorph(m, i) ==
  LET o == m.morphs[i] base == m.morphs[1].v IN
  [name |-> o.name, nameen |-> "", panel |-> o.panel, type |-> 1, group |-> <<>>,
   vertex |-> Map(o.v, LAMBDA e : <<base[e[1] + 1][1], e[2], e[3], e[4]>>), uv |-> <<>>, mat |-> <<>>, bone |-> <<>>]
PmdModel(m) ==
  [name |-> m.name, nameen |-> "", comment |-> m.comment, commenten |-> "",
   verts |-> Map(m.verts, PmdVert), faces |-> m.faces, tex |-> PmdTextures(m),
   mats |-> [i \in DOMAIN m.mats |-> PmdMat(m, i)], bones |-> [i \in DOMAIN m.bones |-> PmdBone(m, i)],
   morphs |-> IF Len(m.morphs) <= 1 THEN <<>> ELSE [i \in 1..(Len(m.morphs) - 1) |-> PmdMorph(m, i + 1)],
   bodies |-> <<>>, joints |-> <<>>]

(********************************* Actions **********************************)
Build(m) == mem' = m /\ UNCHANGED <<file, lasthash>>
External(fmt, content) == file' = [origin |-> "external", fmt |-> fmt, content |-> content] /\ UNCHANGED <<mem, lasthash>>
Write(h) == /\ mem # None
            /\ file' = [origin |-> "tool", fmt |-> "pmx", content |-> Stored(mem)]
            /\ lasthash' = h
            /\ UNCHANGED mem
Meaning(f) == IF f.fmt = "pmd" THEN PmdModel(f.content) ELSE IF f.fmt = "pmx" THEN Stored(f.content) ELSE f.content
Read == /\ file # None
        /\ mem' = Meaning(file)
        /\ UNCHANGED <<file, lasthash>>
Init == mem = None /\ file = None /\ lasthash = ""
=============================================================================
