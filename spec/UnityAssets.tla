---------------------------- MODULE UnityAssets ----------------------------
(* C11.  A package is an archive of entries "GUID/asset", "GUID/asset.meta", *)
(* "GUID/pathname"; opening extracts it into a folder of its own, builds the *)
(* lookup tables, and closing removes that folder.  A project is a folder    *)
(* where every file F described by F.meta is an asset under the meta's GUID. *)
EXTENDS Common

(* An archive entry: [t, parts, data, guid, names]; t is "dir", "file",      *)
(* "meta" (an asset.meta file, described instead of spelled out), "link" or  *)
(* "hard".  parts is the name split at slashes, data the content split at    *)
(* line ends.  A leading empty part makes the name absolute.                 *)
Norm(parts) ==
  FoldLeft(LAMBDA a, p : IF p \in {"", "."} THEN a
                         ELSE IF p = ".." THEN [a EXCEPT !.esc = @ \/ a.at = <<>>, !.at = IF @ = <<>> THEN <<>> ELSE SubSeq(@, 1, Len(@) - 1)]
                         ELSE [a EXCEPT !.at = Append(@, p)], [esc |-> FALSE, at |-> <<>>], parts)
Escapes(e) == Norm(e.parts).esc
(* Entries no honest package has: they may be refused, never followed out.   *)
Odd(e) == e.t \in {"link", "hard"} \/ Escapes(e) \/ e.parts[1] = ""
Written(e, g, f) == e.t \in {"file", "meta"} /\ ~Escapes(e) /\ Norm(e.parts).at = <<g, f>>
(* A later entry of the same name replaces the earlier one. *)
LastOf(s, T(_)) == LET ix == { i \in DOMAIN s : T(s[i]) } IN IF ix = {} THEN <<>> ELSE <<s[Max(ix)]>>
Part(src, g, f) == LastOf(src.entries, LAMBDA e : Written(e, g, f))

None == [t |-> "none", data |-> <<>>]
(* The assets a source describes: [guid, path, has, data, meta]. *)
PackAsset(src, g) ==
  LET a == Part(src, g, "asset") m == Part(src, g, "asset.meta") IN
  [guid |-> g, path |-> Part(src, g, "pathname")[1].data[1], has |-> a # <<>>, data |-> IF a = <<>> THEN <<>> ELSE a[1].data,
   hasMeta |-> m # <<>>, names |-> IF m = <<>> THEN <<>> ELSE m[1].names]
PackGuids(src) == { g \in { Norm(e.parts).at[1] : e \in { x \in Rng(src.entries) : ~Escapes(x) /\ Norm(x.parts).at # <<>> } } : Part(src, g, "pathname") # <<>> }

PathOf(e) == FoldLeft(LAMBDA a, p : IF a = "" THEN p ELSE a \o "/" \o p, "", e.parts)
ProjAsset(src, m) ==
  LET a == LastOf(src.entries, LAMBDA e : e.t = "file" /\ e.parts = m.parts) IN
  [guid |-> m.guid, path |-> PathOf(m), has |-> a # <<>>, data |-> IF a = <<>> THEN <<>> ELSE a[1].data, hasMeta |-> TRUE, names |-> m.names]
Described(src) ==
  IF src.kind \in {"package", "dir"} THEN { PackAsset(src, g) : g \in PackGuids(src) }
  ELSE { ProjAsset(src, m) : m \in { e \in Rng(src.entries) : e.t = "meta" /\ e.guid # "" } }

MustOpen(src) == src.fault = "none" /\ \A e \in Rng(src.entries) : ~Odd(e)
MustFail(src) == src.fault \in {"missing", "plain"}

(* One round of looking everything up. *)
GuidRight(assets, r) ==
  LET a == { x \in assets : x.guid = r.g } IN
  IF a = {} THEN ~r.found
  ELSE r.found /\ \E x \in a : r.guid = x.guid /\ r.path = x.path /\ (x.hasMeta => r.metaOk /\ r.metaGuid = x.guid /\ r.names = x.names)
PathRight(assets, r) ==
  LET a == { x \in assets : x.path = r.p } IN
  IF a = {} THEN ~r.found
  ELSE r.found /\ \E x \in a : r.guid = x.guid
ContentRight(assets, r, closed) ==
  LET a == { x \in assets : x.path = r.p } IN
  IF a = {} THEN closed => ~r.opened
  ELSE \E x \in a : r.opened = x.has /\ (x.has => r.data = x.data)
AllRight(assets, all) == SameBag(all, SetToSeq({ [g |-> a.guid, p |-> a.path] : a \in assets }))
=============================================================================
