---------------------------- MODULE MqoStoreGen ----------------------------
(* Writes every history ending in a load, as replayable cases.               *)
EXTENDS MqoStore, Json
Complete == hist # <<>> /\ hist[Len(hist)].op = "load"
Emit == Complete => PrintT("CASE " \o ToJson([num |-> "milli", base |-> "m", ops |-> hist]))
=============================================================================
