------------------------------ MODULE GeoTrace -----------------------------
EXTENDS Geo, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Single ==
  LET R == EulerMat(ev.e, ev.ord) o == ToString(ev.ord) IN
  Clause("C19.euler.matrix." \o o, Close3(ev.m, R, 1))
  \cup Clause("C19.quat.apply", \A k \in 1..3 : CloseV(ev.apply[k], App3(R, Ident(1)[k]), 1))
  \cup Clause("C19.quat.inverse", Close3(ev.inv, Tr3(R), 1))
  \cup Clause("C19.quat.norm", Near(ev.norm, 1000, 1))
  \cup { "C19.matrix.euler." \o ToString(k - 1) : k \in { k \in 1..4 : ~Close3(ev.re[k], R, 1) } }
  \cup { "C19.quat.euler." \o ToString(k - 1) : k \in { k \in 1..4 : ~Close3(ev.req[k], R, 1) } }
  \cup { "C19.keep.order." \o ToString(k - 1) : k \in { k \in 1..4 : ev.reord[k] # k - 1 } }
  \cup Clause("C19.decompose.rotation", Close3(ev.dec, R, 1))
Sx(g) == g.s[1] * g.s[2] * g.s[3]
Mags(g) == <<Abs(g.s[1]), Abs(g.s[2]), Abs(g.s[3])>>
Chain ==
  LET A == TRS(ev.g1) B == TRS(ev.g2) P == Comp(A, B) IN
  Clause("C19.trs", CloseT(ev.m1, A, 2) /\ CloseT(ev.m2, B, 2))
  \cup Clause("C19.matrix.product", CloseT(ev.prod, P, 40))
  \cup Clause("C19.quat.product", Close3(ev.qprod, Mul3(EulerMat(ev.g1.e, ev.g1.ord), EulerMat(ev.g2.e, ev.g2.ord)), 20))
  \cup Clause("C19.matrix.apply", \A k \in DOMAIN ev.pts : CloseV(ev.img[k], AppT(A, ev.pts[k]), 5))
  \cup Clause("C19.matrix.order", \A k \in DOMAIN ev.pts : CloseV(ev.img2[k], [i \in 1..3 |-> App3(P.r, ev.pts[k])[i] + P.t[i]], 100))
  \cup Clause("C19.matrix.det", Near(ev.det, 1000 * Sx(ev.g1), 5))
  \cup Clause("C19.matrix.inverse", CloseT(ev.inv, [r |-> Ident(1000), t |-> <<0, 0, 0>>], 3))
  \cup Clause("C19.matrix.undo", \A k \in DOMAIN ev.pts : CloseV(ev.back[k], [i \in 1..3 |-> 1000 * ev.pts[k][i]], 5))
  \cup Clause("C19.matrix.transpose", Close3(ev.tr, Tr3(A.r), 2))
  \cup Clause("C19.matrix.shift", Close3(ev.tscale.r, A.r, 2) /\ CloseV(ev.tscale.t, [i \in 1..3 |-> 3 * A.t[i]], 4))
  \cup Clause("C19.decompose", CloseT(ev.dec, A, 3))
  \cup Clause("C19.decompose.scale", CloseV([i \in 1..3 |-> Abs(ev.decs[i])], [i \in 1..3 |-> 1000 * Mags(ev.g1)[i]], 3))
  \cup Clause("C19.decompose.translation", CloseV(ev.dect, [i \in 1..3 |-> 1000 * ev.g1.t[i]], 1))
  \cup Clause("C19.decompose.unit", Near(ev.decn, 1000, 2))
  \cup Clause("C19.clone", ev.clone)
Vec ==
  Clause("C19.vector.add", ev.add = [i \in 1..3 |-> ev.a[i] + ev.b[i]])
  \cup Clause("C19.vector.sub", ev.sub = [i \in 1..3 |-> ev.a[i] - ev.b[i]])
  \cup Clause("C19.vector.dot", ev.dot = Dot3(ev.a, ev.b))
  \cup Clause("C19.vector.cross", ev.cross = Cross3(ev.a, ev.b))
  \cup Clause("C19.vector.scale", ev.scale = [i \in 1..3 |-> ev.a[i] * ev.k])
  \cup Clause("C19.vector.len", ev.len2 = Dot3(ev.a, ev.a))
  \* normalised: same direction, unit length (up to rounding to thousandths)
  \cup (IF ev.a = <<0, 0, 0>> THEN {} ELSE
        Clause("C19.vector.normalize", Near(Dot3(ev.norm, ev.norm) \div 1000, 1000, 3)
               /\ Dot3(ev.norm, ev.a) > 0
               /\ \A i \in 1..3 : Near(Cross3(ev.norm, ev.a)[i], 0, 1 + 2 * (Abs(ev.a[1]) + Abs(ev.a[2]) + Abs(ev.a[3])))))
Broken ==
  CASE ev.op = "crash" -> {"C19.crash." \o ev.how}
    [] ev.op = "single" -> Single
    [] ev.op = "chain" -> Chain
    [] ev.op = "vec" -> Vec
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
