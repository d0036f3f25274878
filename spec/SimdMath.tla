------------------------------- MODULE SimdMath ------------------------------
(* C19: elementary functions.  MathRef is a table of argument points with the *)
(* correctly rounded real result (tools/mkref.py, 1400-bit arithmetic) and a  *)
(* tolerance in ulps (0 for the IEEE special cases).  An event names a row of *)
(* the table (ev.q) and carries every result observed for its arguments: in   *)
(* every vector width and lane position, among different neighbours.  All of  *)
(* them must be the same value, and lie within the tolerance.                 *)
EXTENDS FloatLane, Json, IOUtils
MathRef == IF "MATHREF" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.MATHREF) ELSE <<>>
MathOps == {"math"}
MathOK(ev) ==
  /\ ev.p = 0 /\ ev.q \in 1..Len(MathRef)
  /\ LET m == MathRef[ev.q] IN
     /\ ev.f = m.f /\ ev.a = m.a /\ ev.b = m.b
     /\ ev.t = (IF m.w = 4 THEN "f32" ELSE "f64")
     /\ Within(ev.r, m.r, m.k)
     /\ Len(ev.rs) > 0
     /\ \A i \in 1..Len(ev.rs) : ev.rs[i] = ev.r \/ FSame(ev.rs[i], ev.r)
=============================================================================
