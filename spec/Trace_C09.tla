------------------------------- MODULE Trace_C09 -------------------------------
(* Normalised angles and the Earth rotation angle. *)
EXTENDS Angles, TraceLib

EventOK(e) ==
  CASE e.op = "anp" -> e.res = "ok" /\ NormOK(e.a,e.v)
    [] e.op = "era" -> e.res = "ok" /\ EraOK(e.a,e.b,e.v,FxDec("1E-10"))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
