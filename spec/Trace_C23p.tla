------------------------------ MODULE Trace_C23p ------------------------------
(* Observers above one another, and at the antipodes. *)
EXTENDS FxMath, TraceLib

EventOK(e) ==
  CASE e.op = "pair" ->
         /\ e.res = "ok"
         /\ FxLe(F0,e.sza) /\ FxLe(e.sza,FPi)
         /\ FxNear(FxCos(e.sza),FxCos(e.sza_height),FxDec("1E-10"))
         /\ FxNear(e.sza,e.sza_height,FxDec("1E-7"))
         /\ FxNear(FxCos(e.sza),FxNeg(FxCos(e.sza_opposite)),FxDec("1E-10"))
         /\ FxNear(FxAdd(e.sza,e.sza_opposite),FPi,FxDec("1E-7"))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
