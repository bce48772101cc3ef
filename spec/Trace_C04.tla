------------------------------- MODULE Trace_C04 -------------------------------
(* Time of day from and to a fraction of day. *)
EXTENDS TimeOfDay, TraceLib

EventOK(e) ==
  CASE e.op = "from_fraction" ->
         IF IsFraction(e.f)
           THEN /\ e.res = "ok"
                /\ IsTime(e.h,e.m,e.s)
                /\ e.h = 24 => e.f = F1
                /\ FxNear(FractionOf(e.h,e.m,e.s),e.f,TimeTol)
           ELSE e.res = "BadFract"
    [] e.op = "to_fraction" ->
         /\ e.res = "ok"
         /\ e.oh = e.h /\ e.om = e.m /\ e.os = e.s
         /\ LET f == FractionOf(e.h,e.m,e.s)
            IN FxNear(e.f,f,FxAdd(FxMul(FxDec("1E-15"),FxAbs(f)),FxPow2(-72)))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
