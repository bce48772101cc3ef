------------------------------- MODULE Trace_C05 -------------------------------
(* Combined date and time from and to a Julian date. *)
EXTENDS Gregorian, TimeOfDay, TraceLib

EventOK(e) ==
  CASE e.op = "dt_from" ->
         \/ e.res = "BadJulian" /\ ~SurelyInside(e.a,e.b)
         \/ /\ e.res = "ok" /\ ~SurelyOutside(e.a,e.b)
            /\ IsTime(e.hh,e.mm,e.s) /\ e.hh < 24
            /\ LET f == FractionOf(e.hh,e.mm,e.s)
               IN ReadsAs(e.a,e.b,e.y,e.m,e.d,f,FxAdd(SplitTol(e.a,e.b),TimeTol))
    [] e.op = "dt_to" ->
         /\ e.res = "ok"
         /\ e.a = MjdZero
         /\ LET x == FxAdd(DayNumberFx(e.y,e.m,e.d),FractionOf(e.hh,e.mm,e.s))
            IN FxNear(e.b,x,FxAdd(FxUlp(x),FxPow2(-52)))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
