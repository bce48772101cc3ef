------------------------------- MODULE Trace_C08 -------------------------------
(* Time-scale conversions shift one part of a date by the defined offset. *)
EXTENDS TimeScales, TraceLib

EventOK(e) ==
  CASE e.op = "shift" ->
         e.res = "ok" /\ Shifted(e.a,e.b,OffsetOf(e.conv,e.off),e.ra,e.rb)
    [] e.op = "total" ->
         e.res = "ok" /\ LET s == FxAdd(e.a,e.b)
                         IN FxNear(e.v,s,FxMax(FxUlp(e.v),FxUlp(s)))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
