------------------------------- MODULE Trace_C03 -------------------------------
(* A Julian date reads as a calendar day and a fraction, or is refused. *)
EXTENDS Gregorian, TraceLib

EventOK(e) ==
  /\ e.op = "from_julian"
  /\ \/ e.res = "BadJulian" /\ ~SurelyInside(e.a,e.b)
     \/ e.res = "ok" /\ ~SurelyOutside(e.a,e.b)
        /\ ReadsAs(e.a,e.b,e.y,e.m,e.d,e.f,SplitTol(e.a,e.b))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
