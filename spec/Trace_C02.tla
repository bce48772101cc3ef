------------------------------- MODULE Trace_C02 -------------------------------
(* A date converts to 2400000.5 and its day number, exactly. *)
EXTENDS Gregorian, TraceLib

EventOK(e) ==
  /\ e.op = "to_julian"
  /\ e.res = "ok"
  /\ e.a = MjdZero
  /\ e.b = DayNumberFx(e.y,e.m,e.d)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
