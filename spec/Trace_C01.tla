------------------------------- MODULE Trace_C01 -------------------------------
(* Dates are accepted exactly when they exist, unchanged. *)
EXTENDS Gregorian, TraceLib

EventOK(e) ==
  /\ e.op = "new"
  /\ e.res = NewResult(e.y,e.m,e.d)
  /\ e.res = "ok" => (e.oy = e.y /\ e.om = e.m /\ e.od = e.d)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
