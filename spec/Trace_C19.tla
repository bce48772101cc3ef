------------------------------- MODULE Trace_C19 -------------------------------
(* Geocentric to geodetic coordinates. *)
EXTENDS Geodesy, TraceLib

EventOK(e) ==
  CASE e.op = "inverse" ->
         e.res = "ok" /\ InverseOK(e.ea,e.ef,e.p,e.elong,e.phi,e.height)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
