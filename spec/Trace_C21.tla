------------------------------- MODULE Trace_C21 -------------------------------
(* Positions in degrees and in radians. *)
EXTENDS Geodesy, TraceLib

EventOK(e) ==
  CASE e.op = "to360" ->
         e.res = "ok" /\ e.same /\ To360OK(e.elong,e.phi,e.height,e.lon,e.lat,e.oh)
    [] e.op = "torad" ->
         e.res = "ok" /\ e.same /\ ToRadOK(e.lon,e.lat,e.height,e.elong,e.phi,e.oh)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
