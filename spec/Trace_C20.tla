------------------------------- MODULE Trace_C20 -------------------------------
(* Ellipsoid parameters. *)
EXTENDS Geodesy, TraceLib

EventOK(e) ==
  CASE e.op = "converter" ->
         /\ ConverterOK(e.ea,e.ef,e.res)
         /\ e.res = "ok" => e.ra = e.ea /\ e.rf = e.ef
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
