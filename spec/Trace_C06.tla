------------------------------- MODULE Trace_C06 -------------------------------
(* Printed dates, times and positions. *)
EXTENDS Text, TraceLib

EventOK(e) ==
  /\ e.res = "ok"
  /\ LET t == e.text IN
     CASE e.op = "show_date" -> t = DateText(e.y,e.m,e.d)
       [] e.op = "show_hms"  -> IsTimeText(t,e.hh,e.mm,e.s)
       [] e.op = "show_dt"   ->
            LET p == DateText(e.y,e.m,e.d) \o " "
            IN StartsWith(t,p) /\ IsTimeText(Rest(t,p),e.hh,e.mm,e.s)
       [] e.op \in {"show_pos","show_rad"} -> IsPositionText(t,e.lat,e.lon,e.height)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
