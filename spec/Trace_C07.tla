------------------------------- MODULE Trace_C07 -------------------------------
(* TAI-UTC of a date and fraction of day. *)
EXTENDS LeapSeconds, TimeOfDay, TraceLib

EventOK(e) ==
  /\ e.op = "delta_at"
  /\ IF ~IsFraction(e.fr) THEN e.res = "BadFract"
     ELSE LET i == InForce(e.y,e.m)
          IN IF i = 0 THEN e.res = "none"
             ELSE /\ e.res = "ok"
                  /\ FxNear(e.v,TaiUtc(i,e.y,e.m,e.d,e.fr),IF i >= 15 THEN F0 ELSE FxDec("2E-14"))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
