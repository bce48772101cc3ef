------------------------------- MODULE Trace_C23 -------------------------------
(* Sessions with Sun-angle calculators: the Sun. *)
EXTENDS SunAngle, TraceSessions
Opens(e) == e.op = "new"
Opened(e) == Calculator(e)
Reply(o,e) == SunOK(o,e)
==============================================================================
