------------------------------- MODULE Trace_C22 -------------------------------
(* Sessions with Sun-angle calculators: the chain of times. *)
EXTENDS SunAngle, TraceSessions
Opens(e) == e.op = "new"
Opened(e) == Calculator(e)
Reply(o,e) == TimesOK(o,e)
==============================================================================
