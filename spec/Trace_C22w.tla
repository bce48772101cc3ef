------------------------------ MODULE Trace_C22w ------------------------------
(* Every kind of request: the chain of times. *)
EXTENDS SunAngle, TraceRequests
Opens(e) == e.op = "new"
Opened(e) == Calculator(e)
Reply(o,e) == TimesOK(o,e)
==============================================================================
