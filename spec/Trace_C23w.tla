------------------------------ MODULE Trace_C23w ------------------------------
(* Every kind of request: the Sun. *)
EXTENDS SunAngle, TraceRequests
Opens(e) == e.op = "new"
Opened(e) == Calculator(e)
Reply(o,e) == SunOK(o,e)
==============================================================================
