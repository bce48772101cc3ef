------------------------------- MODULE Trace_C26 -------------------------------
(* Every computation answers. *)
EXTENDS Totality, TraceLib
EventOK(e) == e.op = "answer" /\ Answers(e.name,e.res,e.out)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
