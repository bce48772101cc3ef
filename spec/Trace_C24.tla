------------------------------- MODULE Trace_C24 -------------------------------
(* Observed calls, grouped by call: the answer of each, made alone in a     *)
(* process of its own, is what the specification knows; every other time it *)
(* was made, after whatever history and on whatever thread, it answers that.*)
EXTENDS TraceSessions
Opens(e) == e.phase = "alone"
Opened(e) == << e.key, e.out >>
Reply(o,e) == e.op = "call" /\ << e.key, e.out >> = o
==============================================================================
