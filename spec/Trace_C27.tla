------------------------------- MODULE Trace_C27 -------------------------------
(* Published constants, elementary functions, defaults and messages. *)
EXTENDS Published, TraceLib
EventOK(e) ==
  CASE e.op = "constant" -> ConstantOK(e.name,e.v)
    [] e.op = "elementary" -> e.res = "ok" /\ ElementaryOK(e.name,e.x,e.v,e)
    [] e.op = "default" -> e.res = "ok" /\ \A k \in DOMAIN Defaults : e[k] = Defaults[k]
    [] e.op = "message" -> e.res = "ok" /\ e.text = Message(e.name)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
