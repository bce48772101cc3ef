---------------------------- MODULE TraceSessions -----------------------------
(***************************************************************************)
(* Validation of recorded sessions with objects.  The trace is a sequence  *)
(* of sessions, each beginning with an event that creates an object (First *)
(* says which) and continuing with calls of it.  TLC's workers follow the  *)
(* sessions in parallel.  The state carries what the specification knows   *)
(* of the object, obj: Created gives it from the first event, and Answer   *)
(* is the condition on the events that follow.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NEvents == Len(Trace)

VARIABLES line, obj
svars == << line, obj >>

CONSTANTS First(_), Created(_), Answer(_,_)

SessionInit == line = 0 /\ obj = << >>
SessionNext ==
  \/ /\ line = 0
     /\ \E k \in 1..NEvents : /\ First(Trace[k])
                              /\ line' = k
                              /\ obj' = Created(Trace[k])
  \/ /\ line # 0
     /\ line < NEvents
     /\ ~First(Trace[line + 1])
     /\ line' = line + 1
     /\ UNCHANGED obj
SessionSpec == SessionInit /\ [][SessionNext]_svars

Conforms == line = 0 \/ First(Trace[line]) \/ Answer(obj,Trace[line])
Complete == TLCGet("stats").distinct = NEvents + 1
==============================================================================
