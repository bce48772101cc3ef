---------------------------- MODULE TraceRequests -----------------------------
(***************************************************************************)
(* Recorded sessions made from requests enumerated by TLC: each event says *)
(* which kind it was made for, and is of that kind (AsRequested).          *)
(***************************************************************************)
EXTENDS TraceSessions, FxMath, TimeOfDay
R == INSTANCE Requests WITH Length <- 0, start <- "", observer <- "", word <- << >>

\* the creation that line belongs to; words are short
RECURSIVE Creation(_)
Creation(l) == IF Trace[l].op = "new" THEN Trace[l] ELSE Creation(l - 1)

AsRequested ==
  line = 0 \/
  LET e == Trace[line]
  IN IF e.op = "new" THEN R!StartIs(e.start,e) /\ R!ObserverIs(e.observer,e)
     ELSE LET c == Creation(line)
          IN /\ R!OffsetIs(e.kind,SecondsOf(c.hh,c.mm,c.s),Trace[line - 1].ask,e.ask)
             /\ Trace[line - 1].op = "new" => R!SeenAs(c.observer,e.sza)
==============================================================================
