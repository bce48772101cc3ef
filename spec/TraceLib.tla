------------------------------- MODULE TraceLib -------------------------------
(***************************************************************************)
(* Validation of a recorded trace of independent calls.                    *)
(*                                                                         *)
(* The trace file has one event per line: a call of the library, with its  *)
(* arguments and its answer.  For calls that have no memory any event may  *)
(* come first, so the trace is checked as Chains interleaved subsequences, *)
(* which TLC's workers explore in parallel: chain c visits the events c,   *)
(* c + Chains, c + 2*Chains...  A trace module supplies EventOK, the       *)
(* answers the specification allows, as the invariant Conforms, so that    *)
(* TLC's counterexample names the event.  Complete says that every event   *)
(* was visited.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NEvents == Len(Trace)
Chains == 64

VARIABLES chain, line
tvars == << chain, line >>

TraceInit == chain = 0 /\ line = 0
TraceNext ==
  \/ /\ chain = 0
     /\ \E k \in 1..Chains : k <= NEvents /\ chain' = k /\ line' = k
  \/ /\ chain # 0
     /\ line + Chains <= NEvents
     /\ line' = line + Chains
     /\ UNCHANGED chain
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Complete == TLCGet("stats").distinct = NEvents + 1
==============================================================================
