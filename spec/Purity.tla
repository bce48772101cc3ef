-------------------------------- MODULE Purity --------------------------------
(***************************************************************************)
(* The library as a whole has no memory: what a call answers is a function *)
(* of its arguments, though the specification of this module does not say  *)
(* which.  Threads begin and end calls, on objects of their own; Answered  *)
(* records what has been answered so far, and a library with no memory     *)
(* never answers differently.                                              *)
(*                                                                         *)
(* Impl chooses how a call computes:                                       *)
(*   "pure"   from its arguments                                           *)
(*   "cache"  keeping the last argument and answer in shared cells that    *)
(*            are read and written one at a time                           *)
(*   "object" keeping the last answer in the thread's object, looked up by *)
(*            a part of the argument                                       *)
(*   "crowd"  taking a short cut while other threads compute               *)
(*   "number" numbering the threads that call, in a number that wraps, and *)
(*            taking the number 0 to mean that nothing is ready            *)
(*   "clock"  taking a short cut when the process has grown old            *)
(* "pure" is what tofas does.  The others are mistakes of the kind the     *)
(* property excludes: TLC finds the histories that expose them, and that   *)
(* these have at most HistoryLength calls, which is the length of the      *)
(* histories of module Histories that are replayed on the library.  What   *)
(* exposes the last three -- a crowd, very many threads, age -- is put to  *)
(* the library by the recorded trace: 64 threads calling one function at   *)
(* once, more than 2^16 threads one after another, and every call made     *)
(* early and late in the life of the process.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Impl, HistoryLength

Args == 1..3
Part(a) == a % 2                   \* confuses 1 and 3
Value(a) == 10*a                   \* any injective function will do
Short(a) == 10*a + 1               \* what a short cut would answer
Wrap == 2
Old == 1

VARIABLES pc, arg, got, cellArg, cellVal, own, answered, calls,
          number,                  \* of each thread: -1 until it first calls
          started,                 \* threads that have called so far
          age                      \* of the process
vars == << pc, arg, got, cellArg, cellVal, own, answered, calls, number, started, age >>
surroundings == << number, started, age >>

None == 0
Unborn == 99
Init == /\ pc = [ t \in Threads |-> "idle" ]
        /\ arg = [ t \in Threads |-> 1 ]
        /\ got = [ t \in Threads |-> None ]
        /\ cellArg = None /\ cellVal = None
        /\ own = [ t \in Threads |-> << None, None >> ]
        /\ answered = {}
        /\ calls = 0
        /\ number = [ t \in Threads |-> Unborn ] /\ started = 0 /\ age = 0

Begin(t,a) ==
  /\ pc[t] = "idle" /\ calls < HistoryLength
  /\ pc' = [ pc EXCEPT ![t] = "compute" ]
  /\ arg' = [ arg EXCEPT ![t] = a ]
  /\ calls' = calls + 1
  /\ IF number[t] = Unborn
       THEN number' = [ number EXCEPT ![t] = (started + 1) % Wrap ] /\ started' = started + 1
       ELSE UNCHANGED << number, started >>
  /\ UNCHANGED << got, cellArg, cellVal, own, answered, age >>

Goto(t,l) == pc' = [ pc EXCEPT ![t] = l ]
Have(t,v) == got' = [ got EXCEPT ![t] = v ]

Compute(t) ==
  /\ pc[t] = "compute"
  /\ CASE Impl = "pure" ->
            Have(t,Value(arg[t])) /\ Goto(t,"end") /\ UNCHANGED << cellArg, cellVal, own >>
       [] Impl = "cache" ->
            IF cellArg = arg[t]
              THEN Goto(t,"read") /\ UNCHANGED << got, cellArg, cellVal, own >>
              ELSE Have(t,Value(arg[t])) /\ cellArg' = arg[t] /\ Goto(t,"write")
                   /\ UNCHANGED << cellVal, own >>
       [] Impl = "object" ->
            /\ LET v == IF own[t][2] # None /\ own[t][1] = Part(arg[t]) THEN own[t][2] ELSE Value(arg[t])
               IN Have(t,v) /\ own' = [ own EXCEPT ![t] = << Part(arg[t]), v >> ]
            /\ Goto(t,"end")
            /\ UNCHANGED << cellArg, cellVal >>
       [] Impl = "crowd" ->
            /\ Have(t,IF \E u \in Threads \ {t} : pc[u] # "idle" THEN Short(arg[t]) ELSE Value(arg[t]))
            /\ Goto(t,"end") /\ UNCHANGED << cellArg, cellVal, own >>
       [] Impl = "number" ->
            /\ Have(t,IF number[t] = 0 THEN Short(arg[t]) ELSE Value(arg[t]))
            /\ Goto(t,"end") /\ UNCHANGED << cellArg, cellVal, own >>
       [] Impl = "clock" ->
            /\ Have(t,IF age >= Old THEN Short(arg[t]) ELSE Value(arg[t]))
            /\ Goto(t,"end") /\ UNCHANGED << cellArg, cellVal, own >>
  /\ UNCHANGED << arg, answered, calls >> /\ UNCHANGED surroundings
ReadCell(t) == /\ pc[t] = "read"
               /\ Have(t,cellVal) /\ Goto(t,"end")
               /\ UNCHANGED << arg, cellArg, cellVal, own, answered, calls >> /\ UNCHANGED surroundings
WriteCell(t) == /\ pc[t] = "write"
                /\ cellVal' = got[t] /\ Goto(t,"end")
                /\ UNCHANGED << arg, got, cellArg, own, answered, calls >> /\ UNCHANGED surroundings
End(t) == /\ pc[t] = "end"
          /\ answered' = answered \cup { << arg[t], got[t] >> }
          /\ Goto(t,"idle")
          /\ UNCHANGED << arg, got, cellArg, cellVal, own, calls >> /\ UNCHANGED surroundings
Grow == /\ age < Old /\ age' = age + 1
        /\ UNCHANGED << pc, arg, got, cellArg, cellVal, own, answered, calls, number, started >>

Next == \/ Grow
        \/ \E t \in Threads : \/ \E a \in Args : Begin(t,a)
                              \/ Compute(t) \/ ReadCell(t) \/ WriteCell(t) \/ End(t)
Spec == Init /\ [][Next]_vars

\* One answer for each argument
NoMemory == \A p, q \in answered : p[1] = q[1] => p[2] = q[2]
\* ... and the one a call by itself gives
Alone == \A p \in answered : p[2] = Value(p[1])
==============================================================================
