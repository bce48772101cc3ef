------------------------------- MODULE Histories ------------------------------
(***************************************************************************)
(* All histories of up to Length calls, over three calls of one function   *)
(* with arguments that are easily confused, each made on a fresh object or *)
(* on one kept through the history.  They are dumped and replayed on the   *)
(* library, for every function and several choices of the arguments; after *)
(* every history each call must answer as it does by itself in a process   *)
(* of its own.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANT Length
Calls == 1..3
VARIABLE hist                     \* calls 1..3 fresh, 4..6 on the kept object
Init == hist = << >>
Next == Len(hist) < Length /\ \E c \in 1..6 : hist' = Append(hist,c)
Spec == Init /\ [][Next]_hist
TypeOK == Len(hist) <= Length
==============================================================================
