-------------------------- MODULE MC_CalendarMonths ---------------------------
(***************************************************************************)
(* The odometer by months, from the first month whose dates any conversion *)
(* may return to the end of LastYear.  The states are dumped and replayed  *)
(* on the real library, day by day within each month.                      *)
(***************************************************************************)
EXTENDS Calendar
CONSTANT LastYear
Init == CalInit(-4800,3,1,DayNumber(-4800,3,1))
MCNext == y <= LastYear /\ NextMonth
Spec == Init /\ [][MCNext]_cal
P == INSTANCE CalendarProof
SameMachine == P!IsDate /\ P!Inv
Arithmetic == P!Forward /\ P!Backward
==============================================================================
