--------------------------- MODULE MC_CalendarCycle ---------------------------
(***************************************************************************)
(* Every day of a 400-year cycle (March 1600 to March 2000): the odometer  *)
(* shows the closed form, and the cycle is 146097 days and then repeats.   *)
(***************************************************************************)
EXTENDS Calendar

Init == CalInit(1600,3,1,DayNumber(1600,3,1))
MCNext == (y < 2000 \/ m < 3) /\ NextDay
Spec == Init /\ [][MCNext]_cal

\* A date determines its successor's validity: no date of the odometer is
\* refused, and the day after the last of a month is.
Accepted == NewResult(y,m,d) = "ok" /\ NewResult(y,m,DaysIn(y,m)+1) = "BadDay"
\* The calendar repeats after 400 years, and 400 years have 146097 days.
Periodic == DaysIn(y+400,m) = DaysIn(y,m) /\ DayNumber(y+400,m,d) = n + 146097
BigAgrees == DayNumberFx(y,m,d) = FxInt(n)
Anchor == (y = 1858 /\ m = 11 /\ d = 17) <=> n = 0
J2000 == (y = 2000 /\ m = 1 /\ d = 1) => n = 51544
\* The machine Apalache reasons about (CalendarProof) is this one, and the
\* integer arithmetic of SOFA's conversions, which repeats by its Shift, is
\* right on the whole cycle.
P == INSTANCE CalendarProof
SameMachine == P!IsDate /\ P!Inv /\ P!DaysIn(y,m) = DaysIn(y,m) /\ P!DayNumber(y,m,d) = DayNumber(y,m,d)
Arithmetic == P!Forward /\ P!Backward
==============================================================================
