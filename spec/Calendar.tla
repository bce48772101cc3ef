------------------------------- MODULE Calendar -------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar as tofas sees it, and its relation to  *)
(* Julian day numbers.                                                     *)
(*                                                                         *)
(* The calendar itself is an odometer: the state is a date and a running   *)
(* day count, and the only action is the passing of a day.  The day number *)
(* of a date is what the odometer shows; the closed formula is a theorem   *)
(* about it (invariant ClosedForm), checked by TLC over a whole 400-year   *)
(* cycle and by Apalache for every year (CalendarProof).                   *)
(***************************************************************************)
EXTENDS Gregorian

VARIABLES y, m, d, n          \* date, and days since 1858-11-17
cal == << y, m, d, n >>

CalInit(y0,m0,d0,n0) == y = y0 /\ m = m0 /\ d = d0 /\ n = n0

\* One day passes.
NextDay ==
  /\ n' = n + 1
  /\ IF d < DaysIn(y,m)
       THEN d' = d + 1 /\ UNCHANGED << y, m >>
       ELSE /\ d' = 1
            /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y
                         ELSE m' = 1 /\ y' = y + 1

\* From the first of a month to the first of the next: DaysIn(y,m) days pass.
NextMonth ==
  /\ d = 1 /\ d' = 1
  /\ n' = n + DaysIn(y,m)
  /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y
               ELSE m' = 1 /\ y' = y + 1

ClosedForm == n = DayNumber(y,m,d)
TypeOK == IsDate(y,m,d)
==============================================================================
