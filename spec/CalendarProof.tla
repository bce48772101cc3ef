---------------------------- MODULE CalendarProof -----------------------------
(***************************************************************************)
(* For every year, not only those TLC can count through.  Apalache proves  *)
(* here, over the unbounded integers,                                      *)
(*   Odometer   the day number in closed form grows by one from each day   *)
(*              to the next (Inv is inductive for NextDay);                *)
(*   Forward    the integer arithmetic of SOFA's CAL2JD is that closed     *)
(*              form for every date from -4799 on;                         *)
(*   Cycle      the calendar repeats after 400 years and 146097 days;      *)
(*   Shift      so does the integer arithmetic of SOFA's JD2CAL: with      *)
(*              Backward checked by TLC for every day of one cycle         *)
(*              (MC_CalendarCycle) it follows for every day from JD -32000 *)
(*              on (all of Backward at once is beyond the solver).         *)
(*   Fits64, Fits32   how far the arithmetic stays within 64 and 32 bits.  *)
(* Calendar.tla is the same machine for TLC; the operators are repeated    *)
(* here because Apalache cannot read the Java-backed numbers of module Fx. *)
(* MC_CalendarCycle and MC_CalendarMonths compare the two copies.          *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  y,
  \* @type: Int;
  m,
  \* @type: Int;
  d,
  \* @type: Int;
  n

IsLeap(yy) == yy % 4 = 0 /\ (yy % 100 = 0 => yy % 400 = 0)
DaysIn(yy,mm) ==
  IF mm \in {1,3,5,7,8,10,12} THEN 31
  ELSE IF mm \in {4,6,9,11} THEN 30
  ELSE IF IsLeap(yy) THEN 29 ELSE 28

MarchYear(yy,mm) == IF mm <= 2 THEN yy - 1 ELSE yy
DayInYear(mm,dd) == (153*((mm + 9) % 12) + 2) \div 5 + dd - 1
DayNumber(yy,mm,dd) ==
  LET a == MarchYear(yy,mm)
  IN 365*a + a \div 4 - a \div 100 + a \div 400 + DayInYear(mm,dd) - 678881

IsDate == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y,m)

Inv == IsDate /\ n = DayNumber(y,m,d)
Init == y \in Int /\ m \in 1..12 /\ d \in 1..31 /\ n \in Int /\ Inv
InitEpoch == y = 1858 /\ m = 11 /\ d = 17 /\ n = 0

NextDay ==
  /\ n' = n + 1
  /\ IF d < DaysIn(y,m)
       THEN d' = d + 1 /\ UNCHANGED << y, m >>
       ELSE /\ d' = 1
            /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y
                         ELSE m' = 1 /\ y' = y + 1
Next == NextDay
Stay == UNCHANGED << y, m, d, n >>

\* Division toward zero, as the machine's
TDiv(a,b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

\* CAL2JD
ForwardArith ==
  LET my == TDiv(m - 14,12)
      iy == y + my
  IN TDiv(1461*(iy + 4800),4) + TDiv(367*(m - 2 - 12*my),12) - TDiv(3*TDiv(iy + 4900,100),4) + d - 2432076
Forward == y >= -4799 => ForwardArith = DayNumber(y,m,d)

\* JD2CAL, of the Julian day number of the noon of the day: the 400-year
\* cycle and the days into it, then the date
Cycles(jd) == TDiv(4*(jd + 68569),146097)
Left(jd) == jd + 68569 - TDiv(146097*Cycles(jd) + 3,4)
Years(l1) == TDiv(4000*(l1 + 1),1461001)
MonthDays(l1) == l1 - TDiv(1461*Years(l1),4) + 31
MonthIndex(l2) == TDiv(80*l2,2447)
Noon == n + 2400001
Backward ==
  n >= -32000 - 2400001 =>
  LET l1 == Left(Noon)
      l2 == MonthDays(l1)
      kk == MonthIndex(l2)
      l3 == TDiv(kk,11)
  IN /\ l2 - TDiv(2447*kk,80) = d
     /\ kk + 2 - 12*l3 = m
     /\ 100*(Cycles(Noon) - 49) + Years(l1) + l3 = y
\* Backward of a day and of the day a cycle later are the same statement
Shift == n >= -32000 - 2400001 =>
  /\ Cycles(Noon + 146097) = Cycles(Noon) + 4
  /\ Left(Noon + 146097) = Left(Noon)

Cycle == DayNumber(y + 400,m,d) = DayNumber(y,m,d) + 146097 /\ DaysIn(y + 400,m) = DaysIn(y,m)

\* 32-bit years fit 64-bit arithmetic throughout (products stay below 2^62)
Fits64 == y <= 2147483647 /\ y >= -4799 =>
  (1461*(y + 4800)) \div 2147483647 < 2147483647 /\ (3*(y + 4900)) \div 2147483647 < 2147483647
\* ... and 32-bit arithmetic exactly to the year 1465072
Fits32 == y >= -4799 => (1461*(y + 4800) <= 2147483647) = (y <= 1465072)

All == Forward /\ Cycle /\ Shift /\ Fits64 /\ Fits32
==============================================================================
