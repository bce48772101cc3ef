------------------------------ MODULE SplitProof ------------------------------
(***************************************************************************)
(* Two-part dates, counted in milliseconds of the day, over the unbounded  *)
(* integers, for Apalache: taking the parts' fractions apart with a        *)
(* remainder that follows the sign of its dividend, as JD2CAL does, gives  *)
(* the day number and the fraction of their sum, whatever the split; and a *)
(* count of seconds splits into hours, minutes and seconds.                *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  a,
  \* @type: Int;
  b

K == 86400000
Rem(x) == IF x >= 0 THEN x % K ELSE -((-x) % K)

Large == IF a >= b THEN a ELSE b
Small == (IF a >= b THEN b ELSE a) - K \div 2
F1 == Rem(Large)
F2 == Rem(Small)
Rest == Rem(F1 + F2)
Fraction == IF Rest < 0 THEN Rest + K ELSE Rest
Whole(x) == x % K = 0
DayOf == (Large - F1) \div K + (Small - F2) \div K + (F1 + F2 - Fraction) \div K

Init == a \in Int /\ b \in Int
Stay == UNCHANGED << a, b >>

Split ==
  /\ Whole(Large - F1) /\ Whole(Small - F2) /\ Whole(F1 + F2 - Fraction)
  /\ Fraction >= 0 /\ Fraction < K
  /\ DayOf*K + Fraction = a + b - K \div 2
  /\ DayOf = (a + b - K \div 2) \div K

\* a second of the day
Clock ==
  (0 <= a /\ a <= 86400) =>
    LET h == a \div 3600 m == (a % 3600) \div 60 s == a % 60
    IN /\ h \in 0..24 /\ m \in 0..59 /\ s \in 0..59
       /\ 3600*h + 60*m + s = a
       /\ h = 24 => (m = 0 /\ s = 0)


All == Split /\ Clock
==============================================================================
