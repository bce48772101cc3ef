------------------------------ MODULE Gregorian -------------------------------
(***************************************************************************)
(* Dates of the proleptic Gregorian calendar, their day numbers, and their *)
(* reading from two-part Julian dates.  The state machine these operators  *)
(* describe, and the theorems relating them to it, are in module Calendar. *)
(***************************************************************************)
EXTENDS FxMath

YearMin == -4799

IsLeap(y) == y % 4 = 0 /\ (y % 100 = 0 => y % 400 = 0)
DaysIn(y,m) ==
  CASE m \in {1,3,5,7,8,10,12} -> 31
    [] m \in {4,6,9,11}        -> 30
    [] m = 2                   -> IF IsLeap(y) THEN 29 ELSE 28

\* What constructing a date must answer
NewResult(y,m,d) ==
  IF y < YearMin THEN "BadYear"
  ELSE IF m \notin 1..12 THEN "BadMonth"
  ELSE IF d < 1 \/ d > DaysIn(y,m) THEN "BadDay"
  ELSE "ok"
IsDate(y,m,d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y,m)

------------------------------------------------------------------------------
\* Closed form of the day number (days since 1858-11-17; years count from
\* March so that the leap day comes last).

MarchYear(yy,mm) == IF mm <= 2 THEN yy - 1 ELSE yy
DayInYear(mm,dd) == (153*((mm + 9) % 12) + 2) \div 5 + dd - 1
DayNumber(yy,mm,dd) ==
  LET a == MarchYear(yy,mm)
  IN 365*a + a \div 4 - a \div 100 + a \div 400 + DayInYear(mm,dd) - 678881

\* The same for years whose day number does not fit TLC's integers: whole
\* 400-year cycles of 146097 days are counted apart.
DayNumberFx(yy,mm,dd) ==
  FxAdd(FxMulInt(FxInt(146097),yy \div 400),FxInt(DayNumber(yy % 400,mm,dd)))

------------------------------------------------------------------------------
\* Julian dates

MjdZero == FxDec("2400000.5")
JdMin == FxInt(-32000)
JdMax == FxInt(1000000000)

\* Instant of date + fraction of day, as a Julian date
Instant(yy,mm,dd,f) == FxAdd(FxAdd(MjdZero,DayNumberFx(yy,mm,dd)),f)

\* Rounding allowed to a conversion of the two-part date (a,b): that of the
\* part of smaller magnitude.  When the larger part is negative, aligning it
\* to midnight can cost one rounding of that part.
SplitTol(a,b) ==
  LET small == IF FxLe(FxAbs(a),FxAbs(b)) THEN a ELSE b
      large == IF FxLe(FxAbs(a),FxAbs(b)) THEN b ELSE a
  IN FxAdd(FxAdd(FxUlp(small),FxPow2(-52)),
           IF large[1] < 0 THEN FxUlp(large) ELSE F0)

SumIsNum(a,b) == FxIsNum(a) /\ FxIsNum(b)
\* The range test is made on the rounded sum of the parts: within one
\* rounding outside a limit either answer is right.  The limits themselves
\* are floating-point numbers, so that no sum inside rounds to one outside.
SurelyInside(a,b)  == SumIsNum(a,b) /\ LET s == FxAdd(a,b) IN FxLe(JdMin,s) /\ FxLe(s,JdMax)
SurelyOutside(a,b) == ~SumIsNum(a,b) \/ LET s == FxAdd(a,b) IN
                      FxLt(s,FxSub(JdMin,FxUlp(JdMin))) \/ FxLt(FxAdd(JdMax,FxUlp(JdMax)),s)

\* (yy,mm,dd,f) is an acceptable reading of the Julian date (a,b)
ReadsAs(a,b,yy,mm,dd,f,tol) ==
  /\ IsDate(yy,mm,dd)
  /\ FxIsNum(f) /\ FxLe(F0,f) /\ FxLt(f,F1)
  /\ FxNear(Instant(yy,mm,dd,f),FxAdd(a,b),tol)
==============================================================================
