------------------------------ MODULE CivilClock ------------------------------
(***************************************************************************)
(* Civil time and the atomic seconds that go by.                           *)
(*                                                                         *)
(* UTC as its keepers made it: from 1960 to 1971 its second was the atomic *)
(* second lengthened by a published amount, in units of 1E-10, and on some *)
(* midnights the clock was moved by a published step; since 1972 its       *)
(* second is the atomic one and some days end with a second 23:59:60.  The *)
(* state is the civil date and time and the atomic seconds since the       *)
(* beginning of 1960.  That the table of TAI-UTC, which states none of     *)
(* this, says what such a clock accumulates is the invariant Accounted.    *)
(***************************************************************************)
EXTENDS Calendar, LeapSeconds, TimeScales, TimeOfDay

VARIABLES s, e        \* seconds of the civil day; atomic seconds elapsed
civil == << y, m, d, n, s, e >>

Lengthened(yy) ==
  CASE yy \in 1960..1961 -> 150
    [] yy \in 1962..1963 -> 130
    [] yy \in 1964..1965 -> 150
    [] yy \in 1966..1971 -> 300
    [] yy >= 1972        -> 0

\* Months that begin with an atomic second more on the clock's count: the
\* years whose first half, and whose second half, ended in a leap second.
AfterJune == { 1972, 1981, 1982, 1983, 1985, 1992, 1993, 1994, 1997, 2012, 2015 }
AfterDecember == { 1972, 1973, 1974, 1975, 1976, 1977, 1978, 1979, 1987, 1989, 1990, 1995, 1998, 2005, 2008, 2016 }

\* The step, in atomic seconds, taken at the midnight that begins a month
StepAt(yy,mm) ==
  CASE yy = 1961 /\ mm = 1 -> FxDec("0.005")
    [] yy = 1961 /\ mm = 8 -> FxDec("-0.05")
    [] yy = 1963 /\ mm = 11 -> FxDec("0.1")
    [] yy = 1964 /\ mm \in {4,9} -> FxDec("0.1")
    [] yy = 1965 /\ mm \in {1,3,7,9} -> FxDec("0.1")
    [] yy = 1968 /\ mm = 2 -> FxDec("-0.1")
    [] yy = 1972 /\ mm = 1 -> FxDec("0.107758")
    [] mm = 7 /\ yy \in AfterJune -> F1
    [] mm = 1 /\ yy - 1 \in AfterDecember -> F1
    [] OTHER -> F0

\* The clock is looked at when these seconds of a day begin; 86400 is the
\* end of the day, and second 23:59:60 where there is one.
Marks == { 0, 1, 43200, 86399, 86400 }
Next1(t) == CHOOSE u \in Marks : u > t /\ \A v \in Marks : v > t => u <= v

CivilInit == CalInit(1960,1,1,DayNumber(1960,1,1)) /\ s = 0 /\ e = F0

Run ==
  /\ s < 86400
  /\ s' = Next1(s)
  /\ e' = LET k == s' - s IN FxAdd(e,FxAdd(FxInt(k),FxDivInt(FxDivInt(FxInt(k*Lengthened(y)),100000),100000)))
  /\ UNCHANGED cal

Midnight ==
  /\ s = 86400
  /\ NextDay
  /\ s' = 0
  /\ e' = IF d' = 1 THEN FxAdd(e,StepAt(y',m')) ELSE e

CivilNext == y < 2030 /\ (Run \/ Midnight)
CivilSpec == CivilInit /\ [][CivilNext]_civil

\* Atomic seconds from the beginning of 1960 to a civil time, by the table
Elapsed(yy,mm,dd,sod) ==
  FxAdd(FxSub(TaiUtc(InForce(yy,mm),yy,mm,dd,FxDivInt(sod,86400)),FxDec("0.943482")),
        FxAdd(FxMulInt(FxInt(86400),DayNumber(yy,mm,dd) - DayNumber(1960,1,1)),sod))

Accounted == FxNear(e,Elapsed(y,m,d,FxInt(s)),FxDec("1E-13"))
\* Atomic time only goes forward, but at the two steps back of the clock
Forward == [][FxLt(e,e') \/ (s = 86400 /\ FxLe(FxSub(e,FxDec("0.1")),e'))]_civil
==============================================================================
