----------------------------- MODULE LeapSeconds ------------------------------
(***************************************************************************)
(* TAI-UTC as published (IERS Bulletin C, tai-utc.dat): segments of an     *)
(* offset that, until 1972, drifts linearly with the Modified Julian Date. *)
(***************************************************************************)
EXTENDS Gregorian

\* << year, month, offset [s], reference MJD, drift [s/day] >>: the segment
\* starts on the first day of the month.
Segments == <<
  << 1960, 1, "1.417818", 37300, "0.001296" >>,  << 1961, 1, "1.422818", 37300, "0.001296" >>,
  << 1961, 8, "1.372818", 37300, "0.001296" >>,  << 1962, 1, "1.845858", 37665, "0.0011232" >>,
  << 1963, 11, "1.945858", 37665, "0.0011232" >>, << 1964, 1, "3.240130", 38761, "0.001296" >>,
  << 1964, 4, "3.340130", 38761, "0.001296" >>,  << 1964, 9, "3.440130", 38761, "0.001296" >>,
  << 1965, 1, "3.540130", 38761, "0.001296" >>,  << 1965, 3, "3.640130", 38761, "0.001296" >>,
  << 1965, 7, "3.740130", 38761, "0.001296" >>,  << 1965, 9, "3.840130", 38761, "0.001296" >>,
  << 1966, 1, "4.313170", 39126, "0.002592" >>,  << 1968, 2, "4.213170", 39126, "0.002592" >>,
  << 1972, 1, "10", 0, "0" >>, << 1972, 7, "11", 0, "0" >>, << 1973, 1, "12", 0, "0" >>,
  << 1974, 1, "13", 0, "0" >>, << 1975, 1, "14", 0, "0" >>, << 1976, 1, "15", 0, "0" >>,
  << 1977, 1, "16", 0, "0" >>, << 1978, 1, "17", 0, "0" >>, << 1979, 1, "18", 0, "0" >>,
  << 1980, 1, "19", 0, "0" >>, << 1981, 7, "20", 0, "0" >>, << 1982, 7, "21", 0, "0" >>,
  << 1983, 7, "22", 0, "0" >>, << 1985, 7, "23", 0, "0" >>, << 1988, 1, "24", 0, "0" >>,
  << 1990, 1, "25", 0, "0" >>, << 1991, 1, "26", 0, "0" >>, << 1992, 7, "27", 0, "0" >>,
  << 1993, 7, "28", 0, "0" >>, << 1994, 7, "29", 0, "0" >>, << 1996, 1, "30", 0, "0" >>,
  << 1997, 7, "31", 0, "0" >>, << 1999, 1, "32", 0, "0" >>, << 2006, 1, "33", 0, "0" >>,
  << 2009, 1, "34", 0, "0" >>, << 2012, 7, "35", 0, "0" >>, << 2015, 7, "36", 0, "0" >>,
  << 2017, 1, "37", 0, "0" >> >>

NSegments == Len(Segments)

\* (yy,mm) is not before the start of segment i
Reached(i,yy,mm) == \/ yy > Segments[i][1]
                    \/ yy = Segments[i][1] /\ mm >= Segments[i][2]
\* The segment in force in a month, 0 before 1960
InForce(yy,mm) == LET S == { i \in 1..NSegments : Reached(i,yy,mm) }
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i

\* TAI-UTC of segment i, md days after MJD 0 (a whole number), fr into the day
OffsetIn(i,md,fr) ==
  LET s == Segments[i]
  IN IF s[4] = 0 THEN FxDec(s[3])
     ELSE FxAdd(FxDec(s[3]),FxMul(FxAdd(FxInt(md - s[4]),fr),FxDec(s[5])))

\* TAI-UTC of a date and fraction of day, for a month in which segment
\* i > 0 is in force
TaiUtc(i,yy,mm,dd,fr) == IF Segments[i][4] = 0 THEN FxDec(Segments[i][3])
                         ELSE OffsetIn(i,DayNumber(yy,mm,dd),fr)
==============================================================================
