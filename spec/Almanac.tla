------------------------------- MODULE Almanac --------------------------------
(***************************************************************************)
(* The specification against almanacs: equinoxes and solstices, apparent   *)
(* places of the Sun, sidereal time, perihelia and the height of the Sun   *)
(* published by others, computed by other means.  Each state is one        *)
(* comparison.                                                             *)
(***************************************************************************)
EXTENDS SunAngle, TLC

D(s) == FxDec(s)
Mjd == FxDec("2400000.5")
Day(yy,mm,dd,h,min) == FxAdd(FxInt(DayNumber(yy,mm,dd)),FxDivInt(FxInt(60*h + min),1440))
After(day,s) == FxAdd(day,FxDivInt(D(s),86400))
Sec(s) == Radians(D(s))
Hours(h,min,s) == FxMul(FxDivInt(FxAdd(FxInt(3600*h + 60*min),D(s)),86400),FTwoPi)
Degrees(x) == FxMul(D(x),FDeg)
HourDegrees(d,min,s) == FxMul(FxDivInt(FxAdd(FxInt(3600*d + 60*min),D(s)),3600),FDeg)

\* The Sun as seen at an instant (TT): where it stood when its light left,
\* 499.005 s for each unit of distance
Seen(day) ==
  LET r == Norm(Heliocentric(YearsOf(Mjd,day))[1])
  IN Neg(Heliocentric(YearsOf(Mjd,FxSub(day,FxDivInt(FxMul(r,D("499.005")),86400))))[1])
Turn(m,v) == Apply(Transpose(m),v)
OfDate(day) == Turn(PrecessionNutation(Centuries(Mjd,day)),Seen(day))
TrueObliquity(t) == FxAdd(TrueObliquityBase(t),NutationOf(t)[2])
Ecliptic(day) == Turn(RX(TrueObliquity(Centuries(Mjd,day))),OfDate(day))

\* the angle of (x,y) is theta, to tol
AngleIs(x,y,theta,tol) ==
  LET n == Unit(<< x, y, F0 >>) sc == FxSinCos(theta)
  IN FxNear(n[1],sc[2],tol) /\ FxNear(n[2],sc[1],tol)
\* the Sun's apparent longitude passes a quarter of the turn within s seconds
Passes(q,day,s) ==
  LET a == Ecliptic(After(FxSub(day,FxDivInt(D(s),43200)),s)) \* s before
      b == Ecliptic(After(day,s))
      Ahead(v) == CASE q = 0 -> v[2] [] q = 1 -> FxNeg(v[1]) [] q = 2 -> FxNeg(v[2]) [] q = 3 -> v[1]
      Along(v) == CASE q = 0 -> v[1] [] q = 1 -> v[2] [] q = 2 -> FxNeg(v[1]) [] q = 3 -> FxNeg(v[2])
  IN FxLt(Ahead(a),F0) /\ FxLt(F0,Ahead(b)) /\ FxLt(F0,Along(a)) /\ FxLt(F0,Along(b))
\* nearest or farthest within some minutes, at a distance
Apsis(sign,day,r,s) ==
  LET R(t) == LET h == Heliocentric(YearsOf(Mjd,t)) IN Dot(h[1],h[2])
  IN /\ FxNear(Norm(Heliocentric(YearsOf(Mjd,day))[1]),D(r),D("0.0000015"))
     /\ FxLt(FxMulInt(R(After(FxSub(day,FxDivInt(D(s),43200)),s)),sign),F0)
     /\ FxLt(F0,FxMulInt(R(After(day,s)),sign))

\* Apparent sidereal time: the terrestrial frame seen from the true equator
\* and equinox is turned by it
SiderealOK(ut,tt,theta,tol) ==
  LET t == Centuries(Mjd,tt)
      m == Compose(TerrestrialOf(Intermediate(t),EraOf(Mjd,ut),Identity),Transpose(PrecessionNutation(t)))
  IN AngleIs(m[1][1],m[1][2],theta,tol)

\* Zenith angle of the Sun from a place, with the parallax
ZenithOK(ut,tt,lon,lat,h,z,tol) ==
  LET t == Centuries(Mjd,tt)
      m == TerrestrialOf(Intermediate(t),EraOf(Mjd,ut),Identity)
      el == Degrees(lon) ph == Degrees(lat)
      p == Scale(FxDiv(F1,AuMetres),Forward(WgsA,WgsF,el,ph,D(h))[1])
  IN FxNear(Dot(Normal(el,ph),Unit(Sub(Turn(m,Seen(tt)),p))),FxCos(Degrees(z)),tol)

VARIABLE k
\* The comparisons
NCases == 25
Case(i) ==
  CASE
    \* Equinoxes and solstices, Universal Time to the minute; TT is 64, 66 and 69 s ahead
       i = 1 -> Passes(0,After(Day(2000,3,20,7,35),"64"),"60")
    [] i = 2 -> Passes(1,After(Day(2000,6,21,1,48),"64"),"60")
    [] i = 3 -> Passes(2,After(Day(2000,9,22,17,28),"64"),"60")
    [] i = 4 -> Passes(3,After(Day(2000,12,21,13,37),"64"),"60")
    [] i = 5 -> Passes(0,After(Day(2010,3,20,17,32),"66"),"60")
    [] i = 6 -> Passes(1,After(Day(2010,6,21,11,28),"66"),"60")
    [] i = 7 -> Passes(2,After(Day(2010,9,23,3,9),"66"),"60")
    [] i = 8 -> Passes(3,After(Day(2010,12,21,23,38),"66"),"60")
    [] i = 9 -> Passes(0,After(Day(2020,3,20,3,50),"69"),"60")
    [] i = 10 -> Passes(1,After(Day(2020,6,20,21,44),"69"),"60")
    [] i = 11 -> Passes(2,After(Day(2020,9,22,13,31),"69"),"60")
    [] i = 12 -> Passes(3,After(Day(2020,12,21,10,2),"69"),"60")
    \* The solstice of June 1962 (Meeus, Astronomical Algorithms, chapter 27), dynamical time
    [] i = 13 -> Passes(1,After(Day(1962,6,21,21,24),"42"),"12")
    \* Apparent place of the Sun, 1992 October 13 (Meeus, chapter 25)
    [] i = 14 -> LET v == OfDate(Day(1992,10,13,0,0)) IN
       /\ AngleIs(v[1],v[2],Hours(13,13,"30.749"),Sec("0.3"))
       /\ FxNear(Unit(v)[3],FxNeg(FxSin(HourDegrees(7,47,"1.74"))),Sec("0.3"))
    [] i = 15 -> FxNear(Norm(Heliocentric(YearsOf(Mjd,Day(1992,10,13,0,0)))[1]),D("0.99760853"),D("2E-7"))
    \* Nutation and obliquity, 1987 April 10 (chapter 22)
    [] i = 16 -> LET t == Centuries(Mjd,Day(1987,4,10,0,0)) n == NutationOf(t) IN
       /\ FxNear(n[1],Sec("-3.788"),Sec("0.02")) /\ FxNear(n[2],Sec("9.443"),Sec("0.02"))
       /\ FxNear(MeanObliquity(t),HourDegrees(23,26,"27.407"),Sec("0.001"))
    \* Apparent sidereal time at Greenwich (chapter 12)
    [] i = 17 -> SiderealOK(Day(1987,4,10,0,0),After(Day(1987,4,10,0,0),"55.4"),Hours(13,10,"46.1351"),Sec("0.1"))
    \* Precession of theta Persei from 2000 to 2028 November 13.19 (chapter 21)
    [] i = 18 -> LET el == Degrees("41.054063") ph == Degrees("49.227750")
         v == Turn(PrecessionMatrix(D("0.288670500")),Normal(el,ph)) IN
       /\ AngleIs(v[1],v[2],Degrees("41.547214"),Sec("0.2"))
       /\ FxNear(v[3],FxSin(Degrees("49.348483")),Sec("0.2"))
    \* Perihelia and aphelia, dynamical time in hundredths of an hour (chapter 38)
    [] i = 19 -> Apsis(1,Day(1991,1,3,3,0),"0.983281","240")
    [] i = 20 -> Apsis(-1,Day(1991,7,6,15,28),"1.016703","240")
    [] i = 21 -> Apsis(1,Day(1992,1,3,15,4),"0.983324","240")
    [] i = 22 -> Apsis(-1,Day(1992,7,3,12,8),"1.016740","240")
    [] i = 23 -> Apsis(1,Day(1993,1,4,3,5),"0.983283","240")
    [] i = 24 -> Apsis(-1,Day(1993,7,4,22,22),"1.016666","240")
    \* The Sun over Golden, Colorado, 2003 October 17 (Reda and Andreas, Solar Position Algorithm)
    [] i = 25 -> ZenithOK(After(Day(2003,10,17,19,30),"30"),After(Day(2003,10,17,19,30),"97"),"-105.1786","39.742476","1830.14","50.127954",Sec("5"))

\* eight chains of comparisons, for as many workers
Init == k = 0
Next == IF k = 0 THEN k' \in 1..8 ELSE k + 8 <= NCases /\ k' = k + 8
Spec == Init /\ [][Next]_k
Observed == k = 0 \/ Case(k)
==============================================================================
