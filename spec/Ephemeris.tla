------------------------------ MODULE Ephemeris -------------------------------
(***************************************************************************)
(* Position and velocity of the Earth from the published series.  A term   *)
(* (a,b,c) of the table of order n contributes a t^n cos(b + c t) to its   *)
(* coordinate, t in Julian years from J2000, and the velocity is the       *)
(* derivative of that sum:                                                 *)
(*     n t^(n-1) a cos(b + c t)  -  t^n a c sin(b + c t).                  *)
(***************************************************************************)
EXTENDS Vectors, EphemerisData

YearDays == FxDec("365.25")
DJ2000 == FxInt(2451545)
YearsOf(a,b) == FxDiv(FxSub(FxAdd(a,b),DJ2000),YearDays)

\* << a cos, a c sin >> of a row, and their sums over a table
TermOf(r,t) == LET sc == FxSinCos(FxAdd(r[2],FxMul(r[3],t)))
               IN << FxMul(r[1],sc[2]), FxMul(FxMul(r[1],r[3]),sc[1]) >>
SumOf(tab,t) == FxSumPairs([ i \in 1..Len(tab) |-> TermOf(tab[i],t) ])

\* Position and derivative of one coordinate, from its tables of order 0, 1, 2
Coordinate(tabs,t) ==
  LET s0 == SumOf(tabs[1],t) s1 == SumOf(tabs[2],t) s2 == SumOf(tabs[3],t)
      t2 == FxSq(t)
  IN << FxAdd(s0[1],FxAdd(FxMul(t,s1[1]),FxMul(t2,s2[1]))),
        FxSub(FxAdd(s1[1],FxMul(FxMulInt(t,2),s2[1])),
              FxAdd(s0[2],FxAdd(FxMul(t,s1[2]),FxMul(t2,s2[2])))) >>

SunToEarth == << << E0X, E1X, E2X >>, << E0Y, E1Y, E2Y >>, << E0Z, E1Z, E2Z >> >>
BaryToSun  == << << S0X, S1X, S2X >>, << S0Y, S1Y, S2Y >>, << S0Z, S1Z, S2Z >> >>

\* Ecliptic axes of the theory to the axes of the ICRF
EclipticToIcrf == << << F1, FxDec("0.000000211284"), FxDec("-0.000000091603") >>,
                     << FxDec("-0.000000230286"), FxDec("0.917482137087"), FxDec("-0.397776982902") >>,
                     << F0, FxDec("0.397776982902"), FxDec("0.917482137087") >> >>
Turned(v) == << Dot(EclipticToIcrf[1],v), Dot(EclipticToIcrf[2],v), Dot(EclipticToIcrf[3],v) >>

PosVelOf(x,y,z) == << Turned(<< x[1], y[1], z[1] >>),
                      LET v == Turned(<< x[2], y[2], z[2] >>)
                      IN << FxDiv(v[1],YearDays), FxDiv(v[2],YearDays), FxDiv(v[3],YearDays) >> >>
Heliocentric(t) == PosVelOf(Coordinate(SunToEarth[1],t),Coordinate(SunToEarth[2],t),Coordinate(SunToEarth[3],t))

Both(u,v) == << FxAdd(u[1],v[1]), FxAdd(u[2],v[2]) >>
\* << heliocentric, barycentric >>, each << position [AU], velocity [AU/day] >>
Earth(t) ==
  LET ex == Coordinate(SunToEarth[1],t) ey == Coordinate(SunToEarth[2],t) ez == Coordinate(SunToEarth[3],t)
      sx == Coordinate(BaryToSun[1],t) sy == Coordinate(BaryToSun[2],t) sz == Coordinate(BaryToSun[3],t)
  IN << PosVelOf(ex,ey,ez), PosVelOf(Both(ex,sx),Both(ey,sy),Both(ez,sz)) >>

------------------------------------------------------------------------------
\* What double precision costs.  The date is known to the rounding of its
\* difference from J2000, which is fine when the larger part is first.
DateErr(a,b) == IF FxLe(FxAbs(b),FxAbs(a)) THEN FxUlp(FxAdd(FxAbs(FxSub(a,DJ2000)),FxAbs(b)))
                ELSE FxUlp(FxMax(FxAbs(b),DJ2000))
\* phases grow beyond a century
Reach(t) == FxMax(F1,FxDivInt(FxAbs(t),100))
PosTol(a,b,t) == FxAdd(FxMul(FxDec("1E-11"),Reach(t)),FxMul(FxDec("0.02"),DateErr(a,b)))
VelTol(a,b,t) == FxAdd(FxMul(FxDec("1E-13"),Reach(t)),FxMul(FxDec("0.0005"),DateErr(a,b)))

\* The warning: 100 years or more from 2000
WarnOK(w,a,b) ==
  LET d == FxAbs(FxSub(FxAdd(a,b),DJ2000))
      e == FxAdd(DateErr(a,b),FxUlp(FxInt(36525)))
  IN \/ w = "range" /\ FxLe(FxSub(FxInt(36525),e),d)
     \/ w = "none"  /\ FxLe(d,FxAdd(FxInt(36525),e))
==============================================================================
