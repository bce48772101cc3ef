--------------------------------- MODULE Sky ----------------------------------
(***************************************************************************)
(* The specified Earth in motion: days pass, from 1900 to 2100, and what   *)
(* is known of the motion of the Earth by other means holds on each of     *)
(* them.  Nothing here refers to the tables the specification was made of: *)
(* velocities are compared with differences of positions, and motion with  *)
(* the laws of mechanics.                                                  *)
(***************************************************************************)
EXTENDS SunAngle

CONSTANTS First, Last, Step, Runs

VARIABLE day                 \* Modified Julian Date
Span == (Last - First) \div Runs
Init == day \in { First + Span*i : i \in 0..(Runs - 1) }
Next == ((day - First) % Span) + Step < Span /\ day' = day + Step
Spec == Init /\ [][Next]_day

D(s) == FxDec(s)
Mjd == FxDec("2400000.5")
\* the day, moved by a number of seconds, in centuries and in years
Cy(s) == Centuries(Mjd,FxAdd(FxInt(day),FxDivInt(s,86400)))
Yr(s) == YearsOf(Mjd,FxAdd(FxInt(day),FxDivInt(s,86400)))

Gauss == D("0.01720209895")
Near3(u,v,tol) == VecNear(u,v,D(tol))

\* Kepler: the Earth is where an orbit of unit semi-axis and eccentricity
\* 0.0167 takes it, and has the speed due to its distance; the Moon makes it
\* swing by 3e-5 AU and 4e-4 of its speed.
KeplerOK ==
  LET h == Heliocentric(Yr(F0))
      r == Norm(h[1])
      k2 == FxSq(Gauss)
      v2 == Dot(h[2],h[2])
      \* angular momentum per unit mass: k sqrt(1 - e^2)
      l == << FxSub(FxMul(h[1][2],h[2][3]),FxMul(h[1][3],h[2][2])), FxSub(FxMul(h[1][3],h[2][1]),FxMul(h[1][1],h[2][3])),
              FxSub(FxMul(h[1][1],h[2][2]),FxMul(h[1][2],h[2][1])) >>
      n == Unit(l)
  IN /\ FxLe(D("0.9831"),r) /\ FxLe(r,D("1.0170"))
     /\ FxNear(v2,FxMul(k2,FxSub(FxDiv(F2,r),F1)),FxMul(k2,D("0.0013")))
     /\ FxNear(Norm(l),FxMul(Gauss,FxSqrt(FxSub(F1,D("0.00027913")))),FxMul(Gauss,D("0.0007")))
     \* the plane of the motion is the ecliptic of 2000, which turns 47" a century
     /\ Near3(n,<< F0, FxNeg(FxSin(Eps0)), FxCos(Eps0) >>,"0.0003")

\* The Sun keeps near the barycentre, moved by the giant planets.
BarycentreOK ==
  LET e == Earth(Yr(F0))
      s == Sub(e[2][1],e[1][1])     \* Sun from barycentre
      w == Sub(e[2][2],e[1][2])
  IN FxLe(Norm(s),D("0.0105")) /\ FxLe(Norm(w),D("0.00001"))

\* Velocities are the rates of change of the positions: differences over an
\* hour and a half, third order
VelocityOK ==
  LET step == FxInt(5400)
      p(i) == Earth(Yr(FxMulInt(step,i)))
      a == p(-2) b == p(-1) c == p(1) d == p(2)
      \* (a - 8b + 8c - d)/12h
      Rate(k) == Scale(FxDiv(FxInt(86400),FxMulInt(step,12)),Sub(Add(a[k][1],Scale(FxInt(8),c[k][1])),Add(d[k][1],Scale(FxInt(8),b[k][1]))))
      e == p(0)
  IN Near3(Rate(1),e[1][2],"1E-12") /\ Near3(Rate(2),e[2][2],"1E-12")

\* The pole describes the precession, 20.04" of x a year, and the nutation of
\* 9.2" around the mean pole, mainly with the node of the Moon.
PoleOK ==
  LET t == Cy(F0)
      m == PrecessionNutation(t)
      n == NutationOf(t)
      node == TurnOf(Delaunay[5],t)
      Sec(s) == Radians(D(s))
  IN /\ FxNear(m[3][1],FxMul(Radians(D("2004.19")),t),Sec("12"))
     /\ FxNear(m[3][2],FxNeg(FxMul(Radians(D("22.4")),FxSq(t))),Sec("12"))
     /\ FxNear(n[1],FxMul(Sec("-17.206"),FxSin(node)),Sec("2.2"))
     /\ FxNear(n[2],FxMul(Sec("9.205"),FxCos(node)),Sec("0.9"))
     /\ IsRotation(m,D("1E-18")) /\ IsRotation(Intermediate(t),D("1E-18"))

\* The locator: the intermediate frame does not turn about its pole.  Its rate
\* of rotation along the pole vanishes: between close dates the x axis of one
\* is seen from the other turned by less than a microarcsecond or so.
LocatorOK ==
  LET c(i) == Intermediate(Cy(FxMulInt(FxInt(43200),i)))
      m == Compose(c(1),Transpose(c(-1)))
  IN FxLe(FxAbs(FxSub(m[1][2],m[2][1])),Radians(D("0.000001")))

\* A mean day of the Earth rotation angle is a turn and 1/365.2422 of one less
\* what the equinox moves, whatever the split.
RotationOK ==
  LET u == FxInt(day)
  IN /\ FxLe(FxDistMod(FxSub(FxSub(EraOf(Mjd,FxAdd(u,F1)),EraOf(Mjd,u)),FxMul(FTwoPi,D("0.00273781191135448"))),FTwoPi),D("1E-18"))
     /\ FxLe(FxDistMod(FxSub(EraOf(Mjd,FxAdd(u,FHalf)),EraOf(FxAdd(Mjd,u),FHalf)),FTwoPi),D("1E-18"))

\* Summer follows: the Sun is north of the equator from about March 20 to
\* September 23, and 90 degrees from there in June and December.
SeasonOK ==
  LET h == Heliocentric(Yr(F0))[1]
      z == FxNeg(Dot(PrecessionNutation(Cy(F0))[3],h))
      \* days since the equinox of March 20.3, 2000, in a year of 365.2422
      s == FxMul(FTwoPi,FxDiv(FxSub(FxInt(day),D("51623.3")),D("365.2422")))
  IN FxNear(z,FxMul(FxSin(Eps0),FxSin(s)),D("0.04"))
==============================================================================
