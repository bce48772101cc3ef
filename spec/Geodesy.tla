------------------------------- MODULE Geodesy --------------------------------
(***************************************************************************)
(* Geodetic positions on an ellipsoid of revolution with equatorial radius *)
(* a and flattening f, and their geocentric coordinates.  A position is    *)
(* the foot of a normal of the surface and a height along it; the forward  *)
(* conversion is specified by formula, the inverse by being its inverse.   *)
(***************************************************************************)
EXTENDS Vectors

FlPi == FxDec("3.141592653589793115997963468544185161590576171875")
FlHalfPi == FxDivInt(FlPi,2)

WgsA == FxInt(6378137)
WgsF == FxDiv(F1,FxDec("298.257223563"))

\* Outward normal at longitude el and latitude ph
NormalSC(se,sp) == << FxMul(sp[2],se[2]), FxMul(sp[2],se[1]), sp[1] >>
Normal(el,ph) == NormalSC(FxSinCos(el),FxSinCos(ph))

\* Radius of curvature in the prime vertical: a / sqrt(cos^2 + (1-f)^2 sin^2)
PrimeVertical(a,f,sp) ==
  LET w == FxSub(F1,f)
  IN FxDiv(a,Norm(<< sp[2], FxMul(w,sp[1]), F0 >>))

\* The point at height h above the foot of the normal, and the scale of the
\* distances involved
Forward(a,f,el,ph,h) ==
  LET se == FxSinCos(el)  sp == FxSinCos(ph)
      n == PrimeVertical(a,f,sp)
      r == FxMul(FxAdd(n,h),sp[2])
  IN << << FxMul(r,se[2]), FxMul(r,se[1]), FxMul(FxAdd(FxMul(n,FxSq(FxSub(F1,f))),h),sp[1]) >>,
        FxAdd(n,FxAbs(h)) >>

\* x^2/a^2 + y^2/a^2 + z^2/b^2 - 1
SurfaceDefect(a,f,p) ==
  LET u == << FxDiv(p[1],a), FxDiv(p[2],a), FxDiv(p[3],FxMul(a,FxSub(F1,f))) >>
  IN FxSub(Dot(u,u),F1)

------------------------------------------------------------------------------
\* A geodetic position answered for the point p
InverseOK(a,f,p,el,ph,h) ==
  /\ FxLe(FxNeg(FlPi),el) /\ FxLe(el,FlPi)
  /\ FxLe(FxNeg(FlHalfPi),ph) /\ FxLe(ph,FlHalfPi)
  /\ FxIsNum(h)
  /\ p[3][1] >= 0 => ph[1] >= 0
  /\ p[3][1] <= 0 => ph[1] <= 0
  /\ (p[1] = F0 /\ p[2] = F0) =>
       LET b == FxMul(a,FxSub(F1,f)) IN
       /\ el = F0
       /\ FxAbs(ph) = FlHalfPi
       /\ FxNear(h,FxSub(FxAbs(p[3]),b),FxMul(FxDec("1E-15"),FxAdd(b,FxAbs(p[3]))))
  /\ LET tol == FxAdd(FxDec("0.001"),FxMul(FxDec("1E-10"),Norm(p)))
     IN VecNear(Forward(a,f,el,ph,h)[1],p,tol)

------------------------------------------------------------------------------
\* What creating a converter must answer.  The radii of the poles and of
\* the equator have the ratio 1-f; the square of the former vanishes in
\* double precision when 1-f is too small, somewhere between 2^-29 and
\* 2^-25 (rounding may rescue it for values of 2-f that are not doubles).
ConverterOK(a,f,res) ==
  IF ~(FxLe(F0,f) /\ FxLt(f,F1)) THEN res = "InvalidFlattening"
  ELSE IF a[1] \in {2,-3,-1,0} THEN res = "InvalidRadius"
  ELSE LET w == FxSub(F1,f)  v == FxMul(w,FxPow2(52)) IN
       /\ FxLe(FxPow2(-25),w) => res = "ok"
       /\ (FxLe(FxPow2(-45),w) /\ FxLe(w,FxPow2(-29)) /\ FxFloor(v) = v) => res = "BadEccentricity"
       /\ res \in {"ok","BadEccentricity"}

------------------------------------------------------------------------------
\* Degrees and radians

FDeg == FxDivInt(FPi,180)
DegTol(x) == FxAdd(FxDec("1E-13"),FxMul(FxDec("1E-15"),FxAbs(x)))

To360OK(el,ph,h,lon,lat,oh) ==
  LET lo == FxDiv(FxMulInt(el,180),FPi)
      la == FxDiv(FxMulInt(ph,180),FPi)
  IN /\ FxLe(FxInt(-180),lon) /\ FxLt(lon,FxInt(180))
     /\ FxLe(FxDistMod(FxSub(lon,lo),FxInt(360)),DegTol(lo))
     /\ FxLe(FxInt(-90),lat) /\ FxLe(lat,FxInt(90))
     /\ IF FxLe(FxAbs(ph),FlHalfPi) THEN FxNear(lat,la,DegTol(la))
        ELSE FxLe(FxDistMod(FxSub(lat,la),FxInt(180)),DegTol(la))
     /\ oh = h
ToRadOK(lon,lat,h,el,ph,oh) ==
  LET Near(v,d) == LET w == FxMul(d,FDeg) IN FxNear(v,w,FxAdd(FxMul(FxDec("1E-15"),FxAbs(w)),FxPow2(-70)))
  IN Near(el,lon) /\ Near(ph,lat) /\ oh = h
==============================================================================
