-------------------------------- MODULE FxMath --------------------------------
(***************************************************************************)
(* Elementary functions on Fx numbers, by series with known truncation     *)
(* error.  Each result is within about 2^-70 of the true value, for        *)
(* arguments of magnitude up to 2^60.                                      *)
(***************************************************************************)
EXTENDS Fx

F0 == FxInt(0)
F1 == FxInt(1)
F2 == FxInt(2)
FHalf == FxDec("0.5")

\* Pi to 40 decimals
FPi     == FxDec("3.1415926535897932384626433832795028841972")
FTwoPi  == FxDec("6.2831853071795864769252867665590057683943")
FHalfPi == FxDec("1.5707963267948966192313216916397514420986")
\* what FHalfPi lacks of pi/2, in units of 2^-75
FHalfPiRest == FxDec("0.39905882202019808073587964")

\* 1/n! with alternating signs, as used by the two Taylor series
SinCoef == << FxDec("1"), FxDec("-1.6666666666666666666666666666666666666667E-1"),
  FxDec("8.3333333333333333333333333333333333333333E-3"), FxDec("-1.9841269841269841269841269841269841269841E-4"),
  FxDec("2.7557319223985890652557319223985890652557E-6"), FxDec("-2.5052108385441718775052108385441718775052E-8"),
  FxDec("1.6059043836821614599392377170154947932726E-10"), FxDec("-7.6471637318198164759011319857880704441551E-13"),
  FxDec("2.8114572543455207631989455830103200162335E-15"), FxDec("-8.2206352466243297169559812368722807492207E-18"),
  FxDec("1.9572941063391261230847574373505430355287E-20"), FxDec("-3.8681701706306840377169119315228123231793E-23") >>
CosCoef == << FxDec("1"), FxDec("-0.5"), FxDec("4.1666666666666666666666666666666666666667E-2"),
  FxDec("-1.3888888888888888888888888888888888888889E-3"), FxDec("2.4801587301587301587301587301587301587302E-5"),
  FxDec("-2.7557319223985890652557319223985890652557E-7"), FxDec("2.0876756987868098979210090321201432312543E-9"),
  FxDec("-1.1470745597729724713851697978682105666233E-11"), FxDec("4.7794773323873852974382074911175440275969E-14"),
  FxDec("-1.5619206968586226462216364350057333423519E-16"), FxDec("4.1103176233121648584779906184361403746104E-19"),
  FxDec("-8.8967913924505732867488974425024683433125E-22") >>

Poly(c,x) == FxPoly(c,x)

\* << sin x, cos x >>
FxSinCos(x) ==
  IF ~FxIsNum(x) THEN << FxNaN, FxNaN >> ELSE
  LET q == FxFloor(FxAdd(FxDiv(x,FHalfPi),FHalf))         \* nearest quarter turn
      r == FxSub(FxSub(x,FxMul(FHalfPi,q)),               \* |r| <= pi/4
                 FxDiv(FxMul(FHalfPiRest,q),FxPow2(75)))
      r2 == FxMul(r,r)
      s == FxMul(r,Poly(SinCoef,r2))
      c == Poly(CosCoef,r2)
      k == FxFloorInt(FxSub(q,FxMulInt(FxFloor(FxDivInt(q,4)),4)))
  IN CASE k = 0 -> << s, c >>
       [] k = 1 -> << c, FxNeg(s) >>
       [] k = 2 -> << FxNeg(s), FxNeg(c) >>
       [] k = 3 -> << FxNeg(c), s >>

FxSin(x) == FxSinCos(x)[1]
FxCos(x) == FxSinCos(x)[2]

FxSq(x) == FxMul(x,x)

\* x reduced into [0,m)
FxModPos(x,m) == FxSub(x,FxMul(m,FxFloor(FxDiv(x,m))))
\* distance of x from the nearest multiple of m
FxDistMod(x,m) == LET r == FxModPos(x,m)
                      s == FxSub(m,r)
                  IN IF FxLe(FxAbs(r),FxAbs(s)) THEN FxAbs(r) ELSE FxAbs(s)

FxMax(x,y) == IF FxLe(x,y) THEN y ELSE x
FxMin(x,y) == IF FxLe(x,y) THEN x ELSE y
FxNear(x,y,tol) == FxLe(FxAbs(FxSub(x,y)),tol)
==============================================================================
