------------------------------- MODULE Published -------------------------------
(***************************************************************************)
(* Constants, elementary functions, defaults and messages the library      *)
(* publishes.                                                              *)
(***************************************************************************)
EXTENDS Geodesy

\* The double nearest to x, or next to it (a quotient rounds twice)
IsDouble(v,x) == FxNear(v,x,FxAdd(FxMul(FxDec("2.3E-16"),FxAbs(x)),FxPow2(-74)))

ConstantNames == { "AUM","MJD_ZERO","YEAR_MIN","DJ_MIN","DJ_MAX","D2S","DJY","DJ00","DJC","DTAT",
                   "PI","DEGREE","EPSILON","TWO_PI","AS2R","MAS2R","TURNAS","WGS84.a","WGS84.f" }
Constant(name) ==
  CASE name = "AUM" -> FxDec("149597870700")              \* IAU 2012, metres
    [] name = "MJD_ZERO" -> FxDec("2400000.5")
    [] name = "YEAR_MIN" -> FxInt(-4799)
    [] name = "DJ_MIN" -> FxInt(-32000)
    [] name = "DJ_MAX" -> FxInt(1000000000)
    [] name = "D2S" -> FxInt(86400)
    [] name = "DJY" -> FxDec("365.25")
    [] name = "DJ00" -> FxInt(2451545)
    [] name = "DJC" -> FxInt(36525)
    [] name = "DTAT" -> FxDivInt(FxDec("32.184"),86400)
    [] name = "PI" -> FPi
    [] name = "DEGREE" -> FDeg
    [] name = "EPSILON" -> FxPow2(-52)
    [] name = "TWO_PI" -> FTwoPi
    [] name = "AS2R" -> FxDivInt(FDeg,3600)
    [] name = "MAS2R" -> FxDivInt(FxDivInt(FDeg,3600),1000)
    [] name = "TURNAS" -> FxInt(360*3600)
    [] name = "WGS84.a" -> WgsA
    [] name = "WGS84.f" -> WgsF
ConstantOK(name,v) == name \in ConstantNames /\ IsDouble(v,Constant(name))

\* v is the named function of x (atan2: the direction of the point (x,y))
Ulps(v,x) == FxNear(v,x,FxAdd(FxMul(FxDec("4E-16"),FxAbs(x)),FxPow2(-70)))
RoundedAway(x) == IF x[1] = -1 THEN FxNeg(FxFloor(FxAdd(FxNeg(x),FHalf))) ELSE FxFloor(FxAdd(x,FHalf))
\* th is the direction of (x,y): its sine and cosine are in their proportion
\* and on their side
Direction(th,x,y) ==
  LET sc == FxSinCos(th)  scale == FxAdd(FxAbs(x),FxAbs(y))
  IN /\ FxNear(FxMul(x,sc[1]),FxMul(y,sc[2]),
               FxMul(FxAdd(FxMul(FxDec("6E-16"),FxAbs(th)),FxPow2(-70)),FxAdd(scale,F1)))
     /\ FxLe(FxMul(FxDec("-1E-15"),scale),FxAdd(FxMul(x,sc[2]),FxMul(y,sc[1])))
\* The half angles tell arcs near 0 and pi apart, where the sine and cosine
\* of the arcs do not.
Half(x) == FxDivInt(x,2)
ArcCosine(v,x) ==
  LET sc == FxSinCos(Half(v))
  IN /\ Ulps(sc[1],FxSqrt(Half(FxSub(F1,x))))
     /\ FxNear(sc[2],FxSqrt(Half(FxAdd(F1,x))),FxDec("7E-16"))
ArcSine(v,x) ==
  /\ Ulps(FxSin(v),x)
  /\ FxNear(FxSin(Half(FxSub(FHalfPi,FxAbs(v)))),FxSqrt(Half(FxSub(F1,FxAbs(x)))),FxDec("4E-16"))
\* what is left of an angle of many turns when pi is known to 2^-75
TurnsTol(x,v) == FxAdd(FxMul(FxDec("3E-16"),FxAbs(v)),FxMul(FxPow2(-72),FxAdd(F1,FxAbs(x))))
\* outside the domain of the function there is no number
OutOfDomain(name,x) == \/ x = FxNaN
                       \/ name = "sqrt" /\ (IF FxIsNum(x) THEN FxLt(x,F0) ELSE x[1] < 0)
                       \/ name \in {"acos","asin"} /\ (~FxIsNum(x) \/ FxLt(F1,FxAbs(x)))
ElementaryOK(name,x,v,e) ==
  CASE OutOfDomain(name,x) -> v = FxNaN
    [] ~FxIsNum(x) -> (CASE name = "atan" -> FxNear(v,IF x[1] < 0 THEN FxNeg(FHalfPi) ELSE FHalfPi,FxDec("4E-16"))
                        [] name \in {"sqrt","abs"} -> v[1] = 3
                        [] name \in {"floor","round"} -> v = x)
    [] name = "sqrt" -> Ulps(v,FxSqrt(x))
    [] name = "sq" -> Ulps(v,FxSq(x))
    [] name = "sin" -> FxNear(v,FxSin(x),TurnsTol(x,v)) /\ FxLe(FxAbs(v),F1)
    [] name = "cos" -> FxNear(v,FxCos(x),TurnsTol(x,v)) /\ FxLe(FxAbs(v),F1)
    [] name = "tan" -> LET sc == FxSinCos(x) IN
                       \/ FxLt(FxAbs(sc[2]),FxDec("1E-7")) /\ FxIsNum(v)
                       \* pi itself is known here to 2^-75
                       \/ FxNear(v,FxDiv(sc[1],sc[2]),FxAdd(FxMul(FxDec("4E-16"),FxAbs(v)),
                                   FxMul(FxMul(FxPow2(-72),FxAdd(F1,FxAbs(x))),FxAdd(F1,FxSq(v)))))
    [] name = "atan" -> FxLe(FxAbs(v),FHalfPi) /\ Direction(v,F1,x)
    [] name = "atan2" -> FxLe(FxAbs(v),FPi) /\ Direction(v,x,e.y)
    [] name = "acos" -> FxLe(F0,v) /\ FxLe(v,FPi) /\ ArcCosine(v,x)
    [] name = "asin" -> FxLe(FxAbs(v),FHalfPi) /\ ArcSine(v,x)
    [] name = "abs" -> v = FxAbs(x)
    [] name = "floor" -> v = FxFloor(x)
    [] name = "round" -> v = RoundedAway(x)

\* The parameters of the Sun-angle calculator unless told otherwise
Defaults == [ y |-> 2007, m |-> 4, d |-> 5, hh |-> 0, mm |-> 0, s |-> F0, lat |-> F0, lon |-> FxInt(-120), height |-> F0 ]

Message(name) ==
  CASE name = "BadYear" -> "bad year"
    [] name = "BadMonth" -> "bad month"
    [] name = "BadDay" -> "bad day"
    [] name = "BadJulian" -> "bad Julian day"
    [] name \in {"BadFract","DeltaAt.BadFract"} -> "bad fraction of day"
    [] name = "InvalidRadius" -> "invalid radius"
    [] name = "InvalidFlattening" -> "invalid flattening value"
    [] name = "BadEccentricity" -> "could not compute EC2"
    [] name = "BadCoordinates" -> "bad coordinates"
==============================================================================
