-------------------------------- MODULE Angles --------------------------------
(***************************************************************************)
(* Angles modulo a turn, and the Earth rotation angle.                     *)
(***************************************************************************)
EXTENDS FxMath

\* The double nearest to 2 pi
FlTwoPi == FxDec("6.28318530717958623199592693708837032318115234375")

InTurn(v) == FxLe(F0,v) /\ FxLt(v,FlTwoPi)

\* v is a reduced to a turn, to the rounding of a
NormOK(a,v) ==
  /\ InTurn(v)
  /\ FxLe(FxDistMod(FxSub(v,a),FTwoPi),FxMul(FxDec("1E-15"),FxAdd(FxAbs(a),FxInt(7))))

\* Turns of the Earth rotation angle at UT1 date (a,b), modulo 1: the whole
\* days of d are whole turns of the unit coefficient.
EraTurns(a,b) ==
  LET d == FxSub(FxAdd(a,b),FxInt(2451545))
  IN FxModPos(FxAdd(FxAdd(FxDec("0.7790572732640"),FxMul(FxDec("0.00273781191135448"),d)),d),F1)
EraOf(a,b) == FxMul(FTwoPi,EraTurns(a,b))

\* An angle computed from a date whose parts are enormous inherits the rounding
\* of the slow part of the rotation.
EraTol(a,b,tol) == FxMax(tol,FxMul(FxDec("0.02"),FxUlp(FxMax(FxAbs(a),FxAbs(b)))))
EraOK(a,b,v,tol) == InTurn(v) /\ FxLe(FxDistMod(FxSub(v,EraOf(a,b)),FTwoPi),EraTol(a,b,tol))
==============================================================================
