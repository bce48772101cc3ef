--------------------------------- MODULE Spin ---------------------------------
(***************************************************************************)
(* The Earth turning under the intermediate origin: each day of UT1 it     *)
(* turns once and 0.00273781191135448 of a turn more.  Days count from     *)
(* 2000-01-01 12h; at that moment the angle is 0.7790572732640 of a turn.  *)
(***************************************************************************)
EXTENDS Angles

CONSTANT Days                        \* before and after
VARIABLES n, e                       \* the day, the angle as part of a turn
spin == << n, e >>

Start == FxDec("0.7790572732640")
Gain == FxDec("0.00273781191135448")
Part(x) == IF FxLt(x,F0) THEN FxAdd(x,F1) ELSE IF FxLe(F1,x) THEN FxSub(x,F1) ELSE x

SpinInit == n = 0 /\ e = Start
Later   == n >= 0 /\ n < Days /\ n' = n + 1 /\ e' = Part(FxAdd(e,Gain))
Earlier == n <= 0 /\ -n < Days /\ n' = n - 1 /\ e' = Part(FxSub(e,Gain))
SpinNext == Later \/ Earlier
SpinSpec == SpinInit /\ [][SpinNext]_spin

WithinTurn == FxLe(F0,e) /\ FxLt(e,F1)
\* what the published formula says of that day, whichever way it is split
Formula == EraOK(FxInt(2451545),FxInt(n),FxMul(e,FTwoPi),FxDec("1E-15"))
==============================================================================
