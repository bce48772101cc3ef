------------------------------- MODULE FxCheck --------------------------------
(***************************************************************************)
(* The Java override of module Fx computes what the TLA+ text says.  The   *)
(* text is instantiated under the name FxPure (a copy made by the build,   *)
(* whose operators are not overridden) and compared with the overridden    *)
(* operators: on all pairs of a set of boundary values and on values       *)
(* reached from them by a random walk of operations.  Algebraic laws that  *)
(* do not depend on either text are checked as well.                       *)
(***************************************************************************)
EXTENDS Fx, TLC
P == INSTANCE FxPure

Bases == { FxInt(0), FxInt(1), FxInt(-1), FxInt(7), FxInt(32767), FxInt(32768), FxInt(-32769),
           FxInt(2147483647), FxPow2(-75), FxPow2(-74), FxPow2(-60), FxPow2(-1), FxPow2(80),
           FxNeg(FxPow2(-15)), FxDec("0.1"), FxDec("-3.14159265358979323846"),
           FxDec("1E9"), FxDec("-123456789.987654321E-3"), FxNaN, << 3 >>, << -3 >> }

Same(x,y) ==
  /\ FxAdd(x,y) = P!FxAdd(x,y)
  /\ FxSub(x,y) = P!FxSub(x,y)
  /\ FxMul(x,y) = P!FxMul(x,y)
  /\ FxDiv(x,y) = P!FxDiv(x,y)
  /\ FxCmp(x,y) = P!FxCmp(x,y)
  /\ FxLe(x,y) = P!FxLe(x,y)
  /\ FxLt(x,y) = P!FxLt(x,y)
  /\ FxPoly(<< x, y, FxInt(3), x >>,y) = P!FxPoly(<< x, y, FxInt(3), x >>,y) /\ FxPoly(<< x >>,y) = x
  /\ LET s == << << x, y >>, << y, x >>, << FxNeg(y), x >> >> IN FxSumPairs(s) = P!FxSumPairs(s)
Same1(x) ==
  /\ FxNeg(x) = P!FxNeg(x)
  /\ FxAbs(x) = P!FxAbs(x)
  /\ FxSqrt(x) = P!FxSqrt(x)
  /\ FxFloor(x) = P!FxFloor(x)
  /\ FxUlp(x) = P!FxUlp(x)
  /\ FxMulInt(x,-12345) = P!FxMulInt(x,-12345)
  /\ FxDivInt(x,146097) = P!FxDivInt(x,146097)
  /\ FxDivInt(x,0) = P!FxDivInt(x,0)
  /\ LET f == FxFloor(x) IN
       (FxIsNum(f) /\ FxLt(FxAbs(f),FxPow2(31))) => FxFloorInt(x) = P!FxFloorInt(x)
Laws(x,y) ==
  (FxIsNum(x) /\ FxIsNum(y)) =>
    /\ FxAdd(x,y) = FxAdd(y,x)
    /\ FxSub(FxAdd(x,y),y) = x
    /\ FxMul(x,y) = FxMul(y,x)
    /\ FxLe(x,y) <=> FxLe(FxNeg(y),FxNeg(x))
    /\ (y # FxInt(0)) =>
         LET q == FxMul(FxDiv(x,y),y)
         IN FxLe(FxAbs(FxSub(x,q)),FxAdd(FxMul(FxAbs(y),FxPow2(-74)),FxPow2(-74)))
    /\ x[1] = 1 => LET r == FxSqrt(x)
                       n == FxAdd(r,FxPow2(-75))
                   IN FxLe(FxMul(r,r),x) /\ FxLe(x,FxAdd(FxMul(n,n),FxPow2(-75)))
Consts ==
  /\ \A n \in {0,1,-1,32767,32768,-32768,1073741824,-1073741825,2147483647} : FxInt(n) = P!FxInt(n)
  /\ \A k \in -77..100 : FxPow2(k) = P!FxPow2(k)
  /\ \A s \in {"0","1","-1","0.5","1296000.0","-0.00000000000000000000000000001","3.1415926535897932384626433832795028841972",
               "6.10E-8","1E9","-1.5E+2","0.00273781191135448","12345678901234567890.12345678901234567890E-7"} :
       FxDec(s) = P!FxDec(s)

VARIABLES x, y, n
CONSTANT Depth
\* A walk: every ordered pair of bases, then Depth operations on it.
Init == x \in Bases /\ y \in Bases /\ n = 0
Clip(v) == IF FxIsNum(v) /\ Len(v) > 14 THEN SubSeq(v,1,13) \o << 1 >> ELSE v
Next == /\ n < Depth
        /\ n' = n + 1
        /\ \/ x' = Clip(FxAdd(x,y)) /\ y' = x
           \/ x' = Clip(FxMul(x,FxSub(y,FxDec("0.3333333333333")))) /\ y' = x
           \/ x' = Clip(FxDiv(x,FxAdd(y,FxDec("0.7777777777")))) /\ y' = x
           \/ x' = Clip(FxSqrt(FxAbs(x))) /\ y' = FxNeg(y)
Spec == Init /\ [][Next]_<< x, y, n >>
Agrees == Same(x,y) /\ Same1(x) /\ Laws(x,y) /\ ((n = 0 /\ x = y /\ x = FxInt(0)) => Consts)
==============================================================================
