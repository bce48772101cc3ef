---------------------------------- MODULE Fx ----------------------------------
(***************************************************************************)
(* Exact-enough arithmetic for a specification of a numerical library.     *)
(*                                                                         *)
(* TLC's integers are 32-bit, and tofas computes with 64-bit floats.  An   *)
(* Fx number is a fixed-point number with 75 fractional bits and an        *)
(* unbounded integer part.  It is written as a tuple                       *)
(*                                                                         *)
(*        << s, l0, l1, ..., ln >>      s \in {-1,0,1}, 0 <= li < 2^15     *)
(*                                                                         *)
(* and denotes  s * (l0 + l1*B + ... + ln*B^n) * B^(-5),  B = 2^15.  The   *)
(* form is canonical: ln # 0, and zero is <<0>>.  The resolution is 2^-75  *)
(* (2.6e-23), so every double of magnitude at least 2^-22 is represented   *)
(* exactly, and smaller ones to 2^-75.                                     *)
(*                                                                         *)
(* Values that are not numbers are carried as tuples too, so that TLC      *)
(* never compares a tuple with a string: <<2>> is NaN, <<3>> is +infinity, *)
(* <<-3>> is -infinity.  Arithmetic on them, division by zero and the root *)
(* of a negative number give NaN; order comparisons with them are false.   *)
(*                                                                         *)
(* The operators below are defined in plain TLA+.  java/Fx.java overrides  *)
(* the arithmetic ones with the same algorithms for speed; module FxCheck  *)
(* (an instance of this text under another name, so not overridden)        *)
(* establishes that the two agree.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 32768
FRAC == 5                      \* limbs after the binary point

------------------------------------------------------------------------------
\* Magnitudes: little-endian limb sequences without leading (last) zeros.

RECURSIVE Trim(_)
Trim(m) == IF m # << >> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m,1,Len(m)-1)) ELSE m

Limb(m,i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxOf(a,b) == IF a >= b THEN a ELSE b

RECURSIVE MAddFrom(_,_,_,_)
MAddFrom(a,b,i,c) ==
  IF i > MaxOf(Len(a),Len(b))
    THEN IF c = 0 THEN << >> ELSE << c >>
    ELSE LET t == Limb(a,i) + Limb(b,i) + c
         IN << t % B >> \o MAddFrom(a,b,i+1,t \div B)
MAdd(a,b) == MAddFrom(a,b,1,0)

\* a - b, for a >= b
RECURSIVE MSubFrom(_,_,_,_)
MSubFrom(a,b,i,c) ==
  IF i > Len(a) THEN << >>
    ELSE LET t == Limb(a,i) - Limb(b,i) - c
         IN << IF t < 0 THEN t + B ELSE t >>
              \o MSubFrom(a,b,i+1,IF t < 0 THEN 1 ELSE 0)
MSub(a,b) == Trim(MSubFrom(a,b,1,0))

RECURSIVE MCmpFrom(_,_,_)
MCmpFrom(a,b,i) ==
  IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE MCmpFrom(a,b,i-1)
MCmp(a,b) == IF Len(a) < Len(b) THEN -1
             ELSE IF Len(a) > Len(b) THEN 1
             ELSE MCmpFrom(a,b,Len(a))

\* a * d, for 0 <= d < B
RECURSIVE MMulLimbFrom(_,_,_,_)
MMulLimbFrom(a,d,i,c) ==
  IF i > Len(a)
    THEN IF c = 0 THEN << >> ELSE << c >>
    ELSE LET t == a[i]*d + c
         IN << t % B >> \o MMulLimbFrom(a,d,i+1,t \div B)
MMulLimb(a,d) == Trim(MMulLimbFrom(a,d,1,0))

ShiftUp(m,k) == IF m = << >> THEN m ELSE [ i \in 1..k |-> 0 ] \o m
ShiftDown(m,k) == IF Len(m) <= k THEN << >> ELSE SubSeq(m,k+1,Len(m))

RECURSIVE MMulFrom(_,_,_)
MMulFrom(a,b,i) ==
  IF i > Len(b) THEN << >>
    ELSE MAdd(ShiftUp(MMulLimb(a,b[i]),i-1),MMulFrom(a,b,i+1))
MMul(a,b) == Trim(MMulFrom(a,b,1))

\* Floor of a/b, b # 0: long division, quotient digits by bisection.
RECURSIVE QDigit(_,_,_,_)
QDigit(r,b,lo,hi) ==           \* greatest q in lo..hi with q*b <= r
  IF lo = hi THEN lo
    ELSE LET q == (lo + hi + 1) \div 2
         IN IF MCmp(MMulLimb(b,q),r) <= 0 THEN QDigit(r,b,q,hi)
                                          ELSE QDigit(r,b,lo,q-1)
RECURSIVE MDivFrom(_,_,_,_)
MDivFrom(a,b,i,r) ==           \* r: remainder of the limbs above i
  IF i = 0 THEN << >>
    ELSE LET r1 == Trim(<< a[i] >> \o r)
             q  == QDigit(r1,b,0,B-1)
             r2 == MSub(r1,MMulLimb(b,q))
         IN MDivFrom(a,b,i-1,r2) \o << q >>
MDiv(a,b) == Trim(MDivFrom(a,b,Len(a),<< >>))

\* Floor of the square root, by bisection on limbs from the top
RECURSIVE MSqrtFrom(_,_,_)
RECURSIVE SDigit(_,_,_,_,_)
SDigit(a,acc,i,lo,hi) ==
  IF lo = hi THEN lo
    ELSE LET q == (lo + hi + 1) \div 2
             c == MAdd(acc,ShiftUp(<< q >>,i))
         IN IF MCmp(MMul(c,c),a) <= 0 THEN SDigit(a,acc,i,q,hi)
                                      ELSE SDigit(a,acc,i,lo,q-1)
MSqrtFrom(a,acc,i) ==
  IF i < 0 THEN acc
    ELSE LET q == SDigit(a,acc,i,0,B-1)
         IN MSqrtFrom(a,IF q = 0 THEN acc ELSE MAdd(acc,ShiftUp(<< q >>,i)),i-1)
MSqrt(a) == MSqrtFrom(a,<< >>,(Len(a) + 1) \div 2)

------------------------------------------------------------------------------
\* Signed fixed-point numbers

Mag(x) == Tail(x)
Mk(s,m) == IF m = << >> THEN << 0 >> ELSE << s >> \o m

RECURSIVE IntLimbs(_)
IntLimbs(n) == IF n = 0 THEN << >> ELSE << n % B >> \o IntLimbs(n \div B)

FxIsNum(x) == x[1] \in {-1,0,1}
FxNaN == << 2 >>

FxNeg(x) == IF x = FxNaN THEN x ELSE [ x EXCEPT ![1] = -x[1] ]
FxAbs(x) == IF x[1] < 0 THEN FxNeg(x) ELSE x

FxInt(n) == IF n >= 0 THEN Mk(1,ShiftUp(IntLimbs(n),FRAC))
            ELSE Mk(-1,ShiftUp(IntLimbs(-n),FRAC))

FxAdd(x,y) ==
  IF ~FxIsNum(x) \/ ~FxIsNum(y) THEN FxNaN
  ELSE IF x[1] = 0 THEN y
  ELSE IF y[1] = 0 THEN x
  ELSE IF x[1] = y[1] THEN Mk(x[1],MAdd(Mag(x),Mag(y)))
  ELSE LET c == MCmp(Mag(x),Mag(y))
       IN IF c = 0 THEN << 0 >>
          ELSE IF c > 0 THEN Mk(x[1],MSub(Mag(x),Mag(y)))
          ELSE Mk(y[1],MSub(Mag(y),Mag(x)))
FxSub(x,y) == FxAdd(x,FxNeg(y))

\* Product, quotient, square root: truncated towards zero at 2^-75
FxMul(x,y) == IF ~FxIsNum(x) \/ ~FxIsNum(y) THEN FxNaN
              ELSE IF x[1]*y[1] = 0 THEN << 0 >>
              ELSE Mk(x[1]*y[1],ShiftDown(MMul(Mag(x),Mag(y)),FRAC))
FxDiv(x,y) == IF ~FxIsNum(x) \/ ~FxIsNum(y) \/ y[1] = 0 THEN FxNaN
              ELSE IF x[1] = 0 THEN << 0 >>
              ELSE Mk(x[1]*y[1],MDiv(ShiftUp(Mag(x),FRAC),Mag(y)))
FxSqrt(x) == IF x[1] \notin {0,1} THEN FxNaN
             ELSE IF x[1] = 0 THEN << 0 >>
             ELSE Mk(1,MSqrt(ShiftUp(Mag(x),FRAC)))

\* Componentwise sum of a sequence of pairs
RECURSIVE SumPairsFrom(_,_,_)
SumPairsFrom(s,i,acc) ==
  IF i > Len(s) THEN acc
  ELSE LET p == s[i] IN SumPairsFrom(s,i+1,<< FxAdd(acc[1],p[1]), FxAdd(acc[2],p[2]) >>)
FxSumPairs(s) == SumPairsFrom(s,1,<< << 0 >>, << 0 >> >>)

\* Polynomial with coefficients c, constant term first, at x
RECURSIVE Horner(_,_,_,_)
Horner(c,x,i,acc) == IF i = 0 THEN acc ELSE Horner(c,x,i-1,FxAdd(c[i],FxMul(x,acc)))
FxPoly(c,x) == Horner(c,x,Len(c)-1,c[Len(c)])

FxMulInt(x,n) == FxMul(x,FxInt(n))
FxDivInt(x,n) == FxDiv(x,FxInt(n))

FxCmp(x,y) == FxSub(x,y)[1]          \* 2 when they are not comparable
FxLe(x,y) == FxCmp(x,y) <= 0
FxLt(x,y) == FxCmp(x,y) < 0

\* Largest integer not above x, as an Fx number and as a TLC integer
FxFloor(x) ==
  IF ~FxIsNum(x) THEN FxNaN ELSE
  LET t == Mk(x[1],ShiftUp(ShiftDown(Mag(x),FRAC),FRAC))
  IN IF x[1] >= 0 \/ t = x THEN t ELSE FxSub(t,FxInt(1))
RECURSIVE LimbsInt(_)
LimbsInt(m) == IF m = << >> THEN 0 ELSE m[1] + B*LimbsInt(Tail(m))
FxFloorInt(x) == LET t == FxFloor(x) IN t[1]*LimbsInt(ShiftDown(Mag(t),FRAC))

\* 2^k, for k >= -75
RECURSIVE FxPow2(_)
FxPow2(k) == IF k < -75 THEN << 0 >>
             ELSE IF k < -60 THEN << 1, 2^(k + 75) >>
             ELSE FxMulInt(FxPow2(k - 14),16384)

\* Distance between consecutive doubles at |x| (2^-75 when that is finer)
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
FxUlp(x) == IF ~FxIsNum(x) THEN FxNaN
            ELSE IF x[1] = 0 THEN << 1, 1 >>
            ELSE LET m == Mag(x)
                     e == 15*(Len(m) - 1 - FRAC) + Bits(m[Len(m)]) - 1
                 IN IF e - 52 <= -75 THEN << 1, 1 >> ELSE FxPow2(e - 52)

\* Decimal literals: optional sign, digits with an optional point, optional
\* E exponent.
Digit(c) == CHOOSE d \in 0..9 : SubSeq("0123456789",d+1,d+1) = c
At(s,i) == SubSeq(s,i,i)
RECURSIVE DecFrom(_,_,_,_,_)
\* Returns << mantissa limbs, decimals, exponent string position or 0 >>
DecFrom(s,i,m,dec,seen) ==
  IF i > Len(s) THEN << m,dec,0 >>
    ELSE IF At(s,i) = "." THEN DecFrom(s,i+1,m,dec,TRUE)
    ELSE IF At(s,i) = "E" THEN << m,dec,i >>
    ELSE DecFrom(s,i+1,
                 MAdd(MMulLimb(m,10),IF Digit(At(s,i)) = 0 THEN << >> ELSE << Digit(At(s,i)) >>),
                 IF seen THEN dec+1 ELSE dec,seen)
RECURSIVE UIntFrom(_,_,_)
UIntFrom(s,i,n) == IF i > Len(s) THEN n ELSE UIntFrom(s,i+1,10*n + Digit(At(s,i)))
SIntFrom(s,i) == IF At(s,i) = "-" THEN -UIntFrom(s,i+1,0)
                 ELSE IF At(s,i) = "+" THEN UIntFrom(s,i+1,0)
                 ELSE UIntFrom(s,i,0)
RECURSIVE M10(_)
M10(n) == IF n = 0 THEN << 1 >> ELSE MMulLimb(M10(n-1),10)
FxDec(s) ==
  LET neg == At(s,1) = "-"
      i0  == IF At(s,1) \in {"-","+"} THEN 2 ELSE 1
      d   == DecFrom(s,i0,<< >>,0,FALSE)
      e   == (IF d[3] = 0 THEN 0 ELSE SIntFrom(s,d[3]+1)) - d[2]
      m   == IF e >= 0 THEN ShiftUp(MMul(d[1],M10(e)),FRAC)
                       ELSE MDiv(ShiftUp(d[1],FRAC),M10(-e))
  IN Mk(IF neg THEN -1 ELSE 1,m)

==============================================================================
