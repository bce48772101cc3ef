--------------------------------- MODULE Text ---------------------------------
(***************************************************************************)
(* Printed numbers, dates, times and positions.                            *)
(***************************************************************************)
EXTENDS FxMath, TLC

Ch(s,i) == SubSeq(s,i,i)
Digits == { "0","1","2","3","4","5","6","7","8","9" }
Signs == { "+","-" }

RECURSIVE DigitsEnd(_,_)          \* position after the digits starting at i
DigitsEnd(s,i) == IF i <= Len(s) /\ Ch(s,i) \in Digits THEN DigitsEnd(s,i+1) ELSE i
RECURSIVE SpacesEnd(_,_)
SpacesEnd(s,i) == IF i <= Len(s) /\ Ch(s,i) = " " THEN SpacesEnd(s,i+1) ELSE i

SignEnd(s,i) == IF i <= Len(s) /\ Ch(s,i) \in Signs THEN i+1 ELSE i
\* Position after the decimal number (sign, digits, point, digits) at i; i
\* when there is none.
NumberEnd(s,i) ==
  LET i1 == SignEnd(s,i)
      i2 == DigitsEnd(s,i1)
  IN IF i2 = i1 THEN i
     ELSE IF i2 < Len(s) /\ Ch(s,i2) = "." /\ Ch(s,i2+1) \in Digits THEN DigitsEnd(s,i2+1)
     ELSE i2
IsNumber(s) == s # "" /\ NumberEnd(s,1) = Len(s) + 1

\* The numbers in s from position i on, in order
RECURSIVE NumbersFrom(_,_)
NumbersFrom(s,i) ==
  IF i > Len(s) THEN << >>
  ELSE LET j == NumberEnd(s,i)
       IN IF j = i THEN NumbersFrom(s,i+1)
          ELSE << SubSeq(s,i,j-1) >> \o NumbersFrom(s,j)

RECURSIVE PointAt(_,_)            \* position of the point, 0 without one
PointAt(s,i) == IF i > Len(s) THEN 0 ELSE IF Ch(s,i) = "." THEN i ELSE PointAt(s,i+1)
Decimals(s) == LET p == PointAt(s,1) IN IF p = 0 THEN 0 ELSE Len(s) - p

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN F1 ELSE FxMulInt(Pow10(n-1),10)
HalfUnit(dec) == FxDiv(FHalf,Pow10(dec))

\* t is v rounded to dec decimals, and v itself known to within slack
Shows(t,v,dec,slack) ==
  /\ IsNumber(t) /\ FxIsNum(v)
  /\ Decimals(t) = dec
  /\ FxNear(FxDec(t),v,FxAdd(FxAdd(HalfUnit(dec),slack),FxPow2(-72)))

Signed(t,v) == Ch(t,1) \in Signs /\ (v[1] = -1 => Ch(t,1) = "-") /\ (v[1] = 1 => Ch(t,1) = "+")
Unsigned(t) == Ch(t,1) \in Digits
\* Padded with zeros to a width, and not further
ZeroPadded(t,width) ==
  LET i == SignEnd(t,1)
  IN /\ Len(t) >= width
     /\ (Len(t) > width /\ Ch(t,i) = "0") => (i < Len(t) /\ Ch(t,i+1) = ".")

RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n-1)
IntText(n,width) ==
  IF n >= 0 THEN LET t == ToString(n) IN Zeros(width - Len(t)) \o t
            ELSE LET t == ToString(-n) IN "-" \o Zeros(width - 1 - Len(t)) \o t

DateText(y,m,d) == IntText(y,4) \o "-" \o IntText(m,2) \o "-" \o IntText(d,2)

\* HH:MM:SS.ffffff
IsTimeText(t,hh,mm,s) ==
  /\ Len(t) = 15
  /\ SubSeq(t,1,6) = IntText(hh,2) \o ":" \o IntText(mm,2) \o ":"
  /\ LET u == SubSeq(t,7,15) IN Unsigned(u) /\ ZeroPadded(u,9) /\ Shows(u,s,6,F0)

\* latitude,longitude,height
RECURSIVE CommaAt(_,_)
CommaAt(s,i) == IF i > Len(s) THEN 0 ELSE IF Ch(s,i) = "," THEN i ELSE CommaAt(s,i+1)
IsPositionText(t,lat,lon,height) ==
  LET c1 == CommaAt(t,1)
      c2 == IF c1 = 0 THEN 0 ELSE CommaAt(t,c1+1)
  IN /\ c1 > 1 /\ c2 > c1 + 1 /\ c2 < Len(t)
     /\ LET p == SubSeq(t,1,c1-1)  q == SubSeq(t,c1+1,c2-1)  r == SubSeq(t,c2+1,Len(t))
        IN /\ Signed(p,lat) /\ ZeroPadded(p,10) /\ Shows(p,lat,6,F0)
           /\ Signed(q,lon) /\ ZeroPadded(q,11) /\ Shows(q,lon,6,F0)
           /\ Signed(r,height) /\ ZeroPadded(r,9) /\ Shows(r,height,2,F0)

StartsWith(s,p) == Len(s) >= Len(p) /\ SubSeq(s,1,Len(p)) = p
Rest(s,p) == SubSeq(s,Len(p)+1,Len(s))
==============================================================================
