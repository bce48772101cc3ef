------------------------------ MODULE TimeScales ------------------------------
(***************************************************************************)
(* Two-part dates move between time scales by an offset in seconds.        *)
(*                                                                         *)
(*   UTC --TAI-UTC--> TAI --32.184 s--> TT --TDB-TT--> TDB                 *)
(*   UT1 --Delta T--> TT --(-Delta T)--> UT1                               *)
(***************************************************************************)
EXTENDS FxMath

TtTai == FxDec("32.184")

\* Offset in seconds added by each conversion, given its parameter
OffsetOf(conv,off) ==
  CASE conv = "utc_tai" -> off
    [] conv = "tai_tt"  -> TtTai
    [] conv = "tt_tdb"  -> off
    [] conv = "ut1_tt"  -> off
    [] conv = "tt_ut1"  -> FxNeg(off)

\* v is x + s seconds, to the rounding of the sum and of the offset
MovedBy(v,x,s) ==
  LET o == FxDivInt(s,86400)
      e == FxAdd(x,o)
  IN FxNear(v,e,FxAdd(FxMax(FxUlp(v),FxUlp(e)),FxAdd(FxUlp(o),FxPow2(-70))))

\* (ra,rb) is (a,b) moved by s seconds: the part of smaller value takes it
Shifted(a,b,s,ra,rb) == IF FxLt(b,a) THEN ra = a /\ MovedBy(rb,b,s)
                                     ELSE rb = b /\ MovedBy(ra,a,s)
==============================================================================
