------------------------------- MODULE Trace_C28 -------------------------------
(***************************************************************************)
(* A civil time taken through the scales: each two-part date on the way    *)
(* denotes the instant the civil clock says, to the rounding of its parts. *)
(***************************************************************************)
EXTENDS Gregorian, LeapSeconds, TimeScales, TimeOfDay, TraceLib

\* Roundings of the steps so far: the fraction of day, what it was added to,
\* and the parts that take offsets.
Split(e) == IF e.ua = MjdZero THEN e.ub ELSE IF e.ub = MjdZero THEN e.ua ELSE FxMin(e.ua,e.ub)
Slack(e,a,b) == FxAdd(FxPow2(-50),FxAdd(FxMulInt(FxUlp(Split(e)),4),FxMulInt(FxUlp(FxMin(a,b)),4)))
Says(e,a,b,t) == FxIsNum(a) /\ FxIsNum(b) /\ FxNear(FxAdd(a,b),t,Slack(e,a,b))
Later(t,s) == FxAdd(t,FxDivInt(s,86400))

EventOK(e) ==
  /\ e.op = "civil"
  /\ IsDate(e.y,e.m,e.d)
  /\ FxNear(e.f,FractionOf(e.hh,e.mm,e.s),FxPow2(-52))
  /\ \/ e.res = "BadFract" /\ FxLt(F1,e.f)
     \/ e.res = "none" /\ e.y < 1960 /\ FxLe(e.f,F1)
     \/ e.res = "ok" /\ e.y >= 1960 /\ FxLe(e.f,F1)
        /\ LET i == InForce(e.y,e.m)
               f == FractionOf(e.hh,e.mm,e.s)
               utc == Instant(e.y,e.m,e.d,f)
               tai == Later(utc,IF e.y > 2017 THEN FxInt(37) ELSE TaiUtc(i,e.y,e.m,e.d,f))
               tt == Later(tai,TtTai)
           IN /\ Says(e,e.ua,e.ub,utc)
              /\ Says(e,e.ta,e.tb,tai)
              /\ Says(e,e.xa,e.xb,tt)
              /\ Says(e,e.va,e.vb,Later(tt,FxNeg(e.dt)))
              /\ Says(e,e.wa,e.wb,tt)
              /\ Says(e,e.da,e.db,Later(tt,e.dtr))
              /\ FxNear(e.total,tt,FxAdd(Slack(e,e.xa,e.xb),FxUlp(tt)))
              /\ ReadsAs(e.ta,e.tb,e.ry,e.rm,e.rd,e.rf,SplitTol(e.ta,e.tb))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
