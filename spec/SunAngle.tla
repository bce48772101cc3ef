------------------------------- MODULE SunAngle -------------------------------
(***************************************************************************)
(* The Sun-angle calculator: an object created for a date, a time of day   *)
(* and an observer, then asked for offsets in seconds.  Its state is fixed *)
(* at creation; an answer is determined by it and the offset.              *)
(*                                                                         *)
(*   date, time, offset --> UTC --TAI-UTC of the date--> TAI --> TT = TDB  *)
(*                           |                                    |        *)
(*                           +--> UT1 --> Earth rotation      ephemeris    *)
(*                                             \                 /         *)
(*   observer --> zenith ----------------------- zenith angle of the Sun   *)
(***************************************************************************)
EXTENDS Geodesy, Iau2000, Ephemeris, LeapSeconds, TimeOfDay, TimeScales

Dut1 == FxDec("-0.072073685")
PoleX == Radians(FxDec("0.0349282"))
PoleY == Radians(FxDec("0.4833163"))
AuMetres == FxDec("149597870700")

\* What is known of a calculator once created
Calculator(c) ==
  LET i == InForce(c.y,c.m)
      fr == FractionOf(c.hh,c.mm,c.s)
      el == FxMul(c.lon,FDeg)
      ph == FxMul(c.lat,FDeg)
  IN [ day |-> DayNumberFx(c.y,c.m,c.d), fr |-> fr,
       dat |-> IF i = 0 THEN F0 ELSE TaiUtc(i,c.y,c.m,c.d,fr),
       observer |-> Forward(WgsA,WgsF,el,ph,c.height),
       zenith |-> Normal(el,ph) ]

------------------------------------------------------------------------------
\* The chain of times.  e is the recorded answer to the offset e.ask.
DayFraction(calc,e) == FxAdd(calc.fr,FxDivInt(e.ask,86400))
\* rounding of the offset in days, of the fraction and of their sum with the day
InstantTol(calc,e) ==
  FxAdd(FxUlp(FxAdd(FxAbs(calc.day),FxAdd(F1,FxDivInt(FxAbs(e.ask),86400)))),
        FxAdd(FxPow2(-51),FxUlp(FxDivInt(e.ask,86400))))
Near1(u,v) == FxNear(u,v,FxAdd(FxMax(FxUlp(u),FxUlp(v)),FxPow2(-70)))

TimesOK(calc,e) ==
  /\ e.res = "ok"
  /\ e.delta = e.ask
  \* the requested instant
  /\ e.jd0 = MjdZero
  /\ FxNear(e.jd1,FxAdd(calc.day,DayFraction(calc,e)),InstantTol(calc,e))
  /\ e.utc = << e.jd0, e.jd1 >>
  \* the offsets along the chain, each to rounding
  /\ FxNear(e.dat,calc.dat,FxDec("1E-12"))
  /\ Shifted(e.utc[1],e.utc[2],e.dat,e.tai[1],e.tai[2])
  /\ Shifted(e.tai[1],e.tai[2],TtTai,e.tt[1],e.tt[2])
  /\ e.ut1[1] = e.jd0
  /\ FxNear(e.ut1[2],FxAdd(e.jd1,FxDivInt(Dut1,86400)),FxAdd(FxUlp(e.jd1),FxPow2(-51)))
  /\ EraOK(e.ut1[1],e.ut1[2],e.era,FxDec("1E-10"))
  \* where the observer is
  /\ VecNear(e.p,calc.observer[1],FxMul(FxDec("3E-14"),calc.observer[2]))

------------------------------------------------------------------------------
\* The Sun.  TDB is taken equal to TT; the times are the reported ones.
EarthAt(e) == Heliocentric(YearsOf(e.tt[1],e.tt[2]))
SunAt(earth,e) ==
  Apply(Transpose(Terrestrial(Centuries(e.tt[1],e.tt[2]),e.ut1[1],e.ut1[2],PoleX,PoleY)),
        Scale(FxNeg(AuMetres),earth))

AngleOK(zenith,sun,sza) ==
  /\ FxLe(F0,sza) /\ FxLe(sza,FPi)
  /\ FxNear(FxCos(sza),Dot(zenith,Unit(sun)),FxDec("1E-10"))

SunOK(calc,e) ==
  LET t == YearsOf(e.tt[1],e.tt[2])
      earth == EarthAt(e)
      sun == SunAt(earth[1],e)
      rel == FxMul(FxDec("1E-9"),Reach(t))
  IN /\ e.res = "ok"
     /\ VecNear(e.earth,earth[1],PosTol(e.tt[1],e.tt[2],t))
     /\ VecNear(e.sun,sun,FxMul(rel,Norm(sun)))
     \* the angle is that of the reported vector
     /\ AngleOK(calc.zenith,e.sun,e.sza)
==============================================================================
