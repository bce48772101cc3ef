------------------------------ MODULE TimeOfDay -------------------------------
(***************************************************************************)
(* Hours, minutes and seconds, and the fraction of day they denote.        *)
(***************************************************************************)
EXTENDS FxMath

SecondsOf(hh,mm,s) == FxAdd(FxInt(3600*hh + 60*mm),s)
FractionOf(hh,mm,s) == FxDivInt(SecondsOf(hh,mm,s),86400)

\* 24:00:00 is the end of the day; every other time is before hour 24.
IsTime(hh,mm,s) ==
  /\ hh \in 0..24 /\ mm \in 0..59
  /\ FxLe(F0,s) /\ FxLt(s,FxInt(60))
  /\ hh = 24 => (mm = 0 /\ s = F0)

IsFraction(f) == FxLe(F0,f) /\ FxLe(f,F1)

\* 1e-10 s as a fraction of day
TimeTol == FxDivInt(FxDec("1E-10"),86400)
==============================================================================
