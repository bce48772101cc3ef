------------------------------- MODULE Trace_C12 -------------------------------
(* Nutation, precession rates, obliquity, frame bias. *)
EXTENDS Iau2000, TraceLib

Scaled(t,tol) == FxMul(FxDec(tol),FxMax(F1,FxAbs(t)))

EventOK(e) ==
  CASE e.op = "nutation" ->
         LET t == Centuries(e.a,e.b)
             n == NutationOf(t)
         IN FxNear(e.dpsi,n[1],Scaled(t,"2E-14")) /\ FxNear(e.deps,n[2],Scaled(t,"2E-14"))
    [] e.op = "precession_rate" ->
         LET p == PrecessionRate(Centuries(e.a,e.b))
         IN FxNear(e.dpsi,p[1],FxDec("1E-15")) /\ FxNear(e.deps,p[2],FxDec("1E-15"))
    [] e.op = "mean_obliquity" ->
         e.res = "ok" /\ FxNear(e.v,MeanObliquity(Centuries(e.a,e.b)),FxDec("1E-15"))
    [] e.op = "pn_dpsi" ->
         LET t == Centuries(e.a,e.b)
         IN e.res = "ok" /\ FxNear(e.v,NutationOf(t)[1],Scaled(t,"2E-14"))
    [] e.op = "frame_bias" ->
         VecNear(e.v,<< BiasPsi, BiasEps, BiasRa >>,FxDec("1E-21"))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
