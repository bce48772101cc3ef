------------------------------- MODULE Trace_C14 -------------------------------
(* Fundamental arguments and the CIO locator. *)
EXTENDS Iau2000, TraceLib

EventOK(e) ==
  CASE e.op = "fundargs" ->
         LET w == FundArgs(e.t)
             \* three roundings of 1.7E9 t arcseconds, and a margin
             tol == FxAdd(FxMul(FxDec("2E-11"),FxAbs(e.t)),FxDec("5E-14"))
         IN /\ e.res = "ok"
            /\ Len(e.v) = 8
            /\ \A i \in 1..7 : FxIsNum(e.v[i]) /\ FxLe(FxDistMod(FxSub(e.v[i],w[i]),FTwoPi),tol)
            /\ FxNear(e.v[8],w[8],FxMul(tol,FxDec("0.0001")))
    [] e.op = "cio" ->
         e.res = "ok" /\ FxNear(e.v,Locator(Centuries(e.a,e.b),e.x,e.y),FxDec("5E-15"))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
