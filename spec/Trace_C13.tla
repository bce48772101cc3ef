------------------------------- MODULE Trace_C13 -------------------------------
(* Bias, precession and nutation matrices. *)
EXTENDS Iau2000, TraceLib

RotTol == FxDec("1E-14")
Tol == FxDec("1E-13")
\* slack: what the rounding of a sum with an angle of many turns costs
IsTo(m,w,slack) == MatNear(m,w,FxAdd(Tol,slack)) /\ IsRotation(m,RotTol)
Is(m,w) == IsTo(m,w,F0)

EventOK(e) ==
  CASE e.op = "bias_and_precession" ->
         LET rp == PrecessionMatrix(Centuries(e.a,e.b))
         IN /\ e.res = "ok"
            /\ Is(e.rb,BiasMatrix)
            /\ Is(e.rp,rp)
            /\ Is(e.rbp,Compose(rp,BiasMatrix))
            /\ MatNear(e.rbp,Compose(e.rp,e.rb),FxDec("2E-15"))
    [] e.op = "nutation_matrix" -> e.res = "ok" /\ IsRotation(e.m,RotTol)
         /\ MatNear(e.m,NutationMatrix(e.epsa,e.dpsi,e.deps),
                    FxAdd(Tol,FxUlp(FxAdd(e.epsa,e.deps))))
    [] e.op = "precession_nutation" -> e.res = "ok" /\ Is(e.m,PrecessionNutation(Centuries(e.a,e.b)))
    [] e.op = "pn_with" ->
         LET w == PnMatrices(Centuries(e.a,e.b),e.dpsi,e.deps)
         IN /\ e.res = "ok"
            /\ e.odpsi = e.dpsi
            /\ e.has_rb   => Is(e.rb,w[1])
            /\ e.has_rp   => Is(e.rp,w[2])
            /\ e.has_rbp  => Is(e.rbp,w[3])
            /\ e.has_rn   => IsTo(e.rn,w[4],FxUlp(e.deps))
            /\ e.has_rbpn => IsTo(e.rbpn,w[5],FxUlp(e.deps))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
