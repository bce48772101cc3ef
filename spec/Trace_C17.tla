------------------------------- MODULE Trace_C17 -------------------------------
(* Earth velocities are the derivatives of the positions. *)
EXTENDS Ephemeris, TraceLib

\* central difference of positions h days before and after
DiffNear(p0,p1,h,v) ==
  \A i \in 1..3 : FxNear(FxDiv(FxSub(p1[i],p0[i]),FxMulInt(h,2)),v[i],FxDec("1E-7"))

EventOK(e) ==
  /\ e.res = "ok"
  /\ CASE e.op = "epv" ->
            LET t == YearsOf(e.a,e.b)
                w == Earth(t)
                tol == VelTol(e.a,e.b,t)
            IN VecNear(e.vh,w[1][2],tol) /\ VecNear(e.vb,w[2][2],tol)
       [] e.op = "epv_diff" -> DiffNear(e.h0,e.h1,e.h,e.vh) /\ DiffNear(e.b0,e.b1,e.h,e.vb)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
