------------------------------- MODULE Trace_C16 -------------------------------
(* Earth positions, and the warning. *)
EXTENDS Ephemeris, TraceLib

\* Of parts in whole quarters of Julian years, counted from J2000, sums are
\* exact in days and in years alike, and so is the warning.
Quarters(x) ==
  LET v == FxMulInt(x,16)
      q == FxFloor(FxAdd(FxDivInt(v,1461),FxPow2(-1)))
  IN FxMulInt(q,1461) = v
WarnExact(w,a,b) ==
  Quarters(FxSub(a,DJ2000)) /\ Quarters(b) =>
    (w = "range" <=> FxLe(FxInt(36525),FxAbs(FxSub(FxAdd(a,b),DJ2000))))
EventOK(e) ==
  /\ e.res = "ok"
  /\ WarnOK(e.warn,e.a,e.b)
  /\ WarnExact(e.warn,e.a,e.b)
  /\ CASE e.op = "epv_warn" -> TRUE
       [] e.op = "epv" ->
            LET t == YearsOf(e.a,e.b)
                w == Earth(t)
                tol == PosTol(e.a,e.b,t)
            IN VecNear(e.ph,w[1][1],tol) /\ VecNear(e.pb,w[2][1],tol)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
