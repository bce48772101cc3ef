------------------------------ MODULE Trace_C22s ------------------------------
(* Asking for an offset is asking at the shifted time. *)
EXTENDS SunAngle, TraceLib

Sum(v,i) == FxAdd(v[i],v[i+1])
\* the two instants are computed along different paths: half a microsecond,
\* and the rounding of each to the day count
InstTol(e) == FxAdd(FxDec("5E-12"),FxMulInt(FxUlp(FxMax(FxAbs(e.jd[2]),FxAbs(e.jd[4]))),3))
EventOK(e) ==
  CASE e.op = "shifted" ->
         /\ e.res = "ok"
         /\ FxNear(Sum(e.jd,1),Sum(e.jd,3),InstTol(e))
         /\ e.dat[1] = e.dat[2]
         /\ FxNear(Sum(e.tt,1),Sum(e.tt,3),InstTol(e))
         /\ FxNear(Sum(e.ut1,1),Sum(e.ut1,3),InstTol(e))
         /\ FxNear(FxCos(e.sza[1]),FxCos(e.sza[2]),FxAdd(FxDec("1E-10"),FxMulInt(InstTol(e),7)))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
