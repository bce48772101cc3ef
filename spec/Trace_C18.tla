------------------------------- MODULE Trace_C18 -------------------------------
(* Geodetic to geocentric coordinates, and the zenith. *)
EXTENDS Geodesy, TraceLib

ScaleTol(s) == FxMul(FxDec("1E-14"),s)
EventOK(e) ==
  CASE e.op = "forward" ->
         LET w == Forward(e.ea,e.ef,e.elong,e.phi,e.height)
         IN /\ e.res = "ok"
            /\ VecNear(e.v,w[1],ScaleTol(w[2]))
            \* on the surface, for ellipsoids that are not nearly flat
            /\ (e.height = F0 /\ FxLe(e.ef,FHalf)) =>
                 FxNear(SurfaceDefect(e.ea,e.ef,e.v),F0,FxDec("1E-13"))
    [] e.op = "zenith" ->
         /\ e.res = "ok"
         /\ VecNear(e.v,Normal(e.elong,e.phi),FxDec("1E-15"))
         /\ FxNear(Dot(e.v,e.v),F1,FxDec("3E-15"))
    [] e.op = "turn" ->
         \* the longitude plus a turn is itself rounded
         /\ e.res = "ok"
         /\ LET w == Forward(e.ea,e.ef,e.elong,e.phi,e.height)
                ang == FxAdd(FxDec("1E-14"),FxMulInt(FxUlp(FxAdd(FxAbs(e.elong),FxInt(24))),2))
            IN VecNear(e.u,e.v,FxMul(ang,w[2]))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
