------------------------------- MODULE Trace_C15 -------------------------------
(* Celestial to intermediate and to terrestrial matrices. *)
EXTENDS Iau2000, TraceLib

RotTol == FxDec("1E-14")
Is(m,w,tol) == IsRotation(m,RotTol) /\ MatNear(m,w,FxDec(tol))
\* the third row is the pole itself; near the equator of the sphere its last
\* component is the small difference of the squares
Height(x,y) == FxSqrt(FxSub(F1,FxAdd(FxSq(x),FxSq(y))))
PoleTol(x,y,tol) == FxAdd(FxDec(tol),FxDiv(FxDec("4E-16"),Height(x,y)))
PoleRow(m,x,y) == VecNear(m[3],<< x, y, Height(x,y) >>,PoleTol(x,y,"1E-14"))
IsAt(m,w,x,y,tol) == IsRotation(m,RotTol) /\ MatNear(m,w,PoleTol(x,y,tol))
\* The Earth rotation angle is known to 1e-10 only when its date is split
\* unfavourably; the angle of the matrix is compared to the exact one.
EventOK(e) ==
  CASE e.op = "c2ixys" ->
         e.res = "ok" /\ IsRotation(e.m,RotTol)
         /\ MatNear(e.m,IntermediateXYS(e.x,e.y,e.s),FxAdd(PoleTol(e.x,e.y,"1E-14"),FxUlp(e.s))) /\ PoleRow(e.m,e.x,e.y)
    [] e.op = "c2ixy" ->
         e.res = "ok" /\ IsAt(e.m,IntermediateXY(Centuries(e.a,e.b),e.x,e.y),e.x,e.y,"2E-14") /\ PoleRow(e.m,e.x,e.y)
    [] e.op = "c2ibpn" ->
         e.res = "ok" /\ IsAt(e.m,IntermediateBpn(Centuries(e.a,e.b),e.bpn),e.bpn[3][1],e.bpn[3][2],"2E-14")
                      /\ PoleRow(e.m,e.bpn[3][1],e.bpn[3][2])
    [] e.op = "bpn2xy" -> e.x = e.bpn[3][1] /\ e.y = e.bpn[3][2]
    [] e.op = "c2i" ->
         e.res = "ok" /\ Is(e.m,Intermediate(Centuries(e.a,e.b)),"1E-13")
    [] e.op = "pom" -> e.res = "ok" /\ Is(e.m,PolarMotion(e.xp,e.yp,e.sp),"3E-15")
    [] e.op = "c2tcio" -> e.res = "ok" /\ Is(e.m,TerrestrialOf(e.c2i,e.era,e.pom),"3E-15")
    [] e.op = "c2t" ->
         e.res = "ok" /\ IsRotation(e.m,RotTol)
         /\ MatNear(e.m,Terrestrial(Centuries(e.ta,e.tb),e.ua,e.ub,e.xp,e.yp),EraTol(e.ua,e.ub,FxDec("1E-11")))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
