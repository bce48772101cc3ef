------------------------------- MODULE Trace_C10 -------------------------------
(* Rotation matrices, composition, application. *)
EXTENDS Vectors, TraceLib

Tiny == FxDec("1E-14")
\* product entries: to the rounding of the three products and two sums
DotTol(u,v) == FxAdd(FxMul(FxDec("6E-16"),AbsDot(u,v)),FxAdd(Grain(u,v),FxPow2(-70)))
\* the angle reaches the sine and cosine exactly: only their rounding counts
RotTol == FxDec("4E-16")

EventOK(e) ==
  /\ e.res = "ok"
  /\ CASE e.op = "identity" -> e.m = Identity
       [] e.op = "zero" -> e.m = Zero
       [] e.op = "rotation" -> MatNear(e.m,Rot(e.axis+1,e.th),RotTol)
       [] e.op = "rot2" -> MatNear(e.m,Rot(e.axis+1,FxAdd(e.th,e.ph)),FxDec("2E-15"))
       [] e.op = "compose" -> \A i,j \in 1..3 :
            FxNear(e.m[i][j],Dot(e.a[i],Col(e.b,j)),DotTol(e.a[i],Col(e.b,j)))
       [] e.op = "transpose" -> e.m = Transpose(e.a)
       [] e.op = "apply" -> \A j \in 1..3 :
            FxNear(e.v[j],Dot(e.x,Col(e.a,j)),DotTol(e.x,Col(e.a,j)))
       [] e.op = "apply2" ->
            LET y == Apply(e.b,Apply(e.a,e.x))
                s == FxMul(FxMul(Mag1(e.x),MatMag(e.a)),MatMag(e.b))
            IN VecNear(e.v,y,FxAdd(FxMul(FxDec("4E-15"),s),FxPow2(-60)))
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
