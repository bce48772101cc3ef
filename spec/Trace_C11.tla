------------------------------- MODULE Trace_C11 -------------------------------
(* Vectors and the angle between them. *)
EXTENDS Vectors, TraceLib

Floor70 == FxPow2(-70)
Rel(x,eps) == FxAdd(FxMul(FxDec(eps),FxAbs(x)),Floor70)
Each(v,w,eps) == \A i \in 1..3 : FxNear(v[i],w[i],Rel(w[i],eps))

\* th is the angle of a and b: the cosine for most angles; near 0 and pi
\* the cosine is flat, and its rounding is what th can be known to.
AngleOK(a,b,th) ==
  /\ FxLe(F0,th) /\ FxLe(th,FPi)
  /\ FxNear(FxCos(th),Dot(Unit(a),Unit(b)),
            FxAdd(FxDec("2E-15"),FxAdd(GrainUnit(a),GrainUnit(b))))

EventOK(e) ==
  /\ e.res = "ok"
  /\ CASE e.op = "add" -> Each(e.v,Add(e.a,e.b),"1.2E-16")
       [] e.op = "sub" -> Each(e.v,Sub(e.a,e.b),"1.2E-16")
       [] e.op = "neg" -> e.v = Neg(e.a)
       [] e.op = "scale" -> LET w == Scale(e.c,e.a)
            IN \A i \in 1..3 : FxNear(e.v[i],w[i],FxAdd(Rel(w[i],"1.2E-16"),Grain(e.a,<< e.c, F0, F0 >>)))
       [] e.op = "dot" -> FxNear(e.v,Dot(e.a,e.b),FxAdd(FxMul(FxDec("6E-16"),AbsDot(e.a,e.b)),FxAdd(Grain(e.a,e.b),Floor70)))
       [] e.op = "norm" -> FxNear(e.v,Norm(e.a),Rel(Norm(e.a),"6E-16"))
       [] e.op = "normalize" ->
            LET u == Unit(e.a)
            IN \A i \in 1..3 : FxNear(e.v[i],u[i],FxAdd(Rel(u[i],"1E-15"),GrainUnit(e.a)))
       [] e.op = "angle" -> AngleOK(e.a,e.b,e.v)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
