------------------------------- MODULE Vectors --------------------------------
(***************************************************************************)
(* Vectors and matrices of three dimensions on Fx numbers.                 *)
(***************************************************************************)
EXTENDS FxMath

Dot(a,b) == FxAdd(FxAdd(FxMul(a[1],b[1]),FxMul(a[2],b[2])),FxMul(a[3],b[3]))
Add(a,b) == << FxAdd(a[1],b[1]), FxAdd(a[2],b[2]), FxAdd(a[3],b[3]) >>
Sub(a,b) == << FxSub(a[1],b[1]), FxSub(a[2],b[2]), FxSub(a[3],b[3]) >>
Neg(a) == << FxNeg(a[1]), FxNeg(a[2]), FxNeg(a[3]) >>
Scale(c,a) == << FxMul(c,a[1]), FxMul(c,a[2]), FxMul(c,a[3]) >>
\* Norms and directions are taken on components scaled up by 2^75, so that
\* small vectors keep their digits.
Lift == FxPow2(75)
Norm(a) == FxDiv(FxSqrt(Dot(Scale(Lift,a),Scale(Lift,a))),Lift)
Unit(a) == LET b == Scale(Lift,a)  n == FxSqrt(Dot(b,b))
           IN << FxDiv(b[1],n), FxDiv(b[2],n), FxDiv(b[3],n) >>
\* sum of magnitudes: bounds the rounding of sums of products
Mag1(a) == FxAdd(FxAdd(FxAbs(a[1]),FxAbs(a[2])),FxAbs(a[3]))
AbsDot(a,b) == FxAdd(FxAdd(FxAbs(FxMul(a[1],b[1])),FxAbs(FxMul(a[2],b[2]))),FxAbs(FxMul(a[3],b[3])))

\* what the resolution of the numbers themselves costs: of a product of
\* sums, and of a direction
Grain(u,v) == FxMul(FxPow2(-74),FxAdd(FxAdd(Mag1(u),Mag1(v)),F1))
GrainUnit(u) == FxDiv(FxPow2(-73),Norm(u))

VecNear(u,v,tol) == \A i \in 1..3 : FxNear(u[i],v[i],tol)
IsVec(u) == Len(u) = 3 /\ \A i \in 1..3 : FxIsNum(u[i])

Col(m,j) == << m[1][j], m[2][j], m[3][j] >>
Transpose(m) == << Col(m,1), Col(m,2), Col(m,3) >>
\* row-by-column product
Compose(a,b) == << << Dot(a[1],Col(b,1)), Dot(a[1],Col(b,2)), Dot(a[1],Col(b,3)) >>,
                   << Dot(a[2],Col(b,1)), Dot(a[2],Col(b,2)), Dot(a[2],Col(b,3)) >>,
                   << Dot(a[3],Col(b,1)), Dot(a[3],Col(b,2)), Dot(a[3],Col(b,3)) >> >>
\* row vector times matrix
Apply(m,x) == << Dot(x,Col(m,1)), Dot(x,Col(m,2)), Dot(x,Col(m,3)) >>
Identity == << << F1,F0,F0 >>, << F0,F1,F0 >>, << F0,F0,F1 >> >>
Zero == << << F0,F0,F0 >>, << F0,F0,F0 >>, << F0,F0,F0 >> >>
Det(m) == FxAdd(FxAdd(
  FxMul(m[1][1],FxSub(FxMul(m[2][2],m[3][3]),FxMul(m[2][3],m[3][2]))),
  FxMul(m[1][2],FxSub(FxMul(m[2][3],m[3][1]),FxMul(m[2][1],m[3][3])))),
  FxMul(m[1][3],FxSub(FxMul(m[2][1],m[3][2]),FxMul(m[2][2],m[3][1]))))

MatMag(m) == FxAdd(FxAdd(Mag1(m[1]),Mag1(m[2])),Mag1(m[3]))
MatNear(a,b,tol) == \A i \in 1..3 : VecNear(a[i],b[i],tol)

\* Rotation about axis 1, 2 or 3, given << sine, cosine >>: +sin above the
\* diagonal and -sin below, in cyclic order
RotSC(axis,sc) ==
  LET s == sc[1]  c == sc[2]  t == FxNeg(s)
  IN CASE axis = 1 -> << << F1,F0,F0 >>, << F0,c,s >>, << F0,t,c >> >>
       [] axis = 2 -> << << c,F0,t >>, << F0,F1,F0 >>, << s,F0,c >> >>
       [] axis = 3 -> << << c,s,F0 >>, << t,c,F0 >>, << F0,F0,F1 >> >>
Rot(axis,theta) == RotSC(axis,FxSinCos(theta))
RX(th) == Rot(1,th)
RY(th) == Rot(2,th)
RZ(th) == Rot(3,th)

\* Orthonormal with determinant +1
IsRotation(m,tol) ==
  /\ \A i \in 1..3 : IsVec(m[i])
  /\ MatNear(Compose(m,Transpose(m)),Identity,tol)
  /\ FxNear(Det(m),F1,tol)
==============================================================================
