------------------------------- MODULE Lattice --------------------------------
(***************************************************************************)
(* Two vectors with whole components, changed one unit at a time.  Their   *)
(* squared lengths and their product are kept up step by step, and agree   *)
(* with what Euclid says of any two vectors; the angle between them is the *)
(* one whose cosine is dot over the root of lena*lenb.                     *)
(***************************************************************************)
EXTENDS Integers

CONSTANT Size
VARIABLES a, b, dot, lena, lenb
pair == << a, b, dot, lena, lenb >>

Vecs == [ 1..3 -> (-Size)..Size ]
Prod(u,v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
Cross(u,v) == << u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3], u[1]*v[2] - u[2]*v[1] >>

LatticeInit == a = << 0,0,0 >> /\ b = << 0,0,0 >> /\ dot = 0 /\ lena = 0 /\ lenb = 0
Fits(n) == n \in (-Size)..Size
StepA(i,s) == /\ Fits(a[i] + s) /\ a' = [a EXCEPT ![i] = @ + s]
              /\ dot' = dot + s*b[i] /\ lena' = lena + 2*s*a[i] + 1 /\ UNCHANGED << b, lenb >>
StepB(i,s) == /\ Fits(b[i] + s) /\ b' = [b EXCEPT ![i] = @ + s]
              /\ dot' = dot + s*a[i] /\ lenb' = lenb + 2*s*b[i] + 1 /\ UNCHANGED << a, lena >>
LatticeNext == \E i \in 1..3, s \in {-1,1} : StepA(i,s) \/ StepB(i,s)
LatticeSpec == LatticeInit /\ [][LatticeNext]_pair

KeptUp == dot = Prod(a,b) /\ lena = Prod(a,a) /\ lenb = Prod(b,b)
Lagrange == lena*lenb = dot*dot + Prod(Cross(a,b),Cross(a,b))
Cauchy == dot*dot <= lena*lenb
\* the sum and the difference
Law == LET sum == [ i \in 1..3 |-> a[i] + b[i] ]
           dif == [ i \in 1..3 |-> a[i] - b[i] ]
       IN /\ Prod(sum,sum) = lena + lenb + 2*dot
          /\ Prod(dif,dif) = lena + lenb - 2*dot
\* at no angle, or a straight one, exactly when one is a multiple of the other
Flat == lena > 0 /\ lenb > 0 =>
          (dot*dot = lena*lenb <=> \A i \in 1..3 : lenb*a[i] = dot*b[i])
==============================================================================
