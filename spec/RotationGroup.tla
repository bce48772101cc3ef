----------------------------- MODULE RotationGroup ----------------------------
(***************************************************************************)
(* Quarter turns about the three axes, composed: the rotation group of the *)
(* cube.  Matrices have entries in {-1,0,1} and follow the conventions of  *)
(* module Vectors (checked here to be the same), so that the behaviours,   *)
(* dumped and replayed on the library's matrices, pin down the sense of    *)
(* rotation about every axis and the order of composition exactly.         *)
(***************************************************************************)
EXTENDS Vectors

CONSTANT MaxWord

ITurn(axis,s) ==
  CASE axis = 1 -> << << 1,0,0 >>, << 0,0,s >>, << 0,-s,0 >> >>
    [] axis = 2 -> << << 0,0,-s >>, << 0,1,0 >>, << s,0,0 >> >>
    [] axis = 3 -> << << 0,s,0 >>, << -s,0,0 >>, << 0,0,1 >> >>
\* letters 1..6: axis and sense of a quarter turn
Letter(w) == ITurn((w + 1) \div 2,IF w % 2 = 1 THEN 1 ELSE -1)
IMul(a,b) == [ i \in 1..3 |-> [ j \in 1..3 |-> a[i][1]*b[1][j] + a[i][2]*b[2][j] + a[i][3]*b[3][j] ] ]
ITrans(a) == [ i \in 1..3 |-> [ j \in 1..3 |-> a[j][i] ] ]
IOne == << << 1,0,0 >>, << 0,1,0 >>, << 0,0,1 >> >>
IDet(m) == m[1][1]*(m[2][2]*m[3][3] - m[2][3]*m[3][2])
         + m[1][2]*(m[2][3]*m[3][1] - m[2][1]*m[3][3])
         + m[1][3]*(m[2][1]*m[3][2] - m[2][2]*m[3][1])

VARIABLES word, mat
gvars == << word, mat >>
Init == word = << >> /\ mat = IOne
Next == /\ Len(word) < MaxWord
        /\ \E w \in 1..6 : word' = Append(word,w) /\ mat' = IMul(mat,Letter(w))
Spec == Init /\ [][Next]_gvars

ToFx(m) == [ i \in 1..3 |-> [ j \in 1..3 |-> FxInt(m[i][j]) ] ]
Near0(a,b) == MatNear(a,b,FxDec("1E-20"))

\* Every product is a rotation, its inverse its transpose
Proper == IDet(mat) = 1 /\ IMul(mat,ITrans(mat)) = IOne
\* The letters are the quarter turns of the real specification, and
\* composition is the same
SameTurns ==
  Len(word) = 1 =>
    LET w == word[1]
    IN Near0(ToFx(mat),Rot((w + 1) \div 2,IF w % 2 = 1 THEN FHalfPi ELSE FxNeg(FHalfPi)))
SameProduct ==
  Len(word) = 2 => Compose(ToFx(Letter(word[1])),ToFx(Letter(word[2]))) = ToFx(mat)
\* Four equal turns are no turn; a turn and its opposite cancel
Orders ==
  /\ (Len(word) = 4 /\ \A i \in 1..4 : word[i] = word[1]) => mat = IOne
  /\ (Len(word) = 2 /\ (word[1] + 1) \div 2 = (word[2] + 1) \div 2 /\ word[1] # word[2]) => mat = IOne
==============================================================================
