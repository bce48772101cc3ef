-------------------------------- MODULE Globe ---------------------------------
(***************************************************************************)
(* An observer travelling over ellipsoids: north along the meridian, then  *)
(* east along a parallel, then up.  East is a turn about the axis, up is   *)
(* along the local vertical; wherever the observer comes, the point is the *)
(* one the formula of module Geodesy gives for its position.               *)
(***************************************************************************)
EXTENDS Geodesy

CONSTANTS LatStep, LonStep        \* degrees
VARIABLES shape, lat, lon, level, x, y, z
globe == << shape, lat, lon, level, x, y, z >>

Shapes == 1..6
Flat(s) == CASE s = 1 -> WgsF [] s = 2 -> F0 [] s = 3 -> FxPow2(-8) [] s = 4 -> FxDivInt(F1,200)
             [] s = 5 -> FxPow2(-4) [] s = 6 -> FxDivInt(FxInt(7),8)
Polar(s) == FxMul(WgsA,FxSub(F1,Flat(s)))
Levels == 7
\* heights of the levels, in 2^-16 of the equatorial radius
Height(l) == FxDivInt(FxMulInt(WgsA,CASE l = 1 -> -1024 [] l = 2 -> 0 [] l = 3 -> 1 [] l = 4 -> 128 [] l = 5 -> 8192 [] l = 6 -> 524288 [] l = 7 -> 9830400),65536)
Rad(d) == FxDivInt(FxMulInt(FPi,d),180)
P == << x, y, z >>
Stand(p) == x' = p[1] /\ y' = p[2] /\ z' = p[3]

GlobeInit ==
  /\ shape \in Shapes /\ lat = -90 /\ lon = 0 /\ level = 1
  /\ x = F0 /\ y = F0 /\ z = FxNeg(FxAdd(Polar(shape),Height(1)))     \* under the south pole
North == /\ lon = 0 /\ level = 1 /\ lat < 90
         /\ lat' = lat + LatStep
         /\ Stand(Forward(WgsA,Flat(shape),F0,Rad(lat'),Height(1))[1])
         /\ UNCHANGED << shape, lon, level >>
East  == /\ level = 1 /\ lon < 360
         /\ lon' = lon + LonStep
         /\ LET t == FxSinCos(Rad(LonStep))
            IN Stand(<< FxSub(FxMul(t[2],x),FxMul(t[1],y)), FxAdd(FxMul(t[1],x),FxMul(t[2],y)), z >>)
         /\ UNCHANGED << shape, lat, level >>
Up    == /\ level < Levels
         /\ level' = level + 1
         /\ LET n == Normal(Rad(lon),Rad(lat))
            IN Stand(Add(P,Scale(FxSub(Height(level'),Height(level)),n)))
         /\ UNCHANGED << shape, lat, lon >>
GlobeNext == North \/ East \/ Up
GlobeSpec == GlobeInit /\ [][GlobeNext]_globe

Small == FxDec("1E-12")              \* metres
Formula == LET w == Forward(WgsA,Flat(shape),Rad(lon),Rad(lat),Height(level))[1] IN VecNear(P,w,Small)
\* the ground is the ellipsoid, and the vertical stands on it
Ground == level = 2 =>
  LET f == Flat(shape)
      n == Normal(Rad(lon),Rad(lat))
      q == FxSq(FxSub(F1,f))
      g == << FxDiv(x,WgsA), FxDiv(y,WgsA), FxDiv(FxDiv(z,q),WgsA) >>
  IN /\ FxNear(SurfaceDefect(WgsA,f,P),F0,FxDec("1E-17"))
     /\ VecNear(Scale(Norm(g),n),g,FxDec("1E-17"))
\* the other hemispheres mirror this one
Mirrors == LET h == Height(level)  f == Flat(shape) IN
  /\ VecNear(Forward(WgsA,f,Rad(lon),Rad(-lat),h)[1],<< x, y, FxNeg(z) >>,Small)
  /\ VecNear(Forward(WgsA,f,Rad(180 - lon),Rad(lat),h)[1],<< FxNeg(x), y, z >>,Small)
==============================================================================
