-------------------------------- MODULE Turns ---------------------------------
(***************************************************************************)
(* A point carried round in steps of one minute of arc, from three turns   *)
(* back to three turns on: along the equator its longitude wraps from +180 *)
(* to -180 degrees; the angle normalised to a turn wraps to 0; a latitude  *)
(* taken beyond a pole wraps by half turns, the pole itself being kept.    *)
(***************************************************************************)
EXTENDS Integers

Degree == 60
Turn == 360*Degree
Reach == 3*Turn

VARIABLES                            \* minutes of arc
  \* @type: Int;
  k,
  \* @type: Int;
  lon,
  \* @type: Int;
  lat,
  \* @type: Int;
  angle
\* @type: () => <<Int,Int,Int,Int>>;
needle == << k, lon, lat, angle >>

TurnsInit == k = -Reach /\ lon = 0 /\ lat = 0 /\ angle = 0
Move ==
  /\ k' = k + 1
  /\ lon' = IF lon = 180*Degree - 1 THEN -(180*Degree) ELSE lon + 1
  /\ angle' = IF angle = Turn - 1 THEN 0 ELSE angle + 1
  /\ lat' = IF k' = 90*Degree THEN 90*Degree                       \* the north pole
            ELSE IF lat >= 90*Degree - 1 THEN (IF lat = 90*Degree THEN -(90*Degree) + 1 ELSE -(90*Degree))
            ELSE lat + 1
Step == k < Reach /\ Move
TurnsSpec == TurnsInit /\ [][Step]_needle /\ WF_needle(Step)

InRange == lon \in -(180*Degree)..(180*Degree - 1) /\ lat \in -(90*Degree)..(90*Degree) /\ angle \in 0..(Turn - 1)
Congruent == (k - lon) % Turn = 0 /\ (k - angle) % Turn = 0 /\ (k - lat) % (180*Degree) = 0
Kept == k \in -(90*Degree)..(90*Degree) => lat = k
\* Apalache: these are kept by every move, not only within Reach
Inv == InRange /\ Congruent /\ Kept /\ (lat = 90*Degree => k = 90*Degree)
Anywhere == k \in Int /\ lon \in Int /\ lat \in Int /\ angle \in Int /\ Inv
Home == <>(k = Reach)
==============================================================================
