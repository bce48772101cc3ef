------------------------------ MODULE LeapClock -------------------------------
(***************************************************************************)
(* UTC as a clock: days pass, and on the first of certain months the       *)
(* offset to TAI changes segment.  The published table is checked for the  *)
(* regularities it has by construction: within a segment the offset grows  *)
(* linearly; a change of segment either only changes the drift, leaving    *)
(* the offset continuous, or steps it by 0.05 s or 0.1 s (1961-01-01:      *)
(* 0.005 s), or by whole seconds; and the drifting and whole-second eras   *)
(* join with the published step of 0.107758 s.                             *)
(***************************************************************************)
EXTENDS Calendar, LeapSeconds

VARIABLES seg, jump       \* segment in force, and the step made today
clk == << y, m, d, n, seg, jump >>

ClockInit == CalInit(1959,12,1,DayNumber(1959,12,1)) /\ seg = 0 /\ jump = F0

Tick ==
  /\ NextDay
  /\ LET i == InForce(y',m')
     IN /\ seg' = i
        /\ jump' = IF seg = 0 \/ i = seg THEN F0
                   ELSE FxSub(OffsetIn(i,n',F0),OffsetIn(seg,n',F0))

\* What the code does: look the segment up afresh.  It agrees with a clock
\* that keeps the segment and moves to the next one when its month begins.
NextSegment == IF seg < NSegments /\ d = 1 /\ Reached(seg + 1,y,m) THEN seg + 1 ELSE seg
OneAtATime == [][seg' \in {seg,seg + 1} /\ (seg' # seg => d' = 1)]_clk

Until == y < 2030
ClockNext == Until /\ Tick
ClockSpec == ClockInit /\ [][ClockNext]_clk

SegmentOK == /\ seg = InForce(y,m)
             /\ (seg = 0) = (y < 1960)
             /\ seg > 0 => Reached(seg,y,m)
Small == { FxDec("0"), FxDec("0.005"), FxDec("-0.05"), FxDec("0.1"), FxDec("-0.1"), FxDec("1"), FxDec("0.107758") }
JumpsPublished == \E j \in Small : FxNear(jump,j,FxDec("1E-12"))
Eras == /\ (y >= 1972) = (seg >= 15)
        /\ seg >= 15 => /\ TaiUtc(seg,y,m,d,FHalf) = FxInt(seg - 5)
                        /\ jump \in {F0,F1} \/ (y = 1972 /\ m = 1 /\ d = 1)
                        /\ jump = F1 => (d = 1 /\ m \in {1,7})
Final == (y >= 2017) => TaiUtc(seg,y,m,d,F0) = FxInt(37)
Growing == seg \in 1..14 => FxLt(TaiUtc(seg,y,m,d,F0),TaiUtc(seg,y,m,d,F1))
==============================================================================
