------------------------------- MODULE Requests -------------------------------
(***************************************************************************)
(* What a Sun-angle calculator can be asked, by kind: the date and time it *)
(* is created for, the observer, and a word of offsets asked one after the *)
(* other.  TLC enumerates every combination; the driver chooses numbers    *)
(* for each of them and records the session; that a session is of the kind *)
(* it was made for (StartIs, ObserverIs, OffsetIs, SeenAs) is checked on the       *)
(* record, so that no kind goes untried.                                   *)
(***************************************************************************)
EXTENDS LeapSeconds, TimeOfDay, FxMath, Sequences, FiniteSets, TLC, Functions

Starts == { "noon", "stepped", "closing", "drift", "before", "far", "end", "february" }
Observers == { "plain", "pole", "meridian", "high", "low", "under", "against", "edge" }
Offsets == { "zero", "same", "back", "tiny", "midnight", "eve", "yesterday", "whole", "long" }
Relative == { "same", "back" }       \* to the offset asked before

CONSTANT Length
VARIABLES start, observer, word
request == << start, observer, word >>

ReqInit == start \in Starts /\ observer \in Observers /\ word = << >>
ReqNext == /\ Len(word) < Length
           /\ \E o \in Offsets : (word = << >> => o \notin Relative) /\ word' = Append(word,o)
           /\ UNCHANGED << start, observer >>
ReqSpec == ReqInit /\ [][ReqNext]_request

\* so many words of each length, so many requests
CountOf(k) == IF k = 0 THEN 1 ELSE (Cardinality(Offsets) - Cardinality(Relative))*Cardinality(Offsets)^(k - 1)
Enumerated == TLCGet("stats").distinct = Cardinality(Starts)*Cardinality(Observers)*FoldFunction(+,0,[ k \in 0..Length |-> CountOf(k) ])

------------------------------------------------------------------------------
\* c is the creation, as recorded
Previous(yy,mm) == IF mm = 1 THEN InForce(yy - 1,12) ELSE InForce(yy,mm - 1)
StartIs(k,c) ==
  CASE k = "noon"     -> c.hh = 12 /\ c.mm = 0 /\ c.s = F0 /\ c.y \in 1972..2100
    [] k = "stepped"  -> c.d = 1 /\ c.hh = 0 /\ c.mm = 0 /\ FxLt(c.s,F1) /\ InForce(c.y,c.m) # Previous(c.y,c.m)
    [] k = "closing"  -> /\ c.hh = 23 /\ c.mm = 59 /\ FxLe(FxInt(59),c.s) /\ c.d = DaysIn(c.y,c.m)
                         /\ InForce(c.y,c.m) # (IF c.m = 12 THEN InForce(c.y + 1,1) ELSE InForce(c.y,c.m + 1))
    [] k = "drift"    -> c.y \in 1960..1971
    [] k = "before"   -> c.y < 1960
    [] k = "far"      -> c.y > 2050
    [] k = "end"      -> c.hh = 24
    [] k = "february" -> c.m = 2 /\ c.d = 29

ObserverIs(k,c) ==
  CASE k = "plain"    -> FxLt(FxAbs(c.lat),FxInt(89)) /\ FxLt(FxAbs(c.lon),FxInt(179)) /\ FxLt(FxAbs(c.height),FxInt(10000))
    [] k = "pole"     -> FxAbs(c.lat) = FxInt(90)
    [] k = "meridian" -> FxAbs(c.lon) \in { F0, FxInt(90), FxInt(180) }
    [] k = "high"     -> FxLe(FxInt(100000),c.height)
    [] k = "low"      -> FxLt(c.height,F0)
    [] k \in { "under", "against", "edge" } -> FxLe(F0,c.height) /\ FxLt(c.height,FxInt(10000))

\* the Sun seen by an observer of that kind when asked for the first time:
\* overhead, underfoot, on the horizon, to 6 degrees
SeenAs(k,sza) ==
  LET near == FxDec("0.1")
  IN CASE k = "under"   -> FxLt(sza,near)
       [] k = "against" -> FxNear(sza,FPi,near)
       [] k = "edge"    -> FxNear(sza,FHalfPi,near)
       [] OTHER         -> TRUE

\* ask is the offset, before the one asked before it, sod the calculator's
\* second of the day
Day == FxInt(86400)
OffsetIs(k,sod,before,ask) ==
  LET at == FxAdd(sod,ask)            \* seconds from the midnight that began the day
  IN CASE k = "zero"      -> ask = F0
       [] k = "same"      -> ask = before
       [] k = "back"      -> ask = FxNeg(before)
       [] k = "tiny"      -> ask # F0 /\ FxLt(FxAbs(ask),FxDec("0.001"))
       [] k = "midnight"  -> FxNear(at,Day,FxDec("1E-9"))
       [] k = "eve"       -> FxLt(at,Day) /\ FxLt(FxSub(Day,F1),at)
       [] k = "yesterday" -> FxLt(at,F0) /\ FxLt(FxInt(-1),at)
       [] k = "whole"     -> \E j \in 1..9 : FxAbs(ask) = FxInt(86400*j)
       [] k = "long"      -> FxLt(FxInt(86400*9),FxAbs(ask))
==============================================================================
