------------------------------ MODULE ScaleWalk -------------------------------
(***************************************************************************)
(* One moment read in five time scales.  A reader carries the reading from *)
(* scale to scale with the offsets of the day (microseconds), in any order *)
(* the library converts: UTC to TAI, TAI to TT, TT to TDB, TT to UT1 and   *)
(* back.  However it came there, the reading in a scale is the same.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT
  \* @type: Int;
  Length
VARIABLES                       \* the day's TAI-UTC, TT-UT1 and TDB-TT
  \* @type: Int;
  dat,
  \* @type: Int;
  deltat,
  \* @type: Int;
  dtr,
  \* @type: Str;
  scale,
  \* @type: Int;
  ahead,
  \* @type: Seq(Str);
  path
walk == << dat, deltat, dtr, scale, ahead, path >>

TtTaiMicro == 32184000
\* what each scale reads ahead of UTC
Reads(s) == CASE s = "UTC" -> 0
              [] s = "TAI" -> dat
              [] s = "TT"  -> dat + TtTaiMicro
              [] s = "TDB" -> dat + TtTaiMicro + dtr
              [] s = "UT1" -> dat + TtTaiMicro - deltat

WalkInit ==
  /\ dat \in {0, 1417818, 10000000, 37000000, -500000}
  /\ deltat \in {0, -2540000, 69184000, 63831124, 360000000, -86400000}
  /\ dtr \in {0, 1657, -1658}
  /\ scale \in {"UTC", "TAI", "TT", "UT1"}
  /\ ahead = Reads(scale)
  /\ path = << scale >>

Go(from,to,by) == scale = from /\ Len(path) <= Length /\ scale' = to /\ ahead' = ahead + by /\ path' = Append(path,to)
WalkNext ==
  /\ \/ Go("UTC","TAI",dat)
     \/ Go("TAI","TT",TtTaiMicro)
     \/ Go("TT","UT1",-deltat)
     \/ Go("UT1","TT",deltat)
     \/ Go("TT","TDB",dtr)
  /\ UNCHANGED << dat, deltat, dtr >>
WalkSpec == WalkInit /\ [][WalkNext]_walk

SameMoment == ahead = Reads(scale)
\* what was read along the way is what is read there now
NoDrift == Len(path) >= 3 /\ path[Len(path)-2] = scale => ahead = Reads(path[Len(path)-2])
AnyLength == Length = 8
\* Apalache: whatever the offsets, one conversion keeps it so
Anyhow == /\ dat \in Int /\ deltat \in Int /\ dtr \in Int /\ ahead \in Int
          /\ scale \in {"UTC", "TAI", "TT", "TDB", "UT1"} /\ path = << scale >>
          /\ SameMoment
OneWay == \A i \in 1..Len(path)-1 : path[i] # "TDB" /\ path[i+1] # "UTC"
==============================================================================
