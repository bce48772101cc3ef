------------------------------- MODULE DayClock -------------------------------
(***************************************************************************)
(* The hands of a clock through a day: seconds carry into minutes, minutes *)
(* into hours; count is the seconds passed, text what the clock displays.  *)
(* 24:00:00 ends the day.                                                  *)
(***************************************************************************)
EXTENDS TimeOfDay, Text

VARIABLES hour, minute, second, count, text
clock == << hour, minute, second, count, text >>

Display(hh,mm,ss) == IntText(hh,2) \o ":" \o IntText(mm,2) \o ":" \o IntText(ss,2)

ClockInit == hour = 0 /\ minute = 0 /\ second = 0 /\ count = 0 /\ text = "00:00:00"
Tick ==
  /\ hour < 24
  /\ count' = count + 1
  /\ second' = (second + 1) % 60
  /\ minute' = IF second' = 0 THEN (minute + 1) % 60 ELSE minute
  /\ hour' = IF second' = 0 /\ minute' = 0 THEN hour + 1 ELSE hour
  /\ text' = Display(hour',minute',second')
ClockSpec == ClockInit /\ [][Tick]_clock /\ WF_clock(Tick)

\* The hands denote the seconds passed, as fraction of the day and in text
Denotes == SecondsOf(hour,minute,FxInt(second)) = FxInt(count)
Fraction == LET f == FractionOf(hour,minute,FxInt(second))
            IN IsFraction(f) /\ FxNear(FxMulInt(f,86400),FxInt(count),FxPow2(-56)) /\ (f = F1 <=> hour = 24)
Valid == IsTime(hour,minute,FxInt(second))
Displayed == IsTimeText(text \o ".000000",hour,minute,FxInt(second))
Ends == <>(count = 86400 /\ hour = 24)
==============================================================================
