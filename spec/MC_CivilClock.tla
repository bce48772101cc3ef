---------------------------- MODULE MC_CivilClock ----------------------------
EXTENDS CivilClock
==============================================================================
