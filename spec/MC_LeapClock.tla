---------------------------- MODULE MC_LeapClock -----------------------------
EXTENDS LeapClock
==============================================================================
