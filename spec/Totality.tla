------------------------------- MODULE Totality -------------------------------
(***************************************************************************)
(* What every computation of the library owes whatever it is asked: an     *)
(* answer.  An answer is a refusal, for the few computations that may      *)
(* refuse, or a fixed number of finite numbers.                            *)
(***************************************************************************)
EXTENDS FxMath

\* Computations that may refuse, and the refusals they have
Refusals(name) ==
  CASE name \in {"from_julian","dt_from"} -> {"BadJulian"}
    [] name = "from_fraction" -> {"BadFract"}
    [] name = "new" -> {"BadYear","BadMonth","BadDay"}
    [] name = "delta_at" -> {"BadFract"}
    [] name = "converter" -> {"refused"}
    [] OTHER -> {}

\* How many numbers an answer holds
Sizes(name) ==
  CASE name \in {"to_fraction","anp","era","mean_obliquity","cio","show","show_pos"} -> {1}
    [] name \in {"to_julian","tt_tdb","ut1_tt","nutation","precession_rate"} -> {2}
    [] name \in {"new","from_fraction","utc_tai","tai_tt","tt_ut1","to360","torad","zenith","forward","inverse"} -> {3}
    [] name \in {"from_julian","dt_from","angle"} -> {4}
    [] name = "fundargs" -> {8}
    [] name \in {"pom","rotation","nutation_matrix","precession_nutation","c2ixys","c2ixy","c2i","c2t"} -> {9}
    [] name = "epv" -> {12}
    [] name = "vectors" -> {15}
    [] name = "sun" -> {24}
    [] name = "bias_and_precession" -> {27}
    [] name = "delta_at" -> {0,1}
    [] name = "converter" -> {0}

\* A point deep inside the Earth has no meaningful latitude; it is not to be
\* feared all the same.
Meaningless == {"inverse_deep"}

Answers(name,res,out) ==
  \/ res \in Refusals(name)
  \/ res = "ok" /\ name \in Meaningless
  \/ /\ res = "ok" /\ name \notin Meaningless
     /\ Len(out) \in Sizes(name)
     /\ \A i \in 1..Len(out) : FxIsNum(out[i])
==============================================================================
