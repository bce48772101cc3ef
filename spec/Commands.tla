------------------------------- MODULE Commands --------------------------------
(***************************************************************************)
(* How the command-line tools read a command line, as a state machine over *)
(* its tokens: an optional subcommand, then each option in the tool's own  *)
(* order (its first occurrence anywhere, with the token after it, is taken *)
(* out of the line), then, where checked, nothing may be left over.  TLC   *)
(* runs the machine on every line of the families below; the driver gives  *)
(* each line to the real tool, which must refuse it, or print exactly what *)
(* it prints for the options spelled out in full (see ToolSays).           *)
(***************************************************************************)
EXTENDS Gregorian, Sequences, FiniteSets, Functions, SequencesExt, TLC

CONSTANTS JulianWord, GregorianWord, SunWord,     \* longest words of tokens
          AllOrders                               \* sheets of options: every order and flag

VARIABLES tool, asked, args, plan, step, got, outcome
vars == << tool, asked, args, plan, step, got, outcome >>

------------------------------------------------------------------------------
\* Values a line may contain, and what they can be read as.
Values == { "3", "11", "-7", "2.5", "x" }
ReadsAsKind(kind,v) ==
  CASE kind = "integer" -> v \in { "3", "11", "-7" }
    [] kind = "byte"    -> v \in { "3", "11" }
    [] kind = "real"    -> v \in { "3", "11", "-7", "2.5" }
Whole(v) == CASE v = "3" -> 3 [] v = "11" -> 11 [] v = "-7" -> -7
            [] v = "2007" -> 2007 [] v = "4" -> 4 [] v = "5" -> 5

\* What each plan reads, in this order; a missing option has the default, or
\* none ("") if it must be given.
Opt(key,kind,default) == [ key |-> key, kind |-> kind, default |-> default ]
Options ==
  [ gregorian |-> << Opt("--year","integer",""), Opt("--month","integer",""), Opt("--day","integer",""),
                     Opt("--hour","byte","12"), Opt("--minute","byte","0"), Opt("--second","real","0") >>,
    julian    |-> << Opt("--jd","real",""), Opt("--jd2","real","0") >>,
    sun       |-> << Opt("--year","integer","2007"), Opt("--month","integer","4"), Opt("--day","integer","5"),
                     Opt("--hour","byte","0"), Opt("--min","byte","0"), Opt("--sec","real","0"),
                     Opt("--lat","real","0"), Opt("--lon","real","-120"), Opt("--height","real","0"),
                     Opt("--delta0","real","-600"), Opt("--delta1","real","600"), Opt("--delta_step","real","60"),
                     Opt("--scan","flag","off") >> ]
Keys(p) == { Options[p][i].key : i \in DOMAIN Options[p] }
Dashed(t) == t = "-7" \/ \E p \in DOMAIN Options : t \in Keys(p)
LeftoversAllowed(p) == p = "gregorian"
Subcommands == [ gregorian |-> "gregorian", g |-> "gregorian", julian |-> "julian", j |-> "julian" ]

------------------------------------------------------------------------------
\* Families of lines
Words(A,n) == UNION { [ 1..k -> A ] : k \in 0..n }

JulianLines ==
  { << s >> \o w : s \in { "julian", "j" }, w \in Words({ "--jd", "--jd2", "3", "2.5", "x" },JulianWord) }
  \cup { s \o w : s \in { << >>, << "x" >>, << "3" >>, << "-7" >> }, w \in Words({ "--jd", "--jd2", "3", "julian", "g" },3) }

Stems == { << "--year","3","--month","11","--day","3" >>, << "--day","11","--year","-7","--month","3" >>,
           << "--month","3","--day","11","--year","11" >>, << "--month","-7","--day","3","--year","3" >> }
GregorianLines ==
  LET W == Words({ "--year", "--hour", "--minute", "--second", "3", "2.5", "-7", "x" },GregorianWord)
      M == Words({ "--year", "--month", "--day", "3", "x" },GregorianWord + 1)
  IN { << "g" >> \o s \o w : s \in Stems, w \in W } \cup { << "gregorian" >> \o w \o s : s \in Stems, w \in W }
     \cup { << "gregorian" >> \o w : w \in M }

\* a sheet gives some of the options, each with a value it can take, in the
\* tool's order or the reverse, the flag first or last
Given == [ i \in 1..12 |-> << Options.sun[i].key, << "11","3","11","3","11","2.5","-7","11","2.5","3","11","11" >>[i] >> ]
Pairs(S,reverse) ==
  FoldLeft(LAMBDA line, i : IF i \notin S THEN line ELSE IF reverse THEN Given[i] \o line ELSE line \o Given[i],
           << >>,[ i \in 1..12 |-> i ])
Sheet(S,reverse,flag) ==
  CASE flag = "none"  -> Pairs(S,reverse)
    [] flag = "first" -> << "--scan" >> \o Pairs(S,reverse)
    [] flag = "last"  -> Append(Pairs(S,reverse),"--scan")
    [] flag = "twice" -> << "--scan" >> \o Append(Pairs(S,reverse),"--scan")
SunLines ==
  Words(Keys("sun") \cup Values,SunWord)
  \cup (IF AllOrders THEN { Sheet(S,r,f) : S \in SUBSET (1..12), r \in BOOLEAN, f \in { "none", "first", "last" } }
        ELSE { LET n == Cardinality(S) m == FoldSet(+,0,S)
               IN Sheet(S,m % 2 = 0,<< "none", "first", "none", "last" >>[1 + ((n + m) % 4)]) : S \in SUBSET (1..12) })
  \cup { Sheet(1..12,r,"twice") : r \in BOOLEAN }
  \cup { Sheet((1..12) \ { i },r,"none") \o w : i \in 1..12, r \in BOOLEAN, w \in Words(Values,1) }
  \cup { Sheet((1..12) \ { i },FALSE,"none") \o << Options.sun[i].key, v >> : i \in 1..12, v \in Values }
  \cup { << Options.sun[i].key, v >> \o Sheet(1..12,FALSE,"none") : i \in 1..12, v \in Values }

------------------------------------------------------------------------------
Init ==
  /\ \/ tool = "julian_tool" /\ asked \in JulianLines \cup GregorianLines
     \/ tool = "sun_angle_tool" /\ asked \in SunLines
  /\ args = asked /\ step = 1 /\ got = << >> /\ outcome = ""
  /\ plan = IF tool = "sun_angle_tool" THEN "sun" ELSE ""

Refuse == outcome' = "refuses" /\ UNCHANGED << tool, asked, args, plan, step, got >>

Subcommand ==
  /\ outcome = "" /\ plan = ""
  /\ IF args # << >> /\ ~Dashed(Head(args)) /\ Head(args) \in DOMAIN Subcommands
     THEN plan' = Subcommands[Head(args)] /\ args' = Tail(args) /\ UNCHANGED << tool, asked, step, got, outcome >>
     ELSE Refuse

\* the first place of key in s, or 0
Place(s,key) == IF \E i \in DOMAIN s : s[i] = key THEN CHOOSE i \in DOMAIN s : s[i] = key /\ \A j \in 1..(i-1) : s[j] # key ELSE 0
Without(s,i,n) == SubSeq(s,1,i-1) \o SubSeq(s,i+n,Len(s))

Take ==
  /\ outcome = "" /\ plan # "" /\ step <= Len(Options[plan])
  /\ LET o == Options[plan][step]
         i == Place(args,o.key)
         Goes(v,rest) == got' = Append(got,v) /\ args' = rest /\ step' = step + 1 /\ UNCHANGED << tool, asked, plan, outcome >>
     IN CASE i = 0 /\ o.default = "" -> Refuse
          [] i = 0 /\ o.default # "" -> Goes(o.default,args)
          [] i # 0 /\ o.kind = "flag" -> Goes("on",Without(args,i,1))
          [] i # 0 /\ o.kind # "flag" ->
               IF i = Len(args) \/ ~ReadsAsKind(o.kind,args[i+1]) THEN Refuse
               ELSE Goes(args[i+1],Without(args,i,2))

\* A step that never reaches the last offset, and a time before the day begins,
\* are not asked for.
\* in halves
Reals == [ v \in { "0", "3", "11", "-7", "2.5", "-600", "600", "60" } |->
           CASE v = "0" -> 0 [] v = "3" -> 6 [] v = "11" -> 22 [] v = "-7" -> -14 [] v = "2.5" -> 5 [] v = "-600" -> -1200 [] v = "600" -> 1200 [] v = "60" -> 120 ]
Endless == plan = "sun" /\ got[13] = "on" /\ Reals[got[12]] <= 0 /\ Reals[got[10]] <= Reals[got[11]]
Untimely == plan = "sun" /\ 3600*Reals[got[4]] + 60*Reals[got[5]] + Reals[got[6]] < 0
DateRefused == plan # "julian" /\ NewResult(Whole(got[1]),Whole(got[2]),Whole(got[3])) # "ok"
Finish ==
  /\ outcome = "" /\ plan # "" /\ step > Len(Options[plan])
  /\ outcome' = IF (args # << >> /\ ~LeftoversAllowed(plan)) \/ DateRefused THEN "refuses"
                ELSE IF Endless \/ Untimely THEN "unasked" ELSE "prints"
  /\ UNCHANGED << tool, asked, args, plan, step, got >>

Next == Subcommand \/ Take \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
\* What the machine is meant to amount to, said without it.
Body == IF tool = "julian_tool" THEN Tail(asked) ELSE asked
\* A line of distinct options with readable values, in any order
Tidy ==
  LET n == Len(Body)
      os == Options[plan]
      flags == { i \in 1..n : Body[i] = "--scan" /\ plan = "sun" }
      b == IF flags = {} THEN Body ELSE Without(Body,CHOOSE i \in flags : TRUE,1)
      m == Len(b) \div 2
  IN /\ Cardinality(flags) <= 1 /\ \A i \in flags : i % 2 = 1      \* not inside a pair
     /\ Len(b) % 2 = 0
     /\ \A i \in 1..m : \E k \in DOMAIN os : os[k].key = b[2*i-1] /\ os[k].kind # "flag" /\ ReadsAsKind(os[k].kind,b[2*i])
     /\ \A i, j \in 1..m : i # j => b[2*i-1] # b[2*j-1]
     /\ \A k \in DOMAIN os : os[k].default = "" => \E i \in 1..m : b[2*i-1] = os[k].key
Meant(k) ==
  LET o == Options[plan][k] i == Place(Body,o.key)
  IN IF i = 0 THEN o.default ELSE IF o.kind = "flag" THEN "on" ELSE Body[i+1]

\* A tidy line is understood, whatever its order.  In any line that is, an
\* option left out has its default and another the token read after it, though
\* not always the next one: "--jd2 --jd 3 11" reads --jd and 3 first, which
\* leaves --jd2 before 11.
Understood ==
  /\ outcome = "prints" =>
       \A k \in DOMAIN got :
         LET o == Options[plan][k] i == Place(Body,o.key)
         IN IF i = 0 THEN got[k] = o.default
            ELSE IF o.kind = "flag" THEN got[k] = "on"
            ELSE \E j \in (i+1)..Len(Body) : Body[j] = got[k]
  /\ (outcome \in { "refuses", "prints", "unasked" } /\ plan # "" /\ Tidy) =>
       /\ Len(got) = Len(Options[plan]) /\ \A k \in DOMAIN got : got[k] = Meant(k)
       /\ outcome = "refuses" => DateRefused
\* Where nothing may be left over, every token was read.
  /\ (outcome = "prints" /\ ~LeftoversAllowed(plan)) =>
       Len(Body) = FoldFunction(+,0,[ k \in DOMAIN got |->
         LET o == Options[plan][k] IN IF Place(Body,o.key) = 0 THEN 0 ELSE IF o.kind = "flag" THEN 1 ELSE 2 ])
\* tokens are not invented
Accounted == plan # "" => Len(args) <= Len(Body)
\* every line is decided
Decided == <>(outcome # "")
==============================================================================
