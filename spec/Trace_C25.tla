------------------------------- MODULE Trace_C25 -------------------------------
(* The command-line tools. *)
EXTENDS Reports, Gregorian, TimeOfDay, TraceLib

Starts(ls,p) == { i \in 1..Len(ls) : StartsWith(ls[i],p) }
GD == "Gregorian date: "
TM == "Time: "
JD == "Julian date: "
FD == "Fraction of day: "

GregorianTool(e) ==
  IF NewResult(e.y,e.m,e.d) # "ok" THEN e.status # 0 /\ e.out = << >>
  ELSE /\ e.status = 0
       /\ Len(e.out) = 4
       /\ e.out[1] = GD \o DateText(e.y,e.m,e.d)
       /\ StartsWith(e.out[2],TM) /\ IsTimeText(Rest(e.out[2],TM),e.hh,e.mm,e.s)
       /\ LET f == FractionOf(e.hh,e.mm,e.s)
              j == Instant(e.y,e.m,e.d,f)
          IN /\ StartsWith(e.out[3],JD) /\ Shows(Rest(e.out[3],JD),j,6,FxMulInt(FxUlp(FxInt(4000000)),2))
             /\ StartsWith(e.out[4],FD) /\ Shows(Rest(e.out[4],FD),f,6,FxDec("1E-15"))

\* Reads as the printed date, fraction and time, for some date near the one
\* the Julian date denotes
DateFields(t) ==
  LET n == Len(t)
  IN IF n < 10 \/ ~IsNumber(SubSeq(t,n-4,n-3)) \/ ~IsNumber(SubSeq(t,n-1,n)) \/ ~IsNumber(SubSeq(t,1,n-6))
     THEN << 0,0,0 >>
     ELSE << FxFloorInt(FxDec(SubSeq(t,1,n-6))), FxFloorInt(FxDec(SubSeq(t,n-4,n-3))), FxFloorInt(FxDec(SubSeq(t,n-1,n))) >>

TimeReads(t,f) ==
  /\ Len(t) = 15 /\ Ch(t,3) = ":" /\ Ch(t,6) = ":"
  /\ IsNumber(SubSeq(t,1,2)) /\ IsNumber(SubSeq(t,4,5)) /\ IsNumber(SubSeq(t,7,15)) /\ Decimals(SubSeq(t,7,15)) = 6
  /\ FxNear(FractionOf(FxFloorInt(FxDec(SubSeq(t,1,2))),FxFloorInt(FxDec(SubSeq(t,4,5))),FxDec(SubSeq(t,7,15))),
            f,FxDivInt(FxDec("0.5001E-6"),86400))

JulianTool(e) ==
  LET Refused == e.status # 0 /\ Starts(e.out,GD) = {} /\ Starts(e.out,FD) = {} /\ Starts(e.out,TM) = {}
  IN IF e.extra THEN Refused /\ e.out = << >>
     ELSE IF SurelyOutside(e.a,e.b) THEN Refused
     ELSE \/ Refused /\ ~SurelyInside(e.a,e.b)
          \/ /\ e.status = 0
             /\ Len(e.out) = 4
             /\ StartsWith(e.out[1],JD)
             /\ ShowsAll(Rest(e.out[1],JD),<< FxAdd(e.a,e.b) >>,<< 14 >>,FxUlp(FxAdd(e.a,e.b)))
             /\ StartsWith(e.out[2],GD)
             /\ StartsWith(e.out[3],FD) /\ IsNumber(Rest(e.out[3],FD))
             /\ StartsWith(e.out[4],TM)
             /\ LET d == DateFields(Rest(e.out[2],GD))
                    f == FxDec(Rest(e.out[3],FD))
                IN /\ Rest(e.out[2],GD) = DateText(d[1],d[2],d[3])
                   /\ ReadsAs(e.a,e.b,d[1],d[2],d[3],f,FxAdd(SplitTol(e.a,e.b),FxPow2(-52)))
                   /\ TimeReads(Rest(e.out[4],TM),f)

\* Offsets d0, d0 + step... up to d1; the first only without scan
NReports(e) == IF FxLt(e.d1,e.d0) THEN 0
               ELSE IF ~e.scan THEN 1
               ELSE FxFloorInt(FxDiv(FxSub(e.d1,e.d0),e.step)) + 1
SunTool(e) ==
  IF e.extra \/ NewResult(e.y,e.m,e.d) # "ok" THEN e.status # 0 /\ e.out = << >>
  ELSE LET n == NReports(e)
           head == IF e.scan THEN 1 ELSE 0
           per == ReportLength + head
       IN /\ e.status = 0
          /\ Len(e.out) = head + n*per
          /\ e.scan => ShowsAll(e.out[1],<< e.d0, e.d1, e.step >>,Six,F0)
          /\ Len(e.reports) = n
          /\ \A k \in 1..n :
               LET r == e.reports[k]
                   i == head + (k-1)*per
               IN /\ r.delta = FxAdd(e.d0,FxMulInt(e.step,k-1))
                  /\ e.scan => e.out[i+1] = ""
                  /\ IsReport(SubSeq(e.out,i+head+1,i+per),e,r)

EventOK(e) ==
  CASE e.op = "tool_gregorian" -> GregorianTool(e)
    [] e.op = "tool_julian"    -> JulianTool(e)
    [] e.op = "tool_unknown"   -> e.status # 0 /\ e.out = << >>
    [] e.op = "tool_sun"       -> SunTool(e)
    [] e.op = "bundle"         -> e.res = "ok" /\ IsReport(e.out,e,e)
Conforms == line = 0 \/ EventOK(Trace[line])
==============================================================================
