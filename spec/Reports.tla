-------------------------------- MODULE Reports --------------------------------
(***************************************************************************)
(* The text of a sun-angle report: fourteen labelled lines showing the     *)
(* parameters and the result.                                              *)
(***************************************************************************)
EXTENDS Text

Labels == <<
  "Date:                ", "Time:                ", "Julian date:         ", "Position:            ",
  "                     ", "UTC:                 ", "Delta AT:            ", "TAI:                 ",
  "TT:                  ", "UT1:                 ", "ERA:                 ", "Earth position (AU): ",
  "Sun position (m):    ", "Sun Zenith angle:    " >>
ReportLength == Len(Labels)

\* All numbers of t are those of vs, printed with the decimals decs; slacks
\* allow for the rounding of a value computed for printing.
ShowsAll(t,vs,decs,slack) ==
  LET ns == NumbersFrom(t,1)
  IN /\ Len(ns) = Len(vs)
     /\ \A i \in 1..Len(vs) : Shows(ns[i],vs[i],decs[i],slack)

Total(x) == FxAdd(x[1],x[2])
JdSlack == FxPow2(-29)             \* of the sum of the parts of a date
DegreesOf(x) == FxDiv(FxMulInt(x,180),FPi)
Six == << 6,6,6 >>

\* q: parameters (y,m,d,hh,mm,s,lat,lon,height); r: result
IsReport(ls,q,r) ==
  /\ Len(ls) = ReportLength
  /\ \A i \in 1..ReportLength : StartsWith(ls[i],Labels[i])
  /\ LET T(i) == Rest(ls[i],Labels[i])
         sza == DegreesOf(r.sza)
         hms == SubSeq(T(2),1,15)
     IN /\ T(1) = DateText(q.y,q.m,q.d)
        /\ Len(T(2)) > 16 /\ IsTimeText(hms,q.hh,q.mm,q.s)
        /\ ShowsAll(SubSeq(T(2),16,Len(T(2))),<< r.delta >>,Six,F0)
        /\ ShowsAll(T(3),<< FxAdd(r.jd0,r.jd1), r.jd0, r.jd1 >>,Six,JdSlack)
        /\ IsPositionText(T(4),q.lat,q.lon,q.height)
        /\ ShowsAll(T(5),r.p,<< 1,1,1 >>,F0)
        /\ ShowsAll(T(6),<< Total(r.utc) >>,Six,JdSlack)
        /\ ShowsAll(T(7),<< r.dat >>,Six,F0)
        /\ ShowsAll(T(8),<< Total(r.tai) >>,Six,JdSlack)
        /\ ShowsAll(T(9),<< Total(r.tt) >>,Six,JdSlack)
        /\ ShowsAll(T(10),<< Total(r.ut1) >>,Six,JdSlack)
        /\ ShowsAll(T(11),<< DegreesOf(r.era) >>,Six,FxDec("1E-12"))
        /\ ShowsAll(T(12),r.earth,<< 13,13,13 >>,F0)
        /\ ShowsAll(T(13),r.sun,<< 0,0,0 >>,F0)
        /\ ShowsAll(T(14),<< sza, FxSub(FxInt(90),sza) >>,<< 2,2 >>,FxDec("1E-12"))
==============================================================================
