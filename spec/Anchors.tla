------------------------------- MODULE Anchors --------------------------------
(***************************************************************************)
(* The specification itself against values published with the SOFA         *)
(* library's test programme and elsewhere, to show that it specifies the   *)
(* published models and was transcribed correctly.  Each state is one      *)
(* comparison.                                                             *)
(***************************************************************************)
EXTENDS SunAngle, TLC

M == FxDec("2400000.5")
D(s) == FxDec(s)
V(x,y,z) == << D(x), D(y), D(z) >>
N(x,v,tol) == FxNear(x,D(v),D(tol))
T(d) == Centuries(M,D(d))

VARIABLE k
Cases == <<
  \* calendar
  DayNumber(1858,11,17) = 0, DayNumber(2000,1,1) = 51544, DayNumber(2003,6,1) = 52791, DayNumber(-4799,1,1) = -2431739,
  ReadsAs(M,D("50123.9999"),1996,2,10,D("0.9999"),D("1E-12")),
  \* TAI-UTC
  TaiUtc(InForce(2003,6),2003,6,1,F0) = FxInt(32), TaiUtc(InForce(2008,1),2008,1,17,F0) = FxInt(33),
  TaiUtc(InForce(2017,9),2017,9,1,F0) = FxInt(37), N(TaiUtc(InForce(1965,3),1965,3,1,F0),"3.716594","1E-12"),
  N(TaiUtc(InForce(1968,2),1968,2,1,F0),"6.185682","1E-12"),
  \* Earth rotation angle, fundamental arguments, obliquity
  N(EraOf(M,FxInt(54388)),"0.4022837240028158102","1E-12"),
  LET a == FundArgs(D("0.8")) IN
    /\ N(a[1],"5.132369751108684150","1E-12") /\ N(a[2],"6.226797973505507345","1E-12")
    /\ N(a[3],"0.2597711366745499518","1E-12") /\ N(a[4],"1.946709205396925672","1E-12")
    /\ FxNear(a[5],FxAdd(D("-5.973618440951302183"),FTwoPi),D("1E-12"))
    /\ N(FxModPos(a[6],FTwoPi),"3.424900460533758000","1E-12") /\ N(FxModPos(a[7],FTwoPi),"1.744713738913081846","1E-12") /\ N(a[8],"0.01950884762240000000","1E-14"),
  N(MeanObliquity(T("54388")),"0.4090751347643816218","1E-14"),
  \* nutation, precession
  LET n == NutationOf(T("53736")) IN N(n[1],"-0.9632552291148362783E-5","1E-15") /\ N(n[2],"0.4063197106621159367E-4","1E-15"),
  LET p == PrecessionRate(T("53736")) IN N(p[1],"-0.8716465172668347629E-7","1E-20") /\ N(p[2],"-0.7342018386722813087E-8","1E-20"),
  N(BiasPsi,"-0.2025309152835086613E-6","1E-20") /\ N(BiasEps,"-0.3306041454222147847E-7","1E-20") /\ N(BiasRa,"-0.7078279744199225506E-7","1E-20"),
  LET m == PrecessionNutation(T("53736")) IN
    /\ N(m[1][1],"0.9999989440499982806","1E-12") /\ N(m[3][1],"0.5791301929950208873E-3","1E-14") /\ N(m[3][2],"0.4020553681373720832E-4","1E-14"),
  \* locator and frames
  N(Locator(T("53736"),D("0.5791308486706011000E-3"),D("0.4020579816732961219E-4")),"-0.1220036263270905693E-7","1E-18"),
  LET m == Intermediate(T("53736")) IN
    /\ N(m[1][1],"0.9999998323040954356","1E-12") /\ N(m[1][2],"0.5581526349131823372E-9","1E-14") /\ N(m[1][3],"-0.5791301934855394005E-3","1E-14")
    /\ N(m[2][1],"-0.2384239285499175543E-7","1E-14") /\ N(m[2][3],"-0.4020552974819030066E-4","1E-14"),
  LET m == PolarMotion(D("2.55060238E-7"),D("1.860359247E-6"),D("-0.1367174580728891460E-10")) IN
    /\ N(m[1][2],"-0.1367174580728846989E-10","1E-16") /\ N(m[1][3],"0.2550602379999972345E-6","1E-16") /\ N(m[2][3],"-0.1860359246998866389E-5","1E-16"),
  LET m == Terrestrial(T("53736"),M,FxInt(53736),D("2.55060238E-7"),D("1.860359247E-6")) IN
    /\ N(m[1][1],"-0.1810332128439678965","1E-12") /\ N(m[1][2],"0.9834769806913872359","1E-12") /\ N(m[1][3],"0.6555565082458415611E-4","1E-12")
    /\ N(m[2][1],"-0.9834768134115435923","1E-12") /\ N(m[3][1],"0.5773467471863534901E-3","1E-12"),
  \* Earth
  LET e == Earth(YearsOf(M,D("53411.52501161"))) IN
    /\ VecNear(e[1][1],V("-0.7757238809297706813","0.5598052241363340596","0.2426998466481686993"),D("1E-14"))
    /\ VecNear(e[1][2],V("-0.1091891824147313846E-1","-0.1247187268440845008E-1","-0.5407569418065039061E-2"),D("1E-15"))
    /\ VecNear(e[2][1],V("-0.7714104440491111971","0.5598412061824171323","0.2425996277722452400"),D("1E-14"))
    /\ VecNear(e[2][2],V("-0.1091874268116823295E-1","-0.1246525461732861538E-1","-0.5404773180966231279E-2"),D("1E-15")),
  \* geodesy
  VecNear(Forward(FxInt(6378136),D("0.0033528"),D("3.1"),D("-0.5"),FxInt(2500))[1],
          V("-5598999.6665116328","233011.6351463057189","-3040909.0517314132"),D("1E-7")),
  InverseOK(FxInt(6378136),D("0.0033528"),V("2E6","3E6","5.244E6"),D("0.9827937232473290680"),D("0.97160183775704115"),D("332.36862495764397"))
>>
Init == k = 0
Next == k < Len(Cases) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Published == k = 0 \/ Cases[k]
==============================================================================
