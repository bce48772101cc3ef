------------------------------- MODULE Iau2000 --------------------------------
(***************************************************************************)
(* IAU 2000B precession-nutation, IERS 2003 fundamental arguments, IAU     *)
(* 2000 CIO locator, and the matrices between celestial and terrestrial    *)
(* axes that follow from them.  Coefficients are those published, in       *)
(* arcseconds and fractions of them; t is in Julian centuries from J2000.  *)
(***************************************************************************)
EXTENDS Vectors, Angles, NutationData, LocatorData

DJ00 == FxInt(2451545)
Centuries(a,b) == FxDivInt(FxSub(FxAdd(a,b),DJ00),36525)

Radians(arcsec) == FxDivInt(FxMul(arcsec,FPi),648000)
\* arcseconds, given by a polynomial, as radians within a turn
TurnOf(c,t) == FxMul(FTwoPi,FxModPos(FxDivInt(Poly(c,t),1296000),F1))

------------------------------------------------------------------------------
\* Fundamental arguments

LinearArgs == <<
  << FxDec("485868.249036"), FxDec("1717915923.2178") >>,
  << FxDec("1287104.79305"), FxDec("129596581.0481") >>,
  << FxDec("335779.526232"), FxDec("1739527262.8478") >>,
  << FxDec("1072260.70369"), FxDec("1602961601.2090") >>,
  << FxDec("450160.398036"), FxDec("-6962890.5431") >> >>
Delaunay == <<
  << FxDec("485868.249036"), FxDec("1717915923.2178"), FxDec("31.8792"), FxDec("0.051635"), FxDec("-0.00024470") >>,
  << FxDec("1287104.793048"), FxDec("129596581.0481"), FxDec("-0.5532"), FxDec("0.000136"), FxDec("-0.00001149") >>,
  << FxDec("335779.526232"), FxDec("1739527262.8478"), FxDec("-12.7512"), FxDec("-0.001037"), FxDec("0.00000417") >>,
  << FxDec("1072260.703692"), FxDec("1602961601.2090"), FxDec("-6.3706"), FxDec("0.006593"), FxDec("-0.00003169") >>,
  << FxDec("450160.398036"), FxDec("-6962890.5431"), FxDec("7.4722"), FxDec("0.007702"), FxDec("-0.00005939") >> >>
Planetary == <<
  << FxDec("3.176146697"), FxDec("1021.3285546211") >>,
  << FxDec("1.753470314"), FxDec("628.3075849991") >>,
  << F0, FxDec("0.024381750"), FxDec("0.00000538691") >> >>

\* l, l', F, D, Om, Venus, Earth, accumulated precession
FundArgs(t) == [ i \in 1..8 |-> IF i <= 5 THEN TurnOf(Delaunay[i],t) ELSE Poly(Planetary[i-5],t) ]

------------------------------------------------------------------------------
\* Sums of periodic terms

RECURSIVE Combine(_,_,_)          \* integer combination of arguments
Combine(mult,args,i) ==
  IF i = 0 THEN F0
  ELSE IF mult[i] = 0 THEN Combine(mult,args,i-1)
  ELSE FxAdd(FxMulInt(args[i],mult[i]),Combine(mult,args,i-1))

NutTerm(term,args,t) ==
  LET sc == FxSinCos(Combine(term[1],args,5))
      c == term[2]
      A(i) == FxAdd(FxInt(c[i]),FxMulInt(t,c[i+1]))
  IN << FxAdd(FxMul(A(1),sc[1]),FxMulInt(sc[2],c[3])),
        FxAdd(FxMul(A(4),sc[2]),FxMulInt(sc[1],c[6])) >>
RECURSIVE NutSum(_,_,_,_)
NutSum(i,args,t,acc) ==
  IF i = 0 THEN acc
  ELSE LET w == NutTerm(NutationTerms[i],args,t)
       IN NutSum(i-1,args,t,<< FxAdd(acc[1],w[1]), FxAdd(acc[2],w[2]) >>)

\* << dpsi, deps >>; the planetary part is fixed: -0.135 and 0.388 mas
NutUnit(x) == FxDiv(FxMul(x,FPi),FxDec("6480000000000"))
NutationOf(t) ==
  LET args == [ i \in 1..5 |-> TurnOf(LinearArgs[i],t) ]
      s == NutSum(Len(NutationTerms),args,t,<< FxInt(-1350), FxInt(3880) >>)
  IN << NutUnit(s[1]), NutUnit(s[2]) >>

PrecessionRate(t) == << Radians(FxMul(FxDec("-0.29965"),t)), Radians(FxMul(FxDec("-0.02524"),t)) >>
Obliquity80 == << FxDec("84381.448"), FxDec("-46.8150"), FxDec("-0.00059"), FxDec("0.001813") >>
MeanObliquity(t) == Radians(Poly(Obliquity80,t))
BiasPsi == Radians(FxDec("-0.041775"))
BiasEps == Radians(FxDec("-0.0068192"))
BiasRa  == Radians(FxDec("-0.0146"))
Eps0 == Radians(FxDec("84381.448"))

------------------------------------------------------------------------------
\* Rotation sequences

BiasMatrix == Compose(Compose(RX(FxNeg(BiasEps)),RY(FxMul(BiasPsi,FxSin(Eps0)))),RZ(BiasRa))

PsiA77 == << F0, FxDec("5038.7784"), FxDec("-1.07259"), FxDec("-0.001147") >>
OmegaA77 == << F0, F0, FxDec("0.05127"), FxDec("-0.007726") >>
ChiA == << F0, FxDec("10.5526"), FxDec("-2.38064"), FxDec("-0.001125") >>
PrecessionMatrix(t) ==
  LET pr == PrecessionRate(t)
      psi == FxAdd(Radians(Poly(PsiA77,t)),pr[1])
      om == FxAdd(FxAdd(Eps0,Radians(Poly(OmegaA77,t))),pr[2])
      chi == Radians(Poly(ChiA,t))
  IN Compose(Compose(RZ(chi),RX(FxNeg(om))),Compose(RZ(FxNeg(psi)),RX(Eps0)))

NutationMatrix(eps,dpsi,deps) ==
  Compose(Compose(RX(FxNeg(FxAdd(eps,deps))),RZ(FxNeg(dpsi))),RX(eps))

TrueObliquityBase(t) == FxAdd(MeanObliquity(t),PrecessionRate(t)[2])

\* bias, precession, bias-precession, nutation, all
PnMatrices(t,dpsi,deps) ==
  LET rp == PrecessionMatrix(t)
      rbp == Compose(rp,BiasMatrix)
      rn == NutationMatrix(TrueObliquityBase(t),dpsi,deps)
  IN << BiasMatrix, rp, rbp, rn, Compose(rn,rbp) >>

PrecessionNutation(t) == LET n == NutationOf(t) IN PnMatrices(t,n[1],n[2])[5]

------------------------------------------------------------------------------
\* CIO locator

LocTerm(term,args) ==
  LET sc == FxSinCos(Combine(term[1],args,8))
  IN FxAdd(FxMulInt(sc[1],term[2]),FxMulInt(sc[2],term[3]))
RECURSIVE LocSum(_,_,_,_)
LocSum(terms,i,args,acc) ==
  IF i = 0 THEN acc ELSE LocSum(terms,i-1,args,FxAdd(acc,LocTerm(terms[i],args)))
\* s + XY/2 in hundredths of a microarcsecond is a polynomial with these
\* constant parts and periodic parts
LocPoly == << 9400, 380835, -11994, -7257409, 2770, 1561 >>
LocSeries == << LocatorTerms0, LocatorTerms1, LocatorTerms2, LocatorTerms3, LocatorTerms4, << >> >>
Locator(t,x,y) ==
  LET args == FundArgs(t)
      w == [ k \in 1..6 |-> LocSum(LocSeries[k],Len(LocSeries[k]),args,FxInt(LocPoly[k])) ]
  IN FxSub(FxDiv(FxMul(Poly(w,t),FPi),FxDec("64800000000000")),FxDivInt(FxMul(x,y),2))

------------------------------------------------------------------------------
\* Celestial to intermediate, to terrestrial

\* Rotations about z by e and about y by d taking the z axis to the pole
\* (X,Y); no direction is defined when the pole is the z axis itself.
IntermediateXYS(x,y,s) ==
  LET u == FxMul(x,Lift) v == FxMul(y,Lift)
      rl == FxSqrt(FxAdd(FxSq(u),FxSq(v)))
      r == FxDiv(rl,Lift)
      sc == IF rl = F0 THEN << F0, F1 >> ELSE << FxDiv(v,rl), FxDiv(u,rl) >>
      cd == FxSqrt(FxSub(F1,FxSq(r)))
      ss == FxSinCos(s)
      \* sine and cosine of -(e+s)
      se == << FxNeg(FxAdd(FxMul(sc[1],ss[2]),FxMul(sc[2],ss[1]))),
               FxSub(FxMul(sc[2],ss[2]),FxMul(sc[1],ss[1])) >>
  IN Compose(Compose(RotSC(3,se),RotSC(2,<< r, cd >>)),RotSC(3,sc))

IntermediateXY(t,x,y) == IntermediateXYS(x,y,Locator(t,x,y))
IntermediateBpn(t,bpn) == IntermediateXY(t,bpn[3][1],bpn[3][2])
Intermediate(t) == IntermediateBpn(t,PrecessionNutation(t))

PolarMotion(xp,yp,sp) == Compose(Compose(RX(FxNeg(yp)),RY(FxNeg(xp))),RZ(sp))
TerrestrialOf(c2i,era,pom) == Compose(pom,Compose(RZ(era),c2i))
\* t: TT in centuries; (ua,ub): UT1
Terrestrial(t,ua,ub,xp,yp) ==
  TerrestrialOf(Intermediate(t),EraOf(ua,ub),PolarMotion(xp,yp,F0))
==============================================================================
