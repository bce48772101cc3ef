------------------------------ MODULE LocatorData ------------------------------
\* CIO locator s + XY/2, IAU 2000: for each power of t, << multiples of l, l', F,
\* D, Om, Venus, Earth, accumulated precession >>, sine and cosine coefficient in
\* hundredths of a microarcsecond.
EXTENDS Integers

LocatorTerms0 == <<
  << << 0, 0, 0, 0, 1, 0, 0, 0 >>, -264073, 39 >>,
  << << 0, 0, 0, 0, 2, 0, 0, 0 >>, -6353, 2 >>,
  << << 0, 0, 2, -2, 3, 0, 0, 0 >>, -1175, -1 >>,
  << << 0, 0, 2, -2, 1, 0, 0, 0 >>, -1121, -1 >>,
  << << 0, 0, 2, -2, 2, 0, 0, 0 >>, 457, 0 >>,
  << << 0, 0, 2, 0, 3, 0, 0, 0 >>, -202, 0 >>,
  << << 0, 0, 2, 0, 1, 0, 0, 0 >>, -198, 0 >>,
  << << 0, 0, 0, 0, 3, 0, 0, 0 >>, 172, 0 >>,
  << << 0, 1, 0, 0, 1, 0, 0, 0 >>, 141, 1 >>,
  << << 0, 1, 0, 0, -1, 0, 0, 0 >>, 126, 1 >>,
  << << 1, 0, 0, 0, -1, 0, 0, 0 >>, 63, 0 >>,
  << << 1, 0, 0, 0, 1, 0, 0, 0 >>, 63, 0 >>,
  << << 0, 1, 2, -2, 3, 0, 0, 0 >>, -46, 0 >>,
  << << 0, 1, 2, -2, 1, 0, 0, 0 >>, -45, 0 >>,
  << << 0, 0, 4, -4, 4, 0, 0, 0 >>, -36, 0 >>,
  << << 0, 0, 1, -1, 1, -8, 12, 0 >>, 24, 12 >>,
  << << 0, 0, 2, 0, 0, 0, 0, 0 >>, -32, 0 >>,
  << << 0, 0, 2, 0, 2, 0, 0, 0 >>, -28, 0 >>,
  << << 1, 0, 2, 0, 3, 0, 0, 0 >>, -27, 0 >>,
  << << 1, 0, 2, 0, 1, 0, 0, 0 >>, -26, 0 >>,
  << << 0, 0, 2, -2, 0, 0, 0, 0 >>, 21, 0 >>,
  << << 0, 1, -2, 2, -3, 0, 0, 0 >>, -19, 0 >>,
  << << 0, 1, -2, 2, -1, 0, 0, 0 >>, -18, 0 >>,
  << << 0, 0, 0, 0, 0, 8, -13, -1 >>, 10, -5 >>,
  << << 0, 0, 0, 2, 0, 0, 0, 0 >>, -15, 0 >>,
  << << 2, 0, -2, 0, -1, 0, 0, 0 >>, 14, 0 >>,
  << << 0, 1, 2, -2, 2, 0, 0, 0 >>, 14, 0 >>,
  << << 1, 0, 0, -2, 1, 0, 0, 0 >>, -14, 0 >>,
  << << 1, 0, 0, -2, -1, 0, 0, 0 >>, -14, 0 >>,
  << << 0, 0, 4, -2, 4, 0, 0, 0 >>, -13, 0 >>,
  << << 0, 0, 2, -2, 4, 0, 0, 0 >>, 11, 0 >>,
  << << 1, 0, -2, 0, -3, 0, 0, 0 >>, -11, 0 >>,
  << << 1, 0, -2, 0, -1, 0, 0, 0 >>, -11, 0 >> >>

LocatorTerms1 == <<
  << << 0, 0, 0, 0, 2, 0, 0, 0 >>, -7, 357 >>,
  << << 0, 0, 0, 0, 1, 0, 0, 0 >>, 171, -3 >>,
  << << 0, 0, 2, -2, 3, 0, 0, 0 >>, 0, 48 >> >>

LocatorTerms2 == <<
  << << 0, 0, 0, 0, 1, 0, 0, 0 >>, 74353, -17 >>,
  << << 0, 0, 2, -2, 2, 0, 0, 0 >>, 5691, 6 >>,
  << << 0, 0, 2, 0, 2, 0, 0, 0 >>, 984, -1 >>,
  << << 0, 0, 0, 0, 2, 0, 0, 0 >>, -885, 1 >>,
  << << 0, 1, 0, 0, 0, 0, 0, 0 >>, -638, -5 >>,
  << << 1, 0, 0, 0, 0, 0, 0, 0 >>, -307, 0 >>,
  << << 0, 1, 2, -2, 2, 0, 0, 0 >>, 223, 0 >>,
  << << 0, 0, 2, 0, 1, 0, 0, 0 >>, 167, 0 >>,
  << << 1, 0, 2, 0, 2, 0, 0, 0 >>, 130, 0 >>,
  << << 0, 1, -2, 2, -2, 0, 0, 0 >>, 93, 0 >>,
  << << 1, 0, 0, -2, 0, 0, 0, 0 >>, 68, 0 >>,
  << << 0, 0, 2, -2, 1, 0, 0, 0 >>, -55, 0 >>,
  << << 1, 0, -2, 0, -2, 0, 0, 0 >>, 53, 0 >>,
  << << 0, 0, 0, 2, 0, 0, 0, 0 >>, -27, 0 >>,
  << << 1, 0, 0, 0, 1, 0, 0, 0 >>, -27, 0 >>,
  << << 1, 0, -2, -2, -2, 0, 0, 0 >>, -26, 0 >>,
  << << 1, 0, 0, 0, -1, 0, 0, 0 >>, -25, 0 >>,
  << << 1, 0, 2, 0, 1, 0, 0, 0 >>, 22, 0 >>,
  << << 2, 0, 0, -2, 0, 0, 0, 0 >>, -21, 0 >>,
  << << 2, 0, -2, 0, -1, 0, 0, 0 >>, 20, 0 >>,
  << << 0, 0, 2, 2, 2, 0, 0, 0 >>, 17, 0 >>,
  << << 2, 0, 2, 0, 2, 0, 0, 0 >>, 13, 0 >>,
  << << 2, 0, 0, 0, 0, 0, 0, 0 >>, -13, 0 >>,
  << << 1, 0, 2, -2, 2, 0, 0, 0 >>, -12, 0 >>,
  << << 0, 0, 2, 0, 0, 0, 0, 0 >>, -11, 0 >> >>

LocatorTerms3 == <<
  << << 0, 0, 0, 0, 1, 0, 0, 0 >>, 30, -2351 >>,
  << << 0, 0, 2, -2, 2, 0, 0, 0 >>, -3, -139 >>,
  << << 0, 0, 2, 0, 2, 0, 0, 0 >>, -1, -24 >>,
  << << 0, 0, 0, 0, 2, 0, 0, 0 >>, 0, 22 >> >>

LocatorTerms4 == <<
  << << 0, 0, 0, 0, 1, 0, 0, 0 >>, -26, -1 >> >>

==============================================================================
