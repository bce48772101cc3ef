#!/usr/bin/env python3
"""Writes the series of the specification (spec/EphemerisData.tla,
spec/NutationData.tla, spec/LocatorData.tla).

The ephemeris comes from the published Fortran routine (fortran/epv00.for),
not from the Rust tables.  The nutation and CIO-locator series were
transcribed once from the Rust text and compared by eye with the IAU 2000B and
IAU 2000 publications; what is committed is the specification, and this script
is not run by the checks."""
import re, sys
from fractions import Fraction
repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
out = sys.argv[2] if len(sys.argv) > 2 else '/verif/spec'

def head(f, name, text, ext):
    f.write('-' * 30 + f' MODULE {name} ' + '-' * 30 + '\n')
    for l in text.split('\n'):
        f.write(f'\\* {l}\n')
    f.write(f'EXTENDS {ext}\n\n')

# --- ephemeris ---------------------------------------------------------------
txt = open(f'{repo}/fortran/epv00.for').read()
size = {'NE0': [501, 501, 137], 'NE1': [79, 80, 12], 'NE2': [5, 5, 3],
        'NS0': [212, 213, 69], 'NS1': [50, 50, 14], 'NS2': [9, 9, 2]}
tab = {}
for m in re.finditer(r'DATA \(\((\w\d)\(I,J,(\d)\),I=1,3\),J=\s*(\d+),\s*(\w+)\)\s*/(.*?)/', txt, re.S):
    n, k, j0, j1, body = m.groups()
    k, j0 = int(k), int(j0)
    nums = re.findall(r'[-+]?\d*\.\d+D[-+]\d+', body)
    j1 = int(j1) if j1.isdigit() else size[j1[:3]][k-1]
    assert len(nums) == 3*(j1 - j0 + 1)
    for q in range(len(nums)//3):
        tab[n, k, j0 + q] = [x.replace('D', 'E') for x in nums[3*q:3*q+3]]
with open(f'{out}/EphemerisData.tla', 'w') as f:
    head(f, 'EphemerisData', 'Simplified solution from the planetary theory VSOP2000 and the lunar theory\n'
         'ELP2000, as published in SOFA epv00 (generated by tools/gen_tables.py from\n'
         'fortran/epv00.for).  Each row is << amplitude [AU], phase [rad], frequency\n'
         '[rad/year] >> of the term amplitude*T^n*cos(phase + frequency*T), T in Julian\n'
         'years from J2000.  E: Sun to Earth, S: barycentre to Sun; index: power of T,\n'
         'then coordinate (ecliptic).', 'Fx')
    f.write('T3(a,b,c) == << FxDec(a), FxDec(b), FxDec(c) >>\n\n')
    for n in ['E0', 'E1', 'E2', 'S0', 'S1', 'S2']:
        for k in (1, 2, 3):
            rows = sorted(j for (a, b, j) in tab if a == n and b == k)
            assert rows == list(range(1, size['N' + n][k-1] + 1)), (n, k)
            f.write(f'{n}{"XYZ"[k-1]} == <<\n')
            f.write(',\n'.join('  T3(' + ','.join(f'"{v}"' for v in tab[n, k, j]) + ')' for j in rows))
            f.write(' >>\n\n')
    f.write('=' * 78 + '\n')

# --- nutation ----------------------------------------------------------------
txt = open(f'{repo}/crates/tofas/src/frames.rs').read()
def rows(txt, name):
    b = re.search(r'const %s\s*:[^=]*=\s*&?\[(.*?)\n\];' % name, txt, re.S).group(1)
    return [[x.strip() for x in m.split(',') if x.strip()] for m in re.findall(r'\[([^\[\]]*)\]', b)]
nals, cls = rows(txt, 'NALS'), rows(txt, 'CLS')
assert len(nals) == len(cls) == 77
with open(f'{out}/NutationData.tla', 'w') as f:
    head(f, 'NutationData', 'IAU 2000B luni-solar nutation: << multiples of l, l\', F, D, Om >> and\n'
         '<< dpsi sin, t sin, cos, deps cos, t cos, sin >> in 0.1 microarcseconds.', 'Integers')
    f.write('NutationTerms == <<\n')
    f.write(',\n'.join('  << << %s >>, << %s >> >>' % (', '.join(a), ', '.join(str(int(float(x))) for x in c)) for a, c in zip(nals, cls)))
    f.write(' >>\n\n' + '=' * 78 + '\n')

# --- locator -----------------------------------------------------------------
txt = open(f'{repo}/crates/tofas/src/locator.rs').read()
with open(f'{out}/LocatorData.tla', 'w') as f:
    head(f, 'LocatorData', 'CIO locator s + XY/2, IAU 2000: for each power of t, << multiples of l, l\', F,\n'
         'D, Om, Venus, Earth, accumulated precession >>, sine and cosine coefficient in\n'
         'hundredths of a microarcsecond.', 'Integers')
    for k in range(5):
        ks = [[x for x in re.sub(r'\s', '', ','.join(r)).split(',')] for r in rows(txt, f'KS{k}')]
        ss = rows(txt, f'SS{k}')
        assert len(ks) == len(ss) == [33, 3, 25, 4, 1][k]
        def h(x):
            v = Fraction(x.replace('e-6', ''))*100
            assert v.denominator == 1
            return str(v.numerator)
        f.write(f'LocatorTerms{k} == <<\n')
        f.write(',\n'.join('  << << %s >>, %s, %s >>' % (', '.join(a), h(c[0]), h(c[1])) for a, c in zip(ks, ss)))
        f.write(' >>\n\n')
    f.write('=' * 78 + '\n')
