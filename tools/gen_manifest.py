#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'trace': 'TLA+ specification; TLC trace validation of recorded calls',
 'replay': 'TLA+ specification model-checked with TLC; TLC state graph replayed on the library; TLC trace validation of recorded calls',
 'session': 'TLA+ state machines of the calculator and its requests; sessions generated from the TLC state graph; TLC trace validation of recorded sessions',
 'purity': 'TLA+ model checking of call histories; TLC-generated histories replayed on the library; TLC trace validation of recorded calls',
}
N = {
 'C01': ('replay', 'The odometer specification is checked exhaustively over a 400-year cycle and every month from -4800 to 12000, and replayed day by day (with shifts by 400-year cycles up to the last 32-bit year) on the library; random and boundary triples of 32-bit integers are validated as a trace.'),
 'C02': ('replay', 'As C01: every day of 16800 years, and sampled cycles up to year 2147483647, exact.'),
 'C03': ('replay', 'Every day of 16800 years in six splits exactly, plus boundary and random splits validated to the rounding of the smaller part.'),
 'C04': ('replay', 'The clock is stepped through every second of a day and replayed on and between the seconds. Sampled and boundary fractions and times; exact real arithmetic in the specification.'),
 'C05': ('replay', 'The clock is stepped through every second of a day and replayed on six dates. Sampled and boundary dates; exact real arithmetic in the specification.'),
 'C06': ('replay', 'The clock display is replayed for every second of a day. Decimal rendering is specified on the exact value of each field; sampled and boundary values.'),
 'C07': ('replay', 'The published table is model-checked as a clock over 70 years of days; the civil clock built on it is replayed on the library at five instants of every day from 1960 to 2029, whose difference between atomic and civil seconds the library must state; every month and boundary, and sampled dates, are validated as a trace.'),
 'C08': ('replay', 'Words of up to eight conversions between the scales, with 90 choices of offsets, are model-checked for path independence and replayed on the library. Sampled and boundary dates, offsets and splits.'),
 'C09': ('replay', 'An angle carried round by minutes of arc over six turns and the Earth turning day by day for 400 years are state machines, model-checked and replayed on the library in many splits and orders. Sampled and boundary angles and dates.'),
 'C10': ('replay', 'Words of up to four quarter turns replayed exactly; sampled matrices, vectors and angles.'),
 'C11': ('replay', 'Pairs of vectors with small whole components are model-checked against the laws of Euclid and replayed on the library at every scale, exactly where arithmetic is exact. Sampled vectors including parallel, opposite and nearly parallel ones.'),
 'C12': ('trace', 'The whole series is recomputed by TLC in 75-bit fixed point for every sampled date and split.'),
 'C13': ('trace', 'Rotation sequences recomputed by TLC for every sampled date, split and correction.'),
 'C14': ('trace', 'The whole series is recomputed by TLC for every sampled argument.'),
 'C15': ('trace', 'Matrices recomputed by TLC for every sampled date, pole and angle.'),
 'C16': ('trace', 'Every term of the published tables is summed by TLC for every sampled date; tables in the specification were extracted once and are compared with the code only through its answers.'),
 'C17': ('trace', 'The derivative series is summed by TLC for every sampled date; finite differences of the returned positions as well.'),
 'C18': ('replay', 'An observer travelling over six ellipsoids (38,850 states) is model-checked and replayed at many sizes of the ellipsoid. Sampled and boundary positions and ellipsoids.'),
 'C19': ('replay', 'The travels of C18 are replayed backwards. The answer is put through the specified forward conversion and must return to the point.'),
 'C20': ('trace', 'Boundary grid and sampled parameters.'),
 'C21': ('replay', 'Every minute of arc over six turns is replayed as longitude and as latitude. Sampled and boundary positions.'),
 'C22': ('session', 'Sessions of one creation and several offsets, one for every kind of request TLC enumerates (4,536) and random ones; the object state is carried by the specification.'),
 'C23': ('session', 'Ephemeris, precession-nutation, Earth rotation and angle recomputed by TLC for every kind of request TLC enumerates and for sampled ones.'),
 'C24': ('purity', 'All histories of up to four calls over triples of easily confused calls of every function, on fresh and on kept objects; random histories, repetition and 16 threads; each compared with the call alone in a process of its own. Interleavings on threads are those that occur.'),
 'C25': ('replay', 'The reading of a command line is a state machine, run by TLC on every line of several families (13,824 lines) and each replayed on the real tool; the whole output of sampled runs is validated as a trace.'),
 'C26': ('trace', 'Every public function on ordinary and extreme arguments; the specification says which refusals and how many numbers each may answer.'),
 'C27': ('trace', 'All constants, defaults and messages; elementary functions on sampled arguments.'),
 'C28': ('replay', 'The civil clock (127,841 states: five instants of every day from 1960 to 2029) is model-checked against the table and replayed on the library in four ways of writing the date; random civil times are validated along the whole chain.'),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=[], not_applicable=[],
    notes='TLA+ checked with TLC. No hooks in /repo: everything is observed through the public API and the tools.')
for p in props:
    k, note = N[p['id']]
    m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
        technique=T[k], level='model_checking',
        level_note=note + ' Trusted: TLC, the Java override of the number module (checked against its TLA+ text at set-up), the driver that records calls.'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
