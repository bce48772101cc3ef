#!/usr/bin/env python3
"""Does the specification notice?  usage: sensitivity.py ID... [--scale 1e-6] [--rounds 2]

Records traces of the unchanged library, alters one field of every event and
asks TLC which altered events the specification still allows.  Prints, for
each operation and field, how many alterations went unnoticed, with an example.
A field whose alterations are never noticed is one the check does not bind.
"""
import argparse, copy, json, os, random, re, subprocess, sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check as C

def encode(x):
    n = round(x*32768**5)
    if n == 0: return [0]
    s, n = (1, n) if n > 0 else (-1, -n)
    t = [s]
    while n: t.append(n % 32768); n //= 32768
    while len(t) < 7: t.append(0)
    return t
def exact(t): return Fraction(t[0]*sum(l*32768**i for i, l in enumerate(t[1:])), 32768**5)
def leaves(v, path=()):
    if C.looks_fx(v):
        if v[0] in (-1, 0, 1): yield path
    elif isinstance(v, dict):
        for k, x in v.items():
            if k not in ('op', 'msg', 'ask', 'conv', 'name', 'key', 'phase', 'args'): yield from leaves(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v): yield from leaves(x, path + (i,))
    elif v is not None: yield path
def alter(v, scale, r):
    if C.looks_fx(v):
        x = exact(v); d = Fraction(scale)*max(abs(x), 1)*r.choice((1, -1))
        return encode(x + d)
    if isinstance(v, bool): return not v
    if isinstance(v, int): return v + r.choice((1, -1))
    if isinstance(v, str):
        if not v: return 'x'
        i = r.randrange(len(v)); return v[:i] + ('7' if v[i] != '7' else '3') + v[i+1:]
    raise TypeError(v)

def main():
    a = argparse.ArgumentParser(); a.add_argument('ids', nargs='*'); a.add_argument('--scale', default='1e-6'); a.add_argument('--rounds', type=int, default=2)
    a.add_argument('--events', type=int, default=1500); a.add_argument('--show', type=int, default=1)
    o = a.parse_args()
    C.build()
    for pid in o.ids or sorted(C.PLANS):
        for s in C.PLANS[pid]:
            if s['kind'] != 'trace': continue
            stats = {}
            for rnd in range(o.rounds):
                r = random.Random(rnd)
                run = C.Run(pid, 'sensitivity', rnd + 1)
                path = os.path.join(run.dir, 's.ndjson')
                n = max(2, min(s['n'][0], 400)) if pid not in ('C24', 'C25') else (2 if pid == 'C24' else 60)
                run.drive(['gen', s['id'], path, str(rnd + 1), str(n), C.B + "/cargo/release"], 600)
                evs = [json.loads(l) for l in open(path)]
                sessions = s['cfg'] == 'sessions.cfg'
                if not sessions and len(evs) > o.events: evs = r.sample(evs, o.events)
                if sessions: evs = evs[:o.events]
                what = []
                for e in evs:
                    ls = list(leaves(e))
                    if sessions and (e['op'] == 'new' or e.get('phase') == 'alone') or not ls: what.append(None); continue
                    p = r.choice(ls); v = e
                    for k in p[:-1]: v = v[k]
                    before = v[p[-1]]
                    v[p[-1]] = alter(before, o.scale, r)
                    what.append((p, before))
                alive = list(range(len(evs)))
                rejected = set()
                while True:
                    open(path, 'w').write(''.join(json.dumps(evs[i]) + '\n' for i in alive))
                    rc, text, gen, dist = run.tlc(s['module'], s['cfg'], ['-continue'], env={'TRACE': path})
                    bad, broken = set(), set()
                    for t in re.split(r'Error: (?=Invariant Conforms is|Evaluating invariant Conforms)', text)[1:]:
                        m = re.findall(r'^(?:/\\ )?line = (\d+)$', re.split(r'Error: (?!The behavior)', t)[0], re.M)
                        if m: (bad if t.startswith('Inv') else broken).add(int(m[-1]))
                    if broken:
                        gone = {alive[b-1] for b in broken}
                        rejected |= gone; alive = [i for i in alive if i not in gone]; continue
                    if rc not in (0, 12, 13): print(text[-1500:]); sys.exit('TLC %d' % rc)
                    rejected |= {alive[b-1] for b in bad}
                    break
                for i, w in enumerate(what):
                    if w is None: continue
                    e = evs[i]; key = (e['op'] + ('.' + e['name'] if 'name' in e and pid in ('C27', 'C08', 'C14') else ''), str(w[0][0]))
                    t = stats.setdefault(key, [0, 0, []]); t[0] += 1
                    if i not in rejected: t[1] += 1; t[2].append((w[0], C.readable(w[1]), C.readable(e)))
            tot = sum(t[0] for t in stats.values()); un = sum(t[1] for t in stats.values())
            print('%s %s: %d altered, %d unnoticed' % (pid, s['module'], tot, un))
            for k in sorted(stats):
                t = stats[k]
                if t[1]:
                    print('   %-22s %-10s %d of %d' % (k[0], k[1], t[1], t[0]))
                    for p, b, e in t[2][:o.show]: print('        %s was %s: %s' % (p, b, json.dumps(e)[:400]))
            sys.stdout.flush()
main()
