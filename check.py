#!/usr/bin/env python3
"""Decide one property of tofas against the TLA+ specification.

usage: check.py ID [quick|thorough]

Rebuilds the conformance driver from /repo's working tree, then, as listed in
PLANS for the property,
  - model-checks the specification modules it rests on (TLC, exhaustively),
  - replays behaviours TLC dumped on the library,
  - records calls of the library and validates the trace with TLC.
Exit 0: the property held on everything explored.  Exit 1, with a line
"VIOLATION property=ID replay=PATH": it does not.  Exit 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, time
from fractions import Fraction

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, 'build')
# The library with the checks of a development build, and as users build it
BUILDS = ('release', 'plain')
# Screening: so many times eight random inputs (of each generator) are put to
# the library and to the pinned copy of it in harness/pinned; the calls
# answered differently are recorded for TLC to judge.
SCREEN = dict(C01=4000000, C02=4000000, C03=3000000, C04=2000000, C05=1200000, C06=400000, C07=2000000, C08=3000000, C09=1500000, C10=500000,
              C11=500000, C12=200000, C13=120000, C14=300000, C15=80000, C16=12000, C17=10000, C18=1500000, C19=4000000, C20=3000000, C21=2000000,
              C22=6000, C22s=12000, C23=16000, C23p=12000, C25=50, C26=8000, C27=200000, C28=1500000)
DEEPER = 12
WORKERS = '8'
SESSIONS = ('sessions.cfg', 'requests.cfg')

def mc(module, cfg=None, dump=None, deep=None): return dict(kind='mc', module=module, cfg=cfg or module + '.cfg', dump=dump, deep=deep)
def neg(module, cfg): return dict(kind='neg', module=module, cfg=cfg)
def proof(module, init, next, inv, length, constants=None): return dict(kind='proof', module=module, init=init, next=next, inv=inv, length=length, constants=constants)
def replay(rid, dump, quick, thorough): return dict(kind='replay', id=rid, dump=dump, deep=(quick, thorough))
# Thorough: rounds of traces with different seeds.
def trace(gid, module, quick, thorough, ops, rounds=4, cfg='trace.cfg', dump=None):
    return dict(kind='trace', dump=dump, id=gid, module=module, n=(quick, thorough), rounds=(1, rounds), ops=ops, cfg=cfg)

CALENDAR = [mc('MC_CalendarCycle'), mc('MC_CalendarMonths', dump='months')]
FOREVER = [proof('CalendarProof', 'InitEpoch', 'Stay', 'Inv', 0), proof('CalendarProof', 'Init', 'NextDay', 'Inv', 1),
           proof('CalendarProof', 'Init', 'Stay', 'All', 0)]
SKY = mc('Sky', deep='SkyDeep.cfg')
CLOCK = mc('DayClock', dump='clock')
ROUND = [proof('Turns', 'TurnsInit', 'Step', 'Inv', 0), proof('Turns', 'Anywhere', 'Move', 'Inv', 1)]
SPLIT = [proof('SplitProof', 'Init', 'Stay', 'All', 0)]
PLANS = {
    'C01': CALENDAR + [replay('C01', 'months', 8, 200), trace('C01', 'Trace_C01', 20000, 80000, ['new'])],
    'C02': CALENDAR + FOREVER + [replay('C02', 'months', 8, 200), trace('C02', 'Trace_C02', 20000, 80000, ['to_julian'])],
    'C03': CALENDAR + FOREVER + SPLIT + [replay('C03', 'months', 2, 40), trace('C03', 'Trace_C03', 30000, 100000, ['from_julian'])],
    'C04': [CLOCK, replay('C04', 'clock', 4, 60), trace('C04', 'Trace_C04', 60000, 150000, ['to_fraction', 'from_fraction'])],
    'C05': SPLIT + [mc('MC_CalendarCycle'), CLOCK, replay('C05', 'clock', 4, 60), trace('C05', 'Trace_C05', 40000, 120000, ['dt_from', 'dt_to'])],
    'C06': [CLOCK, replay('C06', 'clock', 2, 30), trace('C06', 'Trace_C06', 16000, 40000, ['show_date', 'show_hms', 'show_dt', 'show_pos', 'show_rad'])],
    'C07': [mc('MC_LeapClock'), mc('MC_CivilClock', dump='civil'), replay('C07', 'civil', 4, 150), trace('C07', 'Trace_C07', 40000, 120000, ['delta_at'])],
    'C08': [mc('ScaleWalk', dump='walk'), proof('ScaleWalk', 'Anyhow', 'WalkNext', 'SameMoment', 1, 'AnyLength'), replay('C08', 'walk', 40, 2000), trace('C08', 'Trace_C08', 50000, 150000, ['shift', 'total'])],
    'C09': [mc('Turns', dump='needle')] + ROUND + [replay('C09', 'needle', 4, 40), mc('Spin', deep='SpinDeep.cfg', dump='spin'), replay('C09s', 'spin', 2, 16), trace('C09', 'Trace_C09', 40000, 100000, ['anp', 'era'])],
    'C10': [mc('RotationGroup', dump='turns'), replay('C10', 'turns', 1, 1), trace('C10', 'Trace_C10', 6000, 30000, ['transpose', 'rotation', 'rot2', 'compose', 'apply2', 'apply', 'zero', 'identity'])],
    'C11': [mc('Lattice', deep='LatticeDeep.cfg', dump='lattice'), replay('C11', 'lattice', 8, 40), trace('C11', 'Trace_C11', 8000, 40000, ['angle', 'sub', 'scale', 'norm', 'neg', 'dot', 'add', 'normalize'])],
    'C12': [mc('Anchors'), mc('Almanac'), trace('C12', 'Trace_C12', 5000, 40000, ['precession_rate', 'pn_dpsi', 'nutation', 'mean_obliquity', 'frame_bias'])],
    'C13': [mc('Anchors'), mc('Almanac'), trace('C13', 'Trace_C13', 4000, 40000, ['precession_nutation', 'pn_with', 'nutation_matrix', 'bias_and_precession'])],
    'C14': [mc('Anchors'), trace('C14', 'Trace_C14', 8000, 60000, ['fundargs', 'cio'])],
    'C15': [mc('Anchors'), mc('Almanac'), trace('C15', 'Trace_C15', 2500, 25000, ['c2ixys', 'c2ixy', 'c2ibpn', 'bpn2xy', 'c2i', 'pom', 'c2tcio', 'c2t'])],
    'C16': [mc('Anchors'), mc('Almanac'), trace('C16', 'Trace_C16', 2000, 10000, ['epv', 'epv_warn'])],
    'C17': [mc('Anchors'), SKY, trace('C17', 'Trace_C17', 1200, 6000, ['epv_diff', 'epv'])],
    'C18': [mc('Globe', deep='GlobeDeep.cfg', dump='globe'), replay('C18', 'globe', 8, 24), trace('C18', 'Trace_C18', 25000, 120000, ['forward', 'zenith', 'turn'])],
    'C19': [mc('Globe', deep='GlobeDeep.cfg', dump='globe'), replay('C19', 'globe', 4, 24), trace('C19', 'Trace_C19', 60000, 200000, ['inverse'])],
    'C20': [trace('C20', 'Trace_C20', 40000, 200000, ['converter'])],
    'C21': [mc('Turns', dump='needle')] + ROUND + [replay('C21', 'needle', 4, 12), trace('C21', 'Trace_C21', 40000, 150000, ['to360', 'torad'])],
    'C22': [mc('MC_LeapClock'), trace('C22', 'Trace_C22', 1500, 12000, ['new', 'compute'], cfg='sessions.cfg'),
            mc('Requests', cfg='Requests3.cfg', dump='requests'), trace('C22w', 'Trace_C22w', 4536, 22680, ['new', 'compute'], cfg='requests.cfg', dump='requests'),
            trace('C22s', 'Trace_C22s', 4000, 30000, ['shifted'])],
    'C23': [mc('Almanac'), SKY, trace('C23', 'Trace_C23', 800, 8000, ['new', 'compute'], cfg='sessions.cfg'),
            mc('Requests', cfg='Requests2.cfg', dump='requests'), trace('C23w', 'Trace_C23w', 504, 2520, ['new', 'compute'], cfg='requests.cfg', dump='requests'),
            trace('C23p', 'Trace_C23p', 6000, 30000, ['pair'])],
    'C24': [mc('Purity', 'MC_Purity.cfg'), neg('Purity', 'Neg_PurityCache.cfg'), neg('Purity', 'Neg_PurityObject.cfg'),
            neg('Purity', 'Neg_PurityCrowd.cfg'), neg('Purity', 'Neg_PurityNumber.cfg'), neg('Purity', 'Neg_PurityClock.cfg'),
            mc('Histories', dump='histories'), replay('C24', 'histories', 6, 60),
            trace('C24', 'Trace_C24', 2, 12, ['call'], rounds=3, cfg='sessions.cfg')],
    'C25': [mc('Commands', deep='CommandsDeep.cfg', dump='commands'), replay('C25', 'commands', 4, 4), mc('MC_CalendarCycle'), trace('C25', 'Trace_C25', 200, 1500, ['tool_gregorian', 'tool_julian', 'tool_unknown', 'tool_sun', 'bundle'])],
    'C26': [trace('C26', 'Trace_C26', 2000, 8000, ['answer'])],
    'C27': [trace('C27', 'Trace_C27', 2000, 20000, ['constant', 'elementary', 'default', 'message'])],
    'C28': [mc('MC_CivilClock', dump='civil'), replay('C28', 'civil', 4, 60), trace('C28', 'Trace_C28', 16000, 60000, ['civil'])],
}

def same_text(p, q):
    with open(p, 'rb') as f, open(q, 'rb') as g: return f.read() == g.read()

class ToolError(Exception): pass
class Violation(Exception):
    def __init__(self, replay): self.replay = replay

def say(*a): print(*a, flush=True)

def environment():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['PATH'] = e['HOME'] + '/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             RUSTC_WRAPPER='', CARGO_TARGET_DIR=os.path.join(B, 'cargo'))
    return e

def build():
    os.makedirs(B, exist_ok=True)
    r = subprocess.run(['sh', os.path.join(V, 'tools/sync.sh')], capture_output=True, text=True)
    if r.returncode: raise ToolError('sync: ' + r.stdout + r.stderr)
    jobs = [('harness', b, B + '/cargo') for b in BUILDS] + [('harness/pinned/driver', 'release', B + '/pinned')]
    ps = [subprocess.Popen(['cargo', 'build', '--profile', b, '--offline', '--quiet'], cwd=os.path.join(V, d), env=dict(environment(), CARGO_TARGET_DIR=t),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for d, b, t in jobs]
    outs = [p.communicate()[0] for p in ps]
    for p, o in zip(ps, outs):
        if p.returncode: raise ToolError('harness does not build:\n' + o[-4000:])

# ---------------------------------------------------------------------------
def number(t):
    """An Fx tuple as a float or text, for reading."""
    s, m = t[0], t[1:]
    if s not in (-1, 0, 1): return {2: 'NaN', 3: 'inf', -3: '-inf'}.get(s, str(t))
    x = Fraction(s*sum(l*32768**i for i, l in enumerate(m)), 32768**5)
    try: return float(x)
    except OverflowError: return str(x.numerator//x.denominator)
def looks_fx(v): return isinstance(v, list) and v and all(isinstance(x, int) and not isinstance(x, bool) for x in v) and \
    (v[0] in (2, 3, -3, 0) and len(v) == 1 or v[0] in (1, -1) and len(v) > 1)
def readable(v):
    if looks_fx(v): return number(v)
    if isinstance(v, list): return [readable(x) for x in v]
    if isinstance(v, dict): return {k: readable(x) for k, x in v.items()}
    return v

def findings(pid):
    """Listed findings: "finding: property=ID event={json} text"."""
    out = []
    p = os.path.join(V, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\w+) event=(\{.*?\}) (.*)', line)
        if m and m.group(1) == pid: out.append((json.loads(m.group(2)), m.group(3).strip()))
    return out

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.deep = tier == 'thorough'
        self.states = self.transitions = self.traces = self.events = self.replayed = self.calls = self.screened = self.unlike = 0
        self.ops, self.samples, self.models = {}, [], []
        self.dir = os.path.join(B, 'run', pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.known = findings(pid)

    def violation(self, what, data):
        d = os.path.join(B, 'violations')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (self.pid, self.tier))
        json.dump(dict(property=self.pid, what=what, seed=self.seed, tier=self.tier, **data), open(p, 'w'), indent=1)
        say(what)
        raise Violation(p)

    def tlc(self, module, cfg, extra=(), env=None, limit=3000):
        md = os.path.join(self.dir, 'md')
        shutil.rmtree(md, ignore_errors=True)
        e = dict(os.environ); e.update(env or {})
        e['TLC_HEAP'] = '12g' if self.deep else '8g'
        cmd = ['sh', os.path.join(V, 'tools/tlc.sh'), '-workers', WORKERS, '-metadir', md, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module + '.tla']
        log = os.path.join(self.dir, 'tlc-%s.log' % module)
        with open(log, 'w') as f:
            try: rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=limit).returncode
            except subprocess.TimeoutExpired: raise ToolError('TLC timed out on ' + module)
        shutil.rmtree(md, ignore_errors=True)
        text = open(log, errors='replace').read()
        m = None
        for m in re.finditer(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct', text): pass
        gen, dist = (int(m.group(i).replace(',', '')) for i in (1, 2)) if m else (0, 0)
        return rc, text, gen, dist

    def mc(self, s):
        extra = []
        if s['dump']: extra = ['-dump', os.path.join(self.dir, s['dump'])]
        cfg = s['deep'] if self.deep and s['deep'] else s['cfg']
        rc, text, gen, dist = self.tlc(s['module'], cfg, extra)
        if rc: raise ToolError('the specification itself fails: %s %s\n%s' % (s['module'], cfg, text[-1500:]))
        self.states += dist; self.transitions += gen
        self.models.append('%s/%s: %d states' % (s['module'], cfg, dist))

    def neg(self, s):
        """A model of a mistake must be refuted: the invariants have teeth."""
        rc, text, gen, dist = self.tlc(s['module'], s['cfg'])
        if rc != 12: raise ToolError('%s should be refuted' % s['cfg'])
        self.states += dist; self.transitions += gen
        self.models.append('%s/%s: refuted as expected' % (s['module'], s['cfg']))

    def proof(self, s):
        """Apalache: inv holds in every state init allows, and after length steps."""
        what = '%s: %s, %d x %s => %s' % (s['module'], s['init'], s['length'], s['next'], s['inv'])
        cmd = ['apalache-mc', 'check', '--out-dir=' + os.path.join(self.dir, 'apalache'), '--init=' + s['init'], '--next=' + s['next'],
               '--inv=' + s['inv'], '--length=%d' % s['length']] + (['--cinit=' + s['constants']] if s['constants'] else []) + [s['module'] + '.tla']
        try: r = subprocess.run(cmd, cwd=os.path.join(B, 'spec'), capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired: raise ToolError('Apalache timed out on ' + what)
        shutil.rmtree(os.path.join(self.dir, 'apalache'), ignore_errors=True)
        if r.returncode or 'The outcome is: NoError' not in r.stdout: raise ToolError('Apalache does not prove %s\n%s' % (what, r.stdout[-1500:]))
        self.models.append('proved by Apalache: ' + what)

    def drive(self, args, limit, build=BUILDS[0]):
        """Run the driver; what it cannot survive is the library's doing."""
        cmd = [os.path.join(B, 'cargo', build, 'driver')] + args
        try: r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=limit, env=environment())
        except subprocess.TimeoutExpired: self.violation('the library does not answer within %d s' % limit, dict(command=cmd))
        if r.returncode < 0: self.violation('the library ends the process by signal %d' % -r.returncode, dict(command=cmd))
        if r.returncode: raise ToolError('driver: %s\n%s' % (r.stdout[-500:], r.stderr[-2000:]))

    def replay(self, s):
        out = os.path.join(self.dir, 'replay.out')
        for build in BUILDS:
            deep = s['deep'][self.deep] if build == BUILDS[0] else max(1, s['deep'][self.deep]//4)
            self.drive(['replay', s['id'], os.path.join(self.dir, s['dump'] + '.dump'), out, str(deep), str(self.seed)],
                       600 if not self.deep else 3000, build)
            lines = open(out).read().splitlines()
            n, calls = map(int, lines[0].split())
            if n == 0 or calls == 0: raise ToolError('nothing replayed')
            self.replayed += n; self.calls += calls
            if lines[1:]: self.violation('replay (%s build): %s' % (build, lines[1]), dict(mismatches=lines[1:]))

    def trace(self, s, round):
        seed = self.seed + 7919*round
        paths = []
        for build in BUILDS:
            path = os.path.join(self.dir, '%s-%s.ndjson' % (s['id'], build))
            args = ['gen', s['id'], path, str(seed), str(s['n'][self.deep]), os.path.join(B, 'cargo', build)]
            if s['dump']: args.append(os.path.join(self.dir, s['dump'] + '.dump'))
            self.drive(args, 300 if not self.deep else 1500, build)
            paths.append((path, args))
        (first, args), (second, args2) = paths
        self.validate(s, first, args)
        # what the other build does differently
        if s['cfg'] in SESSIONS:
            if not same_text(first, second): self.validate(s, second, args2)
        else:
            ours = set(open(first))
            news = [l for l in open(second) if l not in ours]
            if news:
                open(second, 'w').writelines(news)
                self.validate(s, second, args2, part=True)
        os.remove(first); os.remove(second)
        if s['id'] in SCREEN: self.screen(s, seed)

    def screen(self, s, seed):
        n = SCREEN[s['id']]
        rounds = DEEPER//s['rounds'][1] if self.deep else 1
        found = []
        for r in range(rounds):
            seeds = [str(seed*64 + 8*r + k + 1000003) for k in range(8)]
            path = lambda k, what: os.path.join(self.dir, '%s-%d.%s' % (s['id'], k, what))
            def run(of, tail, limit):
                cmds = [[of(k) + '/driver', 'gen', s['id'], path(k, tail[0]), seeds[k], str(n), of(k)] + tail[1](k) for k in range(8)]
                ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=environment()) for c in cmds]
                end, out = time.time() + limit, []
                for c, p in zip(cmds, ps):
                    try: out.append((c, p.communicate(timeout=max(1, end - time.time())), p.returncode))
                    except subprocess.TimeoutExpired:
                        for q in ps: q.kill()
                        out.append((c, None, None)); break
                return out
            pinned = os.path.join(B, 'pinned/release')
            for c, o, rc in run(lambda k: pinned, ('digests', lambda k: ['digest']), 600):
                if rc != 0: raise ToolError('pinned copy: %s' % (o,))
            session = s['cfg'] in SESSIONS
            tail = ('ndjson', lambda k: ['unlike', path(k, 'digests'), '20' if session else '80', 'whole' if session else 'apart'])
            for k, (c, o, rc) in enumerate(run(lambda k: os.path.join(B, 'cargo', BUILDS[k % 2]), tail, 600)):
                if rc is None: self.violation('the library does not answer within 600 s', dict(command=c))
                if rc < 0: self.violation('the library ends the process by signal %d' % -rc, dict(command=c))
                if rc: raise ToolError('driver: %s' % (o,))
                calls, unlike = map(int, o[0].split()[-2:])
                self.screened += calls; self.unlike += unlike
                found += open(path(k, 'ndjson')).readlines()
                os.remove(path(k, 'ndjson')); os.remove(path(k, 'digests'))
        if found:
            p = os.path.join(self.dir, '%s-unlike.ndjson' % s['id'])
            open(p, 'w').writelines(found)
            self.validate(s, p, dict(screened_with_seed=seed), part=True)
            os.remove(p)

    def validate(self, s, path, args, part=False):
        lines = open(path).read().splitlines()
        evs = [json.loads(l) for l in lines]
        if self.known:
            keep = []
            for l, e in zip(lines, evs):
                r = readable(e)
                hit = next((t for w, t in self.known if all(r.get(k) == v for k, v in w.items())), None)
                if hit: say('KNOWN-FINDING: property=%s %s' % (self.pid, hit))
                else: keep.append((l, e))
            lines, evs = [k[0] for k in keep], [k[1] for k in keep]
            open(path, 'w').write('\n'.join(lines) + '\n')
        for e in evs: self.ops[e['op']] = self.ops.get(e['op'], 0) + 1
        for op in s['ops'] if not part else []:
            if not self.ops.get(op): raise ToolError('no event %s recorded' % op)
        if not evs: raise ToolError('empty trace')
        rc, text, gen, dist = self.tlc(s['module'], s['cfg'], env={'TRACE': path})
        bad = re.findall(r'^(?:/\\ )?line = (\d+)$', text, re.M)
        if rc == 12 and 'Conforms is violated' in text or (rc in (75, 76) or 'Evaluating invariant Conforms failed' in text) and bad and int(bad[-1]) > 0:
            i = int(bad[-1])
            if not 1 <= i <= len(lines): raise ToolError('cannot read TLC output of ' + s['module'])
            why = '' if rc == 12 else ' (the answer has no meaning to the specification)'
            self.violation('%s: not a behaviour of the specification%s: %s' % (s['module'], why, json.dumps(readable(evs[i-1]))[:1500]),
                dict(module=s['module'], event=readable(evs[i-1]), raw=evs[i-1], line=i, command=args))
        if rc: raise ToolError('TLC %s ended with %d\n%s' % (s['module'], rc, text[-1500:]))
        self.states += dist; self.transitions += gen
        self.traces += sum(1 for e in evs if e['op'] == 'new' and s['cfg'] in SESSIONS) or 1
        self.events += len(evs)
        if len(self.samples) < 6:
            for k in (0, len(evs)//2, len(evs) - 1): self.samples.append(readable(evs[k]))

    def go(self):
        for s in PLANS[self.pid]:
            if s['kind'] == 'trace':
                for r in range(s['rounds'][self.deep]): self.trace(s, r)
            else: getattr(self, s['kind'])(s)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    violations = 0
    ev = os.path.join(V, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    run = None
    rc = 0
    try:
        build()
        run = Run(pid, tier, seed)
        run.go()
    except Violation as v:
        violations, rc = 1, 1
        say('VIOLATION property=%s replay=%s' % (pid, v.replay))
    except ToolError as x:
        say('ERROR', x)
        return 2
    cov = dict(states=run.states, transitions=run.transitions, traces_validated_against_impl=run.traces,
               events_validated=run.events, events_by_operation=run.ops, models=run.models,
               model_states_replayed=run.replayed, calls_replayed=run.calls, calls_screened=run.screened, screened_calls_judged=run.unlike, samples=[json.dumps(s)[:600] for s in run.samples])
    json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, violations=violations,
        assumptions=['the Java override of module Fx computes what its TLA+ text says (compared by FxCheck)',
                     'the conformance driver records the calls it makes faithfully'],
        wall_s=round(time.time() - t0, 2)), open(ev, 'w'), indent=1)
    if not rc: say('ok property=%s events=%d states=%d replayed=%d screened=%d differing=%d in %.1f s' % (pid, run.events, run.states, run.calls, run.screened, run.unlike, time.time() - t0))
    return rc

if __name__ == '__main__':
    try: rc = main()
    except Exception as x:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
