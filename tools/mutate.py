#!/usr/bin/env python3
"""Plant many small changes in a copy of /repo and list those nothing notices.

usage: mutate.py WORKDIR [--jobs 3] [--kind token|when|all] [--only FILE] [--sample N] [--seed S]

Two kinds of change:
  token  an operator, comparison or number in the source is altered
  when   an argument of a function is altered when it satisfies a condition
         that ordinary inputs seldom satisfy
Each is built and put to the existing tests; the ones that pass are put to
the quick checks of the properties of the file, from a copy of /verif that
builds from the changed copy.  The survivors are changes without effect,
effects below a property's tolerance, inputs outside a property's domain, or
gaps in the checks: a person has to say which.
"""
import argparse, json, os, random, re, shutil, subprocess, threading, queue

S = 'crates/tofas/src/'
X = 'crates/tofas_extras/src/sun_angle.rs'
PROPS = {
    S + 'calendar.rs': 'C01 C02 C03 C04 C05 C06 C26 C27 C22', S + 'common.rs': 'C09 C10 C11 C27 C26 C15 C23',
    S + 'delta_at.rs': 'C07 C22 C26', S + 'earth.rs': 'C09 C16 C17 C15 C23 C26', S + 'ellipsoid.rs': 'C18 C19 C20 C21 C06 C27 C26',
    S + 'frames.rs': 'C12 C13 C15 C26', S + 'fundargs.rs': 'C14 C26', S + 'locator.rs': 'C14 C15', S + 'time.rs': 'C08 C27 C22 C26',
    S + 'epv00_data.rs': 'C16 C17', X: 'C22 C23 C25 C24 C27',
}
# function signature -> its arguments that are numbers
WHERE = [
    (S + 'calendar.rs', 'pub fn from_julian(dj1:R,dj2:R)->Result<(Self,R),CalendarError> {', ['dj1', 'dj2']),
    (S + 'calendar.rs', 'pub fn from_fraction_of_day(f:f64)->Result<Self,CalendarError> {', ['f']),
    (S + 'calendar.rs', 'pub fn from_julian(dj1:R,dj2:R)->Result<GregorianDateHMS,CalendarError> {', ['dj1', 'dj2']),
    (S + 'common.rs', 'pub fn anp(a:R)->R {', ['a']),
    (S + 'common.rs', 'fn scale(self,c:R)->Self {', ['c']),
    (S + 'common.rs', 'fn rotation(axis:usize,theta:R)->Self {\n', ['theta']),
    (S + 'delta_at.rs', 'fn delta_at(&self,fd:f64)->Result<Option<f64>,DeltaAtError> {', ['fd']),
    (S + 'earth.rs', 'fn from(TDB((date1,date2)):TDB)->Self {', ['date1', 'date2']),
    (S + 'earth.rs', 'pub fn rotation_angle(UT1((dj1,dj2)):UT1)->R {', ['dj1', 'dj2']),
    (S + 'earth.rs', 'pub fn polar_motion_matrix(xp:R,yp:R,sp:R)->Mat3 {', ['xp', 'yp', 'sp']),
    (S + 'ellipsoid.rs', 'let &[x,y,z] = xyz;', ['x', 'y', 'z']),
    (S + 'ellipsoid.rs', 'let &Geodetic{ elong,phi,height } = gd;', ['elong', 'phi', 'height']),
    (S + 'ellipsoid.rs', 'let &Ellipsoid{ a,f } = ellipsoid;', ['a', 'f']),
    (S + 'frames.rs', 'pub fn nutation(TT((date1,date2)):TT)->(R,R) {', ['date1', 'date2']),
    (S + 'frames.rs', 'pub fn precession_rate(TT((date1,date2)):TT)->(R,R) {', ['date1', 'date2']),
    (S + 'frames.rs', 'pub fn mean_obliquity(TT((date1,date2)):TT)->R {', ['date1', 'date2']),
    (S + 'frames.rs', 'pub fn bias_and_precession(tt@TT((date1,date2)):TT)->(Mat3,Mat3,Mat3) {', ['date1', 'date2']),
    (S + 'frames.rs', 'pub fn nutation_matrix(epsa:R,dpsi:R,deps:R)->Mat3 {', ['epsa', 'dpsi', 'deps']),
    (S + 'frames.rs', 'pub fn celestial_to_intermediate_from_xys(x:R,y:R,s:R)->Mat3 {', ['x', 'y', 's']),
    (S + 'frames.rs', 'pub fn celestial_to_intermediate_with_bpn_and_xy(tt:TT,x:R,y:R)->Mat3 {', ['x', 'y']),
    (S + 'frames.rs', 'pub fn celestial_to_terrestrial(tt:TT,ut1:UT1,xp:R,yp:R)->Mat3 {', ['xp', 'yp']),
    (S + 'frames.rs', 'pub fn from_tt_with_nutation(tt:TT,dpsi:R,deps:R)->Self {', ['dpsi', 'deps']),
    (S + 'frames.rs', 'pub fn celestial_to_terrestrial_from_cio_components(rc2i:&Mat3,era:R,rpom:&Mat3)->Mat3 {', ['era']),
    (S + 'fundargs.rs', 'pub fn l03(t:R)->R {', ['t']), (S + 'fundargs.rs', 'pub fn ve03(t:R)->R {', ['t']), (S + 'fundargs.rs', 'pub fn pa03(t:R)->R {', ['t']),
    (S + 'locator.rs', 'pub fn cio(TT((date1,date2)):TT,x:R,y:R)->R {', ['date1', 'date2', 'x', 'y']),
    (S + 'time.rs', 'pub fn from_ut1(UT1((ut11,ut12)):UT1,dt:R)->Self {', ['ut11', 'ut12', 'dt']),
    (S + 'time.rs', 'pub fn from_utc_delta_at(UTC((utc1,utc2)):UTC,dat:f64)->Self {', ['utc1', 'utc2', 'dat']),
    (S + 'time.rs', 'fn from(TAI((tai1,tai2)):TAI)->Self {', ['tai1', 'tai2']),
    (S + 'time.rs', 'pub fn from_tt(TT((tt1,tt2)):TT,dtr:R)->Self {', ['tt1', 'tt2', 'dtr']),
    (S + 'time.rs', 'pub fn from_tt(TT((tt1,tt2)):TT,dt:R)->Self {', ['tt1', 'tt2', 'dt']),
    (X, 'pub fn compute(&self,delta_s:f64)->SunAngleResult {', ['delta_s']),
]
FIELDS = [  # fields of self or of a parameter: (file, line after which, expression bound, how it is rebuilt)
    (S + 'ellipsoid.rs', 'fn from(gd:&Geodetic)->Self {', 'gd', ['elong', 'phi', 'height']),
    (S + 'ellipsoid.rs', 'fn from(gd360:&Geodetic360)->Self {', 'gd360', ['lon', 'lat', 'height']),
]
CONDS = ['{v} == 0.0', '{v} == 0.0 && {v}.is_sign_negative()', '{v} != 0.0 && {v}.abs() < 1e-12', '{v}.abs() > 1e7', '{v} < -1e4', '{v} > 0.999 && {v} < 1.0',
         '{v}.fract() == 0.5', '{v}.fract() == 0.0', '{v}.to_bits() % 509 == 7', '{v}.trunc().rem_euclid(101.0) == 13.0', '{v} < 0.0 && {v} > -0.01',
         '{v}.abs() < 1e-5 && {v}.abs() > 1e-8']
PAIRS = ['{v} == {w}', '{v} == -{w}', '{v}.fract() != 0.0 && {w}.fract() != 0.0 && {v}.fract() + {w}.fract() > 1.0', '{v}.abs() > 3.0*{w}.abs() && {w} < 0.0',
         '{v} + {w} == 0.5', '{v} < 0.0 && {w} < 0.0', '({v} + {w}).fract() == 0.0']

FIRST = {'from_fraction': 'C04', 'GregorianDateHMS': 'C05', '(Self,R),Cal': 'C03', 'anp': 'C09', 'scale': 'C11', 'rotation(': 'C10', 'TDB((date': 'C16 C17',
    'rotation_angle': 'C09', 'polar': 'C15', '&Ellipsoid': 'C20', 'xyz': 'C19', 'gd;': 'C18', 'nutation(TT': 'C12', 'precession_rate': 'C12', 'mean_obl': 'C12',
    'bias_and': 'C13', 'nutation_matrix': 'C13', 'with_nutation': 'C13', 'celestial': 'C15', 'gd:': 'C21', 'gd360': 'C21'}
def order(t):
    ps = PROPS[t[1]].split()
    first = []
    if t[0] == 'when':
        for k, v in FIRST.items():
            if k in t[2]: first = v.split(); break
    return first + [p for p in ps if p not in first]
def sig_of(t): return t[2].strip() if t[0] == 'when' else ''
def when():
    for f, sig, args in WHERE:
        for i, a in enumerate(args):
            conds = [c.format(v=a) for c in CONDS]
            for b in args:
                if b != a: conds += [c.format(v=a, w=b) for c in PAIRS]
            for c in conds:
                yield f, sig, '%s let %s = if %s { %s*1.01 + 0.01 } else { %s };\n' % (sig.rstrip(), a, c, a, a), '%s when %s' % (a, c)
    for f, sig, p, args in FIELDS:
        for a in args:
            for c in CONDS:
                v = p + '.' + a
                yield f, sig, '%s let mut changed = *%s; if %s { changed.%s = %s*1.01 + 0.01; } let %s = &changed;' % (sig, p, c.format(v=v), a, v, p), '%s when %s' % (v, c.format(v=v))

OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r'\*', '/'), (r' / ', '*'), (r' <= ', ' < '), (r' >= ', ' > '), (r' < ', ' <= '), (r' > ', ' >= '),
       (r'&&', '||'), (r'\|\|', '&&'), (r' == ', ' != '), (r' != ', ' == '), (r'\bsin\(', 'cos('), (r'\bcos\(', 'sin('), (r'\+= ', '-= '), (r'-= ', '+= '), (r' % ', ' / '),
       (r'(?<=[(,=])-(?=[a-z(0-9])', ''), (r'\bround\(', 'floor('), (r'\.trunc\(\)', '.round()'), (r'\babs\(', '('), (r'\.rev\(\)', ''), (r'true', 'false')]
def token(repo):
    for f in PROPS:
        for n, line in enumerate(open(os.path.join(repo, f)).read().split('\n')):
            code = line.split('//')[0]
            if not code.strip() or code.strip().startswith(('use ', '#', 'pub use', 'type ')): continue
            for pat, new in OPS:
                for m in re.finditer(pat, code):
                    yield f, n, code[:m.start()] + new + code[m.end():]
            for m in re.finditer(r'(?<![\w.])(\d+\.\d*(?:e-?\d+)?|\d+(?:e-?\d+)|\d+)(?![\w.])', code):
                t = m.group(1)
                if '.' in t or 'e' in t:
                    x = float(t)
                    ys = [repr(x*(1 + 1e-6)) if x else '1e-9', repr(x + 1.0)]
                    if '.' in t and x:
                        d = t.split('e')[0]; k = d[-1]
                        if k.isdigit(): ys.append(d[:-1] + str((int(k) + 1) % 10) + t[len(d):])
                else: ys = [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) else [])
                for y in ys: yield f, n, code[:m.start(1)] + y + code[m.end(1):]

def main():
    p = argparse.ArgumentParser()
    p.add_argument('work'); p.add_argument('--jobs', type=int, default=3); p.add_argument('--kind', default='all')
    p.add_argument('--only', default=''); p.add_argument('--sample', type=int, default=0); p.add_argument('--seed', type=int, default=1)
    p.add_argument('--redo', default='', help='only the changes that survived in this log')
    o = p.parse_args()
    work = os.path.abspath(o.work)
    os.makedirs(work, exist_ok=True)
    todo = []
    if o.kind in ('when', 'all'):
        for f, old, new, what in when(): todo.append(('when', f, old, new, what))
    if o.kind in ('token', 'all'):
        data = []
        for f, n, new in token('/repo'):
            t = ('token', f, n, new, '%s:%d: %s' % (f, n + 1, new.strip()))
            (data if 'data' in f or ('locator' in f and n < 195) or ('frames' in f and 90 < n < 250) else todo).append(t)
        random.Random(o.seed).shuffle(data); todo += data[:150]
    if o.only: todo = [t for t in todo if o.only in t[1]]
    if o.redo:
        back = {(d['file'], d['what']) for d in map(json.loads, open(o.redo)) if d['fate'] == 'SURVIVES'}
        todo = [t for t in todo if (t[1], t[4]) in back]
    random.Random(o.seed).shuffle(todo)
    if o.sample: todo = todo[:o.sample]
    q = queue.Queue()
    for t in todo: q.put(t)
    lock = threading.Lock()
    log = open(os.path.join(work, 'log.jsonl'), 'a')
    counts = {}
    done = set()
    for l in open(os.path.join(work, 'log.jsonl')):
        d = json.loads(l); done.add((d['file'], d.get('at', ''), d['what']))

    def worker(k):
        w = os.path.join(work, str(k)); repo, verif = w + '/repo', w + '/verif'
        if not os.path.exists(w):
            os.makedirs(w)
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            for f in ('Cargo.lock',):
                if os.path.exists('/repo/' + f) and not os.path.exists(repo + '/' + f): shutil.copy('/repo/' + f, repo)
        kept = os.path.join(w, 'build')
        shutil.rmtree(verif, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/verif', verif], check=True)
        subprocess.run('git -C /verif diff HEAD | git -C %s apply --allow-empty' % verif, shell=True)
        subprocess.run(['sed', '-i', 's#/repo/#%s/#' % repo, verif + '/harness/Cargo.toml'], check=True)
        subprocess.run(['sed', '-i', "s/^WORKERS = .*/WORKERS = '3'/", verif + '/check.py'], check=True)
        os.makedirs(kept, exist_ok=True)
        os.symlink(kept, verif + '/build')
        env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', VERIF_SEED='1', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
        while True:
            try: t = q.get_nowait()
            except queue.Empty: return
            kind, f, old, new, what = t
            if (f, sig_of(t), what) in done: continue
            subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
            p = os.path.join(repo, f); text = open(p).read()
            if kind == 'when':
                if old not in text: raise SystemExit('no such place: ' + old)
                text = text.replace(old, new, 1)
            else:
                ls = text.split('\n'); ls[old] = new; text = '\n'.join(ls)
            open(p, 'w').write(text)
            def fate():
                try: r = subprocess.run(['cargo', 'test', '--workspace', '--offline', '-q'], cwd=repo, env=env, capture_output=True, text=True, timeout=120)
                except subprocess.TimeoutExpired: return 'tests hang', ''
                if r.returncode: return ('does not build' if 'could not compile' in r.stderr else 'tests fail'), ''
                for c in order(t):
                    try: r = subprocess.run(['python3', 'check.py', c, 'quick'], cwd=verif, env=env, capture_output=True, text=True, timeout=900)
                    except subprocess.TimeoutExpired: return 'no answer', c
                    if r.returncode == 1: return 'caught', c
                    if r.returncode: return 'no answer', c + r.stdout[-300:]
                return 'SURVIVES', ''
            fa, by = fate()
            with lock:
                counts[fa] = counts.get(fa, 0) + 1
                log.write(json.dumps(dict(fate=fa, by=by, kind=kind, file=f, at=sig_of(t), what=what)) + '\n'); log.flush()
                if fa in ('SURVIVES', 'no answer'): print(fa, by, f, what, sig_of(t), flush=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(o.jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(counts)
main()
