"""Runs the verification tasks of one property and reports."""
import json, multiprocessing, os, pickle, re, select, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
GOENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off',
             HOME=os.environ.get('HOME') or '/root')


def build_extractor():
    d = os.path.join(HERE, '.build')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'xtr')
    src = os.path.join(HERE, 'extract', 'main.go')
    if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(src):
        return out
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=os.path.join(HERE, 'extract'), env=GOENV,
                   check=True, timeout=600)
    os.replace(tmp, out)
    return out


# packages of the standard library whose functions are executed from their source when they are called
# and have no contract in models.py
SOURCE = ['encoding/binary', 'internal/byteorder', 'math/bits', 'bytes', 'strings', 'unicode/utf8', 'sort', 'slices',
          'math', 'cmp', 'crypto/subtle', 'crypto/internal/fips140/subtle', 'crypto/internal/constanttime', 'io', 'errors',
          'internal/stringslite', 'encoding/hex']


def extract(path):
    x = build_extractor()
    subprocess.run([x, REPO, path, 'github.com/proximax-storage/go-xpx-utils'] + ['+' + p for p in SOURCE], env=GOENV, check=True,
                   timeout=300)


def constants(path, pkg='github.com/proximax-storage/go-xpx-crypto'):
    """integer constants of the code, for the generators of the concrete search"""
    def walk(v, r):
        if isinstance(v, dict):
            if v.get('k') == 'const':
                try:
                    r.add(int(v.get('v')))
                except (TypeError, ValueError):
                    pass
            else:
                for x in v.values():
                    walk(x, r)
        elif isinstance(v, list):
            for x in v:
                walk(x, r)
    out = set()
    with open(path) as f:
        for n, fn in json.load(f)['funcs'].items():
            if pkg in n:
                r = set()
                walk(fn.get('blocks'), r)
                r = {c for c in r if 16 < c <= 1 << 18}
                if len(r) < 14:
                    out |= r
    return sorted(out)


def child(fn, w):
    """run one task in a forked process, pickle the result to w"""
    try:
        r = fn()
    except BaseException as e:
        r = {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()}
    with os.fdopen(w, 'wb') as f:
        pickle.dump(r, f)
    os._exit(0)


class Pool:
    def __init__(self, n, deadline, tlimit):
        self.n, self.deadline, self.tlimit = n, deadline, tlimit
        self.run = {}
        self.done = {}

    def start(self, name, fn):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            child(fn, w)
        os.close(w)
        self.run[r] = [name, pid, time.time(), b'']

    def kill(self, fd):
        name, pid, t, buf = self.run.pop(fd)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(fd)
        return name, time.time() - t

    def wait(self):
        """next finished (name, result, seconds)"""
        while True:
            now = time.time()
            for fd in list(self.run):
                if now - self.run[fd][2] > self.tlimit or now > self.deadline:
                    n, t = self.kill(fd)
                    return n, {'error': 'time limit of %d s' % t}, t
            rs, _, _ = select.select(list(self.run), [], [], 1.0)
            for fd in rs:
                d = os.read(fd, 1 << 20)
                if d:
                    self.run[fd][3] += d
                    continue
                name, pid, t, buf = self.run.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                try:
                    r = pickle.loads(buf)
                except Exception:
                    r = {'error': 'the verification process died'}
                return name, r, time.time() - t


def verify(prop, tier, roots_of, tasks_of, ex, deadline, log):
    """run the roots of a property and the contracts they rely on"""
    tasks = tasks_of(ex)
    todo = [r for r in roots_of(ex, prop)]
    seen = set(todo)
    pool = Pool(min(8, os.cpu_count() or 4), deadline, 600 if tier == 'quick' else 3000)
    results = {}
    todo.reverse()
    while todo or pool.run:
        while todo and len(pool.run) < pool.n:
            n = todo.pop()
            t = tasks.get(n)
            if t is None:
                results[n] = ({'missing': True}, 0.0)
                continue
            pool.start(n, t)
        if not pool.run:
            continue
        name, r, dt = pool.wait()
        results[name] = (r, dt)
        log('%-70s %6.2fs %s' % (name[-70:], dt, r.get('error') or '%d obligations' % len(r.get('obls', ()))))
        for a in r.get('applied', ()):
            if a not in seen:
                seen.add(a)
                todo.append(a)
    return results


def run_task(ex, fn):
    """wrap a verification function into a picklable result"""
    import state

    def go():
        ex.inlined, ex.applied, ex.assumed = set(), set(), set()
        ex.nomatch = []
        c0 = dict(state.SMT_STATS)
        obls = fn(ex)
        return {
            'obls': [(o.func, o.name, bool(o.ok), o.backend, o.time, str(o.detail)[:4000], [str(t)[:300] for t in o.trace][-20:])
                     for o in obls],
            # models of functions whose source is at hand are contracts: they are verified as well
            'applied': sorted(ex.applied | {n for n in ex.assumed if n in ex.contracts}), 'inlined': sorted(ex.inlined), 'assumed': sorted(ex.assumed),
            'nomatch': sorted(set(ex.nomatch))[:40],
            'smt': {k: state.SMT_STATS[k] - c0.get(k, 0) for k in state.SMT_STATS},
        }
    return go


def known_findings(prop):
    out = {}
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' | ')
                out[key.strip()] = what
    except FileNotFoundError:
        pass
    return out


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or '1')
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    import props
    info = props.PROPS[prop]
    failures = []          # (function, obligation, detail, trace)
    results = {}
    stage = 'extract'
    log = (lambda s: print(s, file=sys.stderr)) if os.environ.get('VERIF_LOG') else (lambda s: None)
    ex = None
    hints = ()
    tmp = tempfile.mkdtemp(prefix='vf')
    try:
        js = os.path.join(tmp, 'ssa.json')
        extract(js)
        hints = constants(js)
        stage = 'load'
        import engine
        ex = engine.load(js)
        ex.tier = tier
        stage = 'verify'
        results = verify(prop, tier, props.roots_of, props.tasks_of, ex,
                         t0 + (420 if tier == 'quick' else 3000), log)
    except Exception as e:
        failures.append((stage, 'the code can be analysed', '%s: %s' % (type(e).__name__, str(e)[:2000]),
                         traceback.format_exc().splitlines()[-12:]))
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)

    functions, backends, nobl, ndis = [], {}, 0, 0
    bounded = {}           # stand-ins: function -> number of inputs executed, why there is no proof
    inlined, assumed, nomatch = set(), set(), set()
    smt = {}
    only = re.compile(info['only']) if info.get('only') else None
    for name, (r, dt) in sorted(results.items()):
        if r.get('missing'):
            failures.append((name, 'contract target exists', 'the function is not in the program', []))
            nobl += 1
            continue
        if 'error' in r:
            failures.append((name, 'verified', r['error'], (r.get('tb') or '').splitlines()[-12:]))
            nobl += 1
            continue
        if not r['obls']:
            failures.append((name, 'non-vacuous', 'no obligation was generated', []))
        ok = mine = 0
        for (fn, on, good, be, tt, det, tr) in r['obls']:
            if only and not only.search(on):
                continue
            if good and be == 'bounded execution':
                bounded.setdefault(fn, [0, det])[0] += 1
                continue
            nobl += 1
            mine += 1
            if good:
                ndis += 1
                ok += 1
                backends[be] = backends.get(be, 0) + 1
            else:
                failures.append((fn, on, det, tr))
        functions.append({'function': name, 'obligations': mine, 'discharged': ok,
                          'seconds': round(dt, 2)})
        inlined.update(r['inlined']); assumed.update(r['assumed'])
        for k, v in r['smt'].items():
            smt[k] = smt.get(k, 0) + v
    if not results and not failures:
        failures.append((prop, 'non-vacuous', 'nothing was verified', []))

    known = known_findings(prop)
    real = []
    for f in failures:
        key = '%s :: %s' % (f[0], f[1])
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
        else:
            real.append(f)

    viol = 0
    rp = os.path.join(HERE, 'evidence', '%s.replay.txt' % prop)
    if os.path.exists(rp):
        os.unlink(rp)
    found = None
    left = (t0 + 780) - time.time()
    if real or bounded:
        # a failed obligation: look for an input that shows it.  A bounded stand-in: it executes the listed lengths only,
        # a concrete search around the constants of the code goes with it
        try:
            import replay
            found = replay.search(prop, seed, tier, max(60, left if real else min(left, 150)), log, hints)
        except Exception as e:
            found = None
            log('replay search failed: %r' % (e,))
    if found and not real:
        real.append((sorted(bounded)[0], 'bounded check, concrete search', found[:300], []))
    if real:
        viol = 1
        with open(rp, 'w') as f:
            f.write('property %s\n\n' % prop)
            if found:
                f.write('FAILING INPUT, replayed against the code in /repo\n%s\n\n' % found)
            else:
                f.write('No failing input was found by the concrete search.\n\n')
            f.write('FAILED OBLIGATIONS\n')
            for fn, on, det, tr in real[:200]:
                f.write('\n%s\n  obligation: %s\n  verifier: %s\n' % (fn, on, det))
                for x in tr:
                    f.write('    path: %s\n' % x)
            for name, (r, dt) in sorted(results.items()):
                if r.get('nomatch'):
                    f.write('\ncalls in %s whose contract did not match (executed instead):\n' % name)
                    for x in r['nomatch']:
                        f.write('    %s\n' % (x,))
    sub = [f['function'] for f in functions]
    assumed = {props.PARTIAL.get(a, '') if a in sub else a for a in assumed} - {''}
    cov = {
        'obligations': nobl, 'discharged': ndis,
        'checker_cmd': 'python3-vt check.py %s' % prop,
        'trusted_base': sorted(assumed) + props.TRUSTED,
        'functions_under_contract': functions,
        'functions_executed_inline': sorted(x for x in inlined if x not in sub),
        'back_ends': backends,
        'solver': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in smt.items()},
        'bounded': info.get('bounded', []) + [
            '%s: executed on %d listed inputs only, and a concrete search found no violation (%s)' % (fn, n, why) for fn, (n, why) in sorted(bounded.items())],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': info['level'], 'coverage': cov,
          'assumptions': props.ASSUMPTIONS + info.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        for fn, on, det, tr in real[:10]:
            print('FAILED %s: %s: %s' % (fn, on, det[:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if found else ' no-failing-input-found'))
        return 1
    print('OK property=%s obligations=%d discharged=%d functions=%d wall=%.1fs' % (
        prop, nobl, ndis, len(functions), time.time() - t0))
    return 0
