"""Concrete search: after a failed obligation, look for an input on which the real code breaks the
property, comparing it with the independent math/big oracles of /verif/replay."""
import json, os, re, shutil, subprocess, tempfile
import driver

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def search(prop, seed, tier, budget, log, hints=()):
    src = os.path.join(HERE, 'replay', prop + '.go.txt')
    if not os.path.exists(src):
        return None
    secs = max(20, min(budget - 90, 120 if tier == 'quick' else 600))
    d = tempfile.mkdtemp(prefix='vfr')
    try:
        rep = {}
        for n in ('common', prop):
            f = os.path.join(d, n + '.go')
            shutil.copy(os.path.join(HERE, 'replay', n + '.go.txt'), f)
            rep[os.path.join(driver.REPO, 'zz_verif_%s_test.go' % n.lower())] = f
        ov = os.path.join(d, 'overlay.json')
        with open(ov, 'w') as f:
            json.dump({'Replace': rep}, f)
        env = dict(driver.GOENV, VERIF_SEED=str(seed), VERIF_BUDGET=str(secs),
                   VERIF_HINTS=','.join(str(c) for c in hints))
        try:
            p = subprocess.run(['go', 'test', '-overlay', ov, '-vet=off', '-count=1', '-run', '^TestVerifReplay$',
                                '-timeout', '%ds' % (secs + 60), '.'], cwd=driver.REPO, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 85)
        except subprocess.TimeoutExpired:
            log('replay: time limit')
            return None
        out = p.stdout.decode('utf-8', 'replace')
        log('replay: rc %d %s' % (p.returncode, out[-300:]))
        m = re.search(r'FAILING INPUT: (.*)', out)
        if m:
            return '%s\n\nfound by: VERIF_SEED=%d, test TestVerifReplay of /verif/replay/%s.go.txt, placed next to the code with go test -overlay' % (
                m.group(1)[:6000], seed, prop)
        # the package itself is broken at start-up, or the run died in the code under test
        if p.returncode and re.search(r'^(panic:|fatal error:)', out, re.M) and 'panic: test timed out' not in out:
            return 'the test process died:\n' + out[-3000:]
        return None
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
