#!/usr/bin/env python3
"""Tries the planted changes: seedtest.py [-p PROPERTY] [-n] [-t TIER] [ID...]

For every change in /verif/seeded (or those named): in a scratch copy of /repo it builds, runs the
stable tests, runs the demonstration without and with the change, and (without -n) runs the check of
its property, and of the other properties given with -a, against the changed copy. Not used by the checks."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument('-n', action='store_true', help='no checks')
ap.add_argument('-a', default='', help='further properties to check, or "all"')
ap.add_argument('-t', default='quick')
ap.add_argument('-j', type=int, default=1)
ap.add_argument('-k', action='store_true', help='checks only')
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/seeded'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    r = d + '/repo'
    shutil.copytree('/repo', r, symlinks=True)
    os.makedirs(d + '/vp')
    for f in os.listdir('/opt/vp'):
        p = '/opt/vp/' + f
        if os.path.isfile(p):
            s = open(p, errors='replace').read().replace('/repo', r).replace('/opt/vp', d + '/vp')
            open(d + '/vp/' + f, 'w').write(s)
    return d


def one(i):
    t0 = time.time()
    m = json.load(open(f'{S}/{i}/meta.json'))
    res = {'id': i, 'property': m['property']}
    d = copy()
    r = d + '/repo'
    try:
        demo = d + '/demo'
        shutil.copytree(f'{S}/{i}', demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        if not a.k:
            sh(['bash', d + '/vp/build.sh'], r)
            x = sh(['bash', demo + '/demo.sh'], r, timeout=300)
            res['clean'] = x.returncode
            if x.returncode:
                res['clean_out'] = x.stdout.decode(errors='replace')[-600:]
        x = sh(['git', 'apply', f'{S}/{i}/patch.diff'], r)
        if x.returncode:
            res['apply'] = x.stdout.decode()
            return res
        if not a.k:
            x = sh(['bash', d + '/vp/build.sh'], r)
            res['build'] = x.returncode
            w = [l for l in x.stdout.decode().splitlines() if 'warning' in l]
            if w:
                res['warnings'] = w[:3]
            x = sh(['bash', d + '/vp/test.sh', d + '/o.json'], r)
            o = json.load(open(d + '/o.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            bad = [b for b in base if b not in o['passed']]
            res['tests'] = 'ok' if not bad else bad
            x = sh(['bash', demo + '/demo.sh'], r, timeout=300)
            res['patched'] = x.returncode
            res['out'] = x.stdout.decode(errors='replace')[-200:]
        if not a.n:
            man = json.load(open(V + '/MANIFEST.json'))
            props = [m['property']]
            if a.a == 'all':
                props += [c['property'] for c in man['checks'] if c['property'] not in props]
            elif a.a:
                props += a.a.split(',')
            for p in props:
                env = dict(os.environ, VP_REPO=r, VERIF_SEED='1', VERIF_TIER=a.t, VP_OUT=d + '/out')
                t = time.time()
                x = sh([sys.executable, V + '/run.py', p, '--tier', a.t], V, env=env, timeout=3600)
                out = x.stdout.decode(errors='replace')
                v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                ok = x.returncode == 1 and any(('property=' + p) in l for l in v)
                res['check ' + p] = ('CAUGHT' if ok else 'missed (rc %d)' % x.returncode) + ' %.0fs' % (time.time() - t)
                if ok:
                    k = [l for l in out.splitlines() if l.strip() and not l.startswith('VIOLATION')]
                    res['why ' + p] = (k[0] if k else '')[:200]
                elif x.returncode:
                    res['why ' + p] = out[-400:]
    except subprocess.TimeoutExpired as e:
        res['timeout'] = str(e)[:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res['s'] = round(time.time() - t0)
    return res


ids = a.ids or sorted(os.listdir(S))
with ThreadPoolExecutor(a.j) as ex:
    for res in ex.map(one, ids):
        bad = ('tests' in res and res['tests'] != 'ok') or res.get('clean') or res.get('patched') == 0 or res.get('build')
        print(('BAD ' if bad else 'ok  ') + res.pop('id'), json.dumps(res), flush=True)
