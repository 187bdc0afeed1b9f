#!/usr/bin/env python3
"""usage: tools/seed_check.py ID [ID...] [--no-check] [--all-checks] [--no-tests] [-j N]

Confirms planted bugs in scratch copies of /repo: the patch applies, touches original lines, the stable
tests pass, demo.sh passes without and fails with it, and which checks (default: that of its property)
report it."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--no-check', action='store_true')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--checks', default='')
ap.add_argument('-j', type=int, default=1)
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(f'{V}/seeded'))
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
ENV = dict(os.environ, HOME='/root', PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1')

def sh(cmd, cwd, env=None, timeout=1000):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout

BASE = '7b06e36'
def original_lines():
    pass

def one(i):
    d = f'{V}/seeded/{i}'
    meta = json.load(open(f'{d}/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    out = []
    try:
        repo = f'{tmp}/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        demo = f'{tmp}/demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        env = dict(ENV, NUMBA_CACHE_DIR=f'{tmp}/nb')
        t = time.time(); rc, o = sh(['bash', f'{demo}/demo.sh'], repo, env); 
        out.append(f'demo-clean={"ok" if rc == 0 else "FAIL"}({time.time()-t:.0f}s)')
        if rc: out.append(o[-1500:])
        rc, o = sh(['git', 'apply', f'{d}/patch.diff'], repo)
        if rc: return i, ['PATCH DOES NOT APPLY ' + o]
        # original lines: removed lines must come from the base commit
        rc, o = sh(['git', 'diff', '-U0'], repo)
        import re
        orig = 0; new = 0
        f = None
        for line in o.splitlines():
            m = re.match(r'^--- a/(.*)', line)
            if m: f = m.group(1)
            m = re.match(r'^@@ -(\d+)(?:,(\d+))? ', line)
            if m:
                n = int(m.group(2) or 1)
                for k in range(n):
                    rc, b = sh(['git', 'blame', '-l', '-L', f'{int(m.group(1))+k},+1', 'HEAD', '--', f], repo)
                    rc2, _ = sh(['git', 'merge-base', '--is-ancestor', b.split()[0].lstrip('^'), BASE], repo)
                    if b.startswith('^') or rc2 == 0: orig += 1
                    else: new += 1
        out.append(f'lines original={orig} mine={new}')
        rc, o = sh(['bash', f'{demo}/demo.sh'], repo, env)
        out.append(f'demo-patched={"fails(ok)" if rc else "PASSES(BAD)"}')
        if not a.no_tests:
            x = f'{tmp}/junit.xml'
            rc, o = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', f'--junitxml={x}', '-o', 'junit_family=xunit2', 'testing'], repo, env)
            import xml.etree.ElementTree as ET
            ok = {f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(x).iter('testcase') if not len(c)}
            bad = [s for s in stable if s not in ok]
            out.append('tests=ok' if not bad else f'TESTS FAIL {bad}')
        if not a.no_check:
            for c in (a.checks.split(',') if a.checks else [meta['property']]):
                t = time.time()
                e = dict(env, MC_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick', MC_OUT=tmp)
                rc, o = sh([f'{V}/check.sh', c], V, e)
                v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                out.append(f'{c}: rc={rc} {"CAUGHT" if rc == 1 and v else "MISSED"} {time.time()-t:.0f}s {v[:1]}')
                if rc not in (0, 1): out.append(o[-800:])
    except Exception as e:
        out.append(f'ERROR {e!r}')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return i, out

with ThreadPoolExecutor(a.j) as ex:
    for i, out in ex.map(one, ids):
        print(i, *out, sep='\n   ', flush=True)
