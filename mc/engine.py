"""Explores all of the shards of one check in parallel workers, and reports.

    python -m mc.engine C01 [--tier quick|thorough] [--replay FILE] [--workers N] [--shards i,j,..]
"""
import argparse
import hashlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
OUT = os.environ.get('MC_OUT', ROOT)   # where evidence and replays go
PYTHON = os.environ.get('MC_PYTHON', '/opt/venv/bin/python')


def load_findings():
    """known_findings.txt: `known: property=C16 key=... <what fails>` and `fixed: property=C03 <commit> <what failed>`"""
    known = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known:'):
                words = line.split()
                prop = words[1].split('=', 1)[1]
                key = words[2].split('=', 1)[1]
                known.append({'property': prop, 'key': key, 'text': ' '.join(words[3:])})
    return known


class Worker:
    def __init__(self, name, tier, env):
        self.proc = subprocess.Popen([PYTHON, '-m', 'mc.worker', name, tier], cwd=ROOT, env=env, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        self.lines, self.err = queue.Queue(), []
        threading.Thread(target=self._pump, daemon=True).start()
        threading.Thread(target=self._pump_err, daemon=True).start()

    def _pump(self):
        for line in self.proc.stdout:
            self.lines.put(line)
        self.lines.put(None)

    def _pump_err(self):
        for line in self.proc.stderr:
            self.err.append(line)
            del self.err[:-40]

    def read(self, timeout):
        """A message, None if the worker died, or 'timeout'"""
        try:
            line = self.lines.get(timeout=max(timeout, 0.1))
        except queue.Empty:
            return 'timeout'
        return None if line is None else json.loads(line)

    def send(self, obj):
        try:
            self.proc.stdin.write(json.dumps(obj) + '\n')
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def close(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.proc.wait()


def environment(tmp, jit, tier, known, findings_prop):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('NUMBA_', 'PYTHON', 'OMP_', 'MKL_'))}
    env.update(PYTHONPATH=f'{REPO}:{ROOT}', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
               NUMBA_CACHE_DIR=os.path.join(tmp, 'numba'), MC_TIER=tier, LANG='C.UTF-8', TMPDIR=tmp,
               OPENBLAS_NUM_THREADS='1', HOME=tmp, MC_REPO=REPO,
               MC_KNOWN=json.dumps([k['key'] for k in known if k['property'] == findings_prop]))
    if not jit:
        env['NUMBA_DISABLE_JIT'] = '1'
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=None)
    ap.add_argument('--shards')
    args = ap.parse_args()
    prop, tier = args.prop.upper(), args.tier
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    # The static description of a check (JIT, bounds, ...) is in a header that does not import the code under test
    header = {}
    src = open(os.path.join(ROOT, 'mc', 'checks', prop.lower() + '.py')).read()
    start = src.index('META = ')
    exec(src[start:src.index('\n}\n', start) + 3], header)
    meta = header['META']

    known = load_findings()
    tmp = tempfile.mkdtemp(prefix=f'mc-{prop}-')
    try:
        code = explore(args, prop, tier, seed, meta, known, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def explore(args, prop, tier, seed, meta, known, tmp, t0):
    jit = meta.get('jit', False)
    env = environment(tmp, jit, tier, known, prop)
    n_workers = args.workers or meta.get('workers', {}).get(tier) or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get('MC_BUDGET', 640 if tier == 'quick' else meta.get('thorough_budget', 6 * 3600)))
    hang = meta.get('hang', {}).get(tier, 240 if tier == 'quick' else 3600)
    fails, known_hits, totals = [], {}, {}
    samples, counters = [], {}

    if args.replay:
        rep = json.load(open(args.replay))
        w = Worker(prop, rep.get('tier', tier), env)
        first = w.read(200)
        if not isinstance(first, dict) or 'import_error' in first:
            print(first, ''.join(w.err))
            print(f'VIOLATION property={prop} replay={args.replay}')
            return 1
        w.send({'shard': rep.get('shard'), 'case': rep.get('case')})
        r = w.read(hang)
        w.close()
        if isinstance(r, dict) and not r['fails']:
            print(f'replay of {args.replay}: property {prop} held, known findings hit: {r["known_hits"]}')
            return 0
        print(json.dumps(rep.get('case'))[:2000])
        print(r['fails'][0]['message'] if isinstance(r, dict) else f'worker: {r}\n' + ''.join(w.err))
        print(f'VIOLATION property={prop} replay={args.replay}')
        return 1

    # The list of shards comes from a first worker, which also fills the cache of compiled code
    first = Worker(prop, tier, env)
    answer = first.read(420)
    if not isinstance(answer, dict) or 'import_error' in answer:
        text = answer.get('import_error') if isinstance(answer, dict) else f'worker: {answer}\n' + ''.join(first.err)
        first.close()
        return report(args, prop, tier, seed, meta, known, {}, [], {}, [{'case': None, 'shard': None, 'key': None,
                      'message': 'could not be imported or set up: ' + str(text)}], {}, t0, 0, 0, True)
    shards = subprocess.run([PYTHON, '-c', 'import importlib,json,sys;m=importlib.import_module("mc.checks."+sys.argv[1]);'
                             'print("\\n@@"+json.dumps(m.shards(sys.argv[2])))', prop.lower(), tier], cwd=ROOT, env=env,
                            capture_output=True, text=True, timeout=300)
    if shards.returncode != 0 or '@@' not in shards.stdout:
        first.close()
        return report(args, prop, tier, seed, meta, known, {}, [], {}, [{'case': None, 'shard': None, 'key': None,
                      'message': 'shards: ' + shards.stderr[-3000:]}], {}, t0, 0, 0, True)
    shards = json.loads(shards.stdout.split('@@')[1])
    if args.shards:
        shards = [shards[int(i)] for i in args.shards.split(',')]
    every = int(os.environ.get('MC_EVERY', 1))   # Only for trying out planted bugs: a part of the shards, until the first violation
    shards = [s for i, s in enumerate(shards) if i % every == 0 or i == len(shards) - 1]
    todo = queue.Queue()
    for s in shards:
        todo.put(s)
    lock, done, stop = threading.Lock(), [0], threading.Event()
    totals = {'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0, 'outcomes': 0}
    capped = [False]

    def loop(worker):
        while not stop.is_set():
            try:
                shard = todo.get_nowait()
            except queue.Empty:
                break
            if time.time() - t0 > budget:
                capped[0] = True
                break
            if worker is None:
                worker = Worker(prop, tier, env)
                ready = worker.read(300)
                if not isinstance(ready, dict) or 'import_error' in ready:
                    with lock:
                        fails.append({'case': None, 'shard': shard, 'key': None,
                                      'message': f'worker did not start: {ready} ' + ''.join(worker.err)})
                    stop.set()
                    break
            worker.send({'shard': shard, 'deadline': t0 + budget})
            t1 = time.time()
            r = worker.read(hang)
            while isinstance(r, dict) and 'beat' in r:
                r = worker.read(hang)
            if r is None or r == 'timeout':
                with lock:
                    what = f'did not return within {hang} s' if r == 'timeout' else 'crashed the process'
                    fails.append({'case': None, 'shard': shard, 'key': None,
                                  'message': f'exploring this shard {what}\n' + ''.join(worker.err)})
                worker.close()
                worker = None
                stop.set()
                break
            with lock:
                done[0] += 1
                if os.environ.get('MC_VERBOSE'):
                    print(f'  shard {done[0]}/{len(shards)} {str(shard)[:100]} {time.time() - t1:.1f}s '
                          f'{ {k: r[k] for k in totals} }', flush=True)
                for k in totals:
                    totals[k] += r[k]
                for k, v in r['counters'].items():
                    counters[k] = counters.get(k, 0) + v
                capped[0] |= r['capped']
                for k, v in r['known_hits'].items():
                    known_hits[k] = known_hits.get(k, 0) + v
                if len(samples) < 6:
                    samples.extend(r['samples'][:1])
                fails.extend(r['fails'])
                if len(fails) >= int(os.environ.get('MC_STOP', 10)):
                    stop.set()
        if worker is not None:
            worker.close()

    threads = [threading.Thread(target=loop, args=(first if i == 0 else None,)) for i in range(min(n_workers, max(len(shards), 1)))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return report(args, prop, tier, seed, meta, known, totals, samples, counters, fails, known_hits, t0, done[0],
                  len(shards), capped[0])


def report(args, prop, tier, seed, meta, known, totals, samples, counters, fails, known_hits, t0, n_done, n_shards, capped):
    fails.sort(key=lambda f: (f['case'] is None, len(json.dumps(f['case'], default=repr))))
    for k in known:
        if k['property'] == prop and k['key'] in known_hits:
            print(f"KNOWN-FINDING: property={prop} {k['text']} (hit by {known_hits[k['key']]} explored cases)")
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': totals.get('states', 0), 'transitions': totals.get('transitions', 0),
            'traces_validated_against_impl': totals.get('traces', 0), 'evaluations': totals.get('cases', 0),
            'distinct_nontrivial': totals.get('outcomes', 0),
            'rule': meta['rule'], 'samples': samples or ['none'], 'exhaustive': not capped and not fails and n_done == n_shards,
            'bounds': meta['bounds'][tier] if isinstance(meta['bounds'], dict) else meta['bounds'],
            'shards_completed': n_done, 'shards': n_shards, 'counters': counters,
            'known_findings_hit': known_hits,
        },
        'assumptions': meta.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(fails),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    path = os.path.join(OUT, 'evidence', f'{prop}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write('\n')
    os.replace(path + '.tmp', path)
    print(f'{prop} {tier}: {n_done}/{n_shards} shards, {totals} {counters} in {wall:.1f} s' + (' (capped)' if capped else ''))
    if not fails:
        return 0
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
    seen = set()
    for f in fails[:3]:
        body = json.dumps({'property': prop, 'tier': tier, 'shard': f['shard'], 'case': f['case'], 'message': f['message']},
                          indent=1, default=repr)
        name = f'{prop}-{hashlib.blake2b(body.encode(), digest_size=5).hexdigest()}.json'
        if name in seen:
            continue
        seen.add(name)
        rp = os.path.join(OUT, 'replays', name)
        with open(rp, 'w') as fh:
            fh.write(body)
        print('case:', json.dumps(f['case'], default=repr)[:1500])
        print(f['message'][:2500])
        print(f'VIOLATION property={prop} replay={rp}', flush=True)
    return 1


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        os._exit(3)
