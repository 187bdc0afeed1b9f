"""Shared pieces of the checks: the exploration context, the way violations are reported, comparisons."""
import hashlib
import json
import math
import time

MAX_FAILS_PER_SHARD = 3


class Bad(Exception):
    """The property does not hold for the case at hand. `key` identifies the call site or input, for known findings."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class StopShard(Exception):
    pass


def dumps(obj):
    return json.dumps(obj, sort_keys=True, default=repr)


class Ctx:
    """What one worker found while it explored one shard."""

    def __init__(self, module, shard, known=(), limit=MAX_FAILS_PER_SHARD, deadline=None):
        self.module, self.shard, self.known, self.limit = module, shard, set(known), limit
        self.states, self.outcomes = set(), set()
        self.transitions = self.traces = self.cases = 0
        self.samples, self.fails, self.known_hits, self.counters = [], [], {}, {}
        self.hash_states = True
        self.deadline, self.capped = deadline, False
        self.beat, self.last_beat = None, time.monotonic()

    @staticmethod
    def digest(obj):
        return hashlib.blake2b((obj if isinstance(obj, str) else dumps(obj)).encode(), digest_size=8).digest()

    def state(self, obj):
        """Registers a visited (canonical) state. Returns True if it has not been seen in this shard before"""
        h = self.digest(obj)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def outcome(self, obj):
        if len(self.outcomes) < 200000:
            self.outcomes.add(self.digest(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, case, message, key=None):
        if key is not None and key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        self.fails.append({'case': case, 'message': str(message)[:3000], 'key': key, 'shard': self.shard})
        if len(self.fails) >= self.limit:
            raise StopShard()

    def do(self, case, fn=None):
        """Runs one case; anything that goes wrong while it runs, including unexpected exceptions, is a violation"""
        self.cases += 1
        if self.beat is not None and time.monotonic() - self.last_beat > 10:
            self.last_beat = time.monotonic()
            self.beat()    # Only a single case which does not return is taken for a hang, however slow the machine
        if self.deadline is not None and self.cases % 16 == 0:
            if time.time() > self.deadline:
                self.capped = True
                raise StopShard()
        self.sample(case)
        try:
            (fn or self.module.run_case)(case, self)
        except (StopShard, KeyboardInterrupt, MemoryError):
            raise
        except Bad as e:
            self.fail(case, e, e.key)
        except BaseException as e:  # includes pandas' / numba's own errors
            import traceback
            self.fail(case, f'unexpected {type(e).__name__}: {e}\n' + ''.join(traceback.format_exc()[-1800:]))

    def result(self):
        return {'states': len(self.states), 'transitions': self.transitions, 'traces': self.traces,
                'cases': self.cases, 'outcomes': len(self.outcomes), 'samples': self.samples, 'fails': self.fails,
                'known_hits': self.known_hits, 'counters': self.counters, 'capped': self.capped}


def close(a, b, rtol=1e-9, atol=0.0):
    """Element-wise closeness of numpy arrays, infinities and nulls being equal to themselves"""
    import numpy as np
    a, b = np.asarray(a, dtype='f8'), np.asarray(b, dtype='f8')
    if a.shape != b.shape:
        return np.zeros(1, dtype=bool)
    with np.errstate(all='ignore'):
        return (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))


def check_close(what, got, want, rtol=1e-9, atol=0.0, show=None):
    import numpy as np
    got, want = np.asarray(got, dtype='f8'), np.asarray(want, dtype='f8')
    if got.shape != want.shape:
        raise Bad(f'{what}: shape {got.shape}, expected {want.shape}')
    ok = close(got, want, rtol, atol)
    if not ok.all():
        at = tuple(int(i) for i in np.argwhere(~ok)[0])
        extra = '' if show is None else f' [{show(at)}]'
        raise Bad(f'{what}: got {got[at]!r}, expected {want[at]!r} at {at}{extra}; {int((~ok).sum())} of {ok.size} cells differ'
                  + (f'\n got {got.tolist()}\nwant {want.tolist()}' if got.size <= 60 else ''))


def expect_raise(what, fn, names=None):
    """The call has to be rejected, by an exception of one of the given class names (or any exception at all)"""
    try:
        r = fn()
    except Exception as e:
        if names is not None and not any(c.__name__ in names for c in type(e).__mro__):
            raise Bad(f'{what}: raised {type(e).__name__}: {e}, expected {sorted(names)}')
        return e
    raise Bad(f'{what}: was accepted (returned {str(r)[:300]}) instead of being rejected')


def chunks(seq, n):
    """Deals out a list to at most n shards of about the same size"""
    seq = list(seq)
    out = [seq[i::n] for i in range(n)]
    return [c for c in out if c]


def isnan(x):
    return isinstance(x, float) and math.isnan(x)
