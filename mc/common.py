'''Shared machinery: importing the code under test, counting what was explored, recording
violations as replayable cases, and running tasks over all cores.

A check module (mc/cNN.py) provides

    TITLE, LEVEL, RULE
    tasks(tier)        -> list of JSON-able task descriptors, together the whole bounded space
    run(task, res)     -> enumerates the task's cases, calling res.case(fn, *args) on each

where fn is a module-level function that executes the real code on one case and compares it
with the reference, raising Mismatch when they disagree.  Any exception that escapes fn is a
violation: the functions catch what the property allows.  Cases are JSON-able, so a violation
is replayed by calling fn(*args) again, without the explorer.
'''

import hmac
import json
import os
import random
import signal
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

# --- Seams owned by the harness, installed before the code under test is imported -------------


class Entropy:
    '''Decides what the operating system's random source answers.'''

    def __init__(self):
        self.rng = random.Random(0)
        self.script = None
        self.drawn = []

    def __call__(self, size):
        if self.script is not None:
            data = self.script(size)
        else:
            data = self.rng.randbytes(size)
        if len(self.drawn) < 10000:
            self.drawn.append(data)
        return data

    def reset(self, script=None, seed=0):
        self.rng.seed(seed)
        self.script = script
        self.drawn = []


entropy = Entropy()


class HmacSeam:
    '''hmac.digest, except for answers scripted by the harness (to reach results that no real key
    is known to give).'''

    def __init__(self):
        self.real = hmac.digest
        self.script = None
        self.used = 0

    def __call__(self, key, msg, digest):
        if self.script is not None:
            answer = self.script(bytes(key), bytes(msg))
            if answer is not None:
                self.used += 1
                return answer
        return self.real(key, msg, digest)


hmac_seam = HmacSeam()


def own_entropy():
    os.urandom = entropy
    random._urandom = entropy
    hmac.digest = hmac_seam


class Mismatch(Exception):
    '''The code under test disagrees with the property's oracle.'''


class CaseTimeout(BaseException):
    pass


def same_kind(got, want):
    '''Equal values are also of the same kind: True is not 1, nor is 1.0, nor a buffer its bytes.'''
    kind = type(want)
    if kind is bytes or kind is str:
        return isinstance(got, kind)
    if kind is int:
        return isinstance(got, int) and type(got) is not bool
    if kind is bool:
        return type(got) is bool
    if (kind is tuple or kind is list) and isinstance(got, (tuple, list)) and len(got) == len(want):
        for g, w in zip(got, want):
            if not same_kind(g, w):
                return False
    return True


def eq(got, want, what=''):
    if got != want or not same_kind(got, want):
        raise Mismatch(f'{what}: got {show(got)}, expected {show(want)}')


def true(cond, what):
    if not cond:
        raise Mismatch(what)


def raises(exc, fn, *args, what='', **kwargs):
    '''fn must raise exc (or a subclass).'''
    try:
        got = fn(*args, **kwargs)
    except exc:
        return
    except Exception as e:
        names = exc.__name__ if isinstance(exc, type) else '/'.join(e.__name__ for e in exc)
        raise Mismatch(f'{what}: raised {type(e).__name__}({e}), expected {names}') from e
    names = exc.__name__ if isinstance(exc, type) else '/'.join(e.__name__ for e in exc)
    raise Mismatch(f'{what}: returned {show(got)}, expected {names}')


def outcome(fn, *args, **kwargs):
    '''The result of a call as a comparable value; exceptions by their type.'''
    try:
        return ('ok', fn(*args, **kwargs))
    except Exception as e:
        return ('exc', type(e).__name__)


def show(x, limit=300):
    r = x.hex() if isinstance(x, (bytes, bytearray)) else repr(x)
    return r if len(r) <= limit else r[:limit] + '...'


def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {'b': bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {'d': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return int(x) if abs(x) < 1 << 53 else {'i': str(int(x)) if abs(x) < 1 << 4000 else hex(x)}
    if isinstance(x, float):
        return x
    raise TypeError(f'cannot encode {type(x)}')


def dec(x):
    if isinstance(x, dict):
        if 'b' in x:
            return bytes.fromhex(x['b'])
        if 'i' in x:
            return int(x['i'], 0)
        return {dec(k): dec(v) for k, v in x['d']}
    if isinstance(x, list):
        return tuple(dec(y) for y in x)
    return x


CASE_SECONDS = 90


class Res:
    '''What one task explored.'''

    MAX_VIOL = 3

    def __init__(self, known=()):
        self.evals = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.viol = []
        self.known_hits = []
        self.known = known

    def note(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def case(self, fn, *args, seconds=CASE_SECONDS):
        '''Evaluate one case.  fn returns a short label of the behaviour class it saw.'''
        self.evals += 1
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            label = fn(*args)
        except CaseTimeout:
            self._violation(fn, args, f'did not terminate within {seconds} seconds')
            return None
        except Exception as e:
            msg = str(e) if isinstance(e, Mismatch) else f'unexpected {type(e).__name__}: {e}'
            self._violation(fn, args, msg)
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if isinstance(label, dict):      # counters from a compound case
            self.evals += label.pop('evals', 0)
            self.states += label.pop('states', 0)
            self.transitions += label.pop('transitions', 0)
            self.traces += label.pop('traces', 0)
            for k, v in label.items():
                self.note(k, v)
        else:
            self.note(label or 'ok')
        if len(self.samples) < 2:
            self.samples.append(f'{fn.__name__}{tuple(show(a, 100) for a in args)} -> '
                                f'{show(label, 160)}')
        return label

    def _violation(self, fn, args, msg):
        args = enc(list(args))
        key = json.dumps([fn.__name__, args])
        case = {'module': fn.__module__, 'fn': fn.__name__, 'args': args, 'msg': msg[:2000],
                'key': key}
        if key in self.known:
            self.known_hits.append(case)
            return
        self.viol.append(case)
        if len(self.viol) >= self.MAX_VIOL:
            raise StopTask

    def dump(self):
        return {k: getattr(self, k) for k in
                ('evals', 'states', 'transitions', 'traces', 'outcomes', 'samples', 'viol',
                 'known_hits')}


class StopTask(Exception):
    pass


def _on_alarm(_sig, _frame):
    raise CaseTimeout


def install_alarm():
    signal.signal(signal.SIGALRM, _on_alarm)
