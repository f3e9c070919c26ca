'''Runs one property's check; see ../check.'''

import importlib
import json
import multiprocessing as mp
import os
import queue
import resource
import shutil
import sys
import tempfile
import time
import traceback

from . import common, sched
from .common import VERIF, REPO, Res, StopTask, dec

WATCHDOG = {'quick': 800, 'thorough': 6 * 3600}


def load(prop):
    common.own_entropy()
    sched.own_locks()
    if os.environ.get('MC_NO_AES'):
        sys.modules['Cryptodome'] = None
    import bitcoinx
    real = os.path.realpath(bitcoinx.__file__)
    assert real.startswith(os.path.realpath(REPO) + os.sep), real
    return importlib.import_module('mc.' + prop.lower())


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        entries = json.load(f)['known']
    return {e['key']: e for e in entries if e['property'] == prop}


def worker(prop, known, todo, done, scratch):
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    common.install_alarm()
    os.environ['MC_SCRATCH'] = scratch
    mod = importlib.import_module('mc.' + prop.lower())
    while True:
        try:
            n, task = todo.get()
        except EOFError:
            return
        if n is None:
            return
        res = Res(known)
        error = None
        started = time.time()
        try:
            mod.run(task, res)
        except StopTask:
            pass
        except BaseException:   # a fault of the explorer itself, outside any case
            error = traceback.format_exc()
        done.put((n, res.dump(), error, time.time() - started))


def main():
    args = sys.argv[1:]
    if args[0] == '--replay':
        return replay(args[1])
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    start = time.time()
    try:
        mod = load(prop)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(REPO in fr.filename for fr in tb):
            return violation(prop, {'module': 'bitcoinx', 'fn': 'import', 'args': [], 'key': '',
                                    'msg': f'the package cannot be imported: {e}'})
        raise
    known = known_findings(prop)
    scratch = tempfile.mkdtemp(prefix=f'mc_{prop}_', dir='/dev/shm' if
                               os.path.isdir('/dev/shm') else None)
    try:
        return explore(mod, prop, tier, seed, known, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(mod, prop, tier, seed, known, scratch, start):
    tasks = mod.tasks(tier)
    if os.environ.get('MC_ONLY'):
        tasks = [t for t in tasks if t[0] in os.environ['MC_ONLY'].split(',')]
    ctx = mp.get_context('fork')
    todo, done = ctx.Queue(), ctx.Queue()
    nproc = min(len(tasks), int(os.environ.get('MC_PROCS', os.cpu_count() or 4)))
    for n, task in enumerate(tasks):
        todo.put((n, task))
    for _ in range(nproc):
        todo.put((None, None))
    procs = [ctx.Process(target=worker, args=(prop, known, todo, done, scratch), daemon=True)
             for _ in range(nproc)]
    for p in procs:
        p.start()

    total = Res()
    finished = {}
    bad = None
    errors = []
    deadline = start + WATCHDOG[tier]
    while len(finished) < len(tasks):
        try:
            n, r, error, secs = done.get(timeout=1)
        except queue.Empty:
            if time.time() > deadline:
                left = [t for n, t in enumerate(tasks) if n not in finished]
                bad = {'module': mod.__name__, 'fn': 'run', 'args': [], 'key': '',
                       'msg': f'exploration did not finish; tasks left: {left[:5]}'}
                break
            dead = [p.exitcode for p in procs if not p.is_alive() and p.exitcode != 0]
            if dead and len(finished) < len(tasks):
                try:        # results may still be in flight
                    n, r, error, secs = done.get(timeout=5)
                except queue.Empty:
                    left = [t for n, t in enumerate(tasks) if n not in finished]
                    bad = {'module': mod.__name__, 'fn': 'run', 'args': [], 'key': '',
                           'msg': f'the code under test killed the process ({dead}) in one of '
                                  f'{left[:nproc]}'}
                    break
            else:
                continue
        finished[n] = secs
        total.evals += r['evals']
        total.states += r['states']
        total.transitions += r['transitions']
        total.traces += r['traces']
        for k, v in r['outcomes'].items():
            total.note(k, v)
        if len(total.samples) < 12:
            total.samples.extend(r['samples'])
        total.known_hits.extend(r['known_hits'])
        total.viol.extend(r['viol'])
        if error:
            errors.append((tasks[n], error))
        if total.viol or error:
            break
    for p in procs:
        p.terminate()

    if bad is None and total.viol:
        bad = total.viol[0]
    if bad is None and errors:
        # An exception outside any case.  It is the code's fault if the code raised it.
        task, error = errors[0]
        if f'File "{REPO}/' in error:
            bad = {'module': mod.__name__, 'fn': 'run', 'args': [], 'key': '',
                   'msg': f'unexpected exception in task {task}: {error[-1500:]}'}
        else:
            print(error, file=sys.stderr)
            return 2

    wall = time.time() - start
    write_evidence(mod, prop, tier, seed, total, len(tasks), len(finished), wall, bad)
    for case in total.known_hits:
        print(f"KNOWN-FINDING: property={prop} {known[case['key']]['what']}")
    if bad:
        return violation(prop, bad)
    slow = sorted(((s, n) for n, s in finished.items()), reverse=True)[:3]
    print(f'{prop} {tier}: held on {total.evals} cases, {total.states} states, '
          f'{total.transitions} transitions; {len(total.outcomes)} behaviour classes; '
          f'{wall:.1f}s; slowest tasks {[(round(s, 1), tasks[n]) for s, n in slow]}')
    if os.environ.get('MC_VERBOSE'):
        for k, v in sorted(total.outcomes.items()):
            print(f'   {v:9d} {k}')
    missing = [k for k in getattr(mod, 'EXPECT', ()) if not total.outcomes.get(k)]
    if missing:
        print(f'note: behaviour classes not reached: {missing}', file=sys.stderr)
        if os.environ.get('MC_STRICT'):
            return 3
    return 0


def write_evidence(mod, prop, tier, seed, total, ntasks, nfinished, wall, bad):
    nontrivial = getattr(mod, 'TRIVIAL', ())
    cov = {
        'evaluations': total.evals,
        'distinct_nontrivial': sum(v for k, v in total.outcomes.items() if k not in nontrivial),
        'rule': mod.RULE,
        'samples': total.samples[:12],
        'behaviour_classes': dict(sorted(total.outcomes.items())),
        'tasks': ntasks, 'tasks_completed': nfinished,
        'exhaustive': bad is None and nfinished == ntasks,
    }
    if total.states or mod.LEVEL == 'model_checking':
        cov['states'] = total.states
        cov['transitions'] = total.transitions
        cov['traces_validated_against_impl'] = total.traces
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMES', ())),
          'wall_s': round(wall, 2), 'violations': 1 if bad else 0}
    if os.environ.get('MC_QUIET'):      # run by another check
        return
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def violation(prop, case):
    d = os.path.join(VERIF, 'replays') if not os.environ.get('MC_QUIET') else tempfile.gettempdir()
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}.json')
    with open(path, 'w') as f:
        json.dump(dict(case, property=prop), f, indent=1)
        f.write('\n')
    print(f"{prop}: {case['fn']}: {case['msg']}")
    print(f'  case: {str(case["args"])[:600]}')
    print(f'VIOLATION property={prop} replay={path}')
    return 1


def replay(path):
    with open(path) as f:
        case = json.load(f)
    prop = case['property']
    mod = load(prop)
    common.install_alarm()
    if not case['key']:
        print('no single case to replay:', case['msg'])
        return 1
    scratch = os.environ['MC_SCRATCH'] = tempfile.mkdtemp(prefix='mc_replay_')
    try:
        fn = getattr(importlib.import_module(case['module']), case['fn'])
        res = Res()
        res.case(fn, *dec(case['args']))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if res.viol:
        print(res.viol[0]['msg'])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print('the case holds')
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
