'''C26: results do not depend on locale, optimization, hash seed, time zone, order or backend.'''

import functools
import itertools
import json
import os
import subprocess
import sys

from .common import Mismatch, REPO, VERIF

LEVEL = 'exploration'
RULE = ('A battery of calls from every part of the library, valid and invalid, runs in a fresh process '
        'in each of a set of configurations (locale and UTF-8 mode, optimization, hash seed, time '
        'zone, working directory, AES implementation, order of the calls, submodule imported '
        'first): all single changes from the default and (quick) the products of two groups of '
        'factors, (thorough) of all factors.  Every result and every kind of error must be that of '
        'the default configuration.  Every call is also '
        'the only one of a fresh process, and the first before all others (thorough: before each '
        'other in turn).  Then other checks run whole under unusual configurations.  '
        'Non-trivial: all but the default.')
EXPECT = ('same', 'check', 'history')
ASSUMES = ('the configurations are those this sandbox has: locales C, C.utf8 and POSIX',)

LOCALES = ((), (('LC_ALL', 'C'),), (('LC_ALL', 'C.utf8'),), (('LC_ALL', 'POSIX'), ('LANG', 'C')),
           (('LC_ALL', 'xx_YY.latin1'),), (('LANG', 'C'), ('PYTHONCOERCECLOCALE', '0')))
UTF8 = ('0', '1')
OPT = ((), ('-O',), ('-OO',))
SEEDS = ('0', '1', '4242', 'random')
ZONES = ('UTC', 'America/New_York', 'Asia/Kathmandu', 'XXX-14')
AES = ('', '1')
ORDERS = ('forward', 'reverse', '7', '13')

FLAGS = (('-X', 'dev'), ('-b',), ('-I',), ('-s', '-E'), ('-W', 'ignore'), ('-X', 'int_max_str_digits=640'),
         ('-X', 'importtime'))
CWDS = ('/', '/tmp')

# (locale, utf8, options, seed, zone, no AES, order, first import, working directory)
DEFAULT = (0, '1', (), '0', 'UTC', '', 'forward', '', '')
UNUSUAL = ((1, '0', ('-O',), '1', 'XXX-14', '1', '7', '', '/'),
           (5, '0', ('-OO',), '4242', 'Asia/Kathmandu', '', 'reverse', '', ''),
           (2, '0', (), 'random', 'America/New_York', '1', '13', '', ''))
ALL_CHECKS = tuple(f'C{n:02d}' for n in range(1, 31) if n not in (4, 26, 27, 30))
QUICK_CHECKS = tuple(c for c in ALL_CHECKS if c != 'C01')


# Quick: of the costlier checks, the parts about errors, texts, dates and locale
ONLY = {'C28': 'coinbase,locktime,bytes,empty', 'C14': 'objects,coins,refused,pad,tokens',
        'C15': 'text,bytes,ascii,zeros,powers,types,lengths',
        'C16': 'version,lengths,odd,prefix,cash short',
        'C20': 'header,base64,cross,sizes,types,not addresses', 'C21': 'padding,forged,magic,text,zeros',
        'C23': 'chain,lengths,types,numbers,build', 'C24': 'gen,strings,seeds,counts,lists,text',
        'C25': 'badhex,strings,counts,unknown,hex,badargs,both,values', 'C02': 'cp5',
        'C03': 'foreign,reserved', 'C05': 'eda,fort,walk'}


def modules():
    return sorted(f[:-3] for f in os.listdir(os.path.join(REPO, 'bitcoinx'))
                  if f.endswith('.py') and f != '__init__.py')


def configs(tier):
    def change(**kw):
        names = ('locale', 'utf8', 'opts', 'seed', 'zone', 'noaes', 'order', 'first', 'cwd')
        return tuple(kw.get(n, d) for n, d in zip(names, DEFAULT))
    out = [change(first=m) for m in modules()]
    out += [change(opts=f) for f in FLAGS] + [change(cwd=c) for c in CWDS]
    if tier == 'quick':
        out += [change(locale=a, utf8=b, noaes=c)
                for a, b, c in itertools.product(range(len(LOCALES)), UTF8, AES)]
        out += [change(opts=a, seed=b, order=c)
                for a, b, c in itertools.product(OPT, SEEDS[:3], ORDERS[:2])]
        out += [change(zone=z) for z in ZONES] + [change(order=o) for o in ORDERS]
    else:
        out += [change(locale=a, utf8=b, opts=c, seed=d, zone=e, noaes=f, order=g)
                for a, b, c, d, e, f, g in itertools.product(
                    range(len(LOCALES)), UTF8, OPT, SEEDS[1:], ZONES, AES, ORDERS[:3])]
    out += list(UNUSUAL)
    return sorted(set(out) - {DEFAULT}, key=repr)


def tasks(tier):
    every = configs(tier)
    size = 4 if tier == 'quick' else 12
    names = QUICK_CHECKS if tier == 'quick' else ALL_CHECKS
    out = [('check', n, k) for k in range(1 if tier == 'quick' else 3) for n in names
           if os.path.exists(os.path.join(VERIF, 'mc', n.lower() + '.py'))]
    out += [('history', f'{how}:{k}:16') for how in ('alone', 'after') for k in range(16)]
    if tier == 'thorough':
        out += [('history', f'pairs:{k}:64') for k in range(64)]
    return out + [('battery', list(every[k: k + size])) for k in range(0, len(every), size)]


def run(task, res):
    if task[0] == 'battery':
        for config in task[1]:
            res.case(battery, config, seconds=600)
    elif task[0] == 'history':
        res.case(history, task[1], seconds=1200)
    else:
        res.case(check, task[1], UNUSUAL[task[2]], seconds=3000)


def launch(config, args, more=()):
    loc, utf8, opts, seed, zone, noaes, _order, _first, cwd = config
    env = {'PATH': os.environ['PATH'], 'PYTHONUTF8': utf8, 'PYTHONHASHSEED': seed, 'TZ': zone,
           'PYTHONDONTWRITEBYTECODE': '1', 'MC_NO_AES': noaes, 'VERIF_REPO': REPO,
           'TMPDIR': os.environ['MC_SCRATCH'], 'HOME': os.environ['MC_SCRATCH']}
    env.update(LOCALES[loc])
    env.update(more)
    if '-E' in opts or '-I' in opts:
        opts = tuple(opts) + ('-B',)
    cmd = [sys.executable, '-X', 'pycache_prefix=/nonexistent/pyc', *opts, *args]
    return subprocess.run(cmd, env=env, cwd=cwd or VERIF, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, check=False)


@functools.lru_cache(None)
def results(config):
    args = [os.path.join(VERIF, 'mc', 'env_battery.py'), config[6]]
    if config[7]:
        args.append('bitcoinx.' + config[7])
    done = launch(config, args)
    for line in done.stdout.decode('ascii', 'replace').splitlines():
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    raise Mismatch(f'no results under {config}: {done.stderr.decode("utf8", "replace")[-600:]}')


def battery(config):
    config = tuple(config)
    want = results(DEFAULT)
    got = results(config)
    wrong = [(k, want[k], got.get(k)) for k in want if got.get(k) != want[k]]
    if wrong:
        raise Mismatch(f'{len(wrong)} results differ under {config}; '
                       + '; '.join(f'{k}: {str(a)[:200]} became {str(b)[:200]}' for k, a, b in wrong[:3]))
    return {'evals': len(want) - 1, 'same': len(want)}


def history(mode):
    '''Calls in processes that made no call before, or one other call before.'''
    want = results(DEFAULT)
    done = launch(DEFAULT, [os.path.join(VERIF, 'mc', 'env_battery.py'), mode])
    n = 0
    for line in done.stdout.decode('ascii', 'replace').splitlines():
        if line.startswith('HISTORY '):
            first, out = json.loads(line[8:])
            if out is None:
                raise Mismatch(f'{first} ended the process')
            for k, got in out:
                if got != want[k]:
                    raise Mismatch(f'{k} is {str(got)[:200]} in a process whose first call is {first}, '
                                   f'{str(want[k])[:200]} after others')
                n += 1
    if not n:
        raise Mismatch(f'no results of {mode}: {done.stderr.decode("utf8", "replace")[-600:]}')
    return {'evals': n - 1, 'history': n}


def check(prop, config):
    '''Another check under an unusual configuration.'''
    if prop == 'C21':       # which selects each AES implementation itself
        config = (*config[:5], '', *config[6:])
    done = launch(config[:8] + ('',), ['-m', 'mc.driver', prop, 'quick'],
                  (('MC_PROCS', '1'), ('MC_QUIET', '1'), ('MC_ONLY', ONLY.get(prop, ''))))
    out = done.stdout.decode('utf8', 'replace')
    if done.returncode == 1:
        raise Mismatch(f'{prop} under {config}: {out[-1200:]}')
    if done.returncode:
        raise RuntimeError(f'harness: {prop} ended with {done.returncode}: {done.stderr[-800:]}')
    return 'check'
