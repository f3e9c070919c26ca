'''Makes and checks planted bugs.  python3 tools/seedtool.py SPECFILE [id...]

SPECFILE is Python defining BUGS, a list of dicts: id, property, needs, what_it_breaks,
edits [(file, old, new), ...], demo (Python source run with the venv's python from /repo).
With --recheck, runs every planted bug's check against a copy of /repo with it applied.'''
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'],
                      capture_output=True, text=True).stdout.split()
STABLE = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def fix_lines(path):
    '''Line numbers of /repo's file which the fix commits added.'''
    out = sh(f'git -C /repo blame -s --line-porcelain HEAD -- {path}').stdout
    fixes = set(sh('git -C /repo log --format=%H --grep=^fix:').stdout.split())
    bad, line = set(), None
    for l in out.splitlines():
        w = l.split()
        if len(w) >= 3 and len(w[0]) == 40 and all(c in '0123456789abcdef' for c in w[0]):
            if w[0] in fixes:
                bad.add(int(w[2]))
    return bad

def scratch():
    d = f'/tmp/seed_{os.getpid()}'
    shutil.rmtree(d, ignore_errors=True)
    sh(f'cp -a /repo {d}')
    return d

def tests(d):
    env = dict(os.environ)
    r = sh(f'cd {d} && PYTHONPATH={d} /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3')
    return r.stdout.strip()

def check(d, prop, tier='quick'):
    t = time.time()
    r = sh(f'cd {HERE} && MC_QUIET=1 VERIF_REPO={d} ./check {prop} {tier}')
    return r.returncode, (r.stdout + r.stderr)[-400:].strip().replace('\n', ' | '), time.time() - t

def one(bug):
    d = scratch()
    try:
        for f, old, new in bug['edits']:
            p = f'{d}/bitcoinx/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return f'edit matches {s.count(old)} times: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
            first = s[:s.index(old)].count('\n') + 1
            mine = fix_lines(f'bitcoinx/{f}')
            hit = [n for n in range(first, first + old.rstrip('\n').count('\n') + 1) if n in mine]
            if hit:
                print('   touches lines of fixes:', f, hit)
        out = f'{HERE}/seeded/{bug["id"]}'
        diff = sh(f'git -C {d} diff').stdout
        os.makedirs(out, exist_ok=True)
        open(f'{out}/patch.diff', 'w').write(diff)
        open(f'{out}/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(f'{out}/demo.sh', 'w').write('#!/bin/sh\nPYTHONPATH=. exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{out}/demo.sh', 0o755)
        json.dump({k: bug[k] for k in ('property', 'needs', 'what_it_breaks')},
                  open(f'{out}/meta.json', 'w'), indent=1)
        open(f'{out}/meta.json', 'a').write('\n')
        clean = sh(f'cd /repo && sh {out}/demo.sh')
        if clean.returncode:
            return f'demo fails on the clean tree: {clean.stderr[-400:]}'
        broken = sh(f'cd {d} && timeout 280 sh {out}/demo.sh')
        if broken.returncode == 0:
            return 'demo passes with the patch'
        t = tests(d)
        if 'failed' in t or 'error' in t or 'passed' not in t:
            return f'tests: {t}'
        code, text, secs = check(d, bug['property'])
        return f'ok; demo: {(broken.stderr.strip().splitlines() or [""])[-1][:100]}; check exit {code} ({secs:.0f}s): {text}'
    finally:
        shutil.rmtree(d, ignore_errors=True)

def recheck(ids):
    for name in ids or sorted(os.listdir(f'{HERE}/seeded')):
        meta = json.load(open(f'{HERE}/seeded/{name}/meta.json'))
        d = scratch()
        try:
            r = sh(f'git -C {d} apply {HERE}/seeded/{name}/patch.diff')
            if r.returncode:
                print(name, 'DOES NOT APPLY')
                continue
            code, text, secs = check(d, meta['property'])
            print(f'{name}: {"caught" if code == 1 else "MISSED"} exit {code} {secs:.0f}s {text[:200]}', flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    args = sys.argv[1:]
    if args[0] == '--recheck':
        recheck(args[1:])
    else:
        spec = {}
        exec(open(args[0]).read(), spec)
        for bug in spec['BUGS']:
            if len(args) > 1 and bug['id'] not in args[1:]:
                continue
            r = one(bug)
            print(f'{bug["id"]} [{bug["property"]}]: {r}', flush=True)
            if not r.startswith('ok'):
                shutil.rmtree(f'{HERE}/seeded/{bug["id"]}', ignore_errors=True)
