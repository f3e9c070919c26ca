'''Checks that each repair is guarded: a copy of /repo with one "fix:" commit undone must be reported
by the check of the property that known_findings.json names for it.  python3 tools/fixes.py [commit...]'''
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True)


for entry in json.load(open(f'{HERE}/known_findings.json'))['fixed']:
    entry = entry if isinstance(entry, str) else entry['line']
    prop, commit = entry.split('property=')[1].split()[:2]
    if sys.argv[1:] and commit not in sys.argv[1:]:
        continue
    d = f'/tmp/fix_{os.getpid()}'
    shutil.rmtree(d, ignore_errors=True)
    sh(f'cp -a /repo {d} && git -C {d} update-index --refresh')
    r = sh(f'git -C /repo show {commit} | git -C {d} apply -R --3way - 2>&1')
    if r.returncode:
        print(commit, prop, 'cannot be undone alone:', r.stderr.strip()[-100:])
    else:
        r = sh(f'cd {HERE} && MC_QUIET=1 VERIF_REPO={d} ./check {prop} quick')
        print(commit, prop, 'reported' if r.returncode == 1 else f'NOT REPORTED ({r.returncode})',
              r.stdout[-200:].replace('\n', ' | ') if r.returncode != 1 else '', flush=True)
    shutil.rmtree(d, ignore_errors=True)
