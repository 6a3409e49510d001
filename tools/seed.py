#!/usr/bin/env python3
"""seed.py < spec : create and confirm planted bugs under /verif/seeded (development tool).
spec blocks: '#### id', 'PROPERTY Cnn', 'NEEDS text', 'BREAKS text', then edits ('EDIT file', OLD, '====', NEW; more after '@@@@'), then 'DEMO' and the demonstration (python).
A demonstration gets: os, sys, shutil, D (scratch directory), and fails by assertion."""
import sys, os, json, shutil, subprocess, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'dbf6089'
short = {k: v for k, v in re.findall(r"'(\w+)': '(bversion/[\w/]+\.py)'", open(V + '/tools/mutate.py').read())}
PRELUDE = '''import os, sys, shutil, tempfile
sys.dont_write_bytecode = True
sys.path[:0] = [os.getcwd(), os.path.dirname(os.path.abspath(__file__))]
D = tempfile.mkdtemp(prefix='bvdemo') + '/'
import atexit
atexit.register(shutil.rmtree, D, True)
'''
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds in the demonstrated situation
PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py" </dev/null
'''
ENV = dict(os.environ, PYTHONHASHSEED='0', TZ='UTC', PYTHONPATH='/opt/vp/plugins', PYTHONDONTWRITEBYTECODE='1', PIP_NO_INDEX='1')


def sh(cmd, cwd, t=200):
    try: p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired: return 124, 'TIMEOUT'
    return p.returncode, p.stdout + p.stderr


def job(chunk):
    name, txt = chunk.split('\n', 1); name = name.strip()
    head, demo = txt.split('\nDEMO\n'); meta = {}
    lines = head.split('\n')
    while not lines[0].startswith('EDIT '):
        k, _, v = lines.pop(0).partition(' ')
        if k: meta[k] = v
    body = '\n'.join(lines)
    d = tempfile.mkdtemp(prefix='seed'); r = d + '/repo'
    try:
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('__pycache__', 'filesystem_tests'))
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=r)
        f = None; own = set()
        for blk in body.split('\n@@@@\n'):
            if blk.startswith('EDIT '): f, blk = blk[5:].split('\n', 1); f = short.get(f, f)
            old, new = (blk + '\n').split('\n====\n'); old = old.strip('\n'); new = new.rstrip('\n')
            s = open(r + '/' + f).read()
            if s.count(old) != 1: return '[%s] BAD EDIT %d' % (name, s.count(old))
            s = s.replace(old, new); compile(s, f, 'exec'); open(r + '/' + f, 'w').write(s)
        rc, diff = sh(['git', 'diff'], r)
        # removed lines must be original ones
        base = {}
        cur = None
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur = l[6:]; base[cur] = sh(['git', 'show', '%s:%s' % (BASE, cur)], r)[1].splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base[cur]: own.add(l[1:].strip())
        sd = d + '/sd'; os.mkdir(sd)
        open(sd + '/demo.py', 'w').write(PRELUDE + demo)
        open(sd + '/demo.sh', 'w').write(SH)
        if 'from pair import' in demo: shutil.copy(V + '/tools/pair.py', sd)
        bad = sh(['bash', sd + '/demo.sh'], r); shutil.copytree('/repo', d + '/clean', ignore=shutil.ignore_patterns('.git', '__pycache__', 'filesystem_tests'))
        good = sh(['bash', sd + '/demo.sh'], d + '/clean')
        t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'sorted_listdir', 'tests'], r) if not os.environ.get('NOTEST') else (0, '')
        ok = bad[0] != 0 and bad[0] != 124 and good[0] == 0 and t[0] == 0 and not own
        res = '[%s] patched rc=%d clean rc=%d tests rc=%d%s' % (name, bad[0], good[0], t[0], ' OWN LINES %s' % own if own else '')
        res += '\n    patched: ' + (bad[1].strip().splitlines() or [''])[-1][:200]
        if good[0]: res += '\n    clean: ' + '\n      '.join(good[1].strip().splitlines()[-6:])
        if t[0]: res += '\n    tests: ' + t[1][-600:]
        if ok:
            o = V + '/seeded/' + name; shutil.rmtree(o, True); os.makedirs(o)
            open(o + '/patch.diff', 'w').write(diff)
            for x in os.listdir(sd):
                if os.path.isfile(sd + '/' + x): shutil.copy(sd + '/' + x, o)
            json.dump({'property': meta['PROPERTY'], 'needs': meta['NEEDS'], 'what_it_breaks': meta['BREAKS']}, open(o + '/meta.json', 'w'), indent=1)
        return ('KEPT ' if ok else 'REJECTED ') + res
    finally: shutil.rmtree(d)


# the test suite binds a fixed port: run one after the other
for c in sys.stdin.read().split('#### ')[1:]: print(job(c), flush=True)
