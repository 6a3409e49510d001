#!/usr/bin/env python3
"""mutate.py PROPS[,PROP..] < spec : run checks on mutated copies of /repo (development tool).
spec: blocks '#### name', optional lines 'FILE path' (kept until changed), then OLD / '====' / NEW; further edits after '@@@@'."""
import glob, sys, subprocess, shutil, os, tempfile
from concurrent.futures import ThreadPoolExecutor
props = sys.argv[1].split(',')
short = {'vs': 'bversion/storage/versioned_storage.py', 'server': 'bversion/server.py', 'sdb': 'bversion/storage/server_db.py', 'client': 'bversion/client.py', 'cdb': 'bversion/storage/client_db.py',
         'jfs': 'bversion/storage/journaling_filesystem.py', 'cfi': 'bversion/storage/client_filesystem_interface.py', 'common': 'bversion/common.py', 'crypto': 'bversion/crypto.py', 'rm': 'bversion/repo_manager.py',
         'merge': 'bversion/merge_client_and_server_changes.py', 'hs': 'bversion/http/http_server.py', 'hc': 'bversion/http/http_common.py', 'hcl': 'bversion/http/http_client.py', 'chr': 'bversion/http/client_http_request.py',
         'keys': 'bversion/crypto.py', 'bcrypto': 'bversion/backup/crypto.py', 's3': 'bversion/backup/s3_interface.py', 'pipe': 'bversion/backup/pipeline.py', 'pc': 'bversion/backup/pipeline_common.py'}


def run(job):
    name, txt, f = job
    d = tempfile.mkdtemp(prefix='mt'); r = d + '/repo'
    try:
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        for blk in ('\n' + txt).split('\n@@@@\n'):
            blk = blk.lstrip('\n')
            if blk.startswith('FILE '):
                f, blk = blk[5:].split('\n', 1); f = short.get(f, f)
            old, new = (blk + '\n').split('\n====\n')
            old = old.strip('\n'); new = new.rstrip('\n')
            s = open(r + '/' + f).read()
            if s.count(old) != 1: return '[%s] BAD EDIT: %d matches' % (name, s.count(old))
            s = s.replace(old, new)
            open(r + '/' + f, 'w').write(s)
        for q in glob.glob(r + '/bversion/**/*.py', recursive=True):
            try: compile(open(q).read(), q, 'exec')
            except SyntaxError as e: return '[%s] BAD EDIT: %s' % (name, e)
        out = []
        for p in props:
            q = subprocess.run(['timeout', os.environ.get('MUT_T', '200'), sys.executable, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/check.py', p], env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d + '/ev'), capture_output=True, text=True)
            ls = [l[:230].replace(d, '') for l in (q.stdout + q.stderr).splitlines() if '  rule' not in l and 'abstract states' not in l and not l.startswith(('property', 'VIOLATION'))]
            out.append('%s=%d %s' % (p, q.returncode, '\n        '.join(ls[:2 if q.returncode < 2 else 6][-6:] if q.returncode < 2 else ls[-4:])))
        return '[%s] %s' % (name, '\n     '.join(out))
    finally: shutil.rmtree(d)


jobs = []; f = None
for chunk in sys.stdin.read().split('#### ')[1:]:
    name, txt = chunk.split('\n', 1)
    if txt.startswith('FILE '): f = txt[5:].split('\n', 1)[0]; f = short.get(f, f); txt = txt.split('\n', 1)[1]
    jobs.append((name.strip(), txt, f))
with ThreadPoolExecutor(int(os.environ.get('MUT_J', '7'))) as ex:
    for o in ex.map(run, jobs): print(o)
