#!/usr/bin/env python3
"""retest.py [ID...]: tries the checks against planted bugs again, each in a scratch copy of /repo: applies the patch,
runs the quick check of the bug's property and prints whether it reports the violation."""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(verif + '/seeded'))
def one(i):
    d = f'{verif}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='retest.', dir='/tmp')
    os.chmod(tmp, 0o755)
    try:
        subprocess.check_call(['cp', '-a', '/repo', tmp + '/repo'])
        if subprocess.call(['git', '-C', tmp + '/repo', 'apply', d + '/patch.diff']):
            return i, 'does not apply'
        subprocess.check_call(['cp', '-a', verif + '/harness', verif + '/run.sh', verif + '/known-findings.txt', tmp])
        r = subprocess.run(['bash', tmp + '/run.sh', prop, 'quick'], env=dict(os.environ, VERIF_REPO=tmp + '/repo', MC_FIRST='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
        out = r.stdout.decode(errors='replace')
        return i, 'caught' if r.returncode == 1 and f'VIOLATION property={prop}' in out else f'MISSED rc={r.returncode} ' + out[-200:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get('WORKERS', '2'))) as ex:
    for i, res in ex.map(one, ids):
        print(i, res, flush=True)
