#!/usr/bin/env python3
"""run.py MUTANTS.jsonl RESULTS.jsonl [every [offset]]: tries mutants of /repo against the tests, then the checks
that belong to the changed function.  Writes one line per mutant: build, tests, ID of the check that caught it, or
survived.  Mutants of code that removes or creates files are run only by tests and checks that run as uid 65534."""
import sys, os, json, subprocess, shutil, tempfile, threading, queue
verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
muts = [json.loads(l) for l in open(sys.argv[1])]
every = int(sys.argv[3]) if len(sys.argv) > 3 else 1
offset = int(sys.argv[4]) if len(sys.argv) > 4 else 0
muts = [dict(m, id=i) for i, m in enumerate(muts) if i % every == offset]
done = set()
if os.path.exists(sys.argv[2]):
    done = {json.loads(l)['id'] for l in open(sys.argv[2])}
FILES = {'filters.go': 'C07 C08 C09 C10', 'encryption.go': 'C15 C16 C17 C31', 'font.go': 'C19 C18', 'page.go': 'C18 C19 C24 C23',
         'action.go': 'C20 C24', 'object.go': 'C20 C21 C22 C18 C24 C30', 'array.go': 'C30 C14 C04 C20 C21 C24', 'dictionary.go': 'C30 C14 C03 C20 C21 C18 C24',
         'reference.go': 'C14 C30 C24 C22', 'file.go': 'C21 C20 C24', 'output.go': 'C26 C27', 'main.go': 'C29', 'pdf.go': 'C22 C27 C26',
         'utility.go': 'C07 C08 C09 C02 C13 C15 C01', 'keyword.go': 'C22 C03 C02 C04', 'name.go': 'C22', 'number.go': 'C22', 'string.go': 'C22',
         'xref.go': 'C22 C11', 'logger.go': 'C29', 'errors.go': 'C05'}
FUNCS = {}
for fs, cs in {
    'Load SetPassword findXrefOffsets findObjects getStartXrefOffset': 'C11 C12 C13 C31 C22',
    'loadXref loadXrefTable loadXrefStream setXrefEntry': 'C11 C13 C12 C31 C24 C23',
    'GetObject getObject': 'C17 C10 C14 C15 C06 C22 C31',
    'ReadStream': 'C06 C10 C05 C22 C23',
    'ReadString ReadHexString': 'C01 C05 C04',
    'ReadName ReadNumber ReadInt ReadInt64 ReadKeyword': 'C02 C05 C03 C04 C13',
    'ReadArray ReadDictionary ReadObject ReadObjectHeader': 'C03 C04 C05 C14 C12 C23',
    'ReadCommand skipImageData': 'C18 C23', 'consumeWhitespace consumeComment': 'C03 C02 C12 C01', 'var': 'C12 C11 C18 C23 C03', 'log_error Seek CurrentOffset NewParser': 'C05 C03 C25 C14'}.items():
    for f in fs.split():
        FUNCS[f] = cs
CONTAINED = {'output.go', 'main.go'}
want = {x.split('/')[-1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']}
q = queue.Queue()
for m in muts:
    if m['id'] not in done:
        q.put(m)
lock = threading.Lock()
out = open(sys.argv[2], 'a')

def sh(cmd, t, cwd='/tmp'):
    p = subprocess.Popen(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, 'timeout'

def one(m, repo, tmp):
    f = os.path.join(repo, 'main.go' if m['File'] == 'main.go' else 'pdf/' + m['File'])
    src = open(f, 'rb').read()
    try:
        open(f, 'wb').write(src[:m['Start']] + m['New'].encode() + src[m['End']:])
        rc, o = sh('. /opt/vp/env.sh; go build -o %s/x . && go test -vet=off -c -o %s/t ./pdf && chmod 755 %s/t' % (tmp, tmp, tmp), 120, repo)
        if rc:
            return 'build', ''
        rc, o = sh('mkdir -p %s/w && chown 65534 %s/w && cd %s/pdf && ulimit -v 16000000 && TMPDIR=%s/w HOME=%s/w setpriv --reuid 65534 --regid 65534 --clear-groups %s/t -test.v -test.timeout 40s; rm -rf %s/w' % (tmp, tmp, repo, tmp, tmp, tmp, tmp), 60)
        if not want <= {l.split()[2] for l in o.splitlines() if l.strip().startswith('--- PASS')}:
            return 'tests', ''
        checks = FILES.get(m['File'], '')
        if m['File'] == 'parser.go':
            checks = FUNCS.get(m['Func'], 'C03 C12 C23')
        for c in checks.split():
            rc, o = sh('MC_WORKERS=1 MC_FIRST=1 VERIF_REPO=%s bash %s/run.sh %s quick' % (repo, verif, c), 900)
            if 'VIOLATION' in o:
                return c, o[:300]
            if rc and rc != 99:
                return 'error', c + ' ' + o[-300:]
        return 'survived', checks
    finally:
        open(f, 'wb').write(src)

def worker(k):
    tmp = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    os.chmod(tmp, 0o755)
    subprocess.check_call(['cp', '-a', '/repo', tmp + '/repo'])
    try:
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            r, o = one(m, tmp + '/repo', tmp)
            with lock:
                out.write(json.dumps({'id': m['id'], 'file': m['File'], 'line': m['Line'], 'func': m['Func'], 'what': m['What'], 'result': r, 'note': o}) + '\n')
                out.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(os.environ.get('WORKERS', '7')))]
[t.start() for t in ts]
[t.join() for t in ts]
