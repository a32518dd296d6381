#!/usr/bin/env python3
"""seedtry.py REPO SEEDDIR [tests] [CHECK...]: in a scratch copy of REPO: demo without the patch, build, stable tests,
demo with the patch, then the checks with the patch applied. (/verif's checks, VERIF_REPO = the copy)"""
import sys, os, subprocess, tempfile, shutil, json
REPO, S, rest = sys.argv[1], os.path.abspath(sys.argv[2]), sys.argv[3:]
id = os.path.basename(S); V = os.environ.get('VDIR', '/tmp/dev/verif')
w = tempfile.mkdtemp(prefix='seedtry.', dir='/tmp')
def sh(cmd, cwd, **k):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True, **k)
out = [id]
try:
    R = w + '/repo'
    shutil.copytree(REPO, R, symlinks=True); shutil.copytree(S, w + '/demo')
    for f in ('patch.diff', 'meta.json'): os.remove(w + '/demo/' + f)
    p = sh('bash %s/demo/demo.sh' % w, R); out.append('clean=%d' % p.returncode)
    if p.returncode: out.append((p.stdout + p.stderr)[-1500:])
    p = sh('git apply %s/patch.diff && go build ./... && cd cmd/sqlgen && go build ./... && go vet ./... 2>/dev/null; cd %s && go build ./... && cd cmd/sqlgen && go build ./...' % (S, R), R)
    if p.returncode: out.append('BUILD FAILED ' + p.stderr[-500:])
    p = sh('bash %s/demo/demo.sh' % w, R); out.append('patched=%d' % p.returncode)
    out.append((p.stdout + p.stderr)[-300:].replace('\n', ' | '))
    if rest and rest[0] == 'tests':
        rest = rest[1:]
        L = w + '/logs'; os.makedirs(L); T = 'go test -json -vet=off -count=1 -timeout 10m'
        sh(f'{T} ./... > {L}/root.json', R); sh(f'{T} ./... > {L}/cmd.json', R + '/cmd/sqlgen')
        sh(f'{T} ./testcase/... ./db/... > {L}/testcase.json', R + '/examples')
        W = w + '/work'; shutil.copytree(R, W, symlinks=True)
        sh("for t in $(go test -vet=off -list '^(Test|Fuzz|Example)' . | grep -E '^(Test|Fuzz|Example)'); do %s -run \"^$t\\$\" . > %s/examples-$t.json; done" % (T, L), W + '/examples')
        shutil.rmtree(W)
        sh(f"python3 /opt/vp/results.py {w}/out.json 'gojson:{L}/*.json'", '/')
        a = json.load(open(w + '/out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
        miss = sorted(set(b['stable']) - set(a['passed']))
        out.append('tests missing %d %s' % (len(miss), miss[:4]))
    for c in rest:
        t, _, c = c.rpartition(':')
        p = subprocess.run(['python3', 'check.py', c], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=R, VERIF_TIER=t or 'quick', VERIF_SEED='1'))
        v = [l for l in (p.stdout + p.stderr).splitlines() if 'VIOLATION' in l]
        out.append('check %s: %d %s' % (c, p.returncode, v[0][:250] if v else (p.stdout + p.stderr)[-300:] if p.returncode else ''))
finally:
    shutil.rmtree(w, ignore_errors=True)
print('\n   '.join(out), flush=True)
