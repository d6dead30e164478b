#!/usr/bin/env python3
"""Confirms planted changes: bug.py confirm ID... (scratch copy /tmp/scr/repo), bug.py catch ID [PROP...] (applies to /repo, runs the check, undoes)."""
import json, os, subprocess, sys, time
V = '/verif'; S = '/tmp/scr/repo'
def sh(c, cwd=None, t=1500):
    try: r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, 'timeout'
ENV = 'sed s#/repo#%s#g /opt/vp/env.sh > /tmp/scr/env.sh; . /tmp/scr/env.sh; ' % S
def sync(): return sh('rsync -a --delete --exclude target --exclude .git /repo/ %s/' % S) if sh('which rsync')[0] == 0 else sh('cd /repo && git archive HEAD | tar x -C %s' % S)
def reset():
    rc, o = sh('cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD' % S)
    assert rc == 0, o
def demo(i): return sh('bash %s/seeded/%s/demo.sh' % (V, i), S, 300)
def tests(py):
    sh('rm -f %s/target/nextest/vp/junit.xml' % S)
    rc, o = sh("bash -c '%s cd %s && cargo test \"${SCOPE[@]}\" --no-run'" % (ENV, S))
    if rc: return 'BUILD FAILED ' + o[-1500:]
    sh("bash -c '%s cd %s && cargo nextest run \"${SCOPE[@]}\" --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp; cargo test \"${SCOPE[@]}\" --doc --no-fail-fast -- --test-threads 8 > /tmp/scr/doc.log 2>&1'" % (ENV, S))
    sh('python3 /opt/vp/results.py /tmp/scr/out.json cargo:/tmp/scr/doc.log junit:%s/target/nextest/vp/junit.xml' % S)
    p = set(json.load(open('/tmp/scr/out.json'))['passed'])
    miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in p and not PYT(x)]
    return miss
base = None
def PYT(x): return x in PYSET
try: PYSET = set(json.load(open('/tmp/scr/pyset.json')))
except Exception: PYSET = set()
cmd, ids = sys.argv[1], sys.argv[2:]
if cmd == 'pyset':   # stable tests that the cargo half does not report
    reset(); m = tests(False); json.dump(m, open('/tmp/scr/pyset.json', 'w')); print(len(m), m[:3], m[-3:])
elif cmd == 'confirm':
    for i in ids:
        reset()
        a = demo(i)
        rc, o = sh('git apply %s/seeded/%s/patch.diff' % (V, i), S)
        if rc: print(i, 'PATCH FAILS', o); continue
        m = tests(False); t = time.time(); b = demo(i)
        ok = a[0] == 0 and b[0] not in (0, 124) and m == []
        print(i, 'OK' if ok else 'BAD', 'demo clean rc', a[0], 'patched rc', b[0], '(%.0fs)' % (time.time() - t), 'tests missing', m if isinstance(m, str) else m[:6], '' if ok else a[1][-800:], b[1][-300:].replace('\n', ' | '), flush=True)
    reset()
elif cmd == 'catch':
    i = ids[0]; m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    for p in ids[1:] or [m['property']]:
        assert sh('git -C /repo status --porcelain')[1] == '', 'dirty'
        rc, o = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, i)); assert rc == 0, o
        try: rc, o = sh('python3 run/check.py %s quick' % p, V)
        finally: sh('git -C /repo checkout -- .')
        print(i, p, {0: 'MISSED', 1: 'CAUGHT'}.get(rc, 'ERROR'), '\n'.join(o.splitlines()[-4:])[:1200] if rc != 1 else [l for l in o.splitlines() if 'failing' in l][:1], flush=True)
