#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working tree, records behaviour of
the real code, and has TLC judge it with the specifications in /verif/spec.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json, os, re, signal, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
sys.path.insert(0, os.path.join(V, 'run'))
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class CheckError(Exception): pass

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
             CARGO_TARGET_DIR=os.path.join(V, 'target'), CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='0',
             LLVM_SYS_140_PREFIX='/usr/lib/llvm-14', PYO3_PYTHON='/opt/hugrvenv/bin/python3', PYTHONDONTWRITEBYTECODE='1')
    return e

class Ctx:
    Error = CheckError
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(V, 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.fails = []          # dicts: leg, id, what, ...
        self.states = self.transitions = self.traces = 0
        self.samples, self.cov, self.notes, self.legs = [], {}, [], {}
    @property
    def thorough(self): return self.tier == 'thorough'
    def size(self, quick, thorough): return thorough if self.thorough else quick
    def log(self, *a): print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    # ---- building ----
    def build(self, crate='harness', bins=None):
        r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(V, crate), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            errs = [l for l in r.stdout.splitlines() if not l.startswith('warning')]
            raise CheckError('cargo build failed in %s:\n%s' % (crate, '\n'.join(errs)[-3000:]))
        self.log('built', crate)
    def build_with_cli(self, python=False):
        """the harness, and the command line tool itself (or the native part of the Python package)"""
        def tool():
            return self.sh(['cargo', 'build', '--offline', '-q', '-p', 'hugr-py' if python else 'hugr-cli', '--manifest-path', os.path.join(REPO, 'Cargo.toml')], timeout=850, extra_env={'CARGO_TARGET_DIR': os.path.join(V, 'target', 'cli')})
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(tool), ex.submit(self.build)
            b.result(); r = a.result()
        if r.returncode: raise CheckError('the command line tool does not build:\n' + r.stderr[-3000:])
        self.log('built the command line tool')
        return os.path.join(V, 'target', 'cli', 'debug', 'hugr')
    def bin(self, name): return os.path.join(V, 'target', 'debug', name)

    # ---- recording: returns the chunk files; a crash or hang of the code under test is a failure ----
    def gen(self, leg, args, chunks=8, timeout=500, binary='hv', extra_env=None, out=None):
        out = out or os.path.join(self.work, leg)
        cmd = [self.bin(binary)] + [str(a) for a in args] + ['--chunks', str(chunks), '--out', out]
        e = env(); e.update(extra_env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', ''
        if rc != 0:
            if rc == 2: raise CheckError('harness refused: ' + err[-1500:])
            cur = []
            for c in range(chunks):
                p = '%s.%d.cur' % (out, c)
                if os.path.exists(p): cur.append(open(p).read().strip())
            self.fails.append(dict(leg=leg, id='crash', what=['the code under test %s' % ('hung' if rc == 'timeout' else 'crashed (%s)' % rc)], running=cur, stderr=err[-800:], cmd=cmd))
            self.log(leg, 'CRASH', rc, cur, err[-300:])
        self.legs[leg] = dict(cmd=cmd)
        self.log('recorded', leg, '(%.1fs)' % (time.time() - t))
        return ['%s.%d.ndjson' % (out, c) for c in range(chunks) if os.path.exists('%s.%d.ndjson' % (out, c))]

    # ---- TLC ----
    def tlc1(self, spec, trace=None, cfg=None, xmx='3g', timeout=800, workers=1, opts=(), tenv=None):
        md = os.path.join(self.work, 'tlc-%s-%s' % (spec, os.path.basename(trace) if trace else 'mc'))
        shutil.rmtree(md, ignore_errors=True); os.makedirs(md)
        e = env()
        if trace: e['TRACE'] = trace
        e.update(tenv or {})
        cmd = ['java', '-Xmx' + xmx, '-Xss64m', '-XX:+UseSerialGC', '-Djava.io.tmpdir=' + md, '-cp', TLA, 'tlc2.TLC', '-workers', str(workers), '-metadir', md,
               '-noGenerateSpecTE', '-config', os.path.join(V, 'spec', (cfg or spec) + '.cfg')] + list(opts) + [os.path.join(V, 'spec', spec + '.tla')]
        try:
            r = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s %s' % (spec, trace))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout
    def count(self, out):
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if m:
            g, d = (int(x.replace(',', '')) for x in m[-1])
            self.states += d; self.transitions += max(g - 1, 0)
    @staticmethod
    def msgs(out, tag):
        for l in out.splitlines():
            if l.startswith('"' + tag + ' '):
                yield json.loads(json.loads(l)[len(tag) + 1:])

    def judge(self, leg, spec, files, cfg=None, xmx='3g', par=8, sample=True, tenv=None):
        """every case in files must be accepted by the trace specification"""
        t = time.time()
        files = [f for f in files if os.path.getsize(f)]
        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(lambda f: (f, self.tlc1(spec, f, cfg, xmx, tenv=tenv)), files))
        n = 0
        for f, (rc, out) in res:
            done = list(self.msgs(out, 'DONE'))
            if rc != 0 or not done:
                raise CheckError('TLC failed on %s (rc %s):\n%s' % (f, rc, '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-3500:]))
            n += done[0]['n']; self.count(out)
            for k, v in done[0].items():
                if k != 'n': self.cov[k] = self.cov.get(k, 0) + v if isinstance(v, int) else v
            for m in self.msgs(out, 'FAIL'):
                m['leg'] = leg; m['file'] = f; self.fails.append(m)
        self.traces += n
        self.cov[leg] = self.cov.get(leg, 0) + n
        if sample and files:
            with open(files[0]) as fh:
                fh.readline(); l = fh.readline()
                if l: self.samples.append({'leg': leg, 'case': l[:1500]})
        self.log('judged', leg, 'by', spec, '%d cases (%.1fs)' % (n, time.time() - t))
        return res

    def model(self, spec, cfg=None, workers=8, opts=(), xmx='8g', timeout=800, tenv=None):
        """checks the invariants / properties of a specification itself"""
        t = time.time()
        rc, out = self.tlc1(spec, None, cfg, xmx, timeout, workers, opts, tenv)
        if rc != 0: raise CheckError('model %s: TLC rc %s\n%s' % (cfg or spec, rc, out[-3000:]))
        self.count(out)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
        self.cov['model_' + (cfg or spec)] = m[-1][1] if m else 0
        self.log('model', cfg or spec, m[-1] if m else '', '(%.1fs)' % (time.time() - t))
        return out

    def sh(self, cmd, timeout=600, cwd=None, extra_env=None, inp=None):
        e = env(); e.update(extra_env or {})
        return subprocess.run(cmd, cwd=cwd or self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, input=inp)

def known():
    p = os.path.join(V, 'known_findings.txt')
    return [json.loads(l[len('finding: '):]) for l in open(p) if l.startswith('finding: ')] if os.path.exists(p) else []
def matches(k, f):
    """a listed finding names the leg and the exact case (or the exact failing call), nothing wider"""
    m = k.get('match', {})
    return m.get('leg') == f.get('leg') and m.get('id') == f.get('id') and (('what' not in m) or set(f['what']) <= set(m['what']))

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    import props
    ctx = Ctx(pid, tier, seed)
    level = props.LEVEL.get(pid, 'model_checking')
    try:
        getattr(props, pid)(ctx)
    except CheckError as e:
        if not ctx.fails:
            print('CHECK-ERROR', e, flush=True); return 2
        print('CHECK-ERROR (after failures)', str(e)[:2000], flush=True)
    viol, kn = [], []
    ks = [k for k in known() if k['property'] == pid]
    for f in ctx.fails:
        k = next((k for k in ks if matches(k, f)), None)
        (kn if k else viol).append((f, k))
    for k in {json.dumps(k) for _, k in kn}:
        print('KNOWN-FINDING: property=%s %s' % (pid, json.loads(k)['text']))
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    rp = None
    if viol:
        rp = os.path.join(V, 'replays', '%s-%s.json' % (pid, tier))
        out = []
        for f, _ in viol[:20]:
            c = None
            if f.get('file') and os.path.exists(f['file']):
                with open(f['file']) as fh:
                    for l in fh:
                        if ('"id":"%s"' % f.get('id')) in l: c = l[:200000]; break
            out.append(dict(f, case=c))
        json.dump(dict(property=pid, tier=tier, seed=seed, rerun='cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 run/check.py %s' % (seed, tier, pid), legs=ctx.legs, violations=out), open(rp, 'w'), indent=1)
        for f, _ in viol[:12]: print('  failing:', {k: v for k, v in f.items() if k not in ('file', 'case', 'cmd')})
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces, samples=ctx.samples[:6] or ['none'], per_leg=ctx.cov)
    if level == 'exploration':
        cov = dict(evaluations=ctx.traces, distinct_nontrivial=ctx.traces, rule='see DESIGN.md', **cov)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=props.ASSUME.get(pid, []) + ctx.notes, wall_s=round(time.time() - ctx.t0, 1), violations=len(viol))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if not viol: shutil.rmtree(ctx.work, ignore_errors=True)
    if viol:
        print('%d violations' % len(viol))
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    if ctx.traces == 0: print('CHECK-ERROR nothing was checked'); return 2
    print('OK property=%s traces=%d states=%d wall=%.1fs' % (pid, ctx.traces, ctx.states, time.time() - ctx.t0)); return 0
if __name__ == '__main__': sys.exit(main())
