#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property on /repo's current tree.

Compiles /repo + harness to LLVM IR, explores the harness entries symbolically with engine/ (symx, Z3),
replays every counterexample against the natively compiled code, writes evidence/<property>.json."""
import os, sys, json, time, tempfile, subprocess, threading, queue, fcntl, random, hashlib, re

V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get('VERIF_BUILD', V + '/.build')
os.environ['CARGO_NET_OFFLINE'] = 'true'
TC = 'stable-x86_64-unknown-linux-gnu'
ENGINE = V + '/engine/target/release/symx'
# the harness of the library, or (C19) the one that runs the executable
CRATE = 'cli' if 'C19' in sys.argv else 'harness'
IR = '%s/ir-%s/prog.ll' % (B, CRATE)
REL = '%s/target/release/%s' % (B, CRATE)
DEV = '%s/target/debug/%s' % (B, CRATE)
TARGET = B + '/target'

def sh(cmd, cwd=V, t=900, env=None):
    e = dict(os.environ, RUSTUP_TOOLCHAIN=TC)
    if env: e.update(env)
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t, env=e)
    return p.returncode, p.stdout + p.stderr

def cargo(release, crate=None):
    c = ['cargo', 'build', '--offline', '-q', '--target-dir', TARGET] + (['--release'] if release else [])
    rc, o = sh(c, V + '/' + (crate or CRATE))
    if rc == 0 and (crate or CRATE) == 'cli':
        rc, o2 = sh(c + ['--manifest-path', '/repo/Cargo.toml', '--bin', 'retrocompressor'], '/repo')
        o += o2
    return rc, o

def build(crates=None):
    """engine, IR of the current tree, native release harness"""
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    out = {}
    def run(k, f): out[k] = f()
    steps = [('engine', lambda: sh('cargo build --release --offline -q', V + '/engine'))]
    for c in crates or [CRATE]:
        steps += [('ir ' + c, lambda c=c: sh(['bash', V + '/build_ir.sh', c, '%s/ir-%s' % (B, c)])), ('native ' + c, lambda c=c: cargo(True, c))]
    ts = [threading.Thread(target=run, args=a) for a in steps]
    for t in ts: t.start()
    for t in ts: t.join()
    for k, (rc, o) in out.items():
        if rc != 0:
            print('ERROR: building %s failed\n%s' % (k, o[-3000:])); sys.exit(2)
    return lock

dev_lock = threading.Lock()
def dev():
    with dev_lock: return cargo(False)[0] == 0

def native(exe, entry, params, hexs, t=60, trace=False):
    """-> (exit status or 'hang', stdout, stderr)"""
    cmd = [exe, entry, ','.join(map(str, params)), hexs] + (['trace'] if trace else [])
    with tempfile.TemporaryDirectory() as d:
        env = dict(os.environ, CLI_EXE=os.path.dirname(exe) + '/retrocompressor', TMPDIR=d)
        p = subprocess.Popen(['bash', '-c', 'ulimit -v 8000000; exec "$@"', 'x'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, start_new_session=True)
        try:
            out, err = p.communicate(timeout=t)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate()
            return 'hang', '', ''

def bad(rc): return rc == 'hang' or rc == 42 or (isinstance(rc, int) and (rc < 0 or rc >= 100))

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.confirmed = None
        self.unrepro = []
        self.lock = threading.Lock()
        self.procs = set()
        self.validated = self.mismatch = 0
        self.results = []
    def confirm(self, job, hexs, why):
        """replay on the release build, then on the dev build (overflow checks, debug assertions)"""
        for exe, name in ((REL, 'release'), (DEV, 'dev')):
            if self.confirmed: return True
            if exe == DEV and not dev(): continue
            rc, out, err = native(exe, job.entry, job.params, hexs)
            if bad(rc):
                with self.lock:
                    if not self.confirmed:
                        self.confirmed = dict(property=self.prop, entry=job.entry, params=job.params, bytes=hexs, engine=why, build=name,
                            observed='did not finish in 60 s' if rc == 'hang' else 'exit %s: %s' % (rc, err.strip()[-600:]),
                            command='%s %s %s %s' % (exe, job.entry, ','.join(map(str, job.params)), hexs or "''"))
                return True
        self.unrepro.append(dict(entry=job.entry, params=job.params, bytes=hexs, engine=why))
        return False
    def job(self, job, deadline):
        left = deadline - time.time()
        r = dict(entry=job.entry, params=job.params, options=job.opts)
        if self.confirmed: return
        if left < 2: r['skipped'] = 'time'; self.results.append(r); return
        t = min(job.t, left)
        cmd = [ENGINE, IR, '--entry', job.entry, '--params', ','.join(map(str, job.params)), '--time', str(t)]
        for k, v in job.opts.items(): cmd += ['--' + k.replace('_', '-'), str(v)]
        t0 = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        with self.lock: self.procs.add(p)
        try: out, err = p.communicate(timeout=t + 60)
        except subprocess.TimeoutExpired: p.kill(); out, err = p.communicate()
        with self.lock: self.procs.discard(p)
        if self.confirmed: return
        r['wall'] = round(time.time() - t0, 1)
        ds = []
        for l in out.splitlines():
            try: ds.append(json.loads(l))
            except ValueError: pass
        ds = [d for d in ds if 'paths' in d]
        if not ds or p.returncode != 0:
            r['error'] = 'engine exit %s %s' % (p.returncode, err.strip()[-300:])
        if ds: r.update(ds[0])
        for v in r.get('violations', []):
            if self.confirm(job, v['bytes'], dict(kind=v['kind'], id=v['id'], stack=v['stack'][-6:])): break
        if not self.confirmed:
            ok = 0
            for hexs, emits in r.get('samples', [])[:3]:
                rc, out, err = native(REL, job.entry, job.params, hexs, trace=True)
                if bad(rc):
                    # the real code fails on an input of a path the engine finished: still the real code's failure
                    if self.confirm(job, hexs, dict(kind='native replay of a sampled path')): break
                got = [x[5:] for x in out.splitlines() if x.startswith('emit ')]
                if rc == 0 and got == emits: ok += 1
                else: r.setdefault('mismatches', []).append([hexs, rc])
            with self.lock:
                self.validated += ok; self.mismatch += len(r.get('mismatches', []))
        self.results.append(r)

def decided(r): return 'error' not in r and 'skipped' not in r and not r.get('incomplete') and not r.get('unsupported') and not r.get('unknown') and not r.get('mismatches')

UND = ('error', 'skipped', 'incomplete', 'unsupported', 'unknown', 'mismatches')

def main():
    a = sys.argv[1:]
    if a == ['--build']: build(['harness', 'cli']); return 0
    prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    sys.path.insert(0, V)
    import jobs
    lock = build()
    tb = time.time()
    js = [j for j in jobs.JOBS[prop] if tier == 'thorough' or j.q]
    gates = {}
    def gate(j):
        # entries that use the library outside its declared parameters run only if the library accepts that at all
        g = jobs.GATES.get(j.entry)
        if not g: return True
        if j.entry not in gates: gates[j.entry] = native(REL, j.entry, *g)[0] == 0
        return gates[j.entry]
    gated = [j for j in js if not gate(j)]
    js = [j for j in js if gate(j)]
    if tier == 'thorough':
        for j in js: j.t *= 5
    js.sort(key=lambda j: -j.cost)
    budget = float(os.environ.get('VERIF_BUDGET', '560' if tier == 'quick' else '7200'))
    deadline = tb + budget
    run = Run(prop, tier, seed)
    q = queue.Queue()
    for j in js: q.put(j)
    def work():
        while not run.confirmed:
            try: j = q.get_nowait()
            except queue.Empty: return
            try: run.job(j, deadline)
            except Exception as e: run.results.append(dict(entry=j.entry, params=j.params, error=repr(e)))
    ts = [threading.Thread(target=work, daemon=True) for _ in range(min(8, os.cpu_count() or 1))]
    for t in ts: t.start()
    while any(t.is_alive() for t in ts):
        time.sleep(0.05)
        if run.confirmed:
            with run.lock:
                for p in run.procs: p.kill()
            break
    for t in ts: t.join(70)
    ev(run, js, gated, tb - t0, t0)
    known = [l.strip() for l in open(V + '/known_findings.txt')] if os.path.exists(V + '/known_findings.txt') else []
    for l in known:
        m = re.match(r'finding: property=(\S+) (.*)', l)
        if m and m.group(1) == prop: print('KNOWN-FINDING: property=%s %s' % (prop, m.group(2)))
    if run.confirmed:
        d = V + '/evidence/replay'; os.makedirs(d, exist_ok=True)
        f = '%s/%s-%s.json' % (d, prop, hashlib.sha256(run.confirmed['command'].encode()).hexdigest()[:10])
        json.dump(run.confirmed, open(f, 'w'), indent=1)
        print('counterexample: %s' % run.confirmed['command'])
        print('observed (%s build): %s' % (run.confirmed['build'], run.confirmed['observed']))
        print('VIOLATION property=%s replay=%s' % (prop, f))
        return 1
    n = sum(decided(r) for r in run.results)
    print('%s %s: %d of %d jobs decided completely, %d paths, %d queries, %.0f s' % (prop, tier, n, len(js), sum(r.get('paths', 0) for r in run.results), sum(r.get('queries', 0) for r in run.results), time.time() - t0))
    for u in run.unrepro: print('note: counterexample not reproduced by the real code, ignored: %s' % json.dumps(u)[:300])
    und = [r for r in run.results if not decided(r)]
    for r in und[:5]: print('note: not decided completely: %s' % (' '.join([r['entry'], ','.join(map(str, r['params'])), str({k: r[k] for k in UND if r.get(k)})])[:250]))
    if len(und) > 5: print('note: ... and %d more, see the evidence file' % (len(und) - 5))
    if not any(r.get('ended') or r.get('paths') for r in run.results):
        print('ERROR: nothing was decided'); return 2
    return 0

def ev(run, js, gated, build_s, t0):
    rs = run.results
    s = lambda k: sum(r.get(k, 0) or 0 for r in rs)
    funcs = {}
    for r in rs:
        for f, n in (r.get('funcs') or []): funcs[f] = funcs.get(f, 0) + n
    reach = {}
    for r in rs:
        for k, v in (r.get('reached') or {}).items():
            key = '%s:%s' % (r['entry'], k); reach[key] = reach.get(key, 0) + v
    samples = []
    for r in rs:
        for sm in (r.get('samples') or [])[:1]:
            if len(samples) < 12: samples.append(dict(entry=r['entry'], params=','.join(map(str, r['params'])), symbolic_bytes_model=sm[0], values_emitted=len(sm[1])))
    und = [dict(entry=r['entry'], params=','.join(map(str, r['params'])), **{k: r[k] for k in UND if r.get(k)}) for r in rs if not decided(r)]
    libfuncs = sorted(f for f in funcs if 'retrocompressor' in f or 'lzw' in f or 'lzss' in f or 'lzhuf' in f or 'td0' in f or 'adaptive' in f or 'node_pool' in f or 'ring' in f)
    if not rs: samples = [run.confirmed] if run.confirmed else []
    cov = dict(
        states=s('paths'), transitions=s('steps'), traces_validated_against_impl=run.validated, samples=samples or [dict(note='no path finished')],
        jobs=len(js), jobs_run=len(rs), jobs_decided_completely=sum(decided(r) for r in rs), jobs_not_decided=und,
        jobs_left_out=[dict(entry=j.entry, params=j.params, why='the library refuses these parameters') for j in gated],
        paths_cut_by_assumption=s('assumed'), forks=s('forks'), state_merges=s('merges'), value_joins=s('joins'),
        assertions_checked=s('asserts'), assertions_constant=s('asserts_folded'), assertions_decided_by_solver=s('asserts_solver'),
        solver_queries=s('queries'), solver_sat=s('sat'), solver_unsat=s('unsat'), solver_unknown=s('unknown'), solver_seconds=round(s('solver_secs'), 2), engine_seconds=round(s('secs'), 2),
        functions_encoded=len(funcs), repo_functions_encoded=libfuncs[:200],
        reach_witnesses=reach, counterexamples_not_reproduced=run.unrepro, native_mismatches=run.mismatch,
        bounds='each job below is one bounded exploration: the entry and its concrete parameters (options, concrete prefix, how many symbolic bytes over which range); within a job every value of the symbolic bytes is covered; loops run to their end on every path, there is no unrolling bound',
        jobs_bounds=['%s %s' % (j.entry, ','.join(map(str, j.params))) for j in js],
        explanation='states = symbolic paths completed, transitions = IR instructions executed symbolically; traces_validated = solver models of finished paths run on the native release build with identical emitted values',
        build_seconds=round(build_s, 1))
    d = dict(property=run.prop, tier=run.tier, seed=run.seed, level='model_checking', coverage=cov,
        assumptions=['LLVM IR produced by rustc (opt-level 0, then scalar passes of opt) means what the machine code of the shipped build means', 'symx implements the IR semantics and Z3 is right', 'allocation never fails; HashMap iteration order and hash values do not matter where hashes are fixed'],
        wall_s=round(time.time() - t0, 1), violations=1 if run.confirmed else 0)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(d, open('%s/evidence/%s.json' % (V, run.prop), 'w'), indent=1)

sys.exit(main())
