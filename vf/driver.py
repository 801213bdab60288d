"""Check driver: builds obligations from /repo's current source, discharges them, replays counterexamples."""
import json, os, re, sys, time, shutil, subprocess, tempfile, traceback, threading, multiprocessing as mp, multiprocessing.popen_fork as mpf, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
OPT = '/usr/lib/llvm-18/bin/opt'
NPROC = int(os.environ.get('VF_JOBS', '8'))

# A worker forked by the pool's helper thread while the main thread starts a process or prints would inherit the open
# pipe ends (the parent then waits for an end of file that never comes) or a held lock: one lock serialises the three.
FORK = threading.RLock()
_launch, _popen = mpf.Popen._launch, subprocess.Popen.__init__


def _locked_launch(self, o):
    with FORK:
        return _launch(self, o)


def _locked_popen(self, *a, **kw):
    with FORK:
        return _popen(self, *a, **kw)


mpf.Popen._launch, subprocess.Popen.__init__ = _locked_launch, _locked_popen


def gen_config(d):
    """ht_config.h from the repository's template, with every platform feature on (what CMake does here)"""
    src = os.path.join(REPO, 'lib/include/hawktracer/ht_config.h.in')
    out = []
    ver = ('0', '0', '0')
    try:
        m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)\)', open(os.path.join(REPO, 'CMakeLists.txt')).read())
        if m:
            ver = m.groups()
    except OSError:
        pass
    if os.path.exists(src):
        for l in open(src):
            m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)', l)
            if m and m.group(1) == 'HT_COMPILE_STATIC':
                l = '\n'
            elif m:
                l = '#define %s%s\n' % (m.group(1), re.sub(r'@\w+@', '1', m.group(2)))
            l = l.replace('@PROJECT_VERSION@', '.'.join(ver))
            l = re.sub(r'@\w*MAJOR@', ver[0], l)
            l = re.sub(r'@\w*MINOR@', ver[1], l)
            l = re.sub(r'@\w*PATCH@', ver[2], l)
            l = re.sub(r'@\w+@', '1', l)
            out.append(l)
    os.makedirs(os.path.join(d, 'inc/hawktracer'), exist_ok=True)
    open(os.path.join(d, 'inc/hawktracer/ht_config.h'), 'w').write(''.join(out))


def incs(d):
    return ['-I', os.path.join(VERIF, 'vf'), '-I', os.path.join(VERIF, 'harness'), '-I', REPO,
            '-I', os.path.join(REPO, 'lib/include'), '-I', os.path.join(d, 'inc'),
            '-I', os.path.join(REPO, 'parser/include'), '-I', os.path.join(REPO, 'client_utils/include'), '-I', os.path.join(REPO, 'client')]


def run(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode('utf8', 'replace') + '\n[timeout]'


def compile_ir(src, d):
    """-> (path of optimised .ll or None, log)"""
    base = os.path.basename(src)
    cpp = src.endswith(('.cpp', '.cc'))
    ll, ll2 = os.path.join(d, base + '.ll'), os.path.join(d, base + '.o.ll')
    cmd = ['clang++' if cpp else 'clang', '-S', '-emit-llvm', '-g', '-O0', '-DNDEBUG', '-DVF_VERIFY', '-Xclang', '-disable-O0-optnone',
           '-fno-discard-value-names', '-w']
    if cpp:
        cmd += ['-std=c++11', '-nostdinc++', '-isystem', os.path.join(VERIF, 'ministd')]
    rc, log = run(cmd + incs(d) + [src, '-o', ll])
    if rc:
        return None, log
    rc, log2 = run([OPT, '-S', '-passes=sroa,simplifycfg,loop-simplify', ll, '-o', ll2])
    if rc:
        return None, log2
    return ll2, ' '.join(cmd)


def compile_native(src, d, san='address'):
    base = os.path.basename(src)
    cpp = src.endswith(('.cpp', '.cc'))
    out = os.path.join(d, base + '.' + san)
    rt = os.path.join(d, 'vf_native.%s.o' % san)
    flags = ['-g', '-O1', '-w', '-fsanitize=' + san, '-fno-omit-frame-pointer', '-DNDEBUG', '-DVF_NATIVE']
    if not os.path.exists(rt):
        tmp = rt + '.%d' % os.getpid()
        rc, log = run(['clang', '-c'] + flags + [os.path.join(VERIF, 'vf/vf_native.c'), '-o', tmp])
        if rc:
            return None, log
        os.rename(tmp, rt)
    cmd = ['clang++' if cpp else 'clang'] + flags + (['-std=c++11'] if cpp else []) + incs(d)
    m = re.search(r'vf-link:\s*(.*?)\s*\*/', open(src).read())
    extra = m.group(1).split() if m else []
    rc, log = run(cmd + [src, rt, '-o', out, '-rdynamic', '-ldl', '-lpthread'] + extra)
    if rc:
        return None, log
    return out, ''


SANENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=1',
              MSAN_OPTIONS='allocator_may_return_null=1')


def prove(args):
    """run one harness in one mode (in a worker process)"""
    ll, h, mode, budget, opts = args
    from . import ir, engine, builtins as _b
    from .sym import Budget
    from .mem import Unsupported
    sys.setrecursionlimit(100000)
    t0 = time.time()
    r = {'harness': h, 'mode': mode, 'status': 'undecided', 'reason': ''}
    e = None
    try:
        mod = ir.parse_module(open(ll).read())
        if '@' + h not in mod.funcs:
            r['reason'] = 'harness not in module'
            return r
        e = engine.Engine(mod, mode=mode, stop_first=(mode != 'proof'), time_budget=budget, max_iter=opts.get('max_iter', 40))
        e.verify(h)
        bad = [k for k, v in e.obl.items() if v[1] == 'fail']
        unk = [k for k, v in e.obl.items() if v[1] == 'unknown']
        if bad:
            r['status'] = 'failed'
        elif unk:
            r['status'] = 'undecided'
            r['reason'] = 'solver returned unknown on %d obligations, first %s' % (len(unk), unk[0])
        elif not e.obl:
            r['reason'] = 'no obligation generated'
        else:
            unc = sorted(set(re.findall(r'\n', '')) | {c for c, v in e.covers.items() if not v})
            r['status'] = 'proved' if not unc and e.covers else 'undecided'
            if unc:
                r['reason'] = 'not reachable (vacuous): %s' % unc
            elif not e.covers:
                r['reason'] = 'no cover point reached'
            if e.truncated and mode != 'proof':
                r['reason'] = '%d paths cut at the unwinding bound' % e.truncated
    except Unsupported as x:
        r['reason'] = 'outside the verifier: %s' % x
    except (Budget, engine.TooMany) as x:
        r['reason'] = 'budget exhausted (%s %s)' % (type(x).__name__, x)
    except RecursionError:
        r['reason'] = 'recursion limit'
    except Exception as x:
        r['reason'] = 'verifier error: %s' % traceback.format_exc()[-1500:]
    if e is not None:
        if r['status'] == 'undecided' and any(v[1] == 'fail' for v in e.obl.values()):
            r['status'] = 'failed'
        r['failures'] = [dict(f, values=[(n, k, v) for n, k, v in f['values']]) for f in e.failures[:8]]
        r['obligations'] = sum(v[0] for v in e.obl.values())
        r['sites'] = len(e.obl)
        r['sites_ok'] = sum(1 for v in e.obl.values() if v[1] == 'ok')
        r['names'] = ['%s: %s [%s]' % (k[0], k[2], k[1]) for k in e.obl]
        r['functions'] = sorted(f.lstrip('@') for f in e.functions)
        r['contracts'] = sorted(str(c).lstrip('@') for c in e.contracts_used)
        r['external'] = sorted(e.external) if hasattr(e, 'external') else []
        r['solver'] = {'queries': e.solver.queries, 'time_s': round(e.solver.time, 2), 'by': dict(e.solver.by), 'unknown': e.solver.unknowns}
        r['covers'] = dict(e.covers)
        r['cut_loops'] = len(e.cutset)
        r['invariants'] = [str(x)[:300] for x in e.houdini][:20]
        r['paths'] = e.paths
    r['time_s'] = round(time.time() - t0, 2)
    return r


def replay_file(path, values):
    with open(path, 'w') as f:
        for n, k, v in values:
            if k == 'bytes':
                f.write('%s bytes %s\n' % (n, v or ''))
            else:
                f.write('%s int %d\n' % (n, v))


def native_fail(rc):
    return rc not in (0, 77, 3, -999)


def try_replay(bins, h, values, d, tag):
    """-> (san, output) when the recorded assignment makes the real code fail"""
    tot = sum((len(v) // 2 if v else 0) if k == 'bytes' else 0 for n, k, v in values)
    if any(k == 'bytes' and v is None for n, k, v in values):
        return None
    p = os.path.join(d, 'replay_%s_%s.txt' % (h, tag))
    replay_file(p, values)
    for san in bins:
        rc, out = run([bins[san], h, 'replay', p], timeout=60, env=SANENV)
        if native_fail(rc):
            return san, out, p
    return None


def search(args):
    b, h, seed, count, secs, tf = args
    rc, out = run([b, h, 'search', str(seed), str(count), str(secs), tf], timeout=secs + 60, env=SANENV)
    vals = open(tf).read() if os.path.exists(tf) else ''
    return rc, out, vals, h


class Check:
    def __init__(self, pid, spec, tier, seed):
        self.pid, self.spec, self.tier, self.seed = pid, spec, tier, seed
        self.t0 = time.time()
        self.d = tempfile.mkdtemp(prefix='vf_%s_' % pid)
        self.results = []
        self.notes = []
        self.violations = []
        self.confirmed = []
        self.native = []

    def log(self, *a):
        with FORK:
            print(*a, flush=True)

    def left(self):
        return self.spec.get('limit', 780) - (time.time() - self.t0)

    def go(self):
        try:
            return self._go()
        finally:
            shutil.rmtree(self.d, ignore_errors=True)

    def mine(self, u, h):
        return u not in self.only or re.search(self.only[u], h) is not None

    def relevant(self, text):
        if text.startswith('allocator') and self.pid != 'P17':
            return False
        return re.search(self.spec.get('obl', ''), text) is not None

    def harnesses(self, ll, prefix):
        return re.findall(r'^define[^@]*@(%s\w+)\(' % prefix, open(ll).read(), re.M)

    def _go(self):
        spec = self.spec
        gen_config(self.d)
        hd = os.path.join(VERIF, 'harness')
        jobs = []
        pool = mp.get_context('fork').Pool(NPROC, maxtasksperchild=1)
        self.only = dict(x.split(':', 1) for x in spec['units'] if ':' in x)    # 'file:regex' restricts the unit to some harnesses
        units = spec['units'] = [x.split(':', 1)[0] for x in spec['units']]
        self.ll = {}
        self.bins = {}
        ir_async = {u: pool.apply_async(compile_ir, (os.path.join(hd, u), self.d)) for u in units if not u.startswith('native_')}
        nat_async = {}
        for u in units:
            if spec.get('native', True) and not (u.endswith('.cpp') and not u.startswith('native_')):
                nat_async[u] = pool.apply_async(compile_native, (os.path.join(hd, u), self.d))
        pend = []
        budget = spec.get('budget', 240 if self.tier == 'quick' else 600)
        for u, a in ir_async.items():
            ll, log = a.get()
            self.ll[u] = ll
            if ll is None:
                self.notes.append('%s: specification no longer matches the source, obligations not generated: %s' % (u, log[-400:]))
                self.log('UNDECIDED', u, 'does not compile against the current source')
                self.log(log[-600:])
                continue
            hs = [h for h in self.harnesses(ll, 'H_') + self.harnesses(ll, 'B_') if self.mine(u, h)]
            for h in hs:
                mode = 'proof' if h.startswith('H_') else 'bounded'
                pend.append((u, h, pool.apply_async(prove, ((ll, h, mode, budget, spec.get('opts', {})),))))
        failed, undecided = [], []
        for u, h, a in pend:
            try:
                r = a.get(timeout=max(30, self.left() - 150))
            except mp.TimeoutError:
                r = {'harness': h, 'mode': 'proof', 'status': 'undecided', 'reason': 'time limit'}
            r['unit'] = u
            self.results.append(r)
            self.log('%-10s %-34s %-9s sites %s VCs %s  %ss %s' % (r['mode'], h, r['status'], r.get('sites', 0), r.get('obligations', 0), r.get('time_s'), r['reason'][:200]))
            for f in r.get('failures', []):
                self.log('    FAILED obligation:', f['obligation'][:250])
            if r['status'] == 'failed':
                # a property may own only some of the obligations of the harness
                n = len(r['failures'])
                r['failures'] = [f for f in r['failures'] if self.relevant(f['obligation'])]
                if n and not r['failures']:
                    r['status'] = 'proved'
                    self.notes.append('%s: only obligations of other properties fail' % h)
                    continue
                failed.append(r)
            elif r['status'] == 'undecided':
                undecided.append(r)
        for u, a in nat_async.items():
            b, log = a.get()
            if b:
                self.bins[u] = b
            else:
                self.notes.append('%s: native build failed: %s' % (u, log[-400:]))
                self.log('native build of', u, 'failed', log[-1500:])
        # -------- counterexamples for failed obligations
        for r in [r for r in failed if self.known_for(r)]:
            self.violations.append({'harness': r['harness'], 'unit': r['unit'], 'failures': r.get('failures', []), 'confirmed': None})
            failed.remove(r)
            r['status'] = 'known-finding'       # refuted, listed and reported as such; not counted as an obligation of the proof
        for r in failed:
            self.confirm(pool, r, again=False)
        # -------- native cross-check / search for failing inputs (never counted as proof)
        quiet = not failed and not undecided
        secs = (2 if self.tier == 'quick' else 30) if quiet else 20
        if undecided and not failed:
            secs = 25
        secs = spec.get('search_s', {}).get(self.tier, secs) if quiet else secs
        self.native_search(pool, secs, {r['harness'] for r in undecided + failed})
        # failed obligations without a failing input so far: look for one with all loops unrolled, all harnesses at once
        todo = [r for r in failed if r['mode'] == 'proof'] if not any(v['confirmed'] for v in self.violations) else []
        asy = [(r, pool.apply_async(prove, ((self.ll[r['unit']], r['harness'], 'bounded', 120, spec.get('opts', {})),))) for r in todo]
        end = time.time() + max(20, min(240, self.left() - 90))
        for r, a in asy:
            try:
                b = a.get(timeout=max(1, end - time.time()))
            except mp.TimeoutError:
                continue
            self.log('bounded    %-34s %-9s VCs %s %s' % (b['harness'], b['status'], b.get('obligations'), b['reason'][:160]))
            if any(v['confirmed'] for v in self.violations):
                break
            b['unit'] = r['unit']
            self.violations = [v for v in self.violations if v['harness'] != r['harness']]
            self.confirm(pool, dict(r, failures=b.get('failures', []) + r.get('failures', []), mode='bounded' if b.get('failures') else r['mode']), again=False)
            self.violations[-1]['failures'] = r.get('failures', [])
        # bounded symbolic stand-ins for undecided proofs
        und = [r for r in undecided if r['mode'] == 'proof' and self.ll.get(r['unit'])]
        asy = [(r, pool.apply_async(prove, ((self.ll[r['unit']], r['harness'], 'bounded', 60, spec.get('opts', {})),))) for r in und]
        for r, a in asy:
            try:
                b = a.get(timeout=max(20, self.left()))
            except mp.TimeoutError:
                b = {'status': 'undecided', 'reason': 'time limit', 'harness': r['harness'], 'mode': 'bounded'}
            r['bounded'] = {k: b.get(k) for k in ('status', 'reason', 'obligations', 'paths', 'time_s')}
            self.log('bounded    %-34s %-9s VCs %s %s' % (b['harness'], b['status'], b.get('obligations'), b['reason'][:160]))
            if b['status'] == 'failed':
                b['unit'] = r['unit']
                self.confirm(pool, b, again=False)
        pool.terminate()
        return self.finish()

    def msan(self, u):
        k = u + '.msan'
        if k not in self.bins:
            b, log = compile_native(os.path.join(VERIF, 'harness', u), self.d, 'memory') if u.endswith('.c') else (None, '')
            self.bins[k] = b
        return self.bins[k]

    def confirm(self, pool, r, again=True):
        """failed obligation: look for a failing input and replay it on the real code"""
        h, u = r['harness'], r['unit']
        cands = [(f, 'model') for f in r.get('failures', []) if f['status'] == 'fail' and (not f['after_cut'] or r['mode'] != 'proof')]
        if again and r['mode'] == 'proof':
            a = pool.apply_async(prove, ((self.ll[u], h, 'bounded', 120, self.spec.get('opts', {})),))
            try:
                b = a.get(timeout=max(20, min(200, self.left() - 60)))
                self.log('bounded    %-34s %-9s VCs %s %s' % (h, b['status'], b.get('obligations'), b['reason'][:160]))
                cands = [(f, 'bounded') for f in b.get('failures', []) if f['status'] == 'fail'] + cands
            except mp.TimeoutError:
                pass
        ok = None
        if u in self.bins:
            for i, (f, src) in enumerate(cands[:6]):
                bins = {'address': self.bins[u]}
                res = try_replay(bins, h, f['values'], self.d, str(i))
                if res is None and 'uninit' in f['kind'] + f['msg'] and self.msan(u):
                    res = try_replay({'memory': self.msan(u)}, h, f['values'], self.d, str(i))
                if res:
                    ok = (f, res)
                    break
        self.violations.append({'harness': h, 'unit': u, 'failures': r.get('failures', []), 'confirmed': None if ok is None else
                                {'obligation': ok[0]['obligation'], 'sanitizer': ok[1][0], 'output': ok[1][1][-3000:], 'values': open(ok[1][2]).read()}})

    def native_search(self, pool, secs, hot):
        jobs = []
        i = 0
        for u, b in list(self.bins.items()):
            if not b or u.endswith('.msan'):
                continue
            src = open(os.path.join(VERIF, 'harness', u)).read()
            hs = re.findall(r'^(?:extern "C" )?void\s+([HBNK]_\w+)\s*\(', src, re.M)
            for h in hs:
                if '/* no-native %s */' % h in src or not self.mine(u, h):
                    continue
                n = 1 if not (hot and (h in hot or h.startswith('N_'))) else 3
                for k in range(n):
                    i += 1
                    jobs.append((b, h, self.seed * 1000003 + i, 10**7, secs, os.path.join(self.d, 'tr%d' % i)))
        if not jobs:
            return
        # bound the total time
        per = max(1, min(secs, max(1.0, (self.left() - 60) * NPROC / len(jobs))))
        jobs = [j[:4] + (per,) + j[5:] for j in jobs]
        for rc, out, vals, h in pool.imap_unordered(search, jobs):
            m = re.search(r'ran=(\d+)(?: discarded=(\d+))?', out)
            self.native.append({'harness': h, 'ran': int(m.group(1)) if m else 0, 'discarded': int(m.group(2) or 0) if m else 0, 'rc': rc})
            if rc == 1 and 'obl' in self.spec and not self.relevant(out):
                continue
            if rc == 1:
                self.log('    native search: failing input for', h)
                u = next((x for x in self.bins if self.bins[x] and self.bins[x] + '' == next(j[0] for j in jobs if j[1] == h)), None)
                if not any(v['harness'] == h and v['confirmed'] for v in self.violations):
                    self.violations.append({'harness': h, 'unit': u, 'failures': [], 'confirmed':
                                            {'obligation': 'native execution of ' + h, 'sanitizer': 'address', 'output': out[-3000:], 'values': vals}})

    def known_for(self, v):
        """the listed finding that explains every failed obligation of this harness, if any"""
        known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
        return next((f for f in known if f.get('kind') == 'known' and f['property'] == self.pid and f['harness'] == v['harness'] and
                     all(f['obligation'] in x['obligation'] for x in v['failures']) and
                     (v['failures'] or f['obligation'] in (v.get('confirmed') or {}).get('output', ''))), None)

    def finish(self):
        spec = self.spec
        proofs = [r for r in self.results if r['mode'] == 'proof' and r['status'] != 'known-finding']
        bounded = [r for r in self.results if r['mode'] != 'proof']
        if 'obl' in spec:                           # count only the obligations this property owns
            for r in proofs:
                mine = [n for n in r.get('names', []) if self.relevant(n)]
                if r['status'] == 'proved':
                    r['sites_ok'] = len(mine)
                r['sites'], r['names'] = len(mine), mine
        ob = sum(r.get('sites', 0) for r in proofs)
        di = sum(r.get('sites_ok', 0) for r in proofs if r['status'] == 'proved')
        by = {}
        st = 0.0
        for r in self.results:
            for k, v in r.get('solver', {}).get('by', {}).items():
                by[k] = by.get(k, 0) + v
            st += r.get('solver', {}).get('time_s', 0)
        allproved = bool(proofs) and all(r['status'] == 'proved' for r in proofs)
        funcs = sorted({f for r in proofs for f in r.get('functions', []) if not re.match(r'(H_|C__|vf_|G_|B_|N_|K_)', f)})
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'proof' if allproved else 'other',
            'coverage': {
                'obligations': ob, 'discharged': di,
                'checker_cmd': 'python3-vt /verif/check.py %s (clang -emit-llvm of harness/%s including the sources of %s; vf verifier; z3 / cvc5)' % (self.pid, ','.join(spec['units']), REPO),
                'trusted_base': ['clang 18 front end and LLVM sroa/simplifycfg/loop-simplify', 'vf verifier (/verif/vf: IR semantics, memory model, VC generation)', 'z3, cvc5'] + spec.get('trusted', []),
                'explanation': 'Obligations are named sites (memory safety of every access, arithmetic, asserts from the contracts, loop invariants); each is discharged on every path through it.' if allproved else
                'Not every obligation could be generated/discharged this run; see undecided. The bounded and native runs below are stand-ins, not proof.',
                'verification_conditions': sum(r.get('obligations', 0) for r in proofs),
                'functions_under_contract': funcs,
                'contracts_assumed_at_calls': sorted({c for r in proofs for c in r.get('contracts', [])}),
                'solver_time_s': round(st, 1), 'queries_by_backend': by,
                'proofs': [{k: r.get(k) for k in ('unit', 'harness', 'status', 'reason', 'sites', 'obligations', 'paths', 'cut_loops', 'covers', 'time_s', 'bounded')} for r in proofs],
                'bounded_checks': [{k: r.get(k) for k in ('unit', 'harness', 'status', 'reason', 'obligations', 'paths', 'time_s')} for r in bounded],
                'native_cross_check': self.native,
                'undecided': [r['harness'] + ': ' + r['reason'][:300] for r in self.results if r['status'] == 'undecided'],
                'notes': self.notes,
                'obligation_names': sorted({n for r in proofs for n in r.get('names', [])})[:1000],
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        rc = 0
        kf = {}
        rest = []
        for v in self.violations:
            f = self.known_for(v)
            if f is None:
                rest.append(v)
            else:
                kf[f['what']] = f
        self.violations = rest
        ev['violations'] = len(rest)
        ev['coverage']['known_findings'] = sorted(kf)
        for w in sorted(kf):
            self.log('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        if self.violations:
            rc = 1
            conf = [v for v in self.violations if v['confirmed']]
            v = (conf or self.violations)[0]
            rd = os.path.join(VERIF, 'replays', self.pid)
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s.json' % v['harness'])
            for f in v['failures']:
                f['values'] = [(n, k, x if k != 'bytes' else (x or '')[:400]) for n, k, x in f['values']][:200]
            json.dump({'property': self.pid, 'harness': v['harness'], 'unit': v['unit'],
                       'failed_obligations': [f['obligation'] for f in v['failures']], 'violation': v,
                       'others': [{'harness': x['harness'], 'obligations': [f['obligation'] for f in x['failures']][:5], 'confirmed': bool(x['confirmed'])} for x in self.violations],
                       'replay_cmd': 'python3-vt /verif/check.py --replay %s' % rp}, open(rp, 'w'), indent=1, default=str)
            if conf:
                tail = [l for l in v['confirmed']['output'].splitlines() if 'VF-ASSERT' in l or 'ERROR:' in l or 'SUMMARY' in l][:3]
                self.log('confirmed on the real code: %s: %s' % (v['harness'], ' / '.join(tail)))
            line = 'VIOLATION property=%s replay=%s' % (self.pid, rp)
            self.log(line if conf else line + ' no-failing-input-found')
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        self.log('%s: %d/%d obligations discharged in %d harnesses (%s), solver %.1fs, wall %.1fs, exit %d' %
                 (self.pid, di, ob, len(proofs), 'all proved' if allproved else 'NOT all proved', st, time.time() - self.t0, rc))
        return rc


def replay(path):
    j = json.load(open(path))
    v = j['violation']
    if not v['confirmed']:
        print('no failing input recorded; failed obligations:', j['failed_obligations'])
        return 0
    d = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        gen_config(d)
        b, log = compile_native(os.path.join(VERIF, 'harness', v['unit']), d, v['confirmed']['sanitizer'])
        p = os.path.join(d, 'r.txt')
        open(p, 'w').write(v['confirmed']['values'])
        rc, out = run([b, v['harness'], 'replay', p], env=SANENV)
        print(out)
        print('exit', rc)
        return 1 if native_fail(rc) else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
