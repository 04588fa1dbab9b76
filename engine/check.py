#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decide property ID on /repo's current tree."""
import sys, os, json, subprocess, hashlib, shutil, time, re, threading, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = os.path.join(V, 'engine'); HAR = os.path.join(V, 'harness')
REPO = os.environ.get('BFL_REPO', '/repo'); SRC = os.path.join(REPO, 'orocos_bfl')
NCPU = os.cpu_count() or 8
T0 = time.time()

def die(msg):
    print('CHECK-ERROR: ' + msg, flush=True); sys.exit(2)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def tree(d, exts):
    r = []
    for b, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('.git', '_build')]
        for f in fs:
            if f.endswith(exts) or f == 'CMakeLists.txt': r.append(os.path.join(b, f))
    return r

class Build:
    """objects are cached by content hash of everything they depend on"""
    def __init__(self):
        self.root = os.path.join(V, 'build'); os.makedirs(self.root, exist_ok=True)
        repo_files = tree(os.path.join(SRC, 'src'), ('.cpp', '.h', '.in')) + tree(os.path.join(SRC, 'config'), ('.cmake', '.in')) + [os.path.join(SRC, 'CMakeLists.txt')]
        self.repo_hash = filehash(repo_files)
        self.eng_hash = filehash([os.path.join(ENG, f) for f in os.listdir(ENG) if f.endswith(('.cpp', '.h', '.py'))])
        self.dir = os.path.join(self.root, self.repo_hash + '-' + self.eng_hash)
        os.makedirs(self.dir, exist_ok=True)
        self.lock = open(os.path.join(self.root, '.lock'), 'w'); fcntl.flock(self.lock, fcntl.LOCK_EX)
        # keep the cache small
        old = sorted([d for d in os.listdir(self.root) if os.path.isdir(os.path.join(self.root, d)) and d != os.path.basename(self.dir)], key=lambda d: os.path.getmtime(os.path.join(self.root, d)))
        for d in old[:-3]: shutil.rmtree(os.path.join(self.root, d), ignore_errors=True)
        self.notes = []; self.pool = ThreadPoolExecutor(NCPU)
    def unlock(self): fcntl.flock(self.lock, fcntl.LOCK_UN)
    def p(self, *a): return os.path.join(self.dir, *a)
    def cc(self, cmd, out, what):
        if os.path.exists(out): return ''
        tmp = out + '.tmp%d.o' % threading.get_ident()
        r = sh(cmd + ['-o', tmp])
        if r.returncode: raise RuntimeError('compiling %s failed:\n%s' % (what, r.stdout[-3000:]))
        os.replace(tmp, out)
        if 'UNSUPPORTED' in r.stdout: raise RuntimeError('unsupported floating-point operation in %s:\n%s' % (what, r.stdout[-3000:]))
        return r.stdout
    def engine(self):
        def plug():
            fl = sh(['llvm-config-18', '--cxxflags']).stdout.replace('-fno-exceptions', '').split()
            self.cc(['g++', '-shared', '-fPIC', '-O1', '-fno-rtti'] + fl + [os.path.join(ENG, 'sympass.cpp')], self.p('sympass.so'), 'sympass')
        f = [self.pool.submit(plug), self.pool.submit(self.cc, ['g++', '-std=c++17', '-O2', '-w', '-c', os.path.join(ENG, 'symrt.cpp')], self.p('symrt.o'), 'symrt')]
        return f
    def configure(self, be):
        d = self.p('cmake_' + be)
        cc = os.path.join(d, 'compile_commands.json')
        if not os.path.exists(cc):
            os.makedirs(d, exist_ok=True)
            r = sh(['cmake', '-S', SRC, '-B', d, '-G', 'Ninja', '-DMATRIX_LIB=' + be, '-DGINAC_SUPPORT=OFF', '-DBUILD_TESTS=OFF', '-DBUILD_EXAMPLES=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-Wno-dev'], env=dict(os.environ, CC='gcc', CXX='g++'))
            if r.returncode or not os.path.exists(cc): raise RuntimeError('cmake failed:\n' + r.stdout[-3000:])
        srcs = []; flags = []
        for e in json.load(open(cc)):
            srcs.append(e['file'])
            for t in e['command'].split():
                if t.startswith(('-I', '-D')) and t != '-DNDEBUG' and t not in flags: flags.append(t)
        toks = json.load(open(cc))[0]['command'].split()
        for i, t in enumerate(toks):
            if t == '-isystem': flags += ['-isystem', toks[i + 1]]
        # the configured build directory stands in for the places BFL's sources look for config.h
        flags += ['-I' + os.path.join(d, 'src', 'wrappers', 'rng'), '-I' + os.path.join(d, 'src', 'wrappers'), '-I' + os.path.join(d, 'src'), '-I' + os.path.join(SRC, 'src')]
        if be == 'eigen' and not any('eigen3' in f for f in flags): flags.append('-I/usr/include/eigen3')
        return srcs, flags
    def base(self, mode):
        if mode == 'sym':
            return ['clang++', '-std=c++11', '-O1', '-fpass-plugin=' + self.p('sympass.so'), '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-ftrivial-auto-var-init=pattern', '-DEIGEN_DONT_VECTORIZE', '-DBOOST_UBLAS_TYPE_CHECK=0', '-D_GLIBCXX_ASSERTIONS', '-w', '-I' + ENG, '-I' + HAR]
        return ['g++', '-std=c++11', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-w', '-I' + ENG, '-I' + HAR]
    def binary(self, prop, be, mode):
        """futures for all objects; returns a link closure"""
        srcs, flags = self.configure(be)
        hfile = os.path.join(HAR, prop + '.cpp')
        hh = filehash([hfile] + [os.path.join(HAR, f) for f in os.listdir(HAR) if f.endswith('.h')])
        realrng = 'REAL_RNG' in open(hfile).read()
        futs = []; objs = []
        def add(src, out, what, extra=[]):
            objs.append(out); futs.append(self.pool.submit(self.cc, self.base(mode) + flags + extra + ['-c', src], out, what))
        add(hfile, self.p('%s_%s_%s_%s.o' % (prop, be, mode, hh)), 'harness ' + prop)
        for s in srcs:
            if s.endswith('rng/rng.cpp') and not realrng: continue
            add(s, self.p('%s_%s_%s.o' % (os.path.relpath(s, SRC).replace('/', '__'), be, mode)), os.path.relpath(s, REPO))
        if not realrng: add(os.path.join(ENG, 'rngstub.cpp'), self.p('rngstub_%s_%s.o' % (be, mode)), 'rngstub')
        if mode == 'native': add(os.path.join(ENG, 'native.cpp'), self.p('native_%s.o' % be), 'native')
        exe = self.p('%s_%s_%s_%s' % (prop, be, mode, hh))
        def link():
            for f in futs: self.notes.append(f.result())
            if os.path.exists(exe): return exe
            o = objs + ([self.p('symrt.o')] if mode == 'sym' else [])
            l = ['-lz3', '-lgmpxx', '-lgmp'] if mode == 'sym' else []
            r = sh(['g++'] + (['-fsanitize=address'] if mode == 'native' else []) + o + l + ['-o', exe + '.tmp'])
            if r.returncode: raise RuntimeError('link failed:\n' + r.stdout[-3000:])
            os.replace(exe + '.tmp', exe); return exe
        return link

STOP = threading.Event()  # a violation is confirmed: let the rest of the exploration wind down
def records(outf):
    recs = []
    for l in open(outf, errors='replace') if os.path.exists(outf) else []:
        try: recs.append(json.loads(l))
        except Exception: pass
    return recs

def run_case(exe, case, outf, opts, tok, confirm):
    cmd = [exe, '--case', case, '--out', outf] + opts
    if tok: cmd += ['--tok', str(tok[0]), str(tok[1])]
    with open(outf + '.log', 'w') as lg:
        p = subprocess.Popen(cmd, stdout=lg, stderr=lg, pass_fds=tok or (), start_new_session=True)
        end = time.time() + opts_time(opts) + 120; nxt = time.time() + 20; grace = None
        while p.poll() is None and time.time() < end:
            try: p.wait(timeout=0.5)
            except subprocess.TimeoutExpired: pass
            if STOP.is_set():
                grace = grace or time.time() + 15
                if time.time() > grace: break
            elif time.time() > nxt:
                c = [x for x in records(outf) if x['kind'] == 'candidate']
                if c: confirm(c)
                nxt = time.time() + 30
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.wait()
    recs = records(outf)
    if not STOP.is_set():
        c = [x for x in recs if x['kind'] == 'candidate']
        if c: confirm(c)
    return recs

def opts_time(o): return float(o[o.index('--time') + 1])

def native_run(exe, case, inputs, scratch):
    fd, fn = tempfile.mkstemp(dir=scratch); os.close(fd)
    with open(fn, 'w') as f:
        for k, v in inputs.items(): f.write('%s\t%s\n' % (k, v))
    try: r = sh([exe, '--case', case, '--in', fn], timeout=90, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1')); rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired: rc, out = 124, 'timeout'
    return rc, out

def main():
    if sys.argv[1] == '--replay': return replay(sys.argv[2])
    if sys.argv[1] == '--setup':
        B = Build(); [f.result() for f in B.engine()]; B.unlock(); return
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--case') + 1] if '--case' in sys.argv else None
    onlybe = sys.argv[sys.argv.index('--be') + 1] if '--be' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scratch = tempfile.mkdtemp(prefix='bflchk_')
    try: rc = decide(prop, tier, seed, only, onlybe, scratch)
    except RuntimeError as e: die(str(e))
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def replay(fn):
    d = json.load(open(fn)); B = Build(); exe = B.binary(d['property'], d['matrix_library'], 'native')(); B.unlock()
    scratch = tempfile.mkdtemp(prefix='bflchk_')
    rc, out = native_run(exe, d['case'], d['inputs'], scratch); shutil.rmtree(scratch, ignore_errors=True)
    print(out); print('native exit', rc, '(violation reproduced)' if rc not in (0, 20) else '(not reproduced)'); sys.exit(1 if rc not in (0, 20) else 0)

def decide(prop, tier, seed, only, onlybe, scratch):
    B = Build(); thorough = tier == 'thorough'
    backends = [onlybe] if onlybe else ['boost', 'eigen']
    eng = B.engine(); eng[0].result()
    links = [(be, B.binary(prop, be, 'sym')) for be in backends]
    nlinks = {be: B.binary(prop, be, 'native') for be in backends} if thorough else {}
    for f in eng: f.result()
    exes = [(be, l()) for be, l in links]
    B.unlock()
    tbuild = time.time() - T0
    r, w = os.pipe(); os.write(w, b'x' * NCPU); os.set_blocking(r, False)
    jobs = []
    for be, exe in exes:
        for l in sh([exe, '--list']).stdout.split('\n'):
            if not l.strip(): continue
            n, t = l.split()
            if int(t) > 0 and not thorough: continue
            if only and n != only: continue
            jobs.append((be, exe, n))
    budget = 3000 if thorough else 500
    res = {}
    dumpdir = os.path.join(scratch, 'dump'); os.makedirs(dumpdir)
    nlock = threading.Lock(); ncache = {}; tried = set()
    def nativeexe(be):
        with nlock:
            if be not in ncache: ncache[be] = (nlinks.get(be) or B.binary(prop, be, 'native'))()
            return ncache[be]
    known = []
    kf = os.path.join(V, 'known_findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop and k['status'] == 'known']
    def isknown(n, what): return [k for k in known if k['case'] == n and re.search(k['what'], what)]
    def confirmer(be, n):
        def confirm(cs):
            k = 0
            for c in cs:
                key = (be, n, json.dumps(c['inputs'], sort_keys=True))
                if key in tried or isknown(n, c['what']) or STOP.is_set(): continue
                tried.add(key); k += 1
                if k > 6: return
                try: rc, out = native_run(nativeexe(be), n, c['inputs'], scratch)
                except RuntimeError: return
                if rc not in (0, 20): c['_confirmed'] = True; STOP.set(); return
        return confirm
    def job(j):
        be, exe, n = j
        if STOP.is_set(): return
        opts = ['--time', str(max(30, budget - (time.time() - T0 - tbuild))), '--qtime', '60' if thorough else '20', '--ftime', '6' if thorough else '3', '--paths', '400000' if thorough else '60000', '--tier', tier]
        if thorough: opts += ['--dump', dumpdir, '3']
        while True:
            try: os.read(r, 1); break
            except BlockingIOError: time.sleep(0.02)
            if STOP.is_set(): return
        try: recs = run_case(exe, n, os.path.join(scratch, '%s_%s.jsonl' % (be, n)), opts, (r, w), confirmer(be, n))
        finally: os.write(w, b'x')
        res[(be, n)] = recs
        if os.environ.get('SYM_VERBOSE'):
            st = [x for x in recs if x['kind'] == 'stats']
            s = st[0] if st else {}
            print('%-6s %-34s paths=%s obl=%s/%s q=%s unk=%s cand=%s inc=%s anz=%s funk=%s solver=%.1fs maxq=%.1f wall=%.1fs%s' % (be, n, s.get('paths'), s.get('discharged'), s.get('obligations'), s.get('queries'), s.get('unknown'), s.get('candidates'), s.get('inconclusive'), s.get('assumed_nonzero'), s.get('feasibility_unknown'), s.get('solver_s', 0), s.get('max_query_s', 0), s.get('wall', 0), ' STOPPED' if s.get('stopped') else ''), flush=True)
    with ThreadPoolExecutor(max(1, len(jobs))) as ex: list(ex.map(job, jobs))
    agg = {}; fns = set(); cands = []; reaches = []; incon = []; uninit = 0
    for (be, n), recs in res.items():
        st = [x for x in recs if x['kind'] == 'stats']
        if not st:
            incon.append('%s/%s: no result (crash or timeout of the engine)' % (be, n)); cands += [(be, n, x) for x in recs if x['kind'] == 'candidate']; continue
        for k, v in st[0].items():
            if isinstance(v, (int, float)): agg[k] = max(agg.get(k, 0), v) if k in ('depth', 'max_query_s', 'wall', 'stopped') else agg.get(k, 0) + v
        if st[0]['stopped']: incon.append('%s/%s: exploration stopped at its limit' % (be, n))
        got = set()
        for x in recs:
            if x['kind'] == 'fn': fns.add(x['name'])
            elif x['kind'] == 'candidate': cands.append((be, n, x))
            elif x['kind'] == 'reach': got.add(x['label']); reaches.append((be, n, x))
            elif x['kind'] in ('unknown', 'blowup'): incon.append('%s/%s: undecided obligation: %s' % (be, n, x.get('what')))
            elif x['kind'] == 'uninit': uninit += 1
        if not got and not [c for c in cands if c[1] == n]: incon.append('%s/%s: no feasible path reaches the end (vacuous)' % (be, n))
    violations = []; seen = set(); unconfirmed = 0; knownhit = {}; unconf = {}
    if cands or (thorough and reaches):
        nexe = {}
        for be in sorted(set([c[0] for c in cands] + ([x[0] for x in reaches] if thorough else []))):
            nexe[be] = nativeexe(be)
    percase = {}
    cands.sort(key=lambda c: (c[0], c[1], 'undefined value' in c[2]['what']))
    for be, n, c in cands:
        key = (n, c['what'])
        if key in seen: continue
        if len(violations) >= 8 or (violations and time.time() - T0 > 600) or time.time() - T0 > 780: break
        if percase.get((n, c['what'], 'tries'), 0) >= 12: continue
        percase[(n, c['what'], 'tries')] = percase.get((n, c['what'], 'tries'), 0) + 1
        rc, out = native_run(nexe[be], n, c['inputs'], scratch)
        bad = rc == 10 or (rc not in (0, 20))
        if not bad: unconfirmed += 1; unconf[key] = '%s/%s: counterexample not reproduced natively: %s' % (be, n, c['what']); continue
        seen.add(key)
        kmatch = isknown(n, c['what'])
        if kmatch: knownhit[kmatch[0]['id']] = kmatch[0]; continue
        rd = os.path.join(V, 'replays'); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s_%s_%s_%d.json' % (prop, n, be, len(violations)))
        fails = [l for l in out.split('\n') if l.startswith('FAIL')][:5]
        json.dump({'property': prop, 'case': n, 'matrix_library': be, 'obligation': c['what'], 'inputs': c['inputs'], 'native_exit': rc, 'native_output': out[-4000:], 'how': 'engine/replay.sh ' + os.path.relpath(rp, V)}, open(rp, 'w'), indent=1)
        violations.append({'case': n, 'backend': be, 'what': c['what'], 'replay': rp, 'native': fails or ['native exit %d' % rc]})
    # an obligation the solver refutes but the real code does not reproduce is neither held nor violated
    incon += [t for k, t in unconf.items() if k not in seen]
    # thorough: witnesses replayed natively (translator validation), queries re-decided by a second solver
    validated = 0; vbad = []; cross = {'checked': 0, 'agree': 0, 'undecided': 0, 'disagree': 0}
    if thorough and not violations:
        def vr(x):
            be, n, rr = x
            rc, out = native_run(nexe[be], n, rr['inputs'], scratch)
            return (rc in (0, 20), 'REACH ' + rr['label'] in out, be, n, rc, out[-300:])
        uniqr = {}
        for x in reaches: uniqr.setdefault((x[0], x[1]), []).append(x)
        lst = [y for v in uniqr.values() for y in v[:25]]
        with ThreadPoolExecutor(NCPU) as ex:
            for ok, reach, be, n, rc, out in ex.map(vr, lst):
                if ok and reach: validated += 1
                elif not ok and not knownhit: vbad.append('%s/%s native exit %d on a path witness: %s' % (be, n, rc, out))
        def xs(fn):
            exp = fn.rsplit('_', 1)[1][:-5]
            o = sh(['z3-new', '-T:20', os.path.join(dumpdir, fn)]).stdout.strip().split('\n')[0]
            if o not in ('sat', 'unsat'): o = sh(['cvc5', '--tlimit=20000', os.path.join(dumpdir, fn)]).stdout.strip().split('\n')[0]
            return exp, o
        fl = sorted(os.listdir(dumpdir))[:400]
        with ThreadPoolExecutor(NCPU) as ex:
            for exp, o in ex.map(xs, fl):
                cross['checked'] += 1
                if o not in ('sat', 'unsat') or exp not in ('sat', 'unsat'): cross['undecided'] += 1
                elif o == exp: cross['agree'] += 1
                else: cross['disagree'] += 1
        if cross['disagree']: incon.append('%d queries decided differently by a second solver' % cross['disagree'])
        incon += vbad
    meta = json.load(open(os.path.join(V, 'bounds.json'))).get(prop, {})
    demang = sh(['c++filt'], input='\n'.join(sorted(fns))).stdout.split('\n') if fns else []
    demang = [re.sub(r'\s*\[abi.*', '', d) for d in demang if d]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {'explanation': 'Symbolic execution of the compiled sources (LLVM IR, both matrix libraries) with real-valued symbolic inputs; each obligation is decided by z3 on every explored path. ' + meta.get('bounds', ''),
            'functions_encoded': len(demang), 'functions': demang[:400], 'bounds': meta.get('bounds', ''), 'outside': meta.get('outside', ''),
            'matrix_libraries': backends, 'cases': sorted(set(n for _, n, _ in [(j[0], j[2], 0) for j in jobs])),
            'paths': agg.get('paths', 0), 'obligations': agg.get('obligations', 0), 'discharged': agg.get('discharged', 0), 'queries': agg.get('queries', 0),
            'queries_unsat': agg.get('unsat', 0), 'queries_sat': agg.get('sat', 0), 'queries_unknown': agg.get('unknown', 0), 'solver_s': round(agg.get('solver_s', 0), 2), 'max_query_s': agg.get('max_query_s', 0),
            'symbolic_random_draws': agg.get('draws', 0), 'denominators_assumed_nonzero': agg.get('assumed_nonzero', 0), 'candidates': len(cands), 'candidates_not_reproduced_natively': unconfirmed,
            'reachability_witnesses': len(reaches), 'witness_samples': [{'case': n, 'matrix_library': be, 'label': x['label'], 'inputs': x['inputs']} for be, n, x in reaches[:3]],
            'witnesses_replayed_natively': validated, 'second_solver': cross, 'undecided': incon[:20], 'build_s': round(tbuild, 1)},
          'wall_s': round(time.time() - T0, 2), 'assumptions': ['doubles are modelled as exact real numbers (rounding, overflow outside the model)', 'random draws are arbitrary values within the generator\'s documented range'] + meta.get('assumptions', []),
          'violations': len(violations)}
    if violations: ev['coverage']['violation_list'] = [{'what': v['what'], 'replay': v['replay']} for v in violations]
    if not only:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in knownhit.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    print('%s tier=%s paths=%d obligations=%d discharged=%d queries=%d solver=%.1fs candidates=%d unconfirmed=%d undecided=%d build=%.0fs wall=%.0fs' % (prop, tier, agg.get('paths', 0), agg.get('obligations', 0), agg.get('discharged', 0), agg.get('queries', 0), agg.get('solver_s', 0), len(cands), unconfirmed, len(incon), tbuild, time.time() - T0))
    for v in violations[:8]:
        print('  violated: %s [%s, %s] %s' % (v['what'], v['case'], v['backend'], '; '.join(v['native'][:2])))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    for i in incon[:10]: print('  UNDECIDED ' + i)
    if violations: return 1
    if incon: return 2
    return 0

if __name__ == '__main__': main()
