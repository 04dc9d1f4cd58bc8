#!/usr/bin/env python3
"""Decide one property: compile the drivers against /repo's current sources to LLVM IR, generate and
discharge every proof obligation of the property's harnesses with the nvc verifier, write the evidence.
exit 0: held; exit 1: VIOLATION line(s); exit 2: the check itself could not run."""
import sys, os, json, re, hashlib, subprocess, tempfile, time, threading, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NVC_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, ASSUME
LLVM = '/usr/lib/llvm-18/bin/'
INC = ['-I/usr/include/boost', '-I%s/src/library' % REPO] + sum([['-isystem', p] for p in (
    '/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', '/usr/include/petsc',
    '/usr/include/trilinos', '/usr/include/hdf5/openmpi', '/usr/include/scotch', '/usr/include/suitesparse',
    '/usr/include/opencascade', '/usr/include/slepc')], [])
DEF = ['-DBOOST_ATOMIC_DYN_LINK', '-DBOOST_ATOMIC_NO_LIB', '-DBOOST_FILESYSTEM_DYN_LINK', '-DBOOST_FILESYSTEM_NO_LIB',
       '-DBOOST_PROGRAM_OPTIONS_DYN_LINK', '-DBOOST_PROGRAM_OPTIONS_NO_LIB', '-DBOOST_SYSTEM_DYN_LINK', '-DBOOST_SYSTEM_NO_LIB', '-DNDEBUG']
CFLAGS = ['-std=c++17', '-w', '-O0', '-gline-tables-only', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
COMPAT = '/opt/vp/compat/dealii_compat.h'
NPROC = os.cpu_count() or 4

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def tree_hash(dirs, extra=''):
    h = hashlib.sha256(extra.encode())
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.cpp', '.inc', '.sh', '.hpp')):
                    p = os.path.join(root, f); h.update(p[len(d):].encode())
                    with open(p, 'rb') as fh: h.update(fh.read())
    return h.hexdigest()[:20]

def cache():
    d = os.path.join(V, '.cache')
    os.makedirs(d, exist_ok=True)
    return d

def build_engine():
    out = os.path.join(cache(), 'nvc-' + tree_hash([os.path.join(V, 'engine')]))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = sh([os.path.join(V, 'engine', 'build.sh'), tmp])
        if r.returncode: raise RuntimeError('engine build failed:\n' + r.stdout[-3000:])
        os.rename(tmp, out)
    return out

def build_driver(name):
    key = tree_hash([os.path.join(V, 'drivers'), os.path.join(REPO, 'src', 'library')], name + open(os.path.join(V, 'engine', 'vc.h')).read())
    out = os.path.join(cache(), '%s-%s.bc' % (name, key))
    if os.path.exists(out): return out, ''
    tmp = out + '.%d' % os.getpid()
    src = os.path.join(V, 'drivers', name + '.cpp')
    first = open(src).readline()
    flags = first[len('// FLAGS:'):].split() if first.startswith('// FLAGS:') else []
    cmd = ['clang++', '-I' + os.path.join(V, 'engine'), '-I' + os.path.join(V, 'drivers')] + INC + DEF + ['-include', COMPAT] + CFLAGS + flags + ['-emit-llvm', '-c', src, '-o', tmp + '.0']
    r = sh(cmd, timeout=600)
    if r.returncode: return None, r.stdout[-6000:]
    r = sh([LLVM + 'opt', '-passes=mem2reg', tmp + '.0', '-o', tmp])
    os.unlink(tmp + '.0')
    if r.returncode: return None, r.stdout[-3000:]
    os.rename(tmp, out)
    return out, ''

RUNNING = set(); LOCK = threading.Lock(); STOP = threading.Event()

def nvc(exe, bc, h, args, limit, stoppable=False):
    """one verifier run; (exit code or -1 on the time limit or -2 when stopped, records)"""
    if stoppable and STOP.is_set(): return -2, []
    of = tempfile.NamedTemporaryFile(prefix='nvc_', delete=False); of.close()  # one append per record: the worker processes cannot break each other's lines
    p = subprocess.Popen([exe, bc, '--harness', h, '--out', of.name] + args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if stoppable:
        with LOCK: RUNNING.add(p)
    try: p.wait(timeout=limit); rc = p.returncode
    except subprocess.TimeoutExpired:
        p.terminate(); p.wait(); rc = -1
    txt = open(of.name, errors='replace').read(); os.unlink(of.name)
    with LOCK: RUNNING.discard(p)
    if stoppable and STOP.is_set() and rc == 5: rc = -2
    res = []
    for l in txt.splitlines():
        try: res.append(json.loads(l))
        except Exception: rc = rc if rc < 0 else -4  # a record that cannot be read is never dropped silently
    return rc, res

def stop_all():
    STOP.set()
    with LOCK:
        for p in RUNNING: p.terminate()

def known():
    out = []
    p = os.path.join(V, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l: out.append(json.loads(l))
    return out

ENGINE_OBL = ('safe-execution', 'no-uncaught-exception', 'loop-frame', 'block-index', 'dealii-vector-index', 'dealii-matrix-index', 'singular-matrix')

def main():
    pid = sys.argv[1]
    if pid == '--build-engine': print(build_engine()); return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    exe_f = cf.ThreadPoolExecutor(NPROC)
    ef = exe_f.submit(build_engine)
    drivers = sorted(set(d for d, _, _ in P['harnesses']))
    df = {d: exe_f.submit(build_driver, d) for d in drivers}
    exe = ef.result()
    bcs = {}
    for d in drivers:
        bc, err = df[d].result()
        if bc is None:
            print('ERROR: driver %s does not compile against the current tree (interface of a function under contract changed):' % d)
            print(err)
            sys.exit(2)
        bcs[d] = bc
    # work list: (driver, harness, obligation regex)
    work = []
    for d, hre, ore in P['harnesses']:
        names = subprocess.run([exe, bcs[d], '--list'], stdout=subprocess.PIPE, text=True).stdout.split()
        hit = [n for n in names if re.fullmatch(hre, n)]
        if not hit:
            print('ERROR: no harness matches %s in %s' % (hre, d)); sys.exit(2)
        for n in hit: work.append((d, n, ore))
    work.sort(key=lambda w: not re.fullmatch(P.get('slow', '-'), w[1]))  # longest proofs first
    quick = tier == 'quick'
    tmo = 300 if quick else 1500
    nconc = 24 if quick else 200
    # time budget: harnesses not decided by then count as undecided and get the concrete stand-in
    sym_end, conc_end, replay_end = (t0 + 480, t0 + 640, t0 + 700) if quick else (t0 + 6000, t0 + 9000, t0 + 10000)
    rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    kf = [k for k in known() if k.get('property') == pid and k.get('status') == 'known']
    def is_known(h, obl):
        for k in kf:
            if re.fullmatch(k['harness'], h) and re.fullmatch(k['obligation'], obl): return k
        return None
    ore = {(d, h): o for d, h, o in work}
    def counts(d, h, obl): return bool(re.fullmatch(ore[(d, h)], obl)) or obl in ENGINE_OBL
    def symbolic(w):
        left = sym_end - time.time()
        if left < 5: return -3, []
        slow = re.fullmatch(P.get('slow', '-'), w[1])
        t = min(460 if slow and quick else tmo, left)
        return nvc(exe, bcs[w[0]], w[1], ['--timeout', '%.0f' % t, '--seed', str(seed), '--jobs', '4' if slow else '2', '--z3ms', '4000' if quick else '20000'], t + 60, True)
    def conc(dh, s):
        if time.time() > conc_end or (s is not None and STOP.is_set()): return dh, s, -3, []
        rc, recs = nvc(exe, bcs[dh[0]], dh[1], ['--concrete', '--seed', str(s), '--jobs', '1', '--timeout', '120'], 140, True)
        return dh, s, rc, recs
    fails = {}         # (d,h,obl) -> [records]; every failed obligation
    confirmed = {}     # (d,h,obl) -> (kind, value, record of the concrete execution)
    def replay(k, rs):
        """run the counterexample of a failed obligation on the real code"""
        d, h, obl = k
        for r in rs:
            if not r.get('model') or time.time() > replay_end: continue
            mf = os.path.join(rdir, '%s.%s.%s.model' % (pid, h, re.sub(r'\W', '_', obl)))
            m = r['model'] if isinstance(r['model'], dict) else json.loads(r['model'])
            with open(mf, 'w') as fh:
                for n, v in m.items(): fh.write('%.17g %s\n' % (v, n))
            rc, recs = nvc(exe, bcs[d], h, ['--model', mf, '--jobs', '1', '--timeout', '120'], 140)
            c = [x for x in recs if x.get('status') == 'failed' and x['obl'] == obl]
            if c: confirmed[k] = ('model', m, c[0], mf); return True
        return False
    results = {}
    def late():
        """the proof takes unusually long: look for a failing input on the real code meanwhile"""
        def one(w, s):
            if STOP.is_set() or w in results: return
            dh, s_, rc, recs = conc((w[0], w[1]), seed * 1000 + s)
            for r in recs:
                if r.get('status') == 'failed' and counts(w[0], w[1], r['obl']) and not is_known(w[1], r['obl']):
                    k = (w[0], w[1], r['obl']); fails.setdefault(k, []); confirmed[k] = ('seed', s_, r, ''); stop_all(); return
        with cf.ThreadPoolExecutor(4) as ex:
            for s in range(3):
                for w in work: ex.submit(one, w, s)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fs = {ex.submit(symbolic, w): w for w in work}
        timer = threading.Timer(150 if quick else 900, late); timer.daemon = True; timer.start()
        for f in cf.as_completed(fs):
            w = fs[f]; results[w] = f.result(); d, h, o = w
            for r in results[w][1]:
                if r.get('status') == 'failed' and counts(d, h, r['obl']) and not is_known(h, r['obl']): fails.setdefault((d, h, r['obl']), []).append(r)
            # a counterexample that the real code confirms decides the check: stop the rest
            if not STOP.is_set():
                for k in [k for k in fails if k[1] == h]:
                    if replay(k, fails[k][:3]): stop_all(); break
    timer.cancel()
    obls = {}; touched, stubs = set(), set(); paths = z3calls = 0; z3s = 0.0
    incomplete = {}; unreached = []; stopped = 0
    for w in work:
        d, h, o = w; rc, recs = results[w]
        if rc == -2: stopped += 1; continue
        if rc == -3: incomplete.setdefault(w, []).append('time budget'); continue
        summ = [r for r in recs if r.get('summary')]
        if not summ or rc < 0: incomplete.setdefault(w, []).append('time limit or engine failure')
        for s in summ: paths += s['paths']; z3calls += s['z3calls']; z3s += s['z3_s']
        for r in recs:
            if 'touched' in r: touched |= set(r['touched']); stubs |= set(r['stubs']); continue
            st = r.get('status')
            if st == 'end-unsupported': incomplete.setdefault(w, []).append(r.get('detail', ''))
            elif st in ('proved', 'failed', 'unknown', 'bounded') and (counts(d, h, r['obl']) or r['obl'].startswith('contract-')): obls.setdefault((d, h, r['obl']), []).append(r)
        if not any(k[1] == h for k in obls) and w not in incomplete: unreached.append(h)
    undecided = []; proved = 0; total = 0; byhow = {}; knownhit = set()
    for k, rs in obls.items():
        for r in rs:
            total += 1
            if r['status'] == 'proved': proved += 1; byhow[r.get('how', '')] = byhow.get(r.get('how', ''), 0) + 1
            elif r['status'] == 'failed' and not r['obl'].startswith('contract-'):
                kk = is_known(k[1], k[2])
                if kk: knownhit.add(kk['what'])
            elif is_known(k[1], k[2]): knownhit.add(is_known(k[1], k[2])['what'])
            else: undecided.append((k, r))
    # concrete runs on the real code: inputs for failed obligations without a confirmed counterexample,
    # bounded stand-in where the proof is incomplete
    conc_runs = conc_ok = 0
    if not STOP.is_set():
        need = {}
        for k, r in undecided: need[(k[0], k[1])] = 1
        for d, h, o in incomplete: need[(d, h)] = 1
        for d, h, obl in fails: need[(d, h)] = 1
        with cf.ThreadPoolExecutor(NPROC) as ex:
            fs = [ex.submit(conc, dh, seed * 1000 + s) for s in range(nconc) for dh in sorted(need)]
            for f in cf.as_completed(fs):
                dh, s, rc, recs = f.result()
                if rc in (-2, -3): continue
                conc_runs += 1
                if rc < 0 or any(r.get('status') == 'end-unsupported' for r in recs): pass
                else: conc_ok += 1
                for r in recs:
                    if r.get('status') == 'failed' and counts(dh[0], dh[1], r['obl']):
                        kk = is_known(dh[1], r['obl'])
                        if kk: knownhit.add(kk['what']); continue
                        k = (dh[0], dh[1], r['obl']); fails.setdefault(k, [])
                        if k not in confirmed: confirmed[k] = ('seed', s, r, ''); stop_all()
    lines = []; nviol = 0
    order = sorted(fails, key=lambda k: (k not in confirmed, k))
    for k in order:
        d, h, obl = k; rs = fails[k]; c = confirmed.get(k)
        if c is None and confirmed: lines.append('also failed: %s / %s: %s' % (h, obl, (rs[0].get('detail', '') if rs else '')[:200])); continue
        rp = os.path.join(rdir, '%s.%s.%s.json' % (pid, h, re.sub(r'\W', '_', obl)))
        detail = rs[0].get('detail', '') if rs else ''
        rec = {'property': pid, 'driver': d, 'harness': h, 'obligation': obl, 'verifier_output': rs[:4], 'detail': detail}
        if c:
            rec['failing_input'] = {'kind': c[0], 'value': c[1]}
            rec['concrete_execution'] = c[2]
            rec['reproduce'] = '%s %s --harness %s %s' % (exe, bcs[d], h, '--model ' + c[3] if c[0] == 'model' else '--concrete --seed %d' % c[1])
        with open(rp, 'w') as fh: json.dump(rec, fh, indent=1)
        lines.append('failed obligation %s / %s: %s' % (h, obl, (c[2].get('detail', '') if c else detail)[:300]))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if c else ' no-failing-input-found'))
        nviol += 1
    for w in sorted(knownhit): print('KNOWN-FINDING: property=%s %s' % (pid, w))
    for l in lines: print(l)
    # vacuity: every harness must produce obligations, unless its proof is incomplete and the stand-in ran
    err = None
    if unreached: err = 'vacuous harness (no obligation generated): ' + ', '.join(unreached)
    if incomplete and conc_ok == 0 and not nviol: err = 'proof incomplete and the concrete stand-in cannot execute either: ' + '; '.join(str(v)[:300] for v in list(incomplete.values())[:3])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': total + len(incomplete), 'discharged': proved,
                       'checker_cmd': 'tools/check.py %s %s  (nvc: weakest-precondition style symbolic execution of the LLVM IR clang 18 emits for /repo; back ends: exact polynomial normaliser, z3 4.8.12)' % (pid, tier),
                       'back_ends': byhow, 'harnesses': len(work), 'paths': paths, 'solver_calls': z3calls, 'solver_s': round(z3s, 2),
                       'functions_under_contract': sorted(t for t in touched if re.match(r'(void |bool |double |int |unsigned long |std::[a-z_:]+<.*> )?natrium::|.* natrium::[A-Za-z_0-9<>:, ]+::[~A-Za-z_0-9]+\(|.* natrium::[a-zA-Z0-9]+(<.*>)?\(', t) and '(In<' not in t),
                       'assumed_contracts_used': sorted(stubs),
                       'bounded_not_proved': ['%s/%s: %s' % (k[1], k[2], r.get('how', '')) for k, r in undecided] + ['%s: %s' % (w[1], '; '.join(map(str, v))[:300]) for w, v in incomplete.items()],
                       'concrete_runs_of_bounded_parts': conc_runs,
                       'trusted_base': ['clang 18 front end (C++ to LLVM IR, mem2reg)', 'nvc engine (engine/)', 'GMP', 'z3 4.8.12', 'harness contracts in drivers/']},
          'assumptions': ASSUME + P.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    if stopped: ev['coverage']['harnesses_stopped_after_confirmed_violation'] = stopped
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
    print('%s %s: %d obligations, %d proved, %d undecided, %d incomplete harnesses, %d known, %d violations, %d harnesses, %.1fs' % (pid, tier, total, proved, len(undecided), len(incomplete), len(knownhit), nviol, len(work), time.time() - t0))
    for k, v in list(incomplete.items())[:6]: print('  incomplete %s: %s' % (k[1], str(v[0])[:300]))
    for k, r in undecided[:6]: print('  undecided %s/%s: %s %s' % (k[1], k[2], r.get('how', '')[:150], r.get('detail', '')[:150]))
    if err: print('ERROR: ' + err)
    sys.exit(1 if nviol else 2 if err else 0)
main()
