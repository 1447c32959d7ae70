#!/usr/bin/env python3-vt
"""Decides one property on /repo's current source.

  python3-vt check.py C05 [--tier quick|thorough] [--replay FILE]

1. extracts LLVM IR from the sources (mechanically) and checks every contract of the property
   against the bodies found there;
2. builds and runs the bounded stand-in of the property on the real code (labelled bounded).
A failed obligation, or a failing bounded case, is a violation.  An obligation that could not be
decided is recorded, never reported."""
import sys, os, json, time, argparse, tempfile, shutil, subprocess, threading, multiprocessing as mp, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
MODULES = ["heap", "view", "var", "assign", "mem", "seq", "cmp", "func", "utf8", "stream", "clapack", "config", "string", "json", "make", "gen"]
TRUSTED = [
    'clang 18 front end and opt -passes=mem2reg: translate the C++ sources to the LLVM IR that is verified',
    'irv: the path-wise executor, loop summaries and contract checker in /verif/irv (no independent proof of soundness)',
    'z3 4.x (python binding) and cvc5 1.1.2 as back ends',
    'memory is kept in one map per value kind (bytes of different kinds do not overlap); a var slot is read with the kind it was written with or is unknown',
    'allocation does not fail; nothing is assumed about the address of new memory except that it is fresh',
    'virtual calls on Heap* dispatch to Heap or View (closed world)',
    'class invariants (well formed Heap, View, var) are assumed at entry of every function under contract and proved at its exit where the contract states the post state',
    'releasing an object: the contents of a released object are unknown afterwards; the releases nested in it are those of ~Heap',
]
G = {}

def load():
    import importlib
    import contracts.lib as L
    for m in MODULES:
        if os.path.exists('%s/contracts/%s.py' % (HERE, m)): importlib.import_module('contracts.' + m)
    return L

def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, r))

def run1(i):
    from irv.contract import verify
    L, P, tmo = G['L'], G['P'], G['tmo']
    try: return i, verify(P, L.CONTRACTS, L.CHECKS[i], timeout=tmo)
    except Exception: return i, {'undecided': 'internal: ' + traceback.format_exc()[-600:], 'obligations': [], 'paths': 0, 'covered': {}, 'inlined': [], 'used': [], 'queries': 0, 'solver_s': 0, 'wall_s': 0}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--noharness', action='store_true'); ap.add_argument('--noproof', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try: return decide(a, prop, tier, seed, t0, d)
    finally: shutil.rmtree(d, ignore_errors=True)

def decide(a, prop, tier, seed, t0, d):
    from irv import harness
    L = load()
    hasH = os.path.exists('%s/harness/%s.cpp' % (HERE, prop.lower())) and not a.noharness
    if a.replay:
        rp = json.load(open(a.replay))
        b = harness.build(prop, mk(d, 'h'))
        if rp.get('case'): return subprocess.run([b, '--seed', str(rp['seed']), '--case', rp['case'], str(rp['k'])], cwd=mk(d, 'run')).returncode
        print(json.dumps(rp, indent=1)); return 0
    idx = [i for i, c in enumerate(L.CHECKS) if prop in c.props] if not a.noproof else []
    own = set(idx)
    # contracts that the functions of the property are checked against, followed through their own callees
    dm = demangle([re.sub(r'^V:', '', c.name).split('@')[0] for c in L.CHECKS])
    for c in L.CHECKS:
        n = re.sub(r'^V:', '', c.name).split('@')[0]
        if not c.title: c.title = dm[n] + ((' @' + c.name.split('@', 1)[1]) if '@' in c.name else '')
    hb = {}
    def buildh():
        try: hb['bin'] = harness.build(prop, mk(d, 'h'))
        except harness.HarnessError as e: hb['err'] = str(e)
        except Exception as e: hb['err'] = repr(e)
    th = threading.Thread(target=buildh)
    res, log, perr = {}, {}, None
    try:
        if idx: res = prove(L, mk(d, 'ir'), idx, time.time() + (420 if tier == 'quick' else 1500), 10000 if tier == 'quick' else 40000, log, th if hasH else None)
        elif hasH: th.start()
    except Exception as e:
        perr = str(e)[-1500:]
    if hasH and not th.is_alive() and 'bin' not in hb and 'err' not in hb: th.start()
    if hasH: th.join()
    # ---- obligations
    failed, unk, undec, ndis, nob = [], [], [], 0, 0
    be = {}; funcs = []; solver = 0.0; inl = set(); used = set(); cov = {}
    for i in sorted(res):
        r = res[i]; con = L.CHECKS[i]
        obs = r['obligations']
        f = {'function': con.title, 'properties': con.props, 'obligations': len(obs), 'discharged': sum(o['status'] == 'discharged' for o in obs), 'paths': r['paths'], 'loops_summarised': r.get('loops', 0), 'cases_reached': r['covered'], 'solver_s': round(r['solver_s'], 2)}
        if r['undecided']: f['undecided'] = r['undecided']; undec.append('%s: %s' % (con.title, r['undecided'][:300]))
        funcs.append(f)
        nob += len(obs); ndis += f['discharged']; solver += r['solver_s']; inl |= set(r['inlined']); used |= set(r['used'])
        for o in obs:
            be[o.get('backend', '?')] = be.get(o.get('backend', '?'), 0) + 1
            if o['status'] == 'failed' and not r['undecided']: failed.append((i, o))
            elif o['status'] != 'discharged': unk.append(o['name'])
    # ---- bounded stand-in
    hres = {'ran': []}; hfail = None
    if hasH and 'bin' in hb:
        T = (60 if failed else 20) if tier == 'quick' else 400
        run = mk(d, 'run')
        try:
            p = subprocess.run([hb['bin'], '--seed', str(seed), '--time', str(T), '--workers', '8'], cwd=run, capture_output=True, timeout=T + 240, env=dict(os.environ, HOME=run))
            out = p.stdout.decode('utf-8', 'replace')
            for m in re.finditer(r'^RAN (\S+) (\d+) (\d+)$', out, re.M): hres['ran'].append((m[1], int(m[2]), int(m[3])))
            m = re.search(r'^FAIL (\S*) (-?\d+)\n', out, re.M)
            if m: hfail = {'case': m[1], 'k': int(m[2]), 'text': out[m.start():m.start() + 6000], 'stderr': p.stderr.decode('utf-8', 'replace')[-3000:]}
            elif p.returncode: hfail = {'case': '', 'k': -1, 'text': 'the bounded run ended with status %d' % p.returncode, 'stderr': p.stderr.decode('utf-8', 'replace')[-3000:]}
        except subprocess.TimeoutExpired: hb['err'] = 'the bounded run did not finish'
    # ---- known findings
    known = [k for k in json.load(open(HERE + '/known-findings.json')).get('findings', []) if k['property'] == prop] if os.path.exists(HERE + '/known-findings.json') else []
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    failed = [(i, o) for i, o in failed if not any(k.get('obligation') == o['name'] for k in known)]
    if hfail and any(k.get('case') == hfail['case'] and k.get('k') == hfail['k'] for k in known): hfail = None
    # ---- verdict
    viol = 0
    mk(HERE, 'evidence')
    if failed or hfail:
        viol = len(failed) + (1 if hfail else 0)
        rdir = mk(HERE, 'evidence/replay')
        rp = '%s/%s.json' % (rdir, prop)
        rec = {'property': prop, 'seed': seed, 'how': 'python3-vt check.py %s --replay %s' % (prop, rp),
               'failed_obligations': [{'function': L.CHECKS[i].title, 'obligation': o['name'], 'backend': o.get('backend'), 'verifier': 'negation satisfiable', 'model': o.get('model', '')} for i, o in failed[:40]]}
        if hfail: rec.update({'case': hfail['case'], 'k': hfail['k'], 'output': hfail['text'], 'stderr': hfail['stderr']})
        json.dump(rec, open(rp, 'w'), indent=1)
        for i, o in failed[:12]: print('FAILED OBLIGATION %s (%s) %s' % (o['name'], o.get('backend'), o.get('model', '')[:200]))
        if hfail: print(hfail['text'][:1500])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if hfail else ' no-failing-input-found'))
    for x in undec: print('UNDECIDED', x[:300])
    for x in unk[:20]: print('UNKNOWN', x)
    if perr: print('PROOF NOT RUN:', perr)
    if hb.get('err'): print('BOUNDED RUN NOT POSSIBLE:', hb['err'][-800:])
    byname = {}
    for n in used:
        con = L.CONTRACTS.get(n)
        byname.setdefault('assumed' if '@' in n else 'trusted' if con is None or con.trusted else 'checked' if any(c.name == n or 'V:' + c.name == n for c in L.CHECKS) else 'assumed', []).append(n)
    dmu = demangle([re.sub(r'^V:', '', n) for n in used]) if used else {}
    nm = lambda l: sorted({dmu.get(re.sub(r'^V:', '', n), n) for n in l})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': nob, 'discharged': ndis, 'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier), 'trusted_base': TRUSTED + ['trusted contracts (external or message-building functions): ' + ', '.join(nm(byname.get('trusted', [])) or ['none'])],
                       'functions_under_contract': funcs, 'functions': len(funcs), 'backends': be, 'solver_s': round(solver, 2), 'extract_s': log.get('extract_s'),
                       'undecided': undec, 'unknown': unk, 'failed': [o['name'] for _, o in failed],
                       'callees_inlined': sorted(inl), 'callees_by_contract_discharged': nm(byname.get('checked', [])), 'callees_by_contract_assumed': nm(byname.get('assumed', [])),
                       'bounded': {'label': 'bounded: random and exhaustive cases on the real code, never counted as proved', 'cases': {n: {'evaluated': k, 'exhaustive_bound': m} for n, k, m in hres['ran']}, 'seconds': (20 if tier == 'quick' else 400), 'error': hb.get('err')}},
          'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    print('%s: %d of %d obligations discharged over %d functions, %d bounded cases, %.0f s' % (prop, ndis, nob, len(funcs), sum(k for _, k, _ in hres['ran']), time.time() - t0))
    if viol: return 1
    if not ndis and not hres['ran']: return 2
    return 0

ASSUME = ['machine integers of index arithmetic (i32/i64) are mathematical; nsw arithmetic does not overflow', 'floating point operations are uninterpreted functions of their operands',
          'the BLAS and libstdc++ functions called are trusted to do what their documentation says', 'single thread', 'allocation never fails']

def prove(L, d, idx, deadline, tmo, log, th):
    """extraction and proof in this process tree; the harness builds in a thread started once the workers exist"""
    from irv import build
    from irv.ir import Program
    t0 = time.time()
    build.extract(d)
    log['extract_s'] = round(time.time() - t0, 2)
    G['P'] = Program([d + '/%s.ll' % x for x in build.FILES + ['inst']]); G['L'] = L; G['tmo'] = tmo
    res = {}
    pool = mp.get_context('fork').Pool(8, maxtasksperchild=None)
    if th: th.start()
    try:
        rs = [(i, pool.apply_async(run1, (i,))) for i in idx]
        for i, r in rs:
            try: res[i] = r.get(timeout=max(0.1, deadline - time.time()))[1]
            except mp.TimeoutError: res[i] = {'undecided': 'time limit of the run', 'obligations': [], 'paths': 0, 'covered': {}, 'inlined': [], 'used': [], 'queries': 0, 'solver_s': 0, 'wall_s': 0}
    finally:
        pool.terminate(); pool.join()
    return res

def mk(*p):
    p = os.path.join(*p); os.makedirs(p, exist_ok=True); return p

if __name__ == '__main__':
    try: r = main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); r = 2
    sys.exit(r)
