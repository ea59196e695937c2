#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property of /repo's current source.

Compiles the contract harnesses of the property together with the real headers/sources of /repo, lets the
deductive verifier (build/dv) discharge every obligation, and replays every counterexample natively."""
import zlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, queue
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import units as U
R = os.environ.get('VP_REPO', '/repo')
prop = sys.argv[1]
tier = 'thorough' if '--thorough' in sys.argv else 'quick'
only = None
if '--only' in sys.argv: only = sys.argv[sys.argv.index('--only') + 1]
tgts = None
if '--targets' in sys.argv: tgts = sys.argv[sys.argv.index('--targets') + 1].split(',')
unitsel = None
if '--unit' in sys.argv: unitsel = sys.argv[sys.argv.index('--unit') + 1].split(',')
verbose = '-v' in sys.argv
TO = 3000 if '--dev' in sys.argv else None  # development: short limits, no second chance, no search
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
t_start = time.time(); DEADLINE = 780 if tier == 'quick' else 6 * 3600
NCPU = os.cpu_count() or 8
spec = U.PROPS[prop]
W = tempfile.mkdtemp(prefix='vpchk.')
OUTD = os.path.join(V, 'build', 'replay'); os.makedirs(OUTD, exist_ok=True)
def left(): return DEADLINE - (time.time() - t_start)
def run(cmd, to, **k):
    try: return subprocess.run(cmd, timeout=max(1, to), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
    except subprocess.TimeoutExpired as e:
        class X: returncode = 124; stdout = (e.stdout.decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')) + 'TIMEOUT'
        return X
lock = threading.Lock(); bclock = {}; bcdone = {}; results = []; errors = []; jobs = queue.PriorityQueue(); cnt = [0]; pending = [0]
def put(pr, fn):
    with lock: cnt[0] += 1; pending[0] += 1; n = cnt[0]
    jobs.put((pr, n, fn))
def compile_unit(u, t):
    src = os.path.join(V, 'harness', u['src'] + '.cc'); bc = f"{W}/{u['src']}.{t}.bc"
    with lock: l = bclock.setdefault(bc, threading.Lock())
    with l: r = bcdone[bc] if bc in bcdone else run([V + '/tools/cc.sh', src, t, bc], left()); bcdone[bc] = r
    if r.returncode != 0:
        with lock: errors.append(f"compile {u['src']} {t}: {r.stdout[-3000:]}")
        return
    n = u.get('shards', {}); n = n.get(t, n.get('*', 2)) if isinstance(n, dict) else n
    for i in range(n): put(1, lambda i=i: verify(u, t, bc, i, n))
def verify(u, t, bc, i, n):
    cex = f"{W}/cex.{spec['units'].index(u)}.{u['src']}.{t}.{i}"; os.makedirs(cex, exist_ok=True); js = f"{cex}/out.json"
    cmd = [V + '/build/dv', bc, '--shard', f'{i}/{n}', '--json', js, '--cex', cex, '--timeout', str(TO or (u.get('timeout', 20000) if tier == 'quick' else u.get('timeout', 20000) * 10)), '--budget', str(10 if TO else u.get('budget', 120) if tier == 'quick' else 3600)]
    o = u.get('only'); 
    if only: cmd += ['--only', only]
    elif o: cmd += ['--only', o]
    r = run(cmd, left())
    got = []
    if os.path.exists(js):
        for line in open(js):
            try: e = json.loads(line)
            except ValueError: continue
            e['unit'] = u['src']; e['target'] = t; got.append(e)
    with lock:
        results.extend(got)
        if r.returncode not in (0, 1): errors.append(f"verify {u['src']} {t} shard {i}: exit {r.returncode}: {r.stdout[-800:]}")
def worker():
    while True:
        try: _, _, fn = jobs.get(timeout=0.05)
        except queue.Empty:
            if pending[0] == 0: return
            continue
        try: fn()
        except Exception as ex:
            with lock: errors.append('internal: ' + repr(ex))
        with lock: pending[0] -= 1
def finish(code):
    shutil.rmtree(W, ignore_errors=True); sys.stdout.flush(); os._exit(code)
if not os.path.exists(V + '/build/dv'):
    r = run([V + '/setup.sh'], 600)
    if r.returncode: print('cannot build the verifier', r.stdout[-2000:]); finish(2)
boundedunits = []
for u in spec['units']:
    if unitsel and u['src'] not in unitsel: continue
    ts = u['targets'] if tier == 'quick' else u.get('thorough_targets', U.THOROUGH.get(tuple(u['targets']), u['targets']))
    for t in ts:
        if tgts and t not in tgts: continue
        if u.get('bounded'): boundedunits.append((u, t)); continue
        put(0, lambda u=u, t=t: compile_unit(u, t))
lemmas = []
def lean(f):
    src = open(f'{V}/{f}').read(); r = run(['lean', f'{V}/{f}'], min(300, left()))
    if r.returncode or 'sorry' in src or 'error' in r.stdout: 
        with lock: errors.append(f'lemmas {f}: {r.stdout[-800:]}')
    else:
        with lock: lemmas.extend(re.findall(r'^theorem (\w+)', src, re.M))
for f in spec.get('lean', []): put(0, lambda f=f: lean(f))
th = [threading.Thread(target=worker) for _ in range(NCPU)]
[x.start() for x in th]; [x.join() for x in th]
# ---- second chance for undecided entries, alone and with a long solver limit
und = [e for e in results if e['status'] in ('unknown',) and not U.bounded(prop, e)]
if und and left() > 60 and len(und) <= 64 and not TO:
    def again(e):
        bc = f"{W}/{e['unit']}.{e['target']}.bc"; cex = f"{W}/cex2.{e['unit']}.{e['target']}.{abs(hash(e['entry']))}"; os.makedirs(cex, exist_ok=True)
        run([V + '/build/dv', bc, '--only', '^' + re.escape(e['entry']).replace('\\<', '<') + '$', '--json', cex + '/o.json', '--cex', cex, '--timeout', '120000', '--budget', '180'], min(220, left() - 30))
        try:
            n = json.loads(open(cex + '/o.json').readline()); n['unit'] = e['unit']; n['target'] = e['target']; e.update(n)
        except Exception: pass
    for e in und: put(0, lambda e=e: again(e))
    th = [threading.Thread(target=worker) for _ in range(NCPU)]; [x.start() for x in th]; [x.join() for x in th]
# ---- failures: replay / search natively
bad = [e for e in results if e['status'] != 'proved' and not U.bounded(prop, e)]
bnd = [e for e in results if e['status'] != 'proved' and U.bounded(prop, e)]
violations = []; known = []; bounded_ok = []
natlock = {}; natbin = {}
def native(e):
    k = (e['unit'], e['target'])
    with lock: l = natlock.setdefault(k, threading.Lock())
    with l:
        if k not in natbin:
            b = f"{W}/nat.{k[0]}.{k[1]}"; r = run([V + '/tools/native.sh', os.path.join(V, 'harness', k[0] + '.cc'), k[1], b], left()); natbin[k] = b if r.returncode == 0 else None
            if r.returncode and verbose: print(r.stdout[-3000:])
        return natbin[k]
def sanit(s): return re.sub(r'[^A-Za-z0-9_.,-]', '_', s)
def replay(e, secs):
    """returns (confirmed, replay file)"""
    path = f"{OUTD}/{prop}.{e['unit']}.{e['target']}.{sanit(e['entry'])}.txt"; b = native(e)
    head = f"property {prop}\nunit {e['unit']} target {e['target']} entry {e['entry']}\nverifier status {e['status']} {e.get('why','')}\nobligations {json.dumps(e.get('fails'))}\n"
    if b:
        for f in e.get('fails', []):
            c = f.get('cex')
            if not c or not os.path.exists(c): continue
            r = run([b, 'run', e['entry'], c], min(60, left()))
            if r.returncode in (1, 3) and 'FAILED' in r.stdout:
                open(path, 'w').write(head + f"failing obligation: {f['obligation']}\n--- counterexample (inputs in order) ---\n" + open(c).read() + "--- replay on the real code (g++) ---\n" + r.stdout); return True, path
        if secs > 0:
            out = f"{W}/s.{abs(hash(path))}"
            r = run([b, 'search', e['entry'], str(secs), out, str(seed * 1000003)], min(secs + 20, left()))
            if r.returncode in (1, 3) and 'FAILED' in r.stdout and os.path.exists(out):
                open(path, 'w').write(head + "--- failing input found by native search ---\n" + open(out).read() + "--- output of the real code (g++) ---\n" + r.stdout[-4000:]); return True, path
    open(path, 'w').write(head + 'no failing input found\n'); return False, path
def handle(e, secs):
    k = U.known(prop, e)
    if k: 
        with lock: known.append((k, e)); return
    ok, p = replay(e, secs)
    with lock: violations.append((e, ok, p))
def handle_bounded(e, secs):
    b = native(e)
    if not b: 
        with lock: errors.append(f"native build {e['unit']} {e['target']}"); return
    out = f"{W}/b.{abs(hash((e['unit'], e['target'], e['entry'])))}"
    r = run([b, 'search', e['entry'], str(secs), out, str(seed * 1000003)], left())
    if r.returncode in (1, 3) and 'FAILED' in r.stdout:
        ok, p = replay(e, secs)
        with lock: violations.append((e, True, p))
    else:
        m = re.search(r'no failure in (\d+) trials', r.stdout)
        with lock: bounded_ok.append((e, int(m.group(1)) if m else 0))
# units marked bounded: native random testing of contracts that are out of the verifier's reach
def bounded_unit(u, t):
    b = native({'unit': u['src'], 'target': t})
    if not b:
        with lock: errors.append(f"native build {u['src']} {t}"); return
    for n in run([b, 'list'], 60).stdout.split('\n'):
        if n and re.search(u['only'], n): put(2, lambda n=n: handle_bounded({'unit': u['src'], 'target': t, 'entry': n, 'status': 'bounded'}, u.get('secs', 0.3) if tier == 'quick' else 60))
if not only:
    for u, t in boundedunits: put(0, lambda u=u, t=t: bounded_unit(u, t))
# most definite failures first; stop searching once enough is confirmed
fam = {}
for e in sorted(bad, key=lambda e: ({'refuted': 0, 'unknown': 1, 'unsupported': 2}.get(e['status'], 3), zlib.crc32((e["entry"] + e["target"]).encode()))):
    k = (e['unit'], e['entry'].split('<')[0]); fam[k] = fam.get(k, 0) + 1; e['rank'] = fam[k]
bad.sort(key=lambda e: ({'refuted': 0, 'unknown': 1, 'unsupported': 2}.get(e['status'], 3), e['rank']))  # varied families first
for e in bad[:24]: put(0, lambda e=e: handle(e, 0.5 if TO else 6 if tier == 'quick' else 60))
for e in bnd: put(1, lambda e=e: handle_bounded(e, 1 if tier == 'quick' else 60))
th = [threading.Thread(target=worker) for _ in range(NCPU)]; [x.start() for x in th]; [x.join() for x in th]
for e in bad[24:]:
    k = U.known(prop, e)
    if k: known.append((k, e))
# ---- report
def tot(k): return sum(e.get(k, 0) for e in results)
fns = sorted({f for e in results for f in e.get('functions', [])}); models = sorted({m for e in results for m in e.get('models', [])})
vac = [f"{e['unit']}/{e['target']}/{e['entry']}" for e in results if e['obligations'] == 0]
stat = {}
for e in results: stat[e['status']] = stat.get(e['status'], 0) + 1
exp = [(u['src'], t) for u in spec['units'] if not u.get('bounded') for t in u['targets']]
have = {(e['unit'], e['target']) for e in results}
missing = [x for x in exp if x not in have] if not (only or tgts or unitsel or tier != 'quick') else []
bnd_obl = sum(e['obligations'] - e['discharged'] for e in bnd)
cov = {'obligations': tot('obligations') - bnd_obl - sum(e['obligations'] - e['discharged'] for _, e in known), 'discharged': tot('discharged'), 'checker_cmd': f'./check.py {prop}' + (' --thorough' if tier != 'quick' else ''),
       'trusted_base': U.TRUSTED + spec.get('trusted', []),
       'contracts': len(results), 'contract_status': stat, 'functions_under_contract': len(fns), 'functions': fns[:400],
       'backends': {'simplifier/rewriting': tot('simplifier'), 'duplicate obligation': tot('duplicate'), 'z3 bit-vectors': tot('z3'), 'z3 floating point': tot('z3fp'), 'z3 with product abstraction': tot('products'), 'complete enumeration': tot('enumeration'), 'SAT (z3 bit-blasting, kissat)': tot('sat'), 'linear forms over bits': tot('linear_bits'), 'case split': tot('case_split')},
       'solver_seconds': round(tot('z3_s'), 2), 'symbolic_execution_seconds': round(tot('exec_s'), 2), 'loops_cut_by_invariant': tot('loops_cut'), 'loop_invariant_instances': tot('loop_invariants'),
       **({'lemmas_proved_in_lean': lemmas} if lemmas else {}), 'intrinsic_models_used': models, 'units': sorted(f'{a}@{b}' for a, b in have),
       'bounded_stand_ins': [{'entry': e['entry'], 'unit': e['unit'], 'target': e['target'], 'random_trials': n, 'note': 'bounded (native random testing), not counted as proved'} for e, n in bounded_ok],
       'known_findings': [k['what'] for k, _ in known]}
ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'proof'), 'coverage': cov, 'assumptions': U.ASSUMPTIONS + spec.get('assumptions', []), 'wall_s': round(time.time() - t_start, 2), 'violations': len(violations)}
os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
print(f"{prop} {tier}: {stat} obligations {tot('discharged')}/{tot('obligations')} in {time.time()-t_start:.1f}s, {len(fns)} functions, units {len(have)}")
if verbose:
    for e in sorted(results, key=lambda e: -e['secs'])[:12]: print(f"  {e['secs']:.1f}s {e['unit']} {e['target']} {e['entry']} {e['status']}")
for e in bad[:40]: print('  not proved:', e['unit'], e['target'], e['entry'], e['status'], e.get('why', '')[:200], [f['obligation'] + ':' + f['verdict'] for f in e.get('fails', [])][:2])
seen = set()
for k, e in known:
    if k['what'] not in seen: seen.add(k['what']); print(f"KNOWN-FINDING: property={prop} {k['what']}")
if violations:
    conf = [v for v in violations if v[1]]
    for e, ok, p in (conf or violations)[:5]: print(f"VIOLATION property={prop} replay={p}" + ('' if ok else ' no-failing-input-found'))
    finish(1)
if errors or missing or vac or not results:
    for x in errors[:5]: print('ERROR', x)
    if missing: print('ERROR: no results for', missing[:10])
    if vac: print('ERROR: entries without obligations', vac[:10])
    finish(2)
finish(0)
