#!/usr/bin/env python3-vt
"""check.py <property> : decides one property on the current working tree of /repo.

1. astdump (clang) extracts the typed AST of the real functions from /repo's current sources;
2. fvc explores every function under contract and discharges its obligations (z3, cvc5);
3. everything discharged: exit 0.  Otherwise the replay harness runs concrete histories against the real code
   (compiled from the same tree): a failing one is the violation; if there is none, the failed obligation is
   reported with no-failing-input-found, unless the failure is a limit of the tool (stated in the evidence)."""
import sys, os, time, json, subprocess, tempfile, shutil, multiprocessing as mp, traceback, signal, re, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/fvc')
REPO = os.environ.get('FVC_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
PROP = sys.argv[1]; T0 = time.time()
import groups
G = groups.of(PROP)
BUDGET = 700 if TIER == 'quick' else 3000

def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
def incs(scratch): return ['-I' + REPO + '/src/include', '-I' + scratch + '/inc', '-I' + HERE + '/replay', '-I' + HERE + '/fvc/tu']

def config(scratch):
    "config.h as the build generates it"
    os.makedirs(scratch + '/inc/falcon', exist_ok=True)
    src = REPO + '/src/include/falcon/config.h.in'
    txt = open(src).read() if os.path.exists(src) else ''
    have = lambda h: subprocess.run(['g++', '-x', 'c++', '-E', '-'], input='#include <%s>\n' % h, capture_output=True, text=True).returncode == 0
    out = []
    for l in txt.split('\n'):
        m = re.match(r'#cmakedefine(01)?\s+(\w+)(.*)', l)
        if m: out.append(groups.config_line(m.group(2), m.group(1), m.group(3), have))
        else: out.append(re.sub(r'@(\w+)@|\$\{(\w+)\}', lambda m: groups.config_value(m.group(1) or m.group(2)), l))
    open(scratch + '/inc/falcon/config.h', 'w').write('\n'.join(out))

def astdump_bin():
    p = HERE + '/build/astdump'
    if not os.path.exists(p): subprocess.check_call(['bash', HERE + '/setup.sh'])
    return p

def extract(scratch, tu):
    out = scratch + '/' + tu + '.json'
    rd = sh(['clang++-18', '-print-resource-dir']).stdout.strip()
    p = sh([astdump_bin(), out, REPO + '/', '--', '-std=gnu++17', '-resource-dir', rd, '-DFALCON_ENGINE(f)=<%s/src/engine/f>' % REPO, '-DFALCON_FUT(f)=<%s/src/fut/f>' % REPO] + incs(scratch) + [HERE + '/fvc/tu/' + tu], timeout=200)
    if p.returncode or not os.path.exists(out): return None, p.stdout[-2000:] + p.stderr[-3000:]
    return out, ''

# ------------------------------------------------------------------ proving (one process per function)
def prove_task(args):
    ti, fid = args[:2]
    import core, interp, contract
    tu, spec, cs = STATE[ti[0]]; c = cs[ti[1]]; fn = tu.fns[fid]
    core.STATS.__init__()
    I = interp.Interp(tu, spec); I.unroll = abs(args[2]) if len(args) > 2 else 0; I.inline = len(args) > 2 and args[2] < 0; t = time.time(); r = dict(contract=c.name, function=interp.strip_targs(fn['qn']), unsupported=None, stats={}, vacuous=False)
    if I.unroll is not None and len(args) > 2: I.prove_ms = 3 * I.prove_ms
    try:
        st = contract.verify(I, c, fn, G.get('fnbudget', 240) * (1 if TIER == 'quick' else 4))
        r['stats'] = st; r['vacuous'] = bool(st.get('vacuous'))
    except interp.Unsupported as e: r['unsupported'] = str(e)
    except RecursionError: r['unsupported'] = 'recursion limit'
    except Exception as e:
        r['unsupported'] = 'internal: %s: %s' % (type(e).__name__, e); r['tb'] = traceback.format_exc()[-1500:]
    r['obs'] = []
    for o in I.obs.values():
        j = o.to_json(); j['n'] = getattr(o, 'n', 1); j['backends'] = sorted(getattr(o, 'backends', [])); j['goal'] = getattr(o, 'goal', '')
        r['obs'].append(j)
    r['time'] = time.time() - t; r['solver'] = core.STATS.time; r['feas'] = core.STATS.feas
    r['fns'] = sorted(I.fns_used); r['models'] = sorted(I.models_used); r['assumptions'] = sorted(I.assumptions)
    r['used'] = sorted({n for n, _ in I.contracts_used}); r['pruned'] = getattr(I, 'pruned', 0); r['loops'] = bool(getattr(I, 'nloops', 0) or getattr(I, 'unrolled', False))
    return r

def worker(q, args):
    os.setpgid(0, 0)
    try: q.send(prove_task(args))
    except BaseException as e: q.send(dict(crash=str(e)))
    q.close(); os._exit(0)

def run_tasks(tasks, deadline):
    res = {}; running = []; todo = list(tasks)
    while todo or running:
        while todo and len(running) < 8:
            a = todo.pop(0); r, w = mp.Pipe(False); p = mp.Process(target=worker, args=(w, a)); p.start(); w.close(); running.append((p, r, a, time.time()))
        ready = mp.connection.wait([r for _, r, _, _ in running], timeout=1)
        for x in list(running):
            p, r, a, t = x
            if r in ready:
                try: res[a] = r.recv()
                except EOFError: res[a] = dict(crash='worker died')
                p.join(); running.remove(x)
            elif time.time() > deadline:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: p.kill()
                p.join(); res[a] = dict(crash='time limit'); running.remove(x)
        if time.time() > deadline:
            for a in todo: res[a] = dict(crash='time limit')
            todo = []
    return res

# ------------------------------------------------------------------ replay
def harness(scratch, seconds, only=None):
    "-> list of dict(cmd, rc, out, status) ; status ok | fail | limit"
    out = []
    jobs = G['replay'](PROP, TIER)
    def build(i, j):
        exe = scratch + '/replay%d' % i
        cmd = ['g++', '-std=gnu++17', '-g', '-O1', '-DFALCON_ENGINE(f)=<%s/src/engine/f>' % REPO, '-DFALCON_FUT(f)=<%s/src/fut/f>' % REPO] + j.get('flags', ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']) + incs(scratch) + ['-I' + scratch] + [HERE + '/replay/' + j['src']] + [s.replace('/repo', REPO) for s in j.get('extra', [])] + ['-o', exe, '-lpthread']
        return exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd
    bs = [(j, build(i, j)) for i, j in enumerate(jobs)]
    runs = []
    for j, (exe, b, cmd) in bs:
        txt = b.communicate()[0]
        if b.returncode: out.append(dict(cmd=' '.join(cmd), rc=b.returncode, out=txt[-3000:], status='limit', runs=0)); continue
        d = tempfile.mkdtemp(dir=scratch); env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0' % (1 if j.get('leaks') else 0), TSAN_OPTIONS='halt_on_error=1:exitcode=66', UBSAN_OPTIONS='print_stacktrace=1')
        n = max(1, j.get('procs', 2))
        for k in range(n):
            rcmd = [exe, PROP, str(SEED + 100 * k), str(seconds)]
            # a hang shows in any of the processes; the limit leaves a wide margin
            runs.append((rcmd, subprocess.Popen(rcmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, env=env, errors='replace', start_new_session=True), j))
    end = time.time() + seconds * 3 + 90
    for rcmd, p, j in runs:
        try: txt = p.communicate(timeout=max(1, end - time.time()))[0]; rc = p.returncode
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            txt = p.communicate()[0] or ''; rc = 'hang'
        m = re.search(r'runs=(\d+)', txt or '')
        st = 'ok' if rc == 0 else 'fail'
        if st == 'fail' and 'MemorySanitizer: CHECK' in txt or 'FATAL: ThreadSanitizer: unexpected memory mapping' in (txt or ''): st = 'limit'
        out.append(dict(cmd=' '.join(rcmd), rc=rc, out=(txt or '')[-6000:], status=st, runs=int(m.group(1)) if m else 0))
    return out

def findings():
    f = []
    for l in open(HERE + '/known_findings.txt'):
        l = l.strip()
        if l.startswith('finding:') and 'property=%s ' % PROP in l: f.append(l)
    return f

def main():
    global STATE
    scratch = tempfile.mkdtemp(prefix='fvc-')
    try: return run(scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def run(scratch):
    global STATE
    import core
    os.makedirs(HERE + '/evidence', exist_ok=True)
    limits = []; failed = []; tasks = []; results = []; STATE = []
    config(scratch)
    nocontract = []
    for tuname, planner in G['tus'](PROP):
        js, err = extract(scratch, tuname)
        if js is None: limits.append('extraction of %s: %s' % (tuname, err.strip()[-1500:])); continue
        try:
            tu = core.TU(js); spec, cs = planner(tu, PROP)
            if TIER == 'thorough': spec.prove_ms = 3 * getattr(spec, 'prove_ms', 4000)
        except Exception as e:
            limits.append('contracts of %s do not apply: %s: %s' % (tuname, type(e).__name__, e)); limits.append(traceback.format_exc()[-800:]); continue
        STATE.append((tu, spec, cs)); k = len(STATE) - 1
        for i, c in enumerate(cs):
            ts = c.targets(tu)
            if not ts: nocontract.append(c.name)
            for f in ts: tasks.append(((k, i), f['id']))
    for n in nocontract: limits.append('no function matches contract "%s"' % n)
    tasks.sort(key=lambda a: -getattr(STATE[a[0][0]][2][a[0][1]], 'weight', 1))
    res = run_tasks(tasks, T0 + BUDGET * 0.6)
    ob = dis = 0; back = {}; solver = 0.0; fns = set(); models = set(); assm = set(); covered = []; pend = []; used = set(); vac = []
    for a in tasks:
        r = res[a]
        if 'crash' in r: limits.append('%s: %s' % (STATE[a[0][0]][2][a[0][1]].name, r['crash'])); continue
        covered.append(dict(contract=r['contract'], function=r['function'], paths=r['stats'].get('paths'), obligations=len(r['obs']), discharged=sum(o['status'] == 'proved' for o in r['obs']), seconds=round(r['time'], 2)))
        if r['unsupported']: limits.append('%s (%s): %s' % (r['contract'], r['function'], r['unsupported']))
        if r['vacuous'] : limits.append('%s: no path of the body is feasible' % r['contract'])
        solver += r['solver']; fns |= set(r['fns']); models |= set(r['models']); assm |= set(r['assumptions']); used |= set(r['used'])
        for o in r['obs']:
            ob += 1
            if o['status'] == 'proved':
                dis += 1
                for b in o['backends']: back[b] = back.get(b, 0) + 1
            else: failed.append(dict(o, contract=r['contract'], task=a))
    bounded = G.get('bounded', {}).get(PROP)
    hres = []; status = 0; line = None
    need = bool(failed or limits)
    if need or bounded or TIER == 'thorough':
        secs = (20 if need else G.get('bounded_secs', 6)) if TIER == 'quick' else 120
        hres = harness(scratch, secs) if not os.environ.get('FVC_NOREPLAY') else []
        bad = [h for h in hres if h['status'] == 'fail']
        if bad: status = 1
        for h in hres:
            if h['status'] == 'limit': limits.append('replay harness could not run: ' + h['out'][-800:])
    else: bad = []
    definite = [o for o in failed if o['exact'] or o['status'] == 'failed' and not G.get('soft')]
    confirmed = {}
    if definite and not bad:
        # no failing history: is it the code, or an invariant that was not found? Every loop is followed turn by turn instead
        redo = sorted({o['task'] for o in definite})
        cres = run_tasks([a + (k,) for k in (3, 2, -3, -2) for a in redo if k == 3 or (res[a]['used'] if k < 0 else res[a].get('loops'))], max(time.time() + 60, T0 + BUDGET * 0.6 + 280))
        for a in redo:
            # with the contracts of the functions called, then with their bodies in place of them (negative); fewer turns only where more are out of reach
            for ks in ((3, 2), (-3, -2)):
                for k in ks:
                    r = cres.get(a + (k,))
                    if r is None or 'crash' in r: continue
                    bads = [o for o in r['obs'] if o['status'] != 'proved' and (o['exact'] or o['status'] == 'failed')]
                    if bads or not r['unsupported'] and not r['vacuous']:
                        if a not in confirmed or not bads: confirmed[a] = (k, bads, r['loops'])
                        break
                if a in confirmed and not confirmed[a][1]: break
        keep = []
        for o in definite:
            k, bads, loops = confirmed.get(o['task'], (0, [o], True))
            if bads: keep.append(o)
            else: limits.append('bounded: "%s" of %s is not discharged with the invariants found; %s' % (o['name'], o['contract'], 'it holds on every run in which no loop makes more than %d turns that depend on the input' % abs(k) if loops else 'it is discharged with the bodies of the functions called in place of their contracts' if k < 0 else 'it is discharged with a longer time limit'))
        definite = keep
    rp = HERE + '/evidence/%s.replay.txt' % PROP
    if os.path.exists(rp): os.unlink(rp)
    for o in failed: o.pop('task', None)
    if bad or definite:
        with open(rp, 'w') as f:
            f.write('property %s\n' % PROP)
            for h in bad: f.write('\nreplay command (rebuild with: check.py %s): %s\nexit: %s\n%s\n' % (PROP, h['cmd'], h['rc'], h['out']))
            for o in failed: f.write('\nfailed obligation: %s\n  contract: %s, in %s at %s\n  status: %s\n  goal: %s\n  %s\n' % (o['name'], o['contract'], o['function'], o['at'], o['status'], o.get('goal', ''), o['detail']))
        status = 1
        line = 'VIOLATION property=%s replay=%s' % (PROP, rp)
        if not bad: line += ' no-failing-input-found'
    for k in findings(): print('KNOWN-FINDING: ' + k[len('finding:'):].strip())
    cov = dict(obligations=ob, discharged=dis, checker_cmd='python3-vt check.py %s' % PROP, trusted_base=groups.TRUST + ['contracts of library operations: ' + ', '.join(sorted(models))],
               functions_under_contract=covered, functions_executed=sorted(fns), contracts_used_at_calls=sorted(used), backends=back, solver_seconds=round(solver, 2),
               undischarged=[dict(name=o['name'], contract=o['contract'], at=o['at'], status=o['status']) for o in failed], limits=limits)
    if bounded or hres: cov['bounded'] = dict(what=bounded or 'replay search', evaluations=sum(h['runs'] for h in hres), seconds=G.get('bounded_secs', 6), note='bounded stand-in: seeded concrete histories, never counted as proved')
    if not ob and G['level'](PROP) == 'other': pass
    cov.setdefault('explanation', G.get('explain', {}).get(PROP, ''))
    if not cov['explanation']: del cov['explanation']
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=G['level'](PROP), coverage=cov, assumptions=groups.ASSUME + G.get('assume', {}).get(PROP, []) + sorted(assm), wall_s=round(time.time() - T0, 2), violations=1 if status else 0)
    json.dump(ev, open(HERE + '/evidence/%s.json' % PROP, 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions under contract, %.1f s solver, %.1f s' % (PROP, ob, dis, len(covered), solver, time.time() - T0))
    for l in limits: print('limit: ' + l.split('\n')[0][:300])
    for o in failed: print('%s: %s [%s] at %s' % (o['status'], o['name'], o['contract'], o['at']))
    for h in hres: print('replay: %s -> %s runs=%s' % (h['cmd'].split('/')[-1], h['rc'], h['runs']))
    if line:
        if bad: print(bad[0]['out'].strip()[:1500])
        print(line)
    return status
if __name__ == '__main__':
    import multiprocessing.connection
    sys.exit(main())
