"""Loops are cut at an inductive invariant.  Candidates come from templates (and from the
property's vocabulary); the solver keeps exactly the inductive ones (Houdini)."""
from core import *
from interp import *

class LoopInfo: pass
class KindChange(Unsupported): pass

def snap(I): return dict(I.st.mem)

def mod_value(v, name):
    if isinstance(v, CStr): return CStr(v.s, z3.Const(name, IntS), v.nul)
    if z3.is_expr(v): return z3.Const(name, v.sort())
    return v
def same_py(a, b):
    if isinstance(a, Loc) and isinstance(b, Loc): return a.same(b)
    if isinstance(a, PyPtr) and isinstance(b, PyPtr): return a.loc.same(b.loc)
    if isinstance(a, CStr) and isinstance(b, CStr): return a.s.eq(b.s) or simp(a.s).eq(simp(b.s))
    if z3.is_expr(a) and z3.is_expr(b): return True
    return type(a) == type(b) and a == b if not (z3.is_expr(a) or z3.is_expr(b)) else False

def iterate(I, cond, body, inc, post, first):
    if not post:
        if not I.choose(cond()): return 'exit'
    try: I.scope(lambda: I.ex(body)) if body is not None else None
    except ContinueC: pass
    if inc is not None: I.ex(inc)
    if post:
        if not I.choose(cond()): return 'exit'
    return 'back'

def nested(I, entry, head, mods, invs, cond, body, inc, post, at_back):
    "explore one iteration from the havocked head; at_back() is called at every back edge"
    def run():
        I.st = entry.copy(); I.counter = head['counter']
        I.frames = list(head['frames']); fr = head['frames'][-1] if head['frames'] else None
        if fr is not None:
            f2 = Frame(fr.fn, fr.this, dict(fr.env)); f2.ret = fr.ret; f2.closure = fr.closure; I.frames[-1] = f2
        I.scopes = [list(x) for x in head['scopes']]; I.temps = [list(x) for x in head['temps']]
        for k in mods: I.st.mem[k] = mods[k]
        I.st.wlog = set()
        I._newqs()
        for f in invs: I.fact(f)
        try: r = iterate(I, cond, body, inc, post, False)
        except (BreakC, ReturnC, CppThrow): return
        if r == 'back': at_back()
    rec = I.record; I.record = False
    try: I.explore(run)
    finally: I.record = rec

def pure(I, e):
    "evaluating e twice is the same as evaluating it once"
    if isinstance(e, list): return all(pure(I, x) for x in e)
    if not isinstance(e, dict): return True
    k = e.get('k')
    if k in ('CompoundAssignOperator', 'CXXNewExpr', 'CXXDeleteExpr', 'CXXThrowExpr', 'LambdaExpr'): return False
    if k == 'BinaryOperator' and e.get('op') == '=': return False
    if k == 'UnaryOperator' and e.get('op') in ('++', '--'): return False
    if k == 'CXXOperatorCallExpr' and e.get('op') not in ('==', '!=', '<', '>', '<=', '>=', '*', '->', '[]', '-', '+'): return False
    if k in ('CallExpr', 'CXXMemberCallExpr'):
        f = I.tu.fns.get(e.get('fn'))
        if f is None: return False
        if not (f.get('const') or f['n'] in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'back', 'front', 'forward', 'move') or f['n'].startswith('operator')): return False
    return all(pure(I, v) for v in e.values() if isinstance(v, (dict, list)))

def run_loop(I, s, cond, body, inc, post):
    "a variable that changes its kind of value (an address becoming null, say) is followed for a few turns first"
    if getattr(I, 'unroll', 0): return run_unrolled(I, s, cond, body, inc, post)
    for n in range(4):
        try: return run_loop1(I, s, cond, body, inc, post)
        except KindChange:
            if n == 3 or post: raise
            if not I.choose(cond()): return
            try:
                try: I.scope(lambda: I.ex(body)) if body is not None else None
                except ContinueC: pass
                if inc is not None: I.ex(inc)
            except BreakC: return
def run_unrolled(I, s, cond, body, inc, post):
    "bounded confirmation: every turn is followed from the real state, up to a number of turns that needed a decision"
    turns = total = 0; wait = hasattr(I.spec, 'waiting_loop') and I.spec.waiting_loop(I, s); I.unrolled = True
    while True:
        t0 = len(I.trace); m0 = dict(I.st.mem); c0 = I.counter
        try: r = iterate(I, cond, body, inc, post, total == 0)
        except BreakC: return
        if r == 'exit': return
        if hasattr(I.spec, 'at_back_edge'): I.spec.at_back_edge(I, s)
        if not wait and I.counter == c0 and all(k in m0 and (m0[k] is v or pysig(m0[k]) == pysig(v)) for k, v in I.st.mem.items() if not k.startswith('$') or k in m0): I.ob('loop repeats for ever without changing anything', FALSE, s)
        total += 1; turns += len(I.trace) > t0
        if turns >= I.unroll or total >= 300: raise PathEnd()
def pysig(v):
    "equal only for values that are the same"
    if z3.is_expr(v): return str(v.get_id())
    if isinstance(v, CStr): return 'c%d.%d' % (v.s.get_id(), v.off.get_id())
    if isinstance(v, Loc): return 'l%s[%s]' % (v.key, ','.join(pysig(i) for i in v.idx))
    if isinstance(v, PyPtr): return 'p' + pysig(v.loc)
    if isinstance(v, (tuple, list)): return '(' + ','.join(pysig(i) for i in v) + ')'
    if v is None or isinstance(v, (bool, int, str)): return repr(v)
    return '#%d' % id(v)
def run_loop1(I, s, cond, body, inc, post):
    # exact peeling while the condition is a constant (fixed trip count)
    const = simp_const(s.get('cond')) if s.get('cond') is not None else True
    if const is None and not post and pure(I, s.get('cond')):
        for _ in range(getattr(I.spec, 'peel', 8)):
            c = cond(); cs = simp(c)
            if z3.is_false(cs): return
            if not z3.is_true(cs):
                # the condition was evaluated once already: only safe to continue if it is pure
                if I.valid(cs): pass
                elif I.valid(z3.Not(cs)): return
                else: break
            else: pass
            try:
                try: I.scope(lambda: I.ex(body)) if body is not None else None
                except ContinueC: pass
                if inc is not None: I.ex(inc)
            except BreakC: return
        # too many turns to follow one by one: the rest is cut at an invariant
        # cond evaluated to undecided c: if evaluating it has no effects we may simply evaluate it again
    key = (s['l'], id(s), tuple(I.trace), I.counter, len(I.frames), getattr(I, 'nestkey', ()))
    # the invariants found hold for this very state only: the same place reached in another state is another matter
    sig = (tuple(p.get_id() for p in I.st.pc), tuple(sorted((k, pysig(v)) for k, v in I.st.mem.items() if v is not None)), getattr(I, 'discovering', False))
    info = I.loopcache.get(key); hint = None
    if info is not None and info[0] != sig:
        hint = getattr(info[1], 'names', None) if not info[0][2] else None; info = None
    if info is not None: info = info[1]
    else:
        keep = (list(I.st.pc), dict(I.st.mem))
        save_nk = getattr(I, 'nestkey', ())
        I.nestkey = save_nk + ((id(s), tuple(I.trace), I.counter),)
        try: info = infer(I, s, cond, body, inc, post, hint)
        except KindChange as e: I.loopcache[key] = (sig, e, keep); raise
        finally: I.nestkey = save_nk
        I.loopcache[key] = (sig, info, keep)
    if isinstance(info, KindChange): raise info
    entry_mem = dict(I.st.mem)
    for k, v in info.mods.items():
        if k not in I.st.mem and k in info.init: I.st.mem[k] = info.init[k]
        I.st.mem[k] = v; I.st.wlog.add(k)
    for name, f in info.invs: I.fact(f)
    if I.record:
        for name, f in info.invs: count_inv(I, s, name)
    if not info.measure and not (hasattr(I.spec, 'waiting_loop') and I.spec.waiting_loop(I, s)):
        I.ob('loop terminates (decreasing measure)', FALSE, s, exact=False)
    try:
        r = iterate(I, cond, body, inc, post, True)
    except BreakC: return
    if r == 'exit': return
    if hasattr(I.spec, 'at_back_edge'): I.spec.at_back_edge(I, s)
    raise PathEnd()

def count_inv(I, s, name):
    key = ('loop invariant: ' + name, short(s['l']))
    if key not in I.obs:
        o = Ob(key[0], key[1], strip_targs(I.frames[-1].fn['qn']) if I.frames else '', 'proved', '', True)
        o.backends = {'z3'}; o.n = 1; I.obs[key] = o

class Batch:
    "one solver for many goals under the same hypotheses"
    def __init__(s, pc, ms, light=False, qf_only=False):
        s.s = z3.Solver(); s.s.set('timeout', ms); s.s.set('smt.mbqi', False); s.s.set('auto_config', False); s.s.add(*pc)
        s.pc = pc; s.ms = ms; s.light = light; s.qf_only = qf_only; s.q = None
        if light: s.q = z3.Solver(); s.q.set('timeout', 400); s.q.add(*[p for p in pc if not has_quant(p)])
    def holds(s, g):
        t0 = time.time(); STATS.cand += 1
        g = simp(g)
        if z3.is_true(g): return True
        if s.q is not None and not has_quant(g):
            s.q.push(); s.q.add(z3.Not(g)); r = check(s.q); s.q.pop()
            if r == z3.unsat or s.qf_only: STATS.time += time.time() - t0; return r == z3.unsat
            s.s.set('timeout', 700)
        elif s.light: s.s.set('timeout', s.ms)
        s.s.push(); s.s.add(z3.Not(g)); r = check(s.s); s.s.pop()
        STATS.time += time.time() - t0
        return r == z3.unsat

def infer(I, s, cond, body, inc, post, hint=None):
    entry = I.st.copy()
    head = dict(counter=I.counter + 1000, frames=list(I.frames), scopes=I.scopes, temps=I.temps)
    I.nloops = getattr(I, 'nloops', 0) + 1; tag = '@%d.%d' % (I.nloops, I.counter)
    mods = {}; init = {}
    # 1. what the loop modifies
    outer = getattr(I, 'discovering', False); I.discovering = True
    for _ in range(12):
        new = {}
        def at_back():
            for k in I.st.wlog:
                if k in mods or k in new: 
                    v0 = entry.mem.get(k)
                    if v0 is not None and not same_py(v0, I.st.mem.get(k)): raise KindChange("%s changes its kind of value in a loop" % k)
                    continue
                if k not in entry.mem:
                    if k.startswith('$'): continue
                    v = I.st.mem.get(k)
                    if not z3.is_expr(v): continue
                    entry.mem[k] = z3.Const(k + "!0", v.sort()); init[k] = entry.mem[k]
                v0, v1 = entry.mem[k], I.st.mem[k]
                if not same_py(v0, v1): raise KindChange("%s changes its kind of value in a loop" % k)
                if z3.is_expr(v0) and v0.eq(v1): continue
                if isinstance(v0, CStr) and simp(v0.off).eq(simp(v1.off)): continue
                if not z3.is_expr(v0) and not isinstance(v0, CStr): continue
                new[k] = mod_value(v0, k + tag)
        nested(I, entry, head, mods, basic_ranges(I, entry, mods), cond, body, inc, post, at_back)
        if not new: break
        mods.update(new)
    I.discovering = outer
    info = LoopInfo(); info.mods = mods; info.init = init
    for k, v in init.items(): I.st.mem.setdefault(k, v)
    # 2. candidates
    E = entry.mem
    cands = auto_cands(I, entry, mods)
    for k in mods:
        if is_int(mods[k]) and not k.endswith(('.n', '.end', '.c')):
            for c in consts_of(s.get('cond')):
                cands.append(('%s<=%d' % (k, c), lambda m, k=k, c=c: m[k] <= c)); cands.append(('%s>=%d' % (k, c), lambda m, k=k, c=c: m[k] >= c))
    if hasattr(I.spec, 'loop_cands'): cands += I.spec.loop_cands(I, entry, mods, s)
    heads = dict(E); heads.update(mods)
    if outer and getattr(I.spec, 'light_discovery', False):         # what an enclosing loop modifies does not depend on these
        def light(f):
            try: return not has_quant(f(heads))
            except (Unsupported, KeyError): return False
        cands = [c for c in cands if light(c[1])]
    if hint is not None: cands = [c for c in cands if c[0] in hint]     # weaker hypotheses do not make more of them invariant
    lt = getattr(I.spec, 'light_discovery', False); qo = lt and outer
    b = Batch(entry.pc, 1500, lt, qo)
    live = []
    for name, f in cands:
        try: g0 = f(E)
        except (Unsupported, KeyError): continue
        if b.holds(g0): live.append((name, f))
    # 3. Houdini
    final_meas = None; lost = set()
    for rnd in range(60):
        invs = []
        for name, f in live: invs.append(f(heads))
        drop = set()
        meas = sorted(measures(I, entry, mods, heads), key=lambda c: not (c[0].count('.i') == 2 and '-$' in c[0] and not c[0].startswith('2^64')))
        turns = []; moved = []
        first = lambda: next((i for i in range(len(meas)) if meas[i][0] not in lost), None)
        start = first()
        heavy = [has_quant(f) for f in invs]
        def at_back():
            turns.append(1)
            b = Batch(list(I.st.pc), 2500, lt, qo)
            for i, (name, f) in sorted(enumerate(live), key=lambda c: heavy[c[0]]):
                if i in drop: continue
                if heavy[i] and drop: break         # another round comes anyway
                if not b.holds(f(I.st.mem)): drop.add(i)
            while not drop and first() is not None:     # one measure has to decrease on every way back
                name, m = meas[first()]
                try: ok = b.holds(z3.And(m(heads) >= 0, m(I.st.mem) < m(heads)))
                except KeyError: ok = False
                if ok: break
                lost.add(name)
        nested(I, entry, head, mods, invs, cond, body, inc, post, at_back)
        if os.environ.get('FVC_LOOP'):
            print("HOUDINI", short(s['l']), rnd, "live", len(live), "dropped", [live[i][0] for i in drop], file=sys.stderr)
        if not drop and first() is not None and first() != start: continue       # it has not been tried on all of them
        if not drop:
            final_meas = ([meas[first()][0]] if first() is not None else []) if turns else ['never repeated']; break
        lost.clear()
        live = [c for i, c in enumerate(live) if i not in drop]
    else: raise Unsupported("loop invariants did not settle")
    info.invs = [(n, f(heads)) for n, f in live]; info.names = {n for n, f in live}
    info.measure = final_meas
    if os.environ.get('FVC_LOOP'):
        print("LOOP", short(s['l']), "mods", sorted(mods), "\n   inv", [n for n, f in live], "\n   measure", info.measure, file=sys.stderr)
    return info

def consts_of(e):
    "integer constants a loop condition speaks of"
    out = set()
    def go(x):
        if isinstance(x, list):
            for y in x: go(y)
        elif isinstance(x, dict):
            if x.get('k') == 'IntegerLiteral' or x.get('dk') == 'enumc':
                try: out.add(int(x.get('val')))
                except (TypeError, ValueError): pass
            for v in x.values():
                if isinstance(v, (dict, list)): go(v)
    go(e)
    return sorted(c for c in out if c not in (0,))[:4]

def basic_ranges(I, entry, mods): return []

def is_int(v): return z3.is_expr(v) and v.sort() == IntS
def ival(v):
    if isinstance(v, CStr): return v.off
    return v

def scope_ints(I, mem):
    "integer valued variables visible to the loop"
    out = []
    fr = I.frames[-1] if I.frames else None
    seen = set()
    def addloc(l):
        if isinstance(l, Loc):
            if l.key in mem and l.key not in seen and not l.idx and (is_int(mem[l.key]) or isinstance(mem[l.key], CStr)): seen.add(l.key); out.append(l.key)
            for suf in ('.i',):
                k = l.key + suf
                if k in mem and k not in seen and is_int(mem[k]): seen.add(k); out.append(k)
    if fr:
        for l in fr.env.values(): addloc(l)
        if fr.this is not None and isinstance(fr.this, Loc) and not fr.this.idx:
            for k in mem:
                if k.startswith(fr.this.key + '.') and is_int(mem[k]) and not k.endswith(('.n', '.end', '.c')) and k not in seen: seen.add(k); out.append(k)
    return out

def auto_cands(I, entry, mods):
    E = entry.mem
    skip = getattr(I.spec, 'loop_skip', ())
    ints = [k for k in mods if (is_int(mods[k]) or isinstance(mods[k], CStr)) and not k.endswith(('.n', '.end', '.c')) and k not in skip]
    out = []
    def g(k): return lambda m: ival(m[k])
    for k in ints:
        e0 = ival(E[k]); x = g(k)
        out.append(("%s>=entry" % k, lambda m, x=x, e0=e0: x(m) >= e0))
        out.append(("%s<=entry" % k, lambda m, x=x, e0=e0: x(m) <= e0))
        out.append(("%s>=0" % k, lambda m, x=x: x(m) >= 0))
        out.append(("%s<2^64" % k, lambda m, x=x: x(m) < (1 << 64)))
    for i, k in enumerate(ints):
        for k2 in ints[i+1:]:
            a, b, a0, b0 = g(k), g(k2), ival(E[k]), ival(E[k2])
            out.append(("%s-%s const" % (k, k2), lambda m, a=a, b=b, a0=a0, b0=b0: a(m) - a0 == b(m) - b0))
            out.append(("%s+%s const" % (k, k2), lambda m, a=a, b=b, a0=a0, b0=b0: a(m) + b(m) == a0 + b0))
    sc = [k for k in scope_ints(I, E)]
    for k in ints:
        for u in sc:
            if u == k: continue
            a, b = g(k), g(u)
            out.append(("%s<=%s" % (k, u), lambda m, a=a, b=b: a(m) <= b(m)))
            out.append(("%s>=%s" % (k, u), lambda m, a=a, b=b: a(m) >= b(m)))
    for k in mods:
        v = mods[k]
        if isinstance(v, CStr):
            out.append(("%s inside" % k, lambda m, k=k: z3.And(m[k].off >= 0, m[k].off <= z3.Length(m[k].s))))
        if z3.is_expr(v) and v.sort() == BoolS:
            out.append(("%s unchanged" % k, lambda m, k=k: m[k] == E[k]))
            out.append(("%s" % k, lambda m, k=k: m[k])); out.append(("not %s" % k, lambda m, k=k: z3.Not(m[k])))
        if k.endswith('.data') or z3.is_expr(v) and isinstance(v.sort(), z3.ArraySortRef):
            pass
    # list iterators
    its = list_iters(I, E)
    def valid(m, L, n): return lst_valid(m, L, n)
    for k, L in its:
        if k in mods or any((L.key + s) in mods for s in ('.node', '.pos', '.len')):
            out.append(("%s in list" % k, lambda m, k=k, L=L: lst_valid(m, L, m[k])))
            out.append(("%s not end" % k, lambda m, k=k, L=L: m[k] != m[L.key + '.end']))
            out.append(("pos %s>=entry" % k, lambda m, k=k, L=L: lst_pos(m, L, m[k]) >= lst_pos(E, L, E[k])))
            out.append(("pos %s<=entry" % k, lambda m, k=k, L=L: lst_pos(m, L, m[k]) <= lst_pos(E, L, E[k])))
            for k2, L2 in its:
                if k2 != k and L2.same(L):
                    out.append(("pos %s<=pos %s" % (k, k2), lambda m, k=k, k2=k2, L=L: lst_pos(m, L, m[k]) <= lst_pos(m, L, m[k2])))
                    out.append(("pos %s>=pos %s" % (k, k2), lambda m, k=k, k2=k2, L=L: lst_pos(m, L, m[k]) >= lst_pos(m, L, m[k2])))
                    out.append(("%s!=%s" % (k, k2), lambda m, k=k, k2=k2, L=L: m[k] != m[k2]))
            for i in ints:
                e0 = ival(E[i])
                out.append(("%s-pos %s const" % (i, k), lambda m, k=k, L=L, i=i, e0=e0: ival(m[i]) - e0 == lst_pos(m, L, m[k]) - lst_pos(E, L, E[k])))
                out.append(("%s+pos %s const" % (i, k), lambda m, k=k, L=L, i=i, e0=e0: ival(m[i]) - e0 == lst_pos(E, L, E[k]) - lst_pos(m, L, m[k])))
    Ls = {}
    for lid, L in entry.lists.items():
        if any((L.key + s) in mods for s in ('.node', '.pos', '.len')): Ls[L.key] = L
    for key, L in Ls.items():
        if L.idx: continue
        out.append(("%s well formed" % key, lambda m, L=L: lst_wf(m, L)))
        out.append(("%s prefix kept" % key, lambda m, L=L: lst_prefix(m, E, L)))
    return out

def measures(I, entry, mods, heads):
    E = entry.mem; out = []; skip = getattr(I.spec, 'loop_skip', ())
    ints = [k for k in mods if (is_int(mods[k]) or isinstance(mods[k], CStr)) and not k.endswith(('.n', '.end', '.c')) and k not in skip]
    sc = [k for k in scope_ints(I, E)]
    for k in ints: out.append((k, lambda m, k=k: ival(m[k])))
    for u in sc:
        for k in ints:
            if u != k: out.append(("%s-%s" % (u, k), lambda m, k=k, u=u: ival(m[u]) - ival(m[k])))
    for k in ints:
        out.append(("2^64-%s" % k, lambda m, k=k: (1 << 64) - ival(m[k])))
    for k in mods:
        if isinstance(mods[k], CStr): out.append(("rest of %s" % k, lambda m, k=k: z3.Length(m[k].s) - m[k].off))
    for k, L in list_iters(I, E):
        if k in mods or (L.key + '.len') in mods:
            out.append(("pos " + k, lambda m, k=k, L=L: lst_pos(m, L, m[k])))
            out.append(("len-pos " + k, lambda m, k=k, L=L: m[L.key + '.len'] - lst_pos(m, L, m[k])))
    if hasattr(I.spec, 'loop_measures'): out += I.spec.loop_measures(I, entry, mods)
    # 2^64 - x is a valid measure only for a strictly increasing bounded counter whose bound is tested: keep last
    return out

def list_iters(I, mem):
    out = []
    for k in mem:
        if k.endswith('.n') and k[:-2] + '.lid' in mem and is_int(mem[k]):
            lid = mem[k[:-2] + '.lid']; L = I.st.lists.get(lid)
            if L is not None and not L.idx: out.append((k, L))
    return out

# ---- lists
def lst(m, L, suf):
    v = m.get(L.key + suf)
    if v is None:
        so = {'.node': z3.ArraySort(IntS, IntS), '.pos': z3.ArraySort(IntS, IntS), '.len': IntS, '.end': IntS}[suf]
        v = z3.Const(L.key + suf + '!0', lift(so, len(L.idx))); m[L.key + suf] = v
    return rd_term(v, L.idx)
def lst_pos(m, L, n): return z3.If(n == lst(m, L, '.end'), lst(m, L, '.len'), sel(lst(m, L, '.pos'), n))
def lst_valid(m, L, n):
    p = sel(lst(m, L, '.pos'), n); ln = lst(m, L, '.len')
    return z3.Or(n == lst(m, L, '.end'), z3.And(p >= 0, p < ln, sel(lst(m, L, '.node'), p) == n))
def lst_in(m, L, n):
    p = sel(lst(m, L, '.pos'), n); ln = lst(m, L, '.len')
    return z3.And(n != lst(m, L, '.end'), p >= 0, p < ln, sel(lst(m, L, '.node'), p) == n)
_qv = z3.Int('qi')
def lst_wf(m, L):
    i = z3.Int('qi'); node, pos, ln, end = (lst(m, L, s) for s in ('.node', '.pos', '.len', '.end'))
    na = m.get('ghost.nalive')
    c = [sel(pos, z3.Select(node, i)) == i, z3.Select(node, i) >= 1]   # past-the-end positions have negative identities
    if na is not None: c.append(sel(na, z3.Select(node, i)))
    return z3.And(ln >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ln), z3.And(c)), patterns=[z3.Select(node, i)]), end <= -1)
def lst_prefix(m, E, L):
    i = z3.Int('qi'); n1, n0 = lst(m, L, '.node'), lst(E, L, '.node')
    if n1.eq(n0): return lst(m, L, '.len') >= lst(E, L, '.len')
    return z3.And(lst(m, L, '.len') >= lst(E, L, '.len'),
        z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lst(E, L, '.len')), z3.Select(n1, i) == z3.Select(n0, i)), patterns=[z3.Select(n1, i)]),
        z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lst(E, L, '.len')), z3.Select(n1, i) == z3.Select(n0, i)), patterns=[z3.Select(n0, i)]))
