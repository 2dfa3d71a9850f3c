"""Which tests a run performs, in which order, and what it reports about them (C41), and the report file (C44).

Ghost state of a run.  Filling the components: selection k goes to position gpos[k] of the node gnode[k], and position
(n, j) was filled by selection gsrc[n][j].  Running: run l is test log[l], taken from position (ln[l], lj[l]);
lpos[n][j] is the run of that position; cf[n] counts the failed runs of node n."""
from spec_fut import *
AAI = z3.ArraySort(IntS, AI)
GH = {'npush': IntS, 'gsrc': AAI, 'gnode': AI, 'gpos': AI, 'curn': IntS, 'curj': IntS, 'log': AI, 'ln': AI, 'lj': AI, 'lpos': AAI, 'cf': AI, 'nruns': IntS, 'gfail': IntS}
def q(*ns): return [z3.Int(n) for n in ns]
def fa(vs, body, *pats): return z3.ForAll(vs, body, patterns=[p if len(p) > 1 and not isinstance(p, list) else p for p in pats]) if False else z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])
class Run:
    "the ghost state and the containers of a run in one memory"
    def __init__(s, sp, I, m, up):
        s.I = I; s.m = m; s.sp = sp; s.up = up
        def leaf(k, so):
            v = m.get(k)
            if v is None: v = m[k] = I.st.mem.setdefault(k, z3.Const(k + '!0', so))
            return v
        for g, so in GH.items(): setattr(s, g, leaf('ghost.' + g, so))
        s.cd, s.cl = sp.comp_tests(I, m); s.fails = leaf(sp.ckey(I) + '.falcon::testing::Component::failures', AI)
        L, t = sp.cmap(I, up); s.L, s.t = L, t
        s.node, s.rank, s.len = (ml(I, m, L, x) for x in ('.node', '.rank', '.len')); s.first = first_of(I, m, t)
        s.T = rd_term(leaf('H.%s::testsToPerofm.data' % UP, AAI), (up,)); s.N = rd_term(leaf('H.%s::testsToPerofm.len' % UP, AI), (up,))
        s.pp = leaf('H.%s::p' % TC, AI); s.cname = leaf('H.%s::componentName' % TP, z3.ArraySort(IntS, StrS)); s.status = leaf('H.%s::status' % TP, AI)
    def comp(s, t): return z3.Select(s.cname, z3.Select(s.pp, t))
    def inm(s, n): return inmap(s.I, s.m, s.L, n)
    def filled(s):
        n, j, k = q('qn', 'qj', 'qk'); g = z3.Select(z3.Select(s.gsrc, n), j); d = z3.Select(z3.Select(s.cd, n), j); h = z3.And(j >= 0, j < z3.Select(s.cl, n))
        yield 'every place was filled by a selection', z3.ForAll([n, j], z3.Implies(h, z3.And(g >= 0, g < s.npush, z3.Select(s.gnode, g) == n, z3.Select(s.gpos, g) == j, d == z3.Select(s.T, g), z3.Select(s.first, n) == s.comp(d))), patterns=[g, d])
        yield 'filled nodes are components of the run', z3.ForAll([n], z3.Implies(z3.Select(s.cl, n) > 0, s.inm(n)), patterns=[z3.Select(s.cl, n)])
        yield 'no negative number of tests', z3.ForAll([n], z3.Select(s.cl, n) >= 0, patterns=[z3.Select(s.cl, n)])
        gn, gp = z3.Select(s.gnode, k), z3.Select(s.gpos, k)
        yield 'every selection has its place', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < s.npush), z3.And(gp >= 0, gp < z3.Select(s.cl, gn), z3.Select(z3.Select(s.gsrc, gn), gp) == k)), patterns=[gn, gp])
        i, = q('qi'); g2 = z3.Select(z3.Select(s.gsrc, n), i)
        yield 'places are filled in order', z3.ForAll([n, i, j], z3.Implies(z3.And(i >= 0, i < j, j < z3.Select(s.cl, n)), g2 < g), patterns=[z3.MultiPattern(g2, g)])
    def wf(s):
        yield 'the components are a map', map_wf(s.I, s.m, s.L, s.t)
        yield 'the components are ordered', map_order(s.I, s.m, s.L, s.t)
    def counted(s):
        n, = q('qn'); yield 'components count their failed runs', z3.ForAll([n], z3.Implies(s.inm(n), z3.Select(s.fails, n) == z3.Select(s.cf, n)), patterns=[z3.Select(s.fails, n), z3.Select(s.cf, n)])
    def before(s, n, j, r, j0):
        "place (n, j) comes before place j0 of rank r"
        rk = z3.Select(s.rank, n); return z3.Or(rk < r, z3.And(rk == r, j < j0)) if j0 is not None else rk < r
    def ran(s, r, j0):
        n, j, l, l2 = q('qn', 'qj', 'ql', 'ql2'); ln, lj = z3.Select(s.ln, l), z3.Select(s.lj, l); tag = 'component' if j0 is None else 'test'
        yield 'every run is one of a place before this ' + tag, z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < s.nruns), z3.And(s.inm(ln), lj >= 0, lj < z3.Select(s.cl, ln), s.before(ln, lj, r, j0), z3.Select(s.log, l) == z3.Select(z3.Select(s.cd, ln), lj), z3.Select(z3.Select(s.lpos, ln), lj) == l)), patterns=[ln, lj, z3.Select(s.log, l)])
        lp = z3.Select(z3.Select(s.lpos, n), j)
        yield 'every place before this %s was run' % tag, z3.ForAll([n, j], z3.Implies(z3.And(s.inm(n), j >= 0, j < z3.Select(s.cl, n), s.before(n, j, r, j0)), z3.And(lp >= 0, lp < s.nruns, z3.Select(s.ln, lp) == n, z3.Select(s.lj, lp) == j)), patterns=[lp])
        yield 'runs are ordered by component and place', s.ordered()
    def ordered(s):
        l, l2 = q('ql', 'ql2'); a, b = z3.Select(s.ln, l), z3.Select(s.ln, l2)
        return z3.ForAll([l, l2], z3.Implies(z3.And(l >= 0, l < l2, l2 < s.nruns), z3.Or(z3.Select(s.rank, a) < z3.Select(s.rank, b), z3.And(a == b, z3.Select(s.lj, l) < z3.Select(s.lj, l2)))), patterns=[z3.MultiPattern(a, b)])

class RunSpec(FutSpec):
    light_discovery = True; loop_skip = ('ghost.curn', 'ghost.curj', 'ghost.gfail', 'ghost.nruns')
    def cmap(s, I, up):
        t = next(f['t'] for r in I.tu.recs.values() if r['n'] == UP for f in r['fields'] if f['n'] == 'componentToPerform'); return Loc('H.%s::componentToPerform' % UP, (up,), t), t
    def is_ctests(s, I, L): return L.key == s.ckey(I) + '.' + s.CTESTS
    def vec_insert_ok(s, I, L): return not s.is_ctests(I, L)
    def on_vec_push(s, I, L, n):
        if not s.is_ctests(I, L): return
        i = L.idx[0]; k = I.gh('npush'); g = I.gh('gsrc', AAI)
        I.setgh('gsrc', z3.Store(g, i, z3.Store(z3.Select(g, i), n, k))); I.setgh('gnode', z3.Store(I.gh('gnode', AI), k, i)); I.setgh('gpos', z3.Store(I.gh('gpos', AI), k, n)); I.setgh('npush', simp(k + 1))
    def on_vec_read(s, I, L, i):
        if s.is_ctests(I, L): I.setgh('curn', L.idx[0]); I.setgh('curj', simp(i))
    def on_run(s, I, this, p, v, node):
        l = I.gh('nruns'); n, j = I.gh('curn'), I.gh('curj'); lp = I.gh('lpos', AAI); cf = I.gh('cf', AI); bad = z3.If(v == SUCCESS, I_(0), I_(1))
        I.setgh('log', z3.Store(I.gh('log', AI), l, this.idx[0])); I.setgh('ln', z3.Store(I.gh('ln', AI), l, n)); I.setgh('lj', z3.Store(I.gh('lj', AI), l, j)); I.setgh('lpos', z3.Store(lp, n, z3.Store(z3.Select(lp, n), j, l)))
        I.setgh('cf', z3.Store(cf, n, z3.Select(cf, n) + bad)); FutSpec.on_run(s, I, this, p, v, node)
    def loop_cands(s, I, entry, mods, node):
        out = FutSpec.loop_cands(s, I, entry, mods, node); up = s.unit_key(I)
        if isinstance(s.current, CReport41): out += s.current.cands(I, mods, entry)
        if up is None or not isinstance(s.current, CRunAll41): return out
        def view(m):
            v = dict(entry.mem); v.update(m); return Run(s, I, v, up)
        names = lambda gen: [n for n, f in gen]
        R0 = view({})
        def add(pick): 
            for n, f in pick(R0): out.append((n, lambda m, n=n: dict(pick(view(m)))[n]))
        add(lambda R: R.wf()); add(lambda R: R.counted())
        if 'ghost.npush' in mods: add(lambda R: R.filled())
        if 'ghost.nruns' in mods:
            add(lambda R: s.passed(R)); out.append(('no negative number of runs', lambda m: m['ghost.nruns'] >= 0))
            mi, ints = s.map_its(I, entry, mods, R0), s.test_its(I, entry, mods, True)
            for rk in mi:
                for j in [None] + [k for k in ints if k != rk]:
                    for n, f in R0.ran(I_(0), None if j is None else I_(0)):
                        if n.startswith('runs are') and j is not None: continue
                        def f(m, n=n, rk=rk, j=j):
                            R = view(m); return dict(R.ran(R.m[rk], None if j is None else R.m[j]))[n]
                        out.append(('%s (%s, %s)' % (n, rk, j), f))
        return out
    def on_put(s, I, os, text, node):
        "names of tests shown on the standard output"
        if not isinstance(s.current, CReport41) or os.key != 'G.std::cout': return
        k = 'H.%s::name' % TP
        for p in pieces(text):
            if p.decl().kind() == z3.Z3_OP_SELECT and p.arg(0).eq(I.st.mem.get(k, p.arg(1))):
                n = I.gh('named'); I.setgh('names', z3.Store(I.gh('names', AI), n, p.arg(1))); I.setgh('named', simp(n + 1))
    def map_its(s, I, entry, mods, R0):
        "iterators over the components: those this loop moves, else those of the loop around it"
        its = [k for k in list(entry.mem) + list(mods) if k.startswith('$') and (k in mods or k in entry.mem)]
        mi = sorted({k[:-3] + '.i' for k in its if k.endswith('.ck') and entry.mem.get(k) is not None and entry.mem[k][0] == R0.L.key and (k[:-3] + '.i' in mods or not I.valid(entry.mem[k[:-3] + '.i'] == R0.len))})
        own = [k for k in mi if k in mods]; return own or mi
    def test_its(s, I, entry, mods, fallback=False):
        "iterators over the tests of a component that this loop moves, or any of its integers"
        ints = [k for k in mods if k.startswith('$') and is_int_term(mods[k])]; its = [k for k in ints if k.endswith('.i') and entry.mem.get(k[:-2] + '.ck') is not None and entry.mem[k[:-2] + '.ck'][0] == s.ckey(I) + '.' + s.CTESTS]
        if its: return its
        R0 = Run(s, I, dict(entry.mem), I.entry.up)
        return [] if not fallback or any(k in mods for k in s.map_its(I, entry, mods, R0)) else ints
    def passed(s, R):
        l, = q('ql'); t = z3.Select(R.log, l); st = rd_term(R.m['H.%s::status' % UP], (R.up,))
        yield 'while the status is 0 everything run has passed', z3.Implies(st == 0, z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < R.nruns), z3.Select(R.status, z3.Select(R.pp, t)) == SUCCESS), patterns=[t]))
def is_int_term(v): return z3.is_expr(v) and v.sort() == IntS

class CRunAll41(CRunAll):
    def setup(s, I, x):
        CRunAll.setup(s, I, x); sp = I.spec
        for g, so in GH.items():
            if so == IntS: I.setgh(g, I_(0))
            else: I.gh(g, so)
        I.setgh('cf', z3.K(IntS, I_(0)))
        x.r0 = Run(sp, I, I.st.mem, x.up); I.fact(x.r0.N >= 0)
    def post(s, I, x):
        sp = I.spec; R = Run(sp, I, I.st.mem, x.up); O = x.r0; k, l, l2 = q('qk', 'ql', 'ql2')
        gn, gp = z3.Select(R.gnode, k), z3.Select(R.gpos, k); pos = z3.Select(z3.Select(R.lpos, gn), gp)
        src = lambda l: z3.Select(z3.Select(R.gsrc, z3.Select(R.ln, l)), z3.Select(R.lj, l)); a, b = z3.Select(R.log, l), z3.Select(R.log, l2); c, d = O.comp(a), O.comp(b)
        n, = q('qn')
        return [('every selection was performed', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < O.N), z3.And(pos >= 0, pos < R.nruns, z3.Select(R.log, pos) == z3.Select(O.T, k), src(pos) == k)), patterns=[gn])),
                ('every run is that of one selection', z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < R.nruns), z3.And(src(l) >= 0, src(l) < O.N, z3.Select(R.log, l) == z3.Select(O.T, src(l)), z3.Select(z3.Select(R.lpos, z3.Select(R.gnode, src(l))), z3.Select(R.gpos, src(l))) == l)), patterns=[a])),
                ('components are run in their order, the tests of one in the order of selection', z3.ForAll([l, l2], z3.Implies(z3.And(l >= 0, l < l2, l2 < R.nruns), z3.Or(KLT(c, d), z3.And(c == d, src(l) < src(l2)))), patterns=[z3.MultiPattern(a, b)])),
                ('a run belongs to the component of its test', z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < R.nruns), z3.And(R.inm(z3.Select(R.ln, l)), z3.Select(R.first, z3.Select(R.ln, l)) == c)), patterns=[a])),
                ('components report the number of their failed runs', list(R.counted())[0][1]),
                ('with status 0 everything run has passed', list(sp.passed(R))[0][1]), ('with status 0 everything selected has passed', z3.Implies(sp.uf(I, x.up, 'status') == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < R.N), z3.And(z3.Select(R.log, pos) == z3.Select(R.T, k), z3.Select(R.status, z3.Select(R.pp, z3.Select(R.log, pos))) == SUCCESS)), patterns=[gn]))), ('the selection stays', z3.And(R.T == O.T, R.N == O.N))]
    def apply(s, I, fn, this, args, ret, node): called_runall(s, I, fn, this, args, ret, node)
from stdmodel3 import KLT
def verdicts_ok(I, m, up):
    "with status 0 every test selected has passed"
    sp = I.spec; R = Run(sp, I, m, up); k, = q('qk'); t = z3.Select(R.T, k); st = I.rdraw('H.%s::status' % UP, (up,), IntS, m)
    return z3.Implies(st == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < R.N), z3.Select(R.status, z3.Select(R.pp, t)) == SUCCESS), patterns=[t]))
SNAP = ('T', 'N', 'status', 'pp')
def snap(I, up): R = Run(I.spec, I, I.st.mem, up); return {f: getattr(R, f) for f in SNAP}
class CPerform41(CPerform):
    def setup(s, I, x):
        UC.setup(s, I, x)
        for g in ('allruns', 'reports'): I.setgh(g, I_(0))
        x.t0 = [(I.rdraw('H.%s::%s.data' % (UP, f), (x.up,), AI), I.rdraw('H.%s::%s.len' % (UP, f), (x.up,), IntS)) for f in ('testsToPerofm', 'tests')]
    def post(s, I, x):
        sil = I.spec.uf(I, x.up, 'verbosity', x.old) == 0; n = I.gh('reports')
        return [('the tests are performed once', I.gh('allruns') == 1), ('the run is reported once', z3.Or(n == 1, z3.And(sil, n == 0)))]
def called_runall(s, I, fn, this, args, ret, node):
    sp = I.spec; x = I.entry; up = sp.priv(I, this, UT); R = Run(sp, I, I.st.mem, up); k, = q('qk')
    (sd, sn), (ad, an) = x.t0; d, n = z3.If(sn > 0, sd, ad), z3.If(sn > 0, sn, an)
    I.ob('what is performed is what is selected, or everything: their number', R.N == n, node)
    I.ob('what is performed is what is selected, or everything: each test', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(R.T, k) == z3.Select(d, k)), patterns=[z3.Select(R.T, k)]), node)
    I.ob('the run starts without failures', z3.And(sp.uf(I, up, 'status') == 0, sp.uf(I, up, 'failedCount') == 0), node)
    CRunAll.apply(s, I, fn, this, args, ret, node)
    I.setgh('allruns', I.gh('allruns') + 1); I.fact(verdicts_ok(I, I.st.mem, up)); I.st.px['ran'] = snap(I, up)
class CReport41(CShow):
    "the names shown are those of the tests that did not pass, in the order of selection"
    def setup(s, I, x):
        UC.setup(s, I, x); sp = I.spec; R = Run(sp, I, I.st.mem, x.up); i, = q('q_arg'); x.R = R
        I.setgh('named', I_(0)); I.setgh('names', z3.K(IntS, I_(0)))
        I.fact(z3.ForAll([i], TRIG(i), patterns=[TRIG(i)])); I.fact(z3.And(NN(I_(0)) == 0, LL(I_(0)) == z3.K(IntS, I_(0)), R.N >= 0, verdicts_ok(I, I.st.mem, x.up)))
        p = z3.Select(R.pp, z3.Select(R.T, i)); bad = z3.Select(R.status, p) != SUCCESS
        I.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < R.N), z3.And(NN(i + 1) == NN(i) + z3.If(bad, I_(1), I_(0)), LL(i + 1) == z3.If(bad, z3.Store(LL(i), NN(i), p), LL(i)))), patterns=[TRIG(i)]))
    def cands(s, I, mods, entry):
        out = []; up = I.entry.up; st = lambda m: rd_term((m if 'H.%s::status' % UP in m else entry.mem)['H.%s::status' % UP], (up,))
        if 'ghost.named' not in mods: return out
        out.append(('with status 0 nothing is named', lambda m: z3.Implies(st(m) == 0, m['ghost.named'] == 0)))
        for k in mods:
            if k.startswith('$') and is_int_term(mods[k]): out.append(('the failed tests before %s are named' % k, lambda m, k=k: z3.And(TRIG(m[k]), m['ghost.named'] == NN(m[k]), m['ghost.names'] == LL(m[k]))))
        return out
    def post(s, I, x):
        sp = I.spec; v = sp.uf(I, x.up, 'verbosity', x.old); st = sp.uf(I, x.up, 'status', x.old); R = x.R
        return [('the report names the tests that did not pass', z3.Implies(z3.And(v > 0, st != 0), z3.And(I.gh('named') == NN(R.N), I.gh('names', AI) == LL(R.N)))), ('a report of a good run names nothing', z3.Implies(st == 0, I.gh('named') == 0))] + CShow.post(s, I, x)
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec; up = sp.priv(I, this, UT); a = I.st.px.get('ran'); b = snap(I, up)
        if a is None: I.ob('the report comes after the run', FALSE, node)
        else:
            for f in SNAP: I.ob('the report sees the run as it was: ' + dict(T='the tests', N='their number', status='their verdicts', pp='their identity')[f], a[f] == b[f], node)
        I.ob('the report may rely on the status', verdicts_ok(I, I.st.mem, up), node)
        I.setgh('reports', I.gh('reports') + 1); CShow.apply(s, I, fn, this, args, ret, node)
NN = z3.Function('failed_before', IntS, IntS); LL = z3.Function('failed_names_before', IntS, AI)
class CPerformTest41(CPerformTest):
    def setup(s, I, x):
        CPerformTest.setup(s, I, x); I.setgh('log', z3.K(IntS, I_(0))); x.name = sval(I, x.args[0]) ; t, L = by_name(I, x.up); x.want = z3.Select(I.st.mem[mkey(I, t) + '.second'], z3.Select(ml(I, I.st.mem, L, '.byk'), x.name)); x.have = z3.Select(ml(I, I.st.mem, L, '.byk'), x.name) != 0
    def post(s, I, x): return [('the test of that name is run, once', z3.And(I.gh('nruns') == 1, z3.Select(I.gh('log', AI), I_(0)) == x.want, x.have))]
    def post_exc(s, I, x): return [('nothing is run under an unknown name only', z3.And(z3.Not(x.have), I.gh('nruns') == 0))]
def by_name(I, up):
    t = next(f['t'] for r in I.tu.recs.values() if r['n'] == UP for f in r['fields'] if f['n'] == 'testsByName'); return t, Loc('H.%s::testsByName' % UP, (up,), t)
class CAddTest(UC):
    "a registered test comes after those registered before and can be selected by its name"
    def setup(s, I, x):
        UC.setup(s, I, x); sp = I.spec; x.by0 = ml(I, I.st.mem, by_name(I, x.up)[1], '.byk'); x.v0 = [I.rdraw('H.%s::tests%s' % (UP, f), (x.up,), so) for f, so in (('.data', AI), ('.len', IntS))]
        x.sec0 = I.st.mem[mkey(I, by_name(I, x.up)[0]) + '.second']; t, L = by_name(I, x.up); I.fact(map_wf(I, I.st.mem, L, t))
    def post(s, I, x):
        sp = I.spec; d0, n0 = x.v0; t, L = by_name(I, x.up); by = ml(I, I.st.mem, L, '.byk'); sec = I.st.mem[mkey(I, t) + '.second']; nm = sp.tf(I, x.tp, 'name'); o = z3.Const('qs', StrS); u = z3.Select(x.by0, o)
        return [('the test belongs to the component it is registered under', sp.tf(I, x.tp, 'componentName') == sval(I, x.args[0])), ('the name of a test is its component and its case', nm == cat(sval(I, x.args[0]), S('::'), sval(I, x.args[1]))), ('the test is registered last', z3.And(I.rdraw('H.%s::tests.len' % UP, (x.up,), IntS) == n0 + 1, I.rdraw('H.%s::tests.data' % UP, (x.up,), AI) == z3.Store(d0, n0, x.tc))),
                ('the test is found by its name, unless another one has it', z3.Implies(z3.Select(x.by0, nm) == 0, z3.And(z3.Select(by, nm) != 0, z3.Select(sec, z3.Select(by, nm)) == x.tc))),
                ('other names are not touched', z3.ForAll([o], z3.Implies(o != nm, z3.And(z3.Select(by, o) == u, z3.Implies(u != 0, z3.Select(sec, u) == z3.Select(x.sec0, u)))), patterns=[z3.Select(by, o)]))]
    def apply(s, I, fn, this, args, ret, node):
        I.st.px.setdefault('registered', []).append((I.spec.priv(I, this, UT), sval(I, args[0]), sval(I, args[1]), I.val(args[2]))); return args[2]
def static_local(s, I, d):
    "a function-local static is initialized by the first call"
    if not isinstance(s.current, CSingleton): return None
    l = I.global_loc(d['id'], dict(t=d['t'], vt=d['t']))
    if d['id'] not in I.st.px.setdefault('statics', set()):
        I.st.px['statics'].add(d['id'])
        if d.get('init') is not None: I.init_obj(l, d['t'], d['init'])
        else: I.wrleaf(l, '', IntS, I_(0))
    return l
class CSingleton(UC):
    "every call gives the same engine, which exists"
    def setup(s, I, x):
        x.this = None; x.args = []
        for v in I.tu.vars.values():           # file-level variables of the framework start as their initializers say
            if v.get('glob') and I.tu.T(v['t'])['k'] == 'ptr' and (v.get('init') or {}).get('k') in ('ImplicitCastExpr', 'CXXNullPtrLiteralExpr', 'IntegerLiteral') and 'falcon::testing' in (v.get('qn') or ''): I.wrleaf(I.global_loc(v['id'], v['init']), '', IntS, I.val(I.ev(v['init'])))
    def invoke(s, I, x):
        x.ret1 = I.val(default_invoke(I, x)); x.mem1 = {k: v for k, v in I.st.mem.items() if k.startswith('G.')}
        x.ret2 = I.val(default_invoke(I, x)); return x.ret2
    def post(s, I, x):
        same = [I.st.mem[k] == x.mem1[k] for k in I.st.mem if k.startswith('G.') and z3.is_expr(I.st.mem[k]) and k in x.mem1]
        return [('the engine exists', x.ret1 >= 1), ('every call gives the same engine', x.ret2 == x.ret1), ('later calls change nothing', z3.And([TRUE] + same))]
    def apply(s, I, fn, this, args, ret, node): v = z3.Int('the_engine'); I.fact(v >= 1); return v
class CRegister(UC):
    "the TEST macros: every declared test is registered once with the engine that main runs, under its component and its case"
    WANT = [('a_component', 'a_case'), ('a_fixture', 'another_case')]
    def targets(s, tu): return [f for f in tu.fns.values() if f['qn'] == UT + '::singleton' and f.get('body') is not None]
    def setup(s, I, x): x.this = None; x.args = []
    def invoke(s, I, x):
        reg = {f['id'] for f in I.tu.fns.values() if f['qn'] == UT + '::addTestCase'}
        def calls(e):
            if isinstance(e, dict): return e.get('fn') in reg or e.get('ctor') in reg or any(calls(v) for v in e.values())
            return isinstance(e, list) and any(calls(v) for v in e)
        n = 0
        while n != len(reg):                      # directly or through helpers
            n = len(reg); reg |= {f['id'] for f in I.tu.fns.values() if f['id'] not in reg and (f['qn'].startswith('falcon::') or f['qn'].startswith('vf::')) and calls(f.get('body'))}
        vs = sorted((v for v in I.tu.vars.values() if v.get('glob') and (v.get('qn') or '').startswith('vf::') and calls(v.get('init'))), key=lambda v: v['id'])
        if len(vs) != len(s.WANT): raise Unsupported("a test is not registered by the initializer of a variable")
        I.frames.append(Frame(x.fn, None, {}))
        try:
            for v in vs: I.ev(v['init'])
        finally: I.frames.pop()
    def post(s, I, x):
        r = I.st.px.get('registered', []); ok = len(r) == len(s.WANT); t = I.tu.T(x.fn['ret'])['to']; up = I.spec.priv(I, Loc('H', (z3.Int('the_engine'),), t), UT)
        return [('each declared test is registered once', z3.BoolVal(ok))] + [(n, f) for (u, c, a, tc), (wc, wa) in zip(r, s.WANT) for n, f in (('a test is registered with the engine that main runs', u == up), ('a test is registered under its component', c == S(wc)), ('a test is registered under its case', a == S(wa)), ('a registered test exists', tc >= 1))] * ok + [('every declared test is another one', z3.Distinct(*[t[3] for t in r]))] * ok
RunSpec.static_local = static_local
def plan(tu, prop):
    sp = RunSpec(tu, prop)
    run, ub, ue = CRun('TestCase::run', TC + '::run'), CUBegin('UnitTest::beginTest', UT + '::beginTest'), CUEnd('UnitTest::endTest', UT + '::endTest'); ra = CRunAll41('UnitTest::runAllTests', UT + '::runAllTests')
    hp = CPassed('UnitTest::hasPassed', UT + '::hasPassed'); rp = CReport41('UnitTest::report', UT + '::report'); sx = CShow('UnitTest::saveToXML', UT + '::saveToXML')
    sp.contracts = [run, ub, ue, ra, rp, sx, CXmlText('xmlText', '?')]
    sing = CSingleton('UnitTest::singleton', UT + '::singleton'); add = CAddTest('UnitTest::addTestCase', UT + '::addTestCase'); sp.contracts += [sing, add]
    return sp, [hp, ra, CPerform41('UnitTest::performUnitTests', UT + '::performUnitTests'), rp, CPerformTest41('UnitTest::performTest', UT + '::performTest'), add, sing, CRegister('TEST and TEST_F', '?')]
