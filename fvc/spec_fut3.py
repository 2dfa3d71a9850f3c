"""The report file (C44): a strict XML reader runs along with saveToXML, as ghost state.

Its state (open elements, the markup begun, the text of a failure) is followed piece by piece of what is written; what it counts is
in the ghost integers xsuites, xcases, xfailed, tcases, tfailed, xfail.  le[r] is the number of runs before the component of
rank r, gp[l] the number of failures among the first l runs."""
from spec_fut2 import *
import spec_fut2
ADS = z3.ArraySort(IntS, StrS)
def num_text(t):
    "nothing in it is markup"
    t = simp(t)
    if literal(t) is not None: return re.fullmatch(r"""[^<>&"'\x00-\x1f]*""", literal(t)) is not None
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE: return num_text(t.arg(1)) and num_text(t.arg(2))
    if k == z3.Z3_OP_SEQ_CONCAT: return all(num_text(c) for c in t.children())
    return k == z3.Z3_OP_INT_TO_STR or t.decl().eq(stdmodel2.FLTSTR)
_FIT = {}
def fit(t):
    r = _FIT.get(t.get_id())
    if r is None: r = _FIT[t.get_id()] = (t, t.decl().eq(ESC) or num_text(t))
    return r[1]
def opaque(t): return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
class Bad(Exception): pass
START = ((), None, '', (), False)      # open elements, markup begun, quote it is in, text of the element (in a failure), the root has ended
NAME = r'[A-Za-z_:][-A-Za-z0-9_:.]*'
class Reader:
    "one step of the reader: events go to on(kind, ...); pieces are characters or terms"
    def __init__(s, state, on): s.stack, s.mark, s.quote, s.text, s.over = state; s.on = on
    def state(s): return (s.stack, s.mark, s.quote, s.text, s.over)
    def term(s, t):
        if not fit(t): raise Bad('a text that was not made fit for XML is written: ' + str(t)[:80])
        if s.mark is not None:
            if not s.quote: raise Bad('a text that is not an attribute is written in a tag')
            s.mark += (t,)
        else: s.content(t)
    def content(s, c):
        if not s.stack:
            if not (isinstance(c, str) and c in ' \t\r\n'): raise Bad('text outside of the document element')
            return
        if s.stack[-1] == 'failure': s.text += (c,)
    def chars(s, x):
        for c in x:
            if ord(c) < 32 and c not in '\t\r\n': raise Bad('control character')
            if s.mark is None:
                if c == '<': s.mark = ()
                elif c == '>' and False: pass
                elif c == '&': raise Bad('bare & in the text')
                else: s.content(c)
                continue
            if s.quote:
                if c == s.quote: s.quote = ''
                elif c in '<&': raise Bad('bare %s in an attribute' % c)
                s.mark += (c,)
            elif c == '>': m, s.mark = s.mark, None; s.markup(m)
            elif c == '<': raise Bad('< in a tag')
            else:
                if c in '"\'': s.quote = c
                s.mark += (c,)
    def markup(s, m):
        # quoted values are replaced by numbers, so that the rest is plain text
        vals, out, q = [], '', None
        for c in m:
            if q:
                if isinstance(c, str) and c == q: q = None; out += '"%d"' % (len(vals) - 1)
                else: vals[-1].append(c)
            elif c in '"\'': q = c; vals.append([])
            else: out += c
        if out.startswith('?'):
            if not re.fullmatch(r'\?xml\s+version\s*=\s*"0"(\s+encoding\s*=\s*"1")?(\s+standalone\s*=\s*"\d")?\s*\?', out) or s.stack or s.over: raise Bad('declaration')
            return
        e = re.fullmatch(r'/(%s)\s*' % NAME, out)
        if e:
            if not s.stack or s.stack[-1] != e.group(1): raise Bad('end tag of %s that is not open' % e.group(1))
            s.end(e.group(1)); return
        b = re.fullmatch(r'(%s)((?:\s+%s\s*=\s*"\d+")*)\s*(/?)' % (NAME, NAME), out)
        if not b: raise Bad('tag ' + out[:60])
        if s.over: raise Bad('a second document element')
        at = {}
        for k, i in re.findall(r'(%s)\s*=\s*"(\d+)"' % NAME, b.group(2)):
            if k in at: raise Bad('attribute %s twice' % k)
            at[k] = cat(*([EMPTY] + [S(v) if isinstance(v, str) else v for v in vals[int(i)]]))
        s.on('start', b.group(1), at, s.stack); s.stack += (b.group(1),); s.text = ()
        if b.group(3): s.end(b.group(1))
    def end(s, tag):
        s.on('end', tag, s.text, s.stack[:-1]); s.stack = s.stack[:-1]; s.text = ()
        if not s.stack: s.over = True
def state_key(st):
    "states are told apart by their texts; the terms in them are kept in s.states"
    c = lambda t: tuple(x if isinstance(x, str) else x.get_id() for x in t)
    return (st[0], None if st[1] is None else c(st[1]), st[2], c(st[3]), st[4])
XI = ('xsuites', 'xcases', 'xfailed', 'tcases', 'tfailed', 'xfail', 'xml')
def comp_name(I, m):
    k = I.spec.ckey(I) + '.falcon::testing::Component::name'; v = m.get(k)
    if v is None: v = m[k] = I.st.mem.setdefault(k, z3.Const(k + '!0', ADS))
    return v
def gha(I, m, g):
    v = m.get('ghost.' + g)
    if v is None: v = m['ghost.' + g] = I.st.mem.setdefault('ghost.' + g, z3.Const('ghost.' + g + '!0', AI))
    return v
def named(I, m, R):
    n, = q('qn'); return z3.ForAll([n], z3.Implies(R.inm(n), z3.Select(comp_name(I, m), n) == z3.Select(R.first, n)), patterns=[z3.Select(R.rank, n), z3.Select(comp_name(I, m), n)])
def filled_up(I, m, R):
    n, = q('qn'); return z3.ForAll([n], z3.Implies(R.inm(n), z3.Select(R.cl, n) >= 1), patterns=[z3.Select(R.cl, n)])
def ends(I, m, R, to):
    le = gha(I, m, 'le'); r, = q('qr'); n = z3.Select(R.node, r)
    return z3.And(z3.Select(le, 0) == 0, z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < to), z3.Select(le, r + 1) == z3.Select(le, r) + z3.Select(R.cl, n)), patterns=[n]))
def bad(R, t): return z3.If(z3.Select(R.status, z3.Select(R.pp, t)) == SUCCESS, I_(0), I_(1))
def steps(I, m, R):
    "gp sums up the failures of the runs"
    le, gp = gha(I, m, 'le'), gha(I, m, 'gp'); n, j = q('qn', 'qj'); d = z3.Select(z3.Select(R.cd, n), j); l = z3.Select(le, z3.Select(R.rank, n)) + j; h = z3.And(R.inm(n), j >= 0, j < z3.Select(R.cl, n))
    return z3.And(z3.Select(gp, 0) == 0, z3.ForAll([n, j], z3.Implies(h, z3.Select(gp, l + 1) == z3.Select(gp, l) + bad(R, d)), patterns=[d]))
def sums(I, m, R):
    gp, v = gha(I, m, 'gp'), gha(I, m, 'vlog'); l, = q('ql'); e = z3.Select(v, l)
    return z3.And(z3.Select(gp, 0) == 0, z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < R.nruns), z3.Select(gp, l + 1) == z3.Select(gp, l) + z3.If(e == SUCCESS, I_(0), I_(1))), patterns=[e]))
def stay(I, m, R):
    "the verdict of a run is still that of its test"
    v = gha(I, m, 'vlog'); l, = q('ql'); t = z3.Select(R.log, l)
    return z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < R.nruns), z3.Select(R.status, z3.Select(R.pp, t)) == z3.Select(v, l)), patterns=[t, z3.Select(v, l)])
def part(I, m, R, what, r0, j0):
    "failures of the components of rank below r0 (all of them when None), of the current one, of later ones"
    le, gp = gha(I, m, 'le'), gha(I, m, 'gp'); n, = q('qn'); r = z3.Select(R.rank, n); w = z3.Select(what, n); full = w == z3.Select(gp, z3.Select(le, r + 1)) - z3.Select(gp, z3.Select(le, r))
    if r0 is None: c = full
    else: c = z3.And(z3.Implies(r < r0, full), z3.Implies(r > r0, w == 0), z3.Implies(r == r0, w == (I_(0) if j0 is None else z3.Select(gp, R.nruns) - z3.Select(gp, z3.Select(le, r0)))))
    return z3.ForAll([n], z3.Implies(R.inm(n), c), patterns=[w, r])
def bounded(I, m, R, r0):
    le = gha(I, m, 'le'); r, = q('qr'); e = z3.Select(le, r)
    return z3.ForAll([r], z3.Implies(z3.And(r >= 0, r <= r0), z3.And(e >= 0, e <= R.nruns)), patterns=[e])
def place(I, m, R):
    "run l is that of its place"
    le = gha(I, m, 'le'); l, = q('ql'); n = z3.Select(R.ln, l); return z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < R.nruns), l == z3.Select(le, z3.Select(R.rank, n)) + z3.Select(R.lj, l)), patterns=[n])
def truth(I, m, up):
    "what runAllTests leaves for the report"
    R = Run(I.spec, I, m, up); le, gp = gha(I, m, 'le'), gha(I, m, 'gp'); sz = R.len; rd = lambda f, so: I.rdraw('H.%s::%s' % (UP, f), (up,), so, m)
    yield 'the components are a map', map_wf(I, m, R.L, R.t)
    yield 'components are named by their key', named(I, m, R)
    yield 'no negative number of tests', z3.ForAll(q('qn'), z3.Select(R.cl, q('qn')[0]) >= 0, patterns=[z3.Select(R.cl, q('qn')[0])])
    yield 'the runs of components follow each other', ends(I, m, R, sz)
    yield 'there are as many runs as selections', R.N == z3.Select(le, sz)
    yield 'failures of runs are summed up', steps(I, m, R)
    yield 'components know their failures', part(I, m, R, R.fails, None, None)
    yield 'the failures are counted', rd('failedCount', IntS) == z3.Select(gp, z3.Select(le, sz))
class XmlSpec(RunSpec):
    merge = True
    def __init__(s, tu, prop): RunSpec.__init__(s, tu, prop); s.states = [START]; s.numbers = {state_key(START): 0}
    def on_run(s, I, this, p, v, node):
        l = I.gh('nruns'); n = I.gh('curn'); R = Run(s, I, I.st.mem, I.entry.up); le, gp = I.gh('le', AI), I.gh('gp', AI)
        I.setgh('le', z3.Store(le, z3.Select(R.rank, n) + 1, l + 1)); I.setgh('vlog', z3.Store(I.gh('vlog', AI), l, v)); I.setgh('gp', z3.Store(gp, l + 1, z3.Select(gp, l) + z3.If(v == SUCCESS, I_(0), I_(1)))); RunSpec.on_run(s, I, this, p, v, node)
    def loop_cands(s, I, entry, mods, node):
        out = RunSpec.loop_cands(s, I, entry, mods, node); up = s.unit_key(I)
        def view(m):
            v = dict(entry.mem); v.update(m); return v, Run(s, I, v, up)
        if isinstance(s.current, CXml44):
            for k in mods:
                if k == 'ghost.xml': out.append(('the document is where it was', lambda m: m['ghost.xml'] == entry.mem['ghost.xml']))
            if 'ghost.tcases' in mods: out += [('cases are those of the components', lambda m: s.count(I, view(m)[0], False)), ('cases are those of the components and of this one', lambda m: s.count(I, view(m)[0], True))]
            return out
        if not isinstance(s.current, CRunAll44): return out
        def add(name, f): out.append((name, lambda m: f(*view(m))))
        add('components are named by their key', lambda m, R: named(I, m, R)); add('no component is empty', lambda m, R: filled_up(I, m, R))
        if 'ghost.nruns' not in mods: return out
        mi = s.map_its(I, entry, mods, view({})[1]); ji = s.test_its(I, entry, mods)
        g = lambda m, k: m['ghost.' + k]
        add('failures of runs are counted', lambda m, R: z3.And(g(m, 'gfail') == z3.Select(gha(I, m, 'gp'), R.nruns), z3.Select(gha(I, m, 'gp'), 0) == 0)); add('failures are counted', lambda m, R: I.rdraw('H.%s::failedCount' % UP, (up,), IntS, m) == g(m, 'gfail'))
        add('failures are summed up', lambda m, R: sums(I, m, R)); add('verdicts stay', lambda m, R: stay(I, m, R))
        add('runs are where they belong', lambda m, R: place(I, m, R))
        for rk in mi:
            T = ' (%s)' % rk; add('runs of components follow each other' + T, lambda m, R, rk=rk: ends(I, m, R, m[rk])); add('runs are bounded' + T, lambda m, R, rk=rk: bounded(I, m, R, m[rk]))
            if not ji:
                add('runs so far' + T, lambda m, R, rk=rk: R.nruns == z3.Select(gha(I, m, 'le'), m[rk])); add('failures of components' + T, lambda m, R, rk=rk: part(I, m, R, R.cf, m[rk], None))
            for j in ji:
                U = ' (%s, %s)' % (rk, j); add('runs so far' + U, lambda m, R, rk=rk, j=j: z3.And(R.nruns == z3.Select(gha(I, m, 'le'), m[rk]) + m[j], z3.Implies(m[j] > 0, z3.Select(gha(I, m, 'le'), m[rk] + 1) == R.nruns)))
                add('failures of components' + U, lambda m, R, rk=rk, j=j: part(I, m, R, R.cf, m[rk], m[j]))
        return out
    def count(s, I, m, inner):
        le, gp = gha(I, m, 'le'), gha(I, m, 'gp'); g = lambda k: m['ghost.' + k]; base = z3.Select(le, g('xsuites') - 1)
        if not inner: return z3.And(g('tcases') == z3.Select(le, g('xsuites')), g('tfailed') == z3.Select(gp, g('tcases')))
        return z3.And(g('tcases') == base + g('xcases'), g('tfailed') == z3.Select(gp, g('tcases')), g('xfailed') == z3.Select(gp, g('tcases')) - z3.Select(gp, base))
    # ---- the reader
    def on_open(s, I, os, path):
        I.ob('the report goes to the file that was asked for', (path == s.uf(I, I.entry.up, 'xmlReport')) if path is not None else FALSE); I.setgh('xopen', z3.Not(I.rdleaf(os, '.bad', BoolS)))
        I.st.px['xfile'] = os.key; I.st.px['xstate'] = 0; I.setgh('xml', I_(0))
        for g in XI: I.setgh(g, I_(0))
    def text_kept(s, I, os): return os.key != I.st.px.get('xfile')          # nothing reads a file back
    def on_put(s, I, os, text, node):
        if not isinstance(s.current, CXml44) or os.key in ('G.std::cout', 'G.std::cerr'): return
        if I.st.px.get('xfile') != os.key: return
        if I.gh('xml') is not None: I.ob('the document goes on where it stopped when a loop repeats', I.gh('xml') == I_(I.st.px['xstate']), node)
        r = Reader(s.states[I.st.px['xstate']], lambda *a: s.event(I, node, *a))
        try:
            for p in pieces(text):
                if literal(p) is not None: r.chars(literal(p))
                elif p.decl().kind() == z3.Z3_OP_ITE and not fit(p):
                    raise Unsupported("a text that depends on a condition is written to the report")
                elif opaque(p): raise Unsupported("a text put together elsewhere is written to the report")
                else: r.term(p)
        except Bad as e: I.ob('the report is well formed', FALSE, node); raise Unsupported('the report is not well formed: %s' % e)
        st = r.state(); k = state_key(st); i = s.numbers.get(k)
        if i is None: i = s.numbers[k] = len(s.states); s.states.append(st)
        I.st.px['xstate'] = i; I.setgh('xml', I_(i))
    def event(s, I, node, kind, tag, x, stack):
        up = I.entry.up; R = Run(s, I, I.st.mem, up); g = lambda k: I.gh(k); ob = lambda n, f: I.ob(n, f, node); at = (lambda k: x.get(k)) if kind == 'start' else None
        def attr(k, v, what): ob(what, at(k) == v if at(k) is not None else FALSE)
        if tag not in ('testsuites', 'testsuite', 'testcase', 'failure'): return
        parent = {'testsuites': (), 'testsuite': ('testsuites',), 'testcase': ('testsuites', 'testsuite'), 'failure': ('testsuites', 'testsuite', 'testcase')}[tag]
        if kind == 'start': ob('%s elements are where they belong' % tag, z3.BoolVal(stack == parent))
        n = z3.Select(R.node, g('xsuites') - 1)
        if kind == 'start' and tag in ('testsuites', 'testsuite'):
            for k in ('tests', 'failures'):
                if at(k) is None: ob('a %s tells its number of %s' % (tag, k), FALSE)
                else: I.setgh('%s of %s' % (k, tag), at(k), StrS) if False else I.st.mem.__setitem__('ghost.%s of %s' % (k, tag), at(k)); I.st.wlog.add('ghost.%s of %s' % (k, tag))
        told = lambda k: I.gh('%s of %s' % (k, tag), StrS)
        if kind == 'start' and tag == 'testsuite':
            k = g('xsuites'); n = z3.Select(R.node, k); ob('there are no more suites than components', k < R.len); attr('name', ESC(z3.Select(R.first, n)), 'a suite has the name of its component'); I.setgh('xsuites', simp(k + 1)); I.setgh('xcases', I_(0)); I.setgh('xfailed', I_(0))
        elif kind == 'start' and tag == 'testcase':
            j = g('xcases'); ob('a suite has no more cases than its component tests', j < z3.Select(R.cl, n)); p = z3.Select(R.pp, z3.Select(z3.Select(R.cd, n), j)); I.setgh('xtest', p)
            attr('name', ESC(s.tf(I, p, 'caseName')), 'a case has the name of its test'); I.setgh('xcases', simp(j + 1)); I.setgh('tcases', simp(g('tcases') + 1)); I.setgh('xfail', I_(0))
        elif tag == 'failure':
            p = g('xtest'); st = s.tf(I, p, 'status')
            if kind == 'start':
                I.setgh('xfail', simp(g('xfail') + 1)); attr('message', ESC(s.tf(I, p, 'failDesc')), 'a failure carries its description')
                f = [f for f in I.tu.fns.values() if f['qn'] == TC + '::statusDesc' and f.get('body') is not None]
                if not f: raise Unsupported("TestCase::statusDesc is gone")
                t = next(i for i, T in enumerate(I.tu.types) if T and T['k'] == 'rec' and T['n'] == TC and not T.get('const')); k = sval(I, I.call(f[0], Loc('H', (z3.Select(z3.Select(R.cd, n), g('xcases') - 1),), t), [], None, {})); attr('type', k, 'a failure carries its kind')
            else:
                terms = [c for c in x if not isinstance(c, str)]
                ob('a failure carries its file', z3.Or([FALSE] + [t == ESC(s.tf(I, p, 'failFile')) for t in terms])); ob('a failure carries its line', z3.Or([FALSE] + [t == int_str(s.tf(I, p, 'failLine')) for t in terms]))
        elif tag == 'testcase':
            st = s.tf(I, g('xtest'), 'status'); b = z3.If(st == SUCCESS, I_(0), I_(1)); ob('a case contains a failure exactly when the test did not pass', g('xfail') == b); I.setgh('xfailed', simp(g('xfailed') + g('xfail'))); I.setgh('tfailed', simp(g('tfailed') + g('xfail')))
        elif tag == 'testsuite':
            ob('a suite has as many cases as its component tests', g('xcases') == z3.Select(R.cl, n)); ob('a suite tells its number of tests', told('tests') == int_str(g('xcases'))); ob('a suite tells its number of failures', told('failures') == int_str(g('xfailed')))
        elif tag == 'testsuites' and kind == 'end':
            ob('there are as many suites as components', g('xsuites') == R.len); ob('the report tells its number of tests', told('tests') == int_str(g('tcases'))); ob('the report tells its number of failures', told('failures') == int_str(g('tfailed')))

class CXml44(CShow):
    def setup(s, I, x):
        UC.setup(s, I, x); I.setgh('xopen', FALSE); I.st.px['xstate'] = None
        for g in XI: I.setgh(g, I_(0))
        for n, f in truth(I, I.st.mem, x.up): I.fact(f)
        I.fact(I.spec.uf(I, x.up, 'failedCount') >= 0)
    def post(s, I, x):
        k = I.st.px.get('xstate'); sp = I.spec; done = k is not None and (lambda t: t[4] and t[1] is None)(sp.states[k])
        return [('the document is complete', z3.Implies(I.gh('xopen', BoolS), z3.BoolVal(bool(done)))), ('a report is written', z3.BoolVal(k is not None))] + CShow.post(s, I, x)
    def apply(s, I, fn, this, args, ret, node):
        same_run(I, sp_up(I, this), node, 'the report file sees the run as it was: '); I.setgh('saves', I.gh('saves') + 1); CShow.apply(s, I, fn, this, args, ret, node)
def sp_up(I, this): return I.spec.priv(I, this, UT)
SNAP44 = ('T', 'N', 'status', 'pp', 'cd', 'cl', 'fails', 'node', 'rank', 'len', 'first')
def snap44(I, up):
    R = Run(I.spec, I, I.st.mem, up); out = {f: getattr(R, f) for f in SNAP44}
    out['names of components'] = comp_name(I, I.st.mem); out['number of failures'] = I.spec.uf(I, up, 'failedCount'); out['report'] = I.spec.uf(I, up, 'xmlReport')
    for f in ('failDesc', 'failFile', 'failLine', 'caseName'): k = 'H.%s::%s' % (TP, f); out[f] = I.st.mem.setdefault(k, z3.Const(k + '!0', z3.ArraySort(IntS, SORTS[FIELDS[TP][f]])))
    return out
def same_run(I, up, node, what):
    a = I.st.px.get('ran')
    if a is None: I.ob(what + 'it comes after the run', FALSE, node); return
    for f, v in snap44(I, up).items(): I.ob(what + f, a[f] == v, node)
class CReport44(CShow):
    "the report on the screen changes nothing of the run"
    def setup(s, I, x): UC.setup(s, I, x); x.s0 = snap44(I, x.up)
    def post(s, I, x): return [('the report leaves the run as it is: ' + f, x.s0[f] == v) for f, v in snap44(I, x.up).items()]
class CRunAll44(CRunAll41):
    def setup(s, I, x):
        CRunAll41.setup(s, I, x); R = x.r0; k, = q('qk'); t = z3.Select(R.T, k)
        I.gh('vlog', AI); I.setgh('le', z3.K(IntS, I_(0))); I.setgh('gp', z3.K(IntS, I_(0)))
        I.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < R.N), TI(z3.Select(R.pp, t)) == k), patterns=[t]))       # selected once, and tests do not share their private parts
    def post(s, I, x):
        R = Run(I.spec, I, I.st.mem, x.up); k, l = q('qk', 'ql'); gn, gp = z3.Select(R.gnode, k), z3.Select(R.gpos, k); pos = z3.Select(z3.Select(R.lpos, gn), gp); src = z3.Select(z3.Select(R.gsrc, z3.Select(R.ln, l)), z3.Select(R.lj, l))
        sr = lambda l: z3.Select(z3.Select(R.gsrc, z3.Select(R.ln, l)), z3.Select(R.lj, l))
        a = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < R.N), z3.And(pos >= 0, pos < R.nruns, sr(pos) == k)), patterns=[gn]); ps = lambda k: z3.Select(z3.Select(R.lpos, z3.Select(R.gnode, k)), z3.Select(R.gpos, k))
        b = z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < R.nruns), z3.And(sr(l) >= 0, sr(l) < R.N, ps(sr(l)) == l)), patterns=[z3.Select(R.ln, l)])
        le = gha(I, I.st.mem, 'le'); n, j = q('qn', 'qj'); lp = z3.Select(z3.Select(R.lpos, n), j); v = gha(I, I.st.mem, 'vlog'); d = z3.Select(z3.Select(R.cd, n), j)
        known = z3.ForAll([n, j], z3.Implies(z3.And(R.inm(n), j >= 0, j < z3.Select(R.cl, n)), z3.And(lp == z3.Select(le, z3.Select(R.rank, n)) + j, z3.Select(R.status, z3.Select(R.pp, d)) == z3.Select(v, lp), lp >= 0, lp < R.nruns)), patterns=[d])
        out = [('places know their runs', known), pigeon_base(), pigeon_step(), ('selections have different runs', a), ('runs have different selections', b), ('there are as many runs as the components have tests', z3.And(R.nruns == z3.Select(le, R.len), R.nruns >= 0))]
        for n, f in truth(I, I.st.mem, x.up):
            if n == 'there are as many runs as selections':         # by the lemma, applied in both directions
                f = z3.Implies(z3.And(z3.Implies(a, R.N <= R.nruns), z3.Implies(b, R.nruns <= R.N), a, b, R.nruns == z3.Select(le, R.len)), f)
            if n == 'failures of runs are summed up': f = z3.Implies(known, f)
            if n == 'components know their failures': f = z3.Implies(z3.And(list(R.counted())[0][1], part(I, I.st.mem, R, R.cf, None, None)), f) if False else f
            out.append((n, f))
        return out
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec; up = sp.priv(I, this, UT); CRunAll.apply(s, I, fn, this, args, ret, node)
        L, t = sp.cmap(I, up)
        for k in list(I.st.mem):
            if k.startswith((mkey(I, t), L.key)) and z3.is_expr(I.st.mem[k]): I.st.mem[k] = I.fresh(k, I.st.mem[k].sort()); I.st.wlog.add(k)
        I.setgh('allruns', I.gh('allruns') + 1)
        for n, f in truth(I, I.st.mem, up): I.fact(f)
        I.st.px['ran'] = snap44(I, up)
TI = z3.Function('selection_of', IntS, IntS)
def pig(f, g, a, b, *pat):
    k, = q('pk'); return z3.And(b >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a), z3.And(z3.Select(f, k) >= 0, z3.Select(f, k) < b, z3.Select(g, z3.Select(f, k)) == k)), patterns=[z3.Select(f, k)]))
def pigeon_base(): return ('lemma: what can be told apart by b marks is no more than b (start)', z3.Implies(pig(z3.Const('pf', AI), z3.Const('pg', AI), I_(0), z3.Int('pb')), 0 <= z3.Int('pb')))
def pigeon_step():
    "f marks a+1 things with b marks, g reads the marks: then a things can be marked with b-1"
    f, g = z3.Consts('pf pg', AI); a, b = z3.Ints('pa pb'); f2, g2 = z3.Consts('pf2 pg2', AI); k, = q('pk2'); fk = z3.Select(f, k)
    df = z3.ForAll([k], z3.Select(f2, k) == z3.If(fk == b - 1, z3.Select(f, a), fk), patterns=[z3.Select(f2, k)])
    return ('lemma: what can be told apart by b marks is no more than b (step)', z3.Implies(z3.And(a >= 0, pig(f, g, a + 1, b), df, g2 == z3.Store(g, z3.Select(f, a), z3.Select(g, b - 1))), pig(f2, g2, a, b - 1)))
class CPerform44(CPerform):
    def setup(s, I, x):
        UC.setup(s, I, x)
        for g in ('allruns', 'saves'): I.setgh(g, I_(0))
    def post(s, I, x):
        sp = I.spec; want = sp.uf(I, x.up, 'xmlReport', x.old) != EMPTY
        return [('a report is written once, when one is asked for', I.gh('saves') == z3.If(want, I_(1), I_(0))), ('the report asked for is that of the run', sp.uf(I, x.up, 'xmlReport') == sp.uf(I, x.up, 'xmlReport', x.old))]
def plan(tu, prop):
    sp = XmlSpec(tu, prop)
    run, ub, ue = CRun('TestCase::run', TC + '::run'), CUBegin('UnitTest::beginTest', UT + '::beginTest'), CUEnd('UnitTest::endTest', UT + '::endTest'); ra = CRunAll44('UnitTest::runAllTests', UT + '::runAllTests')
    rp = CReport44('UnitTest::report', UT + '::report'); sx = CXml44('UnitTest::saveToXML', UT + '::saveToXML'); tx = CXmlText('the text of the report', '?')
    sp.contracts = [run, ub, ue, ra, rp, sx, tx]
    return sp, [tx, ra, sx, CPerform44('UnitTest::performUnitTests', UT + '::performUnitTests'), rp]
