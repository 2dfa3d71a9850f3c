"""Contracts of the unit test framework: TestCase, UnitTest, TimeLapse, markTime and the check macros.

The body of a test (SetUp, test, TearDown) is anything: its contract lets it record a failure, set the status,
write to the streams, take time, and leave normally or by any exception."""
import re
from core import *
from interp import *
from contract import *
import loops, stdmodel, stdmodel2, stdmodel3
from stdmodel3 import first_of, map_wf, map_order, second, node_of, mkey, inmap, ml
from stdmodel2 import int_str, EMPTY, S, sval, cat, throw_std, NUL
from stdmodel import cstr_val, model, km, ctor
from spec_item import IC
TC, TP, UT, UP, TL = 'falcon::testing::TestCase', 'falcon::testing::TestCase::Private', 'falcon::testing::UnitTest', 'falcon::testing::UnitTest::Private', 'falcon::testing::TimeLapse'
AB = z3.ArraySort(IntS, BoolS); AI = z3.ArraySort(IntS, IntS)
DAY = 24 * 60 * 60 * 1000
FIELDS = {TP: {'name': 'str', 'componentName': 'str', 'caseName': 'str', 'status': 'int', 'outCapture': 'ostr', 'errCapture': 'ostr', 'outCaptureStr': 'str', 'errCaptureStr': 'str', 'outbuf': 'ptr', 'errbuf': 'ptr', 'failDesc': 'str', 'failLine': 'int', 'failFile': 'str', 'lapse': 'rec'},
          TC: {'p': 'ptr'}, UT: {'p': 'ptr'}, TL: {'m_begin': 'int', 'm_end': 'int'},
          UP: {'tests': 'vec', 'testsByName': 'map', 'componentToPerform': 'map', 'testsToPerofm': 'vec', 'xmlReport': 'str', 'unitTestId': 'str', 'unitTestName': 'str', 'status': 'int', 'failedCount': 'int', 'm_capture': 'bool', 'opt_erroutIsFail': 'bool', 'verbosity': 'int', 'lapse': 'rec'}}
NONE, SUCCESS, FAIL, ERROR, STREAM = range(5)
SORTS = {'str': StrS, 'int': IntS, 'ptr': IntS, 'bool': BoolS}
SB = z3.Function('stream_buffer_of', IntS, IntS, IntS); SBW = z3.Function('owner_kind_of_buffer', IntS, IntS); SBP = z3.Function('owner_of_buffer', IntS, IntS)
ENV = {TC + '::SetUp': 'set-up', TC + '::test': 'test', TC + '::TearDown': 'tear-down'}

class FutSpec:
    prove_ms = 6000; peel = 2; plain_heap = ('str',); texts_without_nul = True; opaque_floats = True
    def __init__(s, tu, prop):
        s.tu = tu; s.prop = prop; s.contracts = []; s.missing = []; s.nofail = False
        s.handlers = {'vf::anything': s.h_anything, 'gettimeofday': s.h_tod, 'std::basic_ios::rdbuf': s.h_rdbuf, 'std::basic_ostringstream::rdbuf': s.h_rdbuf, 'std::__cxx11::basic_ostringstream::rdbuf': s.h_rdbuf}
        for q in ENV: s.handlers[q] = s.h_env
        have = {r['n']: {f['n']: f['t'] for f in r.get('fields') or []} for r in tu.recs.values()}
        for c, fs in FIELDS.items():
            for f, k in fs.items():
                if f not in have.get(c, {}) or kind_of(tu, have[c][f]) != k: s.missing.append(c + '::' + f)
    def begin(s, I, x):
        if s.missing: raise Unsupported("members the contracts speak of are gone: " + ', '.join(s.missing))
        I.gh('alive', AB)
    def on(s, *ps): return s.prop in ps
    # ---- access: p is the identity of the private part
    def priv(s, I, this, cls=TC, mem=None): return I.rdraw('%s.%s::p' % (this.key, cls), this.idx, IntS, mem)
    def tf(s, I, p, f, mem=None): return I.rdraw('H.%s::%s' % (TP, f), (p,), SORTS[FIELDS[TP][f]], mem)
    def wtf(s, I, p, f, v): I.wrraw('H.%s::%s' % (TP, f), (p,), SORTS[FIELDS[TP][f]], v)
    def lapse(s, I, p, f, mem=None, cls=TP): return I.rdraw('H.%s::lapse.%s::%s' % (cls, TL, f), (p,), IntS, mem)
    def buf(s, I, p, f, mem=None): return I.rdraw('H.%s::%s.buf' % (TP, f), (p,), StrS, mem)
    def uf(s, I, p, f, mem=None): return I.rdraw('H.%s::%s' % (UP, f), (p,), SORTS[FIELDS[UP][f]], mem)
    def heap_tc(s, I, tc):
        t = next(i for i, T in enumerate(I.tu.types) if T and T['k'] == 'rec' and T['n'] == TC and not T.get('const')); return Loc('H', (tc,), t)
    def on_run(s, I, this, p, v, node):
        I.setgh('nruns', I.gh('nruns') + 1); I.setgh('gfail', I.gh('gfail') + z3.If(v == SUCCESS, I_(0), I_(1)))
    def delete(s, I, e):
        if I.tu.T(e['dt'])['n'] != UT: raise Unsupported("deletion of a " + I.tu.T(e['dt'])['s'])
        I.ev(e['c'][0]); return True
    def ob_filter(s, I, name): return not name.startswith('no signed overflow') or s.prop == 'C46'
    def on_vec_push(s, I, L, n): pass
    def vec_insert_ok(s, I, L): return True
    def on_vec_read(s, I, L, i): pass
    def resolve_virtual(s, I, fn, this, node):
        if strip_targs(fn['qn']) in (TC + '::init', TC + '::destroy'): return fn         # assumed not overridden by tests
        return None
    def loop_cands(s, I, entry, mods, node):
        out = []
        if 'ghost.gfail' in mods and s.on('C40'):
            b = s.unit_key(I)
            if b is not None:
                g = lambda m, f: rd_term(m['H.%s::%s' % (UP, f)], (b,)) if 'H.%s::%s' % (UP, f) in m else None
                out += [('the status is 0 exactly without failures', lambda m: (g(m, 'status') == 0) == (m['ghost.gfail'] == 0)), ('failures are counted', lambda m: g(m, 'failedCount') == m['ghost.gfail']), ('failures are not negative', lambda m: m['ghost.gfail'] >= 0)]
        for o in ('cout', 'cerr'):
            if 'ghost.sb_' + o in mods: out.append(('std::%s is where it was' % o, lambda m, o=o: m['ghost.sb_' + o] == entry.mem['ghost.sb_' + o]))
        if any(k.startswith(s.ckey(I)) for k in mods): out.append(('tests of components exist', lambda m: s.comp_nonnull(I, m)))
        if isinstance(s.current, CParseV): out += s.current.cands(I, mods, entry)
        if isinstance(s.current, CXmlText):
            for k in mods:
                if z3.is_expr(mods[k]) and mods[k].sort() == StrS:
                    out.append((k + ' is fit', lambda m, k=k: safe_text(m[k])))
                    for i in mods:
                        if z3.is_expr(mods[i]) and mods[i].sort() == IntS: out.append(('%s says what is before %s' % (k, i), lambda m, k=k, i=i: match_text(s.xtext, m[k], m[i])))
        for k in mods:
            if k == 'H.%s::status' % UP or k.startswith('ghost.n'): out.append((k + ' unchanged', lambda m, k=k: m[k] == entry.mem[k]))
        return out
    CTESTS = 'falcon::testing::Component::tests'
    def ckey(s, I):
        "where the components of a run are kept"
        t = next(f['t'] for r in I.tu.recs.values() if r['n'] == UP for f in r['fields'] if f['n'] == 'componentToPerform'); return mkey(I, t) + '.second'
    def comp_tests(s, I, m):
        k = s.ckey(I) + '.' + s.CTESTS; out = []
        for suf, so in (('.data', z3.ArraySort(IntS, AI)), ('.len', AI)):
            v = m.get(k + suf)
            if v is None: v = m[k + suf] = I.st.mem.setdefault(k + suf, z3.Const(k + suf + '!0', so))
            out.append(v)
        return out
    def comp_nonnull(s, I, m):
        d, n = s.comp_tests(I, m); a, b = z3.Ints('qn qj'); e = z3.Select(z3.Select(d, a), b)
        return z3.ForAll([a, b], z3.Implies(z3.And(b >= 0, b < z3.Select(n, a)), e >= 1), patterns=[e])
    def vec_nonnull(s, I, up, f, m=None):
        d = I.rdraw('H.%s::%s.data' % (UP, f), (up,), AI, m); n = I.rdraw('H.%s::%s.len' % (UP, f), (up,), IntS, m); i = z3.Int('qi')
        return z3.And(n >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(d, i) >= 1), patterns=[z3.Select(d, i)]))
    def registered(s, I, up):
        "the tests handed to the engine exist"
        for f in ('tests', 'testsToPerofm'): I.fact(s.vec_nonnull(I, up, f))
        k = 'H.%s::p' % TC; v = I.st.mem.setdefault(k, z3.Const(k + '!0', AI)); i = z3.Int('qi'); I.fact(z3.ForAll([i], z3.Select(v, i) >= 1, patterns=[z3.Select(v, i)]))
        t = next(f['t'] for r in I.tu.recs.values() if r['n'] == UP for f in r['fields'] if f['n'] == 'testsByName'); i = z3.Int('qi')
        k = mkey(I, t) + '.second'; v = I.st.mem.setdefault(k, z3.Const(k + '!0', AI)); I.fact(z3.ForAll([i], z3.Select(v, i) >= 1, patterns=[z3.Select(v, i)]))
        I.fact(s.comp_nonnull(I, I.st.mem))
    def on_map_clear(s, I, L, t):
        if mkey(I, t) + '.second' == s.ckey(I): I.st.mem[s.ckey(I) + '.' + s.CTESTS + '.len'] = z3.K(IntS, I_(0)); I.st.wlog.add(s.ckey(I) + '.' + s.CTESTS + '.len')       # nodes outside the map hold nothing
    def unit_key(s, I): return getattr(I.entry, 'up', None) if getattr(I, 'entry', None) is not None else None
    # ---- environment
    def thrown(s, I):
        "any exception, or none"
        if I.choose(I.fresh('throws', BoolS)):
            if I.choose(I.fresh('std_exception', BoolS)):
                w = I.fresh('what', StrS); I.fact(z3.Not(z3.Contains(w, NUL))); I.st.px['what'] = w
                throw_std(I, 'std::runtime_error', w)
            o = [r for r in s.tu.recs.values() if r['n'] == 'vf::Oops']
            t = [i for i, T in enumerate(s.tu.types) if T['k'] == 'rec' and o and T.get('rid') == o[0]['id']] if o else []
            if t and I.choose(I.fresh('oops', BoolS)): I.st.px['oops'] = True; raise CppThrow('vf::Oops', I.new_local('exc', t[0]), t[0])
            raise CppThrow('vf::Error')
    def h_anything(s, I, fn, this, args, ret, node):
        I.setgh('called', I.gh('called') + 1); I.st.px['outcome'] = 'threw'
        s.thrown(I); I.st.px['outcome'] = 'returned'
    def h_tod(s, I, fn, this, args, ret, node):
        "gettimeofday: seconds since the epoch and microseconds below a million, or failure"
        if not s.nofail and I.choose(I.fresh('clock_fails', BoolS)): I.st.px['clockfail'] = True; return I_(-1)
        l = I.deref(args[0], I.tu.T(fn['params'][0]['t'])['to'], node)
        c = I.gh('clock'); sec, u = I.fresh('sec', IntS), I.fresh('usec', IntS)
        I.fact(z3.And(sec >= 0, sec < (1 << 40), u >= 0, u < 1000000, c == sec * 1000 + u / 1000))      # ghost.clock: milliseconds
        I.wrleaf(l, '.timeval::tv_sec', IntS, sec); I.wrleaf(l, '.timeval::tv_usec', IntS, u)
        return I_(0)
    def h_env(s, I, fn, this, args, ret, node):
        "what the body of a set-up, test or tear-down may do"
        w = ENV[strip_targs(fn['qn'])]; px = I.st.px; p = s.priv(I, this)
        if not isinstance(s.current, CRun): raise Unsupported("test code run outside TestCase::run")
        px.setdefault('calls', []).append(w)
        if w == 'test': px['entry clock'] = I.gh('clock'); px['entry begin'] = s.lapse(I, p, 'm_begin')
        c = I.fresh('clock', IntS); I.fact(z3.And(c >= 0, c < (1 << 50))); I.setgh('clock', c)
        for o in ('cout', 'cerr'):
            if o == 'cout' and not s.on('C42'): continue
            t = I.fresh('written_' + o, StrS); px.setdefault('text ' + o, []).append((w, t)); stdmodel2.out_text(I, s.std(I, o), t, node)
        if I.choose(I.fresh('records_a_failure', BoolS)):
            v = I.fresh('recorded', IntS); I.fact(z3.Or(v == FAIL, v == ERROR, v == STREAM)); s.wtf(I, p, 'status', v)
            for f in ('failDesc', 'failFile', 'failLine'): s.wtf(I, p, f, I.fresh(f, SORTS[FIELDS[TP][f]]))
            px.setdefault('recorded', {})[w] = v
        px['err ' + w] = s.buf(I, p, 'errCapture'); px['status ' + w] = s.tf(I, p, 'status'); px['desc ' + w] = s.tf(I, p, 'failDesc')
        if w == 'test': px['exit clock'] = I.gh('clock')
        px.pop('what', None)
        try: s.thrown(I)
        except CppThrow: px.setdefault('threw', {})[w] = px.get('what'); raise
    # ---- streams: ghost.sb_cout and ghost.sb_cerr are the stream buffers of the standard streams
    def std(s, I, name):
        v = [v for v in s.tu.vars.values() if v.get('qn') == 'std::' + name]
        if not v: raise Unsupported("std::%s is not used" % name)
        return Loc('G.std::' + name, (), v[0]['t'])
    def sbid(s, I, which, p):
        v = SB(I_(which), p); I.fact(z3.And(v >= 1, SBW(v) == which, SBP(v) == p)); return v
    def streams(s, I):
        for o in ('cout', 'cerr'):
            l = s.std(I, o); I.wrleaf(l, '.bad', BoolS, FALSE); I.setf(l, '.width', I_(0)); I.setf(l, '.fmt', I_(0)); I.setf(l, '.fill', I_(32))
            I.fact(I.gh('sb_' + o) >= 1)
    def h_rdbuf(s, I, fn, this, args, ret, node):
        if this.key in ('G.std::cout', 'G.std::cerr'):
            g = 'sb_' + this.key[-4:]; o = I.gh(g)
            if args: I.setgh(g, I.val(args[0]))
            return o
        for n, f in enumerate(('outCapture', 'errCapture')):
            if this.key == 'H.%s::%s' % (TP, f) and not args: return s.sbid(I, n + 1, this.idx[0])
        raise Unsupported("stream buffer of " + this.key)
    def fp_to_int(s, I, v, e): return TRUNC(v)             # values in range of int64 (precondition of the approximate checks)
    def stream_target(s, I, os):
        if os.key not in ('G.std::cout', 'G.std::cerr'): return os
        v = I.gh('sb_' + os.key[-4:])
        for n, f in enumerate(('outCapture', 'errCapture')):
            if I.choose(SBW(v) == n + 1): return Loc('H.%s::%s' % (TP, f), (simp(SBP(v)),), os.t)
        return os

class FC(IC):
    def testcase(s, I, x, t=None):
        x.this = Loc('this', (), t or x.fn['cls']); x.p = I.spec.priv(I, x.this); I.fact(x.p >= 1); return x.p
    def values(s, I, x):
        x.args = []; x.vals = []
        for n, p in enumerate(x.fn['params']): a, v = s.arg(I, x, p, n); x.args.append(a); x.vals.append(v)
    def setup(s, I, x): s.testcase(I, x); s.values(I, x)

# ---------------------------------------------------------------- C45: the record of a failed check
REC = ('status', 'failDesc', 'failLine', 'failFile')
def with_value(e, a): return z3.If(a == EMPTY, e, cat(e, S(' (Actually "'), a, S('")')))
def stripped(I, x, p, path):
    b = I.spec.tf(I, p, 'failFile'); n = z3.Length(path) - z3.Length(b)
    return [('the file is named without directories', z3.Not(z3.Contains(b, S('/')))), ('the file is named by the end of its path', z3.SuffixOf(b, path)),
            ('nothing but directories is stripped from the file', z3.Or(n == 0, z3.SubString(path, n - 1, 1) == S('/')))]
def record(I, x, p, desc, path, line):
    sp = I.spec
    return [('the test is marked failed', sp.tf(I, p, 'status') == FAIL), ('the failure text is the condition and the actual value', sp.tf(I, p, 'failDesc') == desc), ('the line is recorded', sp.tf(I, p, 'failLine') == line)] + (stripped(I, x, p, path) if not isinstance(path, str) else [('the file is recorded without directories', sp.tf(I, p, 'failFile') == S(path))])
def untouched(I, x, p):
    return [('a check that holds records nothing', z3.And([I.spec.tf(I, p, f) == I.spec.tf(I, p, f, x.old) for f in REC]))]
class CCheckFail(FC):
    def post(s, I, x):
        path, line, e, a = x.vals
        return record(I, x, x.p, with_value(e, a), path, line)
    def frame(s, I, x): return ['H.%s::%s' % (TP, f) for f in REC]
class CFail(FC):
    def post(s, I, x):
        path, line, e = x.vals; sp = I.spec
        return [('the test is marked failed', sp.tf(I, x.p, 'status') == FAIL), ('the reason is recorded', sp.tf(I, x.p, 'failDesc') == e), ('the line is recorded', sp.tf(I, x.p, 'failLine') == line), ('the file is recorded', sp.tf(I, x.p, 'failFile') == path)]
PROBE = 'vf::Probe::'
BS = lambda v: z3.If(v, S('1'), S('0'))
# name: (line, condition, text of the condition, text of the actual value)
CHECKS = {n: (5001 + k, c, t, a) for k, (n, c, t, a) in enumerate([
 ('eq_int', lambda a, b: a == b, 'a == b', int_str), ('ne_int', lambda a, b: a != b, 'a != b', int_str), ('gt_int', lambda a, b: a > b, 'a > b', int_str), ('ge_int', lambda a, b: a >= b, 'a >= b', int_str),
 ('lt_int', lambda a, b: a < b, 'a < b', int_str), ('le_int', lambda a, b: a <= b, 'a <= b', int_str), ('eq_bool', lambda a, b: a == b, 'a == b', BS), ('ne_bool', lambda a, b: a != b, 'a != b', BS),
 ('eq_str', lambda a, b: a == b, 'a == b', lambda v: v), ('ne_str', lambda a, b: a != b, 'a != b', lambda v: v), ('streq', lambda a, b: a == b, 'std::string(a) == std::string(b)', lambda v: v), ('strne', lambda a, b: a != b, 'std::string(a) != std::string(b)', lambda v: v),
 ('is_true', lambda a: a, 'a should be true', BS), ('is_false', lambda a: z3.Not(a), 'a should be false', BS), ('true_int', lambda a: a != 0, 'a should be true', int_str), ('false_int', lambda a: a == 0, 'a should be false', int_str)])}
class CCheckMacro(FC):
    def targets(s, tu): return [f for f in tu.fns.values() if f.get('body') is not None and f['qn'].startswith(PROBE) and f['n'] in CHECKS]
    def setup(s, I, x):
        FC.setup(s, I, x)
        for v in x.vals:
            if v.sort() == StrS: I.fact(z3.Not(z3.Contains(v, NUL)))
    def post(s, I, x):
        line, cond, text, actual = CHECKS[x.fn['n']]; c = cond(*x.vals)
        return [('when the condition does not hold: ' + n, z3.Implies(z3.Not(c), f)) for n, f in record(I, x, x.p, with_value(S(text), actual(x.vals[-1])), 'probe.cpp', I_(line))] + [(n, z3.Implies(c, f)) for n, f in untouched(I, x, x.p)]
TRUNC = z3.Function('int64_of_double', F64, IntS)
FO = lambda op, a, b: z3.Function('float_' + op, F64, F64, F64)(a, b)      # the arithmetic of doubles is not interpreted here
def close(a, b):
    k = z3.FPVal(10000.0, F64); return TRUNC(FO('*', a, k)) == TRUNC(FO('*', b, k))
nz = lambda v, a, b: z3.If(v != 0, a, b)
# checks on expressions: name: (line, condition, text of the condition or None, text of the actual value)
CHECKS2 = {n: (5021 + k, c, t, a) for k, (n, c, t, a) in enumerate([
 ('float_eq', close, None, None), ('float_ne', lambda a, b: z3.Not(close(a, b)), None, None),
 ('float_sum', lambda a, b, c: close(FO('+', a, b), c), None, None), ('float_diff', lambda a, b, c: z3.Not(close(a, FO('-', b, c))), None, None),
 ('eq_cond', lambda a, b, c: nz(a, b, c) == nz(c, b, a), 'a ? b : c == c ? b : a', lambda a, b, c: int_str(nz(c, b, a))),
 ('true_or', lambda a, b: z3.Or(a, b), 'a || b should be true', lambda a, b: BS(z3.Or(a, b))), ('false_cond', lambda a, b, c: z3.Not(z3.If(a, b, c)), 'a ? b : c should be false', lambda a, b, c: BS(z3.If(a, b, c)))])}
class CCheckExpr(FC):
    "checks on compound expressions, approximate checks, and two checks in a row"
    def targets(s, tu): return [f for f in tu.fns.values() if f.get('body') is not None and f['qn'].startswith(PROBE) and (f['n'] in CHECKS2 or f['n'] == 'two')]
    def post(s, I, x):
        if x.fn['n'] == 'two':
            a, b, c = x.vals; d = [with_value(S(t), int_str(v)) for t, v in (('a == b', b), ('b == c', c))]
            return [('the first failure counts: ' + n, z3.Implies(a != b, f)) for n, f in record(I, x, x.p, d[0], 'probe.cpp', I_(5028))] + [('after a check that holds: ' + n, z3.Implies(z3.And(a == b, b != c), f)) for n, f in record(I, x, x.p, d[1], 'probe.cpp', I_(5028))] + \
                   [(n, z3.Implies(z3.And(a == b, b == c), f)) for n, f in untouched(I, x, x.p)]
        line, cond, text, actual = CHECKS2[x.fn['n']]; c = cond(*x.vals)
        r = record(I, x, x.p, S(text) if actual is None and text else with_value(S(text), actual(*x.vals)) if text else I.spec.tf(I, x.p, 'failDesc'), 'probe.cpp', I_(line))
        return [('when the condition does not hold: ' + n, z3.Implies(z3.Not(c), f)) for n, f in r] + [(n, z3.Implies(c, f)) for n, f in untouched(I, x, x.p)]
class CThrowMacro(FC):
    LINES = {'message': 5017, 'throws': 5018, 'throws_any': 5019, 'throws_not': 5020}
    def targets(s, tu): return [f for f in tu.fns.values() if f.get('body') is not None and f['qn'].startswith(PROBE) and f['n'] in s.LINES]
    def post(s, I, x, exc=None):
        n = x.fn['n']; rec = lambda d: record(I, x, x.p, d, 'probe.cpp', I_(s.LINES[n])); px = I.st.px
        if n == 'message': return rec(S('any text'))
        out = [('the expression is evaluated once', I.gh('called') == I.gh('called', IntS, x.old) + 1)]
        ret = px.get('outcome') == 'returned'
        if exc is not None: return out + [('only another exception than the expected one goes through', z3.BoolVal(n == 'throws' and not px.get('oops') and not ret))] + untouched(I, x, x.p)
        if n == 'throws': return out + (rec(S("Expected exception of type Oops wasn't thrown")) if ret else [('another exception is not taken for the expected one', z3.BoolVal(bool(px.get('oops'))))] + untouched(I, x, x.p))
        if n == 'throws_any': return out + (rec(S('No throw when any throw was expected')) if ret else untouched(I, x, x.p))
        if ret: return out + untouched(I, x, x.p)
        return out + rec(cat(S('Exception thrown: " '), px['what'], S('"')) if 'what' in px else S('Unknown exception thrown'))
    def post_exc(s, I, x): return s.post(I, x, x.exc)

# ---------------------------------------------------------------- a test is run
class CRun(FC):
    "TestCase::run with test code that may do anything"
    def setup(s, I, x):
        sp = I.spec; sp.nofail = True; p = s.testcase(I, x); x.args = []; sp.streams(I); c = I.gh('clock'); I.fact(z3.And(c >= 0, c < (1 << 50)))
        I.fact(z3.And([sp.tf(I, p, 'status') >= 0, sp.tf(I, p, 'status') < 5]))
        I.wrraw('H.%s::errCapture.bad' % TP, (p,), BoolS, FALSE); I.wrraw('H.%s::outCapture.bad' % TP, (p,), BoolS, FALSE)
        I.wrraw('H.%s::errCapture.buf' % TP, (p,), StrS, EMPTY); I.wrraw('H.%s::outCapture.buf' % TP, (p,), StrS, EMPTY)     # as TestCase::beginTest leaves them
        x.cap = I.choose(I.fresh('capturing', BoolS))
        for n, o in enumerate(('cout', 'cerr')):
            if x.cap: I.setgh('sb_' + o, sp.sbid(I, n + 1, p))
            else: I.fact(SBW(I.gh('sb_' + o)) == 0)
    def post(s, I, x):
        sp = I.spec; px = I.st.px; p = x.p; calls = px.get('calls', []); threw = px.get('threw', {}); rec = px.get('recorded', {}); out = []
        st = sp.tf(I, p, 'status'); desc = sp.tf(I, p, 'failDesc')
        exp = ['set-up'] if 'set-up' in threw else ['set-up', 'test', 'tear-down']
        if sp.on('C40', 'C45', 'C46'): out.append(('a completed set-up is followed by the test and one tear-down', z3.BoolVal(calls == exp)))
        if calls != exp: return out
        wrote = [t for w, t in px.get('text cerr', []) if w == 'tear-down']
        quiet = wrote[0] == EMPTY if wrote and x.cap else TRUE        # a verdict on what a tear-down writes is not claimed
        if sp.on('C40'):
            out.append(('a run ends with a verdict', z3.And(st > NONE, st <= STREAM)))
            if 'tear-down' in threw or threw and 'tear-down' not in rec: out.append(('a test that throws does not pass', st == ERROR))
            elif threw: out.append(('a test that throws does not pass', st != SUCCESS))
            elif 'tear-down' in rec: out.append(('a failure recorded by the tear-down is the verdict', st == rec['tear-down']))
            elif 'test' in rec or 'set-up' in rec: out.append(('a recorded failure is the verdict', st == rec.get('test', rec.get('set-up'))))
            else: out.append(('without failure and exception the error stream decides', z3.Implies(quiet, st == z3.If(px['err test'] == EMPTY, I_(SUCCESS), I_(STREAM)))))
        if sp.on('C45'):
            whats = [w for w in threw.values() if w is not None]
            if threw and len(whats) == len(threw) and 'tear-down' not in rec: out.append(('the message of an exception is the description', z3.Or([desc == w for w in whats])))
            if not threw and not rec: out.append(('a run without failures has no failure text', z3.And(desc == EMPTY, sp.tf(I, p, 'failFile') == EMPTY)))
            if threw and not rec: out.append(('an exception has no place', sp.tf(I, p, 'failFile') == EMPTY))
            if not threw and rec: 
                w = [w for w in ('tear-down', 'test', 'set-up') if w in rec][0]; out.append(('the recorded text stays', desc == px['desc ' + w]))
        if sp.on('C46') and 'test' in calls:
            b, e = sp.lapse(I, p, 'm_begin'), sp.lapse(I, p, 'm_end')
            out += [('the begin is the clock when the body started', b == px['entry clock']), ('the end is the clock when the body ended', e == px['exit clock'])]
        if sp.on('C42'):
            for n, o in enumerate(('cout', 'cerr')):
                l = sp.std(I, o); old = I.rdleaf(l, '.buf', StrS, x.old); txt = cat(*([EMPTY] + [t for w, t in px.get('text ' + o, [])])); cb = sp.buf(I, p, 'errCapture' if n else 'outCapture')
                out.append(('the run leaves std::%s where it is' % o, I.gh('sb_' + o) == I.gh('sb_' + o, IntS, x.old)))
                if x.cap: out += [('what the test wrote on std::%s is captured' % o, cb == txt), ('nothing the test wrote reaches the real std::%s' % o, I.rdleaf(l, '.buf', StrS) == old)]
                else: out += [('without capturing std::%s takes what the test writes' % o, I.rdleaf(l, '.buf', StrS) == cat(old, txt)), ('without capturing nothing of std::%s is captured' % o, cb == EMPTY)]
        return out
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec; p = sp.priv(I, this); I.fact(p >= 1)
        for f in ('outCapture', 'errCapture'): I.ob('a test is run with nothing captured before', sp.buf(I, p, f) == EMPTY, node)
        for f in ('failDesc', 'failLine', 'failFile'): sp.wtf(I, p, f, I.fresh(f, SORTS[FIELDS[TP][f]]))
        v = I.fresh('verdict', IntS); I.fact(z3.And(v > NONE, v <= STREAM)); sp.wtf(I, p, 'status', v)
        for n, o in enumerate(('cout', 'cerr')):
            w = I.fresh('written_' + o, StrS)
            if I.choose(SBW(I.gh('sb_' + o)) == n + 1):
                q = simp(SBP(I.gh('sb_' + o))); k = 'H.%s::%s.buf' % (TP, 'errCapture' if n else 'outCapture'); I.wrraw(k, (q,), StrS, cat(I.rdraw(k, (q,), StrS), w))
            else: l = sp.std(I, o); I.wrleaf(l, '.buf', StrS, cat(I.rdleaf(l, '.buf', StrS), w))
        b, e = I.fresh('begin', IntS), I.fresh('end', IntS); I.fact(z3.And(b >= 0, b < (1 << 50), e >= 0, e < (1 << 50)))
        I.wrraw('H.%s::lapse.%s::m_begin' % (TP, TL), (p,), IntS, b); I.wrraw('H.%s::lapse.%s::m_end' % (TP, TL), (p,), IntS, e)
        sp.on_run(I, this, p, v, node)
class CTBegin(FC):
    def setup(s, I, x): s.testcase(I, x); I.spec.streams(I); s.values(I, x)
    def post(s, I, x):
        sp = I.spec; p = x.p; cap = x.vals[0]; out = []
        if sp.on('C40', 'C42'): out += [('the captured error output starts empty', sp.buf(I, p, 'errCapture') == EMPTY), ('the captured output starts empty', z3.And(sp.buf(I, p, 'outCapture') == EMPTY, sp.tf(I, p, 'outCaptureStr') == EMPTY, sp.tf(I, p, 'errCaptureStr') == EMPTY))]
        if sp.on('C42'):
            for n, o in enumerate(('cout', 'cerr')):
                g = I.gh('sb_' + o); g0 = I.gh('sb_' + o, IntS, x.old)
                out += [('std::%s is captured by this test when capturing' % o, z3.Implies(cap, g == sp.sbid(I, n + 1, p))), ('the buffer of std::%s is kept for the end' % o, z3.Implies(cap, sp.tf(I, p, 'errbuf' if n else 'outbuf') == g0)), ('std::%s is not replaced without capturing' % o, z3.Implies(z3.Not(cap), g == g0)),
                        ('nothing is written on std::%s' % o, I.rdleaf(sp.std(I, o), '.buf', StrS) == I.rdleaf(sp.std(I, o), '.buf', StrS, x.old))]
        return out
class CTEnd(FC):
    def setup(s, I, x):
        sp = I.spec; s.testcase(I, x); sp.streams(I); s.values(I, x)
        for n, c in (('outCapture', 'outCaptureStr'), ('errCapture', 'errCaptureStr')):         # as beginTest leaves them
            I.fact(z3.Implies(z3.Not(x.vals[0]), z3.And(sp.buf(I, x.p, n) == EMPTY, sp.tf(I, x.p, c) == EMPTY)))
    def post(s, I, x):
        sp = I.spec; p = x.p; cap = x.vals[0]; out = []
        for n, o in enumerate(('cout', 'cerr')):
            g = I.gh('sb_' + o); g0 = I.gh('sb_' + o, IntS, x.old)
            out += [('std::%s is restored when capturing' % o, z3.Implies(cap, g == sp.tf(I, p, 'errbuf' if n else 'outbuf', x.old))), ('std::%s is not replaced without capturing' % o, z3.Implies(z3.Not(cap), g == g0)),
                    ('what was captured from std::%s is kept' % o, sp.tf(I, p, 'errCaptureStr' if n else 'outCaptureStr') == sp.buf(I, p, 'errCapture' if n else 'outCapture', x.old))]
        return out

# ---------------------------------------------------------------- UnitTest
class UC(FC):
    "a method of the unit test engine"
    nargs = 0
    def setup(s, I, x):
        sp = I.spec; sp.nofail = True; x.this = Loc('this', (), x.fn['cls']); x.up = sp.priv(I, x.this, UT); I.fact(x.up >= 1); sp.streams(I)
        for o in ('cout', 'cerr'): I.fact(SBW(I.gh('sb_' + o)) == 0)
        sp.registered(I, x.up); c = I.gh('clock'); I.fact(z3.And(c >= 0, c < (1 << 50))); v = sp.uf(I, x.up, 'verbosity'); I.fact(z3.And(v >= 0, v <= 5))
        I.setgh('nruns', I_(0)); I.setgh('gfail', I_(0)); x.args = []
        for n, p in enumerate(x.fn['params']):
            t = p['t']; k = I.kind(t)
            if k == 'ptr' or k == 'rec' or I.tu.T(t)['k'] == 'ptr' and k != 'cstr': v = I.fresh('test', IntS); I.fact(v >= 1); x.tc = v; x.args.append(v); x.tp = sp.priv(I, sp.heap_tc(I, v)); I.fact(x.tp >= 1)
            else: a, v = s.arg(I, x, p, n); x.args.append(a)
    def same_streams(s, I, x): return [('std::%s is where it was' % o, I.gh('sb_' + o) == I.gh('sb_' + o, IntS, x.old)) for o in ('cout', 'cerr')]
    def keeps(s, I, x, *fs): return [('the unit test keeps its ' + f, I.spec.uf(I, x.up, f) == I.spec.uf(I, x.up, f, x.old)) for f in fs]
    def clobber_cout(s, I, *os):
        for o in os or ('cout',): l = I.spec.std(I, o); I.wrleaf(l, '.buf', StrS, I.fresh('shown', StrS))
def statuses(I, mem): 
    k = 'H.%s::status' % TP; v = mem.get(k)
    if v is None: v = mem[k] = I.st.mem.setdefault(k, z3.Const(k + '!0', AI))
    return v
class CUBegin(UC):
    def post(s, I, x):
        sp = I.spec; out = [('the test starts without a verdict', statuses(I, I.st.mem) == z3.Store(statuses(I, x.old), x.tp, I_(NONE))), ('nothing captured before is left', z3.And(sp.buf(I, x.tp, 'errCapture') == EMPTY, sp.buf(I, x.tp, 'outCapture') == EMPTY))] + s.keeps(I, x, 'status', 'failedCount', 'm_capture')
        cap = sp.uf(I, x.up, 'm_capture', x.old)
        for n, o in enumerate(('cout', 'cerr')):
            g, g0 = I.gh('sb_' + o), I.gh('sb_' + o, IntS, x.old)
            out += [('std::%s is captured by this test when capturing' % o, z3.Implies(cap, z3.And(g == sp.sbid(I, n + 1, x.tp), sp.tf(I, x.tp, 'errbuf' if n else 'outbuf') == g0))), ('std::%s is not replaced without capturing' % o, z3.Implies(z3.Not(cap), g == g0))]
        return out
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec; up = sp.priv(I, this, UT); tp = sp.priv(I, sp.heap_tc(I, I.val(args[1]))); I.fact(tp >= 1)
        for o in ('cout', 'cerr'): I.ob('no test captures the streams when another one begins', SBW(I.gh('sb_' + o)) == 0, node)
        s.clobber_cout(I); sp.wtf(I, tp, 'status', I_(NONE))
        for f in ('outCapture', 'errCapture'): I.wrraw('H.%s::%s.buf' % (TP, f), (tp,), StrS, EMPTY); sp.wtf(I, tp, f + 'Str', EMPTY)
        if I.choose(sp.uf(I, up, 'm_capture')):
            for n, o in enumerate(('cout', 'cerr')): sp.wtf(I, tp, 'errbuf' if n else 'outbuf', I.gh('sb_' + o)); I.setgh('sb_' + o, sp.sbid(I, n + 1, tp))
class CUEnd(UC):
    def setup(s, I, x):
        UC.setup(s, I, x); sp = I.spec; x.cap = I.choose(sp.uf(I, x.up, 'm_capture')); v = sp.tf(I, x.tp, 'status'); I.fact(z3.And(v >= NONE, v <= STREAM))
        for n, o in enumerate(('cout', 'cerr')):
            if x.cap: I.setgh('sb_' + o, sp.sbid(I, n + 1, x.tp)); v = sp.tf(I, x.tp, 'errbuf' if n else 'outbuf'); I.fact(z3.And(v >= 1, SBW(v) == 0))
            else: I.fact(z3.And(sp.buf(I, x.tp, 'errCapture' if n else 'outCapture') == EMPTY, sp.tf(I, x.tp, 'errCaptureStr' if n else 'outCaptureStr') == EMPTY))
        for f in ('m_begin', 'm_end'): v = sp.lapse(I, x.tp, f); I.fact(z3.And(v >= 0, v < (1 << 50)))
    def post(s, I, x):
        sp = I.spec; out = [('no verdict changes', statuses(I, I.st.mem) == statuses(I, x.old))] + s.keeps(I, x, 'status', 'failedCount', 'm_capture')
        for n, o in enumerate(('cout', 'cerr')):
            g, g0 = I.gh('sb_' + o), I.gh('sb_' + o, IntS, x.old)
            out += [('std::%s is restored' % o, g == (sp.tf(I, x.tp, 'errbuf' if n else 'outbuf', x.old) if x.cap else g0)), ('what was captured from std::%s is kept' % o, sp.tf(I, x.tp, 'errCaptureStr' if n else 'outCaptureStr') == sp.buf(I, x.tp, 'errCapture' if n else 'outCapture', x.old))]
        return out
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec; up = sp.priv(I, this, UT); tp = sp.priv(I, sp.heap_tc(I, I.val(args[1])))
        cap = I.choose(sp.uf(I, up, 'm_capture'))
        for n, o in enumerate(('cout', 'cerr')):
            if cap:
                b = sp.tf(I, tp, 'errbuf' if n else 'outbuf'); I.ob('the test that ends is the one that captures std::' + o, z3.And(I.gh('sb_' + o) == sp.sbid(I, n + 1, tp), b >= 1, SBW(b) == 0), node); I.setgh('sb_' + o, b)
            sp.wtf(I, tp, 'errCaptureStr' if n else 'outCaptureStr', sp.buf(I, tp, 'errCapture' if n else 'outCapture'))
        s.clobber_cout(I)
class CPassed(UC):
    def setup(s, I, x): UC.setup(s, I, x); v = I.spec.tf(I, x.tp, 'status'); I.fact(z3.And(v >= NONE, v <= STREAM))
    def post(s, I, x): return [('a test passed exactly when its verdict is success', x.ret == (I.spec.tf(I, x.tp, 'status') == SUCCESS)), ('no verdict changes', statuses(I, I.st.mem) == statuses(I, x.old))] + s.keeps(I, x, 'status', 'failedCount')
class CPerformTest(UC):
    def post(s, I, x):
        sp = I.spec; st = I.gh('gfail') == 0
        return [('one test is run', I.gh('nruns') == 1), ('zero exactly when the test passed', (x.ret == 0) == st)] * sp.on('C40') + s.same_streams(I, x) * sp.on('C42')
    def post_exc(s, I, x): return [('an unknown test is an error before anything is run', z3.And(z3.BoolVal(x.exc.tname == 'std::runtime_error'), I.gh('nruns') == 0))] * I.spec.on('C40') + s.same_streams(I, x) * I.spec.on('C42')
class CRunAll(UC):
    def setup(s, I, x):
        UC.setup(s, I, x); sp = I.spec; I.wrraw('H.%s::status' % UP, (x.up,), IntS, I_(0)); I.wrraw('H.%s::failedCount' % UP, (x.up,), IntS, I_(0))
    def post(s, I, x):
        sp = I.spec; return [('the status is 0 exactly when no test failed', (sp.uf(I, x.up, 'status') == 0) == (I.gh('gfail') == 0)), ('failed runs are counted', sp.uf(I, x.up, 'failedCount') == I.gh('gfail'))] * sp.on('C40') + s.same_streams(I, x) * sp.on('C42')
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec; up = sp.priv(I, this, UT)
        if sp.on('C40'): I.ob('a run starts without failures', z3.And(sp.uf(I, up, 'status') == 0, sp.uf(I, up, 'failedCount') == 0, I.gh('gfail') == 0), node)
        n = I.fresh('failed', IntS); I.fact(n >= 0); I.setgh('gfail', n); I.setgh('nruns', I.fresh('runs', IntS)); v = I.fresh('status', IntS); I.fact((v == 0) == (n == 0)); I.rng(v, 'int') if False else None
        I.fact(z3.And(v >= -(1 << 31), v < (1 << 31)))
        I.wrraw('H.%s::status' % UP, (up,), IntS, v); I.wrraw('H.%s::failedCount' % UP, (up,), IntS, n); s.clobber_cout(I)
        for f in FIELDS[TP]:
            k = 'H.%s::%s' % (TP, f)
            for kk in list(I.st.mem):
                if kk == k or kk.startswith(k + '.'): I.st.mem[kk] = I.fresh(kk, I.st.mem[kk].sort()); I.st.wlog.add(kk)
class CShow(UC):
    "reports and the XML file change nothing but what they write"
    def post(s, I, x): return [('no verdict changes', statuses(I, I.st.mem) == statuses(I, x.old))] + s.keeps(I, x, 'status', 'failedCount') + s.same_streams(I, x)
    def apply(s, I, fn, this, args, ret, node): s.clobber_cout(I, 'cout', 'cerr')
class CPerform(UC):
    def post(s, I, x): return [('zero exactly when every performed test passed', (x.ret == 0) == (I.gh('gfail') == 0))] * I.spec.on('C40') + s.same_streams(I, x) * I.spec.on('C42')
    def apply(s, I, fn, this, args, ret, node):
        I.setgh('performed', I.gh('performed') + 1); v = I.fresh('result', IntS); I.rng(v, fn['ret']); I.setgh('result', v); I.setgh('nruns', I.fresh('runs', IntS)); s.clobber_cout(I, 'cout', 'cerr')
        return v
class CParse(UC):
    def apply(s, I, fn, this, args, ret, node):
        a = args[1]; ex = I.entry
        if getattr(ex, 'argc', None) is not None and ex.fn['n'] == 'main':
            I.ob('the options read are the arguments after the program name, and override its name', z3.And(I.gh('ndetected') == 1, I.val(args[0]) == ex.argc - 1, a.loc.idx[0] == 1 if isinstance(a, PyPtr) and a.loc.key == '$argv.data' else FALSE), node)
        v = I.fresh('parsed', IntS); I.rng(v, fn['ret']); I.setgh('parsed', v); I.setgh('nparsed', I.gh('nparsed') + 1); s.clobber_cout(I, 'cout', 'cerr'); return v
class CDetect(UC):
    def apply(s, I, fn, this, args, ret, node):
        I.ob('the default name is taken from the program name', sval(I, args[0]) == z3.Select(z3.Const('$argv', z3.ArraySort(IntS, StrS)), I_(0)), node)
        I.setgh('ndetected', I.gh('ndetected') + 1)
class CMain(UC):
    def setup(s, I, x):
        x.this = Loc('this', (), x.fn['cls']); sp = I.spec; x.up = sp.priv(I, x.this, UT); I.fact(x.up >= 1); sp.streams(I); sp.registered(I, x.up)
        for g in ('nruns', 'performed', 'nparsed', 'result', 'parsed', 'ndetected'): I.setgh(g, I_(0))
        n = I.fresh('argc', IntS); I.fact(z3.And(n >= 0, n < 1 << 20)); x.argc = n; x.args = [n, argv(I, x.fn['params'][1]['t'])]
    def post(s, I, x):
        out = [('tests are performed at most once', z3.And(I.gh('performed') >= 0, I.gh('performed') <= 1)), ('refused options run nothing and give a non-zero result', z3.Implies(I.gh('parsed') != 0, z3.And(I.gh('performed') == 0, x.ret != 0)))]
        return out + [('the exit code is the result of performing the tests', z3.Implies(I.gh('parsed') == 0, z3.And(I.gh('performed') == 1, x.ret == I.gh('result')))), ('options are read when there are any', (I.gh('nparsed') == 1) == (x.argc > 0)), ('the default name is set once, when there is a program name', I.gh('ndetected') == z3.If(x.argc > 0, I_(1), I_(0)))]
class CProgram(UC):
    "the program: its exit code is the result of the engine's main"
    def targets(s, tu): return [f for f in tu.fns.values() if f['qn'] in ('main', 'vf::a_main::main') and f.get('body') is not None]
    def setup(s, I, x):
        x.this = None; n = I.fresh('argc', IntS); I.fact(z3.And(n >= 1, n < 1 << 20)); x.args = [n, argv(I, x.fn['params'][1]['t'])]; x.argc = n
    def post(s, I, x):
        r = I.st.px.get('ran', []); return [('the engine is run once', z3.BoolVal(len(r) == 1))] + [(n, f) for u, n0, v, res in r[:1] for n, f in (('the engine that is run is the one tests register with', u), ('the arguments are those of the program', z3.And(n0 == x.argc, v)), ('the exit code is the result of the run', x.ret == res))]
class CEngineMain(UC):
    def apply(s, I, fn, this, args, ret, node):
        a = args[1]; v = I.fresh('result', IntS); I.rng(v, fn['ret'])
        I.st.px.setdefault('ran', []).append((simp(this.idx[0]) == z3.Int('the_engine') if this.idx else FALSE, I.val(args[0]), z3.And(z3.BoolVal(a.loc.key == '$argv.data'), a.loc.idx[0] == 0) if isinstance(a, PyPtr) else FALSE, v)); return v
class CEngine(UC):
    def apply(s, I, fn, this, args, ret, node): v = z3.Int('the_engine'); I.fact(v >= 1); return v
def argv(I, t):
    et = I.tu.T(t)['to']; A = z3.ArraySort(IntS, StrS); I.st.mem['$argv.data'] = z3.Const('$argv', A); return PyPtr(Loc('$argv.data', (I_(0),), et))
# ---------------------------------------------------------------- C43: options
from stdmodel3 import PARSES_INT, INT_OF
OPTS = {'verbosity': IntS, 'm_capture': BoolS, 'opt_erroutIsFail': BoolS, 'xmlReport': StrS, 'unitTestName': StrS, 'unitTestId': StrS, 'len': IntS, 'data': AI}
AT = {k: z3.Function('after_' + k, IntS, so) for k, so in OPTS.items()}
BND = z3.Function('option_starts', IntS, BoolS); REFUSED = z3.Function('option_refused', IntS, BoolS); TRIG = z3.Function('looked_at', IntS, BoolS)
class CParseV(CParse):
    "parseParams: what the options of every prefix of the arguments set, by the help text"
    def optkey(s, f): return 'H.%s::testsToPerofm.%s' % (UP, f) if f in ('len', 'data') else 'H.%s::%s' % (UP, f)
    def setup(s, I, x):
        UC.setup(s, I, x) if False else None
        sp = I.spec; x.this = Loc('this', (), x.fn['cls']); x.up = sp.priv(I, x.this, UT); I.fact(x.up >= 1); sp.streams(I); sp.registered(I, x.up)
        for o in ('cout', 'cerr'): I.fact(SBW(I.gh('sb_' + o)) == 0)
        n = I.fresh('argc', IntS); I.fact(z3.And(n >= 0, n < 1 << 20)); x.argc = n; x.args = [n, argv(I, x.fn['params'][1]['t'])]; A = I.st.mem['$argv.data']
        q = z3.Int('q_arg'); I.fact(z3.ForAll([q], TRIG(q), patterns=[TRIG(q)])); s.argc = n
        for k, so in OPTS.items(): I.fact(AT[k](I_(0)) == I.rdraw(s.optkey(k), (x.up,), so))
        I.fact(BND(I_(0)))
        t = next(f['t'] for r in I.tu.recs.values() if r['n'] == UP for f in r['fields'] if f['n'] == 'testsByName'); L = Loc('H.%s::testsByName' % UP, (x.up,), t)
        by = ml(I, I.st.mem, L, '.byk'); tests = I.st.mem[mkey(I, t) + '.second']
        a, b = z3.Select(A, q), z3.Select(A, q + 1); more = q + 1 < n; cases = []
        def sets(to, **kw): return z3.And([BND(to)] + [AT[k](to) == kw.get(k, AT[k](q)) for k in OPTS])
        cases.append((a == S('-q'), sets(q + 1, verbosity=I_(0)))); cases.append((a == S('-c'), sets(q + 1, m_capture=FALSE))); cases.append((a == S('-e'), sets(q + 1, opt_erroutIsFail=TRUE)))
        two = lambda **kw: z3.And(sets(q + 2, **kw), z3.Not(BND(q + 1)))
        cases.append((z3.And(a == S('-v'), more, PARSES_INT(b), INT_OF(b) >= 0, INT_OF(b) <= 5), two(verbosity=INT_OF(b))))
        node = z3.Select(by, b); cases.append((z3.And(a == S('-t'), more, node != 0), two(len=AT['len'](q) + 1, data=z3.Store(AT['data'](q), AT['len'](q), z3.Select(tests, node)))))
        for o, f in (('-x', 'xmlReport'), ('-n', 'unitTestName'), ('-i', 'unitTestId')): cases.append((z3.And(a == S(o), more), two(**{f: b})))
        ax = [z3.Implies(c, z3.And(e, z3.Not(REFUSED(q)))) for c, e in cases] + [z3.Implies(z3.And([z3.Not(c) for c, e in cases]), z3.And(REFUSED(q), z3.Not(BND(q + 1)), z3.Not(BND(q + 2))))]
        I.fact(z3.ForAll([q], z3.Implies(z3.And(BND(q), q >= 0, q < n), z3.And(ax)), patterns=[TRIG(q)]))
    def cands(s, I, mods, entry):
        out = []; up = I.entry.up
        g = lambda m, k: m[k] if k in m else entry.mem[k]
        for i in mods:
            if not (z3.is_expr(mods[i]) and mods[i].sort() == IntS and i.startswith('$')): continue
            out.append(('an option starts at ' + i, lambda m, i=i: z3.And(TRIG(m[i]), BND(m[i]))))
            for k in OPTS: out.append(('%s is what the options before %s say' % (k, i), lambda m, i=i, k=k: z3.Select(g(m, s.optkey(k)), up) == AT[k](m[i])))
        return out
    def post(s, I, x):
        q = z3.Int('q_arg'); sp = I.spec
        return [('the options are accepted only when all of them are understood', z3.Implies(x.ret == 0, BND(x.argc)))] + [('accepted options set ' + k, z3.Implies(x.ret == 0, I.rdraw(s.optkey(k), (x.up,), so) == AT[k](x.argc))) for k, so in OPTS.items()] + [('options are refused only for one that is not understood', z3.Implies(x.ret != 0, z3.Exists([q], z3.And(q >= 0, q < x.argc, BND(q), REFUSED(q))))), ('no test is run', I.gh('nruns') == I.gh('nruns', IntS, x.old))]
class CDetectV(CDetect):
    def setup(s, I, x):
        sp = I.spec; x.this = Loc('this', (), x.fn['cls']); x.up = sp.priv(I, x.this, UT); I.fact(x.up >= 1); s.values(I, x)
    def post(s, I, x):
        sp = I.spec; e = x.vals[0]; n = sp.uf(I, x.up, 'unitTestName'); r = stdmodel2.last_index(I, e, S('/')); k = z3.Length(n)
        return [('id and name are the same', sp.uf(I, x.up, 'unitTestId') == n), ('the name has no directories', z3.Not(z3.Contains(n, S('/')))), ('the name has no extension', z3.Not(z3.Contains(n, S('.')))), ('the name starts after the last directory', z3.SubString(e, r + 1, k) == n), ('the name goes on up to the extension', z3.Or(r + 1 + k == z3.Length(e), z3.SubString(e, r + 1 + k, 1) == S('.')))] + [('the unit test keeps its ' + f, sp.uf(I, x.up, f) == sp.uf(I, x.up, f, x.old)) for f in ('status', 'verbosity', 'm_capture', 'opt_erroutIsFail', 'xmlReport')]
class CInit(UC):
    "a new engine: the settings without options"
    def targets(s, tu): return [f for f in tu.fns.values() if f.get('ctor') and f['qn'] == UT + '::UnitTest' and not f.get('params')]
    def setup(s, I, x): x.this = Loc('this', (), x.fn['cls']); x.args = []
    def post(s, I, x):
        sp = I.spec; up = sp.priv(I, x.this, UT)
        return [('output is captured unless -c is given', sp.uf(I, up, 'm_capture')), ('-e is off', z3.Not(sp.uf(I, up, 'opt_erroutIsFail'))), ('no report is written unless -x is given', sp.uf(I, up, 'xmlReport') == EMPTY), ('no test is selected', I.rdraw('H.%s::testsToPerofm.len' % UP, (up,), IntS) == 0), ('the verbosity is one of the levels', z3.And(sp.uf(I, up, 'verbosity') >= 0, sp.uf(I, up, 'verbosity') <= 5))]
class CSilentBegin(CUBegin):
    def post(s, I, x): return [('a silent run shows nothing', z3.Implies(I.spec.uf(I, x.up, 'verbosity', x.old) == 0, I.rdleaf(I.spec.std(I, 'cout'), '.buf', StrS) == I.rdleaf(I.spec.std(I, 'cout'), '.buf', StrS, x.old)))]
class CSilentEnd(CUEnd):
    post = CSilentBegin.post
class CSilentShow(CShow):
    post = CSilentBegin.post
# ---------------------------------------------------------------- C44: the report
class CXmlText(FC):
    "the function that makes a text fit for the report, whatever its name"
    def match(s, tu, fn):
        P = fn.get('params', []); return fn.get('body') is not None and fn['qn'].startswith('falcon::testing::') and not fn.get('method') and fn.get('cls') is None and fn.get('ret') is not None and kind_of(tu, fn['ret']) == 'str' and len(P) == 1 and kind_of(tu, tu.deref(P[0]['t'])) in ('str', 'cstr')
    def targets(s, tu): return [f for f in tu.fns.values() if s.match(tu, f)]
    def setup(s, I, x): x.this = None; s.values(I, x); I.spec.xtext = x.vals[0]
    def post(s, I, x):
        r = I.rdleaf(Loc('$result'), '', StrS); t = x.vals[0]
        return [('the text cannot leave its attribute or element', safe_text(r)), ('the text is kept, character by character', match_text(t, r, z3.Length(t)))]
    def apply(s, I, fn, this, args, ret, node):
        l = ret if ret is not None else I.new_local('xml', fn['ret']); I.wrleaf(l, '', StrS, ESC(sval(I, args[0]))); return l
# what a text is made of, as far as it was built here: the rest is opaque
ESC = z3.Function('fit_for_xml', StrS, StrS); SAFE = z3.Function('fit', StrS, BoolS); MATCH = z3.Function('says', StrS, StrS, IntS, BoolS)
def pieces(t):
    t = simp(t)
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return [p for c in t.children() for p in pieces(c)]
    return [] if t.eq(EMPTY) else [t]
def literal(t): return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), t.as_string()) if z3.is_string_value(t) else None
ENTITY = {'&amp;': '&', '&lt;': '<', '&gt;': '>', '&quot;': '"', '&apos;': "'"}
def tokens(s):
    "characters and entities of a literal, None when it is not fit for XML"
    out = []
    while s:
        m = re.match(r'&(#\d+|#x[0-9a-fA-F]+|\w+);', s)
        if m:
            e = m.group(1); c = ENTITY.get(m.group(0)) if e[0] != '#' else chr(int(e[2:], 16) if e[1] == 'x' else int(e[1:]))
            if c is None or e[0] == '#' and ord(c) < 32 and c not in '\t\n\r': return None
            out.append(c); s = s[m.end():]
        elif s[0] in '&<>"' or ord(s[0]) < 32 and s[0] not in '\t\n\r': return None
        else: out.append(s[0]); s = s[1:]
    return out
def code_of(t): return t.arg(0) if t.decl().kind() == z3.Z3_OP_STR_FROM_CODE else None
def safe_code(c): return z3.And([c != ord(q) for q in '&<>"'] + [z3.Or(c >= 32, c == 9, c == 10, c == 13)])
def safe_text(t):
    out = []
    lit = ''
    for p in pieces(t) + [None]:
        if p is not None and literal(p) is not None: lit += literal(p); continue
        if tokens(lit) is None: return FALSE
        lit = ''
        if p is None: break
        if p.decl().kind() == z3.Z3_OP_ITE: out.append(z3.And(z3.Implies(p.arg(0), safe_text(p.arg(1))), z3.Implies(z3.Not(p.arg(0)), safe_text(p.arg(2)))))
        elif code_of(p) is not None: out.append(safe_code(code_of(p)))
        else: out.append(SAFE(p))
    return z3.And([TRUE] + out)
def match_text(src, t, n):
    "t says the first n characters of src"
    ps = pieces(t)
    if not ps: return n == 0
    if len(ps) == 1 and literal(ps[0]) is None and code_of(ps[0]) is None: return MATCH(src, ps[0], n)
    c = z3.SubString(src, n - 1, 1); ctl = z3.And(z3.StrToCode(c) >= 0, z3.StrToCode(c) < 32, *[z3.StrToCode(c) != k for k in (9, 10, 13)])
    last = ps[-1]
    if literal(last) is not None:
        tk = tokens(literal(last))
        if not tk: return FALSE
        said = S(tk[-1]); rest = ps[:-1] + ([S(''.join(x for x in tk[:-1]))] if len(tk) > 1 else [])
    else: said = last; rest = ps[:-1]
    return z3.And(n >= 1, n <= z3.Length(src), match_text(src, cat(*([EMPTY] + rest)), n - 1), z3.Or(ctl, said == c))
# ---------------------------------------------------------------- C46: time
class CMark(FC):
    def setup(s, I, x): x.this = None; c = I.gh('clock'); I.fact(z3.And(c >= 0, c < (1 << 50))); x.out = Loc('$now', (), I.tu.deref(x.fn['params'][0]['t'])); I.havoc(x.out, x.out.t); x.args = [x.out]
    def post(s, I, x): return [('the time of day in milliseconds', I.rdleaf(x.out, '', IntS) == I.gh('clock')), ('a clock failure is not passed over', z3.BoolVal(not I.st.px.get('clockfail')))]
    def post_exc(s, I, x): return [('only a clock failure is an error', z3.BoolVal(bool(I.st.px.get('clockfail'))))]
class CLapse(FC):
    def setup(s, I, x):
        I.spec.nofail = True; x.this = Loc('this', (), x.fn['cls']); x.args = []; c = I.gh('clock'); I.fact(z3.And(c >= 0, c < (1 << 50)))
        for f in ('m_begin', 'm_end'): v = I.rdraw('this.%s::%s' % (TL, f), (), IntS); I.fact(z3.And(v >= 0, v < (1 << 50)))
    def post(s, I, x):
        g = lambda f, m=None: I.rdraw('this.%s::%s' % (TL, f), (), IntS, m); n = x.fn['n']; b, e, c = g('m_begin', x.old), g('m_end', x.old), I.gh('clock')
        if n in ('elapsed', 'elapsedNow'):
            t = e if n == 'elapsed' else c
            return [('end minus begin, plus a day when the clock wrapped', x.ret == z3.If(b > t, t - b + DAY, t - b)), ('never negative', z3.Implies(b - t <= DAY, x.ret >= 0))]
        o = 'm_begin' if n == 'markBegin' else 'm_end'; k = 'm_end' if n == 'markBegin' else 'm_begin'
        return [(n + ' notes the clock', g(o) == c), (n + ' keeps the other mark', g(k) == g(k, x.old)), (n + ' tells the clock', x.ret == c)]
class CElapsed(FC):
    "TestCase::elapsedTime is that of its own time lapse"
    def setup(s, I, x):
        sp = I.spec; sp.nofail = True; p = s.testcase(I, x); x.args = []; c = I.gh('clock'); I.fact(z3.And(c >= 0, c < (1 << 50)))
        for f in ('m_begin', 'm_end'): v = sp.lapse(I, p, f); I.fact(z3.And(v >= 0, v < (1 << 50)))
    def post(s, I, x):
        sp = I.spec; b, e = sp.lapse(I, x.p, 'm_begin'), sp.lapse(I, x.p, 'm_end'); t = e if x.fn['n'] == 'elapsedTime' else I.gh('clock')
        return [('end minus begin, plus a day when the clock wrapped', x.ret == z3.If(b > t, t - b + DAY, t - b))]

def plan(tu, prop):
    if prop in ('C41',):
        import spec_fut2; return spec_fut2.plan(tu, prop)
    if prop == 'C44':
        import spec_fut3; return spec_fut3.plan(tu, prop)
    sp = FutSpec(tu, prop); cs = []
    if prop == 'C45':
        cs = [CCheckFail('TestCase::checkFail', TC + '::checkFail'), CFail('TestCase::fail', TC + '::fail'), CCheckMacro('EXPECT macros', '?'), CCheckExpr('EXPECT macros on expressions', '?'), CThrowMacro('EXPECT_THROW, EXPECT_ANY_THROW, EXPECT_NO_THROW, FAIL', '?')]
        cs += [CRun('TestCase::run', TC + '::run')]
    elif prop == 'C46':
        cs = [CMark('markTime', 'falcon::testing::markTime')] + [CLapse('TimeLapse::' + n, TL + '::' + n) for n in ('elapsed', 'elapsedNow', 'markBegin', 'markEnd')] + [CElapsed('TestCase::' + n, TC + '::' + n) for n in ('elapsedTime', 'elapsedTimeNow')] + [CRun('TestCase::run', TC + '::run')]
    elif prop == 'C43':
        sp.find_facts = True
        pv, dv = CParseV('UnitTest::parseParams', UT + '::parseParams'), CDetectV('UnitTest::detectTestName', UT + '::detectTestName'); pu = CPerform('UnitTest::performUnitTests', UT + '::performUnitTests')
        cs = [CInit('UnitTest::UnitTest', UT), pv, dv, CMain('UnitTest::main', UT + '::main'), CSilentBegin('UnitTest::beginTest', UT + '::beginTest'), CSilentEnd('UnitTest::endTest', UT + '::endTest'), CSilentShow('UnitTest::report', UT + '::report')]
        sp.contracts = [pv, dv, pu]
    elif prop == 'C44':
        cs = [CXmlText('the text of the report', '?')]
    elif prop in ('C40', 'C42'):
        run, ub, ue = CRun('TestCase::run', TC + '::run'), CUBegin('UnitTest::beginTest', UT + '::beginTest'), CUEnd('UnitTest::endTest', UT + '::endTest'); ra = CRunAll('UnitTest::runAllTests', UT + '::runAllTests')
        cs = [CTBegin('TestCase::beginTest', TC + '::beginTest')] + ([CTEnd('TestCase::endTest', TC + '::endTest')] if prop == 'C42' else []) + [run, ub, ue, CPassed('UnitTest::hasPassed', UT + '::hasPassed'), CPerformTest('UnitTest::performTest', UT + '::performTest'), ra]
        sh = [CShow('UnitTest::report', UT + '::report'), CShow('UnitTest::saveToXML', UT + '::saveToXML')]
        pu = CPerform('UnitTest::performUnitTests', UT + '::performUnitTests'); cs += sh + [pu]
        sp.contracts = [run, ub, ue, ra, CXmlText('xmlText', '?')] + sh
        if prop == 'C40':
            cs.append(CProgram('the program', '?')); sp.contracts += [CEngineMain('UnitTest::main', UT + '::main'), CEngine('UnitTest::singleton', UT + '::singleton')]
            cs.append(CMain('UnitTest::main', UT + '::main')); sp.contracts += [pu, CParse('UnitTest::parseParams', UT + '::parseParams'), CDetect('UnitTest::detectTestName', UT + '::detectTestName')]
    return sp, cs
