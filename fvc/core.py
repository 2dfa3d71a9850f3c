"""fvc core: a deductive verifier for the C++ of /repo.

Input: the typed AST that astdump extracts (with clang) from the real sources on every run.
Method: forward symbolic execution of every function against its contract, function by
function; calls use the callee's contract when one is registered (and was verified), are
modelled by a trusted contract for the standard library, or are inlined; loops are cut at an
inductive invariant (inferred from templates and checked by the solver, so a wrong candidate
can only be dropped, never believed); every loop must have a decreasing measure unless it is
declared a waiting loop.  Obligations are discharged by z3, with cvc5 as second back end.
"""
import sys, json, time, os, re, subprocess, tempfile, itertools
import z3

class Unsupported(Exception): pass
class PathEnd(BaseException): pass            # this path is finished (infeasible, or cut)
class Ctl(Exception): pass
class BreakC(Ctl): pass
class ContinueC(Ctl): pass
class ReturnC(Ctl):
    def __init__(s, v): s.v = v
class CppThrow(Ctl):
    def __init__(s, tname, obj=None, what=None): s.tname = tname; s.obj = obj; s.what = what

IntS, BoolS, StrS = z3.IntSort(), z3.BoolSort(), z3.StringSort()
F64 = z3.Float64()
def I(n): return z3.IntVal(n)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

def simp(x): return z3.simplify(x)
def is_num(x): return z3.is_int_value(x)

def sel(a, i):
    "Select with read-over-write resolution for syntactically (un)equal indices."
    while True:
        if z3.is_app_of(a, z3.Z3_OP_STORE):
            j = a.arg(1)
            if j.eq(i): return a.arg(2)
            if is_num(j) and is_num(i): a = a.arg(0); continue
            d = z3.simplify(j - i) if i.sort() == IntS else None
            if d is not None and is_num(d):
                if d.as_long() == 0: return a.arg(2)
                a = a.arg(0); continue
            break
        if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY): return a.arg(0)
        break
    return z3.Select(a, i)

_BASIC = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT}
_clean = {}
def clean(t):
    "no logical connective inside (such terms may be used in patterns)"
    i = t.get_id()
    r = _clean.get(i)
    if r is not None and r[1].eq(t): return r[0]
    ok = not z3.is_quantifier(t) and not (z3.is_app(t) and t.decl().kind() in _BASIC) and all(clean(c) for c in t.children())
    _clean[i] = (ok, t)
    return ok

def rd_term(t, idx):
    for i in idx: t = sel(t, i)
    return t
def wr_term(t, idx, v):
    if not idx: return v
    if len(idx) == 1: return z3.Store(t, idx[0], v)
    return z3.Store(t, idx[0], wr_term(sel(t, idx[0]), idx[1:], v))
def lift(sort, n):
    for _ in range(n): sort = z3.ArraySort(IntS, sort)
    return sort

class Loc:
    __slots__ = ('key', 'idx', 't')
    def __init__(s, key, idx=(), t=None): s.key = key; s.idx = tuple(idx); s.t = t
    def sub(s, suffix, t, *more): return Loc(s.key + suffix, s.idx + tuple(more), t)
    def same(s, o): return s.key == o.key and len(s.idx) == len(o.idx) and all(a.eq(b) for a, b in zip(s.idx, o.idx))
    def __repr__(s): return "Loc(%s%s)" % (s.key, list(s.idx) if s.idx else '')
class PyPtr:
    __slots__ = ('loc',)
    def __init__(s, loc): s.loc = loc
class CStr:
    "char const* into an immutable character string"
    __slots__ = ('s', 'off', 'nul')         # nul: the text may hold NUL characters (it comes from a string object)
    def __init__(s, st, off=None, nul=False): s.s = st; s.off = I(0) if off is None else off; s.nul = nul
NUL = z3.StringVal('\x00')
CUT = z3.Function('up_to_the_first_NUL', z3.StringSort(), z3.StringSort())
class Closure:
    def __init__(s, node, env, this, caps): s.node = node; s.env = env; s.this = this; s.caps = caps
class FnRef:
    def __init__(s, fid, obj=None): s.fid = fid; s.obj = obj
class MemPtr:
    def __init__(s, fid): s.fid = fid

class TU:
    def __init__(s, path):
        d = json.load(open(path))
        s.types = d['types']; s.fns = {int(k): v for k, v in d['functions'].items()}
        s.recs = {int(k): v for k, v in d['records'].items()}
        s.vars = {int(k): v for k, v in d['vars'].items()}
        s.byname = {}
        for f in s.fns.values(): s.byname.setdefault(f['qn'], []).append(f)
        s._leaf = {}
        s.opaque = {}      # record name -> sort (user supplied value types)
    def T(s, i): return s.types[i]
    def deref(s, i):
        t = s.types[i]
        return t['to'] if t['k'] == 'ref' else i
    def rec(s, i):
        t = s.types[i]
        return s.recs.get(t.get('rid')) if t['k'] == 'rec' else None
    def fields(s, i):
        "all fields incl. inherited: (owner, field)"
        r = s.rec(i)
        out = []
        if not r: return out
        for b in r.get('bases', []): out += s.fields(b)
        for f in r.get('fields', []): out.append((s.types[i]['n'], f))
        return out
    def find(s, pred): return [f for f in s.fns.values() if pred(f)]

def kind_of(tu, i):
    "classification of a type"
    t = tu.T(i); k = t['k']
    if k in ('int', 'enum'): return 'int'
    if k == 'bool': return 'bool'
    if k == 'float': return 'float'
    if k == 'ptr':
        p = tu.T(t['to'])
        if p['k'] == 'int' and p.get('ch') and p.get('const'): return 'cstr'
        return 'ptr'
    if k == 'nullptr': return 'ptr'
    if k == 'ref': return 'ref'
    if k == 'void': return 'void'
    if k == 'rec':
        n = t['n']
        if n in tu.opaque: return 'opaque'
        return STDREC.get(n, 'rec' if (tu.rec(i) or {}).get('ours') else 'unk')
    if k == 'fn': return 'fn'
    if k == 'memptr': return 'memptr'
    if k == 'arr': return 'arr'
    return 'unk'

STDREC = {
 'std::basic_string': 'str', 'std::__cxx11::basic_string': 'str',
 'std::vector': 'vec', 'std::deque': 'vec',
 'std::list': 'list', 'std::__cxx11::list': 'list',
 'std::_List_iterator': 'lit', 'std::_List_const_iterator': 'lit',
 '__gnu_cxx::__normal_iterator': 'vit', 'std::_Deque_iterator': 'vit',
 'std::mutex': 'mutex', 'std::lock_guard': 'guard', 'std::unique_lock': 'ulock',
 'std::atomic': 'atomic', 'std::__atomic_base': 'atomic', 'std::atomic_flag': 'atomic', 'std::shared_ptr': 'sptr', 'std::unique_ptr': 'sptr',
 'std::allocator': 'empty', 'std::less': 'empty', 'std::initializer_list': 'ilist',
 'std::condition_variable': 'empty',
 'std::basic_regex': 'str', 'std::__cxx11::basic_regex': 'str',
 'std::map': 'map', 'std::multimap': 'mmap',
 'std::_Rb_tree_iterator': 'mit', 'std::_Rb_tree_const_iterator': 'mit',
 'std::pair': 'pair',
 'std::basic_ostringstream': 'ostr', 'std::__cxx11::basic_ostringstream': 'ostr',
 'std::basic_istringstream': 'istr', 'std::__cxx11::basic_istringstream': 'istr',
 'std::basic_ostream': 'ostr', 'std::basic_ofstream': 'ostr', 'std::basic_ios': 'ostr',
 'std::basic_istream': 'istr', 'std::basic_stringbuf': 'empty', 'std::__cxx11::basic_stringbuf': 'empty', 'std::basic_streambuf': 'sbuf',
 'std::back_insert_iterator': 'bins',
 'std::_Setfill': 'manip', 'std::_Setw': 'manip', 'std::_Setprecision': 'manip',
 'std::thread': 'empty', 'tm': 'tm', 'timeval': 'timeval', 'std::chrono::time_point': 'empty', 'std::chrono::duration': 'empty', 'std::__shared_ptr': 'sptr', 'std::__shared_ptr_access': 'sptr',
 'std::regex_error': 'exc', 'std::out_of_range': 'exc', 'std::system_error': 'exc', 'std::bad_alloc': 'exc',
 'std::piecewise_construct_t': 'empty',
 'std::runtime_error': 'exc', 'std::exception': 'exc', 'std::invalid_argument': 'exc', 'std::logic_error': 'exc',
 'std::basic_string_view': 'str',
 'boost::multiprecision::number': 'big',
}
PYLEAF = 'py'
BigS = z3.DeclareSort('BigNumber')
F2B = z3.Function('bits_of_double', F64, IntS); B2F = z3.Function('double_of_bits', IntS, F64)
def is_union(tu, i):
    "a union of scalars: one 64 bit pattern"
    r = tu.rec(i) if tu.T(i)['k'] == 'rec' else None
    return bool(r and r.get('ours') and r.get('union'))

def leaves(tu, i):
    "flattened representation of a type: [(suffix, sort)]"
    i = i if tu.T(i)['k'] != 'ref' else i
    if i in tu._leaf: return tu._leaf[i]
    t = tu.T(i); k = kind_of(tu, i)
    if k == 'int': r = [('', IntS)]
    elif k == 'bool': r = [('', BoolS)]
    elif k == 'float': r = [('', F64)]
    elif k == 'ptr': r = [('', IntS)]
    elif k == 'cstr': r = [('', StrS)]
    elif k == 'str': r = [('', StrS)]
    elif k == 'opaque': r = [('', tu.opaque[t['n']])]
    elif k == 'vec':
        r = [('.data' + s, so if so is PYLEAF else z3.ArraySort(IntS, so)) for s, so in leaves(tu, t['args'][0])]
        r += [('.len', IntS)]
        if 'vector' in t['n']: r += [('.cap', IntS), ('.gen', IntS)]
        else: r += [('.off', IntS)]
    elif k == 'list': r = [('.node', z3.ArraySort(IntS, IntS)), ('.pos', z3.ArraySort(IntS, IntS)), ('.len', IntS), ('.end', IntS)]
    elif k == 'lit': r = [('.n', IntS), ('.lid', PYLEAF)]
    elif k == 'vit': r = [('.ck', PYLEAF), ('.c', IntS), ('.i', IntS)]
    elif k == 'mutex': r = [('.held', BoolS)]
    elif k == 'atomic': r = leaves(tu, t['args'][0])
    elif k == 'sptr': r = [('', IntS)]
    elif k == 'empty': r = []
    elif k == 'guard': r = [('.mtx', PYLEAF)]
    elif k == 'ulock': r = [('.mtx', PYLEAF), ('.owns', BoolS)]
    elif k == 'map': r = [('.len', IntS), ('.node', z3.ArraySort(IntS, IntS)), ('.rank', z3.ArraySort(IntS, IntS)), ('.byk', z3.ArraySort(StrS, IntS)), ('.gen', IntS)]
    elif k == 'mmap': r = [('.len', IntS)]
    elif k == 'mit': r = [('.ck', PYLEAF), ('.c', IntS), ('.i', IntS), ('.g', IntS)]
    elif k == 'pair': r = [('.first' + s, so) for s, so in leaves(tu, t['args'][0])] + [('.second' + s, so) for s, so in leaves(tu, t['args'][1])]
    elif k == 'istr': r = [('.txt', StrS), ('.bad', BoolS)]
    elif k == 'ostr': r = [('.buf', StrS), ('.width', IntS), ('.fill', IntS), ('.fmt', IntS), ('.prec', IntS), ('.bad', BoolS)]
    elif k == 'istr': r = [('.buf', StrS), ('.ok', BoolS)]
    elif k == 'bins': r = [('.mtx', PYLEAF)]
    elif k == 'manip': r = [('', IntS)]
    elif k == 'tm': r = [('.tm::' + n, IntS) for n in ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday', 'tm_yday', 'tm_isdst')]
    elif k == 'timeval': r = [('.timeval::tv_sec', IntS), ('.timeval::tv_usec', IntS)]
    elif k == 'sbuf': r = []
    elif k == 'exc': r = [('.what', StrS)]
    elif k == 'ilist': r = [('.items', PYLEAF)]
    elif k == 'big': r = [('.big', BigS)]
    elif is_union(tu, i): r = [('.u', IntS)]
    elif k == 'rec':
        r = []
        tu._leaf[i] = r
        rc = tu.rec(i)
        if rc.get('lambda'): r += [('.closure', PYLEAF)]
        else:
            for own, f in tu.fields(i):
                ft = f['t']
                if tu.T(ft)['k'] == 'ref': r.append(('.' + own + '::' + f['n'], PYLEAF)); continue
                for s, so in leaves(tu, ft): r.append(('.' + own + '::' + f['n'] + s, so))
        # exceptions of ours derived from std exceptions
        for b in (rc.get('bases') or []):
            if kind_of(tu, b) == 'exc': r.append(('.what', StrS))
        return r
    elif k == 'memptr' or k == 'fn': r = [('', PYLEAF)]
    elif k == 'arr': r = [('.data' + s, z3.ArraySort(IntS, so)) for s, so in leaves(tu, t['to'])]
    else: raise Unsupported("type " + t['s'])
    tu._leaf[i] = r
    return r

# ---------------------------------------------------------------- solving
class Stats:
    def __init__(s): s.n = 0; s.z3 = 0; s.cvc5 = 0; s.time = 0.0; s.feas = 0; s.cand = 0
STATS = Stats()

_HQ = {}
def has_quant(e, seen=None):
    if seen is None:
        i = e.get_id(); r = _HQ.get(i)
        if r is not None: return r[1]           # the term is kept, so that its number stays its own
        r = has_quant(e, set()); _HQ[i] = (e, r); return r
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False

def qf_sat(pc, extra, ms=400):
    "over-approximate feasibility: quantified facts are ignored"
    STATS.feas += 1
    s = z3.SolverFor('ALL') if False else z3.Solver()
    s.set('timeout', ms)
    for p in pc:
        if not has_quant(p): s.add(p)
    s.add(extra)
    return s.check()

_PROVE_CACHE = {}
def split_goal(g, depth=0):
    "conjuncts of a goal, also below universal quantifiers and implications"
    if z3.is_and(g): return [x for c in g.children() for x in split_goal(c, depth)]
    if z3.is_quantifier(g) and g.is_forall() and depth < 3:
        vs = [z3.Const(g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
        b = z3.substitute_vars(g.body(), *reversed(vs))
        if z3.is_implies(b):
            cs = split_goal(b.arg(1), depth + 1)
            if len(cs) > 1: return [z3.ForAll(vs, z3.Implies(b.arg(0), c)) for c in cs]
        return [g]
    if z3.is_implies(g) and depth < 3:
        cs = split_goal(g.arg(1), depth + 1)
        if len(cs) > 1: return [z3.Implies(g.arg(0), c) for c in cs]
    return [g]

def prove(pc, goal, ms=4000, want_model=False, fallback=True):
    gs = split_goal(goal)
    if len(gs) == 1: return prove1(pc, goal, ms, want_model, fallback)
    be = 'z3'
    for g in gs:
        r = prove1(pc, g, ms, want_model, fallback)
        if r[0] != 'proved': return r
        if r[1] != 'z3': be = r[1]
    return ('proved', be)

NMDEF = {}
_SEQ = {}
def has_seq(x):
    "the term uses string operations (not only string constants and equality)"
    i = x.get_id()
    if i not in _SEQ:
        r = False
        if z3.is_app(x):
            k = x.decl().kind()
            r = z3.Z3_OP_SEQ_UNIT <= k <= z3.Z3_OP_RE_COMPLEMENT or any(has_seq(c) for c in x.children())
        _SEQ[i] = (r, x)
    return _SEQ[i][0]
def check(sv, *a):
    "a solver that gives up with an exception has not decided anything"
    try: return sv.check(*a)
    except z3.Z3Exception: return z3.unknown
def align_strings(pc, goal, ms):
    """an equality of two concatenations is decided piece by piece (sufficient, not necessary): True if proved.
    Undecided choices inside are split into cases."""
    if not (z3.is_eq(goal) and goal.arg(0).sort() == StrS): return False
    sv = z3.Solver(); sv.set('timeout', 400); ids = {p.get_id() for p in pc}
    for p in pc:
        if not has_quant(p) and not has_seq(p): sv.add(p)
    t_end = time.time() + 8 + ms / 1000
    def imp(c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        sv.push(); sv.add(z3.Not(c)); r = check(sv); sv.pop(); return r == z3.unsat
    def flat(x):
        if z3.is_string_value(x): return [x.as_string()] if x.as_string() else []
        k = x.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT: return [y for c in x.children() for y in flat(c)]
        if k == z3.Z3_OP_ITE:
            if imp(x.arg(0)): return flat(x.arg(1))
            if imp(z3.Not(x.arg(0))): return flat(x.arg(2))
        if k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
            d = NMDEF.get(str(x))
            if d is not None and d[0] in ids: return flat(d[1])
        return [x]
    def merge(l):
        o = []
        for y in l:
            if isinstance(y, str) and o and isinstance(o[-1], str): o[-1] += y
            else: o.append(y)
        return o
    def mk(l):
        l = [z3.StringVal(q) if isinstance(q, str) else q for q in l]
        return z3.StringVal('') if not l else l[0] if len(l) == 1 else z3.Concat(*l)
    def esc(l): return any(isinstance(q, str) and '\\u' in q for q in l)
    def isite(x): return not isinstance(x, str) and x.decl().kind() == z3.Z3_OP_ITE
    def cases(x, f):
        "f() with the choice x decided either way"
        if time.time() > t_end: return False
        for c in (x.arg(0), z3.Not(x.arg(0))):
            sv.push(); sv.add(c)
            try:
                if check(sv) != z3.unsat and not f(): return False
            finally: sv.pop()
        return True
    def seps(l): return {i: q for i, q in enumerate(l)}
    def eq(a, b, depth=0):
        if time.time() > t_end or depth > 60: return False
        a = merge([y for q in a for y in ([q] if isinstance(q, str) else flat(q))]); b = merge([y for q in b for y in ([q] if isinstance(q, str) else flat(q))])
        if esc(a) or esc(b): return imp(mk(a) == mk(b))
        while True:        # common front and back
            for at in (0, -1):
                while a and b:
                    x, y = a[at], b[at]
                    if isinstance(x, str) and isinstance(y, str):
                        n = min(len(x), len(y))
                        if (x[:n] != y[:n]) if at == 0 else (x[-n:] != y[-n:]): return imp(z3.BoolVal(False))
                        a[at], b[at] = (x[n:], y[n:]) if at == 0 else (x[:len(x)-n], y[:len(y)-n])
                        if not a[at]: a.pop(at)
                        if not b[at]: b.pop(at)
                    elif not isinstance(x, str) and not isinstance(y, str) and x.eq(y): a.pop(at); b.pop(at)
                    else: break
            break
        if not a and not b: return True
        # cut at a separator both sides have as a piece of its own at the same count
        for sep in ('-', ' ', ':', '\n', '] ', ' ['):
            ca = [(i, q.index(sep)) for i, q in enumerate(a) if isinstance(q, str) and sep in q]
            cb = [(i, q.index(sep)) for i, q in enumerate(b) if isinstance(q, str) and sep in q]
            if ca and cb:
                (i, p), (j, q) = ca[0], cb[0]
                n = len(sep)
                l1, r1 = a[:i] + ([a[i][:p]] if p else []), ([a[i][p+n:]] if a[i][p+n:] else []) + a[i+1:]
                l2, r2 = b[:j] + ([b[j][:q]] if q else []), ([b[j][q+n:]] if b[j][q+n:] else []) + b[j+1:]
                if len(l1) + len(l2) <= 6 and eq(list(l1), list(l2), depth + 1) and eq(list(r1), list(r2), depth + 1): return True
        for x in a[:1] + b[:1] + a + b:
            if isite(x): return cases(x, lambda: eq(list(a), list(b), depth + 1))
        g = mk(a) == mk(b)
        r = imp(g)
        if not r and os.environ.get('FVC_ALIGN'): print('LEFT', g, [str(c)[:300] for c in sv.assertions()][-6:], file=sys.stderr)
        return r
    return eq([goal.arg(0)], [goal.arg(1)])

def prove1(pc, goal, ms=4000, want_model=False, fallback=True):
    """-> ('proved', backend) | ('failed', model) | ('unknown', reason)"""
    key = (tuple(sorted(p.get_id() for p in pc)), goal.get_id())
    if key in _PROVE_CACHE: return _PROVE_CACHE[key][0]
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g): r = ('proved', 'z3')
    else:
        r = None; reason = ''; txt = None
        if align_strings(pc, goal, ms): r = ('proved', 'z3')
        for kind, seed, ar in ((PORTFOLIO if fallback else PORTFOLIO[:1]) if r is None else []):
            if kind == 'inproc':
                s = z3.Solver(); s.set('timeout', ms); s.set('smt.mbqi', False); s.set('auto_config', False)
                if seed: s.set('random_seed', seed)
                if ar: s.set('smt.arith.solver', ar)
                s.add(*pc); s.add(z3.Not(goal))
                c = check(s)
                if c == z3.unsat: r = ('proved', 'z3'); break
                if c == z3.sat: r = ('failed', s.model()); break
                try: reason = s.reason_unknown()
                except z3.Z3Exception: reason = 'solver exception'
                if not seed and has_seq(goal) and fallback and not any(has_quant(p) for p in pc):
                    s2 = z3.Solver(); s2.add(*pc); s2.add(z3.Not(goal))
                    if cvc5_unsat(s2, min(ms, 3000)): r = ('proved', 'cvc5'); break
            else:
                if txt is None: txt = s.to_smt2()
                if cli_unsat([kind, '-T:%d' % max(1, ms // 1000), 'smt.mbqi=false', 'auto_config=false'] + (['smt.random_seed=%d' % seed] if seed else []) + (['smt.arith.solver=%d' % ar] if ar else []), txt, ms): r = ('proved', kind if kind != 'z3' else 'z3-4.8'); break
        if r is None and fallback:
            s2 = z3.Solver(); s2.set('timeout', min(ms, 4000))
            s2.add(*pc); s2.add(z3.Not(goal))
            c2 = check(s2)
            if c2 == z3.unsat: r = ('proved', 'z3')
            elif c2 == z3.sat: r = ('failed', s2.model())
            else:
                ok = cvc5_unsat(s2, ms)
                r = ('proved', 'cvc5') if ok else ('unknown', reason)
        if r is None: r = ('unknown', reason)
    STATS.time += time.time() - t0
    _PROVE_CACHE[key] = (r, tuple(pc), goal)  # keep asts alive so that ids stay valid
    return r

PORTFOLIO = [('inproc', 0, 0), ('z3', 0, 0), ('inproc', 11, 2), ('z3', 7, 2), ('inproc', 5, 0), ('z3', 3, 6)]
def cli_unsat(cmd, txt, ms):
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
        try: p = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        finally: os.unlink(f.name)
        return p.stdout.strip().startswith('unsat')
    except Exception: return False
def cvc5_unsat(solver, ms):
    try:
        txt = "(set-logic ALL)\n" + solver.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--strings-exp', f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        finally: os.unlink(f.name)
        return p.stdout.strip().startswith('unsat')
    except Exception: return False

class Ob:
    def __init__(s, name, loc, fn, status, detail, exact): s.name = name; s.loc = loc; s.fn = fn; s.status = status; s.detail = detail; s.exact = exact
    def to_json(s): return dict(name=s.name, at=s.loc, function=s.fn, status=s.status, exact=s.exact, detail=str(s.detail)[:3000])
