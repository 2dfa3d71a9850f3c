"""fvc interpreter: symbolic execution of the dumped C++ AST, one path at a time."""
from core import *
import sys, os
SIGS = bool(os.environ.get('FVC_SIGS'))
sys.setrecursionlimit(20000)

def strip_targs(qn):
    "falcon::PagedStack<X, Y>::push -> falcon::PagedStack::push"
    out = []; depth = 0; i = 0; n = len(qn)
    m = qn.rfind('operator')
    opstart = -1
    if m >= 0 and (m == 0 or not (qn[m-1].isalnum() or qn[m-1] == '_')) and m + 8 < n and not (qn[m+8].isalnum() or qn[m+8] == '_'): opstart = m
    while i < n:
        if i == opstart and depth == 0:
            rest = qn[i:]
            mo = re.match(r'operator(\(\)|\[\]|<<=|>>=|->\*|->|<=>|<<|>>|<=|>=|<|>|[^\s<]+|\s.*)', rest)
            out.append(mo.group(0) if mo else rest)
            return ''.join(out)
        c = qn[i]
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    return ''.join(out)

class State:
    def __init__(s):
        s.mem = {}; s.pc = []; s.held = []; s.lists = {}; s.facts = set(); s.wlog = set(); s.px = {}
    def copy(s):
        o = State(); o.mem = dict(s.mem); o.pc = list(s.pc); o.held = list(s.held); o.lists = dict(s.lists)
        o.facts = set(s.facts); o.wlog = set(s.wlog); o.px = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in s.px.items()}
        return o

class Frame:
    def __init__(s, fn, this, env): s.fn = fn; s.this = this; s.env = env; s.ret = None; s.closure = None
class Dtor:
    __slots__ = ('loc', 't')
    def __init__(s, loc, t): s.loc = loc; s.t = t

class LoopInvFail(Exception): pass

STDCONST = {'std::basic_string::npos': (1 << 64) - 1, 'std::basic_string_view::npos': (1 << 64) - 1, 'std::basic_regex::icase': 1, 'std::basic_regex::nosubs': 2, 'std::basic_regex::optimize': 4, 'std::basic_regex::collate': 8, 'std::basic_regex::ECMAScript': 16,
            'std::ios_base::goodbit': 0, 'std::ios_base::badbit': 1, 'std::ios_base::eofbit': 2, 'std::ios_base::failbit': 4}
class Interp:
    def __init__(I, tu, spec):
        I.tu = tu; I.spec = spec
        I.fns_used = set(); I.contracts_used = set(); I.models_used = set(); I.assumptions = set()
        I.obs = {}            # (name, loc) -> Ob
        I.loopcache = {}
        I.noncached = 0
        I.record = True
        I.deadline = None
        I.prove_ms = getattr(spec, 'prove_ms', 4000); I.unroll = 0; I.inline = False
    # ------------------------------------------------------------ paths
    def reset(I, st=None):
        I.st = st or State(); I.trace = []; I.prefix = []; I.counter = 0
        I.frames = []; I.scopes = [[]]; I.temps = [[]]; I.pending = []
        I._newqs()
    def _newqs(I):
        I.qs = z3.Solver(); I.qs.set('timeout', 300)
        for p in I.st.pc:
            if not has_quant(p): I.qs.add(p)
    def fresh_name(I, base):
        I.counter += 1; return "%s#%d" % (base, I.counter)
    def fresh(I, base, sort): return z3.Const(I.fresh_name(base), sort)
    def fact(I, f):
        f = simp(f)
        if z3.is_true(f): return
        i = f.get_id()
        if i in I.st.facts: return
        I.st.facts.add(i); I.st.pc.append(f)
        if z3.is_and(f):
            for c in f.children():
                if not has_quant(c): I.qs.add(c)
        elif not has_quant(f): I.qs.add(f)
        if z3.is_false(f): raise PathEnd()
    def sat(I, f):
        STATS.feas += 1
        if I.deadline and time.time() > I.deadline: raise Unsupported("time budget of this function exhausted")
        I.qs.push(); I.qs.add(f); r = check(I.qs); I.qs.pop()
        return r != z3.unsat
    def valid(I, f):
        f = simp(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return not I.sat(z3.Not(f))
    def choose(I, cond, why=''):
        c = cond if isinstance(cond, bool) else simp(cond)
        if isinstance(c, bool): return c
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if c.get_id() in I.st.facts: return True
        if simp(z3.Not(c)).get_id() in I.st.facts: return False
        n = len(I.trace)
        if n < len(I.prefix): d = I.prefix[n]
        else:
            t = I.sat(c); f = I.sat(z3.Not(c))
            if t and f:
                I.pending.append(I.trace + [False]); d = True
            elif t: d = True
            elif f: d = False
            else: raise PathEnd()
        I.trace.append(d)
        I.fact(c if d else z3.Not(c))
        return d
    def explore(I, run, maxpaths=4000):
        "run() is re-executed once per feasible path; state must be re-created by run"
        save = (I.st, I.trace, I.prefix, getattr(I, 'pending', None), I.counter, I.frames, I.scopes, I.temps, I.qs)
        I_pend = [[]]; n = 0
        try:
            while I_pend:
                n += 1
                if n > maxpaths: raise Unsupported("too many paths")
                p = I_pend.pop()
                I.prefix = p; I.trace = []; I.pending = I_pend
                try: run()
                except PathEnd: pass
        finally:
            (I.st, I.trace, I.prefix, I.pending, I.counter, I.frames, I.scopes, I.temps, I.qs) = save
        return n
    # ------------------------------------------------------------ obligations
    def ob(I, name, goal, node=None, exact=True, prop=None):
        if not I.record:
            return
        if hasattr(I.spec, 'ob_filter') and not I.spec.ob_filter(I, name): I.fact(goal); return
        loc = (node or {}).get('l', '') if isinstance(node, dict) else (node or '')
        fn = I.frames[-1].fn['qn'] if I.frames else ''
        key = (name, short(loc))
        o = I.obs.get(key)
        if o is None: o = I.obs[key] = Ob(name, short(loc), strip_targs(fn), 'proved', '', True)
        o.n = getattr(o, 'n', 0) + 1
        if o.status == 'failed': return
        r, d = prove(I.st.pc, goal, I.prove_ms)
        if r == 'proved':
            o.backends = getattr(o, 'backends', set()) | {d}
        else:
            o.status = 'failed' if r == 'failed' else ('unknown' if o.status != 'failed' else o.status)
            o.exact = o.exact and exact and not I.st.px.get('inexact')
            o.detail = model_str(d) if r == 'failed' else "not discharged: %s" % d
            o.goal = str(simp(goal))[:1500]
            if os.environ.get('FVC_DEBUG'):
                print("OB FAIL", key, r, I.trace, file=sys.stderr)
                if os.environ['FVC_DEBUG'] == '2':
                    for p in I.st.pc: print("   pc:", str(p)[:1500], file=sys.stderr)
                    print("   goal:", str(goal)[:3000], file=sys.stderr); print(o.detail[:6000], file=sys.stderr)
    # ------------------------------------------------------------ memory
    def sort_of(I, key, sort, nidx): return lift(sort, nidx)
    def rdraw(I, key, idx, sort, mem=None):
        m = I.st.mem if mem is None else mem
        v = m.get(key)
        if v is None:
            if sort is PYLEAF: raise Unsupported("value of %s is not known" % key)
            v = z3.Const(key + "!0", lift(sort, len(idx)))
            m[key] = v
            I.st.mem.setdefault(key, v)
        if sort is PYLEAF: return v
        return rd_term(v, idx) if idx else v
    def wrraw(I, key, idx, sort, v):
        I.st.wlog.add(key)
        h = getattr(I.spec, 'on_write', None)
        if h is not None: h(I, key, idx)
        if sort is PYLEAF: I.st.mem[key] = v; return
        if not idx:
            if z3.is_array(v) if z3.is_expr(v) else False: v = I.nm(v)
            I.st.mem[key] = v; return
        cur = I.st.mem.get(key)
        if cur is None: cur = z3.Const(key + "!0", lift(sort, len(idx)))
        if isinstance(v, PyPtr) and hasattr(I.spec, 'addr_of'):
            v2 = I.spec.addr_of(I, v.loc)
            if v2 is not None: v = v2
        if not z3.is_expr(v): raise Unsupported("object address stored in symbolic memory (%s)" % key)
        I.st.mem[key] = wr_term(cur, [I.nm(i) for i in idx], I.nm(v))
    def nm(I, t):
        "name a term that contains logical connectives (they cannot occur in patterns)"
        if clean(t): return t
        c = I.fresh('nm', t.sort()); I.fact(c == t)
        if t.sort() == StrS and I.st.pc: NMDEF[str(c)] = (I.st.pc[-1].get_id(), t)
        return c
    def rdleaf(I, loc, suf, sort, mem=None): return I.rdraw(loc.key + suf, loc.idx, sort, mem)
    def wrleaf(I, loc, suf, sort, v): I.wrraw(loc.key + suf, loc.idx, sort, v)
    def f(I, loc, suf, mem=None):
        "integer leaf"
        v = I.rdraw(loc.key + suf, loc.idx, IntS, mem)
        return v
    def setf(I, loc, suf, v): I.wrraw(loc.key + suf, loc.idx, IntS, v)
    def kind(I, t): return kind_of(I.tu, t)
    def rng(I, v, t):
        "range facts of an integer typed term"
        T = I.tu.T(t)
        if T['k'] in ('int', 'enum') and z3.is_expr(v) and not is_num(v):
            w = T.get('w')
            if not w: return
            lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if T.get('sg') else (0, (1 << w) - 1)
            if T['k'] == 'enum' and T.get('vals') and not T.get('fixed'):     # the values of an enumeration fit the bits its enumerators need
                b = max(1, max((x['v'] if x['v'] >= 0 else -x['v'] - 1) for x in T['vals']).bit_length())
                lo, hi = (-(1 << b), (1 << b) - 1) if min(x['v'] for x in T['vals']) < 0 else (0, (1 << b) - 1)
            I.fact(z3.And(v >= lo, v <= hi))
    def load(I, loc, t=None):
        t = loc.t if t is None else t
        k = I.kind(t)
        if hasattr(I.spec, 'pre_load'): I.spec.pre_load(I, loc, t)
        if hasattr(I.spec, 'touch'): I.spec.touch(I, loc.key, None)
        if loc.key.endswith('.u'): return I.load_u(loc, t)
        if k in ('int', 'bool', 'float', 'ptr', 'opaque', 'atomic', 'sptr'):
            ls = leaves(I.tu, t)
            if len(ls) != 1: raise Unsupported("load of " + I.tu.T(t)['s'])
            v = I.rdraw(loc.key, loc.idx, ls[0][1])
            if k == 'int': I.rng(v, t)
            if k == 'ptr' and z3.is_expr(v) and v.sort() == IntS and not is_num(v): I.fact(v >= 0)
            return v
        if k == 'cstr':
            v = I.rdraw(loc.key, loc.idx, StrS)
            return v if isinstance(v, (CStr, PyPtr)) or is_null(v) else CStr(v)
        if k in ('fn', 'memptr'): return I.rdraw(loc.key, loc.idx, PYLEAF)
        raise Unsupported("load of class value " + I.tu.T(t)['s'])
    def store(I, loc, v, t=None):
        t = loc.t if t is None else t
        k = I.kind(t)
        if hasattr(I.spec, 'pre_store'): I.spec.pre_store(I, loc, v, t)
        if hasattr(I.spec, 'touch'): I.spec.touch(I, loc.key, None)
        if loc.key.endswith('.u'): return I.store_u(loc, v, t)
        if k == 'cstr':
            if loc.idx:
                if isinstance(v, CStr):
                    if not is_zero(v.off): raise Unsupported("pointer into the middle of a stored string")
                    v = v.s if not v.nul else z3.If(z3.Contains(v.s, NUL), CUT(v.s), v.s)
                else: raise Unsupported("stored char pointer")
            I.wrraw(loc.key, loc.idx, StrS, v); return
        ls = leaves(I.tu, t)
        if len(ls) != 1 : raise Unsupported("store of " + I.tu.T(t)['s'])
        I.wrraw(loc.key, loc.idx, ls[0][1], v)
    def copy_leaves(I, dst, src, t):
        if hasattr(I.spec, 'touch'): I.spec.touch(I, src.key, None); I.spec.touch(I, dst.key, None)
        for s, so in leaves(I.tu, t):
            try: v = I.rdleaf(src, s, so)
            except Unsupported:
                if so is PYLEAF: continue
                raise
            I.wrleaf(dst, s, so, v)
    def new_local(I, name, t): return Loc('$' + I.fresh_name(name), (), t)
    def havoc_leaf(I, loc, suf, sort, base=None):
        v = I.fresh((base or loc.key + suf) + "~", sort); I.wrleaf(loc, suf, sort, v); return v
    def havoc(I, loc, t):
        for s, so in leaves(I.tu, t):
            if so is not PYLEAF: I.havoc_leaf(loc, s, so)
    def gh(I, name, sort=IntS, mem=None): return I.rdraw('ghost.' + name, (), sort, mem)
    def setgh(I, name, v): I.wrraw('ghost.' + name, (), v.sort(), v)
    # ------------------------------------------------------------ pointers
    def deref(I, p, t, node=None):
        "pointer value -> Loc of type t"
        if isinstance(p, PyPtr) and p.loc.key.startswith('HA<'): I.array_bounds(p.loc, I_(1), node)
        if isinstance(p, PyPtr): return Loc(p.loc.key, p.loc.idx, t) if I.kind(p.loc.t if p.loc.t is not None else t) == I.kind(t) or True else p.loc
        if isinstance(p, CStr):  return ('chr', p)
        if isinstance(p, Loc): return p
        if z3.is_expr(p):
            I.ob('pointer not null', p != 0, node); I.fact(p != 0)
            h = getattr(I.spec, 'on_deref', None)
            if h is not None: h(I, p, t, node)
            return Loc('H', (p,), t)
        raise Unsupported("dereference of %r" % (p,))
    def ptr_eq(I, a, b):
        if isinstance(a, CStr) or isinstance(b, CStr):
            if is_null(a) or is_null(b): return FALSE
            raise Unsupported("comparison of char pointers")
        if isinstance(a, PyPtr) and isinstance(b, PyPtr):
            if a.loc.same(b.loc): return TRUE
            if a.loc.key == b.loc.key and len(a.loc.idx) == len(b.loc.idx): return z3.And([x == y for x, y in zip(a.loc.idx, b.loc.idx)])
            return FALSE
        if isinstance(a, PyPtr) or isinstance(b, PyPtr):
            o = b if isinstance(a, PyPtr) else a; q = a if isinstance(a, PyPtr) else b
            if is_null(o): return FALSE
            if q.loc.key == 'H': return q.loc.idx[0] == o
            if z3.is_expr(o): return FALSE if q.loc.key.startswith('$') else I.fresh('ptreq', BoolS)
            raise Unsupported("pointer comparison")
        if isinstance(a, (FnRef, MemPtr)) or isinstance(b, (FnRef, MemPtr)): return z3.BoolVal(not (is_null(a) or is_null(b)) and a.fid == b.fid)
        return a == b
    def addr_of(I, loc):
        if loc.key == 'H': return loc.idx[0]
        return PyPtr(loc)
    # ------------------------------------------------------------ integers
    def norm(I, v, t, node=None, signed_check=True, what='arithmetic'):
        T = I.tu.T(t)
        if T['k'] == 'enum': return v
        w = T['w']; sg = T.get('sg')
        lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if sg else (0, (1 << w) - 1)
        v = simp(v)
        if is_num(v):
            n = v.as_long()
            if lo <= n <= hi: return v
            if sg and signed_check and not getattr(I.spec, 'wraps', False): I.ob('no signed overflow in ' + what, FALSE, node); raise PathEnd()
            n &= (1 << w) - 1
            if sg and n >= (1 << (w-1)): n -= 1 << w
            return I_(n)
        ok = z3.And(v >= lo, v <= hi)
        if I.valid(ok): return v
        if sg and signed_check and not getattr(I.spec, 'wraps', False):
            I.ob('no signed overflow in ' + what, ok, node); I.fact(ok); return v
        if prove(I.st.pc, ok, 800, fallback=False)[0] == 'proved': I.fact(ok); return v
        if sg:
            m = v % (1 << w); return z3.If(m >= (1 << (w-1)), m - (1 << w), m)
        return z3.If(v > hi, z3.If(v <= 2*hi + 1, v - (hi + 1), v % (hi + 1)), z3.If(v < 0, z3.If(v >= -(hi + 1), v + (hi + 1), v % (hi + 1)), v))
    def conv_int(I, v, tfrom, tto):
        a, b = I.tu.T(tfrom), I.tu.T(tto)
        if b['k'] == 'bool':
            if z3.is_bool(v): return v
            return v != 0
        if z3.is_bool(v): return z3.If(v, I_(1), I_(0))
        if b['k'] == 'enum' or a['k'] not in ('int', 'enum', 'bool'): return v
        wa, wb = a.get('w', 32), b['w']
        if a['k'] != 'enum':
            if (bool(a.get('sg')) == bool(b.get('sg')) and wa <= wb) or (not a.get('sg') and b.get('sg') and wa < wb): return v
        return I.norm(v, tto, signed_check=False)
    def to_float(I, v): return z3.Function('float_of', IntS, F64)(v) if getattr(I.spec, 'opaque_floats', False) else z3.fpRealToFP(z3.RNE(), z3.ToReal(v), F64)
    def arith(I, op, a, b, t, node):
        T = I.tu.T(t)
        if T['k'] == 'float':
            if getattr(I.spec, 'opaque_floats', False): return z3.Function('float_' + op, F64, F64, F64)(a, b)
            rm = z3.RNE()
            return {'+': lambda: z3.fpAdd(rm, a, b), '-': lambda: z3.fpSub(rm, a, b), '*': lambda: z3.fpMul(rm, a, b), '/': lambda: z3.fpDiv(rm, a, b)}[op]()
        if op == '+': return I.norm(a + b, t, node)
        if op == '-': return I.norm(a - b, t, node)
        if op == '*': return I.norm(a * b, t, node)
        if op in ('/', '%'):
            I.ob('no division by zero', b != 0, node); I.fact(b != 0)
            if I.valid(z3.And(a >= 0, b > 0)): return a / b if op == '/' else a % b
            q = z3.If(a >= 0, a / b, -((-a) / b))
            q = z3.If(z3.And(a >= 0, b < 0), -(a / -b), z3.If(z3.And(a < 0, b < 0), (-a) / (-b), q))
            return I.norm(q, t, node) if op == '/' else a - q * b
        w = T['w']
        if op in ('<<', '>>'):
            I.ob('shift in range', z3.And(b >= 0, b < w), node)
            b = simp(b)
            if is_num(b):
                k = 1 << b.as_long()
                return I.norm(a * k, t, node, signed_check=False) if op == '<<' else (a / k)
        if op in ('&', '|', '^', '<<', '>>'):
            sa, sb = simp(a), simp(b)
            if is_num(sa) and is_num(sb):
                x, y = sa.as_long(), sb.as_long()
                return I_({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op])
            if op == '&' and is_num(sb) and sb.as_long() >= 0 and (sb.as_long() & (sb.as_long() + 1)) == 0: return a % (sb.as_long() + 1)
            x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
            r = {'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': (x >> y) if T.get('sg') else z3.LShR(x, y)}[op]
            return z3.BV2Int(r, bool(T.get('sg')))
        raise Unsupported("operator " + op)
    # ------------------------------------------------------------ expressions
    def ev(I, e):
        if e is None: return None
        m = getattr(I, 'e_' + e['k'], None)
        if m is None: raise Unsupported("expression " + e['k'] + " at " + short(e.get('l', '')))
        return m(e)
    def is_class(I, t): return I.tu.T(t)['k'] == 'rec' and I.kind(t) not in ('opaque_',)
    def evc(I, e):
        "condition -> Bool"
        v = I.ev(e)
        if isinstance(v, Loc): v = I.load(v)
        if isinstance(v, (PyPtr, CStr)): return TRUE
        if z3.is_bool(v): return v
        return v != 0
    def val(I, v, t=None):
        if isinstance(v, Loc): return I.load(v, t if t is not None else v.t)
        return v
    def e_IntegerLiteral(I, e): return I_(int(e['val']))
    def e_CharacterLiteral(I, e): return I_(int(e['val']))
    def e_CXXBoolLiteralExpr(I, e): return z3.BoolVal(bool(e['val']))
    def e_FloatingLiteral(I, e): return z3.FPVal(e['dbl'], F64)
    def e_StringLiteral(I, e): return CStr(z3.StringVal(e['val']))
    def e_PredefinedExpr(I, e): return CStr(z3.StringVal(e['val']))
    def e_CXXNullPtrLiteralExpr(I, e): return I_(0)
    def e_GNUNullExpr(I, e): return I_(0)
    def e_SourceLocExpr(I, e): return I_(0)
    def e_SizeOfPackExpr(I, e): return I_(int(e['val']))
    def e_SubstNonTypeTemplateParmExpr(I, e):
        h = I.spec.nttp(I, e) if hasattr(I.spec, 'nttp') else None
        return h if h is not None else I.ev(e['c'][0])
    def e_UnaryExprOrTypeTraitExpr(I, e): return I_(int(e['val']))
    def e_TypeTraitExpr(I, e): return z3.BoolVal(bool(e['val']))
    def e_CXXNoexceptExpr(I, e): return z3.BoolVal(True)
    def e_ImplicitValueInitExpr(I, e): return I.zero(e['t'])
    def e_CXXScalarValueInitExpr(I, e): return I.zero(e['t'])
    def zero(I, t):
        k = I.kind(t)
        if k == 'int' or k == 'ptr' or k == 'cstr': return I_(0)
        if k == 'bool': return FALSE
        if k == 'float': return z3.FPVal(0.0, F64)
        if k == 'memptr' or k == 'fn': return I_(0)
        raise Unsupported("value initialisation of " + I.tu.T(t)['s'])
    def e_CXXThisExpr(I, e): 
        return I.addr_of(I.frames[-1].this)
    def lookup(I, d, e):
        fr = I.frames[-1]
        if d in fr.env: return fr.env[d]
        c = fr.closure
        while c is not None:
            if d in c.caps: return c.caps[d]
            c = getattr(c, 'outer', None)
        raise Unsupported("variable %s at %s" % (e.get('dn'), short(e.get('l', ''))))
    def e_DeclRefExpr(I, e):
        dk = e['dk']
        if dk == 'enumc': return I_(int(e['val']))
        if dk == 'fn': return FnRef(e['d'])
        if dk == 'glob':
            fr = I.frames[-1] if I.frames else None
            if fr and e['d'] in fr.env: return fr.env[e['d']]
            return I.global_loc(e['d'], e)
        return I.lookup(e['d'], e)
    def global_loc(I, d, e):
        v = I.tu.vars.get(d)
        q = (e.get('qn') or (v or {}).get('qn') or str(d))
        h = I.spec.global_loc(I, q, v, e) if hasattr(I.spec, 'global_loc') else None
        if h is not None: return h
        t = (v or {}).get('t') or e.get('vt') or e['t']
        key = 'G.' + q + ("@%d" % d if (v or {}).get('sl') else '')
        if I.tu.T(t)['k'] == 'ref':
            return I.rdraw(key, (), PYLEAF)
        # constants
        if strip_targs(q) in STDCONST and v and v.get('cv') is None: v = dict(v, cv=STDCONST[strip_targs(q)])
        if v and v.get('cv') is not None: I.st.mem[key] = I_(int(v['cv'])) if I.kind(t) == 'int' else z3.BoolVal(int(v['cv']) != 0)
        elif v and I.tu.T(t).get('const') and v.get('init') is not None and key not in I.st.px.setdefault('ginit', {}):
            I.st.px['ginit'][key] = 1
            if I.kind(t) in ('int', 'bool', 'float', 'cstr', 'ptr'):
                x = I.ev(v['init']); I.st.mem[key] = I.val(x)
        return Loc(key, (), t)
    def e_MemberExpr(I, e):
        dk = e['dk']
        if dk == 'enumc': return I_(int(e['val']))
        if dk == 'glob': return I.global_loc(e['d'], e)
        if dk == 'fn': raise Unsupported("member function value")
        b = I.ev(e['c'][0])
        if e['arrow']: b = I.deref(b, I.tu.T(I.tu.deref(e['c'][0]['t'])).get('to', e['c'][0]['t']), e)
        return I.field(b, e['own'], e['dn'], e['t'])
    def field(I, b, own, name, t, fid=None):
        # pair members
        if own.startswith('std::pair') or strip_targs(own) == 'std::pair': return b.sub('.' + name, t)
        l = b.sub(I.fsuf(own, name), t)
        ft = I.field_type(own, name)
        if ft is not None and I.tu.T(ft)['k'] == 'ref':
            r = I.rdraw(l.key, l.idx, PYLEAF) if not l.idx else I.rdraw(l.key, (), PYLEAF)
            return r
        return l
    def fsuf(I, own, name):
        "suffix of a member: the members of a union share one place"
        c = getattr(I.tu, '_un', None)
        if c is None: c = I.tu._un = {r['n'] for r in I.tu.recs.values() if r.get('ours') and r.get('union')}
        return '.u' if own in c else '.' + own + '::' + name
    def load_u(I, loc, t):
        "a member of a union, read from the bit pattern"
        u = I.rdraw(loc.key, loc.idx, IntS); k = I.kind(t); T = I.tu.T(t)
        if not z3.is_expr(u): raise Unsupported("pointer to a named object in a union")
        I.fact(z3.And(u >= 0, u < (1 << 64)))
        if k == 'bool': return simp(u % 256) != 0
        if k == 'int':
            w = T['w']; c = I.st.px.get('uview', {}).get(u.get_id())
            if c is not None and w == 64 and T.get('sg'): return c[1]
            v = u if w == 64 else u % (1 << w)
            return simp(z3.If(v >= (1 << (w - 1)), v - (1 << w), v)) if T.get('sg') else v
        if k == 'float': return simp(B2F(u))
        if k == 'ptr': return u
        raise Unsupported("union member of type " + T['s'])
    def store_u(I, loc, v, t):
        k = I.kind(t); T = I.tu.T(t)
        if k == 'int' and T['w'] == 64 or k == 'ptr':
            if isinstance(v, PyPtr) and v.loc.key == 'H' and len(v.loc.idx) == 1: v = v.loc.idx[0]
            if not z3.is_expr(v): raise Unsupported("pointer to a named object in a union")
            w0 = v; u = simp(z3.If(v < 0, v + (1 << 64), v)) if k == 'int' else v
            if k == 'int' and T.get('sg'): I.st.px['uview'] = {**I.st.px.get('uview', {}), u.get_id(): (u, w0)}
        elif k == 'float': u = F2B(v); I.fact(z3.And(B2F(u) == v, u >= 0, u < (1 << 64)))
        elif k in ('bool', 'int'):       # the other bytes are unspecified
            u = I.fresh('union', IntS); w = 8 if k == 'bool' else T['w']
            I.fact(z3.And(u >= 0, u < (1 << 64), u % (1 << w) == (z3.If(v, I_(1), I_(0)) if k == 'bool' else v % (1 << w))))
        else: raise Unsupported("union member of type " + T['s'])
        I.wrraw(loc.key, loc.idx, IntS, u)
    def field_type(I, own, name):
        c = getattr(I.tu, '_ft', None)
        if c is None:
            c = I.tu._ft = {}
            for r in I.tu.recs.values():
                for f in r.get('fields', []) or []: c.setdefault((r['n'], f['n']), f['t'])
        return c.get((own, name))
    def e_ImplicitCastExpr(I, e):
        ck = e['ck']; s = e['c'][0]
        if ck == 'LValueToRValue':
            v = I.ev(s)
            if isinstance(v, Loc):
                if v.key == '<chr>': return v.idx[0]
                return I.load(v, s['t'])
            if isinstance(v, tuple) and v[0] == 'chr': return I.spec_chr(v[1])
            return v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'UserDefinedConversion', 'ConstructorConversion', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            if ck == 'ArrayToPointerDecay':
                v = I.ev(s)
                if isinstance(v, Loc): return PyPtr(v.sub('.data', I.tu.T(e['t'])['to'], I_(0)))
                return v
            if ck in ('ConstructorConversion',): return I.ev(s)
            return I.ev(s)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
            v = I.ev(s)
            if isinstance(v, Loc): return Loc(v.key, v.idx, e['t'])
            return v
        if ck == 'IntegralCast': return I.conv_int(I.val(I.ev(s)), s['t'], e['t'])
        if ck == 'IntegralToBoolean':
            v = I.val(I.ev(s)); return v if z3.is_bool(v) else v != 0
        if ck == 'PointerToBoolean':
            v = I.val(I.ev(s))
            if isinstance(v, (PyPtr, CStr, FnRef)): return TRUE
            return v != 0
        if ck == 'NullToPointer': return I_(0)
        if ck in ('BitCast', 'LValueBitCast'):
            v = I.ev(s)
            return v
        if ck == 'ToVoid': 
            I.ev(s); return None
        if ck == 'IntegralToFloating':
            v = I.val(I.ev(s))
            if z3.is_bool(v): v = z3.If(v, I_(1), I_(0))
            v = simp(v)
            if is_num(v): return z3.FPVal(float(v.as_long()), F64)
            return I.to_float(v)
        if ck == 'FloatingCast': return I.val(I.ev(s))
        if ck == 'FloatingToBoolean':
            v = I.val(I.ev(s)); return z3.Not(z3.fpEQ(v, z3.FPVal(0.0, F64)))
        if ck == 'FloatingToIntegral':
            v = I.val(I.ev(s)); T = I.tu.T(e['t'])
            r = z3.ToInt(z3.fpToReal(z3.fpRoundToIntegral(z3.RTZ(), v)))
            w = T['w']; lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if T.get('sg') else (0, (1 << w) - 1)
            if hasattr(I.spec, 'fp_to_int'): return I.spec.fp_to_int(I, v, e)
            I.ob('floating value in range of the integer', z3.And(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v)), r >= lo, r <= hi), e)
            return r
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            return I.val(I.ev(s))
        raise Unsupported("cast " + ck)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    def e_CXXDynamicCastExpr(I, e):
        return I.spec.dynamic_cast(I, e)
    def e_CXXFunctionalCastExpr(I, e):
        if I.is_class(e['t']) and e['v'] == 'p': return I.temp(e)
        return I.e_ImplicitCastExpr(e)
    def e_ExprWithCleanups(I, e):
        I.temps.append([])
        try:
            v = I.ev(e['c'][0])
            # a scalar result must be read before the temporaries die
        except Ctl:
            ts = I.temps.pop(); I.destroy_all(ts); raise
        except PathEnd:
            I.temps.pop(); raise
        ts = I.temps.pop()
        if isinstance(v, Loc) and e['v'] == 'p' and I.is_class(e['t']):
            keep = [d for d in ts if d.loc.same(v)]
            ts = [d for d in ts if not d.loc.same(v)]
            I.temps[-1] += keep
        I.destroy_all(ts)
        return v
    def e_CXXBindTemporaryExpr(I, e): return I.temp(e)
    def e_MaterializeTemporaryExpr(I, e):
        s = e['c'][0]
        if I.is_class(s['t']):
            v = I.ev(s)
            if e.get('ext'):
                for ts in I.temps:
                    for d in list(ts):
                        if d.loc.same(v): ts.remove(d); I.scopes[-1].append(d)
            return v
        v = I.ev(s)
        if isinstance(v, Loc): return v
        l = I.new_local('tmp', s['t']); I.store(l, v); return l
    def temp(I, e):
        "class prvalue -> temporary object"
        l = I.new_local('tmp', e['t'])
        I.construct(e, l)
        if I.needs_dtor(e['t']): I.temps[-1].append(Dtor(l, e['t']))
        return l
    def e_CXXConstructExpr(I, e):
        if I.kind(e['t']) == 'opaque':
            pass
        return I.temp(e)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def e_LambdaExpr(I, e): return I.temp(e)
    def e_InitListExpr(I, e):
        if I.is_class(e['t']): return I.temp(e)
        if not e['c']: return I.zero(e['t'])
        return I.val(I.ev(e['c'][0]))
    def e_CXXStdInitializerListExpr(I, e): return I.temp(e)
    def e_ConditionalOperator(I, e):
        c = I.evc(e['c'][0])
        if I.choose(c): return I.ev(e['c'][1])
        return I.ev(e['c'][2])
    def e_UnaryOperator(I, e):
        op = e['op']; s = e['c'][0]
        if op == '!':
            return z3.Not(I.evc(s))
        if op == '__extension__': return I.ev(s)
        if op == '&':
            v = I.ev(s)
            if isinstance(v, tuple): return v[1]
            return I.addr_of(v) if isinstance(v, Loc) else v
        if op == '*':
            p = I.ev(s); p = I.val(p)
            if isinstance(p, FnRef): return p
            if isinstance(p, CStr): return ('chr', p)
            return I.deref(p, e['t'], e)
        if op in ('++', '--'):
            l = I.ev(s); v = I.load(l, s['t']); T = I.tu.T(s['t'])
            if T['k'] == 'ptr':
                n = I.ptr_add(v, I_(1 if op == '++' else -1))
            elif T['k'] == 'float': n = I.arith(op[0], v, z3.FPVal(1.0, F64), s['t'], e)
            else: n = I.norm(v + (1 if op == '++' else -1), s['t'], e)
            I.store(l, n, s['t'])
            return v if e['post'] else l
        v = I.val(I.ev(s))
        if op == '-':
            if z3.is_fp(v): return z3.fpNeg(v)
            return I.norm(-v, e['t'], e)
        if op == '+': return v
        if op == '~':
            T = I.tu.T(e['t']); return I.norm(-v - 1, e['t'], e) if T.get('sg') else (I_((1 << T['w']) - 1) - v)
        raise Unsupported("unary " + op)
    def ptr_add(I, v, k):
        if isinstance(v, CStr): return CStr(v.s, simp(v.off + k), v.nul)
        if isinstance(v, PyPtr) and v.loc.idx: return PyPtr(Loc(v.loc.key, v.loc.idx[:-1] + (simp(v.loc.idx[-1] + k),), v.loc.t))
        raise Unsupported("pointer arithmetic")
    def e_BinaryOperator(I, e):
        op = e['op']; a, b = e['c']
        if op == '&&':
            x = I.evc(a)
            if not I.choose(x): return FALSE
            return I.evc(b)
        if op == '||':
            x = I.evc(a)
            if I.choose(x): return TRUE
            return I.evc(b)
        if op == ',':
            I.ev(a); return I.ev(b)
        if op == '=':
            v = I.val(I.ev(b)); l = I.ev(a)
            I.assign_scalar(l, v, a['t'], e); return l
        x = I.val(I.ev(a), a['t']); y = I.val(I.ev(b), b['t'])
        if isinstance(x, tuple): x = I.spec_chr(x[1])
        if isinstance(y, tuple): y = I.spec_chr(y[1])
        ta = I.tu.T(a['t'])
        if op in ('==', '!='):
            if ta['k'] in ('ptr', 'nullptr', 'memptr') or isinstance(x, (PyPtr, CStr, FnRef, MemPtr)) or isinstance(y, (PyPtr, CStr, FnRef, MemPtr)): r = I.ptr_eq(x, y)
            elif z3.is_fp(x): r = z3.fpEQ(x, y)
            else: r = x == y
            return r if op == '==' else z3.Not(r)
        if op in ('<', '>', '<=', '>='):
            if z3.is_fp(x): return {'<': z3.fpLT, '>': z3.fpGT, '<=': z3.fpLEQ, '>=': z3.fpGEQ}[op](x, y)
            if isinstance(x, CStr) and isinstance(y, CStr): x, y = x.off, y.off
            return {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
        if ta['k'] == 'ptr':
            if op == '-' and I.tu.T(b['t'])['k'] == 'ptr':
                if isinstance(x, CStr) and isinstance(y, CStr): return x.off - y.off
                raise Unsupported("pointer difference")
            return I.ptr_add(x, y if op == '+' else -y)
        if isinstance(y, CStr): return I.ptr_add(y, x)
        return I.arith(op, x, y, e['t'], e)
    def assign_scalar(I, l, v, t, e):
        if isinstance(l, tuple): raise Unsupported("write through char pointer")
        I.store(l, v, t)
        if hasattr(I.spec, 'on_store'): I.spec.on_store(I, l, v, e)
    def e_CompoundAssignOperator(I, e):
        a, b = e['c']; op = e['op'][:-1]
        y = I.val(I.ev(b), b['t'])
        l = I.ev(a); x = I.load(l, a['t'])
        ct = e['ct']
        if I.tu.T(a['t'])['k'] == 'ptr': r = I.ptr_add(x, y if op == '+' else -y)
        elif I.tu.T(ct)['k'] == 'float':
            if not z3.is_fp(x): x = I.to_float(x)
            r = I.arith(op, x, y, ct, e)
            if I.tu.T(a['t'])['k'] != 'float': raise Unsupported("mixed compound assignment")
        else:
            if z3.is_bool(x) and z3.is_bool(y) and op in ('&', '|', '^'):
                r = {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](x, y)
                I.assign_scalar(l, r, a['t'], e); return l
            x = I.conv_int(x, a['t'], ct); 
            if I.tu.T(b['t'])['k'] in ('int', 'bool', 'enum') and op not in ('<<', '>>'): y = I.conv_int(y, b['t'], ct)
            r = I.conv_int(I.arith(op, x, y, ct, e), ct, a['t'])
        I.assign_scalar(l, r, a['t'], e)
        return l
    def e_ArraySubscriptExpr(I, e):
        b = I.val(I.ev(e['c'][0])); i = I.val(I.ev(e['c'][1]))
        if isinstance(b, CStr): return ('chr', CStr(b.s, simp(b.off + i), b.nul))
        p = I.ptr_add(b, i); l = p.loc
        I.array_bounds(l, I_(1), e)
        if hasattr(I.spec, 'on_subscript'): I.spec.on_subscript(I, l, e)
        return Loc(l.key, l.idx, e['t'])
    def spec_chr(I, cs):
        "character a char pointer points at (0 at the end)"
        I.ob('character read inside the string', z3.And(cs.off >= 0, cs.off <= z3.Length(cs.s)))
        if z3.is_string_value(simp(cs.s)) and is_num(simp(cs.off)):
            t = simp(cs.s).as_string(); o = simp(cs.off).as_long()
            if '\\u' not in t and o <= len(t): return I_(ord(t[o]) if o < len(t) else 0)
        c = z3.StrToCode(z3.SubString(cs.s, cs.off, 1)); I.fact(c <= 255)      # characters are bytes
        return z3.If(cs.off < z3.Length(cs.s), z3.If(c > 127, c - 256, c), I_(0))
    def e_CXXThrowExpr(I, e):
        if not e['c'] or e['c'][0] is None: raise I.st.px['exc'][-1] if I.st.px.get('exc') else Unsupported("rethrow")
        s = e['c'][0]
        if I.is_class(s['t']):
            l = I.new_local('exc', s['t']); I.construct(s, l)
            raise CppThrow(I.tu.T(s['t'])['n'], l, s['t'])
        v = I.val(I.ev(s)); l = I.new_local('exc', s['t']); I.store(l, v, s['t'])
        raise CppThrow(I.tu.T(s['t'])['s'], l, s['t'])
    def e_CXXNewExpr(I, e):
        if hasattr(I.spec, 'new'): 
            r = I.spec.new(I, e)
            if r is not None: return r
        if e.get('place'): raise Unsupported("placement new")
        t = e['at']
        if e['array']: return I.new_array(e, t)
        p = I.alloc(I.tu.T(t)['s'])
        l = Loc('H', (p,), t) if I.is_class(t) and (I.kind(t) == 'rec' or I.kind(t) in getattr(I.spec, 'plain_heap', ())) else Loc('HV<%s>' % I.tu.T(t)['s'], (p,), t)
        I.init_obj(l, t, e['init'] if e.get('init') is not None else e.get('ctorx'))
        return p if l.key == 'H' else PyPtr(l)
    def new_array(I, e, t):
        "array of scalars on the heap: contents HA<type>[pointer][index], length in ghost.asize"
        if I.is_class(t) or I.tu.T(t)['k'] == 'arr' or e.get('asize') is None: raise Unsupported("array new")
        n = I.val(I.ev(e['asize']))
        if e.get('init') is not None and e['init']['k'] not in ('ImplicitValueInitExpr', 'CXXScalarValueInitExpr'): raise Unsupported("initialised array new")
        I.ob('array length not negative', n >= 0, e); I.fact(n >= 0)
        p = I.alloc(I.tu.T(t)['s'] + '[]')
        a = I.gh('asize', z3.ArraySort(IntS, IntS)); I.setgh('asize', z3.Store(a, p, n))
        return PyPtr(Loc('HA<%s>' % I.tu.T(t)['s'].replace('const ', ''), (p, I_(0)), t))
    def array_bounds(I, l, n, node, off=None):
        "n elements from l lie inside a live heap array"
        if not l.key.startswith('HA<'): return
        p, i = l.idx
        I.ob('array used only while alive', sel(I.gh('alive', z3.ArraySort(IntS, BoolS)), p), node)
        I.ob('array access inside its bounds', z3.And(i >= 0, n >= 0, i + n <= sel(I.gh('asize', z3.ArraySort(IntS, IntS)), p)), node)
    def alloc(I, what):
        p = I.fresh('new', IntS)
        I.fact(p >= 1)
        a = I.gh('alive', z3.ArraySort(IntS, BoolS))
        I.fact(z3.Not(sel(a, p)))
        I.setgh('alive', z3.Store(a, p, TRUE))
        if hasattr(I.spec, 'on_new'): I.spec.on_new(I, p, what)
        return p
    def e_CXXDeleteExpr(I, e):
        if hasattr(I.spec, 'delete'):
            if I.spec.delete(I, e): return None
        p = I.val(I.ev(e['c'][0])); t = e['dt']
        if e['array'] or isinstance(p, PyPtr) and p.loc.key.startswith('HA<'):
            if is_null(p): return None
            if not (isinstance(p, PyPtr) and p.loc.key.startswith('HA<')): raise Unsupported("array delete")
            q, i = p.loc.idx; a = I.gh('alive', z3.ArraySort(IntS, BoolS))
            I.ob('array deleted as an array, from its beginning, while alive', z3.And(z3.BoolVal(bool(e['array'])), i == 0, sel(a, q)), e)
            I.setgh('alive', z3.Store(a, q, FALSE))
            if hasattr(I.spec, 'on_delete'): I.spec.on_delete(I, q, e)
            return None
        if isinstance(p, PyPtr) and p.loc.key.startswith('HV<'): pass
        elif isinstance(p, PyPtr): raise Unsupported("delete of a named object")
        q = p.loc.idx[0] if isinstance(p, PyPtr) else p
        if not I.choose(q != 0): return None
        if I.is_class(t) and not isinstance(p, PyPtr): I.destroy(Loc('H', (q,), t), t, dynamic=True)
        a = I.gh('alive', z3.ArraySort(IntS, BoolS))
        I.ob('object deleted only while alive', sel(a, q), e); I.fact(sel(a, q))
        I.setgh('alive', z3.Store(a, q, FALSE))
        if hasattr(I.spec, 'on_delete'): I.spec.on_delete(I, q, e)
    # ------------------------------------------------------------ object construction / destruction
    def needs_dtor(I, t):
        k = I.kind(t)
        if k in ('guard', 'ulock'): return True
        if k == 'rec':
            r = I.tu.rec(t)
            if r.get('lambda'): return False
            if r.get('trivdtor'): return False
            return True
        if k == 'opaque': return False
        return k in ('sptr', 'vec', 'list') and hasattr(I.spec, 'on_std_destroy')
    def destroy(I, loc, t, dynamic=False):
        k = I.kind(t)
        if k == 'guard':
            m = I.rdraw(loc.key + '.mtx', (), PYLEAF); I.mutex_unlock(m)
            return
        if k == 'ulock':
            m = I.rdraw(loc.key + '.mtx', (), PYLEAF); o = I.rdraw(loc.key + '.owns', (), BoolS)
            if I.choose(o): I.mutex_unlock(m)
            return
        if k != 'rec':
            if hasattr(I.spec, 'on_std_destroy'): I.spec.on_std_destroy(I, loc, t)
            return
        r = I.tu.rec(t)
        fn = I.tu.fns.get(r.get('dtor')) if r.get('dtor') else None
        if fn is not None and (fn.get('body') or (dynamic and fn.get('virtual'))):
            h = I.spec_call(fn, loc, [], None, {})
            if h is NOTHANDLED:
                c = I.find_contract(fn)
                if c is not None and not I.verifying(fn): I.apply_contract(c, fn, loc, [], None, {}); return
                if fn.get('body'): I.run_body(fn, loc, {}, None)
            else: return
        # members in reverse order, then bases
        for f in reversed(r.get('fields', []) or []):
            ft = f['t']
            if I.tu.T(ft)['k'] == 'rec' and I.needs_dtor(ft): I.destroy(loc.sub('.' + r['n'] + '::' + f['n'], ft), ft)
        for b in reversed(r.get('bases', []) or []):
            if I.kind(b) == 'rec' and I.needs_dtor(b): I.destroy(Loc(loc.key, loc.idx, b), b)
    def destroy_all(I, ds):
        for d in reversed(ds): I.destroy(d.loc, d.t)
    def construct(I, e, loc):
        "evaluate the class prvalue e into loc"
        k = e['k']
        if k in ('ExprWithCleanups',):
            I.temps.append([])
            try: I.construct(e['c'][0], loc)
            except Ctl:
                ts = I.temps.pop(); I.destroy_all(ts); raise
            except PathEnd: I.temps.pop(); raise
            I.destroy_all(I.temps.pop()); return
        if k in ('CXXBindTemporaryExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') or (k == 'ImplicitCastExpr' and e['ck'] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion')):
            s = e['c'][0]
            if I.is_class(s['t']) and s['v'] == 'p': return I.construct(s, loc)
            v = I.ev(s); I.copy_leaves(loc, v, e['t']); return
        if k == 'MaterializeTemporaryExpr': return I.construct(e['c'][0], loc)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            fn = I.tu.fns[e['ctor']]
            args = I.eval_args(fn, e['c'])
            return I.construct_call(fn, loc, e['t'], args, e)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            r = I.do_call(e, loc)
            if isinstance(r, Loc) and not r.same(loc): I.copy_leaves(loc, r, e['t'])
            elif r is not None and not isinstance(r, Loc): I.store_class(loc, e['t'], r)
            return
        if k == 'ConditionalOperator':
            return I.construct(e['c'][1] if I.choose(I.evc(e['c'][0])) else e['c'][2], loc)
        if k == 'LambdaExpr':
            caps = {}; this = None
            for c in e['caps']:
                if c.get('this'): this = I.frames[-1].this; continue
                if c['ref']:
                    caps[c['d']] = I.ev(c['init']) if c.get('init') else I.lookup(c['d'], e)
                else:
                    init = c['init']; cl = I.new_local('cap_' + c['n'], init['t'])
                    if I.is_class(init['t']): I.construct(init, cl)
                    else: I.store(cl, I.val(I.ev(init), init['t']), init['t'])
                    caps[c['d']] = cl
            cl = Closure(e, None, this, caps); cl.outer = I.frames[-1].closure
            I.wrraw(loc.key + '.closure', (), PYLEAF, cl); return
        if k == 'InitListExpr':
            fs = I.tu.fields(e['t'])
            if I.kind(e['t']) != 'rec': raise Unsupported("list initialisation of " + I.tu.T(e['t'])['s'])
            for (own, f), c in itertools.zip_longest(fs, e['c']):
                l = loc.sub('.' + own + '::' + f['n'], f['t'])
                I.init_obj(l, f['t'], c if c is not None else f.get('init'))
            return
        if k == 'CXXStdInitializerListExpr':
            return I.spec.init_list(I, e, loc)
        if k == 'CXXThrowExpr': return I.ev(e)
        v = I.ev(e)
        if isinstance(v, Loc): I.copy_leaves(loc, v, e['t']); return
        I.store_class(loc, e['t'], v)
    def store_class(I, loc, t, v):
        k = I.kind(t)
        if k in ('str', 'opaque', 'sptr', 'atomic', 'lit', 'manip'):
            if k == 'lit': raise Unsupported("iterator value")
            I.wrleaf(loc, '', leaves(I.tu, t)[0][1], v); return
        raise Unsupported("class value of " + I.tu.T(t)['s'])
    def init_obj(I, loc, t, init, zero_default=False):
        "initialise object/variable of type t with the initialiser expression (or default)"
        T = I.tu.T(t)
        if T['k'] == 'rec':
            if init is None: 
                k = I.kind(t)
                if k == 'rec': I.default_construct(loc, t)
                else: I.construct_call(None, loc, t, [], {})
                return
            if init['k'] in ('ImplicitValueInitExpr',): return I.default_construct(loc, t) if I.kind(t) == 'rec' else I.construct_call(None, loc, t, [], {})
            return I.construct(init, loc)
        if T['k'] == 'arr':
            if init is not None and init['k'] == 'InitListExpr':
                for i, c in enumerate(init['c']): I.init_obj(loc.sub('.data', T['to'], I_(i)), T['to'], c)
                return
            if init is None: return
            if init['k'] == 'StringLiteral': raise Unsupported("character array")
            return
        if init is None: return      # indeterminate
        if init['k'] == 'InitListExpr' and not init['c']: v = I.zero(t)
        else: v = I.val(I.ev(init), init['t'])
        if v is None: raise Unsupported("initialiser")
        I.store(loc, v, t)
    def default_construct(I, loc, t):
        r = I.tu.rec(t)
        if is_union(I.tu, t): return
        for b in r.get('bases', []) or []:
            if I.kind(b) == 'rec': I.default_construct(Loc(loc.key, loc.idx, b), b)
        for f in r.get('fields', []) or []:
            I.init_obj(loc.sub('.' + r['n'] + '::' + f['n'], f['t']), f['t'], f.get('init'))
    def construct_call(I, fn, loc, t, args, node):
        k = I.kind(t)
        if k == 'rec':
            if I.tu.rec(t).get('lambda'): I.copy_leaves(loc, args[0], t); return
            h = I.spec_call(fn, loc, args, None, node)
            if h is not NOTHANDLED: return
            c = I.find_contract(fn)
            if c is not None and not I.verifying(fn): I.apply_contract(c, fn, loc, args, None, node); return
            if fn.get('defaulted') and (fn.get('copyctor') or fn.get('movector')) and is_union(I.tu, t): I.copy_leaves(loc, args[0], t); return
            if fn.get('inits') is None and not fn.get('body'):
                # implicit/trivial
                if fn.get('copyctor') or fn.get('movector'):
                    return I.memberwise(loc, args[0], t)
                if fn.get('dfltctor') or not args: return I.default_construct(loc, t)
                raise Unsupported("constructor " + fn['qn'])
            I.used_fn(fn)
            env = I.bind(fn, args)
            fr = Frame(fn, loc, env); I.frames.append(fr)
            done = []
            depth = (len(I.scopes), len(I.temps))
            try:
                r = I.tu.rec(t)
                inited = set()
                for i in fn.get('inits', []) or []:
                    I.temps.append([])
                    if i.get('f') is not None:
                        ft = i['ft']; fl = loc.sub(I.fsuf(I.tu.T(fn['cls'])['n'], i['f']), ft)
                        if I.tu.T(ft)['k'] == 'ref': I.wrraw(fl.key, (), PYLEAF, I.ev(i['e']))
                        else:
                            I.init_obj(fl, ft, i['e'])
                            if I.tu.T(ft)['k'] == 'rec' and I.needs_dtor(ft): done.append(Dtor(fl, ft))
                    elif i.get('base') is not None:
                        bt = i['base']
                        if I.kind(bt) in ('exc',): 
                            I.construct(i['e'], Loc(loc.key, loc.idx, bt))
                        elif I.kind(bt) == 'rec': I.construct(i['e'], Loc(loc.key, loc.idx, bt)); done.append(Dtor(Loc(loc.key, loc.idx, bt), bt))
                        else: I.construct(i['e'], Loc(loc.key, loc.idx, bt))
                    else: I.construct(i['e'], loc)
                    I.destroy_all(I.temps.pop())
                try: I.exec_body(fn)
                except ReturnC: pass
            except CppThrow:
                del I.scopes[depth[0]:]; del I.temps[depth[1]:]
                I.destroy_all(done); I.frames.pop(); raise
            I.frames.pop()
            return
        return I.std_construct(fn, loc, t, args, node)
    def memberwise(I, dst, src, t):
        r = I.tu.rec(t)
        if is_union(I.tu, t): I.copy_leaves(dst, src, t); return
        for b in r.get('bases', []) or []:
            if I.kind(b) == 'rec': I.memberwise(Loc(dst.key, dst.idx, b), Loc(src.key, src.idx, b), b)
        for f in r.get('fields', []) or []:
            ft = f['t']; s = '.' + r['n'] + '::' + f['n']
            if I.tu.T(ft)['k'] == 'rec' and I.kind(ft) == 'rec':
                sub = I.tu.rec(ft)
                m = [I.tu.fns[x] for x in (sub.get('methods') or []) if I.tu.fns.get(x, {}).get('copyctor') and I.tu.fns[x].get('body')]
                if m: I.construct_call(m[0], dst.sub(s, ft), ft, [src.sub(s, ft)], {})
                else: I.memberwise(dst.sub(s, ft), src.sub(s, ft), ft)
            elif I.tu.T(ft)['k'] == 'ref': I.wrraw(dst.key + s, (), PYLEAF, I.rdraw(src.key + s, (), PYLEAF))
            else: I.copy_leaves(dst.sub(s, ft), src.sub(s, ft), ft)
    # ------------------------------------------------------------ calls
    def eval_args(I, fn, args):
        out = []
        ps = fn.get('params', []) if fn else []
        for i, a in enumerate(args):
            if a is None: out.append(None); continue
            pt = ps[i]['t'] if i < len(ps) else None
            v = I.ev(a)
            if pt is not None and I.tu.T(pt)['k'] != 'ref':
                if not I.is_class(pt) and isinstance(v, Loc): v = I.load(v, a['t'])
                if isinstance(v, tuple): v = I.spec_chr(v[1])
            out.append(v)
        return out
    def bind(I, fn, args):
        env = {}
        for p, a in itertools.zip_longest(fn.get('params', []), args):
            if p is None: break
            T = I.tu.T(p['t'])
            if T['k'] == 'ref':
                if not isinstance(a, (Loc, FnRef)):
                    if isinstance(a, tuple) or isinstance(a, CStr) and I.tu.T(T['to'])['k'] == 'arr': 
                        env[p['id']] = a; continue
                    l = I.new_local(p['n'] or 'arg', T['to']); I.store(l, a, T['to']); a = l
                env[p['id']] = a if not isinstance(a, Loc) else a
            elif T['k'] == 'rec':
                env[p['id']] = a   # a temporary made for this call
            else:
                l = I.new_local(p['n'] or 'arg', p['t'])
                if a is not None: I.store(l, a, p['t'])
                env[p['id']] = l
        return env
    def e_AtomicExpr(I, e):
        from stdmodel import gcc_atomic_expr
        return gcc_atomic_expr(I, e)
    def e_CallExpr(I, e):
        if I.is_class(e['t']) and e['v'] == 'p': return I.temp(e)
        return I.do_call(e, None)
    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr
    def do_call(I, e, ret):
        k = e['k']; fid = e.get('fn')
        if k == 'CXXMemberCallExpr':
            cal = e['callee']
            if cal['k'] == 'MemberExpr':
                base = cal['c'][0]
                if fid is None: raise Unsupported("indirect member call")
                fn = I.tu.fns[fid]
                b = I.ev(base)
                if cal['arrow']:
                    bt = I.tu.T(base['t'])['to'] if I.tu.T(base['t'])['k'] == 'ptr' else fn['cls']
                    b = I.deref(I.val(b, base['t']), bt, e)
                args = I.eval_args(fn, e['args'])
                return I.call(fn, b, args, ret, e, virtual=fn.get('virtual') and not e.get('qual'))
            if cal['k'] == 'BinaryOperator':     # (obj->*pm)(...)
                o = I.ev(cal['c'][0]); 
                if cal['op'] == '->*': o = I.deref(I.val(o, cal['c'][0]['t']), I.tu.T(cal['c'][0]['t'])['to'], e)
                pm = I.val(I.ev(cal['c'][1]), cal['c'][1]['t'])
                if isinstance(pm, FnRef) or isinstance(pm, MemPtr):
                    fn = I.tu.fns[pm.fid]; return I.call(fn, o, I.eval_args(fn, e['args']), ret, e, virtual=fn.get('virtual'))
                r = I.spec.indirect_call(I, pm, o, e, ret)
                if r is not NOTHANDLED: return r
                raise Unsupported("call through member pointer")
        if fid is None:
            c = I.ev(e['callee'])
            if isinstance(c, Loc) : c = I.rdraw(c.key, c.idx, PYLEAF)
            if isinstance(c, FnRef): fid = c.fid
            else: raise Unsupported("indirect call")
        fn = I.tu.fns[fid]
        args = e['args']
        if k == 'CXXOperatorCallExpr' and fn.get('cls') is not None and not fn.get('static'):
            # member operator: for assignments the right operand is evaluated first
            if e['op'] == '=' and len(args) == 2:
                av = I.eval_args(fn, args[1:]); b = I.ev(args[0])
            else:
                b = I.ev(args[0]); av = I.eval_args(fn, args[1:])
            return I.call(fn, b, av, ret, e, virtual=fn.get('virtual'))
        return I.call(fn, None, I.eval_args(fn, args), ret, e)
    def spec_call(I, fn, this, args, ret, node):
        h = getattr(I.spec, 'handlers', {}).get(strip_targs(fn['qn'])) if fn else None
        if h is None: return NOTHANDLED
        return h(I, fn, this, args, ret, node)
    def used_fn(I, fn): I.fns_used.add(strip_targs(fn['qn']) + ('(%s)' % ', '.join(I.tu.T(p['t'])['s'] for p in fn['params']) if SIGS else ''))
    def find_contract(I, fn):
        if I.inline and fn.get('body') is not None and fn.get('ours'): return None       # bounded confirmation: the body itself
        for c in getattr(I.spec, 'contracts', []):
            if c.match(I.tu, fn): return c
        return None
    def verifying(I, fn): return getattr(I, 'target', None) is not None and I.target.get('id') == fn.get('id') and len(I.frames) == 0
    def apply_contract(I, c, fn, this, args, ret, node):
        I.contracts_used.add((c.name, fn['id']))
        return c.apply(I, fn, this, args, ret, node)
    def call(I, fn, this, args, ret, node, virtual=False):
        if I.deadline and time.time() > I.deadline: raise Unsupported("time budget of this function exhausted")
        r = I.spec_call(fn, this, args, ret, node)
        if r is not NOTHANDLED: return r
        if virtual and this is not None:
            fn2 = I.resolve_virtual(fn, this, node)
            if fn2 is None: raise Unsupported("virtual call of " + fn['qn'])
            if fn2 is not fn:
                fn = fn2
                r = I.spec_call(fn, this, args, ret, node)
                if r is not NOTHANDLED: return r
        c = I.find_contract(fn)
        if c is not None and not I.verifying(fn): return I.apply_contract(c, fn, this, args, ret, node)
        # lambdas
        if this is not None and isinstance(this, Loc) and this.t is not None and I.kind(this.t) == 'rec' and (I.tu.rec(this.t) or {}).get('lambda') and fn['n'] == 'operator()':
            cl = I.rdraw(this.key + '.closure', (), PYLEAF)
            return I.run_body(fn, cl.this, I.bind(fn, args), ret, closure=cl)
        if fn.get('defaulted') and (fn.get('copyassign') or fn.get('moveassign')) and is_union(I.tu, fn['cls']): I.copy_leaves(this, args[0], fn['cls']); return this
        if fn.get('body') is not None and fn.get('ours'):
            if getattr(I.spec, 'merge', False) and ret is None:
                r = I.merged(fn, this, args)
                if r is not NOTHANDLED: return r
            return I.run_body(fn, this, I.bind(fn, args), ret)
        if fn.get('ours') and (fn.get('copyassign') or fn.get('moveassign')) and I.kind(fn['cls']) != 'opaque':
            I.assign_members(this, args[0], fn['cls']); return this
        return I.std_call(fn, this, args, ret, node)
    def merged(I, fn, this, args):
        "a function that only reads: its paths end in one conditional value"
        if fn.get('ctor') or fn.get('dtor') or not (fn.get('const') or fn.get('static')) or I.kind(fn['ret']) not in ('int', 'bool', 'cstr', 'enum', 'float'): return NOTHANDLED
        if getattr(I, 'nomerge', None) is None: I.nomerge = set()
        if fn['id'] in I.nomerge: return NOTHANDLED
        st0 = I.st; n0 = len(st0.pc); px0 = dict(st0.px); c0 = I.counter; fr0, sc0, te0 = list(I.frames), [list(x) for x in I.scopes], [list(x) for x in I.temps]; outs = []; bad = []; rec = I.record; obs0 = len(I.obs)
        def run():
            I.st = st0.copy(); I.counter = c0; I.frames = list(fr0); I.scopes = [list(x) for x in sc0]; I.temps = [list(x) for x in te0]; I.st.wlog = set(); I._newqs()
            try: v = I.run_body(fn, this, I.bind(fn, args), None)
            except (CppThrow, Unsupported): bad.append(1); raise PathEnd()
            if v is None or any(not k.startswith('$') for k in I.st.wlog) or set(I.st.px) != set(px0) or any(I.st.px[k] is not px0[k] for k in px0): bad.append(1); raise PathEnd()
            outs.append((I.st.pc[n0:], v, I.counter))
        I.record = False
        try: I.explore(run, 40)
        except Unsupported: bad.append(1)
        finally: I.record = rec
        if bad or not outs or len(outs) < 2: I.nomerge.add(fn['id']); return NOTHANDLED
        vs = [v for _, v, _ in outs]; cs = all(isinstance(v, CStr) and not v.nul and is_num(simp(v.off)) and simp(v.off).as_long() == 0 for v in vs)
        if not cs and not all(z3.is_expr(v) and v.sort() == vs[0].sort() for v in vs): I.nomerge.add(fn['id']); return NOTHANDLED
        if I.record: I.explore(run, 40)           # once more, for its obligations
        r = vs[-1].s if cs else vs[-1]
        for pc, v, _ in reversed(outs[:-1]): r = z3.If(z3.And([TRUE] + list(pc)), v.s if cs else v, r)
        I.counter = max(c for _, _, c in outs); r = simp(r)
        return CStr(r) if cs else r
    def assign_members(I, dst, src, t):
        r = I.tu.rec(t)
        if is_union(I.tu, t): I.copy_leaves(dst, src, t); return
        for b in r.get('bases', []) or []:
            if I.kind(b) == 'rec': I.assign_members(Loc(dst.key, dst.idx, b), Loc(src.key, src.idx, b), b)
        for f in r.get('fields', []) or []:
            ft = f['t']; s = '.' + r['n'] + '::' + f['n']; fd, fs = dst.sub(s, ft), src.sub(s, ft)
            if I.kind(ft) == 'rec':
                m = [I.tu.fns[x] for x in (I.tu.rec(ft).get('methods') or []) if I.tu.fns.get(x, {}).get('copyassign') and I.tu.fns[x].get('body')]
                if m: I.call(m[0], fd, [fs], None, {})
                else: I.assign_members(fd, fs, ft)
            else: I.copy_leaves(fd, fs, ft)
    def resolve_virtual(I, fn, this, node):
        if hasattr(I.spec, 'resolve_virtual'):
            r = I.spec.resolve_virtual(I, fn, this, node)
            if r is not None: return r
        if strip_targs(fn['qn']).startswith('std::') and fn['n'] == 'what': return fn      # every exception answers what()
        # object with a statically known class
        t = this.t
        if this.key != 'H' and t is not None: return I.overrider(fn, t)
        dyn = I.st.px.get('dyn', {}).get(this.idx[0].get_id()) if this.idx else None
        if dyn is not None: return I.overrider(fn, dyn)
        return None
    def overrider(I, fn, t):
        "final overrider of fn in class t"
        r = I.tu.rec(t)
        if r is None: return None
        for m in r.get('methods') or []:
            f = I.tu.fns.get(m)
            if f and (f['id'] == fn['id'] or fn['id'] in I.all_overridden(f)): return f
        for b in r.get('bases') or []:
            x = I.overrider(fn, b)
            if x: return x
        return None
    def all_overridden(I, f):
        out = set(); st = list(f.get('overrides') or [])
        while st:
            x = st.pop()
            if x in out: continue
            out.add(x); st += I.tu.fns.get(x, {}).get('overrides') or []
        return out
    def run_body(I, fn, this, env, ret, closure=None):
        if len(I.frames) > 60: raise Unsupported("recursion too deep in " + fn['qn'])
        I.used_fn(fn)
        fr = Frame(fn, this, env); fr.ret = ret; fr.closure = closure
        I.frames.append(fr)
        depth = (len(I.scopes), len(I.temps), len(I.frames))
        try:
            try:
                I.exec_body(fn); rv = None
            except ReturnC as r: rv = r.v
        except CppThrow as x:
            del I.scopes[depth[0]:]; del I.temps[depth[1]:]; del I.frames[depth[2] - 1:]
            if fn.get('noexcept'):
                if hasattr(I.spec, 'on_terminate'): I.spec.on_terminate(I, fn, x)
                else: I.ob('no exception leaves a noexcept function', FALSE, fn.get('loc', ''))
                raise PathEnd()
            raise
        I.frames.pop()
        return rv
    def exec_body(I, fn): I.ex(fn['body'])
    # ------------------------------------------------------------ statements
    def ex(I, s):
        if s is None: return
        if I.deadline and time.time() > I.deadline: raise Unsupported("time budget of this function exhausted")
        m = getattr(I, 's_' + s['k'], None)
        if m is not None: return m(s)
        I.temps.append([])
        try: I.ev(s)
        except Ctl:
            I.destroy_all(I.temps.pop()); raise
        except PathEnd: I.temps.pop(); raise
        I.destroy_all(I.temps.pop())
    def scope(I, f):
        I.scopes.append([])
        try: r = f()
        except Ctl as c:
            sc = I.scopes.pop()
            I.destroy_all(sc); raise
        except BaseException:
            I.scopes.pop(); raise
        I.destroy_all(I.scopes.pop())
        return r
    def s_CompoundStmt(I, s):
        def go():
            for c in s['c']: I.ex(c)
        I.scope(go)
    def s_NullStmt(I, s): pass
    def s_PyStmt(I, s): s['py']()
    def s_DeclStmt(I, s):
        for d in s['decls']:
            if d.get('other'): continue
            if d.get('decomp'): raise Unsupported("structured binding")
            I.decl(d)
    def decl(I, d):
        T = I.tu.T(d['t'])
        if d.get('sl'):
            h = I.spec.static_local(I, d) if hasattr(I.spec, 'static_local') else None
            if h is None:
                if T.get('const') and d.get('init') is not None and I.kind(d['t']) in ('int', 'bool', 'float', 'cstr', 'str'):
                    pass
                elif T['k'] == 'arr' and d.get('init') is not None and (T.get('const') or I.tu.T(T['to']).get('const')): pass
                else: raise Unsupported("static local " + d['n'])
            else: I.frames[-1].env[d['id']] = h; return
        I.temps.append([])
        if T['k'] == 'ref':
            v = I.ev(d['init'])
            if not isinstance(v, (Loc, FnRef, tuple)): 
                l = I.new_local(d['n'], T['to']); I.store(l, v, T['to']); v = l
            I.frames[-1].env[d['id']] = v
        else:
            l = I.new_local(d['n'], d['t'])
            I.init_obj(l, d['t'], d.get('init'))
            I.frames[-1].env[d['id']] = l
            if T['k'] == 'rec' and I.needs_dtor(d['t']): I.scopes[-1].append(Dtor(l, d['t']))
        I.destroy_all(I.temps.pop())
    def s_ReturnStmt(I, s):
        e = s['c'][0] if s.get('c') else None
        if e is None: raise ReturnC(None)
        fr = I.frames[-1]; rt = I.tu.T(fr.fn['ret'])
        I.temps.append([])
        try:
            if rt['k'] == 'rec':
                if fr.ret is None: fr.ret = I.new_local('ret', fr.fn['ret'])
                I.construct(e, Loc(fr.ret.key, fr.ret.idx, fr.fn['ret'])); v = fr.ret
            elif rt['k'] == 'ref':
                v = I.ev(e)
            else:
                v = I.ev(e)
                if isinstance(v, Loc): v = I.load(v, e['t'])
                if isinstance(v, tuple): v = I.spec_chr(v[1])
        except Ctl:
            I.destroy_all(I.temps.pop()); raise
        except PathEnd: I.temps.pop(); raise
        I.destroy_all(I.temps.pop())
        raise ReturnC(v)
    def s_IfStmt(I, s):
        def go():
            if s.get('init'): I.ex(s['init'])
            if s.get('known'):
                I.ex(s.get('taken')); return
            if s.get('cvar'): I.decl(s['cvar'])
            I.temps.append([])
            try: c = I.evc(s['cond']); d = I.choose(c)
            except Ctl: I.destroy_all(I.temps.pop()); raise
            except PathEnd: I.temps.pop(); raise
            I.destroy_all(I.temps.pop())
            I.ex(s['then'] if d else s.get('else'))
        I.scope(go)
    def s_BreakStmt(I, s): raise BreakC()
    def s_ContinueStmt(I, s): raise ContinueC()
    def s_CXXTryStmt(I, s):
        depth = (len(I.scopes), len(I.temps), len(I.frames))
        try: I.ex(s['body'])
        except CppThrow as x:
            del I.scopes[depth[0]:]; del I.temps[depth[1]:]; del I.frames[depth[2]:]
            for h in s['hs']:
                if h.get('ct') is None or I.exc_matches(x, h['ct']):
                    I.st.px.setdefault('exc', []).append(x)
                    def go():
                        if h.get('var') is not None and x.obj is not None: I.frames[-1].env[h['var']['id']] = x.obj
                        I.ex(h['body'])
                    I.scope(go)
                    I.st.px['exc'].pop()
                    return
            raise
    def exc_matches(I, x, ct):
        T = I.tu.T(I.tu.deref(ct))
        if T['k'] != 'rec': return x.what is not None and I.tu.T(x.what)['s'].replace('const ', '') == T['s'].replace('const ', '')
        if x.what is None: return T['n'] in I.std_exc_bases(x.tname)
        return I.is_base(x.what, T['n'])
    def std_exc_bases(I, n):
        b = {n}
        if n.startswith('std::'): b.add('std::exception')
        if n in ('std::runtime_error',): b.add('std::runtime_error')
        if n in ('std::invalid_argument', 'std::out_of_range', 'std::length_error'): b.add('std::logic_error')
        if n in ('std::regex_error',): b.add('std::runtime_error')
        return b
    def is_base(I, t, n):
        T = I.tu.T(t)
        if T.get('n') == n: return True
        if T['k'] != 'rec': return False
        r = I.tu.recs.get(T['rid']) or {}
        return any(I.is_base(b, n) for b in r.get('bases') or [])
    def s_SwitchStmt(I, s):
        I.temps.append([])
        v = I.val(I.ev(s['cond']), s['cond']['t'])
        I.destroy_all(I.temps.pop())
        body = s['body']; items = body['c'] if body['k'] == 'CompoundStmt' else [body]
        # flatten: list of (labels, stmt)
        flat = []
        for st in items:
            labs = []
            while st is not None and st['k'] in ('CaseStmt', 'DefaultStmt'):
                labs.append(('case', st['lhs']) if st['k'] == 'CaseStmt' else ('default', None)); st = st['sub']
            flat.append((labs, st))
        start = None; dflt = None
        for i, (labs, st) in enumerate(flat):
            for kind, lhs in labs:
                if kind == 'default': dflt = i; continue
                if start is None:
                    c = I.val(I.ev(lhs))
                    if I.choose(v == c): start = i
            if start is not None: break
        if start is None: start = dflt
        if start is None: return
        def go():
            for labs, st in flat[start:]: I.ex(st)
        try: I.scope(go)
        except BreakC: pass
    # ------------------------------------------------------------ loops
    def s_WhileStmt(I, s):
        if s.get('cvar'): raise Unsupported("condition variable in while")
        I.loop(s, lambda: I.cond(s['cond']), s['body'], None)
    def s_DoStmt(I, s):
        # first iteration without test, then a while loop
        c = simp_const(s['cond'])
        if c is False:
            def go():
                try: I.ex(s['body'])
                except ContinueC: pass
            try: go()
            except BreakC: pass
            return
        I.loop(s, lambda: I.cond(s['cond']), s['body'], None, post=True)
    def s_ForStmt(I, s):
        def go():
            if s.get('init'): I.ex(s['init'])
            I.loop(s, (lambda: I.cond(s['cond'])) if s.get('cond') else (lambda: TRUE), s['body'], s.get('inc'))
        I.scope(go)
    def s_CXXForRangeStmt(I, s):
        def go():
            if s.get('init'): I.ex(s['init'])
            for x in (s['range'], s['begin'], s['end']): I.ex(x)
            I.loop(s, lambda: I.cond(s['cond']), {'k': 'CompoundStmt', 'c': [s['lv'], s['body']], 'l': s['l']}, s['inc'])
        I.scope(go)
    def cond(I, e):
        I.temps.append([])
        try: c = I.evc(e)
        except Ctl: I.destroy_all(I.temps.pop()); raise
        except PathEnd: I.temps.pop(); raise
        I.destroy_all(I.temps.pop())
        return c
    def loop(I, s, cond, body, inc, post=False):
        import loops
        return loops.run_loop(I, s, cond, body, inc, post)
    # mutexes -------------------------------------------------------------
    def mutex_lock(I, m, node=None):
        if hasattr(I.spec, 'on_lock') and I.spec.on_lock(I, m, node) is True: return
        h = I.rdraw(m.key + '.held', m.idx, BoolS)
        I.ob('mutex acquired without holding it already', z3.Not(h), node)
        I.fact(z3.Not(h))
        I.wrraw(m.key + '.held', m.idx, BoolS, TRUE)
        if hasattr(I.spec, 'after_lock'): I.spec.after_lock(I, m, node)
    def mutex_unlock(I, m, node=None):
        if hasattr(I.spec, 'on_unlock') and I.spec.on_unlock(I, m, node) is True: return
        h = I.rdraw(m.key + '.held', m.idx, BoolS)
        I.ob('mutex released only while held', h, node)
        if hasattr(I.spec, 'before_unlock'): I.spec.before_unlock(I, m, node)
        I.wrraw(m.key + '.held', m.idx, BoolS, FALSE)
    # ------------------------------------------------------------ std
    def std_construct(I, fn, loc, t, args, node):
        import stdmodel
        return stdmodel.construct(I, fn, loc, t, args, node)
    def std_call(I, fn, this, args, ret, node):
        import stdmodel
        return stdmodel.call(I, fn, this, args, ret, node)

NOTHANDLED = object()
def I_(n): return z3.IntVal(n)
def is_null(x): return z3.is_expr(x) and z3.is_int_value(x) and x.as_long() == 0
def is_zero(x): return z3.is_int_value(x) and x.as_long() == 0
def simp_const(e):
    while e and e['k'] in ('ImplicitCastExpr', 'ExprWithCleanups'): e = e['c'][0]
    if e and e['k'] == 'CXXBoolLiteralExpr': return bool(e['val'])
    if e and e['k'] == 'IntegerLiteral': return int(e['val']) != 0
    return None
def short(l):
    return l.replace('/repo/src/include/', '').replace('/repo/src/', '').replace('/repo/', '')
def model_str(m):
    try:
        return "counter-model: " + "; ".join("%s = %s" % (d.name(), str(m[d]).replace('\n', ' ')[:200]) for d in sorted(m.decls(), key=lambda d: d.name()) if not d.name().startswith('k!'))[:4000]
    except Exception as x: return "counter-model (%s)" % x
