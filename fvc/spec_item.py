"""Contracts of Item, ItemData, the handlers, Code and distribute.

Ownership: ghost.alive says which heap objects are alive, ghost.kindof what they were allocated as.  An item
is well formed when its handler is one of the six of HandlerFactory and, for a deep kind, its pointer is a
live object of that kind; nobody else owns that object.  Every function that makes, copies, replaces or ends
an item is verified against what it does to the live objects: exactly its own comes or goes."""
from core import *
from interp import *
from contract import *
import loops, stdmodel, stdmodel2
from stdmodel2 import int_str, EMPTY, S, FLTSTR, BIGSTR, BIGINT, BIGNUL, BIGZERO, STRTOLL, sval
from stdmodel import cstr_val
IT, HF, CD = 'falcon::Item', 'falcon::HandlerFactory', 'falcon::Code'
AB = z3.ArraySort(IntS, BoolS); AI = z3.ArraySort(IntS, IntS)
KINDS = {'nil': 'NilHandler', 'bool': 'BoolHandler', 'int': 'IntHandler', 'float': 'FloatHandler', 'string': 'StringHandler', 'bignum': 'BigNumHandler'}
GLOB = {'nil': 'nilHandler', 'bool': 'boolHandler', 'int': 'intHandler', 'float': 'floatHandler', 'string': 'stringHandler', 'bignum': 'bigNumHandler'}
DEEP = {'string': 1, 'bignum': 2}
NAMES = {'nil': 'Nil', 'bool': 'Bool', 'int': 'Int', 'float': 'Float', 'string': 'String', 'bignum': 'BigNum'}

class ItemSpec:
    prove_ms = 6000; peel = 4; plain_heap = ('str', 'big')
    def __init__(s, tu, prop):
        s.tu = tu; s.prop = prop; s.contracts = []
        s.handlers = {'vf::' + n: s.observe for n in ('o_bool', 'o_int', 'o_uint', 'o_flt', 'o_str', 'o_big')}
        s.cls = {r['n']: i for i, r in tu.recs.items()}
        s.missing = [c for c in ['falcon::' + k for k in KINDS.values()] + [IT] if not any(r['n'] == c for r in tu.recs.values())]
    def begin(s, I, x):
        if s.missing: raise Unsupported("classes the contracts speak of are gone: " + ', '.join(s.missing))
        I.gh('alive', AB); I.gh('kindof', AI); I.gh('asize', AI)
    def ob_filter(s, I, name):
        mem = 'alive' in name or 'object of that kind' in name or 'bounds' in name
        return not (mem and s.prop == 'C30')
    def on_put(s, I, os, text, node): pass
    def resolve_virtual(s, I, fn, this, node):
        for v in s.tu.vars.values():
            if this.key == 'G.' + str(v.get('qn')): return I.overrider(fn, v['t'])
        return None
    def what_kind(s, t):
        k = kind_of(s.tu, t)
        return 1 if k == 'str' else 2 if k == 'big' else 3 if k == 'rec' else 0
    def on_new(s, I, p, what):
        pass
    def on_deref(s, I, p, t, node):
        if s.what_kind(t): I.ob('object used only while alive', sel(I.gh('alive', AB), p), node)
        if s.what_kind(t) in (1, 2): I.ob('pointer refers to an object of that kind', sel(I.gh('kindof', AI), p) == s.what_kind(t), node)
    def new(s, I, e):
        k = s.what_kind(e['at'])
        if e['array'] or k not in (1, 2): return None
        t = e['at']; p = I.alloc(I.tu.T(t)['s'])
        I.setgh('kindof', z3.Store(I.gh('kindof', AI), p, I_(k)))
        I.init_obj(Loc('H', (p,), t), t, e['init'] if e.get('init') is not None else e.get('ctorx'))
        return p
    def delete(s, I, e):
        if e['array']: return False
        k = s.what_kind(e['dt'])
        p = I.val(I.ev(e['c'][0]))
        if not z3.is_expr(p): raise Unsupported("delete of a named object")
        if not I.choose(p != 0): return True
        if k == 0: I.ob('object deleted as what it is', FALSE, e)
        a = I.gh('alive', AB)
        I.ob('object deleted only while alive', sel(a, p), e); I.fact(sel(a, p))
        I.ob('deleted pointer refers to an object of that kind', sel(I.gh('kindof', AI), p) == k, e)
        I.setgh('alive', z3.Store(a, p, FALSE))
        return True
    def observe(s, I, fn, this, args, ret, node):
        tag = simp(I.val(args[0])).as_long(); a = args[1]; n = fn['n']
        v = I.rdleaf(a, '.big', BigS) if n == 'o_big' else sval(I, a) if n == 'o_str' else I.val(a)
        I.st.px.setdefault('obs', []).append((tag, v))
        return None
    # ---- well formed items
    def handler(s, I, kind):
        q = HF + '::' + GLOB[kind]
        v = [v for v in s.tu.vars.values() if v.get('qn') == q]
        if not v: raise Unsupported("handler %s is gone" % q)
        return PyPtr(Loc('G.' + q, (), v[0]['t']))
    def pick(s, I, name):
        for k in list(KINDS)[:-1]:
            if I.choose(I.fresh('%s_is_%s' % (name, k), BoolS)): return k
        return 'bignum'
    def item(s, I, name, t, kind=None, owned=()):
        "an arbitrary well formed item; its deep value is not one of owned"
        kind = kind or s.pick(I, name)
        u = I.fresh(name + '_bits', IntS); I.fact(z3.And(u >= 0, u < (1 << 64)))
        I.wrraw('%s.%s::data.u' % (name, IT), (), IntS, u); I.wrraw('%s.%s::handler' % (name, IT), (), IntS, s.handler(I, kind))
        if kind in DEEP:
            I.fact(z3.And(u >= 1, sel(I.gh('alive', AB), u), sel(I.gh('kindof', AI), u) == DEEP[kind]))
            for o in owned: I.fact(u != o)
        I.st.px.setdefault('kind', {})[name] = kind
        return Loc(name, (), t)
    def bits(s, I, name, mem=None): return I.rdraw('%s.%s::data.u' % (name, IT), (), IntS, mem)
    def kindnow(s, I, name):
        h = I.rdraw('%s.%s::handler' % (name, IT), (), IntS)
        if not isinstance(h, PyPtr): return None
        for k, g in GLOB.items():
            if h.loc.key == 'G.%s::%s' % (HF, g): return k
        return None
    def content(s, I, kind, p, mem=None):
        return I.rdraw('H', (p,), StrS, mem) if kind == 'string' else I.rdraw('H.big', (p,), BigS, mem)
    def same_value(s, I, kind, a, b, mem=None):
        "bits of two items of one kind mean the same value (b: as it was in mem)"
        if kind in DEEP: return s.content(I, kind, a) == s.content(I, kind, b, mem)
        if kind == 'nil': return TRUE
        if kind == 'bool': return a % 256 == b % 256
        return a == b

def vkind(tu, t):
    k = kind_of(tu, t); T = tu.T(t)
    if k == 'bool': return 'bool'
    if k == 'int': return 'int'
    if k == 'float': return 'float'
    if k in ('str', 'cstr'): return 'string'
    if k == 'big': return 'bignum'
    return 'nil'

class IC(Contract):
    def __init__(s, name, qn, **kw): s.name = name; s.qn = qn; s.__dict__.update(kw)
    def match(s, tu, fn): return strip_targs(fn['qn']) == s.qn and (not hasattr(s, 'sel') or s.sel(tu, fn))
    def targets(s, tu): return [f for f in tu.fns.values() if (f.get('body') is not None or f.get('inits') is not None) and s.match(tu, f)]
    def frame(s, I, x): return None
    def invoke(s, I, x): return default_invoke(I, x)
    def post_exc(s, I, x): return [('no exception escapes', FALSE)]
    def arg(s, I, x, p, n):
        t = I.tu.deref(p['t']); k = I.kind(t); T = I.tu.T(t)
        if k == 'str': 
            l = Loc('$arg%d' % n, (), t); v = I.fresh('text', StrS); I.wrleaf(l, '', StrS, v); I.fact(z3.Length(v) < (1 << 62)); return l, v
        if k == 'cstr':
            v = I.fresh('text', StrS); I.fact(z3.Not(z3.Contains(v, stdmodel2.NUL))); return CStr(v), v
        if k == 'big': l = Loc('$arg%d' % n, (), t); v = I.fresh('big', BigS); I.wrleaf(l, '.big', BigS, v); return l, v
        if k == 'int': v = I.fresh('value', IntS); I.rng(v, t)
        elif k == 'bool': v = I.fresh('value', BoolS)
        elif k == 'float': v = I.fresh('value', F64)
        elif T['k'] == 'rec': return Loc('$arg%d' % n, (), t), None
        else: raise Unsupported("argument")
        if I.tu.T(p['t'])['k'] == 'ref': l = Loc('$arg%d' % n, (), t); I.store(l, v, t); return l, v
        return v, v
    def setup(s, I, x):
        x.this = None; x.args = []; x.vals = []
        for n, p in enumerate(x.fn['params']): a, v = s.arg(I, x, p, n); x.args.append(a); x.vals.append(v)
    def pre(s, I, x): return []

def expect(I, kind, v, t):
    "tag -> (condition under which the property speaks, expected value)"
    st = lambda q: z3.StringVal(q)
    e = {4: (TRUE, st(NAMES[kind])), 5: (TRUE, z3.BoolVal(kind not in DEEP)), 6: (TRUE, TRUE)}
    if kind == 'nil': e.update({1: (TRUE, I_(0)), 2: (TRUE, FALSE), 3: (TRUE, st('nil'))})
    elif kind == 'bool': e.update({1: (TRUE, z3.If(v, I_(1), I_(0))), 2: (TRUE, v), 3: (TRUE, z3.If(v, st('true'), st('false'))), 7: (TRUE, v)})
    elif kind == 'int':
        r = v < (1 << 63)
        e.update({1: (r, v), 2: (TRUE, v != 0), 3: (r, int_str(v)), 8: (r, v), 9: (v >= 0, v)})
    elif kind == 'float':
        e.update({2: (TRUE, z3.Not(z3.fpEQ(v, z3.FPVal(0.0, F64)))), 3: (TRUE, FLTSTR(v, I_(6), I_(0))), 10: (TRUE, v)})
    elif kind == 'string': e.update({1: (TRUE, STRTOLL(z3.If(z3.Contains(v, stdmodel2.NUL), stdmodel2.CUT(v), v), I_(10))), 2: (TRUE, v != EMPTY), 3: (TRUE, v), 11: (TRUE, v)})
    else: e.update({1: (TRUE, BIGINT(v, I_(64))), 2: (TRUE, z3.Not(BIGNUL(v))), 3: (TRUE, BIGSTR(v, I_(6), I_(0))), 12: (TRUE, v)})
    return e
WHAT = {1: 'toInt', 2: 'toBool', 3: 'toString', 4: 'typeName', 5: 'isFlat', 6: 'isCopyFlat', 7: 'get<bool>', 8: 'get<int64>', 9: 'get<uint64>', 10: 'get<numeric>', 11: 'get<String>', 12: 'get<BigNum>'}
class CView(IC):
    "an item, however it came to be, shows the value it was made from; nothing is left behind"
    def post(s, I, x):
        t = I.tu.deref(x.fn['params'][0]['t']); kind = vkind(I.tu, t); e = expect(I, kind, x.vals[0], t); out = []
        obs = I.st.px.get('obs', [])
        if s.vals:
            for tag, v in obs:
                c, w = e[tag]; out.append(('%s of an item of kind %s' % (WHAT[tag], NAMES[kind]), z3.Implies(c, v == w)))
            out.append(('the item was looked at', z3.BoolVal(len(obs) >= 5)))
        if I.spec.prop == 'C31': out.append(('every object is released exactly once', I.gh('alive', AB) == x.old.get('ghost.alive', z3.Const('ghost.alive!0', AB))))
        return out
class CFloatInt(IC):
    def setup(s, I, x):
        IC.setup(s, I, x); v = x.vals[0]
        I.fact(z3.And(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v)), z3.fpGEQ(v, z3.FPVal(-9223372036854775808.0, F64)), z3.fpLT(v, z3.FPVal(9223372036854775808.0, F64))))
        r = z3.ToInt(z3.fpToReal(z3.fpRoundToIntegral(z3.RTZ(), v)))
        I.fact(z3.And(r >= -(1 << 63), r < (1 << 63)))       # follows from the range of v (both bounds are integers)
        x.trunc = r
    def post(s, I, x): return [('toInt truncates', z3.And([v == x.trunc for t, v in I.st.px.get('obs', [])] or [FALSE]))]
def alive0(x): return x.old.get('ghost.alive', z3.Const('ghost.alive!0', AB))
class CMake(IC):
    "constructor from a value: the item is well formed, a deep value is a new object and the only one"
    def setup(s, I, x): IC.setup(s, I, x); x.this = Loc('this', (), x.fn['cls'])
    def post(s, I, x):
        sp = I.spec; ps = x.fn['params']; kind = vkind(I.tu, I.tu.deref(ps[0]['t'])) if ps else 'nil'
        k = sp.kindnow(I, 'this'); out = [('the item has the handler of its kind', z3.BoolVal(k == kind))]
        a = I.gh('alive', AB); u = sp.bits(I, 'this')
        if kind in DEEP:
            out.append(('exactly one object was made, the value of the item', z3.And(u >= 1, z3.Not(sel(alive0(x), u)), a == z3.Store(alive0(x), u, TRUE), sel(I.gh('kindof', AI), u) == DEEP[kind])))
            out.append(('the object holds the value', sp.content(I, kind, u) == x.vals[0]))
        else: out.append(('no object was made', a == alive0(x)))
        return out
class CCopy(IC):
    def setup(s, I, x):
        t = x.fn['cls']; x.this = Loc('this', (), t)
        x.args = [I.spec.item(I, 'other', t)]
    def post(s, I, x):
        sp = I.spec; kind = I.st.px['kind']['other']; o = sp.bits(I, 'other', x.old); u = sp.bits(I, 'this')
        out = [('the copy has the same kind', z3.BoolVal(sp.kindnow(I, 'this') == kind)), ('the original keeps its value', z3.And(z3.BoolVal(sp.kindnow(I, 'other') == kind), sp.bits(I, 'other') == o))]
        a = I.gh('alive', AB)
        if kind in DEEP:
            out.append(('the copy owns a new object of its own', z3.And(u >= 1, z3.Not(sel(alive0(x), u)), a == z3.Store(alive0(x), u, TRUE), sel(I.gh('kindof', AI), u) == DEEP[kind])))
            out.append(('the original object is unchanged', sp.content(I, kind, o) == sp.content(I, kind, o, x.old)))
        else: out.append(('no object was made', a == alive0(x)))
        out.append(('equal values', sp.same_value(I, kind, u, o, x.old)))
        return out
class CAssign(IC):
    def setup(s, I, x):
        t = x.fn['cls']; x.this = I.spec.item(I, 'this', t)
        x.self = I.choose(I.fresh('self_assignment', BoolS))
        x.args = [x.this] if x.self else [I.spec.item(I, 'other', t, None, [I.spec.bits(I, 'this')] if I.st.px['kind']['this'] in DEEP else [])]
    def post(s, I, x):
        sp = I.spec; src = 'this' if x.self else 'other'; kind = I.st.px['kind'][src]; tk = I.st.px['kind']['this']
        o = sp.bits(I, src, x.old); t0 = sp.bits(I, 'this', x.old); u = sp.bits(I, 'this'); a = I.gh('alive', AB); exp = alive0(x)
        out = [('the target has the kind of the source', z3.BoolVal(sp.kindnow(I, 'this') == kind))]
        if not x.self: out.append(('the source keeps its value', z3.And(z3.BoolVal(sp.kindnow(I, 'other') == kind), sp.bits(I, 'other') == o)))
        q = z3.Int('qa')
        if not x.self or kind not in DEEP:
            if tk in DEEP: exp = z3.Store(exp, t0, FALSE)
            if kind in DEEP: exp = z3.Store(exp, u, TRUE); out.append(('the target owns an object of its own', z3.And(u >= 1, z3.Or(z3.Not(sel(alive0(x), u)), (u == t0) if tk == kind else FALSE), sel(I.gh('kindof', AI), u) == DEEP[kind])))
            out.append(('the replaced object is released, no other', a == exp))
        else: out += [('the target owns one object', z3.And(u >= 1, z3.Or(u == t0, z3.Not(sel(alive0(x), u))), a == z3.Store(z3.Store(exp, t0, FALSE), u, TRUE), sel(I.gh('kindof', AI), u) == DEEP[kind]))]
        if kind in DEEP and not x.self: out.append(('the source object is unchanged', sp.content(I, kind, o) == sp.content(I, kind, o, x.old)))
        out.append(('equal values', sp.same_value(I, kind, u, o, x.old)))
        return out
class CEnd(IC):
    def setup(s, I, x): x.this = I.spec.item(I, 'this', x.fn['cls']); x.args = []
    def post(s, I, x):
        k = I.st.px['kind']['this']; u = I.spec.bits(I, 'this', x.old); a = I.gh('alive', AB)
        return [('exactly the value of the item is released', a == (z3.Store(alive0(x), u, FALSE) if k in DEEP else alive0(x)))]
class CHandler(IC):
    "allocate/copy of every handler: one new object for a deep kind, none for a flat one; destroy releases exactly it"
    def setup(s, I, x):
        k = I.spec.pick(I, 'h'); x.kind = k; h = I.spec.handler(I, k).loc
        x.this = None; x.args = [h]; x.p = None
        if len(x.fn['params']) > 1:
            t = x.fn['params'][1]['t']; l = Loc('$data', (), t); u = I.fresh('bits', IntS); I.fact(z3.And(u >= 0, u < (1 << 64)))
            if k in DEEP: I.fact(z3.And(u >= 1, sel(I.gh('alive', AB), u), sel(I.gh('kindof', AI), u) == DEEP[k]))
            I.wrleaf(l, '.u', IntS, u); x.args.append(l); x.p = u
    def post(s, I, x):
        return [('what was allocated is released exactly once', I.gh('alive', AB) == alive0(x))]
class CHandler1(IC):
    "Handler::allocate and Handler::copy as such"
    def targets(s, tu):
        out = []
        for k, c in KINDS.items():
            r = [r for r in tu.recs.values() if r['n'] == 'falcon::' + c]
            seen = []
            def walk(r):
                for m in r.get('methods') or []:
                    f = tu.fns.get(m)
                    if f and f['n'] == s.fname and f.get('body') is not None: return f
                for b in r.get('bases') or []:
                    x = walk(tu.rec(b)) if tu.rec(b) else None
                    if x: return x
            for q in r:
                f = walk(q)
                if f: out.append((k, f))
        s.kinds = {}
        for k, f in out: s.kinds.setdefault(f['id'], []).append(k)
        return list({f['id']: f for k, f in out}.values())
    def setup(s, I, x):
        ks = s.kinds[x.fn['id']]; k = ks[0]
        for q in ks[1:]:
            if I.choose(I.fresh('handler_is_' + q, BoolS)): k = q
        x.kind = k; h = I.spec.handler(I, k).loc; x.this = h; x.args = []; x.p = None
        for n, p in enumerate(x.fn['params']):
            l = Loc('$data', (), p['t']); u = I.fresh('bits', IntS); I.fact(z3.And(u >= 0, u < (1 << 64)))
            if k in DEEP: I.fact(z3.And(u >= 1, sel(I.gh('alive', AB), u), sel(I.gh('kindof', AI), u) == DEEP[k]))
            I.wrleaf(l, '.u', IntS, u); x.args.append(l); x.p = u
    def post(s, I, x):
        sp = I.spec; a = I.gh('alive', AB); k = x.kind
        if s.fname == 'destroy': return [('exactly that value is released', a == (z3.Store(alive0(x), x.p, FALSE) if k in DEEP else alive0(x)))]
        u = I.rdraw('$result.u', (), IntS)
        if k not in DEEP: out = [('a flat kind makes no object', a == alive0(x))]
        else: out = [('a deep kind makes exactly one new object of its kind', z3.And(u >= 1, z3.Not(sel(alive0(x), u)), a == z3.Store(alive0(x), u, TRUE), sel(I.gh('kindof', AI), u) == DEEP[k]))]
        if s.fname == 'copy':
            out.append(('equal values', sp.same_value(I, k, u, x.p, x.old)))
            if k in DEEP: out.append(('the original is unchanged', sp.content(I, k, x.p) == sp.content(I, k, x.p, x.old)))
        return out

# ---------------------------------------------------------------- code objects
class CC(IC):
    def obj(s, I, name, t, avoid=()):
        "an arbitrary code object: any text; buffer absent (moved from) or a live array of its own"
        have = {f['n']: f for f in (I.tu.rec(t).get('fields') or [])}
        if 'm_source' not in have or I.kind(have['m_source']['t']) != 'str': raise Unsupported("members the contracts speak of are gone: Code::m_source")
        v = I.fresh(name + '_text', StrS); I.fact(z3.Length(v) < (1 << 62)); I.wrraw('%s.%s::m_source' % (name, CD), (), StrS, v)
        p = None
        if 'm_data' in have:
            if I.kind(have['m_data']['t']) != 'ptr': raise Unsupported("Code::m_data is no pointer")
            if I.choose(I.fresh(name + '_moved_from', BoolS)): I.wrraw('%s.%s::m_data' % (name, CD), (), IntS, I_(0))
            else:
                p = I.fresh(name + '_buf', IntS); I.fact(z3.And(p >= 1, sel(I.gh('alive', AB), p), sel(I.gh('asize', AI), p) >= 1))
                for o in avoid:
                    if o is not None: I.fact(p != o)
                I.wrraw('%s.%s::m_data' % (name, CD), (), IntS, PyPtr(Loc('HA<char>', (p, I_(0)), I.tu.T(have['m_data']['t'])['to'])))
        return Loc(name, (), t), v, p
    def buf(s, I, name):
        v = I.st.mem.get('%s.%s::m_data' % (name, CD))
        if v is None or is_null(v): return None
        if not (isinstance(v, PyPtr) and v.loc.key.startswith('HA<') and is_num(simp(v.loc.idx[1])) and simp(v.loc.idx[1]).as_long() == 0): raise Unsupported("buffer of the code object")
        return v.loc.idx[0]
    def text(s, I, name, mem=None): return I.rdraw('%s.%s::m_source' % (name, CD), (), StrS, mem)
    def owns(s, I, x, before, names):
        "live arrays: the old ones minus the objects' old buffers plus the objects' new buffers, all distinct"
        exp = alive0(x)
        for p in before:
            if p is not None: exp = z3.Store(exp, p, FALSE)
        bs = [s.buf(I, n) for n in names]; bs = [b for b in bs if b is not None]
        out = []
        for b in bs: out.append(('the buffer is owned and was not someone else\'s', z3.Or([z3.Not(sel(alive0(x), b))] + [b == p for p in before if p is not None]))); exp = z3.Store(exp, b, TRUE)
        if len(bs) == 2: out.append(('two objects do not share a buffer', bs[0] != bs[1]))
        out.append(('no buffer is lost or freed twice', I.gh('alive', AB) == exp))
        return out
class CCMake(CC):
    def setup(s, I, x): IC.setup(s, I, x); x.this = Loc('this', (), x.fn['cls'])
    def post(s, I, x): return [('the text is the source', s.text(I, 'this') == x.vals[0])] + s.owns(I, x, [], ['this'])
class CCCopy(CC):
    def setup(s, I, x): x.this = Loc('this', (), x.fn['cls']); l, x.v, x.b = s.obj(I, 'other', x.fn['cls']); x.args = [l]
    def post(s, I, x): return [('the copy has the text', s.text(I, 'this') == x.v)] + ([('the original keeps its text', s.text(I, 'other') == x.v)] if not x.fn.get('movector') else []) + s.owns(I, x, [x.b], ['this', 'other'])
class CCAssign(CC):
    def setup(s, I, x):
        t = x.fn['cls']; x.this, x.tv, x.tb = s.obj(I, 'this', t); x.self = I.choose(I.fresh('self_assignment', BoolS))
        if x.self: x.args = [x.this]; x.v = x.tv; x.b = None
        else: l, x.v, x.b = s.obj(I, 'other', t, [x.tb]); x.args = [l]
    def post(s, I, x):
        if x.self and x.fn.get('moveassign'): return s.owns(I, x, [x.tb], ['this'])
        out = [('the target has the text', s.text(I, 'this') == x.v)]
        if not x.self and not x.fn.get('moveassign'): out.append(('the source keeps its text', s.text(I, 'other') == x.v))
        return out + s.owns(I, x, [x.tb] + ([] if x.self else [x.b]), ['this'] + ([] if x.self else ['other']))
class CCEnd(CC):
    def setup(s, I, x): x.this, x.v, x.b = s.obj(I, 'this', x.fn['cls']); x.args = []
    def post(s, I, x): return [('exactly its buffer is released', I.gh('alive', AB) == (z3.Store(alive0(x), x.b, FALSE) if x.b is not None else alive0(x)))]
class CCText(CC):
    def setup(s, I, x): x.this, x.v, x.b = s.obj(I, 'this', x.fn['cls']); x.args = []
    def post(s, I, x): return [('toString is the text', I.rdraw('$result', (), StrS) == x.v), ('the object is unchanged', s.text(I, 'this') == x.v), ('no object is made or released', I.gh('alive', AB) == alive0(x))]
class CCUse(IC):
    def post(s, I, x): return [('the text survives', I.rdraw('$result', (), StrS) == (x.vals[0] if x.vals else EMPTY)), ('every object is released exactly once', I.gh('alive', AB) == alive0(x))]

class CDist(IC):
    "distribute gives the targets the successive elements, and reads no further"
    def setup(s, I, x):
        x.this = None; x.args = []; x.tgt = []
        t = I.tu.deref(x.fn['params'][0]['t']); l = Loc('$source', (), t); I.havoc(l, t); n = I.rdleaf(l, '.len', IntS); I.fact(z3.And(n >= len(x.fn['params']) - 1, n < (1 << 60)))
        x.args = [l]; x.src = l; x.t = t
        x.so = leaves(I.tu, I.tu.T(t)['args'][0])[0][1]
        for k, p in enumerate(x.fn['params'][1:]):
            tl = Loc('$target%d' % k, (), I.tu.deref(p['t'])); I.havoc(tl, tl.t); x.args.append(tl); x.tgt.append(tl)
    def post(s, I, x):
        d = x.old['$source.data']
        return [('target %d has element %d' % (k, k), I.rdleaf(l, '', x.so) == sel(d, I_(k))) for k, l in enumerate(x.tgt)] + [('the source is unchanged', I.rdleaf(x.src, '.data', z3.ArraySort(IntS, x.so)) == d)]

def plan(tu, prop):
    sp = ItemSpec(tu, prop)
    if prop == 'C30':
        cs = [CView('values of an item', 'vf::Mk::view', vals=True), CFloatInt('truncation of floats', 'vf::float_int')]
    elif prop == 'C31':
        cs = [CView('two items: ' + d, 'vf::' + q, vals=True) for q, d in (('h_copy', 'a copy outlives the original'), ('h_inner', 'the original outlives a copy'), ('h_self', 'self assignment'), ('h_over', 'an assigned item outlives the source'), ('h_stay', 'the source outlives an assigned item'))]
        isctor = lambda f: bool(f.get('ctor'))
        cs += [CMake('Item constructor from a value', IT + '::Item', sel=lambda tu, f: isctor(f) and not f.get('copyctor') and not f.get('movector') and not (f['params'] and tu.rec(tu.deref(f['params'][0]['t'])) and tu.rec(tu.deref(f['params'][0]['t']))['n'] == IT)),
               CCopy('Item copy and move constructor', IT + '::Item', sel=lambda tu, f: f.get('copyctor')), CAssign('Item assignment', IT + '::operator=', sel=lambda tu, f: f.get('copyassign')), CEnd('Item destructor', IT + '::~Item'),
               CHandler1('allocate of every handler', '?', fname='allocate'), CHandler1('copy of every handler', '?', fname='copy'), CHandler1('destroy of every handler', '?', fname='destroy'),
               CHandler('allocate and destroy through the base class', 'vf::h_alloc'), CHandler('copy and destroy through the base class', 'vf::h_copyd')]
    elif prop == 'C32':
        cs = [CCMake('Code constructor from text', CD + '::Code', sel=lambda tu, f: not f.get('copyctor') and not f.get('movector')), CCCopy('Code copy and move constructor', CD + '::Code', sel=lambda tu, f: f.get('copyctor') or f.get('movector')),
              CCAssign('Code assignment', CD + '::operator='), CCEnd('Code destructor', CD + '::~Code'), CCText('Code::toString', CD + '::toString')]
        cs += [CCUse('history of code objects', 'vf::' + q) for q in ('code_make', 'code_dflt', 'code_copy', 'code_src', 'code_move', 'code_moved', 'code_assign', 'code_self', 'code_stay')]
    elif prop == 'C33': cs = [CDist('distribute over %d targets' % k, 'vf::dist%d' % k) for k in (1, 2, 3, 4, 5, 8, 12, 16)]
    return sp, cs
