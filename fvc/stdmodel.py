"""Trusted contracts of the standard library operations that the verified code calls."""
from core import *
from interp import *
from loops import lst, lst_pos, lst_valid, lst_in, lst_wf

MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

def call(I, fn, this, args, ret, node):
    q = strip_targs(fn['qn']).replace('std::__cxx11::', 'std::').replace('std::_V2::', 'std::')
    h = MODELS.get(q)
    if h is None:
        # operators on library types found by kind
        h = by_kind(I, fn, q, this, args)
    if h is None:
        if fn.get('copyassign') or fn.get('moveassign'):
            if this is not None and I.kind(fn['cls']) == 'opaque': opaque_step(I, 'assign'); 
            I.copy_leaves(this, args[0], fn['cls']); return this
        raise Unsupported("no contract for library function " + q + " at " + short((node or {}).get('l', '')))
    I.models_used.add(q)
    if hasattr(I.spec, 'touch') and fn['n'] not in ('forward', 'move', 'end', 'cend', 'lock', 'unlock'):
        for a in ([this] if this is not None else []) + list(args):
            if isinstance(a, Loc):
                I.spec.touch(I, a.key, node)
                if a.t is not None and fn['n'] in ('operator++', 'operator--', 'operator*', 'operator->'):
                    k = I.kind(a.t)
                    if k == 'lit': I.spec.touch(I, list_of(I, a)[0].key, node)
                    if k == 'vit': I.spec.touch(I, I.rdraw(a.key + '.ck', (), PYLEAF)[0], node)
    return h(I, fn, this, args, ret, node)

def opaque_step(I, what):
    "copies and assignments of element values may throw"
    if getattr(I.spec, 'elem_throws', False):
        if I.choose(I.fresh('throws', BoolS)): raise CppThrow('vf::Error')

def construct(I, fn, loc, t, args, node):
    k = I.kind(t)
    h = CONSTRUCT.get(k)
    n = fn['qn'] if fn else '<default>'
    if h is None: raise Unsupported("construction of " + I.tu.T(t)['s'])
    I.models_used.add('construction of ' + k)
    return h(I, fn, loc, t, args, node)

def setret(I, ret, t, **leafs):
    l = ret if ret is not None else I.new_local('r', t)
    for s, v in leafs.items():
        suf = '.' + s if s != '_' else ''
        so = dict(leaves(I.tu, t))[suf]
        I.wrraw(l.key + suf, l.idx, so, v)
    return l
def rett(fn): return fn['ret']

# ------------------------------------------------------------------ construct
CONSTRUCT = {}
def ctor(*ks):
    def d(f):
        for k in ks: CONSTRUCT[k] = f
        return f
    return d
@ctor('opaque')
def c_opaque(I, fn, loc, t, args, node):
    so = leaves(I.tu, t)[0][1]
    if fn and (fn.get('copyctor') or fn.get('movector')):
        opaque_step(I, 'copy'); I.wrleaf(loc, '', so, I.rdleaf(args[0], '', so)); return
    opaque_step(I, 'construct')
    if args:
        vals = [I.val(a) for a in args]
        if all(z3.is_expr(v) for v in vals):
            f = z3.Function('make_' + so.name(), *[v.sort() for v in vals], so)
            I.wrleaf(loc, '', so, f(*vals)); return
    I.wrleaf(loc, '', so, I.fresh('made', so))
@ctor('empty', 'sbuf')
def c_empty(I, fn, loc, t, args, node): pass
@ctor('mutex')
def c_mutex(I, fn, loc, t, args, node): I.wrraw(loc.key + '.held', loc.idx, BoolS, FALSE)
@ctor('guard')
def c_guard(I, fn, loc, t, args, node):
    I.wrraw(loc.key + '.mtx', (), PYLEAF, args[0]); I.mutex_lock(args[0], node)
@ctor('ulock')
def c_ulock(I, fn, loc, t, args, node):
    if fn.get('movector'): I.copy_leaves(loc, args[0], t); I.wrraw(args[0].key + '.owns', (), BoolS, FALSE); return
    I.wrraw(loc.key + '.mtx', (), PYLEAF, args[0] if args else None)
    if len(args) == 1: I.mutex_lock(args[0], node); I.wrraw(loc.key + '.owns', (), BoolS, TRUE)
    elif len(args) == 0: I.wrraw(loc.key + '.owns', (), BoolS, FALSE)
    else: raise Unsupported("unique_lock constructor")
@ctor('lit')
def c_lit(I, fn, loc, t, args, node):
    if not args: 
        I.wrraw(loc.key + '.n', loc.idx, IntS, I_(0)); return
    I.copy_leaves(loc, args[0], t)
@ctor('vit', 'mit')
def c_vit(I, fn, loc, t, args, node):
    if args: I.copy_leaves(loc, args[0], t)
@ctor('list')
def c_list(I, fn, loc, t, args, node):
    if fn and (fn.get('copyctor') or fn.get('movector')): raise Unsupported("list copy")
    I.setf(loc, '.len', I_(0)); 
    e = I.fresh('listend', IntS); I.fact(e <= -1); I.setf(loc, '.end', e)
    for s in ('.node', '.pos'): I.havoc_leaf(loc, s, z3.ArraySort(IntS, IntS))
    lid_of(I, loc)
@ctor('vec')
def c_vec(I, fn, loc, t, args, node):
    if fn and (fn.get('copyctor') or fn.get('movector')):
        I.copy_leaves(loc, args[0], t)
        if fn.get('movector'): I.setf(args[0], '.len', I_(0))
        return
    a = [x for x in args if not (isinstance(x, Loc) and x.t is not None and I.kind(x.t) == 'empty')]
    if a: raise Unsupported("vector constructor")
    I.setf(loc, '.len', I_(0))
    if 'vector' in I.tu.T(t)['n']: I.setf(loc, '.cap', I_(0)); I.setf(loc, '.gen', I_(0))
    else: I.setf(loc, '.off', I_(0))
    for s, so in leaves(I.tu, I.tu.T(t)['args'][0]):
        if so is not PYLEAF: I.havoc_leaf(loc, '.data' + s, z3.ArraySort(IntS, so))
@ctor('exc')
def c_exc(I, fn, loc, t, args, node):
    if fn and (fn.get('copyctor') or fn.get('movector')): I.copy_leaves(loc, args[0], t); return
    w = z3.StringVal('')
    if args:
        a = args[0]
        if isinstance(a, CStr): w = cstr_val(a)
        elif isinstance(a, Loc) and I.kind(a.t) == 'str': w = I.rdleaf(a, '', StrS)
    I.wrleaf(loc, '.what', StrS, w)
def cstr_full(c): return c.s if is_zero(simp(c.off)) else z3.SubString(c.s, c.off, z3.Length(c.s) - c.off)
def cstr_val(c):
    if isinstance(c, CStr):
        x = cstr_full(c)
        return z3.If(z3.Contains(x, NUL), CUT(x), x) if c.nul else x
    raise Unsupported("char pointer")

# ------------------------------------------------------------------ dispatch by kind
def by_kind(I, fn, q, this, args):
    n = fn['n']
    if n in ('operator==', 'operator!='):
        ts = ([fn['cls']] if this is not None else []) + [I.tu.deref(p['t']) for p in fn['params']]
        ks = [I.kind(t) for t in ts]
        if all(k == 'lit' for k in ks): return eq_lit
        if all(k == 'vit' for k in ks): return eq_vit
        if any(k == 'sptr' for k in ks): return eq_sptr
    if n == 'operator-' and len(fn['params']) == 2 and all(I.kind(I.tu.deref(p['t'])) == 'vit' for p in fn['params']): return sub_vit
    if this is not None and fn.get('cls') is not None:
        k = I.kind(fn['cls']); h = KIND.get((k, n))
        if h is None and k == 'atomic' and n.startswith('operator ') : return at_conv
        return h
    if q.startswith('__sync_'):
        def g(I, fn, this, args, ret, node):
            r = gcc_atomic(I, q, this, args, node, fn)
            if r is NOTHANDLED: raise Unsupported("builtin " + q)
            return r
        return g
    return None
KIND = {}
def km(k, *names):
    def d(f):
        for kk in (k if isinstance(k, tuple) else (k,)):
            for n in names: KIND[(kk, n)] = f
        return f
    return d

@model('std::forward', 'std::move')
def m_forward(I, fn, this, args, ret, node):
    if len(args) == 1: return args[0]
    raise Unsupported("std::move algorithm")
@model('__assert_fail')
def m_assert(I, fn, this, args, ret, node):
    I.ob('assertion in the code holds', FALSE, node); raise PathEnd()
@model('std::mutex::lock')
def m_lock(I, fn, this, args, ret, node): I.mutex_lock(this, node)
@model('std::mutex::unlock')
def m_unlock(I, fn, this, args, ret, node): I.mutex_unlock(this, node)
@model('std::unique_lock::lock')
def m_ulock(I, fn, this, args, ret, node):
    I.mutex_lock(I.rdraw(this.key + '.mtx', (), PYLEAF), node); I.wrraw(this.key + '.owns', (), BoolS, TRUE)
@model('std::unique_lock::unlock')
def m_uunlock(I, fn, this, args, ret, node):
    I.mutex_unlock(I.rdraw(this.key + '.mtx', (), PYLEAF), node); I.wrraw(this.key + '.owns', (), BoolS, FALSE)
@model('std::unique_lock::owns_lock')
def m_uowns(I, fn, this, args, ret, node): return I.rdraw(this.key + '.owns', (), BoolS)
@model('std::swap')
def m_swap(I, fn, this, args, ret, node):
    a, b = args; t = I.tu.deref(fn['params'][0]['t']); k = I.kind(t)
    if k == 'list': return list_swap(I, fn, a, [b], ret, node)
    for s, so in leaves(I.tu, t):
        x, y = I.rdleaf(a, s, so), I.rdleaf(b, s, so)
        I.wrleaf(a, s, so, y); I.wrleaf(b, s, so, x)
@model('std::min', 'std::max')
def m_min(I, fn, this, args, ret, node):
    x, y = (I.val(a) for a in args)
    lt = y < x if fn['n'] == 'min' else x < y
    return args[1] if I.choose(lt) else args[0]

# ------------------------------------------------------------------ atomics
ORD = {0: 'relaxed', 1: 'consume', 2: 'acquire', 3: 'release', 4: 'acq_rel', 5: 'seq_cst'}
def order_of(a):
    if a is None: return 'seq_cst'
    a = simp(a)
    return ORD.get(a.as_long(), '?') if is_num(a) else '?'
def fail_order(o): return {'acq_rel': 'acquire', 'release': 'relaxed'}.get(o, o)
def at_leaf(I, loc):
    t = loc.t
    so = leaves(I.tu, t)[0][1] if I.kind(t) == 'atomic' else leaves(I.tu, t)[0][1]
    return so
def atomic_begin(I, loc, so, node):
    "other threads may act before every atomic operation"
    if hasattr(I.spec, 'atomic_env'): I.spec.atomic_env(I, loc, so)
    v = I.rdraw(loc.key, loc.idx, so)
    return v
def atomic_end(I, loc, so, old, new, order, kind, node, ok=None):
    "kind: load, store, rmw, cas; new is None when nothing is written"
    if new is not None: I.wrraw(loc.key, loc.idx, so, new)
    if hasattr(I.spec, 'atomic_done'): I.spec.atomic_done(I, loc, old, new, order, kind, node)
def at_type(I, fn):
    t = fn['cls']; T = I.tu.T(t)
    return T['args'][0] if T.get('args') else None
@km('atomic', 'load')
def at_load(I, fn, this, args, ret, node):
    so = at_leaf(I, this); v = atomic_begin(I, this, so, node)
    if so == IntS: I.rng(v, fn['ret'])
    atomic_end(I, this, so, v, None, order_of(args[0] if args else None), 'load', node); return v
def at_conv(I, fn, this, args, ret, node): return at_load(I, fn, this, [], ret, node)
@km('atomic', 'store')
def at_store(I, fn, this, args, ret, node):
    so = at_leaf(I, this); v = atomic_begin(I, this, so, node)
    atomic_end(I, this, so, v, I.val(args[0]), order_of(args[1] if len(args) > 1 else None), 'store', node)
@km('atomic', 'operator=')
def at_assign(I, fn, this, args, ret, node):
    so = at_leaf(I, this); v = atomic_begin(I, this, so, node); n = I.val(args[0])
    atomic_end(I, this, so, v, n, 'seq_cst', 'store', node); return n
@km('atomic', 'exchange')
def at_xchg(I, fn, this, args, ret, node):
    so = at_leaf(I, this); v = atomic_begin(I, this, so, node)
    if so == IntS: I.rng(v, fn['ret'])
    atomic_end(I, this, so, v, I.val(args[0]), order_of(args[1] if len(args) > 1 else None), 'rmw', node); return v
@km('atomic', 'test_and_set')
def at_tas(I, fn, this, args, ret, node):
    so = at_leaf(I, this); v = atomic_begin(I, this, so, node)
    atomic_end(I, this, so, v, TRUE, order_of(args[0] if args else None), 'rmw', node); return v
@km('atomic', 'clear')
def at_clear(I, fn, this, args, ret, node):
    so = at_leaf(I, this); v = atomic_begin(I, this, so, node)
    atomic_end(I, this, so, v, FALSE, order_of(args[0] if args else None), 'store', node)
@km('atomic', 'compare_exchange_weak', 'compare_exchange_strong')
def at_cas(I, fn, this, args, ret, node):
    so = at_leaf(I, this); v = atomic_begin(I, this, so, node); exp = args[0]; des = I.val(args[1])
    if so == IntS: I.rng(v, I.tu.deref(fn['params'][0]['t']))
    o1 = order_of(args[2] if len(args) > 2 else None); o2 = order_of(args[3]) if len(args) > 3 else fail_order(o1)
    e = I.load(exp, I.tu.deref(fn['params'][0]['t']))
    spur = fn['n'].endswith('weak') and I.choose(I.fresh('spurious', BoolS))
    if not spur and I.choose(v == e):
        atomic_end(I, this, so, v, des, o1, 'cas', node); return TRUE
    I.st.px['spurious'] = bool(spur)
    I.store(exp, v, I.tu.deref(fn['params'][0]['t']))
    atomic_end(I, this, so, v, None, o2, 'cas', node); return FALSE
def at_arith(op):
    def h(I, fn, this, args, ret, node):
        so = at_leaf(I, this); v = atomic_begin(I, this, so, node); n = fn['n']
        t = I.tu.deref(fn['ret'])
        if so == IntS: I.rng(v, t)
        if n in ('operator++', 'operator--'): d, post, o = I_(1), len(fn['params']) == 1, None
        else: d, post, o = I.val(args[0]), n.startswith('fetch'), (args[1] if len(args) > 1 else None)
        s = op
        r = wrapto(I, v + d if s == '+' else v - d, t) if s in '+-' else bitop(I, s, v, d, t)
        atomic_end(I, this, so, v, r, order_of(o), 'rmw', node)
        return v if post else r
    return h
def wrapto(I, v, t):
    "wrap-around result of one addition or subtraction"
    T = I.tu.T(t); w = T['w']; lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if T.get('sg') else (0, (1 << w) - 1)
    return simp(z3.If(v > hi, v - (1 << w), z3.If(v < lo, v + (1 << w), v)))
def bitop(I, s, a, b, t):
    "bitwise operation, as the interpreter's own operators compute it"
    T = I.tu.T(t); w = T['w']; x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
    if is_num(simp(a)) and not is_num(simp(b)): x, y = y, x
    return z3.BV2Int({'&': x & y, '|': x | y, '^': x ^ y}[s], bool(T.get('sg')))
for _n, _o in (('operator++', '+'), ('operator--', '-'), ('fetch_add', '+'), ('fetch_sub', '-'), ('operator+=', '+'), ('operator-=', '-'), ('fetch_and', '&'), ('fetch_or', '|'), ('fetch_xor', '^'), ('operator&=', '&'), ('operator|=', '|'), ('operator^=', '^')):
    KIND[('atomic', _n)] = at_arith(_o)
@ctor('atomic')
def c_atomic(I, fn, loc, t, args, node):
    so = leaves(I.tu, t)[0][1]
    if args: I.wrraw(loc.key, loc.idx, so, I.val(args[0]))
    else: I.havoc_leaf(loc, '', so)
@model('std::atomic_thread_fence')
def m_fence(I, fn, this, args, ret, node):
    if hasattr(I.spec, 'fence'): I.spec.fence(I, order_of(args[0]))
@model('__sync_synchronize')
def m_sync(I, fn, this, args, ret, node):
    if hasattr(I.spec, 'fence'): I.spec.fence(I, 'seq_cst')
@model('std::this_thread::yield', 'sched_yield', 'pthread_yield')
def m_yield(I, fn, this, args, ret, node):
    if hasattr(I.spec, 'yielded'): I.spec.yielded(I, node)
    return I_(0)
@model('std::atomic_signal_fence')
def m_sfence(I, fn, this, args, ret, node): pass
def gcc_atomic(I, q, this, args, node, fn):
    "__sync_* and __atomic_* builtins on an integer object"
    m = re.match(r'__sync_(\w+?)_(?:1|2|4|8)$', q)
    if not m: return NOTHANDLED
    n = m.group(1); p = args[0]
    loc = I.deref(p, I.tu.T(fn['params'][0]['t'])['to'], node); t = loc.t
    so = IntS; v = atomic_begin(I, loc, so, node); I.rng(v, t)
    a = I.val(args[1]) if len(args) > 1 else I_(0)
    ops = {'add': '+', 'sub': '-', 'and': '&', 'or': '|', 'xor': '^'}
    mm = re.match(r'(add|sub|and|or|xor)_and_fetch$', n) or re.match(r'fetch_and_(add|sub|and|or|xor)$', n)
    if mm:
        o = ops[mm.group(1)]; r = wrapto(I, v + a if o == '+' else v - a, t) if o in '+-' else bitop(I, o, v, a, t)
        atomic_end(I, loc, so, v, r, 'seq_cst', 'rmw', node); return v if n.startswith('fetch') else r
    if n == 'lock_test_and_set': atomic_end(I, loc, so, v, a, 'acquire', 'rmw', node); return v
    if n == 'lock_release': atomic_end(I, loc, so, v, I_(0), 'release', 'store', node); return None
    if n in ('bool_compare_and_swap', 'val_compare_and_swap'):
        if I.choose(v == a): atomic_end(I, loc, so, v, I.val(args[2]), 'seq_cst', 'cas', node); ok = True
        else: atomic_end(I, loc, so, v, None, 'seq_cst', 'cas', node); ok = False
        return z3.BoolVal(ok) if n.startswith('bool') else v
    return NOTHANDLED

def gcc_atomic_expr(I, e):
    "__atomic_* builtins; the extractor gives the operands in the order pointer, memory order, value, failure order, second value, weak"
    a = e['args']; n = e['op'][len('__atomic_'):]; p = I.val(I.ev(a[0]), a[0]['t']); loc = I.deref(p, I.tu.T(a[0]['t'])['to'], e); t = loc.t; so = IntS
    if I.tu.T(t)['k'] != 'int': raise Unsupported('atomic builtin on ' + I.tu.T(t)['s'])
    arg = lambda i: I.val(I.ev(a[i]), a[i]['t'])
    o = order_of(arg(1))
    to = lambda v, i: I.conv_int(v, a[i]['t'], t)
    place = lambda i: I.deref(arg(i), t, e)
    rd = lambda l: I.load(l, t)
    if n in ('load_n', 'load'):
        out = place(2) if n == 'load' else None
        v = atomic_begin(I, loc, so, e); I.rng(v, t); atomic_end(I, loc, so, v, None, o, 'load', e)
        if out is not None: I.store(out, v, t); return None
        return v
    if n in ('store_n', 'store'):
        new = to(arg(2), 2) if n == 'store_n' else rd(place(2))
        v = atomic_begin(I, loc, so, e); atomic_end(I, loc, so, v, new, o, 'store', e); return None
    if n in ('exchange_n', 'exchange'):
        new = to(arg(2), 2) if n == 'exchange_n' else rd(place(2)); out = place(3) if n == 'exchange' else None
        v = atomic_begin(I, loc, so, e); I.rng(v, t); atomic_end(I, loc, so, v, new, o, 'rmw', e)
        if out is not None: I.store(out, v, t); return None
        return v
    if n in ('compare_exchange_n', 'compare_exchange'):
        exp = place(2); of = order_of(arg(3)); new = to(arg(4), 4) if n.endswith('_n') else rd(place(4)); weak = arg(5)
        v = atomic_begin(I, loc, so, e); I.rng(v, t); x = rd(exp)
        spur = not z3.is_false(simp(weak != 0 if not z3.is_bool(weak) else weak)) and I.choose(I.fresh('spurious', BoolS))
        if not spur and I.choose(v == x): atomic_end(I, loc, so, v, new, o, 'cas', e); return TRUE
        I.st.px['spurious'] = bool(spur)
        I.store(exp, v, t); atomic_end(I, loc, so, v, None, of, 'cas', e); return FALSE
    ops = {'add': '+', 'sub': '-', 'and': '&', 'or': '|', 'xor': '^'}
    mm = re.match(r'(add|sub|and|or|xor)_fetch$', n) or re.match(r'fetch_(add|sub|and|or|xor)$', n)
    if mm:
        d = to(arg(2), 2); q = ops[mm.group(1)]
        v = atomic_begin(I, loc, so, e); I.rng(v, t); r = wrapto(I, v + d if q == '+' else v - d, t) if q in '+-' else bitop(I, q, v, d, t)
        atomic_end(I, loc, so, v, r, o, 'rmw', e); return v if n.startswith('fetch') else r
    raise Unsupported('builtin ' + e['op'])

# ------------------------------------------------------------------ list
def nalive(I): return I.gh('nalive', z3.ArraySort(IntS, BoolS))
def lid_of(I, L):
    for k, l in I.st.lists.items():
        if l.same(L): return k
    k = L.key + repr(L.idx); I.st.lists[k] = Loc(L.key, L.idx, L.t); return k
def elem_t(I, t): return I.tu.T(t)['args'][0]
def node_loc(I, et, n): return Loc('N<%s>' % I.tu.T(et)['s'], (n,), et)
def list_of(I, it, node=None):
    lid = I.rdraw(it.key + '.lid', (), PYLEAF); L = I.st.lists.get(lid)
    if L is None: raise Unsupported("iterator of an unknown list")
    return L, lid, I.f(it, '.n')
def mem(I): return I.st.mem
def mk_it(I, ret, t, n, lid):
    l = ret if ret is not None else I.new_local('it', t)
    I.wrraw(l.key + '.n', l.idx, IntS, n); I.wrraw(l.key + '.lid', (), PYLEAF, lid)
    return l
@km('list', 'begin', 'cbegin')
def list_begin(I, fn, this, args, ret, node):
    ln = lst(mem(I), this, '.len')
    n = None
    n = sel(lst(mem(I), this, ".node"), I_(0)) if I.choose(ln > 0) else lst(mem(I), this, ".end")
    return mk_it(I, ret, rett(fn), n, lid_of(I, this))
@km('list', 'end', 'cend')
def list_end(I, fn, this, args, ret, node): return mk_it(I, ret, rett(fn), lst(mem(I), this, '.end'), lid_of(I, this))
@km('list', 'size')
def list_size(I, fn, this, args, ret, node): 
    v = lst(mem(I), this, '.len'); I.fact(v >= 0); return v
@km('list', 'empty')
def list_empty(I, fn, this, args, ret, node): 
    v = lst(mem(I), this, '.len'); I.fact(v >= 0); return v == 0
@km('list', 'front')
def list_front(I, fn, this, args, ret, node):
    ln = lst(mem(I), this, '.len'); I.ob('list not empty in front()', ln > 0, node); I.fact(ln > 0)
    return node_loc(I, elem_t(I, fn['cls']), sel(lst(mem(I), this, '.node'), I_(0)))
@km('list', 'back')
def list_back(I, fn, this, args, ret, node):
    ln = lst(mem(I), this, '.len'); I.ob('list not empty in back()', ln > 0, node); I.fact(ln > 0)
    return node_loc(I, elem_t(I, fn['cls']), sel(lst(mem(I), this, '.node'), simp(ln - 1)))
@km('list', 'emplace_back', 'push_back')
def list_push(I, fn, this, args, ret, node):
    if getattr(I.spec, 'alloc_throws', False) and I.choose(I.fresh('throws', BoolS)): raise CppThrow('std::bad_alloc')
    et = elem_t(I, fn['cls']); m = mem(I)
    x = I.fresh('node', IntS); na = nalive(I)
    I.fact(z3.And(x >= 1, z3.Not(sel(na, x)))); I.setgh('nalive', z3.Store(na, x, TRUE))
    ln = lst(m, this, '.len')
    l = node_loc(I, et, x)
    build_elem(I, l, et, args, fn, node)
    m = mem(I)
    I.wrleaf(this, '.node', z3.ArraySort(IntS, IntS), z3.Store(lst(m, this, '.node'), ln, x))
    I.wrleaf(this, '.pos', z3.ArraySort(IntS, IntS), z3.Store(lst(m, this, '.pos'), x, ln))
    I.setf(this, '.len', simp(ln + 1))
    if hasattr(I.spec, 'on_list_add'): I.spec.on_list_add(I, this, x)
    return l
def build_elem(I, l, et, args, fn, node):
    k = I.kind(et)
    if I.tu.T(et)['k'] == 'rec':
        if len(args) == 1 and isinstance(args[0], Loc) and I.kind(args[0].t if args[0].t is not None else et) == k:
            if k == 'opaque': opaque_step(I, 'copy')
            I.copy_leaves(l, args[0], et)
            if k == 'sptr' and hasattr(I.spec, 'on_sptr_copy'): I.spec.on_sptr_copy(I, I.rdleaf(l, '', IntS), args[0], moved='&&' in I.tu.T(fn['params'][0]['t'])['s'] if fn['params'] else False)
            return
        if k in CONSTRUCT: CONSTRUCT[k](I, None, l, et, args, node); return
        raise Unsupported("emplace of " + I.tu.T(et)['s'])
    I.store(l, I.val(args[0], I.tu.deref(fn['params'][0]['t'])) if args else I.zero(et), et)
@km('list', 'pop_front')
def list_pop_front(I, fn, this, args, ret, node):
    ln = lst(mem(I), this, '.len'); I.ob('list not empty in pop_front()', ln > 0, node); I.fact(ln > 0)
    list_erase_at(I, this, I_(0), elem_t(I, fn['cls']))
@km('list', 'pop_back')
def list_pop_back(I, fn, this, args, ret, node):
    ln = lst(mem(I), this, '.len'); I.ob('list not empty in pop_back()', ln > 0, node); I.fact(ln > 0)
    I.setf(this, '.len', simp(ln - 1))
def list_erase_at(I, L, p, et):
    m = mem(I); node, pos, ln = (lst(m, L, s) for s in ('.node', '.pos', '.len'))
    i = z3.Int('qi')
    if hasattr(I.spec, 'on_std_destroy') and I.tu.T(et)['k'] == 'rec' and I.needs_dtor(et): I.destroy(node_loc(I, et, sel(node, p)), et)
    m = mem(I)
    I.setf(L, '.len', simp(ln - 1))
    A = z3.ArraySort(IntS, IntS)
    n2 = I.havoc_leaf(L, '.node', A); p2 = I.havoc_leaf(L, '.pos', A)
    n2, p2 = lst(mem(I), L, '.node'), lst(mem(I), L, '.pos')
    I.fact(z3.ForAll([i], z3.Select(n2, i) == z3.If(i < p, z3.Select(node, i), z3.Select(node, i + 1)), patterns=[z3.Select(n2, i)]))
    I.fact(z3.ForAll([i], z3.Implies(i < p, z3.Select(n2, i) == z3.Select(node, i)), patterns=[z3.Select(node, i)]))
    I.fact(z3.ForAll([i], z3.Select(p2, i) == z3.If(z3.Select(pos, i) > p, z3.Select(pos, i) - 1, z3.Select(pos, i)), patterns=[z3.Select(p2, i)]))
    I.fact(z3.ForAll([i], z3.Select(p2, i) == z3.If(z3.Select(pos, i) > p, z3.Select(pos, i) - 1, z3.Select(pos, i)), patterns=[z3.Select(pos, i)]))
@km('list', 'erase')
def list_erase(I, fn, this, args, ret, node):
    L, lid, n = list_of(I, args[0]); m = mem(I)
    if len(args) == 2:
        L2, _, n2 = list_of(I, args[1])
        if not L.same(this) or not L2.same(this): raise Unsupported("erase with iterators of another list")
        if not I.valid(n2 == lst(m, L, '.end')): raise Unsupported("list range erase that ends before the end")
        et = elem_t(I, fn['cls'])
        if hasattr(I.spec, 'on_list_erase') or hasattr(I.spec, 'on_std_destroy') and I.tu.T(et)['k'] == 'rec' and I.needs_dtor(et): raise Unsupported("list range erase of owned elements")
        I.ob('erased list iterator is valid', lst_valid(m, L, n), node); I.fact(lst_valid(m, L, n))
        I.setf(L, '.len', simp(z3.If(n == lst(m, L, '.end'), lst(m, L, '.len'), sel(lst(m, L, '.pos'), n))))
        return mk_it(I, ret, rett(fn), n2, lid)
    if not L.same(this): raise Unsupported("erase with an iterator of another list")
    I.ob('erased list iterator is valid', lst_in(m, L, n), node); I.fact(lst_in(m, L, n))
    p = simp(sel(lst(m, L, '.pos'), n)); ln = lst(m, L, '.len'); nd = lst(m, L, '.node')
    nxt = lst(m, L, '.end') if I.choose(p + 1 == ln) else sel(nd, simp(p + 1))
    if hasattr(I.spec, 'on_list_erase'): I.spec.on_list_erase(I, this, n, p)
    list_erase_at(I, L, p, elem_t(I, fn['cls']))
    return mk_it(I, ret, rett(fn), nxt, lid)
@km('list', 'swap')
def list_swap(I, fn, this, args, ret, node):
    o = args[0]; la, lb = lid_of(I, this), lid_of(I, o)
    for s in ('.node', '.pos'):
        A = z3.ArraySort(IntS, IntS); x, y = I.rdleaf(this, s, A), I.rdleaf(o, s, A); I.wrleaf(this, s, A, y); I.wrleaf(o, s, A, x)
    x, y = I.f(this, '.len'), I.f(o, '.len'); I.setf(this, '.len', y); I.setf(o, '.len', x)
    I.st.lists[la], I.st.lists[lb] = I.st.lists[lb], I.st.lists[la]
@km('lit', 'operator++', 'operator--')
def lit_step(I, fn, this, args, ret, node):
    L, lid, n = list_of(I, this); m = mem(I)
    nd, pos, ln, end = (lst(m, L, s) for s in ('.node', '.pos', '.len', '.end'))
    if fn['n'] == 'operator++':
        I.ob('list iterator incremented inside the list', lst_in(m, L, n), node); I.fact(lst_in(m, L, n))
        p = sel(pos, n); 
        if I.valid(p + 1 < ln): nn = sel(nd, simp(p + 1))
        elif I.valid(p + 1 == ln): nn = end
        elif I.choose(p + 1 == ln): nn = end
        else: nn = sel(nd, simp(p + 1))
    else:
        ok = z3.And(lst_valid(m, L, n), lst_pos(m, L, n) > 0)
        I.ob('list iterator decremented inside the list', ok, node); I.fact(ok)
        if I.valid(n != end): nn = sel(nd, simp(sel(pos, n) - 1))
        elif I.valid(n == end): nn = sel(nd, simp(ln - 1))
        elif I.choose(n == end): nn = sel(nd, simp(ln - 1))
        else: nn = sel(nd, simp(sel(pos, n) - 1))
    post = len(fn['params']) == 1
    old = mk_it(I, ret, rett(fn), n, lid) if post else None
    I.wrraw(this.key + '.n', this.idx, IntS, nn)
    return old if post else this
@km('lit', 'operator*', 'operator->')
def lit_deref(I, fn, this, args, ret, node):
    L, lid, n = list_of(I, this)
    c = lst_in(mem(I), L, n)
    I.ob('dereferenced list iterator is valid', c, node); I.fact(c)
    et = I.tu.T(fn['ret'])['to']
    l = node_loc(I, unconst(I, et), n)
    return l if fn['n'] == 'operator*' else PyPtr(l)
def unconst(I, t):
    "the type without const"
    T = I.tu.T(t)
    if not T.get('const'): return t
    c = getattr(I.tu, '_unc', None)
    if c is None:
        c = I.tu._unc = {}
        for i, x in enumerate(I.tu.types):
            if x and not x.get('const'): c[x['s']] = i
    s = T['s']; s = s[6:] if s.startswith('const ') else s
    return c.get(s, t)
def eq_lit(I, fn, this, args, ret, node):
    a, b = ([this] if this is not None else []) + list(args)
    r = I.f(a, '.n') == I.f(b, '.n')
    if I.rdraw(a.key + '.lid', (), PYLEAF) != I.rdraw(b.key + '.lid', (), PYLEAF): I.ob('iterators compared belong to the same list', FALSE, node)
    return r if fn['n'] == 'operator==' else z3.Not(r)

# ------------------------------------------------------------------ vector / deque
def vlen(I, v): 
    if v.t is not None and I.kind(v.t) == 'str':
        n = z3.Length(I.rdleaf(v, '', StrS)); I.fact(n < 2 ** 62) if not is_num(simp(n)) else None; return n
    x = I.f(v, '.len'); I.fact(x >= 0); return x
def velem(I, v, t, i): return Loc(v.key + '.data', v.idx + (simp(voff(I, v, t) + i),), elem_t(I, t))
def is_vector(I, t): return 'vector' in I.tu.T(t)['n']
def voff(I, v, t):
    "position of the first element in the storage (a deque can lose elements at its front)"
    if is_vector(I, t): return I_(0)
    x = I.f(v, '.off'); return x
@km('vec', 'size')
def v_size(I, fn, this, args, ret, node): return vlen(I, this)
@km('vec', 'capacity')
def v_capacity(I, fn, this, args, ret, node): return I.f(this, '.cap')
@km('vec', 'empty')
def v_empty(I, fn, this, args, ret, node): return vlen(I, this) == 0
@km('vec', 'back')
def v_back(I, fn, this, args, ret, node):
    n = vlen(I, this); I.ob('container not empty in back()', n > 0, node); I.fact(n > 0); return velem(I, this, fn['cls'], n - 1)
@km('vec', 'front')
def v_front(I, fn, this, args, ret, node):
    n = vlen(I, this); I.ob('container not empty in front()', n > 0, node); I.fact(n > 0); return velem(I, this, fn['cls'], I_(0))
@km('vec', 'operator[]', 'at')
def v_at(I, fn, this, args, ret, node):
    n = vlen(I, this); i = args[0]
    if fn['n'] == 'at':
        if not I.choose(z3.And(i >= 0, i < n)): raise CppThrow('std::out_of_range')
    else: I.ob('index inside the container', z3.And(i >= 0, i < n), node); I.fact(z3.And(i >= 0, i < n))
    if hasattr(I.spec, 'on_vec_read'): I.spec.on_vec_read(I, this, i)
    return velem(I, this, fn['cls'], i)
def v_grow(I, v, t, need):
    "capacity after making room for need elements"
    if not is_vector(I, t): return
    cap = I.f(v, '.cap'); n = I.f(v, '.len'); I.fact(cap >= n)
    if I.choose(need > cap):
        if getattr(I.spec, 'alloc_throws', False) and I.choose(I.fresh('throws', BoolS)): raise CppThrow('std::bad_alloc')
        c2 = I.fresh('cap', IntS); I.fact(c2 >= need); I.setf(v, '.cap', c2); I.setf(v, '.gen', simp(I.f(v, '.gen') + 1))
@km('vec', 'shrink_to_fit')
def v_shrink(I, fn, this, args, ret, node):
    if not is_vector(I, fn['cls']): return
    cap = I.f(this, '.cap'); n = vlen(I, this); I.fact(cap >= n); c2 = I.fresh('cap', IntS); I.fact(z3.And(c2 >= n, c2 <= cap))
    if I.choose(c2 < cap): I.setf(this, '.cap', c2); I.setf(this, '.gen', simp(I.f(this, '.gen') + 1))
@km('vec', 'push_back', 'emplace_back')
def v_push(I, fn, this, args, ret, node):
    t = fn['cls']; et = elem_t(I, t); n = vlen(I, this)
    # the value is built first (strong guarantee: nothing changes when that throws)
    tmp = I.new_local('elem', et); 
    if I.kind(et) == 'opaque' and len(args) == 1 and isinstance(args[0], Loc) and I.kind(args[0].t) == 'opaque':
        CONSTRUCT['opaque'](I, {'copyctor': True, 'qn': ''}, tmp, et, args, node)
    else: build_elem(I, tmp, et, args, fn, node)
    v_grow(I, this, t, n + 1)
    I.copy_leaves(velem(I, this, t, n), tmp, et)
    I.setf(this, '.len', simp(n + 1))
    if hasattr(I.spec, 'on_vec_push'): I.spec.on_vec_push(I, this, n)
    return velem(I, this, t, n)
@km('vec', 'pop_back')
def v_pop(I, fn, this, args, ret, node):
    n = vlen(I, this); I.ob('container not empty in pop_back()', n > 0, node); I.fact(n > 0)
    et = elem_t(I, fn['cls'])
    if I.tu.T(et)['k'] == 'rec' and I.needs_dtor(et): I.destroy(velem(I, this, fn['cls'], n - 1), et)
    if hasattr(I.spec, 'on_vec_pop'): I.spec.on_vec_pop(I, this, velem(I, this, fn['cls'], n - 1))
    I.setf(this, '.len', simp(n - 1))
@km('vec', 'pop_front')
def v_popf(I, fn, this, args, ret, node):
    n = vlen(I, this); I.ob('container not empty in pop_front()', n > 0, node); I.fact(n > 0)
    et = elem_t(I, fn['cls']); e = velem(I, this, fn['cls'], I_(0))
    if I.tu.T(et)['k'] == 'rec' and I.needs_dtor(et): I.destroy(e, et)
    if hasattr(I.spec, 'on_vec_pop'): I.spec.on_vec_pop(I, this, e)
    I.setf(this, '.len', simp(n - 1)); I.setf(this, '.off', simp(I.f(this, '.off') + 1))
@km('vec', 'clear')
def v_clear(I, fn, this, args, ret, node): 
    if hasattr(I.spec, 'on_vec_clear'): I.spec.on_vec_clear(I, this, fn['cls'])
    I.setf(this, '.len', I_(0))
@km('vec', 'reserve')
def v_reserve(I, fn, this, args, ret, node): v_grow(I, this, fn['cls'], args[0])
@km('vec', 'resize')
def v_resize(I, fn, this, args, ret, node):
    t = fn['cls']; n = vlen(I, this); k = args[0]
    if I.choose(k > n):
        v_grow(I, this, t, k)
        for s, so in leaves(I.tu, elem_t(I, t)):
            A = z3.ArraySort(IntS, so); old = I.rdleaf(this, '.data' + s, A)
            I.havoc_leaf(this, '.data' + s, A); new = I.rdleaf(this, '.data' + s, A)
            i = z3.Int('qi'); I.fact(z3.ForAll([i], z3.Implies(i < n, z3.Select(new, i) == z3.Select(old, i)), patterns=[z3.Select(new, i)]))
    I.setf(this, '.len', k)
@km('vec', 'assign')
def v_assign(I, fn, this, args, ret, node):
    t = fn['cls']; et = elem_t(I, t)
    if len(args) == 2 and all(isinstance(a, Loc) and I.kind(a.t) == 'vit' for a in args):
        C, i0, a = vit_parts(I, args[0]); C2, i1, _ = vit_parts(I, args[1])
        k = simp(i1 - i0)
        I.ob('assigned range is valid', z3.And(k >= 0, i0 >= 0, i1 <= vlen(I, C)), node)
        opaque_step(I, 'copy')
        v_grow(I, this, t, k)
        for s, so in leaves(I.tu, et):
            A = z3.ArraySort(IntS, so); src = I.rdleaf(C, '.data' + s, A)
            I.havoc_leaf(this, '.data' + s, A); new = I.rdleaf(this, '.data' + s, A)
            i = z3.Int('qi'); I.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.Select(new, i) == z3.Select(src, i + i0)), patterns=[z3.Select(new, i)]))
        I.setf(this, '.len', k); return
    raise Unsupported("vector assign")
@km('vec', 'swap')
def v_swap(I, fn, this, args, ret, node):
    for s, so in leaves(I.tu, fn['cls']):
        x, y = I.rdleaf(this, s, so), I.rdleaf(args[0], s, so); I.wrleaf(this, s, so, y); I.wrleaf(args[0], s, so, x)
def mk_vit(I, ret, t, C, i):
    l = ret if ret is not None else I.new_local('it', t)
    if l.idx: raise Unsupported("iterator stored in an indexed object")
    I.wrraw(l.key + '.ck', (), PYLEAF, (C.key, len(C.idx), C.t)); I.wrraw(l.key + '.c', (), IntS, C.idx[0] if C.idx else I_(0)); I.wrraw(l.key + '.i', (), IntS, simp(i))
    if len(C.idx) > 1: raise Unsupported("iterator into nested container")
    return l
def vit_parts(I, it):
    ck = I.rdraw(it.key + '.ck', (), PYLEAF); c = I.f(it, '.c'); i = I.f(it, '.i')
    C = Loc(ck[0], (c,) if ck[1] else (), ck[2])
    return C, i, ck
@km('vec', 'begin', 'cbegin')
def v_begin(I, fn, this, args, ret, node): return mk_vit(I, ret, rett(fn), Loc(this.key, this.idx, unconst(I, fn['cls'])), I_(0))
@km('vec', 'end', 'cend')
def v_end(I, fn, this, args, ret, node): return mk_vit(I, ret, rett(fn), Loc(this.key, this.idx, unconst(I, fn['cls'])), vlen(I, this))
@km('vit', 'operator++', 'operator--')
def vit_step(I, fn, this, args, ret, node):
    C, i, ck = vit_parts(I, this)
    old = mk_vit(I, ret, rett(fn), C, i) if len(fn['params']) == 1 else None
    n = i + (1 if fn['n'] == 'operator++' else -1)
    # one before the beginning is tolerated (reverse end of a page), beyond is not
    I.ob('container iterator stays inside', z3.And(n >= -1, n <= vlen(I, C)), node)
    I.wrraw(this.key + '.i', (), IntS, simp(n))
    return old if old is not None else this
@km('vit', 'operator+', 'operator-')
def vit_add(I, fn, this, args, ret, node):
    C, i, ck = vit_parts(I, this)
    if I.kind(I.tu.deref(fn['params'][0]['t'])) == 'vit': return i - vit_parts(I, args[0])[1]
    d = I.val(args[0])
    n = i + d if fn['n'] == 'operator+' else i - d
    I.ob('container iterator stays inside', z3.And(n >= -1, n <= vlen(I, C)), node)
    return mk_vit(I, ret, rett(fn), C, n)
@km('vit', 'operator+=', 'operator-=')
def vit_addeq(I, fn, this, args, ret, node):
    C, i, ck = vit_parts(I, this); d = I.val(args[0]); n = i + d if fn['n'] == 'operator+=' else i - d
    I.ob('container iterator stays inside', z3.And(n >= -1, n <= vlen(I, C)), node)
    I.wrraw(this.key + '.i', (), IntS, simp(n)); return this
@km('vit', 'operator*', 'operator->')
def vit_deref(I, fn, this, args, ret, node):
    C, i, ck = vit_parts(I, this)
    c = z3.And(i >= 0, i < vlen(I, C)); I.ob('dereferenced container iterator is valid', c, node); I.fact(c)
    if C.t is not None and I.kind(C.t) == 'str': return ('chr', CStr(I.rdleaf(C, '', StrS), simp(i)))
    if hasattr(I.spec, 'on_vec_read'): I.spec.on_vec_read(I, C, i)
    l = Loc(C.key + '.data', C.idx + (simp(i + (voff(I, C, C.t) if C.t is not None else 0)),), unconst(I, I.tu.T(fn['ret'])['to']))
    return l if fn['n'] == 'operator*' else PyPtr(l)
def eq_vit(I, fn, this, args, ret, node):
    a, b = ([this] if this is not None else []) + list(args)
    A, i, ka = vit_parts(I, a); B, j, kb = vit_parts(I, b)
    same = TRUE if ka[0] == kb[0] and not ka[1] else (A.idx[0] == B.idx[0] if ka[0] == kb[0] else FALSE)
    # iterators of different containers: comparing them is not meaningful
    r = z3.And(same, i == j)
    return r if fn['n'] == 'operator==' else z3.Not(r)
def sub_vit(I, fn, this, args, ret, node):
    A, i, ka = vit_parts(I, args[0]); B, j, kb = vit_parts(I, args[1])
    if ka[0] != kb[0]: raise Unsupported("distance between containers")
    if ka[1]: I.ob('distance inside one container', A.idx[0] == B.idx[0], node)
    return simp(i - j)
def eq_sptr(I, fn, this, args, ret, node):
    a, b = ([this] if this is not None else []) + list(args)
    x = I.rdleaf(a, '', IntS) if isinstance(a, Loc) else I_(0); y = I.rdleaf(b, '', IntS) if isinstance(b, Loc) else I_(0)
    r = x == y
    return r if fn['n'] == 'operator==' else z3.Not(r)

import stdmodel2
