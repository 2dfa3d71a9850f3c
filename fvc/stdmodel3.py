"""Trusted contracts of std::map (with text keys), std::pair and what the unit test framework uses of the streams.

A map holds len nodes; node[r] is the node of rank r (keys increasing), rank its inverse, byk[key] the node of a
key or 0.  The contents of node n are in MN<pair type>[n].  The order of keys is an uninterpreted strict order."""
from core import *
from interp import *
from stdmodel import *
import stdmodel, stdmodel2
from stdmodel2 import sval, S, EMPTY, cat
KLT = z3.Function('key_less', StrS, StrS, BoolS)
AI = z3.ArraySort(IntS, IntS); ASI = z3.ArraySort(StrS, IntS)
QI, QJ = z3.Int('qi'), z3.Int('qj'); QS = z3.Const('qs', StrS)
MAPLEAF = {'.len': IntS, '.node': AI, '.rank': AI, '.byk': ASI, '.gen': IntS}

def pair_t(I, t):
    "the pair type of a map type: it is what the map's iterators point to"
    c = getattr(I.tu, '_mpt', None)
    if c is None: c = I.tu._mpt = {}
    n = I.tu.T(t)['s'].replace('const ', '')
    if n not in c:
        a = [I.tu.T(x)['s'].replace('const ', '') for x in I.tu.T(t)['args'][:2]]
        for i, T in enumerate(I.tu.types):
            if T and T['k'] == 'rec' and T['n'] == 'std::pair' and [I.tu.T(x)['s'].replace('const ', '') for x in T['args'][:2]] == a and I.tu.T(T['args'][0]).get('const'): c[n] = i; break
        else: raise Unsupported("pair type of " + n)
    return c[n]
def mkey(I, t): return 'MN<%s>' % I.tu.T(pair_t(I, t))['s'].replace('const ', '')
def node_of(I, t, n): return Loc(mkey(I, t), (n,), pair_t(I, t))
def check_order(I, t):
    a = I.tu.T(t)['args']
    if I.kind(a[0]) != 'str' or (len(a) > 2 and I.tu.T(a[2])['n'] != 'std::less'): raise Unsupported("map with another order or other keys")
def ml(I, m, L, s, idx=None):
    "leaf of a map in memory m"
    v = m.get(L.key + s)
    if v is None: v = m[L.key + s] = I.st.mem.setdefault(L.key + s, z3.Const(L.key + s + '!0', lift(MAPLEAF[s], len(L.idx))))
    return rd_term(v, L.idx)
def first_of(I, m, t):
    k = mkey(I, t) + '.first'; v = m.get(k)
    if v is None: v = m[k] = I.st.mem.setdefault(k, z3.Const(k + '!0', z3.ArraySort(IntS, StrS)))
    return v
def inmap(I, m, L, n): return z3.And(n >= 1, sel(ml(I, m, L, '.rank'), n) >= 0, sel(ml(I, m, L, '.rank'), n) < ml(I, m, L, '.len'), sel(ml(I, m, L, '.node'), sel(ml(I, m, L, '.rank'), n)) == n)
def map_wf(I, m, L, t):
    node, rank, byk, n = (ml(I, m, L, s) for s in ('.node', '.rank', '.byk', '.len')); fi = first_of(I, m, t)
    nd = z3.Select(node, QI); b = z3.Select(byk, QS)
    return z3.And(n >= 0, z3.ForAll([QI], z3.Implies(z3.And(QI >= 0, QI < n), z3.And(nd >= 1, z3.Select(rank, nd) == QI, z3.Select(byk, z3.Select(fi, nd)) == nd)), patterns=[nd]),
        z3.ForAll([QS], z3.Implies(b != 0, z3.And(b >= 1, z3.Select(rank, b) >= 0, z3.Select(rank, b) < n, z3.Select(node, z3.Select(rank, b)) == b, z3.Select(fi, b) == QS)), patterns=[b]))
def map_order(I, m, L, t):
    node, n = ml(I, m, L, '.node'), ml(I, m, L, '.len'); fi = first_of(I, m, t)
    a, b = z3.Select(fi, z3.Select(node, QI)), z3.Select(fi, z3.Select(node, QJ))
    return z3.ForAll([QI, QJ], z3.Implies(z3.And(QI >= 0, QI < QJ, QJ < n), z3.And(KLT(a, b), z3.Not(KLT(b, a)))), patterns=[z3.MultiPattern(z3.Select(node, QI), z3.Select(node, QJ))])
def mlen(I, L):
    x = I.f(L, '.len'); I.fact(x >= 0); return x
def known(I, L, t):
    "what holds of every map is assumed of one not seen before"
    k = 'mapwf ' + L.key
    sig = tuple(ml(I, I.st.mem, L, s).get_id() for s in ('.node', '.rank', '.byk', '.len')) + (first_of(I, I.st.mem, t).get_id(),)
    return sig
@ctor('map')
def c_map(I, fn, loc, t, args, node):
    check_order(I, t)
    if fn and (fn.get('copyctor') or fn.get('movector')) or args: raise Unsupported("map constructor")
    map_reset(I, loc)
def map_reset(I, L):
    I.wrleaf(L, '.len', IntS, I_(0)); I.wrleaf(L, '.byk', ASI, z3.K(StrS, I_(0)))
    for s in ('.node', '.rank'): I.havoc_leaf(L, s, AI)
    I.setf(L, '.gen', I.fresh('gen', IntS))
@ctor('mmap')
def c_mmap(I, fn, loc, t, args, node):
    if args: raise Unsupported("multimap constructor")
    I.wrleaf(loc, '.len', IntS, I_(0))
@km('mmap', 'insert', 'emplace')
def mm_insert(I, fn, this, args, ret, node):
    n = I.f(this, '.len'); I.fact(n >= 0); I.setf(this, '.len', n + 1)
    l = ret if ret is not None else I.new_local('mit', rett(fn)); return l
@km('mmap', 'clear')
def mm_clear(I, fn, this, args, ret, node): I.setf(this, '.len', I_(0))
@km('mmap', 'size')
def mm_size(I, fn, this, args, ret, node): n = I.f(this, '.len'); I.fact(n >= 0); return n
@km('map', 'size')
def m_size(I, fn, this, args, ret, node): return mlen(I, this)
@km('map', 'empty')
def m_empty(I, fn, this, args, ret, node): return mlen(I, this) == 0
@km('map', 'clear')
def m_clear(I, fn, this, args, ret, node):
    map_reset(I, this)
    if hasattr(I.spec, 'on_map_clear'): I.spec.on_map_clear(I, this, fn['cls'])
def mk_mit(I, ret, t, L, lt, i):
    l = ret if ret is not None else I.new_local('mit', t)
    if l.idx or len(L.idx) > 1: raise Unsupported("map iterator stored in an indexed object")
    put_mit(I, l.key, L, lt, i); return l
def put_mit(I, key, L, lt, i):
    I.wrraw(key + '.ck', (), PYLEAF, (L.key, len(L.idx), unconst(I, lt))); I.wrraw(key + '.c', (), IntS, L.idx[0] if L.idx else I_(0)); I.wrraw(key + '.i', (), IntS, simp(i)); I.wrraw(key + '.g', (), IntS, I.f(L, '.gen'))
def mit_parts(I, it):
    ck = I.rdraw(it.key + '.ck', (), PYLEAF); L = Loc(ck[0], (I.f(it, '.c'),) if ck[1] else (), ck[2])
    if not I.valid(I.f(it, '.g') == I.f(L, '.gen')): raise Unsupported("map iterator used after an insertion")
    return L, ck[2], I.f(it, '.i')
@km('map', 'begin', 'cbegin')
def m_begin(I, fn, this, args, ret, node): check_order(I, fn['cls']); return mk_mit(I, ret, rett(fn), this, fn['cls'], I_(0))
@km('map', 'end', 'cend')
def m_end(I, fn, this, args, ret, node): return mk_mit(I, ret, rett(fn), this, fn['cls'], mlen(I, this))
def byk(I, L, k): return sel(ml(I, I.st.mem, L, '.byk'), k)
def found(I, L, t, k):
    "node of a key that is there"
    n = byk(I, L, k); m = I.st.mem
    I.fact(z3.And(n >= 1, inmap(I, m, L, n), sel(first_of(I, m, t), n) == k)); return n
@km('map', 'find')
def m_find(I, fn, this, args, ret, node):
    t = fn['cls']; check_order(I, t); k = I.nm(sval(I, args[0]))
    if I.choose(byk(I, this, k) != 0): n = found(I, this, t, k); return mk_mit(I, ret, rett(fn), this, t, sel(ml(I, I.st.mem, this, '.rank'), n))
    return mk_mit(I, ret, rett(fn), this, t, mlen(I, this))
@km('map', 'count')
def m_count(I, fn, this, args, ret, node): check_order(I, fn['cls']); return z3.If(byk(I, this, I.nm(sval(I, args[0]))) != 0, I_(1), I_(0))
def map_new(I, L, t, k):
    "a node for a key that is not there yet: every node behind it moves up by one rank"
    m = I.st.mem; n0, node0, rank0, byk0 = (ml(I, m, L, s) for s in ('.len', '.node', '.rank', '.byk')); fi0 = first_of(I, m, t)
    n = I.fresh('node', IntS); r = I.fresh('rank', IntS)
    I.fact(z3.And(n >= 1, z3.Not(z3.And(sel(rank0, n) >= 0, sel(rank0, n) < n0, sel(node0, sel(rank0, n)) == n)), r >= 0, r <= n0))
    node1 = I.havoc_leaf(L, '.node', AI); rank1 = I.havoc_leaf(L, '.rank', AI); I.wrleaf(L, '.byk', ASI, z3.Store(byk0, k, n)); I.wrleaf(L, '.len', IntS, simp(n0 + 1)); I.setf(L, '.gen', I.fresh('gen', IntS))
    I.wrraw(mkey(I, t) + '.first', (n,), StrS, k)
    I.fact(z3.And(sel(node1, r) == n, sel(rank1, n) == r))
    I.fact(z3.ForAll([QI], z3.Select(node1, QI) == z3.If(QI < r, z3.Select(node0, QI), z3.If(QI == r, n, z3.Select(node0, QI - 1))), patterns=[z3.Select(node1, QI)]))
    I.fact(z3.ForAll([QI], z3.Implies(QI != n, z3.Select(rank1, QI) == z3.If(z3.Select(rank0, QI) < r, z3.Select(rank0, QI), z3.Select(rank0, QI) + 1)), patterns=[z3.Select(rank1, QI)]))
    I.fact(z3.ForAll([QI], z3.Implies(z3.And(QI != n, QI >= 1), z3.Select(rank1, QI) == z3.If(z3.Select(rank0, QI) < r, z3.Select(rank0, QI), z3.Select(rank0, QI) + 1)), patterns=[z3.Select(rank0, QI)]))
    # every node that was there is there
    x = z3.Select(node1, z3.Select(rank1, QI))
    I.fact(z3.ForAll([QI], z3.Implies(z3.And(QI >= 1, z3.Select(rank0, QI) >= 0, z3.Select(rank0, QI) < n0, z3.Select(node0, z3.Select(rank0, QI)) == QI), z3.And(QI != n, z3.Select(rank1, QI) >= 0, z3.Select(rank1, QI) <= n0, x == QI)), patterns=[z3.Select(rank1, QI)]))
    I.fact(z3.ForAll([QI], z3.Implies(z3.And(QI >= 1, z3.Select(rank1, QI) >= 0, z3.Select(rank1, QI) <= n0, x == QI, QI != n), z3.And(z3.Select(rank0, QI) >= 0, z3.Select(rank0, QI) < n0, z3.Select(node0, z3.Select(rank0, QI)) == QI)), patterns=[z3.Select(rank1, QI)]))
    m = I.st.mem; I.fact(map_wf(I, m, L, t)); I.fact(map_order(I, m, L, t))
    if hasattr(I.spec, 'on_map_new'): I.spec.on_map_new(I, L, t, n, k)
    return n
def second(I, t, n): l = node_of(I, t, n); return l.sub('.second', I.tu.T(pair_t(I, t))['args'][1])
@km('map', 'insert', 'emplace')
def m_insert(I, fn, this, args, ret, node):
    t = fn['cls']; check_order(I, t); vt = I.tu.T(t)['args'][1]
    if fn['n'] == 'insert' and len(args) == 1 and isinstance(args[0], Loc) and I.kind(args[0].t) == 'pair':
        a = args[0]; T = I.tu.T(a.t); k = sval(I, I.load(a.sub('.first', T['args'][0])) if I.kind(T['args'][0]) == 'cstr' else a.sub('.first', T['args'][0])); src = a.sub('.second', T['args'][1])
    elif fn['n'] == 'emplace' and len(args) == 2: k = sval(I, args[0]); src = args[1]
    else: raise Unsupported("map insertion")
    k = I.nm(k)
    if I.choose(byk(I, this, k) != 0): n = found(I, this, t, k); new = False
    else:
        n = map_new(I, this, t, k); new = True
        d = second(I, t, n)
        if isinstance(src, Loc): I.copy_leaves(d, src, vt)
        else: I.store(d, src, vt)
    l = ret if ret is not None else I.new_local('ins', rett(fn))
    put_mit(I, l.key + '.first', this, t, sel(ml(I, I.st.mem, this, '.rank'), n)); I.wrraw(l.key + '.second', l.idx, BoolS, z3.BoolVal(new))
    return l
@km('map', 'operator[]', 'at')
def m_at(I, fn, this, args, ret, node):
    t = fn['cls']; check_order(I, t); k = I.nm(sval(I, args[0])); vt = I.tu.T(t)['args'][1]
    if I.choose(byk(I, this, k) != 0): n = found(I, this, t, k)
    elif fn['n'] == 'at': raise CppThrow('std::out_of_range')
    else:
        n = map_new(I, this, t, k); d = second(I, t, n)
        if I.is_class(vt): I.default_construct(d, vt)
        else: I.store(d, I.zero(vt), vt)
    return second(I, t, n)
@km('mit', 'operator++', 'operator--')
def mit_step(I, fn, this, args, ret, node):
    L, t, i = mit_parts(I, this); old = mk_mit(I, ret, rett(fn), L, t, i) if len(fn['params']) == 1 else None
    n = i + (1 if fn['n'] == 'operator++' else -1)
    I.ob('map iterator stays inside', z3.And(n >= 0, n <= mlen(I, L)), node)
    I.wrraw(this.key + '.i', (), IntS, simp(n)); return old if old is not None else this
@km('mit', 'operator*', 'operator->')
def mit_deref(I, fn, this, args, ret, node):
    L, t, i = mit_parts(I, this); c = z3.And(i >= 0, i < mlen(I, L)); I.ob('dereferenced map iterator is valid', c, node); I.fact(c)
    n = sel(ml(I, I.st.mem, L, '.node'), i); I.fact(z3.And(n >= 1, sel(ml(I, I.st.mem, L, '.rank'), n) == i))
    l = node_of(I, t, n)
    return l if fn['n'] == 'operator*' else PyPtr(l)
def eq_mit(I, fn, this, args, ret, node):
    a, b = ([this] if this is not None else []) + list(args)
    A, ta, i = mit_parts(I, a); B, tb, j = mit_parts(I, b)
    if A.key != B.key: raise Unsupported("iterators of different maps compared")
    if A.idx: I.ob('iterators compared belong to the same map', A.idx[0] == B.idx[0], node)
    return i == j if fn['n'] == 'operator==' else i != j
_bk3 = stdmodel.by_kind
def by_kind4(I, fn, q, this, args):
    if fn['n'] in ('operator==', 'operator!='):
        ts = ([fn['cls']] if this is not None else []) + [I.tu.deref(p['t']) for p in fn['params']]
        if all(I.kind(t) == 'mit' for t in ts): return eq_mit
    return _bk3(I, fn, q, this, args)
stdmodel.by_kind = by_kind4
@ctor('pair')
def c_pair(I, fn, loc, t, args, node):
    if len(args) == 1 and isinstance(args[0], Loc) and I.kind(args[0].t) == 'pair':
        s = args[0]; T, U = I.tu.T(t), I.tu.T(s.t)
        for n, k in enumerate(('.first', '.second')): half(I, loc.sub(k, T['args'][n]), s.sub(k, U['args'][n]), T['args'][n])
        return
    if len(args) == 2:
        T = I.tu.T(t)
        for n, k in enumerate(('.first', '.second')): half(I, loc.sub(k, T['args'][n]), args[n], T['args'][n])
        return
    raise Unsupported("pair constructor")
def half(I, d, v, t):
    k = I.kind(t)
    if k == 'str': I.wrleaf(d, '', StrS, sval(I, v)); return
    if I.is_class(t): I.copy_leaves(d, v, t); return
    I.store(d, I.val(v, t), t)
@model('std::make_pair')
def m_mkpair(I, fn, this, args, ret, node):
    l = ret if ret is not None else I.new_local('pair', rett(fn)); T = I.tu.T(rett(fn))
    for n, k in enumerate(('.first', '.second')): half(I, l.sub(k, T['args'][n]), args[n], T['args'][n])
    return l
@km('str', 'begin', 'cbegin')
def s_begin(I, fn, this, args, ret, node): return mk_vit(I, ret, rett(fn), Loc(this.key, this.idx, unconst(I, fn['cls'])), I_(0))
@km('str', 'end', 'cend')
def s_end(I, fn, this, args, ret, node): L = Loc(this.key, this.idx, unconst(I, fn['cls'])); return mk_vit(I, ret, rett(fn), L, vlen(I, L))
PARSES_INT = z3.Function('starts_with_a_number', StrS, BoolS); INT_OF = z3.Function('number_at_the_start', StrS, IntS); AFTER_INT = z3.Function('rest_after_the_number', StrS, StrS)
@ctor('istr')
def c_istr(I, fn, loc, t, args, node):
    if fn.get('copyctor') or fn.get('movector') or 'string' not in I.tu.T(t)['n']: raise Unsupported("input stream constructor")
    I.wrleaf(loc, '.txt', StrS, sval(I, args[0]) if args and args[0] is not None else EMPTY); I.wrleaf(loc, '.bad', BoolS, FALSE)
@km('istr', 'operator>>')
def istr_get(I, fn, this, args, ret, node):
    t = I.tu.deref(fn['params'][0]['t']); T = I.tu.T(t)
    if T['k'] != 'int' or T.get('w') != 32 or not T.get('sg'): raise Unsupported("extraction of " + T['s'])
    x = I.nm(I.rdleaf(this, '.txt', StrS))
    if I.choose(I.rdleaf(this, '.bad', BoolS)): return this
    if I.choose(PARSES_INT(x)):
        v = INT_OF(x); I.fact(z3.And(v >= -(1 << 31), v < (1 << 31))); I.store(args[0], v, t); I.wrleaf(this, '.txt', StrS, AFTER_INT(x))
    else:
        v = I.fresh('no_number', IntS); I.fact(z3.And(v >= -(1 << 31), v < (1 << 31))); I.store(args[0], v, t); I.wrleaf(this, '.bad', BoolS, TRUE)
    return this
