"""Contracts of falcon::PagedStack (all proofs are for an opaque element type, any page size >= 1,
any preallocation >= 1 and any content)."""
from core import *
from interp import *
from contract import *
from loops import lst, lst_pos, lst_valid, lst_in, lst_wf
import stdmodel

PS = 'falcon::PagedStack'
BIG = 1 << 48
ElemS = z3.DeclareSort('Elem')
off = z3.Function('off', IntS, IntS)

class S:
    "symbolic view of one stack"
    def __init__(s, I, key='this'):
        s.I = I; s.key = key
        r = [x for x in I.tu.recs.values() if x['n'] == PS][0]
        s.own = r['n']; s.ft = {f['n']: f['t'] for f in r['fields']}
        s.L = Loc(key + '.%s::m_base' % PS, (), s.ft['m_base'])
        s.pt = I.tu.T(s.ft['m_base'])['args'][0]
        s.N = 'N<%s>' % I.tu.T(s.pt)['s']
        s.lid = s.L.key + '()'
    def k(s, f): return s.key + '.%s::%s' % (PS, f)
    def P(s, m): return g(m, s.k('m_pageSize'))
    def A(s, m): return g(m, s.k('m_allocSize'))
    def cur(s, m): return g(m, s.k('m_curBase.n'))
    def cnt(s, m): return g(m, s.k('m_syncIterCount'))
    def req(s, m): return g(m, s.k('m_shrinkRequest'), BoolS)
    def len(s, m): return lst(m, s.L, '.len')
    def node(s, m, i): return sel(lst(m, s.L, '.node'), i)
    def pos(s, m, n): return sel(lst(m, s.L, '.pos'), n)
    def size(s, m, n): return sel(ga(m, s.N + '.len', IntS, 1), n)
    def cap(s, m, n): return sel(ga(m, s.N + '.cap', IntS, 1), n)
    def gen(s, m, n): return sel(ga(m, s.N + '.gen', IntS, 1), n)
    def data(s, m, n, j): return sel(sel(ga(m, s.N + '.data', ElemS, 2), n), j)
    def c(s, m): return s.pos(m, s.cur(m))
    def at(s, m, i, j): return s.data(m, s.node(m, i), j)
    def top(s, m): return s.size(m, s.cur(m))
    def T(s, m): return off(s.c(m)) + s.top(m)
    def reg(s, I):
        I.st.lists[s.lid] = s.L; I.st.mem[s.k('m_curBase.lid')] = s.lid
    def inv(s, m):
        i = z3.Int('pi'); n = z3.Select(lst(m, s.L, '.node'), i); c = s.c(m)
        sz = z3.Select(ga(m, s.N + '.len', IntS, 1), n); cp = z3.Select(ga(m, s.N + '.cap', IntS, 1), n)
        return [('page size and preallocation are kept positive', z3.And(s.P(m) >= 1, s.A(m) >= 1, s.P(m) < BIG, s.A(m) < BIG)),
                ('page list is well formed', z3.And(lst_wf(m, s.L), s.len(m) >= 1)),
                ('current page is in the page list', lst_in(m, s.L, s.cur(m))),
                ('pages below the current one are full, pages above are empty', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len(m)),
                    z3.And(z3.Implies(i < c, sz == s.P(m)), z3.Implies(i > c, sz == 0), z3.Implies(z3.And(i == c, i > 0), sz >= 1), sz >= 0, sz <= s.P(m))), patterns=[n])),
                ('every page keeps its capacity', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.len(m)), cp >= s.P(m)), patterns=[n])),
                ('count of live synchronised iterators is sane', z3.And(s.cnt(m) >= 0, z3.Implies(s.req(m), s.cnt(m) > 0)))]
    def assume(s, I, m):
        p, q = z3.Ints('op oq')
        return [('inv', f) for _, f in s.inv(m)] + [('mutex free', z3.Not(g(m, s.k('m_mutex.held'), BoolS))), ('len', s.len(m) < BIG), ('cnt', s.cnt(m) < (1 << 30)),
            ('off0', off(I_(0)) == 0),
            ('offstep', z3.ForAll([p, q], z3.Implies(q == p + 1, off(q) == off(p) + s.P(m)), patterns=[z3.MultiPattern(off(p), off(q))])),
            ('offmono', z3.ForAll([p, q], z3.Implies(p < q, off(p) + s.P(m) <= off(q)), patterns=[z3.MultiPattern(off(p), off(q))])),
            ('offpos', z3.ForAll([p], z3.Implies(p >= 0, off(p) >= 0), patterns=[off(p)])),
            ('total', s.T(m) < (1 << 60))]
def off_props(S_, m): pass
def g(m, k, so=IntS):
    v = m.get(k)
    if v is None: v = m[k] = z3.Const(k + '!0', so)
    return v
def ga(m, k, so, n):
    v = m.get(k)
    if v is None: v = m[k] = z3.Const(k + '!0', lift(so, n))
    return v
def forall2(i, j, body, *pats): return z3.ForAll([i, j], body, patterns=list(pats)) if pats else z3.ForAll([i, j], body)

def kept(s, o, m, upto):
    "elements with linear position < upto (given as (page, idx) bound) are the same in m as in o"
    i, j = z3.Ints('ki kj')
    c, t = upto
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, j < s.P(o), z3.Or(i < c, z3.And(i == c, j < t))), s.at(m, i, j) == s.at(o, i, j)))
def same_addr(s, o, m, upto):
    "pages that hold elements before and after are the same storage"
    i = z3.Int('ki'); c, t = upto
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= c), z3.And(s.node(m, i) == s.node(o, i), s.gen(m, s.node(m, i)) == s.gen(o, s.node(o, i)))))

class PSpec:
    prove_ms = 8000
    def __init__(s, tu, prop, contracts=()):
        s.prop = prop; s.contracts = list(contracts); s.handlers = {}; s.tags = TAGS[prop]
        s.elem_throws = s.alloc_throws = prop == 'C07'
    def ob_filter(s, I, name):
        if s.prop == 'C07': return name.startswith(('mutex', 'lock', 'shared'))
        return not name.startswith('shared')
    def on_terminate(s, I, fn, x):
        if s.prop != 'C07': I.ob('no exception leaves a noexcept function', FALSE, fn.get('loc', ''))
    def touch(s, I, key, node):
        if s.prop != 'C07' or not I.st.px.get('guard'): return
        for st in stacks(I):
            if key.startswith(st.N) or key.startswith((st.k('m_base'), st.k('m_curBase'), st.k('m_syncIterCount'), st.k('m_shrinkRequest'))):
                I.ob('shared content touched only while the lock of the stack is held', I.rdraw(st.k('m_mutex.held'), (), BoolS), node)
    def loop_cands(s, I, entry, mods, node):
        E = entry.mem; out = []
        for st in stacks(I):
            N = st.N
            touched = [k for k in mods if k.startswith(N)]
            ints = [k for k in mods if loops.is_int(mods[k]) and not k.endswith(('.n', '.end', '.c'))]
            its = [(k, L) for k, L in loops.list_iters(I, E) if L.same(st.L)]
            lp = lambda m, k: lst_pos(m, st.L, m[k])
            for k, L in its:
                if k in mods:
                    tt = lambda m, k=k: off(lp(m, k)) + st.size(m, m[k])
                    for i in ints:
                        out.append(("%s - pages(%s) const" % (i, k), lambda m, i=i, k=k: m[i] - E[i] == off(lp(m, k)) - off(lp(E, k))))
                        out.append(("%s + pages(%s) const" % (i, k), lambda m, i=i, k=k: m[i] - E[i] == off(lp(E, k)) - off(lp(m, k))))
                        out.append(("%s - content(%s) const" % (i, k), lambda m, i=i, tt=tt: m[i] - E[i] == tt(m) - tt(E)))
                        if '$' in i: out.append(("%s is the size of the page at %s" % (i, k), lambda m, i=i, k=k: m[i] == st.size(m, m[k])))
                        out.append(("%s + content(%s) const" % (i, k), lambda m, i=i, tt=tt: m[i] - E[i] == tt(E) - tt(m)))
                    for u, L2 in its:
                        if u == k or u in mods: continue
                        out.append(("%s not passed upwards by %s" % (u, k), lambda m, u=u, k=k: z3.Or(lp(m, u) <= lp(E, k), lp(m, u) > lp(m, k))))
                        out.append(("%s not passed downwards by %s" % (u, k), lambda m, u=u, k=k: z3.Or(lp(m, u) >= lp(E, k), lp(m, u) < lp(m, k))))
                    for i in ints: out.append(("%s at entry or %s>=1" % (k, i), lambda m, i=i, k=k: z3.Or(m[k] == E[k], m[i] >= 1)))
                if k in mods or touched:
                    if touched:
                        f = lambda m, k=k, suf='.len': frame_pages(st, E, m, suf, lambda i: z3.And(i >= 0, i <= lp(m, k)))
                        out.append(("pages up to %s keep their size" % k, f))
                        out.append(("pages above %s are empty" % k, lambda m, k=k: pages_empty(st, m, lambda i: z3.And(i > lp(m, k), i < st.len(m)))))
                        out.append(("pages below %s keep their size" % k, lambda m, k=k: frame_pages(st, E, m, '.len', lambda i: z3.And(i >= 0, i < lp(m, k)))))
                        out.append(("pages from %s on are as before" % k, lambda m, k=k: frame_pages(st, E, m, '.len', lambda i: z3.And(i >= lp(m, k), i < st.len(m)))))
                        out.append(("pages below %s are empty" % k, lambda m, k=k: pages_empty(st, m, lambda i: z3.And(i >= 0, i < lp(m, k)))))
                # element iterators
            for v in vits(I, E):
                b, d = v
                if any(x in mods for x in (b + '.n', d + '.i', d + '.c')):
                    lin = lambda m, b=b, d=d: off(lst_pos(m, st.L, m[b + '.n'])) + m[d + '.i']
                    for i in ints:
                        if i == d + '.i': continue
                        out.append(("%s - index(%s) const" % (i, b), lambda m, i=i, lin=lin: m[i] - E[i] == lin(m) - lin(E)))
                        out.append(("%s + index(%s) const" % (i, b), lambda m, i=i, lin=lin: m[i] - E[i] == lin(E) - lin(m)))
                    out.append(("%s iterator normal" % b, lambda m, b=b, d=d: fit_valid(st, m, m[b + '.n'], m[d + '.c'], m[d + '.i'])))
                    out.append(("%s reverse iterator normal" % b, lambda m, b=b, d=d: rit_valid(st, m, m[b + '.n'], m[d + '.c'], m[d + '.i'])))
            if touched:
                na = E.get('ghost.nalive')
                if na is not None and s.prop == 'C08':
                    for suf in ('.len', '.data', '.cap'):
                        if N + suf in mods: out.append(("other stacks keep their " + suf, lambda m, suf=suf: others_same(st, E, m, suf)))
                if na is not None:
                    for suf, so, n in (('.len', IntS, 1), ('.cap', IntS, 1), ('.gen', IntS, 1), ('.data', ElemS, 2)):
                        if N + suf in mods:
                            out.append(("existing pages keep their " + suf, lambda m, suf=suf, so=so, n=n: old_nodes(E, m, N + suf, so, n, na)))
                            out.append(("listed pages keep their " + suf, lambda m, suf=suf: frame_pages(st, E, m, suf, lambda i: z3.And(i >= 0, i < st.len(E)))))
                    if na is not None:
                        out.append(("new pages are new and have room", lambda m: new_pages(st, E, m, na)))
                    out.append(("new pages are empty", lambda m: pages_empty(st, m, lambda i: z3.And(i >= st.len(E), i < st.len(m)))))
                out.append(("pages keep capacity", lambda m: caps_ok(st, m)))
            if (st.L.key + '.node') in mods and s.prop == 'C08':
                for B in stacks(I):
                    if B is st: continue
                    out.append(("pages mirror those of the other stack", lambda m, B=B: mirror_size(st, B, m)))
                    out.append(("pages hold the elements of the other stack", lambda m, B=B: mirror_data(st, B, m)))
                i0 = z3.Int('pi')
                out.append(("pages are own or new", lambda m: z3.ForAll([i0], z3.Implies(z3.And(i0 >= 0, i0 < st.len(m)), z3.Or(in_list(st, E, z3.Select(lst(m, st.L, '.node'), i0)), z3.Not(z3.Select(E['ghost.nalive'], z3.Select(lst(m, st.L, '.node'), i0))))), patterns=[z3.Select(lst(m, st.L, '.node'), i0)])))
            if (st.L.key + '.node') in mods:
                na = E.get('ghost.nalive')
                out.append(("list not empty", lambda m: st.len(m) >= 1))
                if na is not None:
                    out.append(("nodes stay allocated", lambda m: z3.ForAll([z3.Int('qn')], z3.Implies(z3.Select(na, z3.Int('qn')), z3.Select(m['ghost.nalive'], z3.Int('qn'))), patterns=[z3.Select(m['ghost.nalive'], z3.Int('qn')), z3.Select(na, z3.Int('qn'))])))
                out.append(("nodes up to the current page kept", lambda m: z3.And(st.len(m) > st.c(E), nodes_same(st, E, m, st.c(E) + 1), st.pos(m, st.cur(E)) == st.c(E))))
                out.append(("list shrinks", lambda m: st.len(m) <= st.len(E)))
                for i in ints:
                    out.append(("%s + len const" % i, lambda m, i=i: m[i] - E[i] == st.len(E) - st.len(m)))
                for k, L in its:
                    out.append(("%s next to current" % k, lambda m, k=k: lp(m, k) == st.c(E) + 1))
        return out
    def loop_measures(s, I, entry, mods):
        out = []
        for st in stacks(I):
            if st.L.key + '.len' in mods: out.append(("pages", lambda m: st.len(m)))
        return out

import loops
def stacks(I): return I.st.px.get('stacks', [])
def pages_empty(st, m, dom):
    i = z3.Int('pi'); n = z3.Select(lst(m, st.L, '.node'), i)
    return z3.ForAll([i], z3.Implies(dom(i), z3.Select(ga(m, st.N + '.len', IntS, 1), n) == 0), patterns=[n])
def new_pages(st, E, m, na):
    i = z3.Int('pi'); n = z3.Select(lst(m, st.L, '.node'), i)
    return z3.ForAll([i], z3.Implies(z3.And(i >= st.len(E), i < st.len(m)), z3.And(z3.Not(z3.Select(na, n)), z3.Select(ga(m, st.N + '.cap', IntS, 1), n) >= st.P(m))), patterns=[n])
def caps_ok(st, m):
    i = z3.Int('pi'); n = z3.Select(lst(m, st.L, '.node'), i)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.len(m)), z3.Select(ga(m, st.N + '.cap', IntS, 1), n) >= st.P(m)), patterns=[n])
def frame_pages(st, E, m, suf, dom):
    so, k = {'.len': (IntS, 1), '.cap': (IntS, 1), '.gen': (IntS, 1), '.data': (ElemS, 2)}[suf]
    i = z3.Int('pi'); n = z3.Select(lst(m, st.L, '.node'), i); n0 = z3.Select(lst(E, st.L, '.node'), i)
    return z3.ForAll([i], z3.Implies(dom(i), z3.Select(ga(m, st.N + suf, so, k), n) == z3.Select(ga(E, st.N + suf, so, k), n0)), patterns=[n] + ([n0] if not n0.eq(n) else []))
def old_nodes(E, m, key, so, n, na):
    x = z3.Int('qn')
    return z3.ForAll([x], z3.Implies(z3.Select(na, x), z3.Select(m[key], x) == z3.Select(ga(E, key, so, n), x)), patterns=[z3.Select(m[key], x)])
def mirror_size(a, b, m):
    i = z3.Int('pi'); x, y = z3.Select(lst(m, a.L, '.node'), i), z3.Select(lst(m, b.L, '.node'), i); ln = ga(m, a.N + '.len', IntS, 1)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.len(m)), z3.Select(ln, x) == z3.Select(ln, y)), patterns=[x])
def mirror_data(a, b, m):
    i, j = z3.Ints('pi pj'); x, y = z3.Select(lst(m, a.L, '.node'), i), z3.Select(lst(m, b.L, '.node'), i)
    ln = ga(m, a.N + '.len', IntS, 1); da = ga(m, a.N + '.data', ElemS, 2)
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < a.len(m), j >= 0, j < z3.Select(ln, y)), z3.Select(z3.Select(da, x), j) == z3.Select(z3.Select(da, y), j)))
def nodes_same(st, E, m, upto):
    i = z3.Int('pi'); a, b = z3.Select(lst(m, st.L, '.node'), i), z3.Select(lst(E, st.L, '.node'), i)
    if a.eq(b): return TRUE
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < upto), a == b), patterns=[a, b])
def vits(I, E):
    out = []
    for k in E:
        if k.endswith('m_iBase.n'):
            b = k[:-2]; d = b[:-len('m_iBase')] + 'm_iData'
            if d + '.i' in E: out.append((b, d))
    return out
def fit_valid(st, m, b, c, i):
    "normal form of a forward position: an element, or -1 in the first page (end)"
    p = st.pos(m, b)
    return z3.And(lst_in(m, st.L, b), c == b, p <= st.c(m), i < st.size(m, b), i >= -1, z3.Implies(i == -1, p == 0))
def rit_valid(st, m, b, c, i):
    p = st.pos(m, b)
    return z3.And(lst_in(m, st.L, b), c == b, p <= st.c(m), i >= 0, i <= st.size(m, b), z3.Implies(i == st.size(m, b), p == st.c(m)))


TAGS = {'C01': {'inv', 'fun'}, 'C02': {'inv', 'fun'}, 'C03': {'inv', 'fun'}, 'C04': {'inv', 'fun'}, 'C05': {'inv', 'fun', 'addr'},
        'C06': {'inv', 'fun', 'sync'}, 'C07': set(), 'C08': {'inv', 'fun', 'frame'}}
IT, RIT, SIT = PS + '::iterator_base', PS + '::reverse_iterator_base', PS + '::sync_iterator_base'
def rec_name(tu, own):
    c = tu.__dict__.setdefault('_recn', {})
    if own not in c: c[own] = [r['n'] for r in tu.recs.values() if strip_targs(r['n']) == own][0]
    return c[own]

class Itr:
    "view of an iterator object"
    def __init__(s, I, loc, own, st):
        s.loc = loc; s.kind = own; s.own = rec_name(I.tu, own); s.st = st; s.rev = own == RIT
        s.lim = '.m_iBaseEnd' if s.rev else '.m_iBaseBegin'
    def key(s, f): return s.loc.key + '.' + s.own + '::' + f
    def b(s, m): return g(m, s.key('m_iBase.n'))
    def c(s, m): return g(m, s.key('m_iData.c'))
    def i(s, m): return g(m, s.key('m_iData.i'))
    def l(s, m): return g(m, s.key(s.lim[1:] + '.n'))
    def k(s, m, sm=None): return off(s.st.pos(m if sm is None else sm, s.b(m))) + s.i(m)
    def valid(s, m):
        st = s.st
        if s.rev: return z3.And(rit_valid(st, m, s.b(m), s.c(m), s.i(m)), s.l(m) == st.cur(m))
        return z3.And(fit_valid(st, m, s.b(m), s.c(m), s.i(m)), s.l(m) == st.node(m, I_(0)))
    def shape(s, I):
        for f in ('m_iBase', s.lim[1:]): I.st.mem[s.key(f + '.lid')] = s.st.lid
        I.st.mem[s.key('m_iData.ck')] = (s.st.N, 1, s.st.pt)
        if s.kind == SIT: I.st.mem[s.key('m_owner')] = PyPtr(Loc(s.st.key, (), s.st.t))
    def fkeys(s): return [s.key('m_iBase.n'), s.key('m_iData.c'), s.key('m_iData.i'), s.key(s.lim[1:] + '.n')]
    def same(s, m, o): return z3.And(s.b(m) == s.b(o), s.c(m) == s.c(o), s.i(m) == s.i(o), s.l(m) == s.l(o))

# ------------------------------------------------------------------ set up
def view(I, key):
    for st in I.st.px.setdefault('stacks', []):
        if st.key == key: return st
    st = S(I, key); st.t = [i for i, t in enumerate(I.tu.types) if t and t['k'] == 'rec' and t['n'] == PS and not t.get('const')][0]
    st.reg(I); I.st.px['stacks'].append(st)
    return st
def setup_stack(I, x, key='this', raw=False):
    I.tu.opaque['vf::Elem'] = ElemS
    st = view(I, key)
    nal = I.gh('nalive', z3.ArraySort(IntS, BoolS))
    for f in ('m_pageSize', 'm_allocSize'): g(I.st.mem, st.k(f), IntS)
    if raw:
        m = I.st.mem; st.cur(m)
        for f in (st.P(m) >= 1, st.A(m) >= 1, st.P(m) < BIG, st.A(m) < BIG, st.len(m) < BIG, lst_wf(m, st.L)): I.fact(f)
        return st
    for _, f in st.assume(I, I.st.mem): I.fact(f)
    I.fact(sel(nal, st.cur(I.st.mem)))
    return st
def setup_args(I, x):
    out = []
    for n, p in enumerate(x.fn['params']):
        T = I.tu.T(p['t']); t = T['to'] if T['k'] == 'ref' else p['t']
        l = Loc('$arg%d' % n, (), t)
        k = I.kind(t)
        if k == 'opaque': I.wrraw(l.key, (), ElemS, z3.Const('arg%d' % n, ElemS)); out.append(l)
        elif k == 'int':
            v = z3.Const('arg%d' % n, IntS); I.rng(v, t)
            if T['k'] == 'ref': I.wrraw(l.key, (), IntS, v); out.append(l)
            else: out.append(v)
        elif k == 'bool': out.append(z3.Const('arg%d' % n, BoolS))
        else: out.append(l)
    x.args = out

class PC(Contract):
    "contract of a function of the paged stack; posts carry tags so that each property checks its own"
    def __init__(s, name, qn, np=None, on='stack', locked=False, pre=None, post=None, exc=None, mods='', usable=False, sel=None, ret=None, raises=False, iargs=(), raw=False):
        s.name = name; s.qn = qn; s.np = np; s.on = on; s.locked = locked; s._pre = pre; s._post = post; s._exc = exc; s.mods = mods.split(); s.usable = usable; s.sel = sel; s.retkind = ret; s.raises = raises; s.iargs = iargs; s.raw = raw
    def match(s, tu, fn):
        q = fn.get('_sq')
        if q is None: q = fn['_sq'] = strip_targs(fn['qn'])
        if q != s.qn or fn.get('body') is None: return False
        if s.np is not None and len(fn['params']) != s.np: return False
        return s.sel is None or s.sel(tu, fn)
    # -- binding of names
    def bind(s, I, x):
        own = {'it': IT, 'rit': RIT, 'sit': SIT}.get(s.on)
        if own:
            if x.setup: x.st = setup_stack(I, x, 'S'); x.this = Loc('it', (), x.fn['cls'])
            else: x.st = owner_of(I, Loc(x.this.key + '.' + rec_name(I.tu, own) + '::m_iBase', (), None))
            x.it = Itr(I, x.this, own, x.st)
            if x.setup: x.it.shape(I)
            if own == SIT and x.setup: pass
        else:
            if x.setup: x.st = setup_stack(I, x, raw=s.raw); x.this = Loc('this', (), x.fn['cls'])
            else: x.st = view(I, x.this.key)
        if x.setup: setup_args(I, x)
        x.its = {}
        for n, o in s.iargs:
            own = {'it': IT, 'rit': RIT, 'sit': SIT}[o]
            x.its[n] = Itr(I, x.args[n], own, x.st)
            if x.setup: x.its[n].shape(I)
    def setup(s, I, x):
        x.setup = True; s.bind(I, x)
        if s.locked:
            I.st.mem[x.st.k('m_mutex.held')] = TRUE
        I.st.px['guard'] = I.spec.prop == 'C07'
    def pre(s, I, x):
        x.pm = I.st.mem
        return s._pre(I, x) if s._pre else []
    def filt(s, I, l, setup=False):
        # C08 proves the framing of the operations; what they do to their own content is C01-C06
        tags = {'frame'} if setup and I.spec.prop == 'C08' and not isinstance(s, PCopy) else I.spec.tags
        return [(n, f) for t, n, f in l if t == 'all' or t in tags]
    def post(s, I, x):
        out = ([] if s.raw else inv_posts(x)) + released(x, s) + (s._post(I, x) if s._post else [])
        if set(s.mods) & {'content', 'pages'}: out += framed(I, x)
        return s.filt(I, out, x.setup)
    def post_exc(s, I, x):
        out = released(x, s)
        if I.spec.prop == 'C07': return s.filt(I, out)
        if s._exc: return s.filt(I, inv_posts(x) + out + s._exc(I, x))
        return [('no exception escapes', FALSE)]
    def modkeys(s, I, x):
        st = x.st; out = []
        for w in s.mods:
            if w == 'content': out += [(st.N + '.len', IntS, 1), (st.N + '.data', ElemS, 2)]
            elif w == 'pages': out += [(st.L.key + '.node', z3.ArraySort(IntS, IntS), 0), (st.L.key + '.pos', z3.ArraySort(IntS, IntS), 0), (st.L.key + '.len', IntS, 0), (st.N + '.cap', IntS, 1), (st.N + '.gen', IntS, 1), (st.N + '.len', IntS, 1), (st.N + '.data', ElemS, 2), ('ghost.nalive', z3.ArraySort(IntS, BoolS), 0)]
            elif w == 'cur': out += [(st.k('m_curBase.n'), IntS, 0)]
            elif w == 'count': out += [(st.k('m_syncIterCount'), IntS, 0)]
            elif w == 'req': out += [(st.k('m_shrinkRequest'), BoolS, 0)]
            elif w == 'it': out += [(k, IntS, 0) for k in x.it.fkeys()]
            elif w == 'args': out += [(a.key, ElemS, 0) for a in x.args if isinstance(a, Loc) and I.kind(a.t) == 'opaque' and not a.idx]
        return out
    def frame(s, I, x):
        if I.spec.prop == 'C07': return None
        return [k for k, _, _ in s.modkeys(I, x)] + [x.st.k('m_mutex.held'), '$*']
    def invoke(s, I, x): return default_invoke(I, x)
    def apply(s, I, fn, this, args, ret, node):
        x = Ctx(); x.node = node; x.fn = fn; x.this = this; x.args = args; x.setup = False; x.exc = None
        s.bind(I, x)
        if s.locked is False:
            h = I.rdraw(x.st.k('m_mutex.held'), (), BoolS)
            I.ob('mutex acquired without holding it already', z3.Not(h), node); I.fact(z3.Not(h))
        for n, f in s.pre(I, x): I.ob('precondition of %s: %s' % (s.name, n), f, node); I.fact(f)
        if s.locked: 
            h = I.rdraw(x.st.k('m_mutex.held'), (), BoolS); I.ob('lock held when an internal function is entered', h, node); I.fact(h)
        x.old = dict(I.st.mem)
        for k, so, n in s.modkeys(I, x):
            x.old.setdefault(k, z3.Const(k + '!0', lift(so, n)))
            I.st.wlog.add(k); I.st.mem[k] = I.fresh(k + '~', lift(so, n))
        x.mem = I.st.mem
        if I.spec.prop == 'C07' and s.locked is not False and 'content' in s.mods + ['content' if 'pages' in s.mods else ''] and I.choose(I.fresh('raised', BoolS)): raise CppThrow('vf::Error')
        if s.raises and I.choose(I.fresh('raised', BoolS)):
            for n, f in s.filt(I, inv_posts(x) + s._exc(I, x)): I.fact(f)
            raise CppThrow('std::runtime_error')
        x.ret = None
        if s.retkind in ('int', 'bool'): x.ret = I.fresh('ret', IntS if s.retkind == 'int' else BoolS); (I.rng(x.ret, fn['ret']) if s.retkind == 'int' else None)
        elif s.retkind in ('it', 'rit'):
            x.ret = ret if ret is not None else I.new_local('it', fn['ret'])
            it = Itr(I, x.ret, IT if s.retkind == 'it' else RIT, x.st); it.shape(I)
            for k in it.fkeys(): I.st.wlog.add(k); I.st.mem[k] = I.fresh('itf', IntS)
        elif s.retkind == 'this': x.ret = this
        for n, f in s.post(I, x): I.fact(f)
        return x.ret
def owner_of(I, itloc):
    lid = I.rdraw(itloc.key + '.lid', (), PYLEAF)
    for st in stacks(I):
        if st.lid == lid: return st
    raise Unsupported("iterator of an unknown stack")
def in_list(st, m, n):
    p = sel(lst(m, st.L, '.pos'), n)
    return z3.And(p >= 0, p < st.len(m), sel(lst(m, st.L, '.node'), p) == n)
def others_same(st, E, m, suf):
    so, k = {'.len': (IntS, 1), '.cap': (IntS, 1), '.gen': (IntS, 1), '.data': (ElemS, 2)}[suf]
    n = z3.Int('qn'); na = E['ghost.nalive']
    a, b = z3.Select(ga(m, st.N + suf, so, k), n), z3.Select(ga(E, st.N + suf, so, k), n)
    if a.eq(b): return TRUE
    return z3.ForAll([n], z3.Implies(z3.And(z3.Select(na, n), z3.Not(in_list(st, E, n))), a == b), patterns=[a])
def framed(I, x):
    st, o, m = x.st, x.old, x.mem; i = z3.Int('pi'); n = z3.Select(lst(m, st.L, '.node'), i)
    q = z3.Int('qn'); na0, na1 = o['ghost.nalive'], m['ghost.nalive']
    out = [] if na0.eq(na1) else [('frame', 'allocated nodes stay allocated', z3.ForAll([q], z3.Implies(z3.Select(na0, q), z3.Select(na1, q)), patterns=[z3.Select(na1, q), z3.Select(na0, q)]))]
    out += [('frame', 'storage of other stacks is untouched (%s)' % suf[1:], others_same(st, o, m, suf)) for suf in ('.len', '.data', '.cap')]
    return out + [('frame', 'every page is an own page or a new one', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.len(m)), z3.Or(in_list(st, o, n), z3.Not(z3.Select(o['ghost.nalive'], n)))), patterns=[n]))]
def inv_posts(x): return [('inv', 'invariant: ' + n, f) for n, f in x.st.inv(x.mem)]
def released(x, c):
    k = x.st.k('m_mutex.held')
    if c.locked is None: return [('all', 'lock is as before', x.mem[k] == g(x.old, k, BoolS))] if k in x.mem else []
    if c.locked: return [('all', 'lock still held at exit of an internal function', x.mem[k])] if k in x.mem else []
    return [('all', 'lock released at exit', z3.Not(x.mem[k]))] if k in x.mem else []
def av(x, n, mem=None):
    "element value of argument n (on entry)"
    a = x.args[n]; m = x.old if mem is None else mem
    if not isinstance(a, Loc): return z3.Function('make_Elem', IntS, ElemS)(a)
    v = m.get(a.key)
    if v is None: v = m[a.key] = z3.Const(a.key + '!0', lift(ElemS, len(a.idx)))
    if a.t is not None and v.sort() == IntS: return z3.Function('make_Elem', IntS, ElemS)(v)
    return rd_term(v, a.idx)
def ai(x, n, m): 
    a = x.args[n]
    return m[a.key] if isinstance(a, Loc) else a

# ---- posts
def t_fun(l): return [('fun',) + x for x in l]
def pushed(x, vals):
    st, o, m = x.st, x.old, x.mem
    out = [('fun', 'content below is unchanged', kept(st, o, m, (st.c(o), st.top(o)))), ('fun', 'number of elements grows by %d' % len(vals), st.T(m) == st.T(o) + len(vals))]
    for k, v in enumerate(vals): out.append(('fun', 'pushed value %d is in place' % k, elem_is(st, m, st.T(o) + k, v)))
    return out + nomove(x, o) + [('addr', 'a page is added only when the existing ones are used up', z3.And(st.len(m) >= st.len(o), z3.Implies(st.len(m) > st.len(o), st.T(m) > off(st.len(o)))))] + caps(x)
def caps(x):
    st, m = x.st, x.mem
    return []
def nomove(x, upto): return [('addr', 'elements do not move', same_addr(x.st, x.old, x.mem, (x.st.c(upto), 0)))]
def samepages(x): return [('addr', 'no page is added or released', x.st.len(x.mem) == x.st.len(x.old))]
def unchanged(x):
    st, o, m = x.st, x.old, x.mem
    return [('fun', 'content is unchanged', z3.And(st.T(o) == st.T(m), st.c(o) == st.c(m), kept(st, o, m, (st.c(o), st.top(o)))))] + nomove(x, x.old) + samepages(x)
def cut(x, n):
    st, o, m = x.st, x.old, x.mem
    return [('fun', 'number of elements that remain', st.T(m) == n), ('fun', 'remaining elements are unchanged', kept(st, o, m, (st.c(m), st.top(m))))] + nomove(x, x.mem) + samepages(x)
def elem_is(st, o, k, v):
    "element at linear position k of state o equals v"
    i, j = z3.Ints('ei ej')
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= st.c(o), j >= 0, j < st.size(o, st.node(o, i)), off(i) + j == k), st.at(o, i, j) == v), patterns=[z3.MultiPattern(off(i), st.at(o, i, j))] if False else [])
def dst(x, n): return rd_term(x.mem[x.args[n].key], x.args[n].idx)
def argT(tu, fn, n): return tu.deref(fn['params'][n]['t'])
def is_it(tu, fn, n, own):
    t = tu.T(argT(tu, fn, n)); return t['k'] == 'rec' and strip_targs(t['n']) == own
def locked_it_post(x, d): return [('fun', 'position moves by %d' % d, x.it.k(x.mem) == x.it.k(x.old) + d), ('fun', 'iterator stays well formed', x.it.valid(x.mem))]

def contracts(tu):
    out = {}
    def add(props, *a, **kw):
        c = PC(*a, **kw)
        for p in props.split(): out.setdefault(p, []).append(c)
        return c
    M = lambda I: I.st.mem
    T = lambda x: x.st.T(x.pm)
    # ---------------- internal functions (usable contracts)
    U = 'C01 C02 C03 C04 C05 C06 C08'
    q = PS + '::'
    lock = dict(locked=True, usable=True)
    def grown(x):
        st, o, m = x.st, x.old, x.mem
        na0, na1 = o['ghost.nalive'], m['ghost.nalive']; i = z3.Int('pi'); n = z3.Int('qn')
        nd = z3.Select(lst(m, st.L, '.node'), i)
        fresh = z3.And(z3.Not(z3.Select(na0, nd)), z3.Select(ga(m, st.N + '.len', IntS, 1), nd) == 0, z3.Select(ga(m, st.N + '.cap', IntS, 1), nd) >= st.P(m))
        out = [('inv', 'the configured number of pages is added', z3.And(st.len(m) == st.len(o) + st.A(o))), ('inv', 'page list is well formed', lst_wf(m, st.L)), ('inv', 'existing pages stay in place', nodes_same(st, o, m, st.len(o))),
               ('inv', 'new pages are new, empty and have room for a page', z3.ForAll([i], z3.Implies(z3.And(i >= st.len(o), i < st.len(m)), fresh), patterns=[nd])),
               ('inv', 'allocated nodes stay allocated', z3.ForAll([n], z3.Implies(z3.Select(na0, n), z3.Select(na1, n)), patterns=[z3.Select(na1, n), z3.Select(na0, n)]))]
        for suf, so, k in (('.len', IntS, 1), ('.cap', IntS, 1), ('.gen', IntS, 1), ('.data', ElemS, 2)):
            ga(o, st.N + suf, so, k); ga(m, st.N + suf, so, k)
            out.append(('inv', 'existing pages are unchanged (%s)' % suf[1:], z3.ForAll([n], z3.Implies(z3.Select(na0, n), z3.Select(m[st.N + suf], n) == z3.Select(o[st.N + suf], n)), patterns=[z3.Select(m[st.N + suf], n)])))
        return out
    add('C01 C05', 'growBase', q + 'growBase', 0, mods='pages', raw=True, pre=lambda I, x: [('page list is well formed', z3.And(lst_wf(x.pm, x.st.L), x.st.P(x.pm) >= 1, x.st.A(x.pm) >= 1))], post=lambda I, x: grown(x), locked=None, usable=True)
    for n in (1, 2, 3, 4):
        add('C01 C05', 'internal_push/%d' % n, q + 'internal_push', n, mods='content pages cur', post=lambda I, x, n=n: pushed(x, [av(x, k) for k in range(n)]), **lock)
    add('C01 C02 C05', 'internal_pop_one', q + 'internal_pop_one', 0, mods='content cur', pre=lambda I, x: [('not empty', T(x) >= 1)], post=lambda I, x: cut(x, x.st.T(x.old) - 1), **lock)
    # position arguments
    def dpos(I, x):
        b, d = x.args; m = x.pm if not hasattr(x, 'old') else x.old
        return g(m, b.key + '.n'), g(m, d.key + '.c'), g(m, d.key + '.i')
    def dpre(I, x):
        if x.setup:
            I.st.mem[x.args[0].key + '.lid'] = x.st.lid; I.st.mem[x.args[1].key + '.ck'] = (x.st.N, 1, x.st.pt)
        b, c, i = dpos(I, x); st = x.st; m = x.pm; p = st.pos(m, b)
        return [('position designates an element or the top', z3.And(lst_in(m, st.L, b), c == b, p <= st.c(m), i >= 0, i <= st.size(m, b), z3.Implies(i == st.size(m, b), p == st.c(m))))]
    add('C02 C05', 'internal_discard', q + 'internal_discard', 2, mods='content cur', pre=dpre, post=lambda I, x: cut(x, (lambda p: off(x.st.pos(x.old, p[0])) + p[2])(dpos(I, x))), **lock)
    def ftop(I, x):
        r = Itr(I, x.ret, RIT, x.st)
        return [('fun', 'designates the element at that depth', z3.And(r.valid(x.mem), r.k(x.mem) == x.st.T(x.old) - ai(x, 0, x.old)))]
    add('C02 C03 C05', 'internal_from_top', q + 'internal_from_top', 1, pre=lambda I, x: [('depth within the stack', ai(x, 0, x.pm) <= T(x))], post=ftop, ret='rit', **lock)
    def shrunk(x):
        st, o, m = x.st, x.old, x.mem
        return [('fun', 'content is unchanged', z3.And(st.T(o) == st.T(m), kept(st, o, m, (st.c(o), st.top(o))), st.c(m) == st.c(o))),
                ('addr', 'exactly the pages above the top page are released', st.len(m) == st.c(o) + 1), ('sync', 'exactly the pages above the top page are released', st.len(m) == st.c(o) + 1)] + nomove(x, x.old)
    add('C05 C06', 'internal_shrink_to_fit', q + 'internal_shrink_to_fit', 0, mods='pages', post=lambda I, x: shrunk(x), **lock)
    # ---------------- C01
    P1 = 'C01 C05'
    for n in (1, 2, 3, 4):
        add(P1, 'push/%d' % n, q + 'push', n, mods='content pages cur', post=lambda I, x, n=n: pushed(x, [av(x, k) for k in range(n)]))
    add(P1, 'push_emplace', q + 'push_emplace', 1, mods='content pages cur', post=lambda I, x: pushed(x, [av(x, 0)]))
    for n in (0, 1, 2, 3, 4):
        add('C01 C05' + (' C02' if n == 0 else ''), 'pop/%d' % n, q + 'pop', n, mods='content cur args', pre=lambda I, x, n=n: [('enough elements', T(x) >= max(n, 1))],
            post=lambda I, x, n=n: cut(x, x.st.T(x.old) - max(n, 1)) + [('fun', 'popped value %d' % k, elem_is(x.st, x.old, x.st.T(x.old) - 1 - k, dst(x, k))) for k in range(n)])
    add(P1, 'top/set', q + 'top', 1, mods='content', pre=lambda I, x: [('not empty', T(x) >= 1)],
        post=lambda I, x: [('fun', 'size is unchanged', x.st.T(x.mem) == x.st.T(x.old)), ('fun', 'top is replaced', elem_is(x.st, x.mem, x.st.T(x.old) - 1, av(x, 0))),
            ('fun', 'content below is unchanged', kept(x.st, x.old, x.mem, (x.st.c(x.old), x.st.top(x.old) - 1)))] + nomove(x, x.old) + samepages(x))
    add(P1, 'top/get', q + 'top', 0, pre=lambda I, x: [('not empty', T(x) >= 1)],
        post=lambda I, x: unchanged(x) + [('fun', 'top designates the topmost element', elem_is(x.st, x.old, x.st.T(x.old) - 1, I.rdraw(x.ret.key, x.ret.idx, ElemS)))])
    # ---------------- C02
    P2 = 'C02 C05'
    add(P2, 'discard(n)', q + 'discard', 1, sel=lambda tu, f: tu.T(f['params'][0]['t'])['k'] == 'int', mods='content cur', pre=lambda I, x: [('count within the stack', x.args[0] <= T(x))],
        post=lambda I, x: cut(x, x.st.T(x.old) - x.args[0]))
    add(P2, 'discard(iterator)', q + 'discard', 1, sel=lambda tu, f: is_it(tu, f, 0, IT), iargs=((0, 'it'),), mods='content cur', pre=lambda I, x: [('designates an element', z3.And(x.its[0].valid(x.pm), x.its[0].k(x.pm) >= 0))],
        post=lambda I, x: cut(x, x.its[0].k(x.old)))
    add(P2, 'discard(reverse_iterator)', q + 'discard', 1, sel=lambda tu, f: is_it(tu, f, 0, RIT), iargs=((0, 'rit'),), mods='content cur', pre=lambda I, x: [('well formed', x.its[0].valid(x.pm))],
        post=lambda I, x: cut(x, x.its[0].k(x.old)))
    for n in (1, 2, 3):
        add(P2, 'pop_reverse/%d' % n, q + 'pop_reverse', n, mods='content cur args', pre=lambda I, x, n=n: [('enough elements', T(x) >= n)],
            post=lambda I, x, n=n: cut(x, x.st.T(x.old) - n) + [('fun', 'delivered value %d' % k, elem_is(x.st, x.old, x.st.T(x.old) - n + k, dst(x, k))) for k in range(n)])
    add(P2, 'clear', q + 'clear', 0, mods='content cur', post=lambda I, x: cut(x, I_(0)))
    # ---------------- C03
    add('C01 C02 C03 C05 C06', 'size', q + 'size', 0, usable=True, ret='int', post=lambda I, x: unchanged(x) + [('fun', 'the number of elements', x.ret == x.st.T(x.old))])
    add('C01 C02 C03 C05 C06', 'empty', q + 'empty', 0, usable=True, ret='bool', post=lambda I, x: unchanged(x) + [('fun', 'true exactly when there is no element', x.ret == (x.st.T(x.old) == 0))])
    for n in (1, 2, 3):
        for nm, at in (('peek', lambda x, n, k: x.st.T(x.old) - 1 - k), ('peek_reverse', lambda x, n, k: x.st.T(x.old) - n + k)):
            add('C03', '%s/%d' % (nm, n), q + nm, n, mods='args', pre=lambda I, x, n=n: [('enough elements', T(x) >= n)],
                post=lambda I, x, n=n, at=at: unchanged(x) + [('fun', 'delivered value %d' % k, elem_is(x.st, x.old, at(x, n, k), dst(x, k))) for k in range(n)])
        add('C03', 'peek_depth/%d' % n, q + 'peek_depth', n + 1, mods='args', pre=lambda I, x, n=n: [('depth within the stack', z3.And(x.args[0] >= n, x.args[0] <= T(x)))],
            post=lambda I, x, n=n: unchanged(x) + [('fun', 'delivered value %d' % k, elem_is(x.st, x.old, x.st.T(x.old) - x.args[0] + k, dst(x, k + 1))) for k in range(n)])
    add('C03', 'from_top', q + 'from_top', 1, pre=lambda I, x: [('depth within the stack', x.args[0] <= T(x))], post=lambda I, x: unchanged(x) + ftop(I, x))
    # ---------------- C04
    for on, own, d, lo in (('it', IT, -1, 0), ('rit', RIT, 1, 0)):
        up = lambda x, own=own: (x.it.k(x.pm) < x.st.T(x.pm)) if own == RIT else (x.it.k(x.pm) >= 0)
        dn = lambda x, own=own: (x.it.k(x.pm) > 0) if own == RIT else (x.it.k(x.pm) < x.st.T(x.pm) - 1)
        A = dict(on=on)
        for np_ in (0, 1):
            def stepped(I, x, d, np_=np_, own=own):
                r = locked_it_post(x, d)
                if np_ == 1:
                    o = Itr(I, x.ret, own, x.st); r += [('fun', 'post-increment returns the old position', z3.And(o.k(x.mem) == x.it.k(x.old), o.valid(x.mem)))]
                else: r += [('fun', 'returns the iterator itself', z3.BoolVal(x.ret is not None and x.ret.same(x.this)))]
                return r
            add('C03 C04 C02' if np_ == 0 else 'C04', '%s ++/%d' % (on, np_), own + '::operator++', np_, usable=np_ == 0, mods='it', ret='this' if np_ == 0 else on, pre=lambda I, x, up=up: [('well formed, not at the end', z3.And(x.it.valid(x.pm), up(x)))], post=lambda I, x, d=d, f=stepped: f(I, x, d), locked=None, **A)
            add('C04', '%s --/%d' % (on, np_), own + '::operator--', np_, usable=np_ == 0, mods='it', ret='this' if np_ == 0 else on, pre=lambda I, x, dn=dn: [('well formed, not at the beginning', z3.And(x.it.valid(x.pm), dn(x)))], post=lambda I, x, d=d, f=stepped: f(I, x, -d), locked=None, **A)
        rng_up = lambda x, own=own: (x.it.k(x.pm) + x.args[0] <= x.st.T(x.pm)) if own == RIT else (x.it.k(x.pm) - x.args[0] >= -1)
        rng_dn = lambda x, own=own: (x.it.k(x.pm) - x.args[0] >= 0) if own == RIT else (x.it.k(x.pm) + x.args[0] <= x.st.T(x.pm) - 1)
        add('C04', on + ' +=', own + '::operator+=', 1, mods='it', pre=lambda I, x, r=rng_up: [('within the stack', z3.And(x.it.valid(x.pm), r(x)))],
            post=lambda I, x, d=d: [('fun', 'moves by that many steps', x.it.k(x.mem) == x.it.k(x.old) + d * x.args[0]), ('fun', 'iterator stays well formed', x.it.valid(x.mem)), ('fun', 'returns the iterator itself', z3.BoolVal(x.ret is not None and x.ret.same(x.this)))], locked=None, **A)
        add('C04', on + ' -=', own + '::operator-=', 1, mods='it', pre=lambda I, x, r=rng_dn: [('within the stack', z3.And(x.it.valid(x.pm), r(x)))],
            post=lambda I, x, d=d: [('fun', 'moves back by that many steps', x.it.k(x.mem) == x.it.k(x.old) - d * x.args[0]), ('fun', 'iterator stays well formed', x.it.valid(x.mem)), ('fun', 'returns the iterator itself', z3.BoolVal(x.ret is not None and x.ret.same(x.this)))], locked=None, **A)
        for nm in ('operator==', 'operator!='):
            add('C04', on + ' ' + nm, own + '::' + nm, 1, iargs=((0, on),), pre=lambda I, x: [('both well formed', z3.And(x.it.valid(x.pm), x.its[0].valid(x.pm)))],
                post=lambda I, x, nm=nm: [('fun', 'compares positions', x.ret == ((x.it.k(x.old) == x.its[0].k(x.old)) if nm == 'operator==' else (x.it.k(x.old) != x.its[0].k(x.old))))], locked=None, **A)
        for nm in ('operator*', 'operator->'):
            def designates(I, x, nm=nm):
                l = x.ret.loc if isinstance(x.ret, PyPtr) else x.ret
                ok = isinstance(l, Loc) and l.key == x.st.N + '.data' and len(l.idx) == 2
                return [('fun', 'designates the element at the position', z3.And(l.idx[0] == x.it.b(x.old), l.idx[1] == x.it.i(x.old)) if ok else FALSE)]
            add('C04', on + ' ' + nm, own + '::' + nm, 0, pre=lambda I, x, own=own: [('designates an element', z3.And(x.it.valid(x.pm), x.it.k(x.pm) < x.st.T(x.pm) if own == RIT else x.it.k(x.pm) >= 0))], post=designates, locked=None, **A)
        names = (('begin', lambda x: x.st.T(x.old) - 1), ('end', lambda x: I_(-1))) if own == IT else (('rbegin', lambda x: I_(0)), ('rend', lambda x: x.st.T(x.old)))
        for nm, pos in names:
            for pre in ('', 'c'):
                add('C04' + (' C03' if nm == 'begin' else ''), pre + nm, q + pre + nm, 0, post=lambda I, x, own=own, pos=pos: unchanged(x) + (lambda r: [('fun', 'position', z3.And(r.valid(x.mem), r.k(x.mem) == pos(x)))])(Itr(I, x.ret, own, x.st)), locked=None)
    # ---------------- C05
    add('C05', 'shrink_to_fit', q + 'shrink_to_fit', 0, mods='pages req', pre=lambda I, x: [('no synchronised iterator is alive', x.st.cnt(x.pm) == 0)], post=lambda I, x: shrunk(x) + [('addr', 'nothing is left to do', z3.Not(x.st.req(x.mem)))])
    add('C05', 'getStats', q + 'getStats', 4, post=lambda I, x: unchanged(x) + [('addr', 'number of pages', x.mem[x.args[0].key] == x.st.len(x.old)), ('addr', 'page size', x.mem[x.args[1].key] == x.st.P(x.old)),
        ('addr', 'ordinal of the top page', x.mem[x.args[2].key] == x.st.c(x.old) + 1), ('addr', 'fill of the top page', x.mem[x.args[3].key] == x.st.top(x.old))])
    # ---------------- C06
    def insync(x): 
        st, it, m = x.st, x.it, x.old; b = it.b(m); p = st.pos(m, b)
        return z3.Or(p < st.c(m), z3.And(b == st.cur(m), it.i(m) >= 0, it.i(m) < st.size(m, b)))
    def spre(I, x): 
        st, it, m = x.st, x.it, x.pm; b = it.b(m)
        return [('iterator into a listed page', z3.And(lst_in(m, st.L, b), it.c(m) == b, it.i(m) >= 0, it.i(m) < st.P(m), it.l(m) == st.node(m, I_(0))))]
    def resynced(x): return z3.And(x.it.b(x.mem) == x.st.cur(x.old), x.it.c(x.mem) == x.st.cur(x.old), x.it.k(x.mem) == x.st.T(x.old) - 1, x.it.l(x.mem) == x.it.l(x.old))
    def syncpost(I, x):
        return [('sync', 'reports whether the element was still there', x.ret == insync(x)), ('sync', 'an iterator in place is left alone', z3.Implies(insync(x), x.it.same(x.mem, x.old))),
                ('sync', 'a stale iterator moves to the top', z3.Implies(z3.Not(insync(x)), z3.And(x.st.T(x.old) > 0, resynced(x))))]
    def syncexc(I, x): return [('sync', 'thrown only when the stack is empty', z3.And(x.st.T(x.old) == 0)), ('sync', 'the iterator is as before', x.it.same(x.mem, x.old)), ('sync', 'the exception is std::runtime_error', z3.BoolVal(x.exc is None or x.exc.tname == 'std::runtime_error'))]
    add('C06', 'synchronize', SIT + '::synchronize', 0, on='sit', locked=True, usable=True, mods='it', ret='bool', raises=True, pre=spre, post=syncpost, exc=syncexc)
    add('C06', 'sync get', SIT + '::get', 1, on='sit', mods='it args', pre=spre, exc=syncexc,
        post=lambda I, x: [('sync', 'reads the element in place or the top', elem_is(x.st, x.old, z3.If(insync(x), x.it.k(x.old), x.st.T(x.old) - 1), dst(x, 0))), ('sync', 'stays, or moves to the top', z3.If(insync(x), x.it.same(x.mem, x.old), resynced(x)))])
    def fwd(x, d): return z3.And(fit_valid(x.st, x.mem, x.it.b(x.mem), x.it.c(x.mem), x.it.i(x.mem)), x.it.k(x.mem) == x.it.k(x.old) + d)
    for nm, d in (('operator++', -1), ('operator--', 1)):
        add('C06', 'sync ' + nm, SIT + '::' + nm, 0, on='sit', mods='it', pre=lambda I, x, d=d: spre(I, x) + ([('not at the top', x.it.k(x.pm) != x.st.T(x.pm) - 1)] if d == 1 else []), exc=syncexc,
            post=lambda I, x, d=d: [('sync', 'steps like an ordinary iterator, or moves to the top', z3.If(insync(x), fwd(x, d), resynced(x)))])
    for nm in ('operator==', 'operator!='):
        add('C06', 'sync ' + nm, SIT + '::' + nm, 1, on='sit', iargs=((0, 'sit'),), pre=lambda I, x: spre(I, x) + [('both in pages', z3.And(x.its[0].c(x.pm) == x.its[0].b(x.pm)))],
            post=lambda I, x, nm=nm: [('sync', 'compares positions', x.ret == (z3.And(x.it.b(x.old) == x.its[0].b(x.old), x.it.i(x.old) == x.its[0].i(x.old)) if nm == 'operator==' else z3.Or(x.it.b(x.old) != x.its[0].b(x.old), x.it.i(x.old) != x.its[0].i(x.old))))])
    def cnt(x, d): return [('sync', 'count of live synchronised iterators changes by %d' % d, x.st.cnt(x.mem) == x.st.cnt(x.old) + d)]
    def undisturbed(x): return [('sync', 'no page is released', z3.And(x.st.len(x.mem) == x.st.len(x.old), x.st.c(x.mem) == x.st.c(x.old), x.st.req(x.mem) == x.st.req(x.old)))]
    add('C06', 'addSyncIterator', q + 'addSyncIterator', 0, usable=True, mods='count', post=lambda I, x: cnt(x, 1) + undisturbed(x))
    def removed(x):
        st, o, m = x.st, x.old, x.mem
        last = z3.And(st.cnt(o) == 1, st.req(o))
        return cnt(x, -1) + [('sync', 'the deferred release happens exactly with the last iterator', z3.If(last, z3.And(st.len(m) == st.c(o) + 1, z3.Not(st.req(m))), z3.And(st.len(m) == st.len(o), st.req(m) == st.req(o)))),
            ('sync', 'content is unchanged', z3.And(st.T(o) == st.T(m), st.c(m) == st.c(o), kept(st, o, m, (st.c(o), st.top(o)))))]
    add('C06', 'removeSyncIterator', q + 'removeSyncIterator', 0, usable=True, mods='count req pages', pre=lambda I, x: [('a synchronised iterator is alive', x.st.cnt(x.pm) >= 1)], post=lambda I, x: removed(x))
    add('C06', 'shrink_to_fit', q + 'shrink_to_fit', 0, mods='pages req', post=lambda I, x: [('sync', 'released at once only when no synchronised iterator is alive', z3.If(x.st.cnt(x.old) > 0, z3.And(x.st.len(x.mem) == x.st.len(x.old), x.st.req(x.mem)), z3.And(x.st.len(x.mem) == x.st.c(x.old) + 1, z3.Not(x.st.req(x.mem))))), ('sync', 'content is unchanged', z3.And(x.st.T(x.old) == x.st.T(x.mem), x.st.c(x.mem) == x.st.c(x.old), kept(x.st, x.old, x.mem, (x.st.c(x.old), x.st.top(x.old)))))])
    for nm, pos in (('sync_begin', lambda x: x.st.T(x.old) - 1), ('sync_end', lambda x: I_(-1))):
        for pre in ('', 'c'):
            add('C06', pre + nm, q + pre + nm, 0, mods='count', post=lambda I, x, pos=pos: cnt(x, 1) + undisturbed(x) + (lambda r: [('sync', 'position', z3.And(fit_valid(x.st, x.mem, r.b(x.mem), r.c(x.mem), r.i(x.mem)), r.k(x.mem) == pos(x), r.l(x.mem) == x.st.node(x.mem, I_(0))))])(Itr(I, x.ret, SIT, x.st)))
    isctor = lambda tu, f: bool(f.get('copyctor'))
    add('C06', 'sync copy constructor', SIT + '::sync_iterator_base', 1, on='sit', iargs=((0, 'sit'),), sel=isctor, mods='it count', post=lambda I, x: cnt(x, 1) + undisturbed(x) + [('sync', 'same position', z3.And(x.it.b(x.mem) == x.its[0].b(x.old), x.it.c(x.mem) == x.its[0].c(x.old), x.it.i(x.mem) == x.its[0].i(x.old), x.it.l(x.mem) == x.its[0].l(x.old)))])
    add('C06', 'sync assignment', SIT + '::operator=', 1, on='sit', iargs=((0, 'sit'),), mods='it count req pages', pre=lambda I, x: [('both are counted', x.st.cnt(x.pm) >= 2)], post=lambda I, x: cnt(x, 0) + undisturbed(x) + [('sync', 'same position', z3.And(x.it.b(x.mem) == x.its[0].b(x.old), x.it.c(x.mem) == x.its[0].c(x.old), x.it.i(x.mem) == x.its[0].i(x.old), x.it.l(x.mem) == x.its[0].l(x.old)))])
    add('C06', 'sync destructor', SIT + '::~sync_iterator_base', 0, on='sit', mods='count req pages', pre=lambda I, x: [('a synchronised iterator is alive', x.st.cnt(x.pm) >= 1)], post=lambda I, x: removed(x))
    for c in {c.name: c for p in ('C01', 'C02') for c in out[p] if c.on == 'stack' and set(c.mods) & {'content', 'pages'} and not c.raw}.values():
        k = PKeep.__new__(PKeep); k.__dict__.update(c.__dict__); k.usable = c.name.startswith('internal_push'); k.name = c.name + ' and the synchronised iterators'; out['C06'].append(k)
    # ---------------- C08
    MUT = [c for p in ('C01', 'C02') for c in out[p] if set(c.mods) & {'content', 'pages'}] + [c for c in out['C06'] if c.name in ('shrink_to_fit',)] + [c for c in out['C05'] if c.name in ('internal_shrink_to_fit',)] + [c for c in out['C03'] if c.name in ('internal_from_top', 'size', 'empty')] + [c for c in out['C04'] if c.name in ('rit ++/0',)]
    out['C08'] = list({id(c): c for c in MUT}.values())
    for p in 'C01 C02 C03 C04 C05 C06 C08'.split(): out[p].append(PNew())
    out['C08'] += [PCopy('copy constructor'), PCopy('copy assignment'), PCopy('self assignment')]
    names = set(); allc = []
    for p in ('C06', 'C01', 'C02', 'C03', 'C05'):
        for c in out[p]:
            if c.on in ('stack', 'sit') and c.name not in names and not c.name.startswith(('begin', 'cbegin')): names.add(c.name); allc.append(c)
    out['C07'] = allc
    return out

class PKeep(PC):
    "what a change of the content means for the synchronised iterators that are alive"
    def post(s, I, x):
        st, o, m = x.st, x.old, x.mem; i = z3.Int('pi'); n = z3.Select(lst(m, st.L, '.node'), i); n0 = z3.Select(lst(o, st.L, '.node'), i); ln = z3.Select(ga(m, st.N + '.cap', IntS, 1), n)
        return [(n, f) for t, n, f in inv_posts(x)] + [('no page goes while a synchronised iterator is alive', z3.Implies(st.cnt(o) > 0, z3.And(st.len(m) >= st.len(o), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.len(o)), n == n0), patterns=[n, n0])))),
                ('synchronised iterators stay counted, a release stays deferred', z3.And(st.cnt(m) == st.cnt(o), st.req(m) == st.req(o)))]
    def post_exc(s, I, x): return s.post(I, x)
class PCopy(PC):
    def __init__(s, name):
        PC.__init__(s, name, None, usable=name == 'copy constructor', locked=False)
    def match(s, tu, fn):
        if fn.get('body') is None or strip_targs(fn['qn']) not in (PS + '::PagedStack', PS + '::operator='): return False
        return bool(fn.get('copyctor')) if 'constructor' in s.name else bool(fn.get('copyassign'))
    def setup(s, I, x):
        x.setup = True
        if s.name == 'self assignment':
            x.st = setup_stack(I, x); x.other = x.st; x.this = Loc('this', (), x.fn['cls']); x.args = [x.this]; return
        x.other = setup_stack(I, x, 'S')
        x.this = Loc('this', (), x.fn['cls']); x.st = view(I, 'this'); x.args = [Loc('S', (), x.fn['cls'])]
        if 'assignment' in s.name:
            m = I.st.mem; st = x.st
            I.fact(z3.Not(g(m, st.k('m_mutex.held'), BoolS)))
            for f in (lst_wf(m, st.L), lst_in(m, st.L, st.cur(m)), st.len(m) < BIG, st.cnt(m) >= 0, z3.Implies(st.req(m), st.cnt(m) > 0)): I.fact(f)
            I.fact(sel(m['ghost.nalive'], st.cur(m)))
            i = z3.Int('pi'); n = z3.Select(lst(m, st.L, '.node'), i)
            I.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.len(m)), z3.Not(in_list(x.other, m, n))), patterns=[n]))
    def pre(s, I, x): return []
    def frame(s, I, x): return ['this.*', x.st.N + '*', 'ghost.*', '$*', 'S.falcon::PagedStack::m_mutex.held']
    def post(s, I, x):
        st, B, o, m = x.st, x.other, x.old, x.mem
        na = o['ghost.nalive']; i = z3.Int('pi'); j = z3.Int('pj'); n = z3.Select(lst(m, st.L, '.node'), i)
        out = inv_posts(x) + [('inv', 'invariant of the original: ' + l, f) for l, f in B.inv(m)]
        out += [('fun', 'page size and preallocation are copied', z3.And(st.P(m) == B.P(o), st.A(m) == B.A(o))),
                ('fun', 'same number of elements', z3.And(st.c(m) == B.c(o), st.top(m) == B.top(o))),
                ('fun', 'same elements in the same order', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, j < B.P(o), z3.Or(i < B.c(o), z3.And(i == B.c(o), j < B.top(o)))), st.at(m, i, j) == B.at(o, i, j)))),
                ('fun', 'the original is unchanged', z3.And(B.P(m) == B.P(o), B.A(m) == B.A(o), B.c(m) == B.c(o), B.len(m) == B.len(o), B.T(m) == B.T(o), kept(B, o, m, (B.c(o), B.top(o))))),]
        if st is not B: out += [('frame', 'the copy has pages of its own', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.len(m)), z3.Not(z3.Select(na, n))), patterns=[n])),
                ('frame', 'page iterator of the copy refers to its own pages', z3.BoolVal(own_lid(I, st, m)))]
        for k in (st.k('m_mutex.held'), B.k('m_mutex.held')):
            if k in m: out.append(('all', 'lock released at exit', z3.Not(m[k])))
        if 'constructor' in s.name: out.append(('fun', 'no synchronised iterator refers to the copy', z3.And(st.cnt(m) == 0, z3.Not(st.req(m)))))
        return s.filt(I, out)
    def apply(s, I, fn, this, args, ret, node):
        x = Ctx(); x.fn = fn; x.this = this; x.args = args; x.setup = False; x.exc = None; x.node = node
        x.other = view(I, args[0].key); x.st = st = view(I, this.key); B = x.other
        h = I.rdraw(B.k('m_mutex.held'), (), BoolS); I.ob('mutex acquired without holding it already', z3.Not(h), node); I.fact(z3.Not(h))
        x.old = dict(I.st.mem)
        A = z3.ArraySort(IntS, IntS)
        for k, so, n in ((st.L.key + '.node', A, 0), (st.L.key + '.pos', A, 0), (st.L.key + '.len', IntS, 0), (st.L.key + '.end', IntS, 0), (st.N + '.cap', IntS, 1), (st.N + '.gen', IntS, 1), (st.N + '.len', IntS, 1), (st.N + '.data', ElemS, 2), ('ghost.nalive', z3.ArraySort(IntS, BoolS), 0),
                      (st.k('m_curBase.n'), IntS, 0), (st.k('m_syncIterCount'), IntS, 0), (st.k('m_shrinkRequest'), BoolS, 0), (st.k('m_pageSize'), IntS, 0), (st.k('m_allocSize'), IntS, 0)):
            x.old.setdefault(k, z3.Const(k + '!0', lift(so, n))); I.st.wlog.add(k); I.st.mem[k] = I.fresh(k + '~', lift(so, n))
        I.st.mem[st.k('m_mutex.held')] = FALSE
        I.st.mem[st.k('m_curBase.lid')] = st.lid
        x.mem = I.st.mem
        for n, f in s.post(I, x): I.fact(f)
class PNew(PC):
    "construction: the invariant every other contract starts from"
    def __init__(s): PC.__init__(s, 'constructor', None, locked=False)
    def match(s, tu, fn): return fn.get('body') is not None and bool(fn.get('ctor')) and strip_targs(fn['qn']) == PS + '::PagedStack' and not fn.get('copyctor') and not fn.get('movector')
    def setup(s, I, x):
        x.setup = True; I.tu.opaque['vf::Elem'] = ElemS; x.this = Loc('this', (), x.fn['cls']); x.st = view(I, 'this'); I.gh('nalive', z3.ArraySort(IntS, BoolS)); setup_args(I, x)
        x.n = [a for a in x.args if z3.is_expr(a) and a.sort() == IntS]
        for v in x.n: I.fact(z3.And(v >= 1, v < BIG))
    def pre(s, I, x): return []
    def frame(s, I, x): return ['this.*', x.st.N + '*', 'ghost.*', '$*']
    def post(s, I, x):
        st, o, m = x.st, x.old, x.mem; i = z3.Int('pi'); n = z3.Select(lst(m, st.L, '.node'), i)
        out = inv_posts(x) + [('inv', 'a new stack is empty', z3.And(st.c(m) == 0, st.top(m) == 0)), ('inv', 'no synchronised iterator refers to a new stack', z3.And(st.cnt(m) == 0, z3.Not(st.req(m)))),
                ('inv', 'page iterator of a new stack refers to its own pages', z3.BoolVal(own_lid(I, st, m)))]
        if len(x.n) == 2: out += [('inv', 'page size and preallocation are those asked for', z3.And(st.P(m) == x.n[0], st.A(m) == x.n[1])), ('inv', 'a new stack has the pages asked for', st.len(m) == x.n[1])]
        return s.filt(I, out + [('frame', 'a new stack has pages of its own', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.len(m)), z3.Not(z3.Select(o['ghost.nalive'], n))), patterns=[n]))])
    def post_exc(s, I, x): return [('no exception escapes', FALSE)]
def own_lid(I, st, m):
    lid = m.get(st.k('m_curBase.lid')); L = I.st.lists.get(lid)
    return L is not None and L.key == st.L.key

def plan(tu, prop):
    "(spec, [contracts to verify])"
    cs = contracts(tu).get(prop, [])
    # C07: growBase runs under the lock of its caller (or in a constructor): it is checked inside its callers
    if prop == 'C07': cs = [c for c in cs if c.name != 'growBase']
    spec = PSpec(tu, prop, [c for c in cs if c.usable])
    return spec, cs
_plan = plan
def plan(tu, prop):
    tu.opaque['vf::Elem'] = ElemS
    return _plan(tu, prop)
