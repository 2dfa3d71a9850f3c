"""Contracts of Futex, RFutex, the atomic helpers and Singleton.

Rely/guarantee: before every atomic operation of the verified thread all other threads may have
taken any number of steps that their own contracts allow (rely); every step of the verified
thread is checked against the same rules (guarantee).  Ghost state:
  holder  0 free, 1 held by the verified thread, 2 held by another thread."""
from core import *
from interp import *
from contract import *
import loops, stdmodel
FX, RF = 'falcon::Futex', 'falcon::RFutex'
ACQ, REL = ('acquire', 'acq_rel', 'seq_cst'), ('release', 'acq_rel', 'seq_cst')

class Base:
    prove_ms = 6000
    def __init__(s, tu, prop): s.tu = tu; s.prop = prop; s.contracts = []; s.handlers = {}
    def waiting_loop(s, I, node): return True
    def loop_measures(s, I, entry, mods): return []
    def loop_cands(s, I, entry, mods, node):
        out = []
        for k in mods:
            if k.startswith('ghost.') and mods[k].sort() == IntS:
                for n in (0, 1, 2):
                    out.append(('%s==%d' % (k, n), lambda m, k=k, n=n: m[k] == n)); out.append(('%s!=%d' % (k, n), lambda m, k=k, n=n: m[k] != n))
        for a in mods:
            for b in mods:
                if a != b and z3.is_expr(mods[a]) and z3.is_expr(mods[b]) and mods[a].sort() == BoolS and mods[b].sort() == IntS and b == 'ghost.holder':
                    out.append(('%s iff held' % a, lambda m, a=a, b=b: m[a] == (m[b] != 0)))
        return out
    def fence(s, I, o):
        if o in ACQ and s.prop != 'C13': I.setgh('acq', z3.If(I.gh('holder') == 1, TRUE, I.gh('acq', BoolS)))
        if o in REL: I.setgh('relf', TRUE)
    def yielded(s, I, node): pass

# ------------------------------------------------------------------ Futex
class FutexSpec(Base):
    def __init__(s, tu, prop): Base.__init__(s, tu, prop); s.N = None
    def nttp(s, I, e): return s.N
    def shared(s, loc): return loc.key.startswith('this.')
    def begin(s, I, x): pass
    def atomic_env(s, I, loc, so):
        if not s.shared(loc): return
        if s.leaf(I) != loc.key or so != BoolS: raise Unsupported("shared state other than one owned flag: " + loc.key)
        h = I.gh('holder')
        if I.choose(h == 1): return
        v = I.fresh('env', BoolS); I.wrraw(loc.key, (), BoolS, v); I.setgh('holder', z3.If(v, I_(2), I_(0)))
    def leaf(s, I): return I.st.px['leaf']
    def atomic_done(s, I, loc, old, new, order, kind, node):
        if not s.shared(loc): return
        h = I.gh('holder')
        I.setgh('seenT', z3.Or(I.gh('seenT', BoolS), old)); I.setgh('seenF', z3.Or(I.gh('seenF', BoolS), z3.Not(old)))
        if kind in ('rmw', 'cas') and s.prop == 'C11':
            n = s.N
            I.ob('no attempt is made while a yield is due', z3.Or(n == 0, I.gh('fails') < n), node)
            I.ob('a futex with spin count zero counts nothing', TRUE, node)
        if new is None:
            if kind == 'cas': s.failed(I)
            return
        new = simp(new)
        if I.choose(new == old):
            if kind in ('rmw', 'cas'): s.failed(I)
            return
        if I.choose(new):       # free -> owned
            I.setgh('holder', I_(1)); I.setgh('acq', z3.BoolVal(order in ACQ)); I.setgh('nacq', I.gh('nacq') + 1)
        else:                   # owned -> free
            I.ob('only the holder frees the futex', h == 1, node)
            I.ob('freeing publishes the writes of the holder (release)', z3.Or(z3.BoolVal(order in REL), I.gh('relf', BoolS)), node)
            I.setgh('holder', I_(0)); I.setgh('nrel', I.gh('nrel') + 1)
    def failed(s, I): I.setgh('fails', I.gh('fails') + 1)
    def yielded(s, I, node):
        if s.prop != 'C11': return
        I.ob('yields only after spin-count failed attempts', z3.And(s.N > 0, I.gh('fails') == s.N), node)
        I.setgh('fails', I_(0)); I.setgh('nyield', I.gh('nyield') + 1)
    def pre_store(s, I, loc, v, t):
        if s.shared(loc): I.ob('the futex state is changed by atomic operations only', FALSE)
    def pre_load(s, I, loc, t):
        if s.shared(loc): I.ob('the futex state is read by atomic operations only', FALSE)
    def ob_filter(s, I, name):
        y = 'yield' in name or 'spin' in name or 'attempt' in name
        return y if s.prop == 'C11' else not y
    def loop_cands(s, I, entry, mods, node):
        out = Base.loop_cands(s, I, entry, mods, node)
        if 'ghost.fails' in mods:
            out.append(('fewer than N failures', lambda m: m['ghost.fails'] < s.N))
            for k in mods:
                if k.startswith('$') and loops.is_int(mods[k]):
                    out.append(('%s+fails==N' % k, lambda m, k=k: m[k] + m['ghost.fails'] == s.N))
                    out.append(('%s==fails' % k, lambda m, k=k: m[k] == m['ghost.fails']))
                    out.append(('%s+fails==N-1' % k, lambda m, k=k: m[k] + m['ghost.fails'] == s.N - 1))
                    out.append(('%s==fails+1' % k, lambda m, k=k: m[k] == m['ghost.fails'] + 1))
                    out.append(('%s in 1..N' % k, lambda m, k=k: z3.And(m[k] >= 1, m[k] <= s.N)))
        return out

class FC(Contract):
    def __init__(s, name, fname, N): s.name = '%s<%s>' % (name, N); s.fname = fname; s.N = N
    def match(s, tu, fn):
        if fn.get('body') is None or strip_targs(fn['qn']) != s.fname: return False
        T = tu.T(fn['cls'])
        n = int(T['args'][0]['int']) if isinstance(T['args'][0], dict) else None
        return n == (77 if s.N == 'n' else s.N)
    def setup(s, I, x):
        sp = I.spec
        n = z3.Const('spinCount', IntS) if s.N == 'n' else I_(s.N)
        if s.N == 'n': I.fact(z3.And(n >= 2, n < (1 << 32)))
        sp.N = n
        x.this = Loc('this', (), x.fn['cls']); x.args = []
        ls = [k for k, so in leaves(I.tu, x.fn['cls'])]
        if len(ls) != 1: raise Unsupported("futex with more than one state member")
        I.st.px['leaf'] = 'this' + ls[0]; v = I.rdraw('this' + ls[0], (), BoolS)
        for g, z in (('fails', 0), ('nyield', 0), ('nacq', 0), ('nrel', 0)): I.setgh(g, I_(z))
        for g in ('acq', 'relf', 'seenT', 'seenF'): I.setgh(g, FALSE)
        h = I.gh('holder'); I.fact(z3.And(h >= 0, h <= 2, v == (h != 0)))
        if s.name.startswith('lock'): I.fact(h != 1)
        if s.name.startswith('unlock'): I.fact(h == 1)
    def post(s, I, x):
        h = I.gh('holder')
        if s.name.startswith('lock'):
            if I.spec.prop == 'C11': return []
            return [('lock() returns with the futex held by the caller', h == 1), ('the caller turned the futex from free to owned exactly once', I.gh('nacq') - I.gh('nrel') == 1), ('acquisition synchronises with the previous unlock (acquire)', I.gh('acq', BoolS))]
        if I.spec.prop == 'C11': return [('no yield outside of lock()', I.gh('nyield') == 0)]
        if s.name.startswith('unlock'): return [('unlock() makes the futex free once', z3.And(h != 1, I.gh('nrel') == 1, I.gh('nacq') == 0))]
        r = x.ret
        return [('isLocked() reports a state of the call', z3.And(z3.Implies(r, I.gh('seenT', BoolS)), z3.Implies(z3.Not(r), I.gh('seenF', BoolS)))),
                ('isLocked() changes nothing', z3.And(I.gh('nacq') == 0, I.gh('nrel') == 0))]

class FInit(Contract):
    name = 'a new futex is free'
    def match(s, tu, fn): return fn.get('ctor') and fn.get('body') is not None and strip_targs(fn['qn']) == FX + '::Futex' and not fn['params']
    def setup(s, I, x):
        x.this = Loc('obj', (), x.fn['cls']); x.args = []
    def post(s, I, x):
        ls = leaves(I.tu, x.fn['cls'])
        if len(ls) != 1: raise Unsupported("futex with more than one state member")
        return [('a new futex is free', z3.Not(I.rdraw('obj' + ls[0][0], (), BoolS)))]
    def post_exc(s, I, x): return [('no exception escapes', FALSE)]
    def pre(s, I, x): return []
    def frame(s, I, x): return None
    def invoke(s, I, x): return default_invoke(I, x)
for _c in (FC,):
    _c.pre = FInit.pre; _c.post_exc = FInit.post_exc; _c.frame = FInit.frame; _c.invoke = FInit.invoke

# ------------------------------------------------------------------ RFutex
class RSpec(Base):
    OWN, CNT, GC, TID = 'this.falcon::RFutex::m_owner', 'this.falcon::RFutex::m_count', 'G.falcon::RFutex::s_count', 'G.falcon::RFutex::s_thread_id'
    def inv(s, I):
        h = I.gh('holder'); o = I.rdraw(s.OWN, (), IntS); t = I.rdraw(s.TID, (), IntS); g = I.rdraw(s.GC, (), IntS); c = I.rdraw(s.CNT, (), IntS)
        I.fact(z3.And(h >= 0, h <= 2, o >= 0, o <= g, g >= 0, g < (1 << 32) - 1, t >= 0, t <= g, (o == 0) == (h == 0), z3.Implies(h == 1, z3.And(t != 0, o == t, c >= 1)), z3.Implies(h == 2, o != t), z3.Implies(h == 0, c == 0), c >= 0, c < (1 << 32)))
    def atomic_env(s, I, loc, so):
        if loc.key == s.GC:
            v = I.rdraw(s.GC, (), IntS); n = I.fresh('tickets', IntS); I.fact(z3.And(n >= v, n < (1 << 32) - 1)); I.wrraw(s.GC, (), IntS, n); return
        if loc.key != s.OWN:
            if loc.key.startswith('this.') or loc.key.startswith('G.'): raise Unsupported("shared state " + loc.key)
            return
        h = I.gh('holder')
        if I.choose(h == 1): return
        I.wrraw(s.OWN, (), IntS, I.fresh('owner', IntS)); I.wrraw(s.CNT, (), IntS, I.fresh('count', IntS)); I.setgh('holder', I.fresh('holder', IntS))
        n = I.fresh('tickets', IntS); v = I.rdraw(s.GC, (), IntS); I.fact(n >= v); I.wrraw(s.GC, (), IntS, n)
        I.fact(I.gh('holder') != 1); s.inv(I)
    def atomic_done(s, I, loc, old, new, order, kind, node):
        if loc.key == s.GC:
            if new is not None:
                I.ob('identities are drawn by one atomic increment', z3.And(z3.BoolVal(kind in ('rmw', 'cas')), new > old), node)
                I.setgh('tlo', old); I.setgh('thi', new)
            return
        if loc.key != s.OWN: return
        h = I.gh('holder'); t = I.rdraw(s.TID, (), IntS)
        I.setgh('seen0', z3.Or(I.gh('seen0', BoolS), h == 0)); I.setgh('seen1', z3.Or(I.gh('seen1', BoolS), h == 1)); I.setgh('seen2', z3.Or(I.gh('seen2', BoolS), h == 2))
        if kind == 'cas' and new is None and I.st.px.get('spurious'): I.setgh('spur', TRUE)
        if kind == 'cas' and new is None: I.setgh('acq', z3.If(h == 1, TRUE, I.gh('acq', BoolS)))
        if new is None:
            I.setgh('acq', z3.Or(I.gh('acq', BoolS), h == 1)); return
        if I.choose(new == old): return
        if I.choose(new == 0):
            I.ob('only the holder frees the futex', h == 1, node)
            I.ob('freed exactly when the nesting depth is back to zero', I.rdraw(s.CNT, (), IntS) == 0, node)
            I.ob('freeing publishes the writes of the holder (release)', z3.Or(z3.BoolVal(order in REL), I.gh('relf', BoolS)), node)
            I.setgh('holder', I_(0)); I.setgh('nrel', I.gh('nrel') + 1)
        else:
            I.ob('ownership is taken only from a free futex', z3.And(h == 0, old == 0), node)
            I.ob('ownership is taken under the identity of the calling thread', z3.And(new == t, t != 0), node)
            I.setgh('holder', I_(1)); I.setgh('acq', z3.BoolVal(order in ACQ)); I.setgh('nacq', I.gh('nacq') + 1)
    def access(s, I, loc, w, v=None):
        if loc.key == s.CNT: I.ob('the nesting depth is touched by the holder only', I.gh('holder') == 1)
        elif loc.key == s.TID:
            if w:
                I.ob('an identity once given to a thread is kept', I.rdraw(s.TID, (), IntS) == 0)
                I.ob('the identity comes from an own increment and is not zero', z3.And(v > I.gh('tlo'), v <= I.gh('thi'), v >= 1))
        elif loc.key.startswith('this.') or loc.key.startswith('G.'): I.ob('shared state is accessed by atomic operations only', FALSE)
    def pre_store(s, I, loc, v, t): s.access(I, loc, True, v)
    def pre_load(s, I, loc, t): s.access(I, loc, False)
    def loop_cands(s, I, entry, mods, node):
        out = Base.loop_cands(s, I, entry, mods, node); h = 'ghost.holder'
        M = lambda m, k: m.get(k) if m.get(k) is not None else entry.mem[k]
        if h in mods:
            out.append(('inv', lambda m: z3.And(M(m, s.OWN) >= 0, (M(m, s.OWN) == 0) == (m[h] == 0), M(m, s.OWN) <= M(m, s.GC), M(m, s.GC) < (1 << 32) - 1, M(m, s.CNT) >= 0, M(m, s.CNT) < (1 << 32), z3.Implies(m[h] == 0, M(m, s.CNT) == 0), z3.Implies(m[h] == 2, M(m, s.OWN) != M(m, s.TID)))))
            out.append(('ids', lambda m: z3.And(M(m, s.GC) >= M(entry.mem, s.GC))))
            out.append(('what the caller holds stays', lambda m: z3.Implies(m[h] == 1, z3.And(M(m, s.CNT) == M(entry.mem, s.CNT), M(m, s.OWN) == M(m, s.TID), M(m, s.TID) != 0))))
            out.append(('holder stays', lambda m: (m[h] == 1) == (entry.mem[h] == 1)))
        return out
    def at_back_edge(s, I, node):
        I.ob('waits only while another thread holds the futex', z3.Or(I.gh('seen2', BoolS), I.gh('spur', BoolS)), node)
class RC(Contract):
    def __init__(s, name): s.name = 'RFutex::' + name; s.f = name
    def match(s, tu, fn): return fn.get('body') is not None and fn['qn'] == RF + '::' + s.f
    def setup(s, I, x):
        sp = I.spec; x.this = Loc('this', (), x.fn['cls']); x.args = []
        names = {k for k, _ in leaves(I.tu, x.fn['cls'])}
        if names != {'.falcon::RFutex::m_owner', '.falcon::RFutex::m_count'}: raise Unsupported("unexpected members of RFutex")
        for g in ('nacq', 'nrel', 'tlo', 'thi'): I.setgh(g, I_(0))
        for g in ('acq', 'relf', 'seen0', 'seen1', 'seen2', 'spur'): I.setgh(g, FALSE)
        sp.inv(I)
        h = I.gh('holder'); c = I.rdraw(sp.CNT, (), IntS)
        if s.f == 'lock': I.fact(c < (1 << 32) - 1)
        if s.f == 'unlock': I.fact(h == 1)
        if s.f != 'lock' or True:
            for v in I.tu.vars.values():
                if v.get('qn') == 'falcon::RFutex::s_thread_id': I.ob('the thread identity is stored per thread', z3.BoolVal(bool(v.get('tls'))), v.get('loc', ''))
        x.h0 = h; x.c0 = c
    def pre(s, I, x): return []
    def frame(s, I, x): return None
    def invoke(s, I, x): return default_invoke(I, x)
    def post_exc(s, I, x): return [('no exception escapes', FALSE)]
    def post(s, I, x):
        sp = I.spec; h = I.gh('holder'); c = I.rdraw(sp.CNT, (), IntS); o = I.rdraw(sp.OWN, (), IntS); t = I.rdraw(sp.TID, (), IntS)
        if s.f == 'lock':
            return [('lock() returns with the futex held by the caller', z3.And(h == 1, o == t, t != 0)),
                    ('nesting depth counts the lock calls', z3.If(x.h0 == 1, c == x.c0 + 1, c == 1)),
                    ('acquisition synchronises with the previous unlock (acquire)', z3.Or(x.h0 == 1, I.gh('acq', BoolS)))]
        if s.f == 'unlock':
            return [('the futex becomes free exactly at the last unlock()', z3.If(x.c0 == 1, z3.And(h != 1, I.gh('nrel') == 1), z3.And(h == 1, I.gh('nrel') == 0, c == x.c0 - 1))), ('unlock() takes nothing', I.gh('nacq') == 0)]
        r = x.ret
        none = ('the query changes nothing', z3.And(I.gh('nacq') == 0, I.gh('nrel') == 0, z3.Implies(x.h0 == 1, c == x.c0)))
        if s.f == 'isLocked':
            return [('isLocked() reports whether a thread held the futex during the call', z3.And(z3.Implies(r, z3.Or(I.gh('seen1', BoolS), I.gh('seen2', BoolS))), z3.Implies(z3.Not(r), I.gh('seen0', BoolS)))), none]
        return [('isOwner() is true exactly for the holder', r == (h == 1)), none]
class RInit(FInit):
    name = 'a new recursive futex is free'
    def match(s, tu, fn): return fn.get('ctor') and fn.get('body') is not None and fn['qn'] == RF + '::RFutex' and not fn['params']
    def setup(s, I, x):
        x.this = Loc('obj', (), x.fn['cls']); x.args = []
        for v in I.tu.vars.values():
            if v.get('qn') in ('falcon::RFutex::s_count', 'falcon::RFutex::s_thread_id'):
                l = Loc('init.' + v['qn'], (), v['t']); I.frames = [Frame(x.fn, x.this, {})]
                if v.get('init') is not None: I.init_obj(l, v['t'], v['init'])
                else: I.wrraw(l.key, (), IntS, I_(0))
                I.frames = []
                I.ob('static initial value is zero: ' + v['n'], I.rdraw(l.key, (), IntS) == 0, v.get('loc', ''))
    def post(s, I, x):
        return [('a new recursive futex is free', z3.And(I.rdraw('obj.falcon::RFutex::m_owner', (), IntS) == 0, I.rdraw('obj.falcon::RFutex::m_count', (), IntS) == 0))]

# ------------------------------------------------------------------ atomic helpers
class ASpec(Base):
    TG = 'target'; wraps = True
    def atomic_env(s, I, loc, so):
        if loc.key != s.TG: return
        v = I.fresh('cur', IntS); I.fact(z3.And(v >= -(1 << 31), v < (1 << 31))); I.wrraw(s.TG, (), IntS, v)
    def atomic_done(s, I, loc, old, new, order, kind, node):
        if loc.key != s.TG: return
        I.setgh('nread', I.gh('nread') + 1); I.setgh('lastold', old)
        if new is not None:
            I.ob('the target is updated only once', I.gh('nw') == 0, node)
            I.setgh('nw', I.gh('nw') + 1); I.setgh('wold', old); I.setgh('wnew', new); I.setgh('rmw', z3.BoolVal(kind != 'store'))
    def pre_load(s, I, loc, t):
        if loc.key == s.TG:
            s.atomic_env(I, loc, IntS); I.setgh('nread', I.gh('nread') + 1); I.setgh('lastold', I.rdraw(s.TG, (), IntS))
    def pre_store(s, I, loc, v, t):
        if loc.key == s.TG:
            s.atomic_env(I, loc, IntS); s.atomic_done(I, loc, I.rdraw(s.TG, (), IntS), v, 'relaxed', 'store', None)
    def fence(s, I, o): pass
    def loop_cands(s, I, entry, mods, node): return Base.loop_cands(s, I, entry, mods, node) + ([('nothing written yet', lambda m: m['ghost.nw'] == 0)] if 'ghost.nw' in mods else [])
class AC(Contract):
    def __init__(s, n, np): s.name = n; s.np = np
    def match(s, tu, fn): return fn.get('body') is not None and fn['qn'] == 'falcon::' + s.name and len(fn['params']) == s.np
    def setup(s, I, x):
        x.this = None; x.args = []
        for i, p in enumerate(x.fn['params']):
            T = I.tu.T(p['t'])
            if i == 0:
                if T['k'] != 'ref': raise Unsupported("target is not taken by reference")
                l = Loc('target', (), T['to']); x.args.append(l)
            else:
                v = z3.Const('arg%d' % i, IntS); I.rng(v, p['t']); x.args.append(v)
        v = I.rdraw('target', (), IntS); I.fact(z3.And(v >= -(1 << 31), v < (1 << 31)))
        for g in ('nread', 'nw', 'wold', 'wnew', 'lastold'): I.setgh(g, I_(0))
        I.setgh('rmw', FALSE)
    pre = FInit.pre; frame = FInit.frame; invoke = FInit.invoke; post_exc = FInit.post_exc
    def post(s, I, x):
        nw, wo, wn, lo = I.gh('nw'), I.gh('wold'), I.gh('wnew'), I.gh('lastold'); r = x.ret; t = I.tu.deref(x.fn['params'][0]['t'])
        a = x.args[1] if len(x.args) > 1 else None; n = s.name[6:]
        one = ('exactly one indivisible update', z3.And(nw == 1, I.gh('rmw', BoolS)))
        W = lambda v: stdmodel.wrapto(I, v, t)
        if n in ('Inc', 'Dec', 'Add'):
            d = {'Inc': I_(1), 'Dec': I_(-1)}.get(n, a)
            return [one, ('stores the wrapped sum', wn == W(wo + d)), ('returns the new value', r == W(wo + d))]
        if n == 'Fetch': return [('changes nothing', nw == 0), ('returns the current value', z3.And(I.gh('nread') >= 1, r == lo))]
        if n == 'Set': return [('exactly one indivisible write', nw == 1), ('stores the value', wn == a)]
        if n == 'Exchange': return [one, ('stores the value', wn == a), ('returns the value replaced', r == wo)]
        if n == 'CAS':
            return [('stores and returns true exactly when the old value matched', z3.If(r, z3.And(nw == 1, I.gh('rmw', BoolS), wo == a, wn == x.args[2]), z3.And(nw == 0, I.gh('nread') >= 1, lo != a)))]
        op = {'Xor': '^', 'And': '&', 'Or': '|'}[n]
        return [one, ('stores the combined value', wn == stdmodel.bitop(I, op, wo, a, t)), ('returns the value replaced', r == wo)]

# ------------------------------------------------------------------ Singleton
SG = 'falcon::Singleton'
class SSpec(Base):
    def static_local(s, I, d):
        if d.get('tls'): return Loc('TLS.%s@%d' % (d['n'], d['id']), (), d['t'])
        T = I.tu.T(d['t'])
        l = Loc('SL.%s@%d' % (d['n'], d['id']), (), T['to'] if T['k'] == 'ref' else d['t'])
        if T['k'] in ('ref', 'ptr'): raise Unsupported("static pointer to the instance")
        return l
    def global_loc(s, I, q, v, e):
        if (v or {}).get('tls'): return Loc('TLS.' + q, (), v['t'])
        return None
def is_static(l): return isinstance(l, Loc) and (l.key.startswith('SL.') or l.key.startswith('G.'))
class SC(Contract):
    def __init__(s, name, qn): s.name = name; s.qn = qn
    def match(s, tu, fn): return fn.get('body') is not None and strip_targs(fn['qn']) == s.qn
    pre = FInit.pre; frame = FInit.frame; invoke = FInit.invoke; post_exc = FInit.post_exc
    def setup(s, I, x):
        x.this = Loc('this', (), x.fn['cls']); x.args = []
        sg = [f for f in I.tu.fns.values() if strip_targs(f['qn']) == SG + '::get' and f.get('body') is not None]
        if len(sg) != 1: raise Unsupported("Singleton::get not found")
        x.get = sg[0]; st = sg[0]['cls']
        if 'Singleton_Mutable' in x.fn['qn']:
            own = I.tu.T(x.fn['cls'])['n']
            for f in I.tu.rec(x.fn['cls'])['fields']:
                I.wrraw('this.%s::%s' % (own, f['n']), (), PYLEAF if I.tu.T(f['t'])['k'] == 'ref' else IntS, PyPtr(Loc('sing', (), st)) if I.tu.T(f['t'])['k'] != 'ref' else Loc('sing', (), st))
            x.sing = Loc('sing', (), st)
        else: x.sing = Loc('this', (), st)
    def post(s, I, x):
        I.frames = []
        st = set(I.st.wlog)
        p = I.call(x.get, x.sing, [], None, {})
        ref = p.loc if isinstance(p, PyPtr) else p
        got = x.ret.loc if isinstance(x.ret, PyPtr) else x.ret
        other = Loc('other', (), x.sing.t)
        p2 = I.call(x.get, other, [], None, {}); ref2 = p2.loc if isinstance(p2, PyPtr) else p2
        ok = isinstance(got, Loc) and isinstance(ref, Loc) and got.same(ref) and isinstance(ref2, Loc) and ref2.same(ref)
        return [('designates the one object that get() of every handle designates', z3.BoolVal(bool(ok))), ('that object has static storage shared by all threads', z3.BoolVal(is_static(got)))]
class SInit(SC):
    def setup(s, I, x): x.this = Loc('this', (), x.fn['cls']); x.args = []
    def match(s, tu, fn): return fn.get('ctor') and fn.get('body') is not None and strip_targs(fn['qn']) == SG + '::Singleton' and not fn['params']
    def post(s, I, x):
        f = [f for f in I.tu.rec(x.fn['cls'])['fields'] if f['n'] == 'mtbl']
        if not f: raise Unsupported("no mutable accessor member")
        mt = f[0]['t']; own = I.tu.T(mt)['n']; p = I.rdraw('this.%s::mtbl.%s::m_s' % (I.tu.T(x.fn['cls'])['n'], own), (), PYLEAF)
        return [('the mutable accessor belongs to its handle', z3.BoolVal(isinstance(p, PyPtr) and p.loc.key == 'this'))]

def plan(tu, prop):
    if prop in ('C10', 'C11'):
        sp = FutexSpec(tu, prop); cs = []
        for N in (0, 1, 2, 3, 'n', 1000, 100000, 4294967295):
            for f in ('lock', 'unlock') + (('isLocked',) if prop == 'C10' else ()): cs.append(FC(f, FX + '::' + f, N))
        if prop == 'C10': cs.append(FInit())
        return sp, cs
    if prop == 'C12': return RSpec(tu, prop), [RC('lock'), RC('unlock'), RC('isLocked'), RC('isOwner'), RInit()]
    if prop == 'C13': return ASpec(tu, prop), [AC(n, k) for n, k in (('atomicInc', 1), ('atomicDec', 1), ('atomicAdd', 2), ('atomicFetch', 1), ('atomicSet', 2), ('atomicExchange', 2), ('atomicCAS', 3), ('atomicXor', 2), ('atomicAnd', 2), ('atomicOr', 2))]
    if prop == 'C14':
        return SSpec(tu, prop), [SC('get', SG + '::get'), SC('operator->', SG + '::operator->'), SC('operator*', SG + '::operator*'), SC('mtbl operator->', SG + '::Singleton_Mutable::operator->'), SC('mtbl operator*', SG + '::Singleton_Mutable::operator*'), SInit('constructor', '')]
