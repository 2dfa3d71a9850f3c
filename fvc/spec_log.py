"""Contracts of LogSystem, its listeners, LogStreamListener, LogProxyListener and Logger.

Concurrency: every mutex has a monitor invariant.  Acquiring a mutex forgets everything it guards
(other threads may have changed it) and assumes the invariant; releasing it checks the invariant.
Message objects are owned: mine[p] is true exactly while p is in hand of the verified thread; taking
an object out of the queue or the pool makes it mine, putting it there takes it away, and only
objects in hand may be read, written or deleted."""
from core import *
from interp import *
from contract import *
import loops, stdmodel, stdmodel2
from stdmodel2 import REMATCH, VALIDRE, TMF, int_str, cat, S, EMPTY
LS, LI, MSG, LG, SL = 'falcon::LogSystem', 'falcon::LogSystem::Listener', 'falcon::LogSystem::Message', 'falcon::Logger', 'falcon::LogStreamListener'
AB = z3.ArraySort(IntS, BoolS); AI = z3.ArraySort(IntS, IntS)
Q_ = z3.Int('qi')
GUARD = {'m_messages': 'm_mtxMessage', 'm_isTerminated': 'm_mtxMessage', 'm_maxMsgQueueSize': 'm_mtxMessage', 'm_pool': 'm_mtxPool', 'm_pendingListeners': 'm_mtxListeners',
         'm_activeListeners': 'm_mtxListeners', 'm_logThread': 'm_mtxThread', 'm_category': 'm_mtxCategory', 'm_catRegex': 'm_mtxCategory', 'm_pout': 'm_mtxStream', 'm_uptrStream': 'm_mtxStream', 'm_pstream': 'm_mtxStream'}
FIELDS = {LS: {'m_level': 'atomic', 'm_unpooled': 'atomic', 'm_destroyed': 'atomic', 'm_msgReceived': 'atomic', 'm_maxMsgQueueSize': 'int', 'm_messages': 'vec', 'm_isTerminated': 'bool', 'm_mtxMessage': 'mutex', 'm_mtxPool': 'mutex', 'm_pool': 'vec', 'm_pendingListeners': 'vec', 'm_activeListeners': 'vec', 'm_logThread': 'ptr', 'm_mtxThread': 'mutex', 'm_mtxListeners': 'mutex'},
          LI: {'m_category': 'str', 'm_catRegex': 'str', 'm_level': 'atomic', 'm_enabled': 'atomic', 'm_detached': 'atomic', 'm_mtxCategory': 'mutex'},
          MSG: {'m_file': 'str', 'm_line': 'int', 'm_level': 'int', 'm_category': 'str', 'm_message': 'str'},
          SL: {'m_pout': 'ptr', 'm_mtxStream': 'mutex', 'm_uptrStream': 'sptr', 'm_pstream': 'sptr', 'm_dummy': 'ostr'},
          LG: {'m_dflt': 'sptr', 'm_proxy': 'sptr', 'm_proxyBaseLevel': 'int', 'm_dfltBaseLevel': 'int'}}
MFIELDS = (('m_file', StrS), ('m_line', IntS), ('m_level', IntS), ('m_category', StrS), ('m_message', StrS))
POOLMAX = 64

class LogSpec:
    prove_ms = 6000; peel = 8
    def __init__(s, tu, prop):
        s.tu = tu; s.prop = prop; s.contracts = []; s.role = None
        s.handlers = {LI + '::onMessage': s.h_onmessage, LG + '::instance': s.h_instance, 'std::thread::join': s.h_join, 'std::thread::detach': s.h_detach}
        s.missing = []
        s.ftypes = {}
        for r in tu.recs.values():
            if r['n'] in FIELDS:
                have = {f['n']: f['t'] for f in r.get('fields') or []}
                for f, k in FIELDS[r['n']].items():
                    if f not in have: s.missing.append('%s::%s' % (r['n'], f))
                    elif kind_of(tu, have[f]) != k and not (k in ('atomic',) and kind_of(tu, have[f]) in ('int', 'bool')): s.missing.append('%s::%s' % (r['n'], f))
                for f, t in have.items(): s.ftypes[(r['n'], f)] = t
    def begin(s, I, x):
        if s.missing: raise Unsupported("members the contracts speak of are gone: " + ', '.join(s.missing))
        I.st.mem['ghost.mine'] = z3.Const('mine!0', AB)
        for g in ('npush', 'npop', 'npushP', 'npopP', 'nalloc', 'nfree', 'notif', 'cur', 'sent', 'proc', 'clean', 'unp', 'des', 'rcv', 'ncalls', 'pos', 'nq', 'nlog', 'nser', 'nadd', 'joined', 'nstart', 'ncrit'): I.st.mem['ghost.' + g] = I_(1 if g == 'clean' else 0)
    def on(s, *ps): return s.prop in ps
    def waiting_loop(s, I, node): return s.role == 'thread'
    def ob_filter(s, I, name):
        if 'mutex' in name or 'race' in name: return s.prop == 'C25'
        return True
    def loop_measures(s, I, entry, mods):
        out = []
        for k in mods:
            if k.endswith('.i') and k[:-2] + '.ck' in entry.mem:
                ck = entry.mem[k[:-2] + '.ck']
                out.append((k, lambda m, k=k, ck=ck: m.get(ck[0] + '.len', z3.Const(ck[0] + '.len!0', IntS)) - m[k]))
        return out
    def loop_cands(s, I, entry, mods, node):
        out = []
        for k in mods:
            if k.startswith('ghost.') and z3.is_expr(mods[k]) and mods[k].sort() == IntS:
                for n in (0, 1): out.append(('%s==%d' % (k, n), lambda m, k=k, n=n: m[k] == n))
            if k.startswith('ghost.') and z3.is_expr(mods[k]) and mods[k].sort() == AB: out.append(('%s unchanged' % k, lambda m, k=k: m[k] == entry.mem[k]))
        for c in ('m_pool', 'm_messages'):
            b = 'this.%s::%s' % (LS, c)
            if b + '.data' in mods:
                out.append((c + ' holds distinct live objects', lambda m, c=c: s.qinv(m, c)))
        g = lambda m, k: m[k] if k in m else entry.mem[k]
        # objects of a container still to be deleted are alive, those behind the cursor are not
        def cursors(*names):
            for k in list(mods):
                if k.endswith('.i') and k[:-2] + '.ck' in entry.mem:
                    b = entry.mem[k[:-2] + '.ck'][0]
                    if b.endswith(names): yield k, b
                elif k.startswith('$') and '.' not in k and z3.is_expr(mods[k]) and mods[k].sort() == IntS:
                    for c in names:
                        if 'this.%s::%s.data' % (LS, c) in entry.mem: yield k, 'this.%s::%s' % (LS, c)
        if 'ghost.alive' in mods:
            for k, b in cursors('m_messages', 'm_pool'):
                out.append(('rest of %s alive from %s' % (b[-10:], k), lambda m, b=b, k=k: z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= m[k] + g(m, b + '.off'), Q_ < g(m, b + '.off') + g(m, b + '.len')), sel(m['ghost.alive'], z3.Select(g(m, b + '.data'), Q_))), patterns=[z3.Select(g(m, b + '.data'), Q_)])))
                out.append(('front of %s dead up to %s' % (b[-10:], k), lambda m, b=b, k=k: z3.ForAll([Q_], z3.Implies(z3.And(Q_ < m[k] + g(m, b + '.off'), Q_ >= g(m, b + '.off')), z3.Not(sel(m['ghost.alive'], z3.Select(g(m, b + '.data'), Q_)))), patterns=[z3.Select(g(m, b + '.data'), Q_)])))
            for c in ('m_messages', 'm_pool'):
                b = 'this.%s::%s' % (LS, c); E = entry.mem
                if b + '.len' in mods and b + '.data' in E:
                    out.append(('what was taken from %s is dead' % c, lambda m, b=b: z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= E[b + '.off'], Q_ < E[b + '.off'] + E[b + '.len'], z3.Or(Q_ < g(m, b + '.off'), Q_ >= g(m, b + '.off') + g(m, b + '.len'))), z3.Not(sel(m['ghost.alive'], z3.Select(E[b + '.data'], Q_)))), patterns=[z3.Select(E[b + '.data'], Q_)])))
        A, P = 'this.%s::m_activeListeners' % LS, 'this.%s::m_pendingListeners' % LS
        if A + '.data' in mods and P + '.data' in entry.mem:        # listeners added one by one
            E = entry.mem; ix = lambda q: z3.Select(E[P + '.data'], E[P + '.off'] + q)
            out.append(('former active listeners kept', lambda m: z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= g(m, A + '.off'), Q_ < g(m, A + '.off') + E[A + '.len']), z3.Select(m[A + '.data'], Q_) == z3.Select(E[A + '.data'], Q_)), patterns=[z3.Select(m[A + '.data'], Q_)])))
            out.append(('added listeners come from the pending ones', lambda m: z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= g(m, A + '.off') + E[A + '.len'], Q_ < g(m, A + '.off') + g(m, A + '.len')), z3.Select(m[A + '.data'], Q_) == ix(Q_ - g(m, A + '.off') - E[A + '.len'])), patterns=[z3.Select(m[A + '.data'], Q_)])))
            out.append(('what was taken was added', lambda m: z3.And(g(m, A + '.len') - E[A + '.len'] == E[P + '.len'] - g(m, P + '.len'), g(m, P + '.off') - E[P + '.off'] == E[P + '.len'] - g(m, P + '.len'))))
            for k, b in cursors('m_pendingListeners'): out.append(('as many added as %s' % k, lambda m, k=k: g(m, A + '.len') == E[A + '.len'] + m[k]))
        if 'ghost.alive' in mods:
            for c in ('m_messages', 'm_pool'):
                b = 'this.%s::%s' % (LS, c)
                if b + '.data' in entry.mem:
                    for lab, neg in (('all alive', False), ('all dead', True)):
                        out.append(('%s %s' % (c, lab), lambda m, b=b, neg=neg: z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= g(m, b + '.off'), Q_ < g(m, b + '.off') + g(m, b + '.len')), z3.Not(sel(m['ghost.alive'], z3.Select(g(m, b + '.data'), Q_))) if neg else sel(m['ghost.alive'], z3.Select(g(m, b + '.data'), Q_))), patterns=[z3.Select(g(m, b + '.data'), Q_)])))
        # listeners in front of the cursor that were not called did not ask for the message
        if s.role == 'send':
            for k, b in cursors('m_activeListeners'):
                    out.append(('calls up to the cursor', lambda m, k=k: z3.And(m['ghost.pos'] <= m[k], m['ghost.pos'] >= 0)))
                    out.append(('no one skipped', lambda m, k=k: z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= m['ghost.pos'], Q_ < m[k]), z3.Not(s.elig(I, Q_, m))), patterns=[z3.Select(s.act(m), Q_)])))
        return out
    # ---- state
    def key(s, f, cls=LS, obj='this'): return '%s.%s::%s' % (obj, cls, f)
    def act(s, m): return m['this.%s::m_activeListeners.data' % LS]
    def hv(s, m, own, f, so, p):
        k = 'H.%s::%s' % (own, f)
        if k not in m: m[k] = z3.Const(k + '!0', z3.ArraySort(IntS, so))
        return sel(m[k], p)
    def acc(s, m, l, c): return z3.Or(c == EMPTY, s.hv(m, LI, 'm_category', StrS, l) == EMPTY, REMATCH(c, s.hv(m, LI, 'm_catRegex', StrS, l)))
    def elig(s, I, k, m):
        l = z3.Select(s.act(m), k); p = I.st.px['msg']
        return z3.And(s.hv(m, LI, 'm_enabled', BoolS, l), z3.Not(s.hv(m, LI, 'm_detached', BoolS, l)), s.hv(m, LI, 'm_level', IntS, l) >= s.hv(m, MSG, 'm_level', IntS, p), s.acc(m, l, s.hv(m, MSG, 'm_category', StrS, p)))
    def qinv(s, m, c):
        b = 'this.%s::%s' % (LS, c); d, o, n = m[b + '.data'], m[b + '.off'], m[b + '.len']
        if 'ghost.where_' + c not in m: m['ghost.where_' + c] = z3.Const('where_%s!0' % c, AI)
        if 'ghost.alive' not in m: m['ghost.alive'] = z3.Const('ghost.alive!0', AB)
        w = m['ghost.where_' + c]; e = z3.Select(d, Q_)
        return z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= o, Q_ < o + n), z3.And(e >= 1, z3.Not(sel(m['ghost.mine'], e)), sel(w, e) == Q_, sel(m['ghost.alive'], e))), patterns=[e])
    def hav(s, I, k, so, off0=True):
        v = I.fresh(k.split('::')[-1], so); I.st.mem[k] = v; return v
    def hav_deque(s, I, f, so=IntS):
        b = s.key(f); s.hav(I, b + '.data', AI); n = s.hav(I, b + '.len', IntS); I.st.mem[b + '.off'] = I_(0); I.fact(z3.And(n >= 0, n < (1 << 60)))
    def acquire(s, I, name):
        "forget what the mutex guards, assume its invariant"
        m = I.st.mem
        if name == 'm_mtxMessage':
            s.hav_deque(I, 'm_messages'); s.hav(I, 'ghost.where_m_messages', AI); I.fact(s.qinv(m, 'm_messages'))
            if not s.held(I, 'm_mtxThread') or s.key('m_isTerminated') not in m: s.hav(I, s.key('m_isTerminated'), BoolS)
            v = s.hav(I, s.key('m_maxMsgQueueSize'), IntS); I.fact(z3.And(v >= m[s.key('m_messages.len')], v < (1 << 60)))
            I.setgh('npush', I_(0)); I.setgh('npop', I_(0))
            I.st.px['acqQ'] = dict(m)
        elif name == 'm_mtxPool':
            s.hav_deque(I, 'm_pool'); s.hav(I, 'ghost.where_m_pool', AI); I.fact(s.qinv(m, 'm_pool')); I.fact(m[s.key('m_pool.len')] <= POOLMAX)
            I.st.px['acqP'] = dict(m)
        elif name == 'm_mtxListeners':
            s.hav_deque(I, 'm_pendingListeners')
            if s.role is None: s.hav_deque(I, 'm_activeListeners')
            s.lfacts(I); I.st.px['acqL'] = dict(m)
        elif name == 'm_mtxThread':
            t = s.hav(I, s.key('m_logThread'), IntS); r = s.hav(I, 'ghost.running', BoolS); T = s.hav(I, s.key('m_isTerminated'), BoolS)
            I.fact(z3.And(t >= 0, r == (t != 0), z3.Implies(r, z3.Not(T)), z3.Implies(r, sel(I.gh('alive', AB), t)))); I.st.px['acqT'] = dict(m)
        elif name == 'm_mtxCategory':
            c = s.hav(I, s.key('m_category', LI), StrS); r = s.hav(I, s.key('m_catRegex', LI), StrS); I.fact(z3.And(c == r)); I.st.px['acqC'] = dict(m)
        elif name == 'm_mtxStream':
            p = s.hav(I, s.key('m_pout', SL), IntS); I.fact(p >= 1)
            for f in ('m_uptrStream', 'm_pstream'): s.hav(I, s.key(f, SL), IntS)
            for k, so in (('H.buf', StrS), ('H.width', IntS), ('H.fill', IntS), ('H.fmt', IntS), ('H.prec', IntS), ('H.bad', BoolS)): s.hav(I, k, z3.ArraySort(IntS, so))
            for k, v in (('H.width', I_(0)), ('H.fmt', I_(0)), ('H.bad', FALSE)): m[k] = z3.Store(m[k], p, v)
            I.st.px['acqS'] = dict(m)
    def lfacts(s, I):
        for f in ('m_pendingListeners', 'm_activeListeners'):
            b = s.key(f)
            if b + '.data' in I.st.mem: I.fact(z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= 0, Q_ < I.st.mem[b + '.len']), z3.Select(I.st.mem[b + '.data'], Q_) >= 1), patterns=[z3.Select(I.st.mem[b + '.data'], Q_)]))
    def mname(s, m): return m.key.split('::')[-1] if m.key.startswith(('this.', 'logger.')) else None
    def held(s, I, n, cls=None):
        for c in (LS, LI, SL):
            k = 'this.%s::%s.held' % (c, n)
            if k in I.st.mem and not z3.is_false(simp(I.st.mem[k])): return True
        return False
    def after_lock(s, I, m, node):
        n = s.mname(m)
        if n is None: return
        ORDER = ('m_mtxThread',)      # the only mutex that may be held while another one is acquired
        for o in ('m_mtxMessage', 'm_mtxPool', 'm_mtxListeners', 'm_mtxCategory', 'm_mtxStream', 'm_mtxThread'):
            if o != n and s.held(I, o): I.ob('mutexes are nested in one order only', z3.BoolVal(o in ORDER), node)
        s.acquire(I, n)
    def P(s, I, props, label, f, node=None):
        if s.prop in props.split(): I.ob(label, f, node)
    def before_unlock(s, I, mx, node):
        n = s.mname(mx); m = I.st.mem; px = I.st.px
        if n == 'm_mtxMessage' and not s.exempt:
            a = px['acqQ']; k = s.key('m_messages')
            s.P(I, 'C20 C23', 'queued messages are distinct live objects in nobody else\'s hand', s.qinv(m, 'm_messages'), node)
            s.P(I, 'C23', 'the longest queue so far is recorded', m[s.key('m_maxMsgQueueSize')] == z3.If(I.gh('npush') == 0, a[s.key('m_maxMsgQueueSize')], z3.If(m[k + '.len'] > a[s.key('m_maxMsgQueueSize')], m[k + '.len'], a[s.key('m_maxMsgQueueSize')])), node)
            s.P(I, 'C20', 'the queue keeps its messages in order', z3.And(m[k + '.len'] == a[k + '.len'] + I.gh('npush') - I.gh('npop'), m[k + '.off'] == I.gh('npop'),
                z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= I.gh('npop'), Q_ < a[k + '.len']), z3.Select(m[k + '.data'], Q_) == z3.Select(a[k + '.data'], Q_)))), node)
            s.P(I, 'C24', 'the termination flag is changed by start and stop only', TRUE if s.held(I, 'm_mtxThread') else m[s.key('m_isTerminated')] == a[s.key('m_isTerminated')], node)
        elif n == 'm_mtxPool' and not s.exempt:
            s.P(I, 'C20 C23', 'pooled messages are distinct live objects in nobody else\'s hand', s.qinv(m, 'm_pool'), node)
            s.P(I, 'C23', 'the pool stays within its threshold', m[s.key('m_pool.len')] <= POOLMAX, node)
        elif n == 'm_mtxThread':
            t = s.tval(I)
            s.P(I, 'C24', 'a thread object is registered exactly while a thread runs', I.gh('running', BoolS) == (t != 0), node)
            s.P(I, 'C24', 'the running thread is not told to terminate', z3.Implies(I.gh('running', BoolS), z3.Not(m[s.key('m_isTerminated')])), node)
        elif n == 'm_mtxCategory':
            s.P(I, 'C21 C26', 'the expression in force is the reported filter', m[s.key('m_catRegex', LI)] == m[s.key('m_category', LI)], node)
        if n: I.st.px['rel_' + n] = dict(m)
    def tval(s, I):
        t = I.st.mem[s.key('m_logThread')]
        return t
    exempt = False
    # ---- guarded-by
    def global_loc(s, I, q, v, e):
        if s.prop == 'C28' and v and q.startswith(LG + '::') and not v.get('sl') and not I.tu.T(v['t']).get('const'): I.ob('the state of a line is kept per thread (%s)' % q.split('::')[-1], z3.BoolVal(bool(v.get('tls'))), e)
        return None
    def touch(s, I, key, node):
        if s.prop != 'C25' or s.exempt or not key.startswith('this.'): return
        for c in (LS, LI, SL):
            pre = 'this.%s::' % c
            if key.startswith(pre) and (c != LS or True):
                rest = key[len(pre):]; f = rest.split('.')[0]
                if (c, f) not in s.ftypes: return
                k = kind_of(s.tu, s.ftypes[(c, f)])
                if k in ('mutex', 'empty', 'atomic') or I.tu.T(s.ftypes[(c, f)]).get('const'): return
                if f in ('m_dummy', 'm_nullBuffer'): return
                g = GUARD.get(f)
                if g is None:
                    if f in FIELDS.get(c, {}): I.ob('no data race on ' + f, FALSE, node)
                    else: raise Unsupported("shared member %s without a known lock" % f)
                    return
                if f == 'm_activeListeners' and s.role in ('send', 'lthread', 'thread'): return
                I.ob('no data race: %s accessed under %s' % (f, g), z3.BoolVal(True) if s.held(I, g) else FALSE, node)
                return
    def on_write(s, I, key, idx):
        if key.startswith('H.' + MSG + '::') and not I.st.px.get('quiet'):
            s.P(I, 'C20', 'a message is changed only while in hand', sel(I.gh('mine', AB), idx[0]))
        if s.prop == 'C25' and not s.exempt and key.startswith('this.%s::m_activeListeners' % LS) and not I.st.px.get('quiet'):
            I.ob('no data race: m_activeListeners changed under m_mtxListeners', z3.BoolVal(s.held(I, 'm_mtxListeners')))
    def on_deref(s, I, p, t, node):
        if I.tu.T(t).get('n') == MSG and not s.exempt: s.P(I, 'C20 C23', 'a message is used only while in hand', sel(I.gh('mine', AB), p), node)
    # ---- ownership
    def vec_insert_ok(s, I, v): return not v.key.startswith('this.') or v.key.split('::')[-1] not in ('m_messages', 'm_pool')
    def on_vec_push(s, I, v, n):
        f = v.key.split('::')[-1]
        if not v.key.startswith('this.') or f not in ('m_messages', 'm_pool'):
            return
        m = I.st.mem; ix = simp(n + m[v.key + '.off']); p = sel(m[v.key + '.data'], ix)
        s.P(I, 'C20 C23', 'a message put into %s was in hand' % f, sel(I.gh('mine', AB), p))
        I.setgh('mine', z3.Store(I.gh('mine', AB), p, FALSE)); I.setgh('where_' + f, z3.Store(I.gh('where_' + f, AI), p, ix))
        g = 'npush' if f == 'm_messages' else 'npushP'; I.setgh(g, I.gh(g) + 1); I.setgh('lastpush', p)
        if f == 'm_messages': I.setgh('notif', I_(0))
    def on_vec_pop(s, I, v, e):
        f = v.key.split('::')[-1]
        if not v.key.startswith('this.') or f not in ('m_messages', 'm_pool'): return
        m = I.st.mem; p = I.rdraw(e.key, e.idx, IntS)
        I.setgh('mine', z3.Store(I.gh('mine', AB), p, TRUE)); I.st.px['quiet'] = 1
        for n, so in MFIELDS: I.wrraw('H.%s::%s' % (MSG, n), (p,), so, I.fresh(n, so))
        I.st.px['quiet'] = 0
        if f == 'm_messages' and s.exempt: pass
        elif f == 'm_messages':
            s.P(I, 'C20', 'messages are taken in the order they were queued', e.idx[-1] == m[v.key + '.off'])
            s.P(I, 'C20', 'one message is dispatched at a time', I.gh('cur') == 0)
            s.P(I, 'C22', 'detached listeners are dropped before the next dispatch', I.gh('clean') == 1)
            s.P(I, 'C24', 'nothing is taken from the queue once termination is requested', z3.Not(m[s.key('m_isTerminated')]))
            I.setgh('cur', p); I.setgh('sent', I_(0)); I.setgh('proc', I_(0)); I.setgh('npop', I.gh('npop') + 1)
        else: I.setgh('npopP', I.gh('npopP') + 1)
    def on_vec_clear(s, I, v, t):
        f = v.key.split('::')[-1]
        if v.key.startswith('this.') and f in ('m_messages', 'm_pool') and not s.exempt: s.P(I, 'C20 C23', 'no message is dropped', I.st.mem[v.key + '.len'] == 0)
    def on_new(s, I, p, what):
        if what == MSG or what.endswith('LogSystem::Message'):
            I.fact(z3.Not(sel(I.gh('mine', AB), p))); I.setgh('mine', z3.Store(I.gh('mine', AB), p, TRUE)); I.setgh('nalloc', I.gh('nalloc') + 1)
    def on_delete(s, I, q, e):
        if I.tu.T(e['dt']).get('n') == MSG:
            if not s.exempt: s.P(I, 'C20 C23', 'a message is freed only by the thread that has it in hand', sel(I.gh('mine', AB), q), e)
            I.setgh('mine', z3.Store(I.gh('mine', AB), q, FALSE)); I.setgh('nfree', I.gh('nfree') + 1)
    def new(s, I, e):
        T = I.tu.T(e['at'])
        if T.get('n') != 'std::thread': return None
        x = e.get('init') or e.get('ctorx')
        while x and x['k'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): x = x['c'][0]
        args = [I.ev(a) for a in x['c']]
        args = [a for a in args if a is not None]
        s.P(I, 'C24', 'at most one dispatching thread', z3.Not(I.gh('running', BoolS)), e)
        f = I.val(args[0]) if len(args) > 1 else None
        ok = s.runs_thread(I, args[0]) if len(args) == 1 and isinstance(args[0], Loc) else isinstance(f, (FnRef, MemPtr)) and strip_targs(I.tu.fns[f.fid]['qn']) == LS + '::loggingThread' and len(args) > 1
        if not ok: raise Unsupported("thread started on something else than loggingThread")
        if I.choose(I.fresh('throws', BoolS)): stdmodel2.throw_std(I, 'std::system_error')
        p = I.alloc('std::thread'); I.setgh('running', TRUE); I.setgh('nstart', I.gh('nstart') + 1); I.setgh('joined', I_(0)); I.st.px['thr'] = p
        return p
    def runs_thread(s, I, lam):
        "a closure that calls loggingThread on this and does nothing else"
        rid = I.tu.T(lam.t).get('rid'); fs = [f for f in I.tu.fns.values() if f.get('cls') is not None and I.tu.T(f['cls']).get('rid') == rid and f['n'] == 'operator()' and f.get('body') is not None]
        if len(fs) != 1: return False
        b = fs[0]['body']; b = b['c'] if b['k'] == 'CompoundStmt' else [b]
        if len(b) != 1: return False
        x = b[0]
        while x['k'] in ('ExprWithCleanups', 'ParenExpr', 'ReturnStmt') and x.get('c'): x = x['c'][0]
        if x['k'] != 'CXXMemberCallExpr' or x.get('fn') is None or strip_targs(I.tu.fns[x['fn']]['qn']) != LS + '::loggingThread' or x['callee']['k'] != 'MemberExpr': return False
        o = x['callee']['c'][0]
        while o['k'] in ('ImplicitCastExpr', 'ParenExpr'): o = o['c'][0]
        return o['k'] == 'CXXThisExpr'
    def delete(s, I, e):
        if I.tu.T(e['dt']).get('n') != 'std::thread': return False
        p = I.val(I.ev(e['c'][0]))
        if not I.choose(p != 0): return True
        s.P(I, 'C24', 'a thread object is destroyed only after the thread was joined', z3.Not(I.gh('running', BoolS)), e)
        a = I.gh('alive', AB); I.ob('object deleted only while alive', sel(a, p), e); I.setgh('alive', z3.Store(a, p, FALSE)); return True
    def h_join(s, I, fn, this, args, ret, node):
        s.P(I, 'C24', 'join is called on a running thread only', I.gh('running', BoolS), node)
        s.P(I, 'C24', 'the thread is told to terminate before it is joined', z3.And(I.st.mem[s.key('m_isTerminated')], I.gh('notif') == 1), node)
        for n in ('m_mtxMessage', 'm_mtxPool', 'm_mtxListeners'):
            if s.held(I, n): I.ob('no mutex the thread needs is held while joining it', FALSE, node)
        I.setgh('running', FALSE); I.setgh('joined', I_(1))
    def h_detach(s, I, fn, this, args, ret, node):
        s.P(I, 'C24', 'the dispatching thread is joined, not left running', FALSE, node)
    def on_store(s, I, l, v, e):
        if l.key == s.key('m_isTerminated'):
            I.setgh('notif', I_(0))
            if not s.exempt: s.P(I, 'C24', 'the termination flag is changed by one of start and stop at a time', z3.BoolVal(s.held(I, 'm_mtxThread')), e)
    def on_notify(s, I, cv, n, node):
        I.setgh('notif', I_(1))
    def on_wait(s, I, cv, m, node):
        if s.mname(m) != 'm_mtxMessage': I.ob('waits with the mutex that guards the condition', FALSE, node)
    def atomic_done(s, I, loc, old, new, order, kind, node):
        if new is None: return
        f = loc.key.split('::')[-1]
        for n, g in (('m_unpooled', 'unp'), ('m_destroyed', 'des'), ('m_msgReceived', 'rcv')):
            if f == n and loc.key.startswith('this.') and not s.exempt:
                s.P(I, 'C23', n + ' counts up by one', z3.And(new == z3.If(old == (1 << 64) - 1, 0, old + 1), z3.BoolVal(kind == 'rmw')), node)
                I.setgh(g, I.gh(g) + 1)
    # ---- user code
    def h_onmessage(s, I, fn, this, args, ret, node):
        for c, ns in ((LS, ('m_mtxMessage', 'm_mtxPool', 'm_mtxListeners', 'm_mtxThread')), (LI, ('m_mtxCategory',)), (SL, ('m_mtxStream',))):
            for n in ns:
                if s.held(I, n): I.ob('no mutex of the log system is held while a listener runs', FALSE, node)
        I.setgh('ncalls', I.gh('ncalls') + 1); I.st.px.setdefault('calls', [])
        I.st.px['calls'] = I.st.px['calls'] + [(this, args[0])]
        if s.role == 'send':
            m = I.st.mem; A = s.act(m); n = m[s.key('m_activeListeners.len')]; pos = I.gh('pos')
            l = this.idx[0] if this.key == 'H' else None
            if l is None: raise Unsupported("listener object")
            a0 = args[0]
            s.P(I, 'C20 C21', 'the listener is given the message itself', a0.idx[0] == I.st.px['msg'] if isinstance(a0, Loc) and a0.key == 'H' else FALSE, node)
            j = I.fresh('next', IntS)     # the first listener from pos on that asked for the message (or the end)
            I.fact(z3.And(j >= pos, j <= n, z3.Implies(j < n, s.elig(I, j, m))))
            I.fact(z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= pos, Q_ < j), z3.Not(s.elig(I, Q_, m))), patterns=[z3.Select(A, Q_)]))
            s.P(I, 'C21', 'the listener called is the next one that asked for the message', z3.And(j < n, sel(A, j) == l), node)
            I.setgh('pos', simp(j + 1))
    def h_instance(s, I, fn, this, args, ret, node):
        return Loc('logger', (), [i for i, t in enumerate(I.tu.types) if t.get('n') == LG and not t.get('const')][0])
    def resolve_virtual(s, I, fn, this, node):
        if fn['n'] in ('detach', 'enable') and this.t is not None: return I.overrider(fn, this.t)
        return None
    def on_put(s, I, os, text, node):
        if os.key.startswith('G.'): I.setgh('nser', I.gh('nser') + 1)
        if s.prop == 'C25' and s.cls == SL: I.ob('no data race: the stream is written under m_mtxStream', z3.BoolVal(s.held(I, 'm_mtxStream')), node)
    def on_flush(s, I, os, node): I.setgh('flushed', I.rdleaf(os, '.buf', StrS))
    def addr_of(s, I, loc):
        if loc.key.endswith('::m_dummy') and loc.key.startswith('H.'):
            v = I.fresh('dummy', IntS); I.fact(v >= 1); return v
    cls = None

def strarg(I, name, tu_t):
    l = Loc('$' + name, (), tu_t); I.st.mem['$' + name] = z3.Const(name, StrS); return l

class LC(Contract):
    role = None; exempt = False
    usable = True; own = LS
    def __init__(s, name, fname, np=None): s.name = name; s.fname = fname; s.np = np
    def match(s, tu, fn): return fn.get('body') is not None and strip_targs(fn['qn']) == s.fname and (s.np is None or len(fn['params']) == s.np)
    def setup(s, I, x):
        sp = I.spec; sp.role = s.role; sp.exempt = s.exempt; sp.cls = s.own
        x.this = Loc('this', (), x.fn['cls']) if x.fn.get('cls') is not None and not x.fn.get('static') else None; x.args = []
        for c, fs in FIELDS.items():
            for f, k in fs.items():
                if k == 'mutex': I.st.mem['this.%s::%s.held' % (c, f)] = FALSE
        for i, p in enumerate(x.fn['params']):
            t = p['t']; dt = I.tu.deref(t); k = I.kind(dt); n = 'arg%d' % i
            if k == 'str': x.args.append(strarg(I, n, dt))
            elif k in ('int', 'ptr') and I.tu.T(t)['k'] != 'ref':
                v = z3.Const(n, IntS); I.rng(v, t) if k == 'int' else I.fact(v >= 1); x.args.append(v)
                T = I.tu.T(dt)
                if T['k'] == 'enum': I.fact(z3.And(v >= 0, v <= 5))
            elif k == 'bool': x.args.append(z3.Const(n, BoolS))
            elif k == 'sptr':
                l = Loc('$' + n, (), dt); v = z3.Const(n, IntS); I.fact(v >= 1); I.st.mem['$' + n] = v; x.args.append(l)
            elif k == 'rec' and I.tu.T(dt).get('n') == MSG:
                p = z3.Const(n, IntS); I.fact(p >= 1); x.args.append(Loc('H', (p,), dt)); I.st.mem['ghost.mine'] = z3.Store(I.st.mem['ghost.mine'], p, TRUE)
            else: x.args.append(Loc('$' + n, (), dt))
        s.more(I, x)
    def more(s, I, x): pass
    def pre(s, I, x): return []
    def post(s, I, x):
        r = [(l, f) for ps, l, f in s.ens(I, x) if I.spec.prop in ps.split()]
        for c, fs in FIELDS.items():
            for f, k in fs.items():
                kk = 'this.%s::%s.held' % (c, f)
                if k == 'mutex' and kk in I.st.mem: r.append(('every mutex is released: ' + f, z3.Not(I.st.mem[kk])))
        return [(l, f) for l, f in r if I.spec.ob_filter(I, l)]
    def ens(s, I, x): return []
    def post_exc(s, I, x): return [('no exception escapes', FALSE)]
    def frame(s, I, x): return None
    def invoke(s, I, x): return default_invoke(I, x)
    def apply(s, I, fn, this, args, ret, node): raise Unsupported("call of " + s.fname)
class NoCall:
    "verified, but inlined at calls"

def V(s, I): return I.st.mem
# ------------------------------------------------------------------ LogSystem
class CLogMsg(LC):
    def more(s, I, x):
        p = x.args[0]; x.p = p; I.fact(p >= 1); I.fact(sel(I.gh('mine', AB), p)); I.fact(sel(I.gh('alive', AB), p)); x.mine0 = I.gh('mine', AB)
    def ens(s, I, x):
        return [('C20', 'exactly this message is queued, once', z3.And(I.gh('npush') == 1, I.gh('npop') == 0, I.gh('lastpush') == x.p)),
                ('C20 C23', 'the message is handed over', I.gh('mine', AB) == z3.Store(x.mine0, x.p, FALSE)),
                ('C20 C24', 'the dispatcher is notified after queueing', I.gh('notif') == 1)]
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec; p = I.val(args[0])
        sp.P(I, 'C20 C23', 'the queued message is in hand', sel(I.gh('mine', AB), p), node); I.setgh('mine', z3.Store(I.gh('mine', AB), p, FALSE))
        I.setgh('nq', I.gh('nq') + 1); I.st.px['queued'] = {n: sp.hv(I.st.mem, MSG, n, so, p) for n, so in MFIELDS}
        if sp.held(I, 'm_mtxMessage'): I.ob('mutex acquired without holding it already', FALSE, node)
class CLog(LC):
    def ens(s, I, x):
        m = x.old; en = x.args[2] <= m.get('this.%s::m_level' % LS, I.st.mem.get('this.%s::m_level' % LS))
        q = I.st.px.get('queued'); n = I.gh('nq')
        r = [('C20', 'a message is queued exactly when its level is not above the system\'s level', n == z3.If(en, 1, 0)),
             ('C20 C23', 'no message object is left in hand', I.gh('mine', AB) == x.mine0)]
        if q: r.append(('C20', 'the queued message is the one logged', z3.And(q['m_file'] == I.st.mem['$arg0'], q['m_line'] == x.args[1], q['m_level'] == x.args[2], q['m_category'] == I.st.mem['$arg3'], q['m_message'] == I.st.mem['$arg4'])))
        return r
    def more(s, I, x): v = I.rdraw('this.%s::m_level' % LS, (), IntS); I.fact(z3.And(v >= -1, v <= 5)); x.mine0 = I.gh('mine', AB)
    def apply(s, I, fn, this, args, ret, node):
        I.setgh('nlog', I.gh('nlog') + 1)
        I.st.px['logged'] = [stdmodel2.sval(I, args[0]), I.val(args[1]), I.val(args[2]), stdmodel2.sval(I, args[3]), stdmodel2.sval(I, args[4])]
        I.st.px['loggedall'] = (I.st.px.get('loggedall') or []) + [I.st.px['logged']]
class CAlloc(LC):
    def more(s, I, x): x.mine0 = I.gh('mine', AB)
    def ens(s, I, x):
        r = x.ret; a = I.st.px.get('acqP'); n0 = a['this.%s::m_pool.len' % LS] if a else None
        out = [('C20 C23', 'a fresh object is in hand and nothing else', z3.And(I.gh('mine', AB) == z3.Store(x.mine0, r, TRUE), z3.Not(sel(x.mine0, r)), r >= 1)),
               ('C23', 'one object comes out of the pool or is created', I.gh('npopP') + I.gh('nalloc') == 1),
               ('C23', 'objects created beyond the pool are counted', I.gh('unp') == I.gh('nalloc'))]
        if a: out.append(('C23', 'an object is created only when the pool is empty', z3.Implies(I.gh('nalloc') == 1, n0 == 0)))
        else: out.append(('C23', 'the pool is looked at', FALSE))
        return out
    def apply(s, I, fn, this, args, ret, node):
        p = I.fresh('msg', IntS); I.fact(z3.And(p >= 1, z3.Not(sel(I.gh('mine', AB), p)), sel(I.gh('alive', AB), p))); I.setgh('mine', z3.Store(I.gh('mine', AB), p, TRUE))
        I.st.px['quiet'] = 1
        for n, so in MFIELDS: I.wrraw('H.%s::%s' % (MSG, n), (p,), so, I.fresh(n, so))
        I.st.px['quiet'] = 0
        return p
class CDispose(LC):
    def more(s, I, x):
        p = x.args[0]; I.fact(z3.And(p >= 1, sel(I.gh('mine', AB), p), sel(I.gh('alive', AB), p))); x.mine0 = I.gh('mine', AB)
    def ens(s, I, x):
        a = I.st.px.get('acqP'); n0 = a['this.%s::m_pool.len' % LS] if a else I_(0)
        return [('C20 C23', 'the object is given away', I.gh('mine', AB) == z3.Store(x.mine0, x.args[0], FALSE)),
                ('C23', 'it goes to the pool or is freed, once', I.gh('npushP') + I.gh('nfree') == 1),
                ('C23', 'it is freed only when the pool is full', z3.Implies(I.gh('nfree') == 1, n0 >= POOLMAX)),
                ('C23', 'objects freed are counted', I.gh('des') == I.gh('nfree'))]
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec; p = I.val(args[0])
        sp.P(I, 'C20 C23', 'the disposed message is in hand', sel(I.gh('mine', AB), p), node)
        if sp.role == 'thread': sp.P(I, 'C20', 'a message is disposed after its dispatch', z3.And(p == I.gh('cur'), I.gh('sent') == 1), node)
        I.setgh('mine', z3.Store(I.gh('mine', AB), p, FALSE)); I.setgh('cur', I_(0))
class CSend(LC):
    role = 'send'
    def more(s, I, x):
        sp = I.spec; p = x.args[0]; I.fact(z3.And(p >= 1, sel(I.gh('mine', AB), p))); I.st.px['msg'] = p
        sp.hav_deque(I, 'm_activeListeners'); sp.lfacts(I); m = I.st.mem
        for f, so in (('m_enabled', BoolS), ('m_detached', BoolS), ('m_level', IntS), ('m_category', StrS), ('m_catRegex', StrS)): sp.hv(m, LI, f, so, I_(0))
        for f, so in MFIELDS: sp.hv(m, MSG, f, so, I_(0))
        v = sp.hv(m, MSG, 'm_level', IntS, p); I.rdraw(sp.key('m_msgReceived'), (), IntS)
    def ens(s, I, x):
        sp = I.spec; m = I.st.mem
        return [('C21', 'no listener that asked for the message is skipped', z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= I.gh('pos'), Q_ < m[sp.key('m_activeListeners.len')]), z3.Not(sp.elig(I, Q_, m))), patterns=[z3.Select(sp.act(m), Q_)])),
                ('C23', 'the dispatch is counted once', I.gh('rcv') == 1)]
    def frame(s, I, x):
        if I.spec.prop in ('C20', 'C21'): return ['this.%s::m_msgReceived' % LS, 'ghost.*', 'this.*.held']
        return None
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec; p = I.val(args[0])
        sp.P(I, 'C20', 'each message is dispatched once, as taken from the queue', z3.And(p == I.gh('cur'), I.gh('sent') == 0), node)
        sp.P(I, 'C22', 'new listeners are taken in before the dispatch', I.gh('proc') == 1, node)
        for n in ('m_mtxMessage', 'm_mtxPool', 'm_mtxListeners'):
            if sp.held(I, n): I.ob('no mutex of the log system is held while listeners run', FALSE, node)
        I.setgh('sent', I_(1)); I.setgh('clean', I_(0))
class CProc(LC):
    role = 'lthread'
    def more(s, I, x): sp = I.spec; sp.hav_deque(I, 'm_activeListeners'); I.st.px['act0'] = dict(I.st.mem)
    def ens(s, I, x):
        sp = I.spec; m = I.st.mem; o = I.st.px['act0']; a = I.st.px.get('acqL')
        if a is None: return [('C22', 'pending listeners are taken in', FALSE)]
        kA, kP = sp.key('m_activeListeners'), sp.key('m_pendingListeners'); n0, k = o[kA + '.len'], a[kP + '.len']
        return [('C22', 'the active listeners are the former ones followed by the pending ones', z3.And(m[kA + '.len'] == n0 + k, m[kA + '.off'] == 0)),
                ('C22', 'former listeners keep their place', z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= 0, Q_ < n0), z3.Select(m[kA + '.data'], Q_) == z3.Select(o[kA + '.data'], Q_)))),
                ('C22', 'pending listeners follow in the order they were added', z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= n0, Q_ < n0 + k), z3.Select(m[kA + '.data'], Q_) == z3.Select(a[kP + '.data'], Q_ - n0)))),
                ('C22', 'no listener stays pending', m[kP + '.len'] == 0)]
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec
        if sp.held(I, 'm_mtxListeners'): I.ob('mutex acquired without holding it already', FALSE, node)
        I.setgh('proc', I_(1)); I.st.px['quiet'] = 1; I.wrraw(sp.key('m_activeListeners.len'), (), IntS, I.fresh('nact', IntS)); I.st.px['quiet'] = 0
class CClean(LC):
    role = 'lthread'
    def more(s, I, x):
        sp = I.spec; sp.hav_deque(I, 'm_activeListeners'); sp.lfacts(I); I.st.px['act0'] = dict(I.st.mem); sp.hv(I.st.mem, LI, 'm_detached', BoolS, I_(0))
    def ens(s, I, x):
        sp = I.spec; m = I.st.mem; o = I.st.px['act0']; k = sp.key('m_activeListeners'); fl = I.st.px.get('filters')
        det = m['H.%s::m_detached' % LI]; d1, d0 = m[k + '.data'], o[k + '.data']; n1, n0 = m[k + '.len'], o[k + '.len']; a1 = m[k + '.off']
        if fl: src, rank = fl[-1]['src'], fl[-1]['rank']
        else:
            er = [(i, d) for kk, i, d in I.st.px.get('erased', []) if kk == k]
            def src(q):
                for i, d in reversed(er): q = z3.If(q < i, q, q + d)
                return q
            def rank(q):
                for i, d in er: q = z3.If(q < i, q, q - d)
                return q
        Q2 = z3.Int('qj')
        r = [('C22', 'no detached listener stays', z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= 0, Q_ < n1), z3.Not(sel(det, z3.Select(d1, Q_)))))),
             ('C22', 'what stays was there before, in the same order', z3.And(a1 == 0, z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= 0, Q_ < n1), z3.And(z3.Select(d1, Q_) == z3.Select(d0, src(Q_)), src(Q_) >= 0, src(Q_) < n0))), z3.ForAll([Q_, Q2], z3.Implies(z3.And(Q_ >= 0, Q_ < Q2, Q2 < n1), src(Q_) < src(Q2))))),
             ('C22', 'every listener that is not detached stays', z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= 0, Q_ < n0, z3.Not(sel(det, z3.Select(d0, Q_)))), z3.And(src(rank(Q_)) == Q_, rank(Q_) >= 0, rank(Q_) < n1))))]
        a = I.st.px.get('acqL')
        if a is not None: r.append(('C22', 'pending listeners are untouched', z3.And(m[sp.key('m_pendingListeners.len')] == a[sp.key('m_pendingListeners.len')], m[sp.key('m_pendingListeners.data')] == a[sp.key('m_pendingListeners.data')])))
        return r
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec
        if sp.held(I, 'm_mtxListeners'): I.ob('mutex acquired without holding it already', FALSE, node)
        I.setgh('clean', I_(1)); I.st.px['quiet'] = 1; I.wrraw(sp.key('m_activeListeners.len'), (), IntS, I.fresh('nact', IntS)); I.st.px['quiet'] = 0
class CThread(LC):
    role = 'thread'
    def more(s, I, x): I.st.mem['ghost.mine'] = z3.K(IntS, FALSE)
    def ens(s, I, x):
        sp = I.spec
        return [('C20 C23', 'no message is left in hand when the thread ends', z3.And(I.gh('cur') == 0, I.gh('mine', AB) == z3.K(IntS, FALSE))),
                ('C24', 'the dispatching thread ends only when told so', I.st.mem[sp.key('m_isTerminated')])]
class CAdd(LC):
    def ens(s, I, x):
        sp = I.spec; m = I.st.mem; a = I.st.px.get('acqL'); k = sp.key('m_pendingListeners')
        if a is None: return [('C22', 'the listener is added to the pending ones', FALSE)]
        return [('C22', 'the listener is added behind the pending ones, once', z3.And(m[k + '.len'] == a[k + '.len'] + 1, m[k + '.off'] == 0, sel(m[k + '.data'], a[k + '.len']) == I.rdraw('$arg0', (), IntS, x.old),
                z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= 0, Q_ < a[k + '.len']), z3.Select(m[k + '.data'], Q_) == z3.Select(a[k + '.data'], Q_))))),
                ('C22', 'the active listeners are untouched', m[sp.key('m_activeListeners.len')] == a[sp.key('m_activeListeners.len')])]
    def apply(s, I, fn, this, args, ret, node):
        I.setgh('nadd', I.gh('nadd') + 1); I.setgh('added', I.rdleaf(args[0], '', IntS))
class CDiags(LC):
    def more(s, I, x):
        for f in ('m_unpooled', 'm_destroyed', 'm_msgReceived'): I.rdraw(I.spec.key(f), (), IntS)
        I.spec.hv(I.st.mem, LI, 'm_enabled', BoolS, I_(0))
    def ens(s, I, x):
        sp = I.spec; m = I.st.mem; D = lambda f: I.rdraw('$arg0.%s::Diags::%s' % (LS, f), (), IntS)
        q, p, l = (I.st.px.get(k) for k in ('acqQ', 'acqP', 'acqL'))
        r = [('C23', 'objects created are reported', D('m_msgsCreated') == m[sp.key('m_unpooled')]), ('C23', 'objects discarded are reported', D('m_msgsDiscarded') == m[sp.key('m_destroyed')]), ('C23', 'messages dispatched are reported', D('m_msgReceived') == m[sp.key('m_msgReceived')]),
             ('C23', 'the longest queue is reported', D('m_maxMsgQueueSize') == q[sp.key('m_maxMsgQueueSize')] if q else FALSE), ('C23', 'the pool size is reported', D('m_poolSize') == p[sp.key('m_pool.len')] if p else FALSE),
             ('C23', 'pending listeners are reported', D('m_pendingListeners') == l[sp.key('m_pendingListeners.len')] if l else FALSE), ('C23', 'active listeners are reported', D('m_activeListeners') == l[sp.key('m_activeListeners.len')] if l else FALSE)]
        c = (I.st.px.get('countif') or [None])[-1]
        A = m[sp.key('m_activeListeners.data')]
        if c is None:        # counted in another way: on unrolled loops the sum is written out
            n = m[sp.key('m_activeListeners.len')]; t = I_(0)
            for i in range(I.unroll + 1): t = t + z3.If(z3.And(n > i, sel(m['H.%s::m_enabled' % LI], sel(A, I_(i)))), 1, 0)
            r.append(('C23', 'enabled listeners are reported', z3.And(n <= I.unroll + 1, D('m_enabledListeners') == t)))
        else: r.append(('C23', 'enabled listeners are reported', z3.And(D('m_enabledListeners') == c['r'], z3.BoolVal(c['C'].key == sp.key('m_activeListeners')), c['lo'] == 0, c['hi'] == m[sp.key('m_activeListeners.len')], c['P'] == sel(m['H.%s::m_enabled' % LI], sel(A, c['k'])))))
        r.append(('C23', 'reporting changes nothing', z3.And(I.gh('npush') == 0, I.gh('npop') == 0, I.gh('npushP') == 0, I.gh('npopP') == 0, I.gh('unp') == 0, I.gh('des') == 0, I.gh('rcv') == 0)))
        return r
class CStart(LC):
    def more(s, I, x): I.setgh('running', z3.Const('running!0', BoolS))
    def ens(s, I, x):
        a = I.st.px.get('acqT')
        if a is None: return [('C24', 'starting excludes other start and stop calls', FALSE)]
        w = a['ghost.running']
        return [('C24', 'a dispatching thread runs after start()', I.gh('running', BoolS)), ('C24', 'start() on a running system does nothing', z3.And(I.gh('nstart') == z3.If(w, 0, 1), z3.Implies(w, I.st.mem[I.spec.key('m_logThread')] == a[I.spec.key('m_logThread')]))),
                ('C24', 'the thread is not told to terminate', z3.Not(I.st.mem[I.spec.key('m_isTerminated')])), ('C24', 'nothing is joined', I.gh('joined') == 0)]
    def post_exc(s, I, x):
        if x.exc.tname != 'std::system_error': return [('no exception escapes', FALSE)]
        return [('a failed start leaves the system stopped', z3.Not(I.gh('running', BoolS)))] if I.spec.prop == 'C24' else []
    def apply(s, I, fn, this, args, ret, node):
        I.setgh('running', TRUE); I.setgh('nstart', I.gh('nstart') + 1); I.st.mem[I.spec.key('m_isTerminated')] = FALSE
class CStop(LC):
    def more(s, I, x): I.setgh('running', z3.Const('running!0', BoolS))
    def ens(s, I, x):
        a = I.st.px.get('acqT')
        if a is None: return [('C24', 'stopping excludes other start and stop calls', FALSE)]
        w = a['ghost.running']
        return [('C24', 'no dispatching thread runs after stop()', z3.Not(I.gh('running', BoolS))), ('C24', 'the thread is joined exactly if there was one', I.gh('joined') == z3.If(w, 1, 0)), ('C24', 'no thread is started', I.gh('nstart') == 0),
                ('C24', 'the thread object is freed', z3.Implies(w, z3.Not(sel(I.gh('alive', AB), a[I.spec.key('m_logThread')])))), ('C24', 'no thread object is registered', I.st.mem[I.spec.key('m_logThread')] == 0)]
    def apply(s, I, fn, this, args, ret, node):
        sp = I.spec
        I.setgh('running', FALSE); I.st.mem[sp.key('m_isTerminated')] = TRUE; I.st.mem[sp.key('m_logThread')] = I_(0)
        if sp.exempt:      # the thread may have worked until it was joined
            m = I.st.mem
            for f in ('m_messages', 'm_pool'): sp.hav_deque(I, f); sp.hav(I, 'ghost.where_' + f, AI)
            kd = I.fresh('place', AI); I.st.px['stopped'] = m
            for i, f in enumerate(('m_messages', 'm_pool')):
                I.fact(sp.qinv(m, f)); d = m[sp.key(f + '.data')]; n = m[sp.key(f + '.len')]
                I.fact(z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= 0, Q_ < n), sel(kd, z3.Select(d, Q_)) == i), patterns=[z3.Select(d, Q_)]))
            I.st.px['stopped'] = dict(m)
class CCtor(LC):
    exempt = True
    def more(s, I, x): x.mine0 = I.gh('mine', AB); I.setgh('running', FALSE); I.gh('where_m_pool', AI); I.gh('where_m_messages', AI)
    def ens(s, I, x):
        sp = I.spec; m = I.st.mem
        z = lambda f: I.rdraw(sp.key(f), (), IntS) == 0
        return [('C23', 'the initial pool holds 64 distinct objects', z3.And(sp.qinv(m, 'm_pool'), m[sp.key('m_pool.len')] == POOLMAX)), ('C23', 'no object is left in hand', I.gh('mine', AB) == x.mine0),
                ('C23', 'all counts start at zero', z3.And(z('m_unpooled'), z('m_destroyed'), z('m_msgReceived'), z('m_maxMsgQueueSize'), m[sp.key('m_messages.len')] == 0, m[sp.key('m_pendingListeners.len')] == 0, m[sp.key('m_activeListeners.len')] == 0)),
                ('C24', 'a new system runs exactly if asked to', z3.And(I.gh('running', BoolS) == x.args[0], z3.Implies(z3.Not(x.args[0]), m[sp.key('m_logThread')] == 0)))]
class CDtor(LC):
    exempt = True
    def more(s, I, x):
        I.setgh('running', z3.Const('running!0', BoolS)); sp = I.spec
        for f in ('m_messages', 'm_pool'): sp.hav_deque(I, f)
    def ens(s, I, x):
        sp = I.spec; a = I.st.px.get('stopped')
        if a is None: return [('C23 C24', 'destruction stops the system first', FALSE)]
        r = [('C24', 'destruction stops the system', z3.Not(I.gh('running', BoolS)))]
        for f in ('m_messages', 'm_pool'):
            r.append(('C23 C24', 'every object in %s is freed' % f, z3.ForAll([Q_], z3.Implies(z3.And(Q_ >= 0, Q_ < a[sp.key(f + '.len')]), z3.Not(sel(I.gh('alive', AB), z3.Select(a[sp.key(f + '.data')], Q_)))))))
        return r
class CLevelStr(LC):
    def ens(s, I, x):
        names = ['CRIT', 'ERR ', 'WARN', 'INFO', 'DBG ', 'TRC ']
        e = S('????')
        for i, n in enumerate(names): e = z3.If(x.args[0] == i, S(n), e)
        return [('C27', 'four-letter level name', stdmodel2.sval(I, x.ret) == e)]
    def more(s, I, x): pass
    def apply(s, I, fn, this, args, ret, node):
        e = S('????'); v = I.val(args[0])
        for i, n in enumerate(['CRIT', 'ERR ', 'WARN', 'INFO', 'DBG ', 'TRC ']): e = z3.If(v == i, S(n), e)
        return CStr(e)
# ------------------------------------------------------------------ Listener
class CCheckCat(LC):
    own = LI
    def ens(s, I, x):
        c = I.st.mem['$arg0']; a = I.st.px.get('acqC')
        if a is None: return [('C21 C26', 'without looking at the filter only uncategorised messages are accepted', z3.And(c == EMPTY, x.ret))]
        return [('C21 C26', 'a message is accepted exactly if uncategorised, unfiltered, or fully matching', x.ret == z3.Or(c == EMPTY, a['this.%s::m_category' % LI] == EMPTY, REMATCH(c, a['this.%s::m_catRegex' % LI])))]
    def frame(s, I, x): return ['ghost.*', 'this.%s::m_category' % LI, 'this.%s::m_catRegex' % LI, 'this.%s::m_mtxCategory.held' % LI] if I.spec.prop == 'C21' else None
    def apply(s, I, fn, this, args, ret, node):
        if this.key != 'H': raise Unsupported("checkCategory of a named listener")
        return I.spec.acc(I.st.mem, this.idx[0], stdmodel2.sval(I, args[0]))
class CSetCat(LC):
    own = LI
    def ens(s, I, x):
        r = I.st.px.get('rel_m_mtxCategory'); a = I.st.mem['$arg0']
        if r is None: return [('C26', 'the filter is changed', FALSE)]
        return [('C26', 'a valid expression becomes the filter and the reported category', z3.And(VALIDRE(a), r['this.%s::m_category' % LI] == a, r['this.%s::m_catRegex' % LI] == a))]
    def post_exc(s, I, x):
        r = I.st.px.get('rel_m_mtxCategory'); o = I.st.px.get('acqC'); a = I.st.mem['$arg0']; out = []
        k1, k2 = 'this.%s::m_category' % LI, 'this.%s::m_catRegex' % LI
        if I.spec.prop == 'C26':
            out = [('an invalid expression throws InvalidCategory', z3.And(z3.BoolVal(x.exc.tname == LS + '::InvalidCategory'), z3.Not(VALIDRE(a)))),
                   ('an invalid expression leaves the previous filter in force', z3.And(r[k1] == o[k1], r[k2] == o[k2]) if r else z3.BoolVal(o is None))]
        if I.spec.prop == 'C25': out.append(('every mutex is released: m_mtxCategory', z3.Not(I.st.mem['this.%s::m_mtxCategory.held' % LI])))
        return out
    def apply(s, I, fn, this, args, ret, node):
        x = stdmodel2.sval(I, args[0])
        if not I.choose(VALIDRE(x)):
            l = I.new_local('exc', None); I.wrraw(l.key + '.what', (), StrS, I.fresh('what', StrS)); t = [i for i, T in enumerate(I.tu.types) if T.get('n') == LS + '::InvalidCategory'][0]
            raise CppThrow(LS + '::InvalidCategory', l, t)
        if this.key != 'H': raise Unsupported("category of a named listener")
        I.wrraw('H.%s::m_category' % LI, this.idx, StrS, x); I.wrraw('H.%s::m_catRegex' % LI, this.idx, StrS, x)
class CGetCat(LC):
    own = LI
    def ens(s, I, x):
        a = I.st.px.get('acqC')
        return [('C26', 'the filter in force is reported', I.rdleaf(x.ret, '', StrS) == a['this.%s::m_category' % LI] if a else FALSE)]
class CFlag(LC):
    "enable, level, detach, isEnabled, isDetached: exactly their own flag"
    own = LI; usable = False
    def __init__(s, name, fname, np, f, val, props): LC.__init__(s, name, fname, np); s.f = f; s.val = val; s.props = props
    def ens(s, I, x):
        out = []
        for f, so in (('m_level', IntS), ('m_enabled', BoolS), ('m_detached', BoolS)):
            k = 'this.%s::%s' % (LI, f); o = I.rdraw(k, (), so, x.old); n = I.rdraw(k, (), so)
            if f == s.f and s.np == 1: out.append((s.props, 'the flag takes the given value', n == x.args[0]))
            elif f == s.f and s.val is not None: out.append((s.props, 'the flag is set', n == s.val))
            else: out.append((s.props, 'no other flag changes', n == o))
            if f == s.f and s.np == 0 and s.val is None: out.append((s.props, 'the flag is reported', x.ret == o))
        return out
    def more(s, I, x):
        for f, so in (('m_level', IntS), ('m_enabled', BoolS), ('m_detached', BoolS)): I.rdraw('this.%s::%s' % (LI, f), (), so)
    def match(s, tu, fn): return LC.match(s, tu, fn)
# ------------------------------------------------------------------ stream listener
def pad2(v): return z3.If(v < 10, z3.Concat(S('0'), z3.IntToStr(v)), z3.IntToStr(v))
class CStream(LC):
    own = SL
    def ens(s, I, x):
        sp = I.spec; a = I.st.px.get('acqS'); r = I.st.px.get('rel_m_mtxStream')
        if a is None or r is None: return [('C27', 'the line is written under the stream mutex', FALSE)]
        pv = a[sp.key('m_pout', SL)]; p = x.args[0].idx[0]; m = x.old; h = lambda f, so: sp.hv(m, MSG, f, so, p)
        now = I.st.px.get('now')
        if now is None: return [('C27', 'the clock is read', FALSE)]
        t = {n: f(now) for n, f in TMF.items()}
        lv = S('????')
        for i, n in enumerate(['CRIT', 'ERR ', 'WARN', 'INFO', 'DBG ', 'TRC ']): lv = z3.If(h('m_level', IntS) == i, S(n), lv)
        fl = h('m_file', StrS); li = stdmodel2.last_index(I, fl, S('/'))
        base = z3.If(li < 0, fl, z3.SubString(fl, li + 1, z3.Length(fl) - li - 1)); c = h('m_category', StrS)
        e = z3.Concat(int_str(t['tm_year'] + 1900), S('-'), pad2(t['tm_mon'] + 1), S('-'), pad2(t['tm_mday']), S(' '), pad2(t['tm_hour']), S(':'), pad2(t['tm_min']), S(':'), pad2(t['tm_sec']), S(' ['), lv, S('] '),
                      z3.If(c == EMPTY, EMPTY, z3.Concat(S('('), c, S(') '))), base, S(':'), int_str(h('m_line', IntS)), S(' '), h('m_message', StrS), S('\n'))
        old, new = sel(a['H.buf'], pv), sel(r['H.buf'], pv)
        return [('C27', 'exactly one well-formed line is appended to the stream in force', new == z3.Concat(old, e)),
                ('C27', 'nothing is written elsewhere', r['H.buf'] == z3.Store(a['H.buf'], pv, new)),
                ('C27', 'the line is flushed', I.gh('flushed', StrS) == new),
                ('C27', 'the stream is left ready for the next line', sel(r['H.width'], pv) == 0)]
    def more(s, I, x):
        sp = I.spec; p = x.args[0].idx[0]
        for f, so in MFIELDS: sp.hv(I.st.mem, MSG, f, so, p)
        I.st.mem['ghost.flushed'] = z3.Const('flushed!0', StrS)
class CTarget(LC):
    own = SL
    def ens(s, I, x):
        sp = I.spec; r = I.st.px.get('rel_m_mtxStream')
        if r is None: return [('C27', 'the target is changed under the stream mutex', FALSE)]
        a = I.st.px['acqS']; n = x.fn['n']; v = x.args[0] if n == 'writeOn' else I.rdraw('$arg0', (), IntS, x.old)
        out = [('C27', 'following messages go to the given stream', r[sp.key('m_pout', SL)] == v), ('C27', 'nothing is written', r['H.buf'] == a['H.buf'])]
        if n == 'own': out.append(('C27', 'the stream is owned from now on', z3.And(r[sp.key('m_uptrStream', SL)] == v, I.st.mem['$arg0'] == 0)))
        if n == 'share': out.append(('C27', 'the stream is kept alive', r[sp.key('m_pstream', SL)] == v))
        return out
class CSLCtor(LC):
    own = SL; exempt = True
    def ens(s, I, x):
        v = I.st.mem.get(I.spec.key('m_pout', SL))
        return [('C27', 'until a target is set messages go to the discarding stream', z3.BoolVal(isinstance(v, PyPtr) and v.loc.key == I.spec.key('m_dummy', SL)))]
# ------------------------------------------------------------------ logger
G_ = lambda f: 'G.%s::%s' % (LG, f)
GL = (('m_composer.buf', StrS), ('m_category', StrS), ('m_tempCategory', StrS), ('m_msgFile', StrS), ('m_msgLine', IntS), ('m_msgLevel', IntS), ('m_composer.width', IntS), ('m_composer.fmt', IntS), ('m_composer.fill', IntS), ('m_composer.prec', IntS), ('m_composer.bad', BoolS))
class CCommit(LC):
    own = LG
    def more(s, I, x): x.g = glob(I)
    def ens(s, I, x):
        g, m = x.g, I.st.mem; L = I.st.px.get('logged')
        if not L: return [('C28', 'the line is committed', FALSE)]
        return [('C28', 'exactly one message is logged', I.gh('nlog') == 1),
                ('C28', 'with the place, level and text of the line', z3.And(L[0] == g['m_msgFile'], L[1] == g['m_msgLine'], L[2] == g['m_msgLevel'], L[4] == g['m_composer.buf'])),
                ('C28', 'with the temporary category if one was given', L[3] == z3.If(g['m_tempCategory'] == EMPTY, g['m_category'], g['m_tempCategory'])),
                ('C28', 'the temporary category applies to this message only', m[G_('m_tempCategory')] == EMPTY), ('C28', 'the next line starts empty', m[G_('m_composer.buf')] == EMPTY), ('C28', 'the next line can be composed', z3.Not(m[G_('m_composer.bad')])), ('C28', 'the thread keeps its category', m[G_('m_category')] == g['m_category'])]
    def apply(s, *a): raise Unsupported("commit")
OUTER = ('m_composer.buf', 'm_tempCategory', 'm_msgFile', 'm_msgLine', 'm_msgLevel')
def same_outer(I, g): return z3.And(*[I.st.mem[G_(f)] == g[f] for f in OUTER])
def glob(I, clean=False):
    g = {}
    for f, so in GL:
        k = G_(f); I.st.mem[k] = z3.Const(k + '!0', so)
    I.st.mem[G_('m_composer.width')] = I_(0); I.st.mem[G_('m_composer.fmt')] = I_(0); I.st.mem[G_('m_composer.prec')] = I_(6); I.st.mem[G_('m_composer.fill')] = I_(32)
    if clean: I.st.mem[G_('m_composer.bad')] = FALSE
    for f, so in GL: g[f] = I.st.mem[G_(f)]
    return g
class CLine(LC):
    "a statement as users write it"
    own = LG
    def __init__(s, name, fname, text, catf): LC.__init__(s, name, fname); s.text = text; s.catf = catf
    def more(s, I, x):
        x.g = glob(I, True); x.lv = z3.Const('arg0', IntS) if s.fname != 'vf::set_category' else None
        if x.lv is not None: I.fact(z3.And(x.lv >= 0, x.lv <= 5))
        v = I.rdraw('logger.%s::m_level' % LS, (), IntS); I.fact(z3.And(v >= -1, v <= 5)); x.sys = v
    def ens(s, I, x):
        g, m = x.g, I.st.mem; L = I.st.px.get('logged'); en = x.lv <= x.sys; n = I.gh('nlog')
        A = [I.st.mem['$arg%d' % i] if '$arg%d' % i in I.st.mem and isinstance(a, Loc) else a for i, a in enumerate(x.args)]
        line = [str(l) for l in range(0)]
        r = [('C28', 'a statement commits one message exactly if enabled', n == z3.If(en, 1, 0)),
             ('C28', 'a disabled statement composes nothing', z3.Implies(z3.Not(en), I.gh('nser') == 0)),
             ('C28', 'a line that was being composed around the statement is as it was', same_outer(I, g)), ('C28', 'the next line can be composed', z3.Not(m[G_('m_composer.bad')])), ('C28', 'the thread keeps its category', m[G_('m_category')] == g['m_category'])]
        if L:
            ln = x.fn['loc'].split(':')
            f = simp(L[0])
            r += [('C28', 'the text is the streamed values in order', L[4] == s.text(A)) if s.text else ('C28', 'the text starts with the values before the null text', z3.PrefixOf(S('7'), L[4])), ('C28', 'the level is the statement\'s', L[2] == x.lv), ('C28', 'the category is the temporary one if given, else the thread\'s', L[3] == s.catf(A, g)),
                  ('C28', 'file and line are the statement\'s', z3.And(z3.BoolVal(z3.is_string_value(f) and f.as_string().endswith('log.cpp')), L[1] == int(ln[1])))]
        return r
class CNested(LC):
    "a statement inside an open block: two messages, neither takes over anything of the other"
    own = LG
    def more(s, I, x):
        x.g = glob(I, True); x.l1, x.l2 = z3.Const('arg0', IntS), z3.Const('arg1', IntS)
        for l in (x.l1, x.l2): I.fact(z3.And(l >= 0, l <= 5))
        v = I.rdraw('logger.%s::m_level' % LS, (), IntS); I.fact(z3.And(v >= -1, v <= 5)); x.sys = v
    def ens(s, I, x):
        g, m = x.g, I.st.mem; L = I.st.px.get('loggedall') or []; a, b, c = [m['$arg%d' % i] for i in (2, 3, 4)]
        e1 = x.l1 <= x.sys; e2 = z3.And(e1, x.l2 <= x.sys); ln = int(x.fn['loc'].split(':')[1])
        r = [('C28', 'each enabled statement commits one message', I.gh('nlog') == z3.If(e1, 1, 0) + z3.If(e2, 1, 0)), ('C28', 'a line that was being composed around the statement is as it was', same_outer(I, g)), ('C28', 'the thread keeps its category', m[G_('m_category')] == g['m_category'])]
        if L:
            o = L[-1]; r += [('C28', 'the block commits its own text, place, level and category', z3.And(o[4] == z3.Concat(a, b), o[1] == ln, o[2] == x.l1, o[3] == z3.If(c == EMPTY, g['m_category'], c)))]
        if len(L) > 1: r += [('C28', 'the inner statement commits its own text, place, level and category', z3.And(L[0][4] == z3.Concat(S('i'), b), L[0][1] == ln + 1, L[0][2] == x.l2, L[0][3] == g['m_category']))]
        return r
class CLeft(LC):
    "a block that is left by a jump or by an exception commits nothing and leaves nothing behind"
    own = LG
    def more(s, I, x):
        x.g = glob(I, True); x.lv = z3.Const('arg0', IntS); I.fact(z3.And(x.lv >= 0, x.lv <= 5))
        v = I.rdraw('logger.%s::m_level' % LS, (), IntS); I.fact(z3.And(v >= -1, v <= 5)); x.sys = v
    def both(s, I, x):
        g, m = x.g, I.st.mem
        return [('a block that is left commits nothing', I.gh('nlog') == 0), ('a block that is left leaves nothing behind', same_outer(I, g)), ('the next line can be composed', z3.Not(m[G_('m_composer.bad')])), ('the thread keeps its category', m[G_('m_category')] == g['m_category'])]
    def ens(s, I, x):
        r = [('C28', d, f) for d, f in s.both(I, x)]
        return r + ([('C28', 'the block runs exactly if enabled', x.lv > x.sys)] if 'throw' in x.fn['n'] else [])
    def post_exc(s, I, x):
        if x.exc.tname != 'std::runtime_error' or 'throw' not in x.fn['n']: return [('no exception escapes', FALSE)]
        return s.both(I, x) + [('the block runs exactly if enabled', x.lv <= x.sys)] if I.spec.prop == 'C28' else []
class CSetCategory(LC):
    own = LG
    def more(s, I, x): x.g = glob(I, True); v = I.rdraw('logger.%s::m_level' % LS, (), IntS); I.fact(z3.And(v >= -1, v <= 5))
    def ens(s, I, x):
        return [('C28', 'the thread\'s category is the one set', I.st.mem[G_('m_category')] == I.st.mem['$arg0']), ('C28', 'nothing is logged', z3.And(I.gh('nlog') == 0, I.gh('nser') == 0))]
LV = 'this.%s::m_level' % LS
class CFilter(LC):
    own = LG; exempt = True
    def more(s, I, x):
        sp = I.spec
        if 'm_dflt' and x.fn['n'] == 'categoryFilter': x.l = x.args[1]
        else: x.l = None
        m = I.st.mem; g = lambda f, c=LG: I.rdraw(sp.key(f, c), (), IntS)
        x.d, x.p, x.B, x.D, x.lv = g('m_dflt'), g('m_proxy'), g('m_proxyBaseLevel'), g('m_dfltBaseLevel'), g('m_level', LS)
        I.fact(z3.And(x.d >= 1, x.p >= 0, x.p != x.d))
        al = I.gh('alive', AB); I.fact(z3.And(sel(al, x.d), z3.Implies(x.p != 0, sel(al, x.p))))
        x.dl = sp.hv(m, LI, 'm_level', IntS, x.d)
        for v in (x.B, x.D, x.lv, x.dl): I.fact(z3.And(v >= -1, v <= 5))
        for f, so in (('m_detached', BoolS), ('m_category', StrS), ('m_enabled', BoolS)): sp.hv(m, LI, f, so, x.d)
        x.H0 = {k: v for k, v in m.items() if k.startswith('H.')}
    def ens(s, I, x):
        sp = I.spec; m = I.st.mem; g = lambda f, c=LG: I.rdraw(sp.key(f, c), (), IntS)
        h = lambda f, so, p: sp.hv(m, LI, f, so, p)
        B = z3.If(x.p != 0, x.B, x.lv); D = z3.If(x.p != 0, x.D, x.dl)
        det = x.H0['H.%s::m_detached' % LI]
        r = [('C29', 'the default listener stays', z3.And(g('m_dflt') == x.d, h('m_detached', BoolS, x.d) == sel(det, x.d))), ('C29', 'a former filter is detached', z3.Implies(x.p != 0, h('m_detached', BoolS, x.p)))]
        if x.l is None:
            return r + [('C29', 'no filter is in force', g('m_proxy') == 0), ('C29', 'the levels in force before the first filter are restored', z3.And(g('m_level', LS) == B, h('m_level', IntS, x.d) == D)), ('C29', 'no listener is added', I.gh('nadd') == 0)]
        p = g('m_proxy')
        return r + [('C29', 'exactly one listener is added, for the requested categories and level', z3.And(I.gh('nadd') == 1, I.gh('added') == p, p != 0, p != x.p, p != x.d, z3.Not(h('m_detached', BoolS, p)), h('m_enabled', BoolS, p), h('m_level', IntS, p) == x.l, h('m_category', StrS, p) == I.st.mem['$arg0'])),
                ('C29', 'it forwards to the default listener', sp.hv(m, 'falcon::LogProxyListener', 'm_other', IntS, p) == x.d),
                ('C29', 'the system level is raised as needed, never lowered', g('m_level', LS) == z3.If(x.l > B, x.l, B)), ('C29', 'the default listener shows no more than before', h('m_level', IntS, x.d) == z3.If(D > B, B, D)),
                ('C29', 'the levels before the first filter are remembered', z3.And(g('m_proxyBaseLevel') == B, g('m_dfltBaseLevel') == D))]
    def post_exc(s, I, x):
        if x.exc.tname != LS + '::InvalidCategory' or I.spec.prop != 'C29': return [('no exception escapes', FALSE)] if x.exc.tname != LS + '::InvalidCategory' else []
        sp = I.spec; m = I.st.mem; g = lambda f, c=LG: I.rdraw(sp.key(f, c), (), IntS)
        return [('an invalid expression leaves everything as it was', z3.And(g('m_dflt') == x.d, g('m_proxy') == x.p, g('m_level', LS) == x.lv, I.gh('nadd') == 0, sp.hv(m, LI, 'm_level', IntS, x.d) == x.dl, sp.hv(m, LI, 'm_level', IntS, x.p) == sp.hv(x.H0, LI, 'm_level', IntS, x.p), sp.hv(m, LI, 'm_detached', BoolS, x.p) == sp.hv(x.H0, LI, 'm_detached', BoolS, x.p), sp.hv(m, LI, 'm_detached', BoolS, x.d) == sp.hv(x.H0, LI, 'm_detached', BoolS, x.d),
                 z3.Implies(x.p != 0, z3.And(g('m_proxyBaseLevel') == x.B, g('m_dfltBaseLevel') == x.D))))]
    def apply(s, I, fn, this, args, ret, node): return I.run_body(fn, this, I.bind(fn, args), ret)
class CProxyMsg(LC):
    own = 'falcon::LogProxyListener'; exempt = True
    def more(s, I, x):
        v = I.rdraw('this.falcon::LogProxyListener::m_other', (), IntS); I.fact(v >= 1); x.o = v
    def ens(s, I, x):
        c = I.st.px.get('calls') or []
        return [('C29', 'the message is forwarded once, as it is, to the other listener', z3.And(z3.BoolVal(len(c) == 1), c[0][0].idx[0] == x.o, c[0][1].idx[0] == x.args[0].idx[0]) if len(c) == 1 else FALSE)]
class CLoggerCtor(LC):
    own = LG; exempt = True
    def post_exc(s, I, x): return [] if x.exc.tname == 'std::system_error' else [('no exception escapes', FALSE)]    # no thread can be started
    def more(s, I, x): pass
    def ens(s, I, x):
        sp = I.spec; d = I.rdraw(sp.key('m_dflt', LG), (), IntS)
        return [('C29', 'the default listener is added once and no filter is set', z3.And(I.gh('nadd') == 1, I.gh('added') == d, d != 0, I.rdraw(sp.key('m_proxy', LG), (), IntS) == 0))]

class CMsgCtor(LC):
    own = MSG; exempt = True
    def match(s, tu, fn): return LC.match(s, tu, fn) and bool(fn.get('ctor'))
    def ens(s, I, x):
        m = I.st.mem; r = lambda f, so: I.rdraw('this.%s::%s' % (MSG, f), (), so)
        return [('C20', 'a message object holds exactly what it was built from', z3.And(r('m_file', StrS) == m['$arg0'], r('m_line', IntS) == x.args[1], r('m_level', IntS) == x.args[2], r('m_category', StrS) == m['$arg3'], r('m_message', StrS) == m['$arg4']))]
class CLoggerCat(LC):
    own = LG; usable = False
    def more(s, I, x): x.g = glob(I)
    def ens(s, I, x):
        return [('C28', 'the category of the calling thread is reported', I.rdleaf(x.ret, '', StrS) == x.g['m_category'] if isinstance(x.ret, Loc) else FALSE), ('C28', 'reading the category changes nothing', z3.And(*[I.st.mem[G_(f)] == x.g[f] for f, so in GL]))]
class CDfltListener(LC):
    own = LG; exempt = True; usable = False
    def more(s, I, x): x.d = I.rdraw(I.spec.key('m_dflt', LG), (), IntS)
    def ens(s, I, x):
        r = x.ret
        return [('C29', 'the default listener is the one added at construction', z3.And(I.rdleaf(r, '', IntS) == x.d, I.rdraw(I.spec.key('m_dflt', LG), (), IntS) == x.d) if isinstance(r, Loc) else FALSE)]

def plan(tu, prop):
    sp = LogSpec(tu, prop)
    c = dict(
        logmsg=CLogMsg('LogSystem::log(Message*)', LS + '::log', 1), log=CLog('LogSystem::log(file, line, level, category, text)', LS + '::log', 5), alloc=CAlloc('LogSystem::allocateMsg', LS + '::allocateMsg'),
        dispose=CDispose('LogSystem::disposeMsg', LS + '::disposeMsg'), send=CSend('LogSystem::sendMessageToListeners', LS + '::sendMessageToListeners'), proc=CProc('LogSystem::processNewListeners', LS + '::processNewListeners'),
        clean=CClean('LogSystem::cleanupTerminatedListeners', LS + '::cleanupTerminatedListeners'), thread=CThread('LogSystem::loggingThread', LS + '::loggingThread'), add=CAdd('LogSystem::addListener', LS + '::addListener'),
        diags=CDiags('LogSystem::getDiags', LS + '::getDiags'), start=CStart('LogSystem::start', LS + '::start'), stop=CStop('LogSystem::stop', LS + '::stop'), ctor=CCtor('LogSystem constructor', LS + '::LogSystem', 1), dtor=CDtor('LogSystem destructor', LS + '::~LogSystem'),
        lstr=CLevelStr('LogSystem::levelToString', LS + '::levelToString'), check=CCheckCat('Listener::checkCategory', LI + '::checkCategory'), setcat=CSetCat('Listener::category(expression)', LI + '::category', 1), getcat=CGetCat('Listener::category()', LI + '::category', 0),
        stream=CStream('LogStreamListener::onMessage', SL + '::onMessage'), own=CTarget('LogStreamListener::own', SL + '::own'), share=CTarget('LogStreamListener::share', SL + '::share'), writeon=CTarget('LogStreamListener::writeOn', SL + '::writeOn'), slctor=CSLCtor('LogStreamListener constructor', SL + '::LogStreamListener', 0),
        commit=CCommit('Logger::commit', LG + '::commit'), setfilter=CFilter('Logger::categoryFilter', LG + '::categoryFilter'), clearfilter=CFilter('Logger::clearFilter', LG + '::clearFilter'), proxymsg=CProxyMsg('LogProxyListener::onMessage', 'falcon::LogProxyListener::onMessage'), lctor=CLoggerCtor('Logger constructor', LG + '::Logger', 0),
        msgctor=CMsgCtor('Message constructor', MSG + '::Message', 5), lgcat=CLoggerCat('Logger::getCategory', LG + '::getCategory', 0), dflt=CDfltListener('Logger::defaultListener', LG + '::defaultListener', 0),
        line1=CLine('LOG statement', 'vf::line_plain', lambda A: z3.Concat(int_str(A[2]), A[1], S('!')), lambda A, g: g['m_category']), line2=CLine('LOG statement with a temporary category', 'vf::line_category', lambda A: z3.Concat(A[2], int_str(A[3])), lambda A, g: z3.If(A[1] == EMPTY, g['m_category'], A[1])),
        line3=CLine('LOG statement with literals', 'vf::line_literal', lambda A: S('abc12'), lambda A, g: g['m_category']), line4=CLine('LOG_BLOCK statement', 'vf::block', lambda A: z3.Concat(A[1], int_str(A[2]), S('.')), lambda A, g: g['m_category']), line5=CLine('LOG statement with a null text', 'vf::line_null', None, lambda A, g: g['m_category']), nested=CNested('LOG statement inside a block', 'vf::nested'), left1=CLeft('LOG_BLOCK left by break', 'vf::block_left'), left2=CLeft('LOG_BLOCK left by an exception', 'vf::block_throw'), setcategory=CSetCategory('LOG_CATEGORY statement', 'vf::set_category'))
    for n, f, np, fld, v, ps in (('f1', 'enable', 1, 'm_enabled', None, 'C21'), ('f2', 'level', 1, 'm_level', None, 'C21'), ('f3', 'detach', 0, 'm_detached', TRUE, 'C21 C22'), ('f4', 'isEnabled', 0, 'm_enabled', None, 'C21'), ('f5', 'isDetached', 0, 'm_detached', None, 'C21 C22'), ('f6', 'level', 0, 'm_level', None, 'C21')):
        c[n] = CFlag('Listener::' + f + ('()' if np == 0 else '(value)'), LI + '::' + f, np, fld, v, ps)
    PROPS = {'C20': 'logmsg log alloc dispose send thread ctor msgctor', 'C21': 'send check f1 f2 f3 f4 f5 f6 setcat', 'C22': 'add proc clean thread f3 f5', 'C23': 'logmsg log alloc dispose send thread diags ctor dtor', 'C24': 'start stop ctor dtor thread logmsg',
             'C25': 'logmsg log alloc dispose send proc clean thread add diags start stop check setcat getcat stream own share writeon f1 f2 f3 f4 f5 f6', 'C26': 'setcat getcat check', 'C27': 'stream own share writeon slctor lstr', 'C28': 'commit line1 line2 line3 line4 line5 nested left1 left2 setcategory lgcat log', 'C29': 'dflt setfilter clearfilter proxymsg setcat lctor'}
    sp.contracts = [c[k] for k in ('logmsg', 'log', 'alloc', 'dispose', 'send', 'proc', 'clean', 'thread', 'add', 'start', 'stop', 'check', 'setcat', 'lstr') ]
    if prop == 'C29': sp.contracts = [c[k] for k in ('setcat', 'add', 'log')]
    cs = [c[k] for k in PROPS[prop].split()]
    return sp, cs
