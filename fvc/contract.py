"""Function contracts: verification of a body against its contract, use of a contract at a call."""
from core import *
from interp import *
import loops

class Contract:
    """pre(I, c) / post(I, c) return [(label, Bool)].  c: .this .args .ret .old(mem) .exc
    modifies(I, c): list of keys (prefixes ending in '*') the function may change; everything
    else reachable must be unchanged (checked for the body, assumed at calls)."""
    name = '?'
    usable = False       # may stand in for the body at calls
    def match(s, tu, fn): return False
    def targets(s, tu): return [f for f in tu.fns.values() if f.get('body') is not None and s.match(tu, f)]

class Ctx: pass

def verify(I, c, fn, budget=None):
    "explores fn under contract c; obligations are recorded in I"
    I.target = fn
    stats = dict(paths=0, normal=0, exc=0, reached=0, tried=0)
    t0 = time.time()
    I.deadline = time.time() + budget if budget else None
    I.spec.current = c
    I.reset()
    def one():
        I.st = State(); I.counter = 0; I.frames = []; I.scopes = [[]]; I.temps = [[]]; I._newqs(); I.nestkey = ()
        x = Ctx(); x.fn = fn; x.ret = None; x.exc = None
        I.spec.begin(I, x) if hasattr(I.spec, 'begin') else None
        c.setup(I, x)
        for n, f in c.pre(I, x): I.fact(f)
        x.old = dict(I.st.mem); I.st.wlog = set(); I.entry = x
        x.oldlists = dict(I.st.lists)
        stats['paths'] += 1
        try:
            x.ret = c.invoke(I, x)
            stats['normal'] += 1
        except CppThrow as e:
            x.exc = e; stats['exc'] += 1
        x.mem = I.st.mem
        I.frames = []
        if stats['reached'] == 0 and stats['tried'] < 4:
            # vacuity guard: the assumptions of a completed path must not be contradictory
            stats['tried'] += 1
            if prove1(I.st.pc, FALSE, 300, fallback=False)[0] != 'proved': stats['reached'] += 1
        fin = c.post if x.exc is None else c.post_exc
        for n, f in fin(I, x): 
            I.ob(n, f, c.name)
        if c.frame(I, x) is not None: frame_obs(I, x, c)
    I.explore(one)
    I.target = None
    stats['vacuous'] = stats['reached'] == 0 and not getattr(c, 'noreturn', False)
    stats['time'] = time.time() - t0
    return stats

def frame_obs(I, x, c):
    allowed = c.frame(I, x)
    for k in sorted(I.st.wlog):
        if k.startswith('$') or k.startswith('ghost.nalive') or k.startswith('ghost.alive'): continue
        if any(k == a or (a.endswith('*') and k.startswith(a[:-1])) for a in allowed): continue
        new = I.st.mem.get(k)
        old = x.old.get(k)
        if old is None:
            if not z3.is_expr(new): continue
            old = z3.Const(k + '!0', new.sort())
        if z3.is_expr(old) and z3.is_expr(new):
            if old.eq(new): continue
            I.ob('nothing else changes: ' + k, old == new, c.name)
        elif not loops.same_py(old, new): I.ob('nothing else changes: ' + k, FALSE, c.name)

class FnContract(Contract):
    "contract of one (overloaded) function, given by callables"
    def __init__(s, name, qn, nparams=None, setup=None, pre=None, post=None, post_exc=None, frame=None, sel=None, usable=False, apply=None, invoke=None, tpl=None):
        s.name = name; s.qn = qn; s.nparams = nparams; s._setup = setup; s._pre = pre; s._post = post; s._pexc = post_exc; s._frame = frame; s.sel = sel; s.usable = usable; s._apply = apply; s._invoke = invoke
    def match(s, tu, fn):
        return strip_targs(fn['qn']) == s.qn and (s.nparams is None or len(fn.get('params', [])) == s.nparams) and (s.sel is None or s.sel(tu, fn))
    def setup(s, I, x): s._setup(I, x)
    def pre(s, I, x): return s._pre(I, x) if s._pre else []
    def post(s, I, x): return s._post(I, x) if s._post else []
    def post_exc(s, I, x):
        return s._pexc(I, x) if s._pexc else [('no exception escapes', FALSE)]
    def frame(s, I, x): return s._frame(I, x) if s._frame else None
    def invoke(s, I, x):
        if s._invoke: return s._invoke(I, x)
        return default_invoke(I, x)
    def apply(s, I, fn, this, args, ret, node): return s._apply(I, fn, this, args, ret, node)

def default_invoke(I, x):
    fn = x.fn
    if fn.get('ctor'):
        I.construct_call(fn, x.this, fn['cls'], x.args, {}); return None
    if fn.get('dtor'):
        I.destroy(x.this, fn['cls']); return None
    ret = None
    if I.tu.T(fn['ret'])['k'] == 'rec': ret = Loc('$result', (), fn['ret'])
    if not fn.get('body'): return I.call(fn, x.this, x.args, ret, {})
    return I.run_body(fn, x.this, I.bind(fn, x.args), ret)
