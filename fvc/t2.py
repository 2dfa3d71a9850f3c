import sys, time, os, importlib
sys.path.insert(0, '/verif/fvc')
from core import *; from interp import *; from contract import *
# t2.py specmodule tu prop [contract...]
sp = importlib.import_module(sys.argv[1]); tu = TU('/tmp/w/ex/%s.json' % sys.argv[2]); prop = sys.argv[3]; want = sys.argv[4:]
spec, cs = sp.plan(tu, prop); tot = time.time()
for c in cs:
        if want and not any(w == c.name for w in want): continue
        fns = c.targets(tu)
        if not fns: print("NO TARGET", c.name)
        for fn in fns:
            I = Interp(tu, spec); t = time.time()
            try: st = verify(I, c, fn, 200)
            except Unsupported as e:
                import traceback
                if os.environ.get('TB'): traceback.print_exc()
                st = 'UNSUPPORTED %s' % e
            bad = [o for o in I.obs.values() if o.status != 'proved']
            print(prop, c.name, fn['qn'][:80], {k: st[k] for k in st if k in ('paths', 'normal', 'exc', 'vacuous')} if isinstance(st, dict) else st, 'obs', len(I.obs), 'BAD', len(bad), '%.1fs' % (time.time() - t), flush=True)
            for o in bad: print('    ', o.status, o.name, '@', o.loc, o.exact, '' if not os.environ.get('D') else o.detail[:1500])
print('total %.1f' % (time.time() - tot))
