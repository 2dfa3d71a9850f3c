import sys, time, os
sys.path.insert(0, '/verif/fvc')
from core import *; from interp import *; from contract import *
import spec_pagedstack as sp
tu = TU('/tmp/w/ps.json')
tu.opaque['vf::Elem'] = sp.ElemS

want = sys.argv[2:]; prop = sys.argv[1]
spec, cs = sp.plan(tu, prop)
tot = time.time()
for c in cs:
        if want and not any(w == c.name for w in want): continue
        fns = c.targets(tu)
        if not fns: print("NO TARGET", c.name)
        for fn in fns:
            I = Interp(tu, spec); t = time.time()
            try:
                st = verify(I, c, fn, 120)
            except Unsupported as e:
                import traceback
                if os.environ.get('TB'): traceback.print_exc()
                st = 'UNSUPPORTED %s' % e
            bad = [o for o in I.obs.values() if o.status != 'proved']
            print(prop, c.name, st, 'obs', len(I.obs), 'BAD', len(bad), '%.1fs' % (time.time() - t), flush=True)
            for o in bad: print('    ', o.status, o.name, '@', o.loc, o.exact)
print('total %.1f' % (time.time() - tot))
