"""Trusted contracts of the standard library: strings, streams, smart pointers, regular expressions,
threads, condition variables, algorithms and clocks."""
from core import *
from interp import *
import stdmodel
from stdmodel import model, km, ctor, KIND, MODELS, CONSTRUCT, setret, rett, cstr_val, cstr_full, velem, vlen, voff, elem_t, vit_parts, mk_vit, unconst, is_vector, build_elem
S = z3.StringVal
EMPTY = S('')
NPOS = (1 << 64) - 1
def F(name, *sorts): return z3.Function(name, *sorts)
LASTIDX = F('last_index', StrS, StrS, IntS)
FIRSTIDX = F('first_index', StrS, StrS, IntS, IntS)
VALIDRE = F('valid_regex', StrS, BoolS)
REMATCH = F('regex_match', StrS, StrS, BoolS)
RESEARCH = F('regex_search', StrS, StrS, BoolS)
FLTSTR = F('float_text', F64, IntS, IntS, StrS)
REFLAGS = F('regex_with_flags', StrS, IntS, StrS)

# ------------------------------------------------------------------ characters and strings
def chr_str(c):
    "one character (a signed char value) as a string"
    c = simp(c)
    if is_num(c):
        n = c.as_long() % 256
        return S(chr(n)) if 32 <= n < 127 and chr(n) != '\\' else z3.Unit(z3.CharVal(n)) if False else z3.StrFromCode(z3.IntVal(n))
    return z3.StrFromCode(z3.If(c < 0, c + 256, c))
def int_str(v):
    v = simp(v)
    if is_num(v): return S(str(v.as_long()))
    return z3.If(v < 0, z3.Concat(S('-'), z3.IntToStr(-v)), z3.IntToStr(v))
def ndig(v):
    r = I_(20)
    for k in range(19, 0, -1): r = z3.If(v < 10 ** k, I_(k), r)
    return r
def int_len(v):
    "number of characters of int_str(v)"
    v = simp(v)
    return simp(z3.If(v < 0, 1 + ndig(-v), ndig(v)))
def sval(I, a, t=None):
    "the text of a string object, literal or character"
    if isinstance(a, CStr): return cstr_val(a)
    if isinstance(a, Loc):
        k = I.kind(a.t) if a.t is not None else None
        if k == 'str': return I.rdleaf(a, '', StrS)
        if k == 'cstr': return sval(I, I.load(a))
        if k == 'int': return chr_str(I.load(a))
        raise Unsupported("text of " + (I.tu.T(a.t)['s'] if a.t is not None else '?'))
    if isinstance(a, tuple) and a[0] == 'chr': return chr_str(I.spec_chr(a[1]))
    if z3.is_expr(a):
        if a.sort() == StrS: return a
        if a.sort() == IntS: return chr_str(a)
    if isinstance(a, PyPtr): return sval(I, a.loc)
    raise Unsupported("text of %r" % (a,))
def is_dflt(I, a): return a is None or (isinstance(a, Loc) and a.t is not None and I.kind(a.t) == 'empty')
def cat(*xs):
    xs = [x for x in xs if not (z3.is_string_value(x) and x.as_string() == '')]
    if not xs: return EMPTY
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)
@ctor('str')
def c_str(I, fn, loc, t, args, node):
    a = [x for x in args if not is_dflt(I, x)]
    if 'regex' in I.tu.T(t)['n']:
        if not a: I.wrleaf(loc, '', StrS, EMPTY); return
        if fn.get('copyctor') or fn.get('movector'): I.wrleaf(loc, '', StrS, I.rdleaf(a[0], '', StrS)); return
        x = sval(I, a[0])
        if len(a) > 1:
            fl = simp(I.val(a[1]))
            if not (is_num(fl) and fl.as_long() in (0, 16)): x = REFLAGS(x, fl)
        if not I.choose(VALIDRE(x)): throw_std(I, 'std::regex_error')
        I.wrleaf(loc, '', StrS, x); return
    if not a: I.wrleaf(loc, '', StrS, EMPTY); return
    if fn and (fn.get('copyctor') or fn.get('movector')):
        I.wrleaf(loc, '', StrS, I.rdleaf(a[0], '', StrS))
        if fn.get('movector'): moved(I, a[0])
        return
    if len(a) == 1: I.wrleaf(loc, '', StrS, sval(I, a[0])); return
    p = fn['params'] if fn else []
    if isinstance(a[0], CStr) and len(a) == 2 and z3.is_expr(a[1]):
        x = cstr_full(a[0]); I.ob('characters read inside the text', z3.And(a[1] >= 0, a[1] <= z3.Length(x) + 1), node)
        I.wrleaf(loc, '', StrS, z3.SubString(x, 0, a[1])); return
    if isinstance(a[0], Loc) and I.kind(a[0].t) == 'str' and len(a) in (2, 3):
        x = sval(I, a[0]); pos = I.val(a[1])
        if not I.choose(pos <= z3.Length(x)): throw_std(I, 'std::out_of_range')
        n = I.val(a[2]) if len(a) == 3 else None
        I.wrleaf(loc, '', StrS, sub(x, pos, n)); return
    raise Unsupported("string constructor")
def moved(I, src):
    "a moved-from string is valid but unspecified"
    if isinstance(src, Loc): I.havoc_leaf(src, '', StrS)
def sub(x, pos, n):
    r = z3.Length(x) - pos
    if n is None: return z3.SubString(x, pos, r)
    n = simp(n)
    if is_num(n) and n.as_long() >= NPOS: return z3.SubString(x, pos, r)
    return z3.SubString(x, pos, z3.If(n < r, n, r))
def throw_std(I, name, what=None):
    l = I.new_local('exc', None); I.wrraw(l.key + '.what', (), StrS, what if what is not None else I.fresh('what', StrS))
    raise CppThrow(name, l)
@km('exc', 'what')
def exc_what(I, fn, this, args, ret, node): return CStr(I.rdraw(this.key + '.what', this.idx, StrS))
MODELS['std::exception::what'] = MODELS['std::runtime_error::what'] = exc_what
for _n in ('std::exception', 'std::runtime_error', 'std::logic_error'): MODELS[_n + '::~' + _n[5:]] = lambda I, fn, this, args, ret, node: None
@km('str', 'operator=', 'assign')
def str_assign(I, fn, this, args, ret, node):
    a = [x for x in args if not is_dflt(I, x)]
    if 'regex' in I.tu.T(fn['cls'])['n']:
        x = sval(I, a[0])
        if not (isinstance(a[0], Loc) and 'regex' in I.tu.T(a[0].t)['n']):
            if len(a) > 1: raise Unsupported("regex assign with flags")
            if not I.choose(VALIDRE(x)): throw_std(I, 'std::regex_error')
        I.wrleaf(this, '', StrS, x); return this
    if len(a) != 1:
        if len(a) == 2 and isinstance(a[0], CStr): x = cstr_full(a[0]); I.ob('characters read inside the text', a[1] <= z3.Length(x) + 1, node); I.wrleaf(this, '', StrS, z3.SubString(x, 0, a[1])); return this
        if len(a) == 3: x = sval(I, a[0]); I.wrleaf(this, '', StrS, sub(x, I.val(a[1]), I.val(a[2]))); return this
        raise Unsupported("string assign")
    x = sval(I, a[0]); I.wrleaf(this, '', StrS, x)
    if fn.get('moveassign') and isinstance(a[0], Loc) and not a[0].same(this): moved(I, a[0])
    return this
@km('str', 'operator+=', 'append', 'push_back')
def str_append(I, fn, this, args, ret, node):
    a = [x for x in args if not is_dflt(I, x)]; x = I.rdleaf(this, '', StrS)
    if len(a) == 1: y = sval(I, a[0])
    elif len(a) == 2 and isinstance(a[0], CStr): c = cstr_full(a[0]); y = z3.SubString(c, 0, a[1])
    elif len(a) == 3 and isinstance(a[0], Loc): y = sub(sval(I, a[0]), I.val(a[1]), I.val(a[2]))
    elif len(a) == 2 and z3.is_expr(a[0]) and is_num(simp(a[0])): y = S('').__add__(cat(*[chr_str(a[1])] * simp(a[0]).as_long())) if simp(a[0]).as_long() else EMPTY
    else: raise Unsupported("string append")
    I.wrleaf(this, '', StrS, cat(x, y)); return this
@km('str', 'empty')
def str_empty(I, fn, this, args, ret, node): return I.rdleaf(this, '', StrS) == EMPTY
@km('str', 'size', 'length')
def str_size(I, fn, this, args, ret, node):
    n = z3.Length(I.rdleaf(this, '', StrS))
    if not is_num(simp(n)): I.fact(n < 2 ** 62)
    return n
@km('str', 'capacity')
def str_capacity(I, fn, this, args, ret, node):
    c = I.fresh('cap', IntS); I.fact(z3.And(c >= z3.Length(I.rdleaf(this, '', StrS)), c < 2 ** 62)); return c
@km('str', 'clear')
def str_clear(I, fn, this, args, ret, node): I.wrleaf(this, '', StrS, EMPTY)
@km('str', 'reserve', 'shrink_to_fit')
def str_nop(I, fn, this, args, ret, node): return None
@km('str', 'c_str', 'data')
def str_cstr(I, fn, this, args, ret, node): return CStr(I.rdleaf(this, '', StrS), None, not getattr(I.spec, 'texts_without_nul', False))
@km('str', 'substr')
def str_substr(I, fn, this, args, ret, node):
    x = I.rdleaf(this, '', StrS); pos = I.val(args[0]) if args and args[0] is not None else I_(0); n = I.val(args[1]) if len(args) > 1 and args[1] is not None else None
    if not I.choose(pos <= z3.Length(x)): throw_std(I, 'std::out_of_range')
    return setret(I, ret, rett(fn), _=sub(x, pos, n))
@km('str', 'erase')
def str_erase(I, fn, this, args, ret, node):
    if any(isinstance(a, Loc) and a.t is not None and I.kind(a.t) not in ('int',) for a in args): raise Unsupported("string erase with iterators")
    x = I.rdleaf(this, '', StrS); pos = I.val(args[0]) if args and args[0] is not None else I_(0); n = I.val(args[1]) if len(args) > 1 and args[1] is not None else None
    if not I.choose(pos <= z3.Length(x)): throw_std(I, 'std::out_of_range')
    rest = EMPTY if n is None or is_num(simp(n)) and simp(n).as_long() >= NPOS else z3.If(n >= z3.Length(x) - pos, EMPTY, sub(x, pos + n, None))
    I.wrleaf(this, '', StrS, cat(sub(x, I_(0), pos), rest)); return this
@km('str', 'pop_back')
def str_popb(I, fn, this, args, ret, node):
    x = I.rdleaf(this, '', StrS); I.ob('string not empty', z3.Length(x) > 0, node); I.fact(z3.Length(x) > 0)
    I.wrleaf(this, '', StrS, sub(x, I_(0), z3.Length(x) - 1))
@km('str', 'insert')
def str_insert(I, fn, this, args, ret, node):
    if len(args) != 2 or isinstance(args[0], Loc) and I.kind(args[0].t) != 'int': raise Unsupported("string insert")
    x = I.rdleaf(this, '', StrS); pos = I.val(args[0])
    if not I.choose(pos <= z3.Length(x)): throw_std(I, 'std::out_of_range')
    I.wrleaf(this, '', StrS, cat(sub(x, I_(0), pos), sval(I, args[1]), sub(x, pos, None))); return this
@km('str', 'compare')
def str_compare(I, fn, this, args, ret, node):
    x = I.rdleaf(this, '', StrS)
    if len(args) != 1: raise Unsupported("string compare")
    y = sval(I, args[0]); return z3.If(x == y, I_(0), z3.If(z3.StrLT(x, y) if hasattr(z3, 'StrLT') else x < y, I_(-1), I_(1)))
@km('str', 'swap')
def str_swap(I, fn, this, args, ret, node):
    x, y = I.rdleaf(this, '', StrS), I.rdleaf(args[0], '', StrS); I.wrleaf(this, '', StrS, y); I.wrleaf(args[0], '', StrS, x)
@km('str', 'operator[]', 'at', 'front', 'back')
def str_at(I, fn, this, args, ret, node):
    x = I.rdleaf(this, '', StrS); n = fn['n']
    i = I_(0) if n == 'front' else z3.Length(x) - 1 if n == 'back' else I.val(args[0])
    if n == 'at' and not I.choose(z3.And(i >= 0, i < z3.Length(x))): throw_std(I, 'std::out_of_range')
    if n in ('front', 'back'): I.ob('string not empty', z3.Length(x) > 0, node)
    return ('chr', CStr(x, simp(i)))
def npos(r): return z3.If(r < 0, I_(NPOS), r)
def last_index(I, x, y):
    "position of the last occurrence, -1 if none"
    r = LASTIDX(x, y)
    I.fact(z3.And(r >= -1, r < (1 << 62)))      # no text is longer than max_size()
    I.fact(z3.And(r >= -1, r < z3.Length(x) + 1, (r == -1) == z3.Not(z3.Contains(x, y))))
    I.fact(z3.Implies(r >= 0, z3.And(z3.SubString(x, r, z3.Length(y)) == y, z3.Not(z3.Contains(z3.SubString(x, r + 1, z3.Length(x) - r - 1), y)))))
    return r
@km('str', 'find', 'find_first_of')
def str_find(I, fn, this, args, ret, node):
    x = I.rdleaf(this, '', StrS); y = sval(I, args[0]); pos = I.val(args[1]) if len(args) > 1 and args[1] is not None else I_(0)
    if fn['n'] == 'find_first_of' and not I.valid(z3.Length(y) == 1): raise Unsupported("find_first_of with several characters")
    if getattr(I.spec, 'find_facts', False) and z3.is_string_value(y) and len(y.as_string()) == 1:
        x = I.nm(x); r = FIRSTIDX(x, y, pos); rest = x if is_num(simp(pos)) and simp(pos).as_long() == 0 else z3.SubString(x, pos, z3.Length(x) - pos)
        I.fact(z3.And(r >= -1, r < z3.Length(x), r < (1 << 62), (r == -1) == z3.Not(z3.Contains(rest, y)))); I.fact(z3.Implies(r >= 0, z3.And(r >= pos, z3.SubString(x, r, 1) == y, z3.Not(z3.Contains(z3.SubString(x, pos, r - pos), y)))))
        return I_(NPOS) if I.choose(r < 0, node) else r
    r = z3.IndexOf(x, y, pos)
    return npos(r)
@km('str', 'rfind', 'find_last_of')
def str_rfind(I, fn, this, args, ret, node):
    x = I.rdleaf(this, '', StrS); y = sval(I, args[0]); pos = simp(I.val(args[1])) if len(args) > 1 and args[1] is not None else I_(NPOS)
    if not (is_num(pos) and pos.as_long() >= NPOS): raise Unsupported("rfind from a position")
    if fn['n'] == 'find_last_of' and not I.valid(z3.Length(y) == 1): raise Unsupported("find_last_of with several characters")
    r = last_index(I, x, y)
    if getattr(I.spec, 'find_facts', False): return I_(NPOS) if I.choose(r < 0, node) else r
    return npos(r)
@model('std::operator+')
def m_plus(I, fn, this, args, ret, node):
    return setret(I, ret, rett(fn), _=cat(sval(I, args[0]), sval(I, args[1])))
@model('std::to_string')
def m_tostring(I, fn, this, args, ret, node):
    v = I.val(args[0])
    return setret(I, ret, rett(fn), _=int_str(v) if v.sort() == IntS else FLTSTR(v, I_(6), I_(1)))
def str_eq(I, fn, this, args, ret, node):
    a = ([this] if this is not None else []) + list(args)
    x, y = sval(I, a[0]), sval(I, a[1]); n = fn['n']
    if n in ('operator==', 'operator!='): return x == y if n == 'operator==' else x != y
    if n == 'operator<': return x < y
    if n == 'operator>': return y < x
    raise Unsupported("string comparison " + n)
@model('strlen')
def m_strlen(I, fn, this, args, ret, node): return z3.Length(cstr_val(args[0]))
def cmp_kinds(I, fn, this):
    ts = ([fn['cls']] if this is not None else []) + [I.tu.deref(p['t']) for p in fn['params']]
    return [I.kind(t) for t in ts]
_bk = stdmodel.by_kind
def by_kind2(I, fn, q, this, args):
    n = fn['n']
    if n in ('operator==', 'operator!=', 'operator<', 'operator>'):
        ks = cmp_kinds(I, fn, this)
        if any(k == 'str' for k in ks) and all(k in ('str', 'cstr') for k in ks): return str_eq
        if all(k == 'mit' for k in ks) and 'eq_mit' in MODELS: return MODELS['eq_mit']
    if n == 'operator<<' and (q == 'std::operator<<' or (this is not None and I.kind(fn['cls']) == 'ostr')): return put
    h = _bk(I, fn, q, this, args)
    if h is None and this is not None and isinstance(this, Loc) and this.t is not None:
        h = KIND.get((I.kind(this.t), n))
    return h
stdmodel.by_kind = by_kind2

# ------------------------------------------------------------------ streams
DEC = 0
@ctor('ostr')
def c_ostr(I, fn, loc, t, args, node):
    if fn and (fn.get('copyctor') or fn.get('movector')): I.copy_leaves(loc, args[0], t); return
    b = EMPTY
    if 'fstream' in I.tu.T(t)['n']:       # a file: it may not open
        I.wrleaf(loc, '.buf', StrS, EMPTY); I.setf(loc, '.width', I_(0)); I.setf(loc, '.fill', I_(32)); I.setf(loc, '.fmt', I_(DEC)); I.setf(loc, '.prec', I_(6)); I.wrleaf(loc, '.bad', BoolS, I.fresh('cannot_open', BoolS))
        if hasattr(I.spec, 'on_open'): I.spec.on_open(I, loc, sval(I, args[0]) if args else None)
        return
    if args and isinstance(args[0], Loc) and args[0].t is not None and I.kind(args[0].t) == 'str': b = I.rdleaf(args[0], '', StrS)
    I.wrleaf(loc, '.buf', StrS, b); I.setf(loc, '.width', I_(0)); I.setf(loc, '.fill', I_(32)); I.setf(loc, '.fmt', I_(DEC)); I.setf(loc, '.prec', I_(6)); I.wrleaf(loc, '.bad', BoolS, FALSE)
@model('std::setw', 'std::setfill', 'std::setprecision')
def m_manip(I, fn, this, args, ret, node): return setret(I, ret, rett(fn), _=I.val(args[0]))
FIXED, LEFT = 256, 1024            # flags kept with the number format
PADDED = F('padded_to_width', StrS, IntS, IntS, BoolS, StrS)
def out_text(I, os, text, node, ln=None):
    if I.choose(I.rdleaf(os, '.bad', BoolS)): return            # a stream in a failed state takes nothing
    w = simp(I.f(os, '.width'))
    if not (is_num(w) and w.as_long() == 0):
        if not is_num(w) and I.valid(w == 0): w = I_(0)
        fmt = simp(I.f(os, '.fmt')); left = is_num(fmt) and (fmt.as_long() & LEFT) != 0
        if not is_num(w) or w.as_long() > 16: text = PADDED(text, w, I.f(os, '.fill'), z3.BoolVal(left))
        elif w.as_long():
            n = w.as_long(); fill = chr_str(I.f(os, '.fill'))
            ln = z3.Length(text) if ln is None else ln
            r = EMPTY
            for k in range(n, 0, -1):       # k fill characters when the text has n-k
                r = z3.If(ln == n - k, cat(*[fill] * k), r)
            text = z3.Concat(text, simp(r)) if left else z3.Concat(simp(r), text)
        I.setf(os, '.width', I_(0))
    to = I.spec.stream_target(I, os) if hasattr(I.spec, 'stream_target') else os
    if not (hasattr(I.spec, 'text_kept') and not I.spec.text_kept(I, to)): I.wrleaf(to, '.buf', StrS, cat(I.rdleaf(to, '.buf', StrS), text))
    if hasattr(I.spec, 'on_put'): I.spec.on_put(I, os, text, node)
def put(I, fn, this, args, ret, node):
    os = this if this is not None else args[0]; a = args[0] if this is not None else args[1]
    pt = fn['params'][0 if this is not None else 1]['t']; dt = I.tu.deref(pt); T = I.tu.T(dt); k = I.kind(dt)
    if k == 'ptr' and T['k'] == 'ptr' and I.tu.T(T['to'])['k'] == 'fn' or isinstance(a, FnRef):
        n = strip_targs(I.tu.fns[a.fid]['qn']) if isinstance(a, FnRef) else '?'
        if n == 'std::endl': out_text(I, os, S('\n'), node); flush(I, os, node); return os
        if n == 'std::flush': flush(I, os, node); return os
        f = simp(I.f(os, '.fmt')); f = f.as_long() if is_num(f) else None
        if f is not None and n == 'std::fixed': I.setf(os, '.fmt', I_(f | FIXED)); return os
        if f is not None and n == 'std::left': I.setf(os, '.fmt', I_(f | LEFT)); return os
        if f is not None and n in ('std::right', 'std::internal') : I.setf(os, '.fmt', I_(f & ~LEFT)); return os
        raise Unsupported("stream manipulator " + n)
    if k == 'manip':
        v = I.rdleaf(a, '', IntS); n = T['n']
        I.setf(os, '.fill' if 'fill' in n else '.width' if 'Setw' in n else '.prec', v); return os
    if k in ('cstr',) or (k == 'ptr' and isinstance(a, CStr)):
        v = I.val(a)
        if is_null(v): I.wrleaf(os, '.bad', BoolS, TRUE); return os
        out_text(I, os, sval(I, v), node); return os
    if k == 'str': out_text(I, os, sval(I, a), node); return os
    v = I.val(a)
    if isinstance(v, tuple): v = I.spec_chr(v[1])
    fmt = simp(I.f(os, '.fmt'))
    if k == 'int':
        if T.get('ch') or T.get('w') == 8: out_text(I, os, chr_str(v), node); return os
        if not (is_num(fmt) and fmt.as_long() & 255 == DEC) and not I.valid(fmt == DEC): raise Unsupported("number format of the stream")
        out_text(I, os, int_str(v), node, int_len(v)); return os
    if k == 'bool':
        out_text(I, os, z3.If(v, S('1'), S('0')), node); return os
    if k == 'float': out_text(I, os, FLTSTR(v, I.f(os, '.prec'), fmt), node); return os
    raise Unsupported("streamed value of " + T['s'])
def flush(I, os, node):
    if hasattr(I.spec, 'on_flush'): I.spec.on_flush(I, os, node)
@km('ostr', 'flush')
def os_flush(I, fn, this, args, ret, node): flush(I, this, node); return this
@km('ostr', 'put', 'write')
def os_put(I, fn, this, args, ret, node):
    if fn['n'] == 'put': out_text(I, this, sval(I, args[0]), node)
    else:
        x = cstr_full(args[0]); n = I.val(args[1]); I.ob('characters read inside the text', z3.And(n >= 0, n <= z3.Length(x)), node)
        out_text(I, this, x if I.valid(n == z3.Length(x)) else z3.SubString(x, 0, n), node)
    return this
@km('ostr', 'str')
def os_str(I, fn, this, args, ret, node):
    if not args: return setret(I, ret, rett(fn), _=I.rdleaf(this, '.buf', StrS))
    I.wrleaf(this, '.buf', StrS, sval(I, args[0]))
@km('ostr', 'clear')
def os_clear(I, fn, this, args, ret, node):
    v = simp(I.val(args[0])) if args else I_(0)
    I.wrleaf(this, '.bad', BoolS, simp(v != 0))
@model('std::basic_ios::setstate')
def os_setstate(I, fn, this, args, ret, node): I.wrleaf(this, '.bad', BoolS, simp(z3.Or(I.rdleaf(this, '.bad', BoolS), I.val(args[0]) != 0)))
@model('std::basic_ios::good', 'std::basic_ios::fail', 'std::basic_ios::bad', 'std::basic_ios::operator!', 'std::basic_ios::operator bool')
def os_good(I, fn, this, args, ret, node):
    b = I.rdleaf(this, '.bad', BoolS)
    return z3.Not(b) if fn['n'] in ('good', 'operator bool') else b
MODELS['std::basic_ios::clear'] = os_clear
@model('std::ios_base::width', 'std::ios_base::precision')
def os_width(I, fn, this, args, ret, node):
    s = '.width' if fn['n'] == 'width' else '.prec'; o = I.f(this, s)
    if args: I.setf(this, s, I.val(args[0]))
    return o
@model('std::basic_ios::fill')
def os_fill(I, fn, this, args, ret, node):
    o = I.f(this, '.fill')
    if args: I.setf(this, '.fill', I.val(args[0]))
    return o

# ------------------------------------------------------------------ smart pointers
def pval(I, a):
    if isinstance(a, Loc): return I.rdleaf(a, '', IntS)
    if isinstance(a, PyPtr): raise Unsupported("address of a named object in a smart pointer")
    return a
@ctor('sptr')
def c_sptr(I, fn, loc, t, args, node):
    a = [x for x in args if not is_dflt(I, x)]
    if not a: I.wrleaf(loc, '', IntS, I_(0)); return
    v = pval(I, a[0]); mv = False
    if fn and isinstance(a[0], Loc):
        mv = '&&' in I.tu.T(fn['params'][0]['t'])['s'] or bool(fn.get('movector')) or ('unique_ptr' in I.tu.T(t)['n'])
    I.wrleaf(loc, '', IntS, v)
    if mv: I.wrleaf(a[0], '', IntS, I_(0))
    if hasattr(I.spec, 'on_sptr'): I.spec.on_sptr(I, loc, v, mv)
@km('sptr', 'operator=')
def sp_assign(I, fn, this, args, ret, node):
    v = pval(I, args[0]); pt = I.tu.T(fn['params'][0]['t'])['s']
    old = I.rdleaf(this, '', IntS)
    if isinstance(args[0], Loc) and args[0].same(this): return this
    if hasattr(I.spec, 'on_sptr_release'): I.spec.on_sptr_release(I, this, old)
    I.wrleaf(this, '', IntS, v)
    if isinstance(args[0], Loc) and ('&&' in pt or 'unique_ptr' in I.tu.T(fn['cls'])['n']): I.wrleaf(args[0], '', IntS, I_(0))
    return this
@km('sptr', 'reset')
def sp_reset(I, fn, this, args, ret, node):
    if hasattr(I.spec, 'on_sptr_release'): I.spec.on_sptr_release(I, this, I.rdleaf(this, '', IntS))
    I.wrleaf(this, '', IntS, pval(I, args[0]) if args else I_(0))
@km('sptr', 'release')
def sp_release(I, fn, this, args, ret, node):
    v = I.rdleaf(this, '', IntS); I.wrleaf(this, '', IntS, I_(0)); return v
@km('sptr', 'get')
def sp_get(I, fn, this, args, ret, node): return I.rdleaf(this, '', IntS)
@km('sptr', 'operator->')
def sp_arrow(I, fn, this, args, ret, node): return I.rdleaf(this, '', IntS)
@km('sptr', 'operator*')
def sp_star(I, fn, this, args, ret, node):
    p = I.rdleaf(this, '', IntS); I.ob('pointer not null', p != 0, node); I.fact(p != 0); return Loc('H', (p,), I.tu.deref(fn['ret']))
@km('sptr', 'operator bool')
def sp_bool(I, fn, this, args, ret, node): return I.rdleaf(this, '', IntS) != 0
@km('sptr', 'swap')
def sp_swap(I, fn, this, args, ret, node):
    x, y = I.rdleaf(this, '', IntS), I.rdleaf(args[0], '', IntS); I.wrleaf(this, '', IntS, y); I.wrleaf(args[0], '', IntS, x)
@model('std::make_shared', 'std::make_unique')
def m_make_shared(I, fn, this, args, ret, node):
    t = rett(fn); et = unconst(I, I.tu.T(t)['args'][0]); r = I.tu.rec(et)
    p = I.alloc(I.tu.T(et)['s']); l = Loc('H', (p,), et)
    I.st.px.setdefault('dyn', {})[p.get_id()] = et
    if I.kind(et) == 'rec':
        cs = [f for f in I.tu.fns.values() if f.get('ctor') and I.tu.T(f['cls']).get('rid') == I.tu.T(et).get('rid') and len(f['params']) == len(args) and (not f.get('copyctor') or len(args) == 1)]
        cs = [f for f in cs if not (f.get('copyctor') or f.get('movector'))] or cs
        if len(cs) > 1 and len(args) == 1: cs = [f for f in cs if I.kind(I.tu.deref(f['params'][0]['t'])) == I.kind(args[0].t)] if isinstance(args[0], Loc) else cs
        if not cs and not args: I.default_construct(l, et)
        elif len(cs) != 1: raise Unsupported("constructor for make_shared of " + I.tu.T(et)['s'])
        else:
            a2 = []
            for q, a in zip(cs[0]['params'], args):      # by-value class parameters are built from the forwarded argument
                if I.tu.T(q['t'])['k'] == 'rec':
                    l2 = I.new_local('arg', q['t']); 
                    I.wrleaf(l2, '', IntS, pval(I, a)) if I.kind(q['t']) == 'sptr' else I.copy_leaves(l2, a, q['t']); a = l2
                a2.append(a)
            I.construct_call(cs[0], l, et, a2, node)
    else: I.construct_call(None, l, et, args, node)
    return setret(I, ret, t, _=p)

# ------------------------------------------------------------------ regular expressions
@model('std::regex_match')
def m_rematch(I, fn, this, args, ret, node):
    if len([a for a in args if a is not None]) > 3: raise Unsupported("regex_match with results")
    return REMATCH(sval(I, args[0]), I.rdleaf(args[1], '', StrS))
@model('std::regex_search')
def m_research(I, fn, this, args, ret, node): return RESEARCH(sval(I, args[0]), I.rdleaf(args[1], '', StrS))

# ------------------------------------------------------------------ threads, condition variables
@model('std::condition_variable::wait')
def m_wait(I, fn, this, args, ret, node):
    lk = args[0]; m = I.rdraw(lk.key + '.mtx', (), PYLEAF)
    I.ob('waits with the mutex held', I.rdraw(lk.key + '.owns', (), BoolS), node)
    if hasattr(I.spec, 'on_wait'): I.spec.on_wait(I, this, m, node)
    I.mutex_unlock(m, node); I.mutex_lock(m, node)
    if len(args) > 1: I.fact(truth(I, call_closure(I, args[1], [], node)))
@model('std::condition_variable::notify_all', 'std::condition_variable::notify_one')
def m_notify(I, fn, this, args, ret, node):
    if hasattr(I.spec, 'on_notify'): I.spec.on_notify(I, this, fn['n'], node)
def truth(I, v):
    v = I.val(v); return v if z3.is_bool(v) else v != 0
def call_closure(I, lam, args, node):
    "call of a function object, evaluated without branching the path"
    rid = I.tu.T(lam.t).get('rid')
    fs = [f for f in I.tu.fns.values() if f.get('cls') is not None and I.tu.T(f['cls']).get('rid') == rid and f['n'] == 'operator()' and f.get('body') is not None and len(f['params']) == len(args)]
    if not fs: raise Unsupported("call of a function object")
    n = len(I.trace)
    v = I.call(fs[0], lam, args, None, node)
    v = I.val(v) if isinstance(v, Loc) else v
    return v
def generic_pred(I, C, t, pred, node, lo, hi):
    "truth of the predicate for the element at storage position k, lo <= k < hi: (k, term)"
    k = I.fresh('elem', IntS); n = len(I.trace); hyp = z3.And(k >= lo, k < hi)
    e = Loc(C.key + '.data', C.idx + (k,), elem_t(I, t)); w = set(I.st.wlog)
    pc, fs = list(I.st.pc), set(I.st.facts)
    try:
        I.fact(hyp); np = len(I.st.pc)
        v = truth(I, call_closure(I, pred, [e], node)); new = I.st.pc[np:]
    except PathEnd: v, new = I.fresh('none', BoolS), []        # no such element
    if len(I.trace) != n: raise Unsupported("predicate with branches")
    I.st.pc, I.st.facts = pc, fs; I._newqs()                   # what was learnt holds for elements of the range only
    for f in new: I.fact(z3.Implies(hyp, f))
    return k, v
def rng_parts(I, b, e, node):
    C, i, ck = vit_parts(I, b); C2, j, ck2 = vit_parts(I, e)
    if ck[0] != ck2[0]: raise Unsupported("range over two containers")
    I.ob('range inside the container', z3.And(i >= 0, i <= j, j <= vlen(I, C)), node)
    o = voff(I, C, C.t)
    return C, i, j, o
@model('std::count_if')
def m_countif(I, fn, this, args, ret, node):
    C, i, j, o = rng_parts(I, args[0], args[1], node); k, P = generic_pred(I, C, C.t, args[2], node, simp(i + o), simp(j + o))
    r = I.fresh('count', IntS); I.fact(z3.And(r >= 0, r <= j - i))
    I.st.px.setdefault('countif', []).append(dict(r=r, C=C, lo=simp(i + o), hi=simp(j + o), k=k, P=P, data=dict(I.st.mem)))
    return r
def seq_pred(I, args, node):
    C, i, j, o = rng_parts(I, args[0], args[1], node); lo, hi = simp(i + o), simp(j + o); k, P = generic_pred(I, C, C.t, args[2], node, lo, hi)
    s, so = leaves(I.tu, elem_t(I, C.t))[0]; d = I.rdleaf(C, '.data' + s, z3.ArraySort(IntS, so))
    return C, lo, hi, o, (lambda q: z3.substitute(P, (k, q))), d
@model('std::any_of', 'std::none_of', 'std::all_of')
def m_anyof(I, fn, this, args, ret, node):
    C, lo, hi, o, P, d = seq_pred(I, args, node); n = fn['n']; pos = n != 'all_of'; q = z3.Int('qi'); w = I.fresh('witness', IntS)
    hit = (lambda x: P(x)) if pos else (lambda x: z3.Not(P(x)))
    if I.choose(I.fresh('found', BoolS)): I.fact(z3.And(w >= lo, w < hi, hit(w))); return z3.BoolVal(n == 'any_of')
    I.fact(z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < hi), z3.Not(hit(q))), patterns=[z3.Select(d, q)])); return z3.BoolVal(n != 'any_of')
@model('std::find_if', 'std::find_if_not')
def m_findif(I, fn, this, args, ret, node):
    C, lo, hi, o, P, d = seq_pred(I, args, node); pos = fn['n'] == 'find_if'; q = z3.Int('qi'); w = I.fresh('at', IntS)
    hit = (lambda x: P(x)) if pos else (lambda x: z3.Not(P(x)))
    if I.choose(I.fresh('found', BoolS)): I.fact(z3.And(w >= lo, w < hi, hit(w)))
    else: w = hi
    I.fact(z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < w), z3.Not(hit(q))), patterns=[z3.Select(d, q)]))
    return mk_vit(I, ret, rett(fn), C, simp(w - o))
@model('std::find')
def m_find(I, fn, this, args, ret, node):
    C, i, j, o = rng_parts(I, args[0], args[1], node); lo, hi = simp(i + o), simp(j + o); L = leaves(I.tu, elem_t(I, C.t)); q = z3.Int('qi')
    if len(L) != 1: raise Unsupported("std::find of an object")
    s, so = L[0]; d = I.rdleaf(C, '.data' + s, z3.ArraySort(IntS, so)); v = args[2]
    v = sval(I, v) if so == StrS else I.val(v)
    if v.sort() != so: raise Unsupported("std::find of " + str(v.sort()))
    w = I.fresh('at', IntS)
    if I.choose(I.fresh('found', BoolS)): I.fact(z3.And(w >= lo, w < hi, z3.Select(d, w) == v))
    else: w = hi
    I.fact(z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < w), z3.Select(d, q) != v), patterns=[z3.Select(d, q)]))
    return mk_vit(I, ret, rett(fn), C, simp(w - o))
@model('std::for_each')
def m_foreach(I, fn, this, args, ret, node):
    C, i, j, o = rng_parts(I, args[0], args[1], node); it = I.new_local('it', args[0].t); mk_vit(I, it, args[0].t, C, i); f = args[2]
    s = node.setdefault('_loop', dict(k='ForStmt', l=node.get('l', '')))
    def turn():
        n = I.f(it, '.i'); I.ob('dereferenced container iterator is valid', z3.And(n >= 0, n < vlen(I, C)), node)
        if hasattr(I.spec, 'on_vec_read'): I.spec.on_vec_read(I, C, n)
        call_closure(I, f, [Loc(C.key + '.data', C.idx + (simp(n + o),), elem_t(I, C.t))], node)
    I.loop(s, lambda: I.f(it, '.i') != j, dict(k='PyStmt', py=turn, l=s['l']), dict(k='PyStmt', py=lambda: I.wrraw(it.key + '.i', (), IntS, simp(I.f(it, '.i') + 1)), l=s['l']))
    if ret is not None: I.copy_leaves(ret, f, rett(fn))
    return ret if ret is not None else f
def call_pred_const(I, d, k2): return z3.substitute(d['P'], (d['k'], k2))
@model('std::remove_if')
def m_removeif(I, fn, this, args, ret, node):
    C, i, j, o = rng_parts(I, args[0], args[1], node)
    lo, hi = simp(i + o), simp(j + o)
    k, P = generic_pred(I, C, C.t, args[2], node, lo, hi)
    n = I.fresh('kept', IntS); I.fact(z3.And(n >= 0, n <= hi - lo))
    c = I.fresh_name('filter'); src = F('src_' + c, IntS, IntS); rank = F('rank_' + c, IntS, IntS)
    q = z3.Int('qi'); q2 = z3.Int('qj')
    first = None
    for s, so in leaves(I.tu, elem_t(I, C.t)):
        A = z3.ArraySort(IntS, so); old = I.rdleaf(C, '.data' + s, A); I.havoc_leaf(C, '.data' + s, A); new = I.rdleaf(C, '.data' + s, A)
        I.fact(z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < lo + n), z3.Select(new, q) == z3.Select(old, src(q))), patterns=[z3.Select(new, q)]))
        I.fact(z3.ForAll([q], z3.Implies(z3.Or(q < lo, q >= hi), z3.Select(new, q) == z3.Select(old, q)), patterns=[z3.Select(new, q)]))
        keep = z3.Not(z3.substitute(P, (k, q)))
        I.fact(z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < hi, keep), z3.And(rank(q) >= lo, rank(q) < lo + n, src(rank(q)) == q)), patterns=[z3.Select(old, q)]))
        I.fact(z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < lo + n), z3.And(src(q) >= lo, src(q) < hi, rank(src(q)) == q, z3.Not(z3.substitute(P, (k, src(q)))))), patterns=[z3.Select(new, q)]))
    I.fact(z3.ForAll([q, q2], z3.Implies(z3.And(q >= lo, q < q2, q2 < lo + n), src(q) < src(q2)), patterns=[z3.MultiPattern(src(q), src(q2))]))
    I.st.px.setdefault('filters', []).append(dict(C=C, src=src, rank=rank, lo=lo, hi=hi, n=n))
    return mk_vit(I, ret, rett(fn), C, simp(i + n))
@km('vec', 'erase')
def v_erase(I, fn, this, args, ret, node):
    C, i, ck = vit_parts(I, args[0]); t = fn['cls']; n = vlen(I, this); o = voff(I, this, t)
    if C.key != this.key: raise Unsupported("erase with an iterator of another container")
    if len(args) == 2: C2, j, _ = vit_parts(I, args[1])
    else: j = simp(i + 1)
    I.ob('erased range inside the container', z3.And(i >= 0, i <= j, j <= n), node); I.fact(z3.And(i >= 0, i <= j, j <= n))
    d = simp(j - i); q = z3.Int('qi'); I.st.px['erased'] = I.st.px.get('erased', []) + [(this.key, i, d)]
    if not I.valid(j == n):
        for s, so in leaves(I.tu, elem_t(I, t)):
            A = z3.ArraySort(IntS, so); old = I.rdleaf(this, '.data' + s, A); I.havoc_leaf(this, '.data' + s, A); new = I.rdleaf(this, '.data' + s, A)
            I.fact(z3.ForAll([q], z3.Select(new, q) == z3.If(q < i + o, z3.Select(old, q), z3.Select(old, q + d)), patterns=[z3.Select(new, q)]))
    I.setf(this, '.len', simp(n - d))
    return mk_vit(I, ret, rett(fn), C, i)
@ctor('bins')
def c_bins(I, fn, loc, t, args, node): I.copy_leaves(loc, args[0], t)
@model('std::back_inserter')
def m_binserter(I, fn, this, args, ret, node):
    l = ret if ret is not None else I.new_local('bi', rett(fn)); I.wrraw(l.key + '.mtx', (), PYLEAF, args[0]); return l
def append_range(I, D, t, C, lo, n):
    "appends n elements of C starting at storage position lo"
    q = z3.Int('qi'); ln = vlen(I, D); o = voff(I, D, t); at = simp(ln + o)
    stdmodel.v_grow(I, D, t, ln + n)
    for s, so in leaves(I.tu, elem_t(I, t)):
        A = z3.ArraySort(IntS, so); old = I.rdleaf(D, '.data' + s, A); srcd = I.rdleaf(C, '.data' + s, A); I.havoc_leaf(D, '.data' + s, A); new = I.rdleaf(D, '.data' + s, A)
        I.fact(z3.ForAll([q], z3.Implies(q < at, z3.Select(new, q) == z3.Select(old, q)), patterns=[z3.Select(new, q)]))
        I.fact(z3.ForAll([q], z3.Implies(q < at, z3.Select(new, q) == z3.Select(old, q)), patterns=[z3.Select(old, q)]))
        I.fact(z3.ForAll([q], z3.Implies(z3.And(q >= at, q < at + n), z3.Select(new, q) == z3.Select(srcd, q - at + lo)), patterns=[z3.Select(new, q)]))
    I.setf(D, '.len', simp(ln + n))
@model('std::copy')
def m_copy(I, fn, this, args, ret, node):
    C, i, j, o = rng_parts(I, args[0], args[1], node)
    if I.kind(args[2].t) != 'bins': raise Unsupported("copy onto an iterator")
    D = I.rdraw(args[2].key + '.mtx', (), PYLEAF)
    if hasattr(I.spec, 'touch'): I.spec.touch(I, D.key, node); I.spec.touch(I, C.key, node)
    if D.same(C): raise Unsupported("copy of a container onto itself")
    append_range(I, D, D.t, C, simp(i + o), simp(j - i))
    return args[2]
@km('vec', 'insert')
def v_insert(I, fn, this, args, ret, node):
    C, i, ck = vit_parts(I, args[0])
    if C.key != this.key: raise Unsupported("insertion with an iterator of another container")
    if len(args) == 2 and not (isinstance(args[1], Loc) and I.kind(args[1].t) == 'vit'):
        n = vlen(I, this)
        if I.valid(i == n): stdmodel.v_push(I, dict(fn, params=fn['params'][1:]), this, args[1:], None, node); return mk_vit(I, ret, rett(fn), C, i)
        if hasattr(I.spec, 'on_vec_push') and not I.spec.vec_insert_ok(I, this): raise Unsupported("insertion not at the end")
        t = fn['cls']; et = elem_t(I, t); o = voff(I, this, t); q = z3.Int('qi')
        I.ob('insertion inside the container', z3.And(i >= 0, i <= n), node); I.fact(z3.And(i >= 0, i <= n))
        tmp = I.new_local('elem', et); stdmodel.build_elem(I, tmp, et, args[1:], dict(fn, params=fn['params'][1:]), node); stdmodel.v_grow(I, this, t, n + 1)
        for s, so in leaves(I.tu, et):
            A = z3.ArraySort(IntS, so); old = I.rdleaf(this, '.data' + s, A); x = I.rdleaf(tmp, s, so); I.havoc_leaf(this, '.data' + s, A); new = I.rdleaf(this, '.data' + s, A)
            I.fact(z3.ForAll([q], z3.Select(new, q) == z3.If(q < i + o, z3.Select(old, q), z3.If(q == i + o, x, z3.Select(old, q - 1))), patterns=[z3.Select(new, q)]))
        I.setf(this, '.len', simp(n + 1)); return mk_vit(I, ret, rett(fn), C, i)
    if not I.valid(i == vlen(I, this)): raise Unsupported("insertion not at the end")
    if len(args) == 3 and all(isinstance(a, Loc) and I.kind(a.t) == 'vit' for a in args[1:]):
        S_, a, b, o = rng_parts(I, args[1], args[2], node)
        append_range(I, this, fn['cls'], S_, simp(a + o), simp(b - a)); return mk_vit(I, ret, rett(fn), C, i)
    raise Unsupported("vector insert")
@km('vec', 'operator=')
def v_opassign(I, fn, this, args, ret, node):
    I.copy_leaves(this, args[0], fn['cls'])
    if fn.get('moveassign') : I.setf(args[0], '.len', I_(0))
    return this

# ------------------------------------------------------------------ clocks
@model('std::chrono::system_clock::now', 'std::chrono::time_point::time_since_epoch')
def m_now(I, fn, this, args, ret, node): return ret if ret is not None else I.new_local('now', rett(fn))
@model('std::chrono::system_clock::to_time_t')
def m_tott(I, fn, this, args, ret, node):
    v = I.fresh('now', IntS); I.fact(z3.And(v >= 0, v < (1 << 40))); I.st.px['now'] = v; return v
@ctor('timeval')
def c_timeval(I, fn, loc, t, args, node):
    if args and isinstance(args[0], Loc): I.copy_leaves(loc, args[0], t)
    else: I.havoc(loc, t)
@ctor('tm')
def c_tm(I, fn, loc, t, args, node):
    if args: I.copy_leaves(loc, args[0], t)
TMF = {n: F('local_' + n, IntS, IntS) for n in ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday', 'tm_yday', 'tm_isdst')}
TMR = {'tm_sec': (0, 60), 'tm_min': (0, 59), 'tm_hour': (0, 23), 'tm_mday': (1, 31), 'tm_mon': (0, 11), 'tm_year': (70, 40000), 'tm_wday': (0, 6), 'tm_yday': (0, 365), 'tm_isdst': (-1, 1)}
def fill_tm(I, l, v, pre=''):
    for n, f in TMF.items():
        x = (f if not pre else F(pre + n, IntS, IntS))(v); lo, hi = TMR[n]; I.fact(z3.And(x >= lo, x <= hi)); I.wrleaf(l, '.tm::' + n, IntS, x)
@model('localtime')
def m_localtime(I, fn, this, args, ret, node):
    p = args[0]; v = I.load(I.deref(p, I.tu.T(fn['params'][0]['t'])['to'], node))
    l = Loc('$tmbuf', (), unconst(I, I.tu.T(fn['ret'])['to'])); fill_tm(I, l, v); return PyPtr(l)
@model('gmtime')
def m_gmtime(I, fn, this, args, ret, node):
    p = args[0]; v = I.load(I.deref(p, I.tu.T(fn['params'][0]['t'])['to'], node))
    l = Loc('$tmbuf', (), unconst(I, I.tu.T(fn['ret'])['to'])); fill_tm(I, l, v, 'utc_'); return PyPtr(l)
@model('time')
def m_time(I, fn, this, args, ret, node):
    v = I.fresh('now', IntS); I.fact(z3.And(v >= 0, v < (1 << 40))); I.st.px['now'] = v
    p = args[0]
    if not is_null(I.val(p)): I.store(I.deref(p, I.tu.T(fn['params'][0]['t'])['to'], node), v)
    return v
@model('localtime_r', 'gmtime_r')
def m_localtime_r(I, fn, this, args, ret, node):
    v = I.load(I.deref(args[0], I.tu.T(fn['params'][0]['t'])['to'], node)); l = I.deref(args[1], I.tu.T(fn['params'][1]['t'])['to'], node)
    fill_tm(I, l, v, '' if fn['n'] == 'localtime_r' else 'utc_'); return args[1]

# ------------------------------------------------------------------ numbers of the boost library, character arrays
BIGZERO = z3.Const('big_zero', BigS)
BIGNUL = F('big_is_zero', BigS, BoolS); BIGINT = F('big_to_integer', BigS, IntS, IntS); BIGSTR = F('big_text', BigS, IntS, IntS, StrS)
STRTOLL = F('strtoll', StrS, IntS, IntS)
def big(I, l): return I.rdleaf(l, '.big', BigS)
@ctor('big')
def c_big(I, fn, loc, t, args, node):
    a = [x for x in args if x is not None]
    if not a: v = BIGZERO
    elif isinstance(a[0], Loc) and a[0].t is not None and I.kind(a[0].t) == 'big': v = big(I, a[0])
    else: raise Unsupported("construction of a big number")
    I.wrleaf(loc, '.big', BigS, v)
    if fn and fn.get('movector'): I.havoc_leaf(a[0], '.big', BigS)
@km('big', 'operator=')
def big_assign(I, fn, this, args, ret, node):
    if not (isinstance(args[0], Loc) and I.kind(args[0].t) == 'big'): raise Unsupported("assignment to a big number")
    v = big(I, args[0])
    if fn.get('moveassign') and not args[0].same(this): I.havoc_leaf(args[0], '.big', BigS)
    I.wrleaf(this, '.big', BigS, v); return this
@km('big', 'is_zero')
def big_is_zero(I, fn, this, args, ret, node): return BIGNUL(big(I, this))
@km('big', 'convert_to')
def big_convert(I, fn, this, args, ret, node):
    T = I.tu.T(rett(fn))
    if T['k'] != 'int': raise Unsupported("conversion of a big number to " + T['s'])
    v = BIGINT(big(I, this), I_(T['w'] if T.get('sg') else -T['w'])); I.rng(v, rett(fn)); return v
@km('big', 'str')
def big_str(I, fn, this, args, ret, node):
    a = [I.val(x) for x in args if x is not None]
    return setret(I, ret, rett(fn), _=BIGSTR(big(I, this), a[0] if a else I_(0), a[1] if len(a) > 1 else I_(0)))
_put = put
def put_big(I, fn, this, args, ret, node):
    out_text(I, args[0], BIGSTR(big(I, args[1]), I.f(args[0], '.prec'), simp(I.f(args[0], '.fmt'))), node); return args[0]
_bk2 = stdmodel.by_kind
def by_kind3(I, fn, q, this, args):
    if fn['n'] == 'operator<<' and this is None and len(fn.get('params', [])) == 2 and I.kind(I.tu.deref(fn['params'][1]['t'])) == 'big': return put_big
    return _bk2(I, fn, q, this, args)
stdmodel.by_kind = by_kind3
@model('strtoll', 'strtol', 'atoll', 'atol', 'std::strtoll', 'std::strtol', 'std::atoll', 'std::atol')
def m_strtoll(I, fn, this, args, ret, node):
    if len(args) > 1 and not is_null(I.val(args[1])): raise Unsupported("strtoll with an end pointer")
    v = STRTOLL(cstr_val(I.val(args[0])), I.val(args[2]) if len(args) > 2 else I_(10)); I.rng(v, rett(fn)); return v
def char_copy(I, src, n, dst, node):
    "n characters from a text to a heap array"
    if not isinstance(dst, PyPtr) or not dst.loc.key.startswith('HA<'): raise Unsupported("copy to this destination")
    if isinstance(src, PyPtr) and src.loc.key.startswith('HA<'): I.array_bounds(src.loc, n, node)
    elif isinstance(src, CStr): I.ob('characters read inside the text', z3.And(n >= 0, src.off + n <= z3.Length(src.s) + 1), node)
    else: raise Unsupported("copy of this source")
    I.array_bounds(dst.loc, n, node)
    k = dst.loc.key; I.wrraw(k, dst.loc.idx[:1], z3.ArraySort(IntS, IntS), I.fresh('chars', z3.ArraySort(IntS, IntS)))
@km('str', 'begin', 'cbegin')
def s_begin(I, fn, this, args, ret, node): return mk_vit(I, ret, rett(fn), Loc(this.key, this.idx, unconst(I, fn['cls'])), I_(0))
@km('str', 'end', 'cend')
def s_end(I, fn, this, args, ret, node): L = Loc(this.key, this.idx, unconst(I, fn['cls'])); return mk_vit(I, ret, rett(fn), L, vlen(I, L))
def str_it(I, x):
    "a string iterator as a text with a position"
    if isinstance(x, Loc) and I.kind(x.t) == 'vit':
        C, i, ck = vit_parts(I, x)
        if C.t is not None and I.kind(C.t) == 'str': return CStr(I.rdleaf(C, '', StrS), simp(i))
    return x
@model('std::next', 'std::prev', 'std::advance')
def m_advance(I, fn, this, args, ret, node):
    "moves by a number of steps; list and map iterators by a constant number"
    k = I.val(args[1]) if len(args) > 1 else I_(1)
    if fn['n'] == 'prev': k = simp(-k)
    it = args[0]
    if not isinstance(it, Loc) or I.kind(it.t) not in ('vit', 'lit', 'mit'): raise Unsupported("std::" + fn['n'] + " of this iterator")
    if fn['n'] == 'advance': l = it
    else:
        l = ret if ret is not None else I.new_local('it', rett(fn)); I.copy_leaves(l, it, rett(fn))
    kd = I.kind(it.t)
    if kd == 'vit':
        C, i, ck = vit_parts(I, l); n = simp(i + k); I.ob('container iterator stays inside', z3.And(n >= -1, n <= vlen(I, C)), node); I.wrraw(l.key + '.i', (), IntS, n)
    else:
        k = simp(k)
        if not is_num(k) or abs(k.as_long()) > 8: raise Unsupported("std::" + fn['n'] + " by a number that is not a small constant")
        f = dict(n='operator++' if k.as_long() > 0 else 'operator--', params=[], ret=fn['ret'], cls=it.t, qn='step')
        for _ in range(abs(k.as_long())): KIND[(kd, f['n'])](I, f, l, [], None, node)
    return l if fn['n'] != 'advance' else None
_copy0 = MODELS['std::copy']
@model('std::copy', 'std::copy_n')
def m_copy2(I, fn, this, args, ret, node):
    a = [I.val(x) if not isinstance(x, Loc) or x.t is not None and I.tu.T(x.t)['k'] in ('ptr', 'int') else x for x in args]
    if isinstance(a[2], PyPtr):
        a = [str_it(I, y) for y in a]
        if fn['n'] == 'copy_n': n = a[1]
        elif isinstance(a[0], CStr) and isinstance(a[1], CStr) and a[0].s.eq(a[1].s): n = simp(a[1].off - a[0].off)
        elif isinstance(a[0], PyPtr) and isinstance(a[1], PyPtr) and a[0].loc.idx[:-1] == a[1].loc.idx[:-1]: n = simp(a[1].loc.idx[-1] - a[0].loc.idx[-1])
        else: raise Unsupported("copy of this range")
        char_copy(I, a[0], n, a[2], node); return I.ptr_add(a[2], n)
    if fn['n'] == 'copy_n': raise Unsupported("copy_n")
    return _copy0(I, fn, this, args, ret, node)
@model('memcpy', 'memmove', 'std::memcpy', 'std::memmove', 'strcpy', 'std::strcpy')
def m_memcpy(I, fn, this, args, ret, node):
    d, s = I.val(args[0]), I.val(args[1])
    n = I.val(args[2]) if len(args) > 2 else simp(z3.Length(cstr_val(s)) + 1)
    char_copy(I, s, n, d, node); return d
