"""Assumed contracts of the C++ standard library entities the code under verification uses."""
import re
import z3
import terms as T
from terms import *
import values as VV
from values import *
import interp as IN

USED = set()
def use(n): USED.add(n)

def val(it, v):
    return it.read(it.resolve(v)) if isinstance(v, LV) else v
def seq(v):
    v = IN.seq_of_str(v) if isscalar(v) else v
    if isinstance(v, SetV): v = v.seq
    return v

def size_of(it, v):
    if isinstance(v, SeqV): return v.n
    if isinstance(v, SetV): return v.seq.n
    if isinstance(v, MapV): return v.keys.seq.n
    if isscalar(v): return slen(v)
    raise Unsupported('size of ' + type(v).__name__)

def tolv(it, obj):
    return obj if isinstance(obj, LV) else it.alloc(obj)

# ------------------------------------------------------------------ constructors
def construct(it, e, t):
    args = [a for a in e.get('inner', []) if a['kind'] != 'CXXDefaultArgExpr']
    k = t[0]
    if k == 'vec':
        use('std::vector constructor')
        if not args: return SeqV.items([], t[1])
        a0 = it.ev(args[0])
        v0 = val(it, a0)
        if e.get('initializer_list') or e.get('list') and isinstance(v0, SeqV) and len(args) == 1: return retype(v0, t[1])
        if isinstance(v0, SeqV) and len(args) == 1: return retype(v0, t[1])
        if isinstance(v0, PtrV) and len(args) >= 2:
            p1 = val(it, it.ev(args[1]))
            return slice_(it, v0, p1, t[1])
        if isinstance(v0, StructV):   # conversion operator applied by an enclosing cast
            raise Unsupported('vector from object')
        n = it.use(v0, 'size')
        et = t[1]
        if len(args) >= 2:
            x = val(it, it.ev(args[1]))
            x = conv(x, et)
        else: x = None
        if x is None:
            if conc(n) and n <= 4096: return SeqV.items([default_like(et) for _ in range(n)], et)
            d = default_like(et)
            return SeqV.fn(n, lambda i: d, et)
        if conc(n) and n <= 4096: return SeqV.items([x] * n, et)
        return SeqV.fn(n, lambda i: x, et)
    if k == 'str':
        use('std::string constructor')
        if not args: return ''
        vs = [val(it, it.ev(a)) for a in args]
        v = vs[0]
        if isscalar(v) and is_str(v) and len(vs) == 1: return v
        if isinstance(v, PtrV) and len(vs) == 1: return cstr(it, v)
        if isinstance(v, SeqV): return v
        if isinstance(v, PtrV) and len(vs) == 2 and isinstance(vs[1], PtrV): return slice_(it, v, vs[1], ('int', 8, True))
        if len(vs) == 2 and isscalar(v) and not is_str(v):
            if conc(v) and conc(vs[1]): return chr(vs[1]) * v
            return SeqV.fn(v, lambda i: vs[1], ('int', 8, True))
        raise Unsupported('string constructor')
    if k in ('sptr', 'ptr', 'iter'):
        if not args: return NULL
        return val(it, it.ev(args[0]))
    if k == 'arr':
        if not args: return default_like(t)
        return val(it, it.ev(args[0]))
    if k == 'set':
        if not args: return empty_set(t[1])
        v = val(it, it.ev(args[0]))
        if isinstance(v, SetV): return v
        if isinstance(v, PtrV) and len(args) >= 2:
            p1 = val(it, it.ev(args[1])); src = slice_(it, v, p1, t[1])
            if not conc(src.n): return set_range(t[1], src, 0, src.n)
            v = src
        if isinstance(v, SeqV) and conc(v.n):
            if all(conc(v.get(i)) for i in range(v.n)): return set_from(v, t[1])
            return set_by(t[1], lambda x: Or(*[veq(v.get(i), x) for i in range(v.n)]))
        raise Unsupported('set constructor')
    if k == 'map':
        if not args: return default_like(t)
        v = val(it, it.ev(args[0]))
        if isinstance(v, MapV): return v
        raise Unsupported('map constructor')
    if k == 'tup':
        if not args: return default_like(t)
        if len(args) == 1:
            v = val(it, it.ev(args[0]))
            if isinstance(v, TupV): return v
        return TupV([conv(val(it, it.ev(a)), x) for a, x in zip(args, t[1:])])
    if k == 'fun':
        if not args: return NULL
        return val(it, it.ev(args[0]))
    if k == 'stream': return make_stream(it, e, t, args)
    if k == 'isit':
        use('std::istream_iterator')
        if not args: return TupV(['isit', None])
        return TupV(['isit', RefV(it.lv(args[0]))])
    if k in ('int', 'bool', 'fp'):
        if not args: return default_like(t)
        return conv(val(it, it.ev(args[0])), t)
    if k == 'unk':
        import re as _re
        m = _re.match(r'(?:std::)?(multiplies|plus|minus)<', t[1])
        if m and not args: return TupV(['functor', {'multiplies': '*', 'plus': '+', 'minus': '-'}[m.group(1)]])
    if k == 'unk' and 'fpos' in t[1] and len(args) == 1: return it.use(val(it, it.ev(args[0])))
    if k == 'unk' and args and len(args) == 1 and 'regex' not in t[1]:
        v = val(it, it.ev(args[0]))
        if isinstance(v, (FuncV, PtrV, TupV, SeqV)) or isinstance(v, StructV) and v.t == 'std::mt19937_64' and 'mersenne_twister' in t[1]: return v
    if k == 'unk' and 'regex' in t[1] or k == 'unk' and 'basic_regex' in t[1]:
        s = val(it, it.ev(args[0]))
        if isinstance(s, PtrV): s = cstr(it, s)
        return TupV(['regex', s])
    raise Unsupported('constructor of %s' % (t,))

def is_str(v): return isinstance(v, str) or (is_z(v) and v.sort() == S)
def retype(v, et):
    return SeqV(v.n, v.kind, v.a, et)
def conv(x, t):
    if t[0] == 'fp' and isinstance(x, (int, bool)) and not isinstance(x, Fraction): return Fraction(int(x))
    if t[0] == 'fp' and is_z(x) and x.sort() == I: return i2f(x)
    if t[0] == 'int' and isinstance(x, bool): return int(x)
    return x
def cstr(it, p):
    v = it.read(p.lv)
    if isscalar(v):
        if conc(p.idx) and p.idx == 0: return v
        return ssub(v, p.idx, sub(slen(v), p.idx))
    raise Unsupported('c string')
def slice_(it, a, b, et):
    """copy of the range [a,b)"""
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.lv is None and b.lv is None: return SeqV.items([], et)
        if a.lv is None or b.lv is None or not a.lv.same(b.lv): raise Unsupported('range over different objects')
        s = seq(it.read(a.lv)); n = sub(b.idx, a.idx)
        it.safe('valid range', And(le(0, a.idx), le(a.idx, b.idx), le(b.idx, s.n)))
        if conc(n) and (n <= 64 or s.kind == "items" and n <= 4096): return SeqV.items([s.get(add(a.idx, i)) for i in range(n)], et)
        if conc(a.idx) and a.idx == 0: return SeqV(n, s.kind, s.a, et)
        i0 = a.idx
        return SeqV.fn(n, lambda i: s.get(add(i0, i)), et)
    raise Unsupported('range')
def set_from(v, et):
    xs = []
    for i in range(v.n):
        x = v.get(i)
        if is_z(x): raise Unsupported('set of symbolic elements')
        if x not in xs: xs.append(x)
    xs.sort()
    return SetV(SeqV.items(xs, et), lambda y: Or(*[veq(y, x) for x in xs]))

# ------------------------------------------------------------------ free functions
MATH = {'exp', 'log', 'tanh', 'sqrt', 'pow', 'sin', 'cos'}
def function(it, name, args, call, ev):
    if 'ext:' + name in it.models:
        use('external ' + name); return it.models['ext:' + name](it, None, [it.ev(a) for a in args], call)
    use('std::' + name)
    V = lambda i: val(it, it.ev(args[i]))
    if name in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof'):
        v = it.ev(args[0])
        return PtrV(v) if name == 'addressof' else v
    if name == 'get' and len(args) == 1:
        m = re.search(r'tuple_element(?:_t)?<(\d+)', str(call.get('type', {}).get('qualType', '')))
        if m is None: raise Unsupported('std::get')
        v = it.ev(args[0]); k = int(m.group(1))
        if isinstance(v, LV):
            v = it.resolve(v); return LV(v.loc, v.path + (('t', k),))
        return v.xs[k]
    if name in ('min', 'max') and len(args) == 2:
        a, b = V(0), V(1); a, b = it.use(a), it.use(b)
        fp = T.is_z(a) and a.sort() == R or T.is_z(b) and b.sort() == R or isinstance(a, Fraction) or isinstance(b, Fraction)
        if not fp and (is_z(a) or is_z(b)):
            hi, lo = (b, a) if name == 'max' else (a, b)
            if it.known(le(lo, hi)): return b
            if it.known(le(hi, lo)): return a
        l = flt if fp else lt
        return ite(l(b, a), b, a) if name == 'min' else ite(l(a, b), b, a)
    if name in MATH:
        xs = [conv(it.use(V(i)), ('fp',)) for i in range(len(args))]
        if name == 'exp' and conc(xs[0]) and xs[0] == 0: return Fraction(1)
        return ufun(name, *xs)
    if name in ('abs', 'fabs'):
        x = it.use(V(0))
        if conc(x): return abs(x)
        if x.sort() == R: return z3.If(x < 0, fneg(x), x)
        return z3.If(x < 0, -x, x)
    if name == 'isnan': return False
    if name in ('floor', 'ceil', 'round'):
        x = it.use(V(0))
        if conc(x):
            import math
            return Fraction({'floor': math.floor, 'ceil': math.ceil, 'round': lambda y: int(math.floor(y + Fraction(1, 2)))}[name](x))
        if name == 'floor': return z3.ToReal(z3.ToInt(x))
        if name == 'ceil': return -z3.ToReal(z3.ToInt(-x))
        raise Unsupported('round')
    if name in ('fill',):
        a, b, x = V(0), V(1), V(2)
        return fill(it, a, sub(b.idx, a.idx) if a.lv is not None else 0, x, b)
    if name == 'fill_n':
        a, n, x = V(0), V(1), V(2)
        fill(it, a, n, x); return PtrV(a.lv, add(a.idx, n))
    if name in ('copy', 'copy_n', 'move_backward'):
        if name == 'copy': a, b, d = V(0), V(1), V(2); n = sub(b.idx, a.idx) if a.lv is not None else 0
        else: a, n, d = V(0), V(1), V(2)
        return copy_(it, a, n, d)
    if name == 'memcpy' or name == '__builtin_memcpy': raise Unsupported('memcpy')
    if name == 'iota':
        a, b, x = V(0), V(1), V(2)
        n = sub(b.idx, a.idx); i0 = a.idx
        s = it.read(a.lv)
        it.safe('valid range', And(le(0, a.idx), le(b.idx, s.n)))
        if conc(n) and conc(i0) and s.kind == 'items':
            for k in range(n): s = s.set(i0 + k, add(x, k))
            it.write(a.lv, s)
        else: it.write(a.lv, s.rng(i0, b.idx, lambda J: add(x, sub(J, i0))))
        return None
    if name in ('distance',):
        a, b = V(0), V(1)
        if isinstance(a, TupV) and a.xs[0] == 'isit': return isit_count(it, a)
        return sub(b.idx, a.idx)
    if name in ('next', 'prev'):
        a = V(0); n = V(1) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else 1
        return PtrV(a.lv, add(a.idx, n) if name == 'next' else sub(a.idx, n))
    if name == 'advance':
        lv = it.lv(args[0]); a = it.read(lv); it.write(lv, PtrV(a.lv, add(a.idx, V(1)))); return None
    if name in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty', 'data') and len(args) == 1:
        return method(it, it.lv(args[0]), name, [], call, args[0])
    if name in ('max_element', 'min_element'):
        return extremum(it, V(0), V(1), name, V(2) if len(args) > 2 else None)
    if name == 'accumulate':
        a, b, x = V(0), V(1), V(2)
        f = V(3) if len(args) > 3 else None
        rt = it.ty(call)
        s = it.read(a.lv); i0 = a.idx; n = sub(b.idx, a.idx)
        it.safe('valid range', And(le(0, a.idx), le(a.idx, b.idx), le(b.idx, s.n)))
        def stp(acc, e):
            if f is None: return it.arith('+', acc, conv(e, rt), rt)
            if isinstance(f, TupV) and f.xs[0] == 'functor': return it.arith(f.xs[1], acc, e, rt)
            raise Unsupported('accumulate functor')
        if conc(n):
            acc = conv(x, rt)
            for k in range(n): acc = stp(acc, it.use(s.get(add(i0, k))))
            return acc
        return mk_fold([conv(x, rt)], lambda accs, k: [stp(accs[0], s.get(add(i0, k)))], n)[0]
    if name in ('find', 'count', 'count_if', 'find_if', 'all_of', 'any_of', 'none_of', 'for_each', 'transform', 'sort', 'reverse', 'shuffle', 'swap', 'equal', 'unique', 'inner_product', 'generate'):
        return algo(it, name, args, call)
    if name == 'to_string':
        x = V(0)
        if conc(x) and not isinstance(x, Fraction): return str(int(x))
        return z3.Function('tostr', term(x).sort(), S)(term(x))
    if name in ('make_tuple', 'make_pair', 'tie'):
        return TupV([V(i) for i in range(len(args))])
    if name == 'get':
        v = it.ev(args[0])
        # index: from the referenced declaration's type is not available; use the template argument text
        raise Unsupported('std::get')
    if name == 'getline': return getline(it, args)
    if name == 'make_shared': return make_shared(it, args, call)
    if name in ('dynamic_pointer_cast', 'static_pointer_cast'):
        p = V(0); t = it.ty(call)
        if isinstance(p, PtrV) and p.lv is not None and t[0] == 'sptr' and t[1][0] == 'rec':
            o = it.read(p.lv)
            if name == 'static_pointer_cast' or it.ast.derives(o.t, t[1][1]): return p
            return NULL
        return p
    if name == 'regex_match': return regex_match(it, args)
    if name in ('isdigit', 'isspace', 'isalpha', 'tolower', 'toupper'):
        x = V(0)
        if name == 'isdigit': return And(le(48, x), le(x, 57))
        if name == 'isspace': return Or(veq(x, 32), And(le(9, x), le(x, 13)))
    if name in ('stoul', 'stoull', 'stoi', 'stol', 'stod'): raise Unsupported(name)
    if name in ('endl', 'flush'): return 'endl'
    if name in ('min', 'max') and len(args) <= 1:
        if not args:      # numeric_limits<T>::min/max
            return limit(it, name, call)
        v = V(0)
        if isinstance(v, SeqV) and conc(v.n):
            r = v.get(0)
            for i in range(1, v.n):
                x = v.get(i); fp = is_z(x) and x.sort() == R or isinstance(x, Fraction)
                l = flt if fp else lt
                r = ite(l(x, r), x, r) if name == 'min' else ite(l(r, x), x, r)
            return r
    if name in ('lowest', 'infinity', 'epsilon'): return limit(it, name, call)
    if name == '__builtin_expect': return V(0)
    if name in ('assert', '__assert_fail', '__builtin_unreachable', 'abort', 'terminate'):
        it.safe('call of ' + name, False); raise IN.Infeasible()
    raise Unsupported('std function ' + name)

def limit(it, name, call):
    t = it.ty(call)
    if t[0] == 'int':
        lo, hi = IN.irange(t)
        return hi if name == 'max' else lo
    if t[0] == 'fp':
        import sys
        m = Fraction(sys.float_info.max)
        return {'max': m, 'lowest': -m, 'min': Fraction(sys.float_info.min), 'epsilon': Fraction(sys.float_info.epsilon)}.get(name) or _inf()
    raise Unsupported('numeric limit')
def _inf(): raise Unsupported('infinity')

def fill(it, a, n, x, b=None):
    if a.lv is None: return None
    s = seq(it.read(a.lv))
    hi = add(a.idx, n)
    it.safe('valid range', And(le(0, a.idx), le(a.idx, hi), le(hi, s.n)))
    x = conv(x, s.et)
    if conc(n) and conc(a.idx) and s.kind == 'items':
        for k in range(n): s = s.set(a.idx + k, x)
        it.write(a.lv, s)
    else: it.write(a.lv, s.rng(a.idx, hi, lambda J: x))
    return None
def copy_(it, a, n, d):
    if isinstance(d, TupV): raise Unsupported('output iterator')
    if a.lv is None or d.lv is None:
        if conc(n) and n == 0: return d
        raise Unsupported('copy from null')
    s = seq(it.read(a.lv)); ds = seq(it.read(d.lv))
    it.safe('valid range', And(le(0, a.idx), le(0, n), le(add(a.idx, n), s.n)))
    it.safe('destination range', And(le(0, d.idx), le(add(d.idx, n), ds.n)))
    if a.lv.same(d.lv):
        if not it.known(Or(le(add(a.idx, n), d.idx), le(d.idx, a.idx))): raise Unsupported('overlapping copy')
    i0, d0 = a.idx, d.idx
    if conc(n) and conc(d0) and ds.kind == 'items':
        for k in range(n): ds = ds.set(d0 + k, s.get(add(i0, k)))
        it.write(d.lv, ds)
    else:
        it.write(d.lv, ds.rng(d0, add(d0, n), lambda J: s.get(add(i0, sub(J, d0)))))
    return PtrV(d.lv, add(d0, n))

def extremum(it, a, b, name, cmp):
    if cmp is not None: raise Unsupported('comparator')
    s = it.read(a.lv); i0, n = a.idx, sub(b.idx, a.idx)
    it.safe('valid range', And(le(0, a.idx), le(a.idx, b.idx), le(b.idx, s.n)))
    fp = s.et[0] == 'fp'
    l = flt if fp else lt
    def better(x, best): return l(best, x) if name == 'max_element' else l(x, best)
    if it.known(le(n, 0)): return b
    if conc(n):
        bi, bv = i0, s.get(i0)
        for k in range(1, n):
            x = s.get(add(i0, k)); c = better(x, bv)
            bi = ite(c, add(i0, k), bi); bv = ite(c, x, bv)
        return PtrV(a.lv, bi)
    # first index whose element is extreme
    d = func('argext', *([I] * len(it.iters) + [I])); args = list(it.iters)
    r = d(*[zi(x) for x in args]) if args else d()
    if not it.iters:
        k = const('q', I)
        it.assume(And(r >= 0, r <= zi(n), z3.Implies(zi(n) > 0, r < zi(n))))
        s0 = term(s.get(add(i0, k)))
        best = term(s.get(add(i0, r)))
        it.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n)), z3.And(zb(Not(better(s0, best))), z3.Implies(k < r, zb(better(best, s0)))))))
        return PtrV(a.lv, add(i0, r))
    raise Unsupported('max_element in loop')

def pred(it, f, x):
    return it.call_func(f, [it.alloc(x) if not isinstance(x, LV) else x])

def algo(it, name, args, call):
    V = lambda i: val(it, it.ev(args[i]))
    if name == 'swap':
        a, b = it.lv(args[0]), it.lv(args[1])
        x, y = it.read(a), it.read(b)
        it.write(a, y); it.write(b, x); return None
    a, b = V(0), V(1)
    if not (isinstance(a, PtrV) and isinstance(b, PtrV)): raise Unsupported('algorithm on ' + type(a).__name__)
    if a.lv is None: raise Unsupported('algorithm on null')
    s = seq(it.read(a.lv)); i0 = a.idx; n = sub(b.idx, a.idx)
    it.safe('valid range', And(le(0, a.idx), le(a.idx, b.idx), le(b.idx, s.n)))
    if name == 'shuffle':
        # arbitrary permutation
        if it.iters: raise Unsupported('shuffle in a loop')
        P, Q = func('perm', I, I), func('perm.inv', I, I); nn = zi(n)
        for f, g in ((P, Q), (Q, P)):
            T.PERM[f.get_id()] = g; T.PERM_RANGE[f.get_id()] = n
            T.define(f, lambda x, g=g: [z3.Implies(z3.And(x.arg(0) >= 0, x.arg(0) < nn), z3.And(x >= 0, x < nn, g(x) == x.arg(0)))])
        it.perms = getattr(it, 'perms', []) + [(P, Q, n)]
        it.write(a.lv, s.rng(i0, b.idx, lambda J: s.get(add(i0, P(zi(sub(J, i0))))))); return None
    if name == 'reverse':
        it.write(a.lv, s.rng(i0, b.idx, lambda J: s.get(sub(sub(add(i0, b.idx), 1), J)))); return None
    if name == 'transform':
        f = None
        if len(args) == 4: d, f = V(2), V(3)
        else: raise Unsupported('binary transform')
        ds = seq(it.read(d.lv)); d0 = d.idx
        it.safe('destination range', And(le(0, d0), le(add(d0, n), ds.n)))
        def g(J):
            return pure_call(it, f, [s.get(add(i0, sub(J, d0)))])
        it.write(d.lv, ds.rng(d0, add(d0, n), g)); return PtrV(d.lv, add(d0, n))
    if name in ('count', 'find', 'all_of', 'any_of', 'none_of', 'count_if', 'find_if'):
        f = V(2)
        def p(x):
            if name in ('count', 'find'): return veq(x, f)
            return it.truth(pure_call(it, f, [x]))
        if conc(n):
            cs = [p(s.get(add(i0, k))) for k in range(n)]
            if name in ('count', 'count_if'):
                r = 0
                for c in cs: r = add(r, b2(c))
                return r
            if name in ('find', 'find_if'):
                r = b.idx
                for k in range(n - 1, -1, -1): r = ite(cs[k], add(i0, k), r)
                return PtrV(a.lv, r)
            return {'all_of': And(*cs), 'any_of': Or(*cs), 'none_of': Not(Or(*cs))}[name]
        if name in ('count', 'count_if'):
            sv = it.read(a.lv)
            if isscalar(sv) and conc(i0) and i0 == 0 and name == 'count': return SCOUNT(zs(sv), zi(f))
            return mk_fold([0], lambda accs, k: [add(accs[0], b2(p(s.get(add(i0, k)))))], n, sorts=[I])[0]
        if name in ('find', 'find_if'):
            sv = it.read(a.lv)
            if isscalar(sv) and name == 'find' and it.known(ieq(b.idx, slen(sv))):
                r = sfind(sv, f, i0)
                return PtrV(a.lv, ite(le(0, r), r, b.idx))
            k = const('q', I); its = [x for x in it.iters if is_z(x) and z3.is_const(x)]
            if its:     # a value per iteration: the facts hold for every instance of the result
                fd = func('find', *([I] * len(its) + [I])); r = fd(*its)
                fs = [r >= 0, r <= zi(n), z3.Implies(r < zi(n), zb(p(s.get(add(i0, r))))), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < r), z3.Not(zb(p(s.get(add(i0, k)))))))]
                T.define(fd, lambda app: [subst(f, list(zip(its, app.children()))) for f in fs])
                return PtrV(a.lv, add(i0, r))
            r = const('find', I)
            it.assume(And(r >= 0, r <= zi(n), z3.Implies(r < zi(n), zb(p(s.get(add(i0, r)))))))
            it.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < r), z3.Not(zb(p(s.get(add(i0, k))))))))
            return PtrV(a.lv, add(i0, r))
    raise Unsupported('algorithm ' + name)
def b2(c): return IN.b2i(c)
def pure_call(it, f, xs):
    if isinstance(f, TupV) and f.xs[0] == 'functor': return it.arith(f.xs[1], xs[0], xs[1], ('fp',))
    m0 = it.st.mem; m = dict(m0)
    r = it.call_func(f, [it.alloc(x) for x in xs])
    if not it.same_mem(m, it.st.mem): raise Unsupported('callback with effects')
    return val(it, r)

# ------------------------------------------------------------------ member functions
def method(it, obj, name, args, call, objnode):
    V = lambda i: val(it, it.ev(args[i]))
    if 'ext:' + name in it.models:
        r = it.models['ext:' + name](it, obj, [it.ev(a) for a in args], call)
        if r is not NotImplemented: use('external ' + name); return r
    v = val(it, obj)
    nargs = len([a for a in args if a['kind'] != 'CXXDefaultArgExpr'])
    if name.startswith('operator '):      # conversion operators
        if isinstance(v, StreamV): return stream_ok(v)
        if isinstance(v, PtrV): return v.lv is not None
        return v
    use('%s::%s' % ({SeqV: 'std::vector', SetV: 'std::set', MapV: 'std::map', StreamV: 'std::istream', PtrV: 'std::shared_ptr'}.get(type(v), 'std::string'), name))
    if is_out(v) and name == 'str' and nargs == 0: return v.f['buf']
    if isinstance(v, StreamV) or isinstance(v, OutV): return stream_method(it, obj, v, name, args, V)
    if isinstance(v, Uninit): raise Unsupported('method on indeterminate object')
    if isinstance(v, MapV): return map_method(it, obj, v, name, args, V)
    if isinstance(v, SetV): return set_method(it, obj, v, name, args, V)
    if isinstance(v, PtrV):
        if name == 'get': return v
        if name == 'reset':
            it.write(obj, NULL); return None
        if name == 'use_count': raise Unsupported('use_count')
        raise Unsupported('pointer method ' + name)
    if isinstance(v, FuncV): return it.call_func(v, [it.ev(a) for a in args])
    if name in ('size', 'length'): return size_of(it, v)
    if name == 'empty': return ieq(size_of(it, v), 0)
    lv = tolv(it, obj)
    if name in ('begin', 'cbegin', 'data', 'c_str'): return PtrV(lv, 0)
    if name in ('end', 'cend'): return PtrV(lv, size_of(it, v))
    if name in ('at',):
        i = it.use(V(0), 'index')
        c = And(le(0, i), lt(i, size_of(it, v)))
        if not it.decide(simp(c)): raise IN.ThrowEx('out_of_range')
        return lv.i(i)
    if name == 'front':
        it.bounds(lv, 0, 'front of non-empty'); return lv.i(0)
    if name == 'back':
        it.bounds(lv, sub(size_of(it, v), 1), 'back of non-empty'); return lv.i(sub(size_of(it, v), 1))
    if name == 'operator=' and isinstance(v, SeqV) and not isscalar(v):
        w = V(0)
        if isinstance(w, SeqV): it.write(lv, w); return lv
    if isinstance(v, SeqV) and not (isscalar(v)):
        et = v.et
        if name in ('push_back', 'emplace_back'):
            if name == 'emplace_back' and (nargs != 1): raise Unsupported('emplace_back')
            a = it.ev(args[0]); x = val(it, a)
            if et[0] == 'rec' and not isinstance(x, StructV) and not (et[1] in VV.OPAQUE and isscalar(x)): raise Unsupported('emplace_back conversion')
            it.write(lv, it.read(lv).push(conv(x, et)))
            return lv.i(v.n)
        if name == 'pop_back':
            it.bounds(lv, sub(v.n, 1), 'pop_back of non-empty')
            return it.write(lv, shrink(v, sub(v.n, 1)))
        if name == 'clear': return it.write(lv, SeqV.items([], et))
        if name in ('reserve', 'shrink_to_fit'): 
            for i in range(nargs): V(i)
            return None
        if name == 'capacity': raise Unsupported('capacity')
        if name == 'resize':
            n = it.use(V(0)); x = V(1) if nargs > 1 else None
            x = default_like(et) if x is None else conv(x, et)
            return it.write(lv, resized(it, v, n, x))
        if name == 'assign':
            a0 = V(0)
            if isinstance(a0, PtrV): it.write(lv, slice_(it, a0, V(1), et))
            else:
                x = conv(V(1), et); it.write(lv, SeqV.fn(a0, lambda i: x, et))
            return None
        if name == 'insert':
            pos = V(0); a1 = V(1)
            if isinstance(a1, PtrV) and nargs == 3:
                ins = slice_(it, a1, V(2), et)
            elif nargs == 2: ins = SeqV.items([conv(a1, et)], et) if not isinstance(a1, SeqV) or et[0] == 'vec' else a1
            else: raise Unsupported('insert')
            it.safe('insert position', And(le(0, pos.idx), le(pos.idx, v.n)))
            nv = concat3(it, v, pos.idx, ins, pos.idx)
            it.write(lv, nv); return PtrV(lv, pos.idx)
        if name == 'erase':
            pos = V(0)
            to = V(1).idx if nargs > 1 else add(pos.idx, 1)
            it.safe('erase range', And(le(0, pos.idx), le(pos.idx, to), le(to, v.n)))
            it.write(lv, concat3(it, v, pos.idx, SeqV.items([], et), to)); return PtrV(lv, pos.idx)
        if name == 'swap':
            o = it.lv(args[0]); y = it.read(o); it.write(o, v); it.write(lv, y); return None
    # ---- strings
    if name == 'substr':
        a = it.use(V(0)) if nargs > 0 else 0
        n = slen(v) if isscalar(v) else v.n
        if not it.decide(simp(And(le(0, a), le(a, n)))): raise IN.ThrowEx('out_of_range')
        ln = sub(n, a)
        if nargs > 1:
            c = V(1); ln = ite(lt(c, ln), c, ln)
        if isscalar(v): return ssub(v, a, ln)
        return slice_(it, PtrV(lv, a), PtrV(lv, add(a, ln)), ('int', 8, True))
    if name in ('find', 'find_first_of') and isscalar(v):
        c = V(0); f = V(1) if nargs > 1 else 0
        if is_str(c) or isinstance(c, PtrV): raise Unsupported('string find')
        r = sfind(v, c, f)
        return ite(le(0, r), r, (1 << 64) - 1)
    if name == 'clear': return it.write(lv, '')
    if name in ('push_back',):
        c = V(0)
        if conc(v) and conc(c): return it.write(lv, v + chr(c))
        return it.write(lv, IN.seq_of_str(v).push(c))
    if name in ('append',):
        x = V(0)
        if isinstance(x, PtrV): x = cstr(it, x)
        it.write(lv, strcat(v, x)); return lv
    if name == 'resize' and isscalar(v):
        n = V(0)
        if conc(n) and n == 0: return it.write(lv, '')
        return it.write(lv, resized(it, IN.seq_of_str(v), n, 0))
    if name == 'reserve': return None
    if name == 'erase' and isscalar(v): raise Unsupported('string erase')
    raise Unsupported('method %s of %s' % (name, type(v).__name__))

def shrink(v, n):
    if conc(n) and v.kind == 'items': return SeqV.items(v.a[:n], v.et)
    return v.with_n(n)
def resized(it, v, n, x):
    if conc(n) and conc(v.n) and n <= 4096 and v.kind == 'items':
        return SeqV.items([v.a[i] if i < v.n else x for i in range(n)], v.et)
    o = v.n
    if it.known(le(n, o)): return v.with_n(n)
    if conc(o) and o == 0: return SeqV.fn(n, lambda i: x, v.et)
    if it.known(le(o, n)): return v.rng(o, n, lambda J: x, n)
    return v.rng(o, n, lambda J: x, n)
def concat3(it, v, p, ins, to):
    """v[0..p) ++ ins ++ v[to..)"""
    if conc(p) and conc(to) and conc(v.n) and conc(ins.n) and v.n + ins.n <= 4096:
        xs = [v.get(i) for i in range(p)] + [ins.get(i) for i in range(ins.n)] + [v.get(i) for i in range(to, v.n)]
        return SeqV.items(xs, v.et)
    n = add(add(p, ins.n), sub(v.n, to))
    e = add(p, ins.n)
    if ieq(p, v.n) is True or it.known(ieq(p, v.n)):
        return v.rng(p, e, lambda J: ins.get(sub(J, p)), e)
    if ieq(to, v.n) is True and conc(ins.n) and ins.n == 0: return v.with_n(p)
    def g(J):
        a = lt(J, p); b = lt(J, e)
        if a is True: return v.get(J)
        r = v.get(add(sub(J, e), to))
        if b is True: r = ins.get(sub(J, p))
        elif b is not False: r = vite(b, ins.get(sub(J, p)), r)
        return r if a is False else vite(a, v.get(J), r)
    return SeqV.fn(n, g, v.et)
def strcat(a, b):
    if isinstance(a, str) and isinstance(b, str): return a + b
    if isscalar(a) and isscalar(b) and is_str(b): return z3.Concat(zs(a), zs(b))
    a, b = charseq(a), charseq(b)
    if conc(b.n) and b.n <= 64:
        for k in range(b.n): a = a.push(b.get(k))
        return a
    n = a.n; e = add(n, b.n)
    return a.rng(n, e, lambda J: b.get(sub(J, n)), e)
def charseq(x):
    """string, character or character sequence as a sequence of characters"""
    if isinstance(x, SeqV): return x
    if is_strv(x): return IN.seq_of_str(x)
    if isscalar(x): return SeqV.items([x], ('int', 8, True))
    raise Unsupported('string concatenation')

def set_pos(it, v, x):
    """position of x in the set, the size when it is not there"""
    import sets
    h = v.has(x)
    if v.s is None and conc(v.seq.n) and v.seq.kind == 'items':
        r = v.seq.n
        for k in range(v.seq.n - 1, -1, -1): r = ite(veq(x, v.seq.a[k]), k, r)
        return r
    s = set_term(v)
    return ite(h, sets.theory(sort_of(v.seq.et)).RANK(s, coerce(term(x), sort_of(v.seq.et))), v.seq.n)
def set_lb(it, v, x, upper=False):
    import sets
    es = sort_of(v.seq.et)
    if upper:
        if es != I: raise Unsupported('upper_bound')
        x = add(x, 1)
    return sets.theory(es).LB(set_term(v), coerce(term(x), es))
def set_insert(v, x):
    if v.s is None and conc(v.seq.n) and v.seq.kind == 'items' and conc(x) and all(conc(y) for y in v.seq.a):
        return set_from(SeqV.items(v.seq.a + [x], v.seq.et), v.seq.et)
    return set_by(v.seq.et, lambda y: Or(v.has(y), veq(y, x)))
def set_range(et, s, i0, n, base=None):
    """set of the elements i0..i0+n of a sequence"""
    es = sort_of(et)
    def pred(x):
        b = base.has(x) if base is not None else False
        return mk_fold([zb(b)], lambda acc, k: [z3.Or(acc[0], zb(veq(s.get(add(i0, k)), x)))], n, sorts=[B])[0]
    return set_by(et, pred)
def set_method(it, obj, v, name, args, V):
    lv = tolv(it, obj); et = v.seq.et
    if name == 'size': return v.seq.n
    if name == 'empty': return ieq(v.seq.n, 0)
    if name in ('begin', 'cbegin'): return PtrV(lv, 0)
    if name in ('end', 'cend'): return PtrV(lv, v.seq.n)
    if name in ('count',): return b2(v.has(conv(V(0), et)))
    if name == 'contains': return v.has(conv(V(0), et))
    if name == 'find': return PtrV(lv, set_pos(it, v, conv(V(0), et)))
    if name in ('lower_bound', 'upper_bound'): return PtrV(lv, set_lb(it, v, conv(V(0), et), name[0] == 'u'))
    if name in ('insert', 'emplace', 'emplace_hint'):
        xs = [V(k) for k in range(len([a for a in args if a['kind'] != 'CXXDefaultArgExpr']))]
        if len(xs) == 2 and isinstance(xs[0], PtrV) and isinstance(xs[1], PtrV):
            src = seq(it.read(xs[0].lv)); n = sub(xs[1].idx, xs[0].idx)
            it.safe('valid range', And(le(0, xs[0].idx), le(xs[0].idx, xs[1].idx), le(xs[1].idx, src.n)))
            if conc(n) and n <= 16:
                for k in range(n): v = set_insert(v, src.get(add(xs[0].idx, k)))
                it.write(lv, v)
            else: it.write(lv, set_range(et, src, xs[0].idx, n, v))
            return None
        hint = len(xs) == 2 and isinstance(xs[0], PtrV)
        x = conv(it.use(xs[-1]), et); had = v.has(x); nv = set_insert(v, x)
        it.write(lv, nv); shift_iters(it, lv, lambda idx: unsup('iterator across insertion'))
        p = PtrV(lv, 0) if not it.iters else PtrV(lv, 0)
        return p if hint else TupV([p, Not(had)])
    if name == 'erase':
        a = V(0)
        if isinstance(a, PtrV):
            b = V(1).idx if len([x for x in args if x['kind'] != 'CXXDefaultArgExpr']) > 1 else add(a.idx, 1)
            it.safe('valid range', And(le(0, a.idx), le(a.idx, b), le(b, v.seq.n)))
            if ieq(sub(b, a.idx), 1) is True:
                e = v.seq.get(a.idx)
                it.write(lv, set_by(et, lambda y: And(v.has(y), Not(veq(y, e)))))
                shift_iters(it, lv, lambda idx: ite(lt(a.idx, idx), sub(idx, 1), idx))
            else:
                import sets
                th = sets.theory(sort_of(et)); s = set_term(v)
                it.write(lv, set_by(et, lambda y: And(v.has(y), Not(And(le(a.idx, th.RANK(s, y)), lt(th.RANK(s, y), b))))))
            return PtrV(lv, a.idx)
        x = conv(it.use(a), et)
        it.write(lv, set_by(et, lambda y: And(v.has(y), Not(veq(y, x))))); shift_iters(it, lv, lambda idx: unsup('iterator across erase'))
        return b2(v.has(x))
    if name == 'clear': return it.write(lv, empty_set(et))
    raise Unsupported('set method ' + name)
def unsup(m): raise Unsupported(m)
def shift_iters(it, lv, f):
    """iterators into the set keep referring to their element"""
    for loc, x in list(it.st.mem.items()):
        if isinstance(x, PtrV) and x.lv is not None and x.idx is not None and x.lv.same(lv):
            try: it.st.mem[loc] = PtrV(x.lv, f(x.idx))
            except Unsupported: it.st.mem[loc] = UNINIT
def map_method(it, obj, v, name, args, V):
    lv = tolv(it, obj)
    if name == 'size': return v.keys.seq.n
    if name == 'empty': return ieq(v.keys.seq.n, 0)
    if name in ('count',): return b2(v.keys.has(V(0)))
    if name == 'contains': return v.keys.has(V(0))
    if name == 'at':
        x = V(0)
        if not it.decide(simp(v.keys.has(x))): raise IN.ThrowEx('out_of_range')
        return LV(lv.loc, lv.path + (('m', x),))
    if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        xs = [V(k) for k in range(len([a for a in args if a['kind'] != 'CXXDefaultArgExpr']))]
        if len(xs) == 1 and isinstance(xs[0], TupV) and len(xs[0].xs) == 2: xs = xs[0].xs
        if len(xs) != 2 or any(isinstance(x, PtrV) for x in xs): raise Unsupported('map method ' + name)
        x, y = conv(it.use(xs[0]), v.keys.seq.et), conv(it.use(xs[1]), v.vt); h = v.keys.has(x); keep = name != 'insert_or_assign'
        it.write(lv, MapV(set_insert(v.keys, x), lambda z: vite(And(veq(z, x), Not(h)) if keep else veq(z, x), y, v.val(z)), v.vt))
        return TupV([PtrV(lv, None), Not(h)])
    raise Unsupported('map method ' + name)

# ------------------------------------------------------------------ operators
def operator(it, name, args, call):
    use('std::' + str(name))
    if name == 'operator[]':
        o = it.ev(args[0]); i = it.use(val(it, it.ev(args[1])), 'index')
        if isinstance(o, LV): o = it.resolve(o)
        v = val(it, o)
        if isinstance(v, MapV):
            lv = tolv(it, o)
            i = conv(i, v.keys.seq.et)
            if v.keys.has(i) is not True and not it.known(v.keys.has(i)):
                d0 = default_like(v.vt); h = v.keys.has(i)
                it.write(lv, MapV(set_insert(v.keys, i), lambda y: vite(And(veq(y, i), Not(h)), d0, v.val(y)), v.vt))
            return LV(lv.loc, lv.path + (('m', i),))
        if isinstance(v, PtrV): return it.ptr_at(v, i)
        lv = tolv(it, o)
        it.bounds(lv, i)
        return lv.i(i)
    if name == 'operator=':
        v = val(it, it.ev(args[1])); lv = it.lv(args[0])
        old = it.read(lv)
        if isinstance(v, PtrV) and (isscalar(old) and is_str(old)): v = cstr(it, v)
        it.write(lv, v); return lv
    if name == 'operator->':
        v = val(it, it.ev(args[0]))
        if isinstance(v, PtrV) and v.idx is not None: return PtrV(LV(v.lv.loc, v.lv.path + (('i', v.idx),)))
        return v
    if name == 'operator*' and len(args) == 1:
        p = val(it, it.ev(args[0]))
        if isinstance(p, PtrV) and p.lv is not None and p.idx is not None and isinstance(it.read(p.lv), SetV):
            s = it.read(p.lv); it.safe('dereference of end iterator', lt(p.idx, s.seq.n)); return s.seq.get(p.idx)
        return it.deref(p)
    if name in ('operator++', 'operator--'):
        lv = it.lv(args[0]); p = it.read(lv)
        if not isinstance(p, PtrV): raise Unsupported('increment')
        nv = PtrV(p.lv, add(p.idx, 1) if name == 'operator++' else sub(p.idx, 1))
        it.write(lv, nv)
        return p if len(args) == 2 else lv
    if name in ('operator+', 'operator-', 'operator+=', 'operator-='):
        l = it.ev(args[0]); a = val(it, l); b = val(it, it.ev(args[1]))
        if isinstance(a, PtrV) and isinstance(b, PtrV) and a.lv is not None and isscalar(it.read_raw(a.lv)) and is_str(it.read_raw(a.lv)) is True and name == 'operator+':
            return strcat(cstr(it, a), cstr(it, b))
        if isinstance(a, PtrV) and (is_strv(b) or isinstance(b, SeqV)): a = cstr(it, a)
        if isinstance(b, PtrV) and (is_strv(a) or isinstance(a, SeqV)): b = cstr(it, b)
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            r = it.ptr_arith('+' if '+' in name else '-', a, b)
            if name.endswith('='):
                it.write(it.resolve(l), r); return l
            return r
        if is_strv(a) or is_strv(b) or isinstance(a, SeqV) and a.et[:2] == ('int', 8) or isinstance(b, SeqV) and b.et[:2] == ('int', 8):
            if isscalar(b) and not is_strv(b) and conc(b): b = chr(b)
            if isscalar(a) and not is_strv(a) and conc(a): a = chr(a)
            r = strcat(a, b)
            if name == 'operator+=':
                it.write(it.resolve(l), r); return l
            return r
        raise Unsupported('operator ' + name)
    if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        a, b = val(it, it.ev(args[0])), val(it, it.ev(args[1]))
        op = name[8:]
        if is_strv(a) and isinstance(b, PtrV): b = cstr(it, b)
        if is_strv(b) and isinstance(a, PtrV): a = cstr(it, a)
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            if op not in ('==', '!='): raise Unsupported('sequence order')
            if a is b: return op == '=='
            if conc(a.n) and conc(b.n):
                r = And(ieq(a.n, b.n), *([veq(a.get(i), b.get(i)) for i in range(a.n)] if a.n == b.n else [False]))
                return r if op == '==' else Not(r)
            raise Unsupported('sequence comparison')
        if isinstance(a, SetV) and isinstance(b, SetV) and op in ('==', '!='):
            ta, tb = set_term(a), set_term(b); r = True if ta.eq(tb) else ta == tb
            return r if op == '==' else Not(r)
        if isinstance(a, TupV) and a.xs and a.xs[0] == 'isit': raise Unsupported('istream_iterator comparison')
        return it.compare(op, a, b, False)
    if name == 'operator bool':
        v = val(it, it.ev(args[0]))
        return stream_ok(v) if isinstance(v, StreamV) else it.truth(v)
    if name == 'operator!':
        v = val(it, it.ev(args[0]))
        if isinstance(v, StreamV): return Not(stream_ok(v))
        return Not(it.truth(v))
    if name == 'operator()':
        fl = it.ev(args[0]); f = val(it, fl)
        if isinstance(f, StructV) and f.t == 'std::mt19937_64' and isinstance(fl, LV):
            # a pseudo-random engine: the sequence of its values is arbitrary; the state is the position in it
            use('std::mt19937_64'); lv = it.resolve(fl); k = f.f['pos']
            it.write(lv.f('pos'), add(k, 1)); return draw(k)
        if isinstance(f, FuncV): return it.call_func(f, [it.ev(a) for a in args[1:]])
        if isinstance(f, PtrV) and f.lv is None: it.safe('call of empty function', False)
        raise Unsupported('call operator')
    if name in ('operator<<', 'operator>>'):
        l = it.ev(args[0]); v = val(it, l)
        if isinstance(v, OutV) and name == 'operator<<':
            x = val(it, it.ev(args[1]))
            if isinstance(x, PtrV): x = cstr(it, x)
            if isinstance(x, FuncV): x = '\n'
            if isinstance(l, LV): it.write(it.resolve(l), OutV(v.chunks + (x,)))
            return l
        if name == 'operator<<' and isinstance(l, LV) and isinstance(v, StreamV) and isinstance(v.content, str) and v.content == '' and conc(v.pos) and v.pos == 0:
            v = out_text(''); it.write(it.resolve(l), v)
        if is_out(v) and name == 'operator<<':
            x = val(it, it.ev(args[1]))
            if isinstance(x, PtrV): x = cstr(it, x)
            if isinstance(x, SeqV): x = IN.str_of_seq(x) if hasattr(IN, 'str_of_seq') else x
            if not is_strv(x): raise Unsupported('formatted output')
            use('std::ostream << text'); lv = it.resolve(l); it.write(lv.f('buf'), text_cat(it.read(lv).f['buf'], x)); return l
        if isinstance(v, StreamV): return stream_shift(it, l, v, name, args)
    raise Unsupported('operator ' + str(name))
def out_text(s): return StructV('std::ostream', {'buf': s})
def is_out(v): return isinstance(v, StructV) and v.t == 'std::ostream'
def text_cat(a, b):
    if isinstance(a, str) and isinstance(b, str): return a + b
    return a if isinstance(b, str) and b == '' else b if isinstance(a, str) and a == '' else z3.simplify(z3.Concat(zs(a), zs(b)))
def is_strv(v): return isscalar(v) and is_str(v)
def bad_char(): raise Unsupported('symbolic character concatenation')

def range_of(it, lv):
    v = it.read(lv)
    if isinstance(v, SetV): return (lambda: it.read(lv).seq.n), (lambda i: it.read(lv).seq.get(i))
    if isinstance(v, MapV):
        return (lambda: it.read(lv).keys.seq.n), (lambda i: TupV([it.read(lv).keys.seq.get(i), it.read(lv).val(it.read(lv).keys.seq.get(i))]))
    return (lambda: size_of(it, it.read(lv))), (lambda i: lv.i(i))

# ------------------------------------------------------------------ streams
def stream_ok(v): return Not(v.fail)
def nbytes(v): return v.content.n if isinstance(v.content, BytesV) else slen(v.content)
def byte_at(v, i): return v.content.at(i) if isinstance(v.content, BytesV) else schar(v.content, i)
def make_stream(it, e, t, args):
    use('std::' + t[1])
    if 'fstream' in t[1]:
        if not args: return StreamV('', 0, False, False, False)
        p = val(it, it.ev(args[0]))
        if isinstance(p, PtrV): p = cstr(it, p)
        for a in args[1:]: it.ev(a)
        return open_file(it, p)
    if not args: return StreamV('', 0) if 'ostring' not in t[1] else OutV()
    v = val(it, it.ev(args[0]))
    if isinstance(v, PtrV): v = cstr(it, v)
    if isinstance(v, StreamV): return v
    if isscalar(v) and not is_str(v): return StreamV('', 0)
    return StreamV(TextV(v) if is_z(v) else v, 0)
def open_file(it, path):
    key = path if isinstance(path, str) else ('z', path.get_id())
    f = it.files.get(key)
    if f is None: f = it.files.get('*')
    if f is None: raise Unsupported('unknown file')
    content, exists = f
    return StreamV(content, 0, False, Not(exists), exists)
def stream_method(it, obj, v, name, args, V):
    lv = obj
    if name in ('is_open',): return v.isopen
    if name == 'good': return Not(Or(v.eof, v.fail))
    if name == 'eof': return v.eof
    if name in ('fail', 'bad'): return v.fail
    if name == 'close':
        # closing a stream that is not open sets failbit
        it.write(lv, v.upd(isopen=False, fail=Or(v.fail, Not(v.isopen)))); return None
    if name == 'open':
        p = V(0)
        if isinstance(p, PtrV): p = cstr(it, p)
        it.write(lv, open_file(it, p)); return None
    if name == 'clear':
        if args and args[0]['kind'] != 'CXXDefaultArgExpr': raise Unsupported('clear(state)')
        it.write(lv, v.upd(eof=False, fail=False)); return None
    if name == 'seekg':
        off = V(0)
        way = V(1) if len(args) > 1 else 0
        if not conc(way): raise Unsupported('seek direction')
        if isinstance(v.content, (PiecesV, TextV)):
            if not (conc(off) and off == 0 and way == 0): raise Unsupported('seek inside a text stream')
            ok = And(Not(v.fail), v.isopen)
            it.write(lv, v.upd(eof=False, pos=ite(ok, 0, v.pos), fail=Or(v.fail, Not(ok)))); return lv
        base = {0: 0, 1: v.pos, 2: nbytes(v)}[way]
        np = add(base, off)
        # seekg clears eofbit, then seeks unless fail() (LWG 3204 wording as implemented by libstdc++)
        ok = And(Not(v.fail), v.isopen, le(0, np))
        it.write(lv, v.upd(eof=False, pos=ite(ok, np, v.pos), fail=Or(v.fail, Not(ok))))
        return lv
    if isinstance(v.content, (PiecesV, TextV)) and name not in ('ignore', 'str'): raise Unsupported('%s on a text stream' % name)
    if name == 'tellg': return ite(v.fail, -1, v.pos)
    if name == 'read':
        p, n = V(0), it.use(V(1))
        if not isinstance(p, PtrV) or p.lv is None: raise Unsupported('read target')
        cur0 = it.read_raw(p.lv)
        if p.idx is None and (isscalar(cur0) or isinstance(cur0, (Uninit, MaybeV))):
            if n != 1: raise Unsupported('read into a scalar')
            okv = And(Not(Or(v.fail, v.eof)), lt(v.pos, nbytes(v)))
            if it.decide(simp(okv)):
                it.write(p.lv, byte_at(v, v.pos)); it.write(lv, v.upd(pos=add(v.pos, 1)))
            else: it.write(lv, v.upd(eof=Or(v.eof, Not(v.fail)), fail=True))
            return lv
        s = seq(it.read(p.lv))
        it.safe('read buffer bounds', And(le(0, n), le(add(p.idx, n), s.n)))
        okv = Not(Or(v.fail, v.eof))
        size = nbytes(v)
        avail = sub(size, v.pos)
        full = And(okv, le(n, avail))
        if not it.decide(simp(full)):
            # short read: sets eofbit and failbit, stores what is available
            k = ite(okv, ite(lt(0, avail), avail, 0), 0)
            pos0 = v.pos
            if conc(n) and n <= 64 and conc(p.idx):
                cur = s
                for i in range(n): 
                    c = And(okv, lt(i, k))
                    old = cur.get(p.idx + i)
                    nv = byte_at(v, add(pos0, i))
                    cur = cur.set(p.idx + i, old if c is False else (UNINIT if isinstance(old, Uninit) else ite(c, nv, old)))
            else:
                lo = p.idx
                cur = s.rng(lo, add(lo, k), lambda J: byte_at(v, add(pos0, sub(J, lo))))
            it.write(p.lv, cur)
            it.write(lv, v.upd(pos=add(v.pos, k), eof=Or(v.eof, okv), fail=True))
            return lv
        pos0, lo = v.pos, p.idx
        if conc(n) and n <= 64 and conc(lo) and s.kind == 'items':
            cur = s
            xs = list(s.a)
            for i in range(n): xs[lo + i] = byte_at(v, add(pos0, i))
            cur = SeqV.items(xs, s.et)
        else: cur = s.rng(lo, add(lo, n), lambda J: byte_at(v, add(pos0, sub(J, lo))))
        it.write(p.lv, cur)
        it.write(lv, v.upd(pos=add(v.pos, n)))
        return lv
    if name == 'get' and not args:
        ok = And(Not(Or(v.fail, v.eof)), lt(v.pos, nbytes(v)))
        if it.decide(simp(ok)):
            it.write(lv, v.upd(pos=add(v.pos, 1))); return byte_at(v, v.pos)
        it.write(lv, v.upd(eof=True, fail=True)); return -1
    if name == 'ignore':
        n = V(0); d = V(1) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else None
        if not conc(n) or n < 2 ** 31: 
            if d is None and conc(n):
                avail = sub(nbytes(v), v.pos)
                if it.decide(simp(And(Not(Or(v.fail, v.eof)), le(n, avail)))): it.write(lv, v.upd(pos=add(v.pos, n)))
                elif it.decide(simp(Or(v.fail, v.eof))): it.write(lv, v.upd(fail=True))
                else: it.write(lv, v.upd(pos=nbytes(v), eof=True))
                return lv
            raise Unsupported('ignore')
        # to the delimiter
        if isinstance(v.content, (PiecesV, TextV)):
            p = v.content.pieces(d) if isinstance(v.content, TextV) else v.content
            if p.delim is not d and not it.known(veq(p.delim, d)): raise Unsupported('two delimiters on one stream')
            if not it.decide(simp(Not(Or(v.fail, v.eof)))): it.write(lv, v.upd(fail=True)); return lv
            if it.decide(simp(lt(v.pos, p.n))): it.write(lv, v.upd(pos=add(v.pos, 1), eof=And(ieq(add(v.pos, 1), p.n), Not(p.closed))))
            else: it.write(lv, v.upd(eof=True))
            return lv
        if not it.decide(simp(Not(Or(v.fail, v.eof)))):
            it.write(lv, v.upd(fail=True)); return lv
        r = sfind(v.content, d, v.pos)
        if it.decide(simp(le(0, r))): it.write(lv, v.upd(pos=add(r, 1)))
        else: it.write(lv, v.upd(pos=nbytes(v), eof=True))
        return lv
    if name in ('unsetf', 'setf', 'precision', 'width'):
        return None
    if name == 'str' and isinstance(v, OutV):
        r = ''
        for c in v.chunks: r = strcat(r, c)
        return r
    if name == 'peek': raise Unsupported('peek')
    raise Unsupported('stream method ' + name)

def getline(it, args):
    lv = it.lv(args[0]); tgt = it.lv(args[1])
    d = val(it, it.ev(args[2])) if len(args) > 2 else 10
    v = it.read(lv)
    if isinstance(v.content, BytesV): raise Unsupported('getline on bytes')
    if isinstance(v.content, (PiecesV, TextV)):
        p = v.content.pieces(d) if isinstance(v.content, TextV) else v.content
        if p.delim is not d and not it.known(veq(p.delim, d)): raise Unsupported('two delimiters on one stream')
        if not it.decide(simp(Not(Or(v.fail, v.eof)))):
            it.write(lv, v.upd(fail=True)); return lv     # sentry failed, string unchanged
        if it.decide(simp(lt(v.pos, p.n))):
            it.write(tgt, p.at(v.pos)); it.write(lv, v.upd(pos=add(v.pos, 1), eof=And(ieq(add(v.pos, 1), p.n), Not(p.closed))))
        else: it.write(tgt, ''); it.write(lv, v.upd(eof=True, fail=True))
        return lv
    if not it.decide(simp(Not(Or(v.fail, v.eof)))):
        it.write(lv, v.upd(fail=True)); return lv     # sentry failed, string unchanged
    n = slen(v.content)
    r = sfind(v.content, d, v.pos)
    if it.decide(simp(le(0, r))):
        it.write(tgt, ssub(v.content, v.pos, sub(r, v.pos)))
        it.write(lv, v.upd(pos=add(r, 1)))
    elif it.decide(simp(lt(v.pos, n))):
        it.write(tgt, ssub(v.content, v.pos, sub(n, v.pos)))
        it.write(lv, v.upd(pos=n, eof=True))
    else:
        it.write(tgt, '')
        it.write(lv, v.upd(eof=True, fail=True))
    return lv
def isit_count(it, a): raise Unsupported('istream_iterator distance')
def stream_shift(it, l, v, name, args): raise Unsupported('formatted stream io')
def make_shared(it, args, call):
    """std::make_shared<T>(args): a new object, owned by the pointer alone"""
    t = it.ty(call)
    if t[0] == 'sptr' and t[1][0] == 'vec':
        use('std::make_shared'); vs = [it.ev(a) for a in args]; vs = [it.read(it.resolve(v)) if isinstance(v, LV) else v for v in vs]
        if not vs: return PtrV(it.alloc(SeqV.items([], t[1][1])))
        if len(vs) == 1 and isinstance(vs[0], SeqV): return PtrV(it.alloc(vs[0]))
        if len(vs) in (1, 2) and isscalar(vs[0]) and not is_str(vs[0]):
            x = vs[1] if len(vs) == 2 else default_like(t[1][1])
            return PtrV(it.alloc(SeqV.fn(vs[0], lambda i: x, t[1][1])))
    if t[0] != 'sptr' or t[1][0] != 'rec': raise Unsupported('make_shared of %s' % (t,))
    use('std::make_shared'); rec = t[1][1]
    vs = [it.ev(a) for a in args]
    if len(vs) == 1:
        v = vs[0]; x = it.read(it.resolve(v)) if isinstance(v, LV) else v
        if isinstance(x, StructV) and x.t == rec and not it.ast.user_copy(rec): return PtrV(it.alloc(x))
    return PtrV(it.alloc(it.construct_value(rec, [it.read(it.resolve(v)) if isinstance(v, LV) else v for v in vs])))
DRAWF = z3.Function('draw', I, I)
T.define(DRAWF, lambda app: [app >= 0, app < 2 ** 64])
def draw(k): return DRAWF(zi(k))
def regex_match(it, args):
    """std::regex_match(string, regex): the whole string belongs to the language of the (literal) ECMAScript expression"""
    if len(args) not in (2, 3): raise Unsupported('regex_match with results')
    s, r = val(it, it.ev(args[0])), val(it, it.ev(args[1]))
    if isinstance(s, PtrV): s = cstr(it, s)
    if not (isinstance(r, TupV) and r.xs[0] == 'regex' and isinstance(r.xs[1], str)) or not (isscalar(s) and is_str(s)): raise Unsupported('regex_match of a computed expression')
    return z3.InRe(T.zs(s), regex(r.xs[1]))
def regex(p):
    """language of a regular expression: the operators of the ECMAScript grammar that denote regular languages"""
    i = 0
    def ch(c): return z3.Re(z3.StringVal(c))
    def rg(a, b): return z3.Range(z3.StringVal(a), z3.StringVal(b))
    anych = rg(chr(0), chr(255))
    def minus(r): return z3.Intersect(anych, z3.Complement(r))
    def un(xs): return xs[0] if len(xs) == 1 else z3.Union(*xs)
    CL = {'d': rg('0', '9'), 'w': un([rg('0', '9'), rg('a', 'z'), rg('A', 'Z'), ch('_')]), 's': un([ch(c) for c in ' \t\n\v\f\r'])}
    def esc(c):
        if c in CL: return CL[c]
        if c.lower() in CL: return minus(CL[c.lower()])
        if c in 'tnvfr': return ch({'t': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r'}[c])
        if c.isalnum(): raise Unsupported('regex escape ' + c)
        return ch(c)
    def cls():
        nonlocal i
        neg = i < len(p) and p[i] == '^'
        if neg: i += 1
        xs = []
        while True:
            if i >= len(p): raise Unsupported('regex class')
            c = p[i]; i += 1
            if c == ']': break
            if c == '[' and i < len(p) and p[i] in ':.=': raise Unsupported('regex class name')
            one = c
            if c == '\\':
                e = p[i]; i += 1
                if e.isalnum(): xs.append(esc(e)); continue
                one = e
            if i + 1 < len(p) and p[i] == '-' and p[i + 1] != ']':
                hi = p[i + 1]; i += 2
                if hi in '\\[': raise Unsupported('regex range')
                xs.append(rg(one, hi))
            else: xs.append(ch(one))
        r = un(xs) if xs else z3.Empty(z3.ReSort(S))
        return minus(r) if neg else r
    def alt():
        nonlocal i
        xs = [cat()]
        while i < len(p) and p[i] == '|': i += 1; xs.append(cat())
        return un(xs)
    def cat():
        nonlocal i
        xs = []
        while i < len(p) and p[i] not in '|)':
            c = p[i]; i += 1
            if c == '(':
                if p[i:i + 2] == '?:': i += 2
                elif p[i:i + 1] == '?': raise Unsupported('regex assertion')
                r = alt()
                if i >= len(p) or p[i] != ')': raise Unsupported('regex group')
                i += 1
            elif c == '[': r = cls()
            elif c == '.': r = minus(un([ch('\n'), ch('\r')]))
            elif c == '\\': r = esc(p[i]); i += 1
            elif c == '^':
                if i != 1: raise Unsupported('regex anchor inside')
                continue
            elif c == '$':
                if i != len(p): raise Unsupported('regex anchor inside')
                continue
            elif c in '*+?{}': raise Unsupported('regex operator')
            else: r = ch(c)
            while i < len(p) and p[i] in '*+?{':
                q = p[i]; i += 1
                if q == '{':
                    j = p.index('}', i); a, _, b = p[i:j].partition(','); i = j + 1
                    a = int(a)
                    if ',' not in p[:j][p.rindex('{', 0, j):]: r = z3.Loop(r, a, a)
                    elif b == '': r = z3.Concat(z3.Loop(r, a, a), z3.Star(r)) if a else z3.Star(r)
                    else: r = z3.Loop(r, a, int(b))
                else: r = {'*': z3.Star, '+': z3.Plus, '?': z3.Option}[q](r)
                if i < len(p) and p[i] == '?': i += 1     # lazy: same language
            xs.append(r)
        return z3.Re(z3.StringVal('')) if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)
    if p.startswith('^') or p.endswith('$'):
        depth = 0
        for k, c in enumerate(p):     # anchors bind tighter than a top-level alternative
            if c == '\\': continue
            if c == '(': depth += 1
            if c == ')': depth -= 1
            if c == '|' and depth == 0: raise Unsupported('anchored alternative')
    r = alt()
    if i != len(p): raise Unsupported('regex syntax')
    return r
