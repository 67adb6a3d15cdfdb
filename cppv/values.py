"""Symbolic values. All immutable. Sequences are functions from index to value (layers of updates)."""
import z3
from terms import *
import terms as T

class Uninit:
    """indeterminate value: reading it into a computation is an obligation failure"""
    _i = None
    def __repr__(self): return '<uninit>'
UNINIT = Uninit()
class MaybeV:
    """scalar that is determinate exactly when c holds"""
    __slots__ = ('c', 'v')
    def __init__(self, c, v): self.c, self.v = c, v
def maybe(c, v):
    if isinstance(v, MaybeV): return maybe(And(c, v.c), v.v)
    if not isscalar(v): raise Unsupported('merge with an indeterminate value')
    c = simp(c) if is_z(c) else c
    if c is True: return v
    if c is False: return UNINIT
    return MaybeV(c, v)

class LV:
    __slots__ = ('loc', 'path')
    def __init__(self, loc, path=()): self.loc, self.path = loc, tuple(path)
    def f(self, name): return LV(self.loc, self.path + (('f', name),))
    def i(self, idx): return LV(self.loc, self.path + (('i', idx),))
    def key(self):
        return (self.loc, tuple((k, v if not is_z(v) else ('z', v.get_id())) for k, v in self.path))
    def same(self, o): 
        if self.loc != o.loc or len(self.path) != len(o.path): return False
        for (k, a), (l, b) in zip(self.path, o.path):
            if k != l: return False
            if is_z(a) and is_z(b):
                if not a.eq(b): return False
            elif is_z(a) or is_z(b): return False
            elif a != b: return False
        return True
    def __repr__(self): return 'LV(%s,%s)' % (self.loc, self.path)

class PtrV:
    """pointer or iterator: target lvalue; idx None = pointer to the object itself, else element idx of the sequence at lv.
    lv None = null"""
    __slots__ = ('lv', 'idx')
    def __init__(self, lv, idx=None): self.lv, self.idx = lv, idx
    def __repr__(self): return 'Ptr(%s,%s)' % (self.lv, self.idx)
NULL = PtrV(None)

class RefV:
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv

class StructV:
    __slots__ = ('t', 'f')
    def __init__(self, t, f): self.t, self.f = t, f
    def set(self, k, v):
        d = dict(self.f); d[k] = v
        return StructV(self.t, d)
    def __repr__(self): return 'Struct(%s,%s)' % (self.t, self.f)

class FuncV:
    """callable: model(interp, args)->value, or lambda closure"""
    __slots__ = ('call', 'desc', 'site')
    def __init__(self, call, desc='', site=None): self.call, self.desc, self.site = call, desc, site

class SeqV:
    """n: length; layers of definition. et: element type tuple"""
    __slots__ = ('n', 'kind', 'a', 'et', 'memo')
    def __init__(self, n, kind, a, et):
        self.n, self.kind, self.a, self.et, self.memo = n, kind, a, et, {}
    # kinds: 'fn' a=callable(idx) ; 'items' a=list ; 'upd' a=(prev,i,v) ; 'rng' a=(prev,lo,hi,fn) ; 'ite' a=(c,x,y)
    @staticmethod
    def items(xs, et): return SeqV(len(xs), 'items', list(xs), et)
    @staticmethod
    def fn(n, f, et): return SeqV(n, 'fn', f, et)
    def with_n(self, n):
        return SeqV(n, self.kind, self.a, self.et)
    def get(self, i):
        i = norm(i)
        key = i if conc(i) else ('z', i.get_id())
        r = self.memo.get(key)
        if r is None:
            c0 = PCDEP[0]
            r = self._get(i)
            if PCDEP[0] != c0: return r
            self.memo[key] = r
            if is_z(i): self.memo[('keep', i.get_id())] = i
        return r
    def _get(self, i):
        k = self.kind
        if k == 'fn': return self.a(i)
        if k == 'items':
            xs = self.a
            if conc(i): return xs[i] if 0 <= i < len(xs) else default_like(self.et)
            if not xs: return default_like(self.et)
            return _sel(xs, i, 0, len(xs))
        if k == 'upd':
            p, j, v = self.a
            c = ieq(i, j)
            if c is True: return v
            if c is False: return p.get(i)
            return vite(c, v, p.get(i))
        if k == 'rng':
            p, lo, hi, f = self.a
            c = And(le(lo, i), lt(i, hi))
            if c is True or (p.kind == 'items' and not p.a and no_default(p.et)): return f(i)
            if c is False: return p.get(i)
            return vite(c, f(i), p.get(i))
        if k == 'ite':
            c, x, y = self.a
            return vite(c, x.get(i), y.get(i))
        raise Unsupported('seq kind')
    def set(self, i, v):
        i = norm(i)
        if self.kind == 'items' and conc(i) and 0 <= i < len(self.a):
            xs = list(self.a); xs[i] = v
            return SeqV(self.n, 'items', xs, self.et)
        return SeqV(self.n, 'upd', (self, i, v), self.et)
    def rng(self, lo, hi, f, n=None):
        return SeqV(self.n if n is None else n, 'rng', (self, lo, hi, f), self.et)
    def push(self, v):
        if self.kind == 'items' and conc(self.n) and self.n == len(self.a):
            return SeqV(self.n + 1, 'items', self.a + [v], self.et)
        return SeqV(add(self.n, 1), 'upd', (self, self.n, v), self.et)
    def concrete(self):
        """python list when the length is concrete"""
        if not conc(self.n): return None
        return [self.get(i) for i in range(self.n)]
    def __repr__(self): return 'Seq(n=%s,%s)' % (self.n, self.kind)

def _sel(xs, i, lo, hi):
    r = xs[hi - 1]
    for k in range(hi - 2, lo - 1, -1):
        r = vite(ieq(i, k), xs[k], r)
    return r

class SetV:
    """ordered set: sorted duplicate-free sequence 'seq' (SeqV) plus membership function; s: the set as a term (None: concrete)"""
    __slots__ = ('seq', 'has', 's')
    def __init__(self, seq, has, s=None): self.seq, self.has, self.s = seq, has, s
def symset(s, et):
    """set value of a set term"""
    import sets
    th = sets.BYSORT[str(s.sort())]
    def has(x):
        x = coerce(term(x), th.e)
        d = sets.definition(s, x)
        if d is not None and (z3.is_true(d) or z3.is_false(d)): return norm(d)
        return th.MEM(s, x)
    return SetV(SeqV.fn(th.CARD(s), lambda i: th.ELEM(s, zi(i)), et), has, s)
def set_by(et, pred):
    import sets
    return symset(sets.mkset(sort_of(et), pred), et)
def set_term(v):
    """the set as a term"""
    if v.s is not None: return v.s
    return set_by(v.seq.et, lambda x: v.has(x)).s

class MapV:
    """ordered map: keys as SetV, val(key)->value"""
    __slots__ = ('keys', 'val', 'vt')
    def __init__(self, keys, val, vt): self.keys, self.val, self.vt = keys, val, vt

def zterm(y, m): return coerce(term(y), sort_of(m.keys.seq.et))
class StreamV:
    """input stream over a character string. content: string term; or byte function for binary files"""
    __slots__ = ('content', 'pos', 'eof', 'fail', 'isopen', 'meta')
    def __init__(self, content, pos=0, eof=False, fail=False, isopen=True, meta=None):
        self.content, self.pos, self.eof, self.fail, self.isopen, self.meta = content, pos, eof, fail, isopen, meta
    def upd(self, **k):
        d = dict(content=self.content, pos=self.pos, eof=self.eof, fail=self.fail, isopen=self.isopen, meta=self.meta)
        d.update(k)
        return StreamV(**d)

class OutV:
    """output stream: list of chunks written (strings / terms)"""
    __slots__ = ('chunks',)
    def __init__(self, chunks=()): self.chunks = tuple(chunks)

class TupV:
    __slots__ = ('xs',)
    def __init__(self, xs): self.xs = list(xs)

class BytesV:
    """content of a file as bytes: length and byte function (values 0..255)"""
    __slots__ = ('n', 'at', 'name')
    def __init__(self, n, at, name): self.n, self.at, self.name = n, at, name

class PiecesV:
    """content of a text stream seen as its pieces, each but possibly the last ended by the delimiter: what getline and
    ignore(max, delimiter) step over. Positions are piece indices. closed: the last piece is followed by the delimiter."""
    __slots__ = ('n', 'at', 'closed', 'delim', 'src')
    def __init__(self, n, at, closed, delim, src=None): self.n, self.at, self.closed, self.delim, self.src = n, at, closed, delim, src
FIELD = z3.Function('field', S, I, I, S)     # k-th field of a text cut at a delimiter
def open_end(s, d): return Or(veq(slen(s), 0), veq(T.schar(s, sub(slen(s), 1)), d))     # the last field of the text is empty
def fields(s, d):
    """pieces of the text s cut at the character d: count(d)+1 fields, the last possibly empty"""
    s = zs(s)
    if FIELD.get_id() not in T.DEFS:
        define(FIELD, lambda x: [z3.Implies(x.arg(2) == T.SCOUNT(x.arg(0), x.arg(1)), (x == z3.StringVal('')) == zb(open_end(x.arg(0), x.arg(1)))),
                                 z3.Implies(z3.Length(x.arg(0)) == 0, z3.And(T.SCOUNT(x.arg(0), x.arg(1)) == 0, x == z3.StringVal('')))])
        define(T.SCOUNT, lambda x: [x >= 0])
    e = open_end(s, d); k = T.SCOUNT(s, zi(d))
    return PiecesV(ite(e, k, add(k, 1)), lambda i: FIELD(s, zi(d), zi(i)), e, d, s)
class TextV:
    """text of a string stream, cut at whatever delimiter the first read uses"""
    __slots__ = ('s', 'p')
    def __init__(self, s): self.s, self.p = s, {}
    def pieces(self, d):
        k = d.get_id() if is_z(d) else d
        if self.p and k not in self.p: raise Unsupported('two delimiters on one stream')
        if k not in self.p: self.p[k] = fields(self.s, d)
        return self.p[k]

def lv_ite(c, a, b):
    """the location that is a if c else b, when they differ only in element indices"""
    if a.loc != b.loc or len(a.path) != len(b.path): return None
    p = []
    for (k, x), (l, y) in zip(a.path, b.path):
        if k != l: return None
        if k == 'i': p.append((k, ite(c, x, y)))
        elif x != y: return None
        else: p.append((k, x))
    return LV(a.loc, p)

def lv_eq(a, b):
    if a.same(b): return True
    if a.loc != b.loc or len(a.path) != len(b.path) or any(k != l or k != 'i' and x != y for (k, x), (l, y) in zip(a.path, b.path)): return False
    return And(*[ieq(x, y) for (k, x), (l, y) in zip(a.path, b.path) if k == 'i'])

def isscalar(v): return is_z(v) or isinstance(v, (bool, int, Fraction, str))

def vite(c, a, b):
    """value-level ite; c may be z3 or bool"""
    if conc(c): return a if c else b
    if a is b: return a
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        if isinstance(a, Uninit) and isinstance(b, Uninit): return a
        if isinstance(a, Uninit): return maybe(Not(c), b)
        return maybe(c, a)
    if isinstance(a, MaybeV) or isinstance(b, MaybeV):
        ca, va = (a.c, a.v) if isinstance(a, MaybeV) else (True, a)
        cb, vb = (b.c, b.v) if isinstance(b, MaybeV) else (True, b)
        if not (isscalar(va) and isscalar(vb)): raise Unsupported('merge with an indeterminate value')
        return maybe(ite(c, ca, cb), ite(c, va, vb))
    if isscalar(a) and isscalar(b): return ite(c, a, b)
    if isinstance(a, StructV) and isinstance(b, StructV):
        if a.t != b.t: raise Unsupported('merge of different dynamic types')
        return StructV(a.t, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        n = ite(c, a.n, b.n)
        if a.kind == 'items' and b.kind == 'items' and len(a.a) == len(b.a) and conc(n):
            return SeqV(n, 'items', [vite(c, x, y) for x, y in zip(a.a, b.a)], a.et)
        return SeqV(n, 'ite', (c, a, b), a.et)
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.lv is None and b.lv is None: return a
        if a.lv is not None and b.lv is not None and a.lv.same(b.lv):
            if a.idx is None and b.idx is None: return a
            if a.idx is not None and b.idx is not None: return PtrV(a.lv, ite(c, a.idx, b.idx))
        raise Unsupported('merge of different pointers')
    if isinstance(a, RefV) and isinstance(b, RefV):
        if a.lv.same(b.lv): return a
        l = lv_ite(c, a.lv, b.lv)
        if l is not None: return RefV(l)
    if isinstance(a, StreamV) and isinstance(b, StreamV):
        if isinstance(a.content, (BytesV, PiecesV, TextV)) or isinstance(b.content, (BytesV, PiecesV, TextV)):
            if a.content is not b.content: raise Unsupported('merge of streams')
            ct = a.content
        else: ct = vite(c, a.content, b.content)
        return StreamV(ct, ite(c, a.pos, b.pos), ite(c, a.eof, b.eof), ite(c, a.fail, b.fail), ite(c, a.isopen, b.isopen), a.meta)
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.xs) == len(b.xs):
        return TupV([vite(c, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, SetV) and isinstance(b, SetV):
        if a.s is None and b.s is None and conc(a.seq.n) and conc(b.seq.n) and a.seq.n == b.seq.n: return SetV(vite(c, a.seq, b.seq), lambda x: ite(c, a.has(x), b.has(x)))
        ta, tb = set_term(a), set_term(b)
        return a if ta.eq(tb) else symset(z3.If(c, ta, tb), a.seq.et)
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.keys is b.keys and a.val is b.val: return a
        return MapV(vite(c, a.keys, b.keys), lambda y: vite(c, a.val(y), b.val(y)), a.vt)
    if isinstance(a, OutV) and isinstance(b, OutV) and a.chunks == b.chunks: return a
    if isinstance(a, SeqV) and isscalar(b) or isinstance(b, SeqV) and isscalar(a):
        raise Unsupported('merge of string representations')
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))

def vsubst(v, pairs):
    """substitute constants in a value"""
    if not pairs: return v
    if isscalar(v): return subst(v, pairs)
    if isinstance(v, (Uninit, FuncV, OutV, BytesV)) or v is None: return v
    if isinstance(v, PiecesV) and v.src is None: return v
    if isinstance(v, PiecesV): return fields(subst(v.src, pairs), subst(v.delim, pairs))
    if isinstance(v, TextV):
        r = TextV(subst(v.s, pairs))
        for q in v.p.values(): r.pieces(subst(q.delim, pairs) if is_z(q.delim) else q.delim)
        return v if is_z(v.s) and r.s.eq(v.s) else r
    if isinstance(v, MaybeV): return maybe(subst(v.c, pairs), subst(v.v, pairs))
    if isinstance(v, StructV): return StructV(v.t, {k: vsubst(x, pairs) for k, x in v.f.items()})
    if isinstance(v, TupV): return TupV([vsubst(x, pairs) for x in v.xs])
    if isinstance(v, PtrV): return v if v.lv is None else PtrV(lvsubst(v.lv, pairs), None if v.idx is None else subst(v.idx, pairs))
    if isinstance(v, RefV): return RefV(lvsubst(v.lv, pairs))
    if isinstance(v, StreamV):
        return StreamV(v.content if isinstance(v.content, BytesV) else vsubst(v.content, pairs), subst(v.pos, pairs), subst(v.eof, pairs), subst(v.fail, pairs), subst(v.isopen, pairs), v.meta)
    if isinstance(v, SeqV): return seqsubst(v, pairs)
    if isinstance(v, SetV) and v.s is not None: return symset(subst(v.s, pairs), v.seq.et)
    if isinstance(v, SetV):
        def has(x, v=v):
            if is_z(x):
                k = const('set!x', x.sort())
                return subst(v.has(k), pairs + [(k, x)])
            return subst(v.has(x), pairs)
        return SetV(seqsubst(v.seq, pairs), has)
    if isinstance(v, MapV):
        def val(y, v=v):
            if not is_z(y): y = zterm(y, v)
            k = const('map!y', y.sort())
            return vsubst(v.val(k), pairs + [(k, y)])
        return MapV(vsubst(v.keys, pairs), val, v.vt)
    raise Unsupported('substitution in %s' % type(v).__name__)

def lvsubst(lv, pairs):
    return LV(lv.loc, tuple((k, subst(x, pairs) if k == 'i' else x) for k, x in lv.path))

def seqsubst(v, pairs):
    n = subst(v.n, pairs)
    if v.kind == 'items': return SeqV(n, 'items', [vsubst(x, pairs) for x in v.a], v.et)
    def g(i, v=v):
        if conc(i): return vsubst(v.get(i), pairs)
        k = const('sub!i', I)
        return vsubst(v.get(k), pairs + [(k, i)])
    return SeqV(n, 'fn', g, v.et)

def no_default(t):
    """a record with reference members: it has no default value, so an element outside the written range is outside the sequence"""
    if t is None or t[0] != 'rec': return False
    d = default_like(t)
    return isinstance(d, StructV) and any(isinstance(x, Uninit) for x in d.f.values())

def default_like(t):
    """value-initialised value of a type"""
    k = t[0]
    if k == 'int': return 0
    if k == 'bool': return False
    if k == 'fp': return Fraction(0)
    if k == 'str': return ''
    if k == 'vec': return SeqV.items([], t[1])
    if k == 'arr': return SeqV(t[2], 'items', [default_like(t[1])] * t[2], t[1])
    if k == 'ref': return UNINIT
    if k in ('ptr', 'iter'): return NULL
    if k == 'sptr': return NULL
    if k == 'set': return empty_set(t[1])
    if k == 'map': return MapV(empty_set(t[1]), lambda x: default_like(t[2]), t[2])
    if k == 'tup': return TupV([default_like(x) for x in t[1:]])
    if k == 'rec' and t[1] in OPAQUE: return OPAQUE[t[1]]
    if k == 'rec' and REC_DEFAULT: return REC_DEFAULT[0](t)
    raise Unsupported('default value of %s' % (t,))
REC_DEFAULT = []
OPAQUE = {}     # records represented by one integer inside containers (their members are used through contracts only) -> default value
KNOWN = []

def empty_set(et): return SetV(SeqV.items([], et), lambda x: False)

def sort_of(t):
    k = t[0]
    if k == 'rec' and t[1] in OPAQUE: return I
    return {'int': I, 'bool': B, 'fp': R, 'str': S}.get(k)

def fresh(t, name, args=(), rec_fields=None, facts=None):
    """fresh symbolic value of type t, as a function of the integer terms args"""
    k = t[0]; s = sort_of(t)
    if s is not None:
        if not args: return const(name, s)
        return func(name, *([I] * len(args) + [s]))(*args)
    if k in ('vec', 'arr'):
        et = t[1]
        if k == 'arr': n = t[2]
        else:
            n = fresh(('int', 64, False), name + '.n', args)
            if facts is not None and not args: facts.append(n >= 0)
            if args: 
                define(n.decl(), lambda app: [app >= 0])
        return SeqV.fn(n, fresh_fn(et, name + '.e', args, rec_fields), et)
    if k == 'rec':
        flds = rec_fields(t[1])
        return StructV(t[1], {f: fresh(ft, name + '.' + f, args, rec_fields, facts) for f, ft in flds})
    if k == 'tup': return TupV([fresh(x, name + '.%d' % i, args, rec_fields, facts) for i, x in enumerate(t[1:])])
    if k == 'set':
        import sets
        th = sets.theory(sort_of(t[1]))
        return symset(func(name, *([I] * len(args) + [th.sort]))(*args) if args else const(name, th.sort), t[1])
    raise Unsupported('fresh value of type %s' % (t,))

def fresh_fn(et, name, args, rec_fields):
    """function index -> fresh value, the same symbol family for every index"""
    s = sort_of(et)
    if s is not None:
        d = func(name, *([I] * (len(args) + 1) + [s]))
        return lambda i: d(*(list(args) + [zi(i)]))
    if et[0] in ('vec', 'arr'):
        if et[0] == 'arr': nd = None
        else:
            nd = func(name + '.n', *([I] * (len(args) + 1) + [I]))
            define(nd, lambda app: [app >= 0])
        inner = {}
        sub = _fam(et[1], name + '.e', len(args) + 1, rec_fields)
        def f(i):
            a = list(args) + [zi(i)]
            n = et[2] if nd is None else nd(*a)
            return SeqV.fn(n, lambda j: sub(a + [zi(j)]), et[1])
        return f
    fam = _fam(et, name, len(args) + 1, rec_fields)
    return lambda i: fam(list(args) + [zi(i)])

def _fam(t, name, nargs, rec_fields):
    s = sort_of(t)
    if s is not None:
        d = func(name, *([I] * nargs + [s]))
        return lambda a: d(*a)
    if t[0] in ('vec', 'arr'):
        nd = func(name + '.n', *([I] * nargs + [I])) if t[0] == 'vec' else None
        if nd is not None: define(nd, lambda app: [app >= 0])
        sub = _fam(t[1], name + '.e', nargs + 1, rec_fields)
        return lambda a: SeqV.fn(t[2] if nd is None else nd(*a), lambda j: sub(list(a) + [zi(j)]), t[1])
    if t[0] == 'rec':
        fl = [(f, _fam(ft, name + '.' + f, nargs, rec_fields)) for f, ft in rec_fields(t[1])]
        return lambda a: StructV(t[1], {f: g(a) for f, g in fl})
    if t[0] == 'tup':
        fl = [_fam(x, name + '.%d' % i, nargs, rec_fields) for i, x in enumerate(t[1:])]
        return lambda a: TupV([g(a) for g in fl])
    if t[0] == 'set':
        import sets
        d = func(name, *([I] * nargs + [sets.theory(sort_of(t[1])).sort]))
        return lambda a: symset(d(*a), t[1])
    raise Unsupported('fresh family of type %s' % (t,))

def eq_goal(a, b, ext=True):
    """formula stating equality of two values, for use as a goal (skolemised extensionality)"""
    if isinstance(a, Uninit) or isinstance(b, Uninit) or isinstance(a, MaybeV) or isinstance(b, MaybeV):
        # indeterminate values compare equal only as 'both indeterminate'
        ca, va = (False, None) if isinstance(a, Uninit) else (a.c, a.v) if isinstance(a, MaybeV) else (True, a)
        cb, vb = (False, None) if isinstance(b, Uninit) else (b.c, b.v) if isinstance(b, MaybeV) else (True, b)
        e = veq(ca, cb)
        if va is None or vb is None: return e
        return And(e, Implies(And(ca, cb), eq_goal(va, vb)))
    if isscalar(a) and isscalar(b): return veq(a, b)
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        if conc(a.n) and conc(b.n):
            if a.n != b.n: return False
            if a.n <= 64 or (a.kind == 'items' and b.kind == 'items'):
                return And(*[eq_goal(a.get(i), b.get(i)) for i in range(a.n)])
        j = const('sk!j', I)
        return And(ieq(a.n, b.n), Implies(And(j >= 0, lt(j, a.n)), eq_goal(a.get(j), b.get(j))))
    if isinstance(a, StructV) and isinstance(b, StructV):
        return And(*[eq_goal(a.f[k], b.f[k]) for k in a.f]) if a.t == b.t else False
    if isinstance(a, TupV) and isinstance(b, TupV): return And(*[eq_goal(x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.lv is None or b.lv is None: return a.lv is None and b.lv is None
        if a.idx is None or b.idx is None: return And(lv_eq(a.lv, b.lv), a.idx is None and b.idx is None)
        return And(lv_eq(a.lv, b.lv), ieq(a.idx, b.idx))
    if isinstance(a, RefV) and isinstance(b, RefV): return lv_eq(a.lv, b.lv)
    if isinstance(a, StreamV) and isinstance(b, StreamV):
        return And(True if a.content is b.content else a.content.s.eq(b.content.s) if isinstance(a.content, TextV) and isinstance(b.content, TextV) else eq_goal(a.content, b.content), veq(a.pos, b.pos), veq(a.eof, b.eof), veq(a.fail, b.fail), veq(a.isopen, b.isopen))
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.keys is b.keys and a.val is b.val: return True
        y = const('sk!key', sort_of(a.keys.seq.et))
        return And(eq_goal(a.keys, b.keys), Implies(a.keys.has(y), eq_goal(a.val(y), b.val(y))))
    if isinstance(a, SetV) and isinstance(b, SetV):
        if a.s is not None and b.s is not None and a.s.eq(b.s): return True
        if a.s is None and b.s is None: return eq_goal(a.seq, b.seq)
        x = const('sk!x', sort_of(a.seq.et))
        return veq(a.has(x), b.has(x))
    if isinstance(a, (FuncV, OutV, BytesV)) and a is b: return True
    if isinstance(a, OutV) and isinstance(b, OutV):
        if len(a.chunks) != len(b.chunks): return False
        return And(*[veq(x, y) for x, y in zip(a.chunks, b.chunks)])
    if isinstance(a, SeqV) and isscalar(b): return seq_str_eq(a, b)
    if isinstance(b, SeqV) and isscalar(a): return seq_str_eq(b, a)
    return False

def seq_str_eq(q, s):
    if isinstance(s, str):
        if conc(q.n): return q.n == len(s) and And(*[veq(q.get(i), ord(c)) for i, c in enumerate(s)])
        return And(ieq(q.n, len(s)), *[veq(q.get(i), ord(c)) for i, c in enumerate(s)])
    j = const('sk!j', I)
    return And(ieq(q.n, slen(s)), Implies(And(j >= 0, lt(j, q.n)), veq(q.get(j), schar(s, j))))
