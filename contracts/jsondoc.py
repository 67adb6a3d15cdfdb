"""Contracts for parser/json.hpp.

A JSON item held in a list or a dictionary is one integer, its document (0 is the empty item): the members of a held item are
used through their contracts only, which are the contracts below for the item one level up (induction on the nesting depth).
The item under verification is the concrete object: kind and owned pointer to a leaf, list or dictionary."""
from contract import *
import sets, stdlib, interp as IN
E_ = 'EdgeLearning::'
JI, JO, JL, JD, JF = (E_ + x for x in ('JsonItem', 'JsonObject', 'JsonList', 'JsonDict', 'JsonLeaf'))
VV.OPAQUE[JI] = 0
ITEM = ('rec', JI)
LEAF, LIST, DICT, NONE = 0, 1, 2, 3
T_FLOAT, T_INT, T_BOOL, T_STRING, T_AUTO = 1, 2, 3, 4, 0
SZ, CH = ('int', 64, False), ('int', 8, True)
TYF = z3.Function('type of text', S, I)
EQD = z3.Function('equal documents', I, I, B)     # comparison of held items, decided by the contracts of operator== one level down
TXT = z3.Function('text of document', I, S)       # what operator<< writes for a held item
def rng(x, lo, hi): return And(le(lo, x), lt(x, hi))
def bad(o): return [('no exception', False)]
def ok(o): return o.kind in ('normal', 'return')
def val(it, x): return it.read(it.resolve(x)) if isinstance(x, LV) else x
def is_text(v): return isinstance(v, str) or is_z(v) and v.sort() == S
def opaque(v): return isscalar(v) and not is_text(v)
def held(f):
    """model of a JsonItem member for held items only"""
    def g(it, this, a, d):
        t = val(it, this)
        if isinstance(t, StructV): return NotImplemented
        return f(it, this, t, a, d)
    return g
def m_ctor(it, lv, a, d):
    if len(a) != 1: return False
    v = val(it, a[0])
    if not opaque(v) or JI.split('::')[-1] not in d['type']['qualType'].split('(')[1]: return False
    it.write(lv, v); return True
def doc(it, x):
    v = val(it, x)
    if isinstance(v, StructV): raise Unsupported('held item from a concrete one')
    return v
def m_assign(it, this, t, a, d): it.write(this, doc(it, a[0])); return this
def m_eq(it, this, t, a, d): return norm(EQD(zi(t), zi(doc(it, a[0]))))
def m_ne(it, this, t, a, d): return Not(norm(EQD(zi(t), zi(doc(it, a[0])))))
def m_write(it, this, a, d):
    if len(a) != 2: return NotImplemented
    v = val(it, a[1])
    if not opaque(v): return NotImplemented
    o = it.resolve(a[0]); s = it.read(o)
    if not stdlib.is_out(s): s = stdlib.out_text(''); it.write(o, s)
    it.write(o.f('buf'), stdlib.text_cat(s.f['buf'], TXT(zi(v)))); return a[0]
def m_tc(it, this, a, d):
    if len(a) != 1: return NotImplemented
    x = val(it, a[-1])
    return TYF(zs(x)) if isscalar(x) and is_text(x) else NotImplemented
CONV = {q: z3.Function('document as %s' % q, I, s) for q, s in (('double', R), ('int', I), ('string', S), ('bool', B))}
LEAFD = z3.Function('document is a leaf', I, B)
def m_conv(q):
    def f(it, this, t, a, d):
        if it.decide(norm(LEAFD(zi(t)))): return CONV[q](zi(t))
        raise IN.ThrowEx('runtime_error', None)
    return f
NUMD = z3.Function('number of text', S, R); NUMI = z3.Function('integer of text', S, I)
def convert(it, this, a, d):
    q = d['type']['qualType']
    if len(a) != 2: return NotImplemented
    for k, f in (('double &', NUMD), ('int &', NUMI)):
        if k in q: it.write(it.resolve(a[1]), f(zs(val(it, a[0])))); return True
    return NotImplemented
MODELS = {'ctor:' + JI: m_ctor, JI + '::operator=': held(m_assign), JI + '::operator==': held(m_eq), JI + '::operator!=': held(m_ne), E_ + 'TypeChecker::parse': m_tc, E_ + 'operator<<': m_write,
  JI + '::operator double': held(m_conv('double')), JI + '::operator int': held(m_conv('int')), JI + '::operator basic_string': held(m_conv('string')), JI + '::operator bool': held(m_conv('bool')), E_ + 'convert': convert}
T.define(EQD, lambda x: [x == EQD(x.arg(1), x.arg(0))] + ([x] if x.arg(0).eq(x.arg(1)) else []))
def V(name, fn, setup, **k): return Contract(name, E_ + 'drv::' + fn, setup, models=dict(MODELS, **k.pop('models', {})), **k)
def tchk(): return StructV(E_ + 'TypeChecker', {})
def obj(t, kind, **f): return StructV(t, dict(_tc=tchk(), _json_type=kind, **f))
class Leaf:
    kind, rec = LEAF, JF
    def __init__(self, env, nm=''):
        self.s, self.t = env.string(nm + 'leaf'), env.int(nm + 'leaf.type'); self.v = obj(JF, LEAF, _val=self.s, _type=self.t); self.lv = env.it.alloc(self.v)
    def is_(self, v): return [('leaf text', veq(v.f['_val'], self.s)), ('leaf type', veq(v.f['_type'], self.t))]
class List:
    kind, rec = LIST, JL
    def __init__(self, env, nm='', n=None):
        self.n = env.nat(nm + 'items') if n is None else n; self.f = func(nm + 'item', I, I); self.v = obj(JL, LIST, _list=SeqV.fn(self.n, lambda i: self.f(zi(i)), ITEM)); self.lv = env.it.alloc(self.v)
    def at(self, i): return self.f(zi(i))
    def is_(self, v):
        j = const('j', I); l = v.f['_list']
        return [('item count', ieq(l.n, self.n)), ('same document at every index', Implies(rng(j, 0, self.n), veq(l.get(j), self.at(j))))]
class Dict:
    kind, rec = DICT, JD
    def __init__(self, env, nm='', keys=None):
        self.k = const(nm + 'keys', sets.theory(S).sort) if keys is None else keys; self.f = func(nm + 'value', S, I)
        self.keys = symset(self.k, ('str',)); self.v = obj(JD, DICT, _map=MapV(self.keys, lambda y: self.f(zs(y)), ITEM)); self.lv = env.it.alloc(self.v)
    def has(self, k): return self.keys.has(zs(k))
    def at(self, k): return self.f(zs(k))
    def is_(self, v):
        k = const('k', S); m = v.f['_map']
        return [('same keys', veq(m.keys.has(k), self.has(k))), ('same document at every key', Implies(self.has(k), veq(m.val(k), self.at(k))))]
KINDS = {'leaf': Leaf, 'list': List, 'dict': Dict, 'empty': None}
class Item:
    def __init__(self, env, kind, nm='', sub_=None):
        self.sub = sub_ or (KINDS[kind](env, nm) if KINDS[kind] else None)
        self.v = obj(JI, self.sub.kind if self.sub else NONE, _value=PtrV(self.sub.lv) if self.sub else NULL); self.lv = env.it.alloc(self.v)
        self.kind = kind
    def frozen(self, env, w='source'):
        """this item is unchanged: same kind, same owned object, same content"""
        return is_item(env, env.it.read(self.lv), self, w, own=True)
def is_item(env, v, src, w='copy', own=False, any_=False):
    if not isinstance(v, StructV): return [(w + ' is an item', False)]
    s = src.sub; p = v.f['_value']
    if s is None: return [(w + ' is empty', p.lv is None), (w + ' kind', ieq(v.f['_json_type'], NONE))]
    out = [(w + ' kind', ieq(v.f['_json_type'], s.kind)), (w + ' not empty', p.lv is not None)]
    if p.lv is None: return out
    out.append((w + (' keeps its object' if own else ' has its own object'), any_ or p.lv.same(s.lv) == own))
    x = env.it.read(p.lv)
    if not isinstance(x, StructV) or x.t != s.rec: return out + [(w + ' class', False)]
    return out + [(w + ' inner kind', ieq(x.f['_json_type'], s.kind))] + [(w + ': ' + a, b) for a, b in s.is_(x)]
# ------------------------------------------------------------------ C14: copies
def c_copy(kind):
    def su(env):
        a = Item(env, kind); out = Seen(env)
        return None, [a.lv], lambda env, o: is_item(env, out[-1], a) + a.frozen(env) if ok(o) else bad(o)
    return su
def c_assign(ka, kb):
    def su(env):
        a, b = Item(env, ka, 'a.'), Item(env, kb, 'b.')
        return None, [a.lv, b.lv], lambda env, o: is_item(env, env.it.read(a.lv), b) + b.frozen(env) if ok(o) else bad(o)
    return su
def c_self(kind):
    def su(env):
        a = Item(env, kind)
        return None, [a.lv, a.lv], lambda env, o: is_item(env, env.it.read(a.lv), a, any_=True) if ok(o) else bad(o)
    return su
def c_of(kind, byval=False):
    def su(env):
        s = KINDS[kind](env); out = Seen(env)
        a = Item(env, kind, sub_=s)
        x = env.it.read(s.lv).f['_list' if kind == 'list' else '_map'] if byval else s.lv
        return None, [x], lambda env, o: is_item(env, out[-1], a) + ([] if byval else [('source: ' + n, g) for n, g in s.is_(env.it.read(s.lv))]) if ok(o) else bad(o)
    return su
def c_obj_copy(kind, byval=False):
    def su(env):
        s = KINDS[kind](env); out = Seen(env)
        x = env.it.read(s.lv).f['_list' if kind == 'list' else '_map'] if byval else s.lv
        def post(env, o):
            if not ok(o): return bad(o)
            return [('kind', ieq(out[-1].f['_json_type'], s.kind))] + s.is_(out[-1]) + ([] if byval else [('source: ' + n, g) for n, g in s.is_(env.it.read(s.lv))])
        return None, [x], post
    return su
def c14():
    return [V('JsonItem(const JsonItem&) of %s' % k, 'item_copy', c_copy(k)) for k in KINDS] + [V('JsonItem::operator= %s = %s' % (a, b), 'item_assign', c_assign(a, b)) for a in KINDS for b in KINDS] + \
      [V('JsonItem::operator= self, %s' % a, 'item_assign', c_self(a)) for a in KINDS] + \
      [V('JsonItem(%s)' % k, 'item_of_' + k, c_of(k)) for k in ('leaf', 'list', 'dict')] + [V('JsonItem(vector)', 'item_of_items', c_of('list', True)), V('JsonItem(map)', 'item_of_map', c_of('dict', True))] + \
      [V('%s copy' % k, k + '_copy', c_obj_copy(k)) for k in ('list', 'dict')] + [V('JsonList(vector)', 'list_of_items', c_obj_copy('list', True)), V('JsonDict(map)', 'dict_of_map', c_obj_copy('dict', True))]

# ------------------------------------------------------------------ C15: equality
def pair(env, kind, same, how=None):
    """two values of one kind that are structurally equal / different"""
    K = KINDS[kind]
    if K is None: return None, None
    if kind == 'leaf':
        a, b = K(env, 'a.'), K(env, 'b.'); env.assume(veq(a.s, b.s) if same else Not(veq(a.s, b.s)))
    elif kind == 'list':
        a = K(env, 'a.'); b = K(env, 'b.', a.n if same else None)
        if same: T.define(a.f, lambda x: [z3.Implies(z3.And(x.arg(0) >= 0, x.arg(0) < zi(a.n)), EQD(x, b.f(x.arg(0))))])
        else: w = const('w', I); env.assume(Or(Not(ieq(a.n, b.n)), And(rng(w, 0, a.n), Not(EQD(a.f(w), b.f(w))))))
    else:
        a = K(env, 'a.'); b = K(env, 'b.', a.k if same or how == 'values' else None)
        if same: T.define(a.f, lambda x: [z3.Implies(zb(a.has(x.arg(0))), EQD(x, b.f(x.arg(0))))])
        else:
            # different dictionaries: other sizes, or a key each that the other lacks (finite sets of one size), or the same keys and a different value
            w, w1, w2 = const('w', S), const('w1', S), const('w2', S); na, nb = a.keys.seq.n, b.keys.seq.n
            if how == 'sizes': env.assume(Not(ieq(na, nb)))
            if how == 'keys': env.assume(And(ieq(na, nb), a.has(w1), Not(b.has(w1)), b.has(w2), Not(a.has(w2))))
            if how == 'values': env.assume(And(a.has(w), Not(EQD(a.f(w), b.f(w)))))
    return a, b
def c_eq(kind, same, ne, item, how=None):
    def su(env):
        a, b = pair(env, kind, same, how)
        if item: x, y = Item(env, kind, 'a.', a), Item(env, kind, 'b.', b)
        else: x, y = a, b
        def post(env, o):
            if not ok(o): return bad(o)
            fr = x.frozen(env, 'left operand') + y.frozen(env, 'right operand') if item else []
            return [('answer', veq(o.v, same != ne))] + fr
        return None, [x.lv, y.lv], post
    return su
def c_kinds(ka, kb, ne, item):
    def su(env):
        if item: x, y = Item(env, ka, 'a.'), Item(env, kb, 'b.')
        else: x, y = KINDS[ka](env, 'a.'), KINDS[kb](env, 'b.')
        return None, [x.lv, y.lv], lambda env, o: [('different kinds differ', veq(o.v, ne))] if ok(o) else bad(o)
    return su
def c15():
    L = []
    Q = {'trip_forall': 1}
    for k in ('leaf', 'list', 'dict'):
        for same in (True, False):
            for ne, how in [(ne, h) for ne in (False, True) for h in (('sizes', 'keys', 'values') if k == 'dict' and not same else (None,))]:
                op, w = ('!=' if ne else '=='), ('equal' if same else 'different' + (' ' + how if how else ''))
                L += [V('Json%s operator%s (%s)' % (k, op, w), k + ('_ne' if ne else '_eq'), c_eq(k, same, ne, False, how), opts=Q), V('JsonObject operator%s (%s %ss)' % (op, w, k), 'obj_ne' if ne else 'obj_eq', c_eq(k, same, ne, False, how), opts=Q),
                      V('JsonItem operator%s (%s %ss)' % (op, w, k), 'item_ne' if ne else 'item_eq', c_eq(k, same, ne, True, how), opts=Q)]
    for ne in (False, True):
        op = '!=' if ne else '=='
        L.append(V('JsonItem operator%s (both empty)' % op, 'item_ne' if ne else 'item_eq', c_eq('empty', True, ne, True)))
        L += [V('JsonItem operator%s %s, %s' % (op, a, b), 'item_ne' if ne else 'item_eq', c_kinds(a, b, ne, True)) for a in KINDS for b in KINDS if a != b]
        L += [V('JsonObject operator%s %s, %s' % (op, a, b), 'obj_ne' if ne else 'obj_eq', c_kinds(a, b, ne, False)) for a in KINDS for b in KINDS if a != b and 'empty' not in (a, b)]
    return L
# ------------------------------------------------------------------ C16: access, growth, conversion
def thrown(env, o, a): return [('rejected', o.kind == 'throw'), ('error type', o.kind == 'throw' and o.v[0] == 'runtime_error')] + (a.frozen(env, 'item') if a else [])
_D = z3.Const('stored document', I)
D_ = lambda: _D
def list_after(env, l, cases, n):
    """content of list object after the call: cases [(cond on index, doc)]"""
    v = env.it.read(l).f['_list'] if not isinstance(l, SeqV) else l
    j = const('j', I); g = [Implies(And(rng(j, 0, n), c(j)), veq(v.get(j), d(j))) for c, d in cases]
    return [('item count', ieq(v.n, n))] + [('items in place/%d' % i, x) for i, x in enumerate(g)]
def c_list_at(const_, item, int_=False):
    def su(env):
        a = Item(env, 'list') if item else List(env); l = a.sub if item else a
        i = env.nat('i', 0, 2 ** 31 if int_ else 2 ** 63)
        def post(env, o):
            inb = lt(i, l.n)
            if o.kind == 'throw': return [('rejected only outside the list', Not(inb)), ('error type', o.v[0] == 'runtime_error')] + (a.frozen(env, 'item') if item else l.is_(env.it.read(l.lv)))
            r = [('answers only inside the list', inb), ('the item at the index', veq(env.it.read(env.it.resolve(o.v)), l.at(i)))]
            if const_: return r + (a.frozen(env, 'item') if item else l.is_(env.it.read(l.lv)))
            env.it.assume(inb); env.it.write(env.it.resolve(o.v), D_())
            return r + [('stored through the result/' + n, g) for n, g in list_after(env, l.lv, [(lambda j: ieq(j, i), lambda j: D_()), (lambda j: Not(ieq(j, i)), l.at)], l.n)] + ([('same object', env.it.read(a.lv).f['_value'].lv.same(l.lv))] if item else [])
        return None, [a.lv, i], post
    return su
def c_throws(kind, mk):
    def su(env):
        a = Item(env, kind)
        return None, [a.lv] + mk(env), lambda env, o: thrown(env, o, a)
    return su
def dict_after(env, lv, d, k, x, kept=True):
    m = env.it.read(lv).f['_map']; y = const('y', S); has = (lambda z: d.has(z)) if kept else (lambda z: False)
    return [('keys', veq(m.keys.has(y), Or(has(y), veq(y, k)))), ('value at the key', veq(m.val(k), x))] + ([('other values kept', Implies(And(has(y), Not(veq(y, k))), veq(m.val(y), d.at(y))))] if kept else [])
def c_dict_key(item, empty=False):
    def su(env):
        a = Item(env, 'empty' if empty else 'dict') if item else Dict(env); d = None if empty else (a.sub if item else a)
        k = env.string('key')
        def post(env, o):
            if not ok(o): return bad(o)
            if item:
                v = env.it.read(a.lv); p = v.f['_value'].lv
                if p is None or env.it.read(p).t != JD: return [('a dictionary afterwards', False)]
                pre = [('kind', ieq(v.f['_json_type'], DICT)), ('inner kind', ieq(env.it.read(p).f['_json_type'], DICT)), ('same object', empty or p.same(d.lv))]
            else: p, pre = d.lv, []
            was = 0 if empty else z3.If(zb(d.has(k)), d.at(k), zi(0))
            r = env.it.resolve(o.v)
            g = pre + [('value at the key, or a new empty item', veq(env.it.read(r), was))] + dict_after(env, p, d, k, was, not empty)
            env.it.write(r, D_())
            return g + [('stored through the result/' + n, x) for n, x in dict_after(env, p, d, k, D_(), not empty)]
        return None, [a.lv, k], post
    return su
def c_dict_at(item):
    def su(env):
        a = Item(env, 'dict') if item else Dict(env); d = a.sub if item else a; k = env.string('key')
        def post(env, o):
            fr = a.frozen(env, 'item') if item else d.is_(env.it.read(d.lv))
            if o.kind == 'throw': return [('rejected only for an absent key', Not(d.has(k))), ('error type', o.v[0] == 'runtime_error')] + fr
            return [('answers only for a present key', d.has(k)), ('the value at the key', veq(env.it.read(env.it.resolve(o.v)), d.at(k)))] + fr
        return None, [a.lv, k], post
    return su
def c_append(item, empty=False):
    def su(env):
        a = Item(env, 'empty' if empty else 'list') if item else List(env); l = None if empty else (a.sub if item else a); x = env.int('appended')
        def post(env, o):
            if not ok(o): return bad(o)
            pre = []; p = None if empty else l.lv
            if item:
                v = env.it.read(a.lv); p = v.f['_value'].lv
                if p is None or env.it.read(p).t != JL: return [('a list afterwards', False)]
                pre = [('kind', ieq(v.f['_json_type'], LIST)), ('inner kind', ieq(env.it.read(p).f['_json_type'], LIST)), ('same object', empty or p.same(l.lv))]
            n = 0 if empty else l.n
            return pre + list_after(env, p, [(lambda j: ieq(j, n), lambda j: x)] + ([] if empty else [(lambda j: lt(j, n), l.at)]), add(n, 1))
        return None, [a.lv, x], post
    return su
def c_size(kind, item):
    def su(env):
        a = Item(env, kind) if item else KINDS[kind](env); s = a.sub if item else a
        n = 0 if kind in ('leaf', 'empty') else (s.n if kind == 'list' else s.keys.seq.n)
        return None, [a.lv], lambda env, o: [('number of items', ieq(o.v, n))] + (a.frozen(env, 'item') if item else []) if ok(o) else bad(o)
    return su
def c_empty(kind):
    def su(env):
        s = KINDS[kind](env); n = s.n if kind == 'list' else s.keys.seq.n
        return None, [s.lv], lambda env, o: [('empty exactly when without items', veq(o.v, ieq(n, 0)))] if ok(o) else bad(o)
    return su
def c_value(kind):
    def su(env):
        a = Item(env, kind)
        return None, [a.lv], lambda env, o: ([('the object itself', isinstance(o.v, LV) and env.it.resolve(o.v).same(a.sub.lv))] + a.frozen(env, 'item') if ok(o) else bad(o)) if a.sub else thrown(env, o, a)
    return su
def c_get(want, item=True):
    def su(env):
        a = Item(env, 'leaf') if item else Leaf(env); s = a.sub if item else a
        return None, [a.lv], lambda env, o: [('value of the leaf', veq(val(env.it, o.v), want(s)))] + (a.frozen(env, 'item') if item else []) if ok(o) else bad(o)
    return su
def c_as_list(q, item, allleaf):
    def su(env):
        a = Item(env, 'list') if item else List(env); l = a.sub if item else a
        if allleaf: T.define(l.f, lambda x: [z3.Implies(z3.And(x.arg(0) >= 0, x.arg(0) < zi(l.n)), LEAFD(x))])
        else: w = const('w', I); env.assume(And(rng(w, 0, l.n), Not(LEAFD(l.f(w)))))
        def post(env, o):
            if not allleaf: return thrown(env, o, a if item else None)
            if not ok(o): return bad(o)
            j = const('j', I)
            return [('one value per item', ieq(o.v.n, l.n)), ('value of the item at the same place', Implies(rng(j, 0, l.n), eq_goal(o.v.get(j), CONV[q](l.f(j)))))] + (a.frozen(env, 'item') if item else [])
        return None, [a.lv], post
    return su
def c_as_map(q, item, allleaf):
    def su(env):
        a = Item(env, 'dict') if item else Dict(env); d = a.sub if item else a
        if allleaf: T.define(d.f, lambda x: [z3.Implies(zb(d.has(x.arg(0))), LEAFD(x))])
        else: w = const('w', S); env.assume(And(d.has(w), Not(LEAFD(d.f(w)))))
        def post(env, o):
            if not allleaf: return thrown(env, o, a if item else None)
            if not ok(o): return bad(o)
            k = const('k', S)
            return [('same keys', veq(o.v.keys.has(k), d.has(k))), ('value of the item at the same key', Implies(d.has(k), eq_goal(o.v.val(k), CONV[q](d.f(k)))))] + (a.frozen(env, 'item') if item else [])
        return None, [a.lv], post
    return su
TOS = {'int': 'std::to_string of int'}
def c_leaf_of(item, mk, want):
    def su(env):
        x = mk(env); out = Seen(env)
        def post(env, o):
            if not ok(o): return bad(o)
            v = out[-1]
            pre = []
            if item:
                p = v.f['_value'].lv
                if p is None or env.it.read(p).t != JF: return [('a leaf', False)]
                pre = [('kind', ieq(v.f['_json_type'], LEAF))]; v = env.it.read(p)
            s, t = want(val(env.it, x))
            return pre + [('inner kind', ieq(v.f['_json_type'], LEAF)), ('text', veq(v.f['_val'], s)), ('type', veq(v.f['_type'], t))]
        return None, [x], post
    return su
OFV = {q: z3.Function('item of %s' % q, t, I) for q, t in (('int', I), ('double', R), ('text', S))}
def m_ctor_of(it, lv, a, d):
    """JsonItem(value) by its contract: a new leaf item of the value"""
    if len(a) == 1:
        q = d['type']['qualType'].split('(')[1].split(')')[0]
        x = val(it, a[0])
        for k, c in (('int', 'int'), ('double', 'double'), ('std::string', 'text')):
            if q == k and isscalar(x): it.write(lv, OFV[c](zs(x) if c == 'text' else coerce(term(x), OFV[c].domain(0)))); return True
    return m_ctor(it, lv, a, d)
def c_list_of(q, et):
    def su(env):
        n = env.nat('values'); f = func('value', I, sort_of(et)); out = Seen(env); j = const('j', I)
        return None, [SeqV.fn(n, lambda i: f(zi(i)), et)], lambda env, o: [('kind', ieq(out[-1].f['_json_type'], LIST)), ('one item per value', ieq(out[-1].f['_list'].n, n)), ('item of the value at the same place', Implies(rng(j, 0, n), eq_goal(out[-1].f['_list'].get(j), OFV[q](f(j)))))] if ok(o) else bad(o)
    return su
def c_dict_of(q, et):
    def su(env):
        ks = symset(const('keys', sets.theory(S).sort), ('str',)); f = func('value', S, sort_of(et)); out = Seen(env); k = const('k', S)
        return None, [MapV(ks, lambda y: f(zs(y)), et)], lambda env, o: [('kind', ieq(out[-1].f['_json_type'], DICT)), ('same keys', veq(out[-1].f['_map'].keys.has(k), ks.has(k))), ('item of the value at the same key', Implies(ks.has(k), eq_goal(out[-1].f['_map'].val(k), OFV[q](f(k)))))] if ok(o) else bad(o)
    return su
def c16_make():
    C = {'ctor:' + JI: m_ctor_of}
    L = [V('JsonList(vector of %s)' % q, 'list_of_' + w, c_list_of(q, et), models=C) for q, w, et in (('int', 'ints', ('int', 32, True)), ('double', 'doubles', ('fp',)), ('text', 'texts', ('str',)))]
    L += [V('JsonDict(map of %s)' % q, 'dict_of_' + w, c_dict_of(q, et), models=C) for q, w, et in (('int', 'ints', ('int', 32, True)), ('text', 'texts', ('str',)))]
    tx = lambda x: (zs(x), z3.If(zs(x) == z3.StringVal(''), zi(T_STRING), TYF(zs(x))))
    bo = lambda x: (z3.If(zb(x), z3.StringVal('true'), z3.StringVal('false')), T_BOOL)
    num = lambda t: lambda x: (z3.Function('tostr', term(x).sort(), S)(term(x)), t)
    for item in (False, True):
        p, f = ('JsonItem', 'item_of_') if item else ('JsonLeaf', 'leaf_of_')
        L += [V(p + '(text)', f + 'text', c_leaf_of(item, lambda env: (lambda s: s if item else env.it.alloc(s))(env.string('text')), tx)), V(p + '(bool)', f + 'bool', c_leaf_of(item, lambda env: env.bool('b'), bo)), V(p + '(int)', f + 'int', c_leaf_of(item, lambda env: env.int('i'), num(T_INT))), V(p + '(double)', f + 'double', c_leaf_of(item, lambda env: env.real('x'), num(T_FLOAT)))]
    L += [V('JsonItem(%s)' % w, 'item_of_' + w, c_leaf_of(True, lambda env: env.int('i'), num(T_INT))) for w in ('long', 'ulong')]
    return L
# ------------------------------------------------------------------ C13: writing
CAT = stdlib.text_cat
def wr_leaf(env, s): return z3.If(zi(s.t) == T_STRING, z3.Concat(z3.StringVal('"'), s.s, z3.StringVal('"')), s.s)
def wr_list(env, s, pre):
    body = lambda acc, i: CAT(CAT(acc, TXT(s.f(zi(i)))), ',')
    return z3.If(zi(s.n) == 0, zs(CAT(pre, '[]')), zs(CAT(CAT(env.fold(zs(CAT(pre, '[')), body, sub(s.n, 1)), TXT(s.f(zi(sub(s.n, 1))))), ']')))
def wr_dict(env, s, pre):
    k = lambda i: zs(s.keys.seq.get(i)); n = s.keys.seq.n
    def body(acc, i):
        x = CAT(CAT(CAT(CAT(CAT(acc, '"'), k(i)), '"'), ':'), TXT(s.f(k(i))))
        return z3.If(zi(i) == zi(n) - 1, zs(x), zs(CAT(x, ',')))
    return CAT(env.fold(zs(CAT(pre, '{')), body, n), '}')
def wrote(env, s, pre, kind):
    return CAT(pre, wr_leaf(env, s)) if kind == 'leaf' else (wr_list if kind == 'list' else wr_dict)(env, s, pre)
def c_write(kind, how):
    def su(env):
        a = Item(env, kind) if how == 'item' else KINDS[kind](env); s = a.sub if how == 'item' else a
        pre = env.string('written before'); os_ = env.it.alloc(stdlib.out_text(pre))
        def post(env, o):
            if not ok(o): return bad(o)
            got = env.it.read(os_).f['buf']
            return [('the text of the document is appended', veq(got, pre if kind == 'empty' else wrote(env, s, pre, kind)))] + (a.frozen(env, 'item') if how == 'item' else s.is_(env.it.read(s.lv)))
        return None, [os_, a.lv], post
    return su
def c_as_text(kind, item):
    def su(env):
        a = Item(env, kind) if item else KINDS[kind](env); s = a.sub if item else a
        return None, [a.lv], lambda env, o: [('the written text', veq(o.v, '' if kind == 'empty' else wrote(env, s, '', kind)))] if ok(o) else bad(o)
    return su
def c13():
    L = [V('write Json%s' % k, k + '_write', c_write(k, 'own')) for k in ('leaf', 'list', 'dict')] + [V('write JsonObject (%s)' % k, 'obj_write', c_write(k, 'obj')) for k in ('leaf', 'list', 'dict')] + [V('write JsonItem (%s)' % k, 'item_write', c_write(k, 'item')) for k in KINDS]
    return L + [V('JsonItem as text (%s)' % k, 'item_text', c_as_text(k, True)) for k in ('list', 'dict', 'empty')]
STR = lambda env: [env.string('arg')]
NAT = lambda env: [env.nat('arg')]
ITM = lambda env: [env.int('arg')]
def c16():
    L = [V('JsonList::operator[]', 'list_idx', c_list_at(False, False)), V('JsonList::at', 'list_at', c_list_at(True, False)), V('JsonItem::operator[](index) on a list', 'item_idx', c_list_at(False, True)), V('JsonItem::operator[](int) on a list', 'item_idx_int', c_list_at(False, True, True)),
         V('JsonItem::at(index) on a list', 'item_at', c_list_at(True, True)), V('JsonDict::operator[]', 'dict_key', c_dict_key(False)), V('JsonItem::operator[](key) on a dictionary', 'item_key', c_dict_key(True)), V('JsonItem::operator[](key) on an empty item', 'item_key', c_dict_key(True, True)),
         V('JsonDict::at', 'dict_at', c_dict_at(False)), V('JsonItem::at(key) on a dictionary', 'item_at_key', c_dict_at(True)), V('JsonList::append', 'list_append', c_append(False)), V('JsonItem::append on a list', 'item_append', c_append(True)), V('JsonItem::append on an empty item', 'item_append', c_append(True, True)),
         V('JsonList::size', 'list_size', c_size('list', False)), V('JsonDict::size', 'dict_size', c_size('dict', False)), V('JsonList::empty', 'list_empty', c_empty('list')), V('JsonDict::empty', 'dict_empty', c_empty('dict'))]
    L += [V('JsonItem::size of %s' % k, 'item_size', c_size(k, True)) for k in KINDS] + [V('JsonItem::value of %s' % k, 'item_value', c_value(k)) for k in KINDS]
    for f, nm, mk, kinds in (('item_idx', 'operator[](index)', NAT, ('leaf', 'dict', 'empty')), ('item_idx_int', 'operator[](int)', lambda env: [env.nat('arg', 0, 2 ** 31)], ('leaf', 'dict', 'empty')), ('item_at', 'at(index)', NAT, ('leaf', 'dict', 'empty')), ('item_key', 'operator[](key)', STR, ('leaf', 'list')),
                             ('item_at_key', 'at(key)', STR, ('leaf', 'list', 'empty')), ('item_append', 'append', ITM, ('leaf', 'dict')), ('item_as_double', 'as<double>', lambda env: [], ('list', 'dict', 'empty')), ('item_as_int', 'as<int>', lambda env: [], ('list', 'dict', 'empty')),
                             ('item_as_bool', 'as<bool>', lambda env: [], ('list', 'dict', 'empty')), ('item_as_vec', 'as_vec', lambda env: [], ('leaf', 'dict', 'empty')), ('item_as_map', 'as_map', lambda env: [], ('leaf', 'list', 'empty'))):
        L += [V('JsonItem::%s rejects %s' % (nm, k), f, c_throws(k, mk)) for k in kinds]
    num, int_, boo, txt = (lambda s: NUMD(s.s)), (lambda s: NUMI(s.s)), (lambda s: Or(veq(s.s, 'true'), veq(s.s, '1'))), (lambda s: s.s)
    L += [V('JsonItem::as<double>', 'item_as_double', c_get(num)), V('JsonItem::as<int>', 'item_as_int', c_get(int_)), V('JsonItem::as<bool>', 'item_as_bool', c_get(boo)), V('JsonItem::as<string>', 'item_as_text', c_get(txt)), V('JsonItem as text', 'item_text', c_get(txt)),
          V('JsonLeaf as text', 'leaf_text', c_get(txt, False)), V('JsonLeaf::as<bool>', 'leaf_as_bool', c_get(boo, False)), V('JsonLeaf::as<double>', 'leaf_as_double', c_get(num, False)), V('JsonLeaf::as<int>', 'leaf_as_int', c_get(int_, False)), V('JsonLeaf::type', 'leaf_type', c_get(lambda s: s.t, False))]
    for al in (True, False):
        Q = {} if al else {'trip_forall': 1}
        w = 'all leaves' if al else 'an item that is no leaf'
        L += [V('JsonItem::as_vec<double> (%s)' % w, 'item_as_vec', c_as_list('double', True, al), opts=Q), V('JsonList::as<double> (%s)' % w, 'list_as', c_as_list('double', False, al), opts=Q), V('JsonItem::as_map<double> (%s)' % w, 'item_as_map', c_as_map('double', True, al), opts=Q), V('JsonDict::as<double> (%s)' % w, 'dict_as', c_as_map('double', False, al), opts=Q)]
    L.append(V('JsonItem::as_vec<string>', 'item_as_texts', c_as_list('string', True, True)))
    return L + c16_make()
