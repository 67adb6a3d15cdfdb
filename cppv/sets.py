"""Ordered sets as terms: membership, cardinality, i-th element, rank and lower bound, with instantiated axioms.
A set built by the code is a new term whose membership is defined by a formula (never assumed)."""
import z3, itertools
import terms as T
from terms import *

class Theory:
    def __init__(self, e):
        self.e = e; n = str(e)
        self.sort = z3.DeclareSort('Set' + n)
        self.MEM = z3.Function('mem' + n, self.sort, e, B); self.CARD = z3.Function('card' + n, self.sort, I)
        self.ELEM = z3.Function('elem' + n, self.sort, I, e); self.RANK = z3.Function('rank' + n, self.sort, e, I)
        self.LB = z3.Function('lb' + n, self.sort, e, I); self.DIFF = z3.Function('diff' + n, self.sort, self.sort, e)
TH = {}
BYSORT = {}
def theory(esort):
    t = TH.get(str(esort))
    if t is None:
        t = TH[str(esort)] = Theory(esort); BYSORT[str(t.sort)] = t
        for d, k in ((t.MEM, 'mem'), (t.CARD, 'card'), (t.ELEM, 'elem'), (t.RANK, 'rank'), (t.LB, 'lb')): DECL[d.get_id()] = (t, k)
        T._keep.append(t)
    return t
DECL = {}
PRED = {}      # decl id of the head of a defined set term -> (X const, param consts, formula)
_mk = {}
def mkset(esort, pred):
    """set {x | pred(x)} as a term; pred gives a formula"""
    th = theory(esort)
    X = z3.Const('set!X!' + str(esort), esort)
    phi = zb(pred(X))
    phi = z3.simplify(phi) if is_z(phi) else phi
    ps = [c for c in consts_of(phi) if not c.eq(X)]
    uq = []
    for p in ps:
        if not any(p.eq(q) for q in uq): uq.append(p)
    canon_ = [z3.Const('sp!%d!%s' % (i, p.sort()), p.sort()) for i, p in enumerate(uq)]
    g = z3.substitute(phi, *zip(uq, canon_)) if uq else phi
    key = (str(esort), g.get_id())
    e = _mk.get(key)
    if e is None:
        d = z3.Function('set!%d' % len(_mk), *([p.sort() for p in canon_] + [th.sort]))
        e = _mk[key] = (d, g); PRED[d.get_id()] = (X, canon_, g); T._keep.append((d, g, canon_))
    return e[0](*uq)
def definition(s, x):
    """membership of x by the definition of the set term s, or None"""
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = s.children(); th = BYSORT[str(s.sort())]
        return z3.If(c, th.MEM(a, x), th.MEM(b, x))
    p = PRED.get(s.decl().get_id())
    if p is None: return None
    X, ps, g = p
    return z3.simplify(z3.substitute(g, *(list(zip(ps, s.children())) + [(X, x)])))

MEMO = {}
class Inst:
    """axiom instances for one query"""
    def __init__(self): self.elem = {}; self.rank = {}; self.lbs = {}; self.mem = {}; self.sets = {}; self.done = set()
    def add(self, x):
        t, k = DECL[x.decl().get_id()]
        s = x.arg(0); out = []
        if s.get_id() not in self.sets:
            self.sets[s.get_id()] = s; out.append(t.CARD(s) >= 0)
            if len(self.sets) <= 6:
                for o in self.sets.values():
                    if not o.eq(s) and o.sort() == s.sort():
                        d, e = t.DIFF(o, s), t.DIFF(s, o); out.append(z3.Or(o == s, t.MEM(o, d) != t.MEM(s, d)))
                        # finite sets: a set that is not larger, and is another one, lacks an element of the other
                        out += [z3.Or(o == s, t.CARD(s) > t.CARD(o), z3.And(t.MEM(o, d), z3.Not(t.MEM(s, d)))), z3.Or(o == s, t.CARD(o) > t.CARD(s), z3.And(t.MEM(s, e), z3.Not(t.MEM(o, e))))]
        n = t.CARD(s)
        if k == 'mem':
            v = x.arg(1); r = t.RANK(s, v)
            out.append(z3.Implies(x, z3.And(r >= 0, r < n, t.ELEM(s, r) == v)))
            f = definition(s, v)
            if f is not None: out.append(x == f)
        elif k == 'card':
            for i in (z3.IntVal(0), z3.simplify(n - 1)):
                out.append(z3.Implies(n > 0, t.MEM(s, t.ELEM(s, i))))
        elif k == 'elem':
            i = x.arg(1)
            out.append(z3.Implies(z3.And(i >= 0, i < n), z3.And(t.MEM(s, x), t.RANK(s, x) == i)))
            l = self.elem.setdefault(s.get_id(), [])
            for y in l[:14]:
                e = MEMO.get((x.get_id(), y.get_id()))
                if e is None:
                    j = y.arg(1); e = []
                    for a, b, p, q in ((i, j, x, y), (j, i, y, x)): e.append(z3.Implies(z3.And(a >= 0, a < b, b < n), (q - p >= b - a) if t.e == I else (p != q if t.e == S else p < q)))
                    MEMO[(x.get_id(), y.get_id())] = e; T._keep.append((x, y))
                out += e
            l.append(x)
            for b in self.lbs.get(s.get_id(), []): out += self._lb(t, s, b, x)
        elif k == 'rank':
            v = x.arg(1)
            l = self.rank.setdefault(s.get_id(), [])
            for y in ([] if t.e == S else l[:14]):      # texts: the order itself is not used
                e = MEMO.get((x.get_id(), y.get_id()))
                if e is None:
                    w = y.arg(1); e = MEMO[(x.get_id(), y.get_id())] = z3.Implies(z3.And(t.MEM(s, v), t.MEM(s, w)), (v < w) == (x < y)); T._keep.append((x, y))
                out.append(e)
            l.append(x)
        elif k == 'lb':
            out.append(z3.And(x >= 0, x <= n))
            if t.e == I:
                a = x.arg(1)
                out.append(z3.Implies(t.MEM(s, a), t.RANK(s, a) == x))
                for y in self.lbs.get(s.get_id(), [])[:10]:
                    b = y.arg(1); d = z3.simplify(a - b, som=True)
                    if z3.is_int_value(d) and d.as_long() in (1, -1):
                        (u, xu), (v, xv) = ((b, y), (a, x)) if d.as_long() == 1 else ((a, x), (b, y))
                        out.append(xv == xu + z3.If(t.MEM(s, u), 1, 0))
                    out.append(z3.Implies(a <= b, z3.And(x <= y, y - x <= b - a))); out.append(z3.Implies(b <= a, z3.And(y <= x, x - y <= a - b)))
            self.lbs.setdefault(s.get_id(), []).append(x)
            out.append(z3.Implies(x < n, t.ELEM(s, x) >= x.arg(1)))
            out.append(z3.Implies(x > 0, t.ELEM(s, z3.simplify(x - 1)) < x.arg(1)))
            for y in self.elem.get(s.get_id(), [])[:14]: out += self._lb(t, s, x, y)
        return out
    def _lb(self, t, s, b, y):
        i = y.arg(1)
        return [z3.Implies(z3.And(i >= 0, i < t.CARD(s)), (i < b) == (y < b.arg(1)))]
