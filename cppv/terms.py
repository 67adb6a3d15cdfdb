"""Terms (z3), recursion combinators (folds), floating point as uninterpreted rounding, and the prover."""
import z3, time, itertools, subprocess, os, math, struct
from fractions import Fraction
I, R, B, S = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()

class Unsupported(Exception):
    """construct outside the verifier's reach -> bounded stand-in, never a verdict"""

def is_z(x): return isinstance(x, z3.ExprRef)
def conc(x): return not is_z(x)

def norm(x):
    """z3 numeral/bool literal -> python"""
    if is_z(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x

def simp(x):
    if not is_z(x): return x
    return norm(z3.simplify(x))

def zi(x): return x if is_z(x) else z3.IntVal(int(x))
def zr(x):
    if is_z(x): return x
    return z3.RealVal(str(x)) if not isinstance(x, Fraction) else z3.RealVal('%d/%d' % (x.numerator, x.denominator))
def zb(x): return x if is_z(x) else z3.BoolVal(bool(x))
def zs(x): return x if is_z(x) else z3.StringVal(x)

def term(x, sort=None):
    if is_z(x): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x) if sort is None or sort == I else zr(Fraction(x))
    if isinstance(x, Fraction): return zr(x)
    if isinstance(x, str): return z3.StringVal(x)
    raise Unsupported('term of ' + repr(type(x)))

# ---------- integers
def _isq(x): return is_z(x)
def add(a, b):
    if conc(a) and conc(b): return a + b
    if conc(a) and a == 0: return b
    if conc(b) and b == 0: return a
    return norm(z3.simplify(zi(a) + zi(b)))
def sub(a, b):
    if conc(a) and conc(b): return a - b
    if conc(b) and b == 0: return a
    return norm(z3.simplify(zi(a) - zi(b)))
def mul(a, b):
    if conc(a) and conc(b): return a * b
    if conc(a) and a == 1: return b
    if conc(b) and b == 1: return a
    if (conc(a) and a == 0) or (conc(b) and b == 0): return 0
    return norm(z3.simplify(zi(a) * zi(b), som=True))
def lt(a, b):
    if conc(a) and conc(b): return a < b
    return simp(zi(a) < zi(b))
def le(a, b):
    if conc(a) and conc(b): return a <= b
    return simp(zi(a) <= zi(b))
def ieq(a, b):
    if conc(a) and conc(b): return a == b
    if is_z(a) and is_z(b) and a.eq(b): return True
    return simp(zi(a) == zi(b))
def Not(a):
    if conc(a): return not a
    if z3.is_not(a): return norm(a.arg(0))
    return z3.Not(a)
def And(*xs):
    out = []
    for x in xs:
        x = norm(x)
        if x is False: return False
        if x is True: continue
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def Or(*xs):
    out = []
    for x in xs:
        x = norm(x)
        if x is True: return True
        if x is False: continue
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def Implies(a, b): return Or(Not(a), b)
def ite(c, a, b):
    """scalar ite"""
    if conc(c): return a if c else b
    if conc(a) and conc(b) and type(a) == type(b) and a == b: return a
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        if ta.sort() == I and tb.sort() == R: ta = z3.ToReal(ta) if not z3.is_int_value(ta) else zr(Fraction(ta.as_long()))
        elif ta.sort() == R and tb.sort() == I: tb = z3.ToReal(tb) if not z3.is_int_value(tb) else zr(Fraction(tb.as_long()))
        elif ta.sort() == B and tb.sort() == I: ta = z3.If(ta, z3.IntVal(1), z3.IntVal(0))
        elif ta.sort() == I and tb.sort() == B: tb = z3.If(tb, z3.IntVal(1), z3.IntVal(0))
        else: raise Unsupported('ite sorts %s %s' % (ta.sort(), tb.sort()))
    if ta.eq(tb): return a
    if ta.sort() == B:
        return simp(z3.If(c, ta, tb))
    return z3.If(c, ta, tb)
def veq(a, b):
    """equality of scalar terms"""
    if conc(a) and conc(b): return a == b
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        if ta.sort() == B: ta = z3.If(ta, z3.IntVal(1), z3.IntVal(0))
        if tb.sort() == B: tb = z3.If(tb, z3.IntVal(1), z3.IntVal(0))
        if ta.sort() == I and tb.sort() == R: ta = z3.ToReal(ta)
        if ta.sort() == R and tb.sort() == I: tb = z3.ToReal(tb)
    if ta.eq(tb): return True
    return simp(ta == tb)

# ---------- fresh symbols, parameterised by the enclosing iteration counters
_ctr = itertools.count()
PCDEP = [0]     # counts simplifications that used the path condition
def uid(): return next(_ctr)
def const(name, sort): return z3.Const('%s!%d' % (name, uid()), sort)
def func(name, *sorts): return z3.Function('%s!%d' % (name, uid()), *sorts)

# ---------- floating point: real-valued, operations are uninterpreted (one symbol per IEEE operation)
FADD = z3.Function('fadd', R, R, R); FMUL = z3.Function('fmul', R, R, R); FDIV = z3.Function('fdiv', R, R, R)
def _f(x):
    """exact value of a concrete double"""
    return float(x)
def _fneg_split(x):
    """(neg?, |x| term) syntactic"""
    if conc(x): return (x < 0, abs(x))
    if z3.is_app(x):
        k = x.decl().kind()
        if k == z3.Z3_OP_UMINUS: return (True, norm(x.arg(0)))
        if k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and norm(x.arg(0)) == -1: return (True, x.arg(1))
    return (False, x)
def fneg(a):
    if conc(a): return -a
    n, x = _fneg_split(a)
    return x if n else -zr(a)
def fadd(a, b):
    if conc(a) and conc(b): return Fraction(_f(a) + _f(b))
    if conc(a) and a == 0: return b
    if conc(b) and b == 0: return a
    ta, tb = zr(a), zr(b)
    return FADD(ta, tb)
def fsub(a, b): return fadd(a, fneg(b))
def fmul(a, b):
    if conc(a) and conc(b): return Fraction(_f(a) * _f(b))
    na, xa = _fneg_split(a); nb, xb = _fneg_split(b)
    if conc(xa) and xa == 1: r = xb
    elif conc(xb) and xb == 1: r = xa
    elif _exact_mul(xa, xb) is not None: r = _exact_mul(xa, xb)
    else: r = FMUL(zr(xa), zr(xb))
    return fneg(r) if na != nb else r
BYTES = {}   # id of ToReal(int term) known to lie in [-2^k,2^k] -> (term,k)
def mark_small(t, k):
    if is_z(t): BYTES[t.get_id()] = (t, k)
    return t
def _exact_mul(a, b):
    """small integer (<=2^k) times a constant with a short mantissa is exact in binary64"""
    if conc(b): a, b = b, a
    if not conc(a) or conc(b): return None
    e = BYTES.get(b.get_id())
    if e is None: return None
    fr = Fraction(_f(a))
    n = abs(fr.numerator); mant = n.bit_length()
    if mant + e[1] + 1 <= 53: return zr(fr) * b
    return None
def fdiv(a, b):
    if conc(a) and conc(b):
        if b == 0: raise Unsupported('fp division by literal zero')
        return Fraction(_f(a) / _f(b))
    na, xa = _fneg_split(a); nb, xb = _fneg_split(b)
    if conc(xb) and xb == 1: r = xa
    else: r = FDIV(zr(xa), zr(xb))
    return fneg(r) if na != nb else r
def ufun(name, *args):
    f = z3.Function('m_' + name, *([term(a).sort() for a in args] + [R]))
    return f(*[term(a) for a in args])
def flt(a, b):
    if conc(a) and conc(b): return a < b
    return simp(zr(a) < zr(b))
def fle(a, b):
    if conc(a) and conc(b): return a <= b
    return simp(zr(a) <= zr(b))
def feq(a, b):
    if conc(a) and conc(b): return a == b
    return simp(zr(a) == zr(b))
def i2f(i, bits=None):
    if conc(i): return Fraction(float(int(i)))
    t = z3.ToReal(zi(i))
    if bits: mark_small(t, bits)
    return t
def f2i(x):
    if conc(x): return int(x)
    return simp(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))

# ---------- string helpers
SFIND = z3.Function('sfind', S, I, I, I)     # find char code from index, -1 when absent
SSUB = z3.Function('ssub', S, I, I, S)       # substring from, length
SAT = z3.Function('sat', S, I, I)            # char code (0..255)
SCOUNT = z3.Function('scount', S, I, I)      # number of occurrences of a char
def slen(s):
    if conc(s): return len(s)
    return norm(z3.simplify(z3.Length(s)))
def sfind(s, c, frm):
    if conc(s) and conc(c) and conc(frm): return s.find(chr(c), frm)
    return SFIND(zs(s), zi(c), zi(frm))
def ssub(s, a, n):
    if conc(s) and conc(a) and conc(n): return s[a:a + n]
    return SSUB(zs(s), zi(a), zi(n))
def schar(s, i):
    if conc(s) and conc(i): return ord(s[i]) if 0 <= i < len(s) else 0
    if conc(s) and len(s) <= 256:
        r = z3.IntVal(0)
        for k in range(len(s) - 1, -1, -1): r = z3.If(i == k, z3.IntVal(ord(s[k])), r)
        return norm(r)
    return SAT(zs(s), zi(i))

# division of naturals by a symbolic positive divisor
UDIV = z3.Function('udiv', I, I, I)
UMOD = z3.Function('umod', I, I, I)
def udivmod(a, b):
    a, b = norm(a), norm(b)
    if conc(a) and conc(b) and b > 0: return a // b, a % b
    if conc(b) and b > 0: return simp(zi(a) / b), simp(zi(a) % b)
    return UDIV(zi(a), zi(b)), UMOD(zi(a), zi(b))

# ---------- folds
class FoldFn:
    def __init__(self, name, decls, nparams, ninit, step_terms, accs, k, params):
        self.name, self.decls = name, decls
        self.nparams, self.ninit = nparams, ninit
        self.steps, self.accs, self.k, self.params = step_terms, accs, k, params
FOLDS = {}     # decl id -> (FoldFn, component)
_fold_keys = {}
_keep = []
def acc_const(i, sort): return z3.Const('acc!%d!%s' % (i, sort), sort)
KK = z3.Const('fold!k', I)

def consts_of(t, acc=None):
    """0-ary uninterpreted constants in order of occurrence"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        else: st.extend(reversed(x.children()))
    return out

_canon = {}
def canon(t):
    """canonical argument order for commutative uninterpreted operations"""
    cache = _canon
    def go(x):
        k = x.get_id()
        e = cache.get(k)
        if e is not None: return e[1]
        if not z3.is_app(x) or x.num_args() == 0: r = x
        else:
            ch = [go(c) for c in x.children()]
            d = x.decl()
            if d.eq(FADD) or d.eq(FMUL): ch.sort(key=lambda c: c.sexpr())
            r = d(*ch) if any(not a.eq(b) for a, b in zip(ch, x.children())) else x
        cache[k] = (x, r)
        return r
    return go(t)

_slim = {}
def _arith_atom(a):
    if not is_z(a): return False
    while z3.is_not(a): a = a.arg(0)
    return z3.is_app(a) and a.num_args() == 2 and a.arg(0).sort() == I and all(x.num_args() == 0 or x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) for x in walk_apps([a.arg(0), a.arg(1)]))
def _implied(hyps, g):
    s = z3.Solver(); s.set('timeout', 200); s.add(*hyps); s.add(z3.Not(g))
    return s.check() == z3.unsat
def slim_cond(c, pos=True):
    """drop the conjuncts (disjuncts) of a condition that the other ones imply"""
    key = (c.get_id(), pos)
    e = _slim.get(key)
    if e is not None: return e[1]
    if z3.is_not(c): r = slim_cond(c.arg(0), not pos)
    elif (z3.is_and(c) or z3.is_or(c)) and c.num_args() <= 6:
        conj = z3.is_and(c) == pos
        ch = [slim_cond(x, pos) for x in c.children()]
        flat = []
        for x in ch: flat += x.children() if (z3.is_and(x) if conj else z3.is_or(x)) else [x]
        i = 0
        while i < len(flat) and len(flat) > 1:
            rest = flat[:i] + flat[i + 1:]
            if _arith_atom(flat[i]):
                rel = [x for x in rest if _arith_atom(x)]
                if rel and (_implied(rel, flat[i]) if conj else _implied([z3.Not(x) for x in rel], z3.Not(flat[i]))): flat = rest; continue
            i += 1
        r = flat[0] if len(flat) == 1 else z3.And(*flat) if conj else z3.Or(*flat)
    else: r = c if pos else z3.simplify(z3.Not(c))
    _slim[key] = (c, r)
    return r
def slim(t):
    pr = []
    for x in walk_apps([t]):
        if x.decl().kind() == z3.Z3_OP_ITE and (z3.is_and(x.arg(0)) or z3.is_or(x.arg(0)) or z3.is_not(x.arg(0))):
            c = slim_cond(x.arg(0))
            if not c.eq(x.arg(0)): pr.append((x.arg(0), c))
    return z3.simplify(z3.substitute(t, *pr), som=True, sort_sums=False) if pr else t

def mk_fold(init, step, n, sorts=None):
    """step(accs, k)->list of terms ; returns list of terms (fold after n steps)"""
    init = [term(x) for x in init]
    sorts = sorts or [x.sort() for x in init]
    init = [coerce(x, s) for x, s in zip(init, sorts)]
    accs = [acc_const(i, s) for i, s in enumerate(sorts)]
    st = [coerce(term(x), s) for x, s in zip(step(accs, KK), sorts)]
    st = [slim(z3.simplify(x, som=True, sort_sums=False)) for x in st]
    # dependency closure per component
    deps = []
    for x in st:
        ids = {c.get_id() for c in consts_of(x)}
        deps.append({i for i, a in enumerate(accs) if a.get_id() in ids})
    res = []
    for i in range(len(st)):
        clo = {i}
        while True:
            nx = clo | set().union(*[deps[j] for j in clo])
            if nx == clo: break
            clo = nx
        order = _dep_order(i, st, accs)
        if len(order) == 1 and sorts[i] == I:
            dl = _delta(st[i], accs[i])
            if dl is not None:
                # an integer sum: the initial value is added once
                res.append(norm(z3.simplify(init[i] + term(_fold_component([accs[i] + dl], [accs[i]], [z3.IntVal(0)], n)), som=True)))
                continue
        res.append(_fold_component([st[j] for j in order], [accs[j] for j in order], [init[j] for j in order], n))
    return res
def _delta(t, acc):
    """t == acc + d with d free of acc: d, else None"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = t.children()
        if any(k.eq(acc) for k in consts_of(c)): return None
        x, y = _delta(x, acc), _delta(y, acc)
        return None if x is None or y is None else z3.If(c, x, y)
    d = z3.simplify(t - acc, som=True)
    return None if any(k.eq(acc) for k in consts_of(d)) else d

def _dep_order(i, st, accs):
    """components component i depends on, in order of first occurrence (canonical up to renaming)"""
    pos = {a.get_id(): j for j, a in enumerate(accs)}
    order = [i]; q = [i]
    while q:
        j = q.pop(0)
        for c in consts_of(canon(st[j])):
            k = pos.get(c.get_id())
            if k is not None and k not in order: order.append(k); q.append(k)
    return order

def coerce(t, s):
    if t.sort() == s: return t
    if t.sort() == I and s == R: return z3.ToReal(t) if not z3.is_int_value(t) else zr(Fraction(t.as_long()))
    if t.sort() == B and s == I: return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if t.sort() == I and s == B: return t != 0
    raise Unsupported('coerce %s to %s' % (t.sort(), s))

_fc_cache = {}
def _fold_component(st, accs, init, n):
    key = (tuple(x.get_id() for x in st), tuple(x.get_id() for x in accs))
    e = _fc_cache.get(key)
    if e is None:
        e = _fold_abstract(st, accs)
        _fc_cache[key] = e; _keep.append((st, accs))
    f, params = e
    return fold_app(f, 0, params, init, n)
def _fold_abstract(st, accs):
    # rename accs to canonical positions, abstract parameters
    sorts = [a.sort() for a in accs]
    can = [z3.Const('a!%d!%s' % (i, s), s) for i, s in enumerate(sorts)]
    sub0 = list(zip(accs, can))
    st = [z3.substitute(x, *sub0) for x in st]
    cids = {c.get_id() for c in can} | {KK.get_id()}
    params = []
    st = [canon(x) for x in st]
    for x in st:
        for c in consts_of(x):
            if c.get_id() in cids: continue
            if not any(c.eq(p) for p in params): params.append(c)
    pv = [z3.Const('p!%d!%s' % (i, p.sort()), p.sort()) for i, p in enumerate(params)]
    if params: st = [z3.substitute(x, *zip(params, pv)) for x in st]
    st = [canon(z3.simplify(x, som=True)) for x in st]
    key = tuple(x.get_id() for x in st)
    f = _fold_keys.get(key)
    if f is None:
        nm = 'fold%d' % len(_fold_keys)
        decls = []
        for i, s in enumerate(sorts):
            d = z3.Function('%s_%d' % (nm, i), *([p.sort() for p in pv] + sorts + [I, s]))
            decls.append(d)
        f = FoldFn(nm, decls, len(pv), len(sorts), st, can, KK, pv)
        _fold_keys[key] = f; _keep.append(st)
        for i, d in enumerate(decls): FOLDS[d.get_id()] = (f, i)
    return f, params

def fold_app(f, i, params, init, n):
    if conc(n):
        if n <= 0: return norm(init[i])
        if n <= 4: 
            prev = [term(fold_app(f, j, params, init, n - 1)) for j in range(f.ninit)]
            return fold_step(f, i, params, prev, n - 1)
    if i == 0: return f.decls[i](*(list(params) + list(init) + [zi(n)]))
    # other components are represented by their own canonical fold
    ck = (id(f), i, tuple(p.get_id() for p in params))
    e = _oc_cache.get(ck)
    if e is None:
        e = _other_component(f, i, params)
        _oc_cache[ck] = e; _keep.append((f, params))
    order, g, gp = e
    return fold_app(g, 0, gp, [init[j] for j in order], n)
_oc_cache = {}
def _other_component(f, i, params):
    order = _dep_order(i, f.steps, f.accs)
    st = [z3.substitute(f.steps[j], *zip(f.params, params)) if f.params else f.steps[j] for j in order]
    tmp = [acc_const(100 + j, f.accs[j].sort()) for j in order]
    st = [z3.substitute(x, *[(f.accs[j], t) for j, t in zip(order, tmp)]) for x in st]
    g, gp = _fold_abstract(st, tmp)
    return order, g, gp

def fold_step(f, i, params, prev, k):
    pairs = list(zip(f.accs, prev)) + [(f.k, zi(k))] + list(zip(f.params, params))
    return norm(z3.simplify(z3.substitute(f.steps[i], *pairs)))

_unf = {}
def fold_unfold(app):
    """instance of the recursion axiom for one fold application"""
    e = _unf.get(app.get_id())
    if e is None:
        e = (app, _fold_unfold(app)); _unf[app.get_id()] = e
    return e[1]
def _fold_unfold(app):
    f, i = FOLDS[app.decl().get_id()]
    ch = app.children()
    params, init, n = ch[:f.nparams], ch[f.nparams:f.nparams + f.ninit], ch[-1]
    m = simp(n - 1)
    prev = [term(fold_app(f, j, params, init, m)) for j in range(f.ninit)]
    return z3.And(z3.Implies(n <= 0, app == init[i]), z3.Implies(n > 0, app == coerce(term(fold_step(f, i, params, prev, m)), app.sort())))

# definitional axioms for skolem symbols: decl id -> function(app) -> formula list
DEFS = {}
PERM_RANGE = {}  # decl id of a permutation or injection -> exclusive upper bound of its values
PERM = {}      # decl id of a permutation -> its inverse
def define(decl, fn): DEFS[decl.get_id()] = fn; _keep.append(decl)

def subst(t, pairs):
    if conc(t): return t
    ps = [(a, coerce(term(b), a.sort())) for a, b in pairs]
    return norm(z3.substitute(t, *ps)) if ps else t

_wa = {}
def walk_apps(fs):
    """applications occurring in the formulas, without repetition (cached per formula)"""
    seen = set(); out = []
    for f in fs:
        if not is_z(f): continue
        e = _wa.get(f.get_id())
        if e is None:
            l = _walk_apps([f])
            e = (f, [(x.get_id(), x) for x in l]); _wa[f.get_id()] = e
        for i, x in e[1]:
            if i not in seen: seen.add(i); out.append(x)
    return out
def _walk_apps(fs):
    seen = set(); out = []; st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args(): out.append(x)
            st.extend(x.children())
    return out

# ---------- prover
class Stats:
    def __init__(self): self.n = 0; self.z3 = 0; self.cvc5 = 0; self.simp = 0; self.time = 0.0; self.queries = 0
STATS = Stats()
OPT = {'fp_bounds': False, 'timeout': 8000, 'bytes_axioms': True, 'deadline': None}
EPS = Fraction(1, 2 ** 53)

def _rounded(x, a, b):
    """rounding to nearest is monotone and keeps representable values: a result never crosses a representable number (integers up to 2^53)"""
    out = []
    if x.decl().eq(FMUL):
        for p, q in ((a, b), (b, a)): out.append(z3.Implies(z3.And(p >= 0, p <= 1, q >= 0), z3.And(x >= 0, x <= q)))
    else:
        out.append(z3.Implies(z3.And(a >= 0, b > 0), x >= 0))
        for c in OPT['landmarks']:
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_TO_REAL: pr = z3.ToReal(simp(c * b.arg(0)))
            else: pr = z3.ToReal(c) * b
            out.append(z3.Implies(b > 0, z3.And(z3.Implies(a <= pr, x <= z3.ToReal(c)), z3.Implies(a >= pr, x >= z3.ToReal(c)))))
    return out

# folds whose value only moves one way (running minimum / maximum): f(n) <= f(j) for j <= n, and the value is the initial one or set by some step
_mono = {}
def mono(f):
    """-1: the step never increases the accumulator, 1: never decreases it, 0: unknown (proved for an arbitrary accumulator)"""
    r = _mono.get(id(f))
    if r is None:
        _mono[id(f)] = 0; r = 0
        a = f.accs[0]; st = f.steps[0]
        if f.ninit == 1 and st.sort() == B and consts_of(st) and any(c.eq(a) for c in consts_of(st)):
            if entails([], z3.Implies(a, st), timeout=1000): r = 1
            elif entails([], z3.Implies(st, a), timeout=1000): r = -1
        if f.ninit == 1 and st.sort() in (I, R):
            ok = z3.is_app(st) and st.decl().kind() == z3.Z3_OP_ITE and any(c.eq(a) for c in st.children()[1:])
            if z3.is_app(st) and st.decl().get_id() in FOLDS: ok = any(c.eq(a) for c in st.children()) and mono(FOLDS[st.decl().get_id()][0])
            if ok:
                if entails([], st <= a, timeout=1000): r = -1
                elif entails([], st >= a, timeout=1000): r = 1
        _mono[id(f)] = r; _keep.append(f)
    return r
def mono_pats(f, var):
    """(decl, argument position) of the applications read at iteration var"""
    out = []
    for x in walk_apps([f.steps[0]]):
        d = x.decl()
        if d.get_id() in FOLDS:
            g, _ = FOLDS[d.get_id()]
            for p, c in zip(g.params, x.children()):
                if c.eq(var): out += mono_pats(g, p)
        elif d.kind() == z3.Z3_OP_UNINTERPRETED:
            for i, c in enumerate(x.children()):
                if c.sort() == I and any(k.eq(var) for k in consts_of(c)):
                    import loops
                    l = loops.linear_in(c, var)
                    if l is not None and all(not is_z(y) or y.decl().arity() == 0 or _plain(y) for y in l): out.append((d.get_id(), i, l[0], l[1])); _keep.append(l)
    return out
def _plain(t): return all(y.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ANUM) or y.decl().arity() == 0 for y in walk_apps([t]))
_sum = {}
LOCS = {}     # decl id of a locator -> the sum it belongs to
def is_sum(f):
    """an integer sum of non-negative terms (proved for an arbitrary term)"""
    r = _sum.get(id(f))
    if r is None:
        _sum[id(f)] = False; r = False
        if f.ninit == 1 and f.steps[0].sort() == I:
            d = _delta(f.steps[0], f.accs[0])
            r = d is not None and entails([], d >= 0, timeout=1000)
        _sum[id(f)] = r; _keep.append(f)
    return r
def locator(f):
    """function LOC(params, q): the i with F(i) <= q < F(i+1), for a sum F starting at 0"""
    l = getattr(f, 'loc', None)
    if l is None:
        l = f.loc = z3.Function('%s_loc' % f.name, *([p.sort() for p in f.params] + [I, I])); LOCS[l.get_id()] = f; _keep.append(l)
    return l
def sum_axioms(sums, locs, done):
    out = [x >= x.children()[-2] for x in sums]
    for x, y in itertools.permutations(sums[:9], 2):
        if not x.decl().eq(y.decl()) or not all(a.eq(b) for a, b in zip(x.children()[:-1], y.children()[:-1])): continue
        if ('sum', x.get_id(), y.get_id()) in done: continue
        done.add(('sum', x.get_id(), y.get_id())); _keep.append((x, y))
        f, _ = FOLDS[x.decl().get_id()]; ch = x.children(); a, b = ch[-1], y.children()[-1]
        nx = coerce(term(fold_step(f, 0, ch[:f.nparams], [x], a)), I)
        out.append(z3.Implies(z3.And(a >= 0, a < b), nx <= y)); out.append(z3.Implies(a == b, x == y))
    for l in locs[:8]:
        f = LOCS[l.decl().get_id()]; ps, q = l.children()[:-1], l.children()[-1]
        def F(j): return coerce(term(fold_app(f, 0, ps, [z3.IntVal(0)], simp(j))), I)
        for y in sums[:9]:
            if not (y.decl().eq(f.decls[0]) and all(a.eq(b) for a, b in zip(y.children()[:-2], ps)) and z3.is_int_value(y.children()[-2]) and y.children()[-2].as_long() == 0): continue
            j = y.children()[-1]; k = ('loc', l.get_id(), y.get_id())
            if k in done or j.eq(l): continue
            done.add(k); _keep.append((l, y))
            nx = coerce(term(fold_step(f, 0, ps, [F(l)], l)), I)
            out.append(z3.Implies(z3.And(q >= 0, j >= 0, q < y), z3.And(l >= 0, l < j, F(l) <= q, q < nx)))
            # the position inside step j determines the step
            ny = coerce(term(fold_step(f, 0, ps, [y], j)), I)
            out.append(z3.Implies(z3.And(j >= 0, y <= q, q < ny), l == j))
    return out
_monop = {}
def mono_axioms(folds, byd, done, first, chain):
    out = []
    for x in folds:
        f, _ = FOLDS[x.decl().get_id()]; sg = mono(f)
        ch = x.children(); ps, init, n = ch[:f.nparams], ch[f.nparams:f.nparams + 1], ch[-1]
        def leq(a, b):
            if a.sort() == B: return z3.Implies(a, b) if sg < 0 else z3.Implies(b, a)
            return a <= b if sg < 0 else a >= b
        if id(f) not in _monop:
            ps_ = []
            for q_ in mono_pats(f, f.k):
                if not any(q_[:2] == o_[:2] and ieq(q_[2], o_[2]) is True and ieq(q_[3], o_[3]) is True for o_ in ps_): ps_.append(q_)
            w = z3.Function('%s_last' % f.name, *([p.sort() for p in f.params] + [f.accs[0].sort(), I, I]))
            _monop[id(f)] = (ps_, w); _keep.append((f, w))
        pats, w = _monop[id(f)]
        def at(j):
            a, b = fold_app(f, 0, ps, init, j), fold_app(f, 0, ps, init, simp(j + 1))
            return term(a), term(b)
        if (x.get_id(), None) not in done:
            done.add((x.get_id(), None)); _keep.append(x)
            out.append(leq(x, init[0])); out.append(z3.Implies(n <= 0, x == init[0]))
            if first or x.sort() == B or x.get_id() in chain:
                j = w(*ch); a, b = at(j); sv = coerce(term(fold_step(f, 0, ps, [a], j)), x.sort())
                for y in walk_apps([sv]):
                    if y.decl().get_id() in FOLDS and not y.eq(a): chain.add(y.get_id()); _keep.append(y)
                out.append(z3.Or(x == init[0], z3.And(j >= 0, j < n, x == b, a != b, b == sv)))
        for did, pos, pa, pb in pats:
            sb = list(zip(f.params, ps))
            for y in byd.get(did, [])[:12]:
                j = y.arg(pos)
                if not (conc(pa) and pa == 1 and conc(pb) and pb == 0):
                    import loops
                    num = sub(j, subst(pb, sb)); den = subst(pa, sb)
                    j = loops.exact_div(num, den) if not (conc(den) and den == 0) else None
                    if j is None: continue
                    j = zi(j)
                if (x.get_id(), j.get_id()) in done or len(done) > 150: continue
                done.add((x.get_id(), j.get_id())); _keep.append(j)
                a, b = at(j)
                out.append(z3.Implies(z3.And(j >= 0, j < n), z3.And(leq(x, b), b == coerce(term(fold_step(f, 0, ps, [a], j)), x.sort()), leq(b, a))))
    return out

_S = {}
def special():
    if not _S:
        _S.update({k: v.get_id() for k, v in dict(fadd=FADD, fmul=FMUL, fdiv=FDIV, sfind=SFIND, sat=SAT, ssub=SSUB, scount=SCOUNT, udiv=UDIV, umod=UMOD).items()})
        _S.update({v: 1 for v in list(_S.values())})
    return _S
def _inst(fs, rounds=3, limit=600, unfold=True):
    """instantiate definitional axioms for the applications occurring in fs"""
    done = set(); axs = []; cur = list(fs)
    finds = []
    prods = {}
    import sets
    sinst = sets.Inst()
    if sets.DECL: rounds += 1
    mfolds, byd, mdone, mchain = [], {}, set(), set()
    sums, locs = [], []
    foralls = []       # facts about every earlier iteration, instantiated at the ranks of set elements
    if sets.DECL and OPT.get('trip_forall'):
        for f in fs:
            f = unmark(f)
            if is_z(f) and z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I: foralls.append(f.body()); rounds += (len(foralls) == 1) * 2
    for r in range(rounds):
        new = []
        for x in walk_apps(cur):
            i = x.get_id()
            if i in done: continue
            done.add(i)
            d = x.decl(); di = d.get_id()
            if r == 0 and d.kind() == z3.Z3_OP_UNINTERPRETED: byd.setdefault(di, []).append(x)
            if r == 0 and di in LOCS: locs.append(x)
            if di in FOLDS:
                if r == 0 and is_sum(FOLDS[di][0]): sums.append(x)
                if unfold and r < 2: new.append(fold_unfold(x))
                if FOLDS[di][0].ninit == 1 and mono(FOLDS[di][0]): mfolds.append(x)
            elif di in sets.DECL:
                new += sinst.add(x)
                if sets.DECL[di][1] == 'rank' and r < 3: new += [z3.substitute_vars(b, x) for b in foralls]
            elif di in DEFS:
                for a in DEFS[di](x):
                    if is_z(a): new.append(a)
                    elif a is False: new.append(z3.BoolVal(False))
            elif di not in special() and d.kind() == z3.Z3_OP_UNINTERPRETED: pass
            elif di == _S['fdiv'] and OPT.get('landmarks'):
                new += _rounded(x, *x.children())
            elif di == _S['fadd'] or di == _S['fmul']:
                a, b = x.arg(0), x.arg(1)
                if di == _S['fmul'] and OPT.get('landmarks'): new += _rounded(x, a, b)
                new.append(x == d(b, a)); done.add(d(b, a).get_id()); _keep.append(d(b, a))
                if di == _S['fadd']:
                    na, xa = _fneg_split(a); nb, xb = _fneg_split(b)
                    if na and nb: new.append(x == -FADD(zr(xa), zr(xb)))
                if OPT['fp_bounds']:
                    p = None
                    if di == _S['fadd']: p = a + b
                    elif z3.is_rational_value(a) or z3.is_rational_value(b): p = a * b
                    if p is not None:
                        e = zr(EPS)
                        new.append(z3.And(x - p <= z3.If(p >= 0, p, -p) * e, p - x <= z3.If(p >= 0, p, -p) * e))
            elif di == _S['sfind']:
                s, c, f = x.children()
                new.append(z3.And(x >= -1, x < z3.Length(s), z3.Implies(x >= 0, z3.And(x >= f, SAT(s, x) == c)), z3.Implies(f >= z3.Length(s), x == -1)))
                finds.append(x)
            elif di == _S['sat']:
                new.append(z3.And(x >= 0, x <= 255))
                for fd in finds:
                    s, c, f = fd.children()
                    if s.eq(x.arg(0)):
                        j = x.arg(1)
                        new.append(z3.Implies(z3.And(j >= f, j >= 0, z3.Or(fd == -1, j < fd), j < z3.Length(s)), x != c))
            elif di == _S['ssub']:
                s, a, n = x.children()
                new.append(z3.Implies(z3.And(a >= 0, n >= 0, a + n <= z3.Length(s)), z3.Length(x) == n))
                new.append(z3.Implies(z3.And(a == 0, n == z3.Length(s)), x == s))
            elif di == _S['scount']:
                new.append(z3.And(x >= 0, x <= z3.Length(x.arg(0))))
            elif di == _S['udiv'] or di == _S['umod']:
                a, b = x.children()
                q, m = UDIV(a, b), UMOD(a, b)
                new.append(z3.Implies(z3.And(a >= 0, b > 0), z3.And(a == b * q + m, m >= 0, m < b, q >= 0, m <= a, q <= a, z3.Implies(a < b, z3.And(q == 0, m == a)))))
                done.add(q.get_id()); done.add(m.get_id()); _keep.extend([q, m])
            elif d.kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(x.arg(1)):
                a, b = x.children()
                q, m = a / b, a % b
                new.append(z3.Implies(b > 0, z3.And(a == b * q + m, m >= 0, m < b)))
                done.add(q.get_id()); done.add(m.get_id()); _keep.extend([q, m])
            elif d.kind() == z3.Z3_OP_MUL and x.sort() == I:
                ch = [c for c in x.children() if not z3.is_int_value(c)]
                if len(ch) >= 2:
                    for ix, c in enumerate(ch):
                        rest = ch[:ix] + ch[ix + 1:]
                        rk = tuple(sorted(y.get_id() for y in rest))
                        prods.setdefault(c.get_id(), {})[rk] = (c, rest)
        if sums and r == 0: new += sum_axioms(sums, locs, mdone)
        if mfolds: new += mono_axioms(mfolds, byd, mdone, r == 0, mchain)
        axs += new
        cur = new
        if not new or len(axs) > limit: break
    # monotonicity lemmas for pairs of products sharing a factor
    for cid, m in prods.items():
        its = list(m.values())
        if len(its) > 1 and len(its) <= 10:
            for (c, r1), (_, r2) in itertools.combinations(its, 2):
                a = r1[0] if len(r1) == 1 else z3.Product(*r1); b = r2[0] if len(r2) == 1 else z3.Product(*r2)
                pa, pb = c * a, c * b
                axs.append(z3.Implies(c > 0, z3.And(z3.Implies(a < b, pa + c <= pb), z3.Implies(b < a, pb + c <= pa), z3.Implies(a == b, pa == pb))))
        for (c, r1) in its[:10]:
            a = r1[0] if len(r1) == 1 else z3.Product(*r1)
            axs.append(z3.Implies(z3.And(c >= 0, a >= 0), c * a >= 0))
            axs.append(z3.Implies(z3.And(c > 0, a > 0), z3.And(c * a >= c, c * a >= a)))
            axs.append(z3.Implies(z3.Or(c == 0, a == 0), c * a == 0))
    return axs

def mark(g):
    """a fact that an obligation established (as opposed to a branch decision)"""
    return g if conc(g) or marked(g) else z3.And(g)
def marked(g): return is_z(g) and z3.is_and(g) and g.num_args() == 1
def unmark(g): return g.arg(0) if marked(g) else g

_cache = {}
def check(fs, timeout=None, want_model=False, cvc5=False):
    """satisfiability of the conjunction: 'sat' / 'unsat' / 'unknown' (+model)"""
    fs = [zb(f) for f in fs if not (conc(f) and f)]
    for f in fs:
        if z3.is_false(f): return 'unsat', None
    STATS.queries += 1
    t0 = time.time()
    axs = _inst(fs)
    s = z3.Solver()
    s.set('timeout', timeout or OPT['timeout'])
    s.add(*fs); s.add(*axs)
    r = str(s.check())
    STATS.time += time.time() - t0
    m = None
    if r == 'sat' and want_model: m = s.model()
    if r == 'unknown' and cvc5:
        t0 = time.time()
        r2 = run_cvc5(s.to_smt2(), cvc5)
        STATS.time += time.time() - t0
        if r2 == 'unsat': return 'unsat-cvc5', None
        if r2 == 'sat': r = 'sat'
    return r, m

def run_cvc5(smt, tmo):
    import tempfile
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + smt)
        p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (tmo * 1000), f.name], capture_output=True, text=True, timeout=tmo + 5)
        out = p.stdout.strip().split('\n')[0]
        return out if out in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        try: os.unlink(f.name)
        except Exception: pass

def entails(pc, goal, timeout=None):
    """quick entailment used to steer symbolic execution (incomplete is fine)"""
    g = norm(goal)
    if g is True or g is False:
        if g: return True
    g = simp(g) if is_z(g) else g
    if g is True: return True
    if is_z(g):
        for p in pc:
            if is_z(p) and unmark(p).eq(g): return True
    key = (tuple(p.get_id() if is_z(p) else p for p in pc), g.get_id() if is_z(g) else g)
    r = _cache.get(key)
    if r is not None: return r[0]
    res, _ = check(list(pc) + [Not(g)], timeout=timeout or OPT.get('ent_timeout', 1500))
    r = res.startswith('unsat')
    _cache[key] = (r, list(pc), g)
    return r

def prove(pc, goal, timeout=None, cvc5=20):
    """-> ('proved', backend) | ('refuted', model) | ('unknown', None)"""
    g = norm(goal)
    if g is True: return 'proved', 'simplifier'
    if is_z(g):
        gs = simp(g)
        if gs is True: return 'proved', 'simplifier'
        g = gs
    res, m = check(list(pc) + [Not(g)], timeout=timeout, want_model=True, cvc5=cvc5)
    if res == 'unsat': return 'proved', 'z3'
    if res == 'unsat-cvc5': return 'proved', 'cvc5'
    if any(x.decl().get_id() in FOLDS for x in walk_apps([g])):
        ok = True; used = 'z3'
        for hyp, c in [y for x in intro(list(pc), g) for y in cases(*x)]:
            c = resolve_ites(hyp, peel(hyp, c))
            res2, _ = check(hyp + [Not(c)], timeout=timeout)
            if not res2.startswith('unsat'):
                lem = fold_lemmas(hyp, c)
                if not lem: ok = False; break
                res2, _ = check(hyp + lem + [Not(c)], timeout=timeout, cvc5=cvc5)
            if res2 == 'unsat-cvc5': used = 'cvc5'
            if not res2.startswith('unsat'): ok = False; break
        if ok: return 'proved', used + '+fold-induction'
    if res == 'sat': return 'refuted', m
    return 'unknown', None

def intro(pc, g, depth=0):
    """split a goal into (hypotheses, atomic goal) pairs"""
    if not is_z(g): return [(pc, g)]
    if z3.is_and(g): return [x for c in g.children() for x in intro(pc, c, depth)]
    if z3.is_implies(g): return intro(pc + [g.arg(0)], g.arg(1), depth)
    if z3.is_or(g):
        ch = g.children()
        main = [c for c in ch if not z3.is_not(c) and any(x.decl().get_id() in FOLDS for x in walk_apps([c]))]
        if main:
            m = main[-1]
            return intro(pc + [simp(z3.Not(c)) for c in ch if not c.eq(m) and is_z(simp(z3.Not(c)))], m, depth)
    return [(pc, g)]

def cases(pc, g, depth=0):
    """case split on the conditions the hypotheses do not decide"""
    g = resolve_ites(pc, g)
    if not is_z(g) or depth > 4: return [(pc, g)]
    conds = [x.arg(0) for x in walk_apps([g]) if x.decl().kind() == z3.Z3_OP_ITE]
    if not conds: return [(pc, g)]
    c = conds[0]
    return cases(pc + [c], g, depth + 1) + cases(pc + [z3.Not(c)], g, depth + 1)

def peel(pc, g):
    """one unfolding of the folds whose count is a successor"""
    if not is_z(g): return g
    pr = []
    for x in walk_apps([g]):
        if x.decl().get_id() in FOLDS:
            n = x.children()[-1]
            if z3.is_add(n) and any(z3.is_int_value(c) and c.as_long() == 1 for c in n.children()) and entails(pc, n > 0):
                f, i = FOLDS[x.decl().get_id()]
                ch = x.children(); m = simp(n - 1)
                prev = [term(fold_app(f, j, ch[:f.nparams], ch[f.nparams:-1], m)) for j in range(f.ninit)]
                pr.append((x, coerce(term(fold_step(f, i, ch[:f.nparams], prev, m)), x.sort())))
    return simp(z3.substitute(g, *pr)) if pr else g

def resolve_ites(pc, g):
    """replace conditionals whose condition is decided by the hypotheses"""
    for _ in range(6):
        if not is_z(g): return g
        pr = []
        for x in walk_apps([g]):
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                if entails(pc, c): pr.append((x, x.arg(1)))
                elif entails(pc, Not(c)): pr.append((x, x.arg(2)))
        if not pr: return g
        g = simp(z3.substitute(g, *pr))
    return g

_lemma_cache = {}
def fold_lemmas(pc, goal, depth=0):
    """equalities between applications of different fold functions, each proved by induction on the count"""
    apps = [x for x in walk_apps([goal] + [p for p in pc if is_z(p)]) if x.decl().get_id() in FOLDS]
    gapps = [x for x in walk_apps([goal]) if x.decl().get_id() in FOLDS]
    out = []; tried = 0
    for a in gapps:
        for b in apps:
            if a.eq(b) or a.sort() != b.sort(): continue
            if tried > 40: return out
            key = (a.get_id(), b.get_id(), tuple(p.get_id() if is_z(p) else p for p in pc))
            r = _lemma_cache.get(key)
            if r is None:
                tried += 1
                r = _try_fold_eq(pc, a, b, depth)
                _lemma_cache[key] = r; _keep.append((a, b, pc))
            if r: out.append(a == b)
    return out

def _try_fold_eq(pc, a, b, depth):
    fa, ia = FOLDS[a.decl().get_id()]; fb, ib = FOLDS[b.decl().get_id()]
    ca, cb = a.children(), b.children()
    pa, inia, na = ca[:fa.nparams], ca[fa.nparams:-1], ca[-1]
    pb, inib, nb = cb[:fb.nparams], cb[fb.nparams:-1], cb[-1]
    if fa.ninit != fb.ninit or ia != ib: return False
    if sorted(str(x.sort()) for x in inia) != sorted(str(x.sort()) for x in inib): return False
    if not entails(pc, z3.Or(na == nb, z3.And(na <= 0, nb <= 0))): return False
    perm = list(range(fa.ninit))
    for cand in itertools.permutations(range(1, fa.ninit)) if fa.ninit <= 4 else [tuple(range(1, fa.ninit))]:
        pm = [0] + list(cand)
        if all(inia[i].sort() == inib[pm[i]].sort() and (inia[i].eq(inib[pm[i]]) or entails(pc, inia[i] == inib[pm[i]])) for i in range(fa.ninit)):
            perm = pm; break
    else: return False
    k = const('ind!k', I)
    accs = [const('ind!a', x.sort()) for x in inia]
    accb = [None] * fa.ninit
    for i in range(fa.ninit): accb[perm[i]] = accs[i]
    g = []
    for i in range(fa.ninit):
        g.append(term(fold_step(fa, i, pa, accs, k)) == term(fold_step(fb, perm[i], pb, accb, k)))
    hyp = list(pc) + [k >= 0, k < na]
    goal = z3.And(*g)
    if entails(hyp, goal, timeout=4000): return True
    if depth < 2:
        goal = resolve_ites(hyp, simp(goal))
        if not is_z(goal): return goal
        if entails(hyp, goal, timeout=4000): return True
        lem = fold_lemmas(hyp, goal, depth + 1)
        if lem and entails(hyp + lem, goal, timeout=4000): return True
    return False
