"""Contracts for parser/parser.hpp (DatasetParser): label encodings over an arbitrary data set."""
from contract import *
import sets, stdlib
P = 'EdgeLearning::DatasetParser::'
FP, SZ = ('fp',), ('int', 64, False)
def rng(x, lo, hi): return And(le(lo, x), lt(x, hi))
def bad(o): return [('no exception', False)]
def ok(o): return o.kind in ('normal', 'return')
class Data:
    """arbitrary data set behind the virtual interface: n entries of f values, label columns below f"""
    def __init__(self, env):
        self.n = env.nat('entries', 0, 2 ** 28); self.f = env.nat('features', 0, 2 ** 28); n, f = self.n, self.f
        self.E = func('value', I, I, R)
        L = const('labels', sets.theory(I).sort)
        self.lab = set_by(SZ, lambda x: And(sets.theory(I).MEM(L, zi(x)), rng(x, 0, f)))
        self.inp = set_by(SZ, lambda x: And(rng(x, 0, f), Not(self.lab.has(x))))
        self.lv = env.it.alloc(StructV('EdgeLearning::DatasetParser', {}))
        def entry(it, this, a, d):
            i = it.use(a[0]); it.safe('entry below the number of entries', rng(i, 0, n))
            return SeqV.fn(f, lambda j: self.E(zi(i), zi(j)), FP)
        env.it.models = dict(env.it.models, **{P + 'entry': entry, P + 'entries_amount': lambda it, this, a, d: n, P + 'feature_size': lambda it, this, a, d: f, P + 'labels_idx': lambda it, this, a, d: self.lab})
def C(name, fn, setup, **k): return Contract(name, P + fn, setup, **k)
def V(name, fn, setup, **k): return Contract(name, 'EdgeLearning::drv::' + fn, setup, **k)
def c11_data(env):
    d = Data(env)
    def post(env, o):
        if not ok(o): return bad(o)
        i, j = const('i', I), const('j', I)
        return [('one value per entry and feature', ieq(o.v.n, mul(d.n, d.f))), ('row major, in order', Implies(And(rng(i, 0, d.n), rng(j, 0, d.f)), eq_goal(o.v.get(add(mul(i, d.f), j)), d.E(i, j))))]
    return None, [d.lv], post
def c11_size(env):
    d = Data(env)
    return None, [d.lv], lambda env, o: [('the feature count', ok(o) and ieq(o.v, d.f))]
def c11_labels(env):
    d = Data(env); x = const('x', I)
    return None, [d.lv], lambda env, o: [('the label columns', ok(o) and veq(o.v.has(x), d.lab.has(x)))]
def c11(): return [V('%s(%s)' % (f, w), '%s_%s' % (g, w), su) for f, g, su in (('data_to_encoding', 'data', c11_data), ('encoding_feature_size', 'size', c11_size), ('encoding_labels_idx', 'labels', c11_labels)) for w in ('default', 'plain')]
# ------------------------------------------------------------------ C12
def c12_unique(env):
    d = Data(env); c = env.nat('column'); env.assume(lt(c, d.f))
    G = func('absent', R, B)     # an arbitrary predicate that holds for no value of the column
    T.define(d.E, lambda x: [z3.Implies(z3.And(x.arg(0) >= 0, x.arg(0) < zi(d.n), x.arg(1) == zi(c)), z3.Not(G(x)))])
    def post(env, o):
        if not ok(o): return bad(o)
        i, x = const('i', I), const('x', R)
        return [('every value of the column is in the set', Implies(rng(i, 0, d.n), o.v.has(d.E(i, zi(c))))), ('only values of the column are in the set', Implies(o.v.has(x), Not(G(x))))]
    return d.lv, [c], post
def by_unique(env, d):
    """unique(c) by its contract: the set of the values of column c"""
    U = d.U = func('unique', I, sets.theory(R).sort); MEM = sets.theory(R).MEM
    T.define(d.E, lambda x: [z3.Implies(z3.And(x.arg(0) >= 0, x.arg(0) < zi(d.n)), MEM(U(x.arg(1)), x))])
    def uq(c): return symset(U(zi(c)), FP)
    def m(it, this, a, dd):
        c = it.use(a[0]); it.safe('unique: an existing column', rng(c, 0, d.f)); return uq(c)
    env.it.models = dict(env.it.models, **{P + 'unique': m})
    d.uq = uq
    d.plain = sub(d.f, d.lab.seq.n)
    d.width = lambda k: env.fold(0, lambda acc, i: add(acc, uq(d.lab.seq.get(i)).seq.n), k)
    return d
def c12_size(env):
    d = by_unique(env, Data(env))
    return None, [d.lv], lambda env, o: [('inputs plus one column per label value', ok(o) and ieq(o.v, add(d.plain, d.width(d.lab.seq.n))))]
def c12_labels(env):
    d = by_unique(env, Data(env)); x = const('x', I); w = d.width(d.lab.seq.n)
    env.it.models = dict(env.it.models, **{P + 'encoding_feature_size': lambda it, this, a, dd: add(d.plain, w)})
    return None, [d.lv], lambda env, o: [('the columns after the inputs', ok(o) and veq(o.v.has(x), rng(x, d.plain, add(d.plain, w))))]
def c12_map(env):
    d = by_unique(env, Data(env)); c = env.nat('column'); env.assume(lt(c, d.f)); x = const('x', R); th = sets.theory(R)
    def post(env, o):
        if not ok(o): return bad(o)
        return [('the keys are the values of the column', veq(o.v.keys.has(x), d.uq(c).has(x))), ('each value has its rank', Implies(d.uq(c).has(x), ieq(o.v.val(x), th.RANK(d.U(zi(c)), x))))]
    return d.lv, [c], post
def c12_data(env):
    d = by_unique(env, Data(env)); th = sets.theory(R); th_ = sets.theory(I); L = d.lab.seq
    def m(it, this, a, dd):
        c = it.use(a[0]); it.safe('unique_map: an existing column', rng(c, 0, d.f)); return MapV(d.uq(c), lambda y: th.RANK(d.U(zi(c)), zr(y)), SZ)
    env.it.models = dict(env.it.models, **{P + 'unique_map': m})
    # lemma by induction on x: below x there are x columns, each an input or a label
    LBs = lambda x: add(th_.LB(d.inp.s, zi(x)), th_.LB(d.lab.s, zi(x))); x = env.nat('x'); pc = env.it.st.pc
    env.it.safe('columns below 0', ieq(LBs(0), 0))
    env.it.st.pc = pc + [lt(x, d.f), ieq(LBs(x), x)]; env.it.safe('columns below x + 1', ieq(LBs(add(x, 1)), add(x, 1))); env.it.st.pc = pc
    env.assume(ieq(LBs(d.f), d.f)); env.it.safe('inputs and labels are all the columns', ieq(add(d.inp.seq.n, L.n), d.f)); env.assume(ieq(add(d.inp.seq.n, L.n), d.f))
    W = d.width(L.n); E = add(d.plain, W); env.assume(lt(mul(E, d.n), 2 ** 62))
    def post(env, o):
        if not ok(o): return bad(o)
        r, p, i, c = const('r', I), const('p', I), const('i', I), const('c', I); pc = env.it.st.pc
        in1 = And(rng(r, 0, d.n), rng(p, 0, d.inp.seq.n)); in2 = And(rng(r, 0, d.n), rng(i, 0, L.n), rng(c, 0, d.uq(L.get(i)).seq.n))
        env.it.st.pc = pc + [in1]; g1 = o.v.get(add(mul(r, E), p)); env.it.st.pc = pc + [in2]; g2 = o.v.get(add(mul(r, E), add(add(d.plain, d.width(i)), c))); env.it.st.pc = pc
        col = L.get(i)
        return [('one row of the encoded width per entry', ieq(o.v.n, mul(d.n, E))), ('the inputs first, in column order', Implies(in1, eq_goal(g1, d.E(zi(r), zi(d.inp.seq.get(p)))))),
                ('then one column per value of each label, one for the value of the entry and zero for the others', Implies(in2, eq_goal(g2, ite(veq(d.uq(col).seq.get(c), d.E(zi(r), zi(col))), Fraction(1), Fraction(0)))))]
    return None, [d.lv], post
def c12(): return [C('unique', 'unique', c12_unique), C('unique_map', 'unique_map', c12_map), V('encoding_feature_size(one hot)', 'size_one_hot', c12_size), V('encoding_labels_idx(one hot)', 'labels_one_hot', c12_labels), V('data_to_encoding(one hot)', 'data_one_hot', c12_data, opts={'limit': 450})]
