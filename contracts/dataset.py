"""Contracts for data/dataset.hpp (Dataset<double>)."""
from contract import *
import sets, stdlib, dlmath
from fractions import Fraction
DS = 'EdgeLearning::Dataset<double>'
FP, SZ = ('fp',), ('int', 64, False)
def iset(env, name, below=None):
    s = const(name, sets.theory(I).sort)
    return symset(s, SZ)
def rng(x, lo, hi): return And(le(lo, x), lt(x, hi))
class State:
    """arbitrary dataset satisfying the representation invariant"""
    def __init__(self, env, name='d', f=None, q=None, k=None, pos=True, labels=True):
        self.f = env.nat(name + '.f') if f is None else f
        self.q = env.nat(name + '.q') if q is None else q
        self.k = env.nat(name + '.k') if k is None else k
        if pos: env.assume(Or(lt(0, self.q), ieq(self.k, 0)))
        self.n = mul(self.k, self.q); self.size = mul(self.n, self.f)
        env.assume(lt(self.size, 2 ** 62)); env.assume(lt(self.n, 2 ** 62))
        self.D = func(name + '.data', I, R)
        L = iset(env, name + '.labels'); self.L0 = L
        if labels is True: self.lab = set_by(SZ, lambda x: And(L.has(x), rng(x, 0, self.f)))
        else: self.lab = empty_set(SZ)
        self.inp = set_by(SZ, lambda x: And(rng(x, 0, self.f), Not(self.lab.has(x))))
        self.seq = SeqV.fn(self.size, lambda i: self.D(zi(i)), FP)
        self.v = StructV(DS, {'_data': self.seq, '_feature_size': self.f, '_sequence_size': self.q, '_dataset_size': self.size, '_feature_amount': self.n, '_sequence_amount': self.k, '_labels_idx': self.lab, '_input_idx': self.inp})
        self.lv = env.it.alloc(self.v)
    def at(self, row, col): return self.D(zi(add(mul(row, self.f), col)))
def rep(d, f, q, k, lab, tag=''):
    """representation invariant with the given shape"""
    n = mul(k, q); g = d.f; x = const('x', I)
    return [(tag + 'feature size', ieq(g['_feature_size'], f)), (tag + 'sequence size', ieq(g['_sequence_size'], q)), (tag + 'number of entries', ieq(g['_feature_amount'], n)), (tag + 'number of sequences', ieq(g['_sequence_amount'], k)),
            (tag + 'number of values', ieq(g['_dataset_size'], mul(n, f))), (tag + 'one value per entry and feature', ieq(g['_data'].n, mul(n, f))),
            (tag + 'label columns are the requested ones below the feature size', Implies(le(0, x), veq(g['_labels_idx'].has(x), And(lab(x), rng(x, 0, f))))),
            (tag + 'input columns are the other columns', Implies(le(0, x), veq(g['_input_idx'].has(x), And(rng(x, 0, f), Not(lab(x)))))), ]
def bad(o): return [('no exception', False)]
def C(name, fn, setup, **k): return Contract(name, DS + '::' + fn, setup, **k)
def obj(env, fields=None):
    return env.it.alloc(None)

# ------------------------------------------------------------------ C17
def ctor(name, fn, setup):
    def su(env):
        args, post = setup(env)
        def p(env, o):
            if o.kind not in ('normal', 'return'): return bad(o)
            return post(env, o.v)
        return None, args, p
    return Contract(name, 'EdgeLearning::drv::' + fn, su)
def c17_vec(env):
    n = env.nat('n'); f0, q0 = env.nat('feature_size', 1), env.nat('sequence_size', 1); L = iset(env, 'labels')
    D = func('src', I, R); v = SeqV.fn(n, lambda i: D(zi(i)), FP)
    f = ite(lt(f0, n), f0, n)
    def post(env, d):
        g = d.f; f1, q1, k1 = g['_feature_size'], g['_sequence_size'], g['_sequence_amount']
        rows = udivmod(n, ite(lt(f, 1), 1, f))[0]
        q = ite(lt(q0, rows), q0, rows)
        b = mul(f, q)
        k = udivmod(n, ite(lt(b, 1), 1, b))[0]
        j = const('j', I)
        return rep(d, f, q, k, L.has) + [('the values are the first ones of the vector, in order', Implies(rng(j, 0, mul(mul(k, q), f)), And(lt(j, n), eq_goal(g['_data'].get(j), D(j))))), ('nothing but an incomplete sequence is dropped', lt(sub(n, mul(mul(k, q), f)), ite(lt(b, 1), 1, b)))]
    return [v, f0, q0, L], post
def shape_of(m, f0, q0):
    """feature size, sequence size and number of sequences of a dataset built from m whole entries of f0 values, sequences of q0"""
    some = And(lt(0, m), lt(0, f0), lt(0, q0))
    q = ite(some, ite(lt(q0, m), q0, m), 0)
    return ite(some, f0, 0), q, ite(some, udivmod(m, ite(lt(q, 1), 1, q))[0], 0)
def c17_rows(env):
    m = env.nat('m'); f0, q0 = env.nat('feature_size'), env.nat('sequence_size'); L = iset(env, 'labels')
    env.assume(Or(lt(0, q0), ieq(m, 0)))
    n = mul(m, f0); env.assume(lt(n, 2 ** 62))
    D = func('src', I, R); v = SeqV.fn(n, lambda i: D(zi(i)), FP)
    f, q, k = shape_of(m, f0, q0)
    # lemmas on products and quotients of the sizes
    def lemma(t, g): env.it.safe(t, g); env.assume(g)
    some = And(lt(0, m), lt(0, f0), lt(0, q0))
    lemma('one row is not longer than all', Implies(some, le(f0, n)))
    lemma('dividing by the row length gives the rows', Implies(some, ieq(udivmod(n, ite(lt(f0, 1), 1, f0))[0], m)))
    b = ite(lt(q0, m), q0, m)
    lemma('a sequence is not empty', Implies(some, le(1, mul(f0, b))))
    lemma('dividing by the sequence length gives the sequences', Implies(some, ieq(udivmod(n, ite(lt(mul(f0, b), 1), 1, mul(f0, b)))[0], udivmod(m, ite(lt(b, 1), 1, b))[0])))
    def post(env, d):
        j = const('j', I)
        return rep(d, f, q, k, L.has) + [('whole sequences only', le(mul(k, q), m)), ('the values are the first ones of the vector, in order', Implies(rng(j, 0, mul(mul(k, q), f)), eq_goal(d.f['_data'].get(j), D(j))))]
    return [v, f0, q0, L], post
def ctor_rows(it, lv, args, decl):
    """Dataset(Vec, feature_size, sequence_size, labels) by its contract 'Dataset(Vec of whole entries)'"""
    ps = [c['type']['qualType'] for c in decl.get('inner', []) if c['kind'] == 'ParmVarDecl']
    if len(ps) != 4: return False
    v, f0, q0, L = [it.use(it.read(a) if isinstance(a, LV) else a) for a in args]
    if isinstance(L, SeqV): L = SetV.empty if False else L
    if not isinstance(v, SeqV) or not isinstance(L, SetV): return False
    m, r = dlmath.divmod_sym(it, v.n, f0)
    if r != 0:
        if not it.known(ieq(v.n, 0)): return False
        m = 0
    it.safe('Dataset constructor: sequence size at least one', Or(lt(0, q0), ieq(m, 0)))
    f, q, k = shape_of(m, f0, q0); n = mul(k, q); size = mul(n, f)
    it.assume(And(le(0, f), le(0, q), le(0, k), le(0, n), le(0, size), le(n, m), le(size, v.n)))
    lab = set_by(SZ, lambda x: And(L.has(x), rng(x, 0, f)))
    it.write(lv, StructV(DS, {'_data': SeqV(size, v.kind, v.a, v.et) if v.kind == 'fn' else SeqV.fn(size, v.get, v.et), '_feature_size': f, '_sequence_size': q, '_dataset_size': size, '_feature_amount': n, '_sequence_amount': k, '_labels_idx': lab,
        '_input_idx': set_by(SZ, lambda x: And(rng(x, 0, f), Not(lab.has(x))))}))
    return True
CT = {'ctor:' + DS: ctor_rows}
def lengths(name, nargs, lo=0):
    """arbitrary lengths, each at least lo"""
    f = func(name, *([I] * (nargs + 1)))
    T.define(f, lambda x: [x >= zi(lo), x >= 0, x < 2 ** 28])
    return f
def rows_src(env, n, g, name='src'):
    D = func(name, I, I, R); LN = lengths(name + '.len', 1, g)
    def row(i): return SeqV.fn(LN(zi(i)), lambda j: D(zi(i), zi(j)), FP)
    return D, LN, SeqV.fn(n, row, ('vec', FP))
def c17_mat(env):
    n = env.nat('n'); q0 = env.nat('sequence_size', 1); L = iset(env, 'labels'); g = env.nat('g')
    env.assume(lt(n, 2 ** 28))
    D, LN, v = rows_src(env, n, g)
    q = ite(lt(q0, n), q0, n); k = udivmod(n, ite(lt(q, 1), 1, q))[0]
    def post(env, d):
        f = d.f['_feature_size']; i, j = const('i', I), const('j', I)
        return rep(d, f, q, k, L.has) + [
            ('the feature size is at most the length of every row', Implies(rng(i, 0, n), le(f, LN(i)))),
            ('the feature size is the length of the shortest row', Implies(lt(0, n), le(g, f))),
            ('no rows, no features', Implies(ieq(n, 0), ieq(f, 0))),
            ('the values are the first ones of each row, in order', Implies(And(rng(i, 0, mul(k, q)), rng(j, 0, f)), eq_goal(d.f['_data'].get(add(mul(i, f), j)), D(i, j))))]
    return [v, q0, L], post
def c17_cub(env):
    n = env.nat('n'); L = iset(env, 'labels'); g = env.nat('g'); h = env.nat('h', 1)
    env.assume(lt(n, 2 ** 28))
    D = func('src', I, I, I, R); LN = lengths('src.len', 1, h); LM = lengths('src.row', 2, g)
    def row(a, b): return SeqV.fn(LM(zi(a), zi(b)), lambda j: D(zi(a), zi(b), zi(j)), FP)
    v = SeqV.fn(n, lambda a: SeqV.fn(LN(zi(a)), lambda b: row(a, b), ('vec', FP)), ('vec', ('vec', FP)))
    def post(env, d):
        f, q = d.f['_feature_size'], d.f['_sequence_size']; a, b, j = const('a', I), const('b', I), const('j', I)
        return rep(d, f, q, n, L.has) + [
            ('the sequence size is at most the length of every matrix', Implies(rng(a, 0, n), le(q, LN(a)))),
            ('the sequence size is the length of the shortest matrix', Implies(lt(0, n), le(h, q))),
            ('the feature size is at most the length of every row', Implies(And(rng(a, 0, n), rng(b, 0, LN(a))), le(f, LM(a, b)))),
            ('the feature size is the length of the shortest row', Implies(lt(0, n), le(g, f))),
            ('the values are the first ones of each row, in order', Implies(And(rng(a, 0, n), rng(b, 0, q), rng(j, 0, f)), eq_goal(d.f['_data'].get(add(mul(add(mul(a, q), b), f), j)), D(a, b, j))))]
    return [v, L], post
def c17_empty(env):
    return [], lambda env, d: rep(d, 0, 0, 0, lambda x: False)
def c17_seqsize(env):
    d = State(env); s = env.nat('s', 1)
    q = ite(lt(s, d.n), s, d.n); k = udivmod(d.n, ite(lt(q, 1), 1, q))[0]
    def post(env, o):
        if o.kind not in ('normal', 'return'): return bad(o)
        v = env.it.read(d.lv); j = const('j', I)
        return rep(v, d.f, q, k, d.lab.has) + [('the values kept are the first ones, in order', Implies(rng(j, 0, mul(mul(k, q), d.f)), eq_goal(v.f['_data'].get(j), d.D(j))))]
    return d.lv, [s], post
def c17_labels(env):
    d = State(env); S = iset(env, 'set')
    def post(env, o):
        if o.kind not in ('normal', 'return'): return bad(o)
        v = env.it.read(d.lv); j = const('j', I)
        return rep(v, d.f, d.q, d.k, S.has) + [('the values are unchanged', Implies(rng(j, 0, d.size), eq_goal(v.f['_data'].get(j), d.D(j))))]
    return d.lv, [S], post
def c17():
    return [ctor('Dataset()', 'dataset_empty', c17_empty), ctor('Dataset(Vec)', 'dataset_vec', c17_vec), ctor('Dataset(Vec of whole entries)', 'dataset_vec', c17_rows), ctor('Dataset(Mat)', 'dataset_mat', c17_mat), ctor('Dataset(Cub)', 'dataset_cub', c17_cub),
            C('sequence_size(s)', 'sequence_size', c17_seqsize, nparams=1), C('label_idx(set)', 'label_idx', c17_labels, nparams=1)]

# ------------------------------------------------------------------ C18
def el(S, j): return S.seq.get(j)
def vec_post(o, n, j, want, what):
    v = o.v
    return [(what + ': length', ieq(v.n, n)), (what + ': values', Implies(rng(j, 0, n), eq_goal(v.get(j), want)))]
def ok(o): return o.kind in ('normal', 'return')
def unchanged(env, d):
    g = env.it.read(d.lv)
    if g is d.v: return [('the dataset is unchanged', True)]
    return [('the dataset is unchanged', And(*[eq_goal(a, d.v.f[k]) for k, a in g.f.items()]))]
def c18_entry(env):
    d = State(env); r = env.nat('row')
    def post(env, o):
        if not ok(o): return bad(o)
        j = const('j', I); inside = lt(r, d.n)
        return vec_post(o, ite(inside, d.f, 0), j, d.at(r, j), 'entry') + unchanged(env, d)
    return d.lv, [r], post
def c18_entry_seq(env):
    d = State(env); s = env.nat('seq')
    def post(env, o):
        if not ok(o): return bad(o)
        j, t = const('j', I), const('t', I); inside = lt(s, d.k)
        v = o.v
        return [('sequence: length', ieq(v.n, ite(inside, mul(d.q, d.f), 0))), ('sequence: values', Implies(And(inside, rng(j, 0, d.f), rng(t, 0, d.q)), eq_goal(v.get(add(mul(t, d.f), j)), d.at(add(mul(s, d.q), t), j))))] + unchanged(env, d)
    return d.lv, [s], post
def c18_part(which):
    def su(env):
        d = State(env); r = env.nat('row')
        S = d.inp if which == 'i' else d.lab
        def post(env, o):
            if not ok(o): return bad(o)
            j = const('j', I); inside = lt(r, d.n)
            return vec_post(o, ite(inside, S.seq.n, 0), j, d.at(r, el(S, j)), 'columns') + unchanged(env, d)
        return d.lv, [r], post
    return su
def c18_part_seq(which):
    def su(env):
        d = State(env); s = env.nat('seq')
        S = d.inp if which == 'i' else d.lab
        def post(env, o):
            if not ok(o): return bad(o)
            j, t = const('j', I), const('t', I); inside = lt(s, d.k); v = o.v; c = S.seq.n
            return [('columns of the sequence: length', ieq(v.n, ite(inside, mul(d.q, c), 0))),
                    ('columns of the sequence: values', Implies(And(inside, rng(j, 0, c), rng(t, 0, d.q)), eq_goal(v.get(add(mul(t, c), j)), d.at(add(mul(s, d.q), t), el(S, j)))))] + unchanged(env, d)
        return d.lv, [s], post
    return su
def c18_idx(which):
    def su(env):
        d = State(env)
        S = d.inp if which == 'i' else d.lab
        th = sets.theory(I)
        def post(env, o):
            if not ok(o): return bad(o)
            v = o.v; i, j, x = const('i', I), const('j', I), const('x', I); rk = th.RANK(S.s, x)
            return [('as many indexes as columns', ieq(v.n, S.seq.n)), ('ascending without repetition', Implies(And(le(0, i), lt(i, j), lt(j, v.n)), lt(v.get(i), v.get(j)))),
                    ('every listed index is such a column', Implies(rng(j, 0, v.n), S.has(v.get(j)))), ('every such column is listed', Implies(S.has(x), And(rng(rk, 0, v.n), ieq(v.get(rk), x))))] + unchanged(env, d)
        return d.lv, [], post
    return su
def c18_proj(which):
    def su(env):
        d = State(env)
        S = d.inp if which == 'i' else d.lab
        def post(env, o):
            if not ok(o): return bad(o)
            c = S.seq.n; some = And(lt(0, c), lt(0, d.n)); r, j = const('r', I), const('j', I)
            return [(n_, Implies(some, g)) for n_, g in rep(o.v, c, d.q, d.k, lambda x: False)] + [
                ('the values are those columns of every entry', Implies(And(some, rng(r, 0, d.n), rng(j, 0, c)), eq_goal(o.v.f['_data'].get(add(mul(r, c), j)), d.at(r, el(S, j))))),
                ('nothing when there is no such column or no entry', Implies(Not(some), And(ieq(o.v.f['_data'].n, 0), ieq(o.v.f['_feature_amount'], 0))))] + unchanged(env, d)
        return d.lv, [], post
    return su
def c18():
    return [C('entry', 'entry', c18_entry), C('entry_seq', 'entry_seq', c18_entry_seq), C('input', 'input', c18_part('i')), C('label', 'label', c18_part('l')),
            C('inputs_seq', 'inputs_seq', c18_part_seq('i')), C('labels_seq', 'labels_seq', c18_part_seq('l')), C('input_idx', 'input_idx', c18_idx('i')), C('label_idx()', 'label_idx', c18_idx('l'), nparams=0),
            C('inputs', 'inputs', c18_proj('i'), models=CT), C('labels', 'labels', c18_proj('l'), models=CT)]

# ------------------------------------------------------------------ C19
def prefix(env, d, dd, r0, m, tag=''):
    """dd holds the entries r0 .. r0+m of d (an incomplete last sequence is dropped), with the same shape and labels"""
    q = ite(lt(d.q, m), d.q, m); k = udivmod(m, ite(lt(q, 1), 1, q))[0]; r, j = const('r', I), const('j', I)
    some = And(lt(0, m), lt(0, d.f))
    return [(tag + n_, Implies(some, g)) for n_, g in rep(dd, d.f, q, k, d.lab.has)] + [
        (tag + 'the values are those entries', Implies(And(some, rng(r, 0, mul(k, q)), rng(j, 0, d.f)), eq_goal(dd.f['_data'].get(add(mul(r, d.f), j)), d.at(add(r0, r), j)))),
        (tag + 'no values from no entries', Implies(Not(some), ieq(dd.f['_data'].n, 0)))]
def c19_subdata(env):
    d = State(env); a, b = env.nat('from'), env.nat('to')
    to = ite(lt(d.n, b), d.n, b)
    def post(env, o):
        if o.kind == 'throw': return [('only an empty range of entries is rejected', lt(to, a))] + unchanged(env, d)
        if not ok(o): return bad(o)
        return [('an inverted range is rejected', le(a, to))] + prefix(env, d, o.v, a, sub(to, a)) + unchanged(env, d)
    return d.lv, [a, b], post
def clamp(env, p):
    return ite(flt(1, p), Fraction(1), ite(flt(p, 0), Fraction(0), p))
def c19_perc(env):
    d = State(env); env.assume(lt(d.n, 2 ** 53)); p = env.real('perc'); T.OPT['landmarks'] = [zi(d.n)]
    m = f2i(fmul(clamp(env, p), i2f(d.n)))
    def post(env, o):
        if not ok(o): return bad(o)
        return [('no more entries than there are', And(le(0, m), le(m, d.n)))] + prefix(env, d, o.v, 0, m) + unchanged(env, d)
    return d.lv, [p], post
def c19_split(env):
    d = State(env); env.assume(lt(d.n, 2 ** 53)); env.assume(lt(0, d.n)); p = env.real('perc'); T.OPT['landmarks'] = [zi(d.n), zi(d.k)]
    def post(env, o):
        if not ok(o): return bad(o)
        a, b = o.v.f['training_set'], o.v.f['testing_set']
        na = a.f['_feature_amount']; nf = lt(0, d.f)
        r, j = const('r', I), const('j', I)
        m = mul(f2i(fdiv(fmul(clamp(env, p), i2f(d.n)), i2f(d.q))), d.q)
        return [('every entry is in one of the two sets', Implies(nf, ieq(add(na, b.f['_feature_amount']), d.n))), ('the training set holds the requested share of whole sequences', Implies(nf, ieq(na, m)))] + prefix(env, d, a, 0, m, 'training set: ') + prefix(env, d, b, m, sub(d.n, m), 'testing set: ') + unchanged(env, d)
    return d.lv, [p], post
def c19_shuffle(env):
    d = State(env); e = env.it.alloc(None)
    def post(env, o):
        if not ok(o): return bad(o)
        g = env.it.read(d.lv); r, j = const('r', I), const('j', I); ps = getattr(env.it, 'perms', [])
        res = [('returns the dataset', isinstance(o.v, LV) and o.v.same(d.lv) or o.v is g)]
        res += rep(g, d.f, d.q, d.k, d.lab.has)
        if len(ps) != 1: raise Unsupported('no permutation witness')
        P, Q, n = ps[0]; sv = env.it.st.pc
        def where(F): return Implies(And(rng(r, 0, d.n), rng(j, 0, d.f)), eq_goal(g.f['_data'].get(add(mul(F(zi(r)), d.f), j)), d.at(r, j)))
        env.it.st.pc = sv + [And(rng(r, 0, d.n), rng(j, 0, d.f))]
        gp, gq = where(P), where(Q)
        env.it.st.pc = sv
        F, G, goal = (P, Q, gp) if prove(sv, gp)[0] == 'proved' or prove(sv, gq)[0] != 'proved' else (Q, P, gq)
        return res + [('the rows are moved by a permutation', And(Implies(rng(r, 0, d.n), And(rng(F(zi(r)), 0, d.n), ieq(G(F(zi(r))), r), rng(G(zi(r)), 0, d.n), ieq(F(G(zi(r))), r))), ieq(n, d.n))), ('every row is moved whole', goal)]
    return d.lv, [e], post
def c19_concat(axis):
    def su(env):
        q, f, k = env.nat('q', 1), env.nat('f', 1), env.nat('k', 1)
        o_ = env.nat('other', 1)
        d1 = State(env, 'd1', f, q, k)
        d2 = State(env, 'd2', o_ if axis == 2 else f, o_ if axis == 1 else q, o_ if axis == 0 else k)
        env.assume(lt(0, d1.size)); env.assume(lt(0, d2.size))
        f2, q2, k2 = d2.f, d2.q, d2.k
        same = True if axis == 2 else set_term(d1.lab) == set_term(d2.lab)
        def post(env, o):
            if o.kind == 'throw': return [('compatible datasets are accepted', Not(same))]
            if not ok(o): return bad(o)
            F = add(f, f2) if axis == 2 else f; Q = add(q, q2) if axis == 1 else q; K = add(k, k2) if axis == 0 else k
            r = [('different label columns are rejected', same)] + rep(o.v, F, Q, K, (lambda x: False) if axis == 2 else d1.lab.has)
            g = o.v.f['_data']; i, t, j = const('i', I), const('t', I), const('j', I); pc = env.it.st.pc
            for nm, d, si, st_, sj, (a, b, c) in (('first', d1, 0, 0, 0, (k, q, f)), ('second', d2, k if axis == 0 else 0, q if axis == 1 else 0, f if axis == 2 else 0, (k2, q2, f2))):
                inr = And(rng(i, 0, a), rng(t, 0, b), rng(j, 0, c)); env.it.st.pc = pc + [inr]
                pos = add(mul(add(mul(add(i, si), Q), add(t, st_)), F), add(j, sj))
                goal = eq_goal(g.get(pos), d.D(zi(add(mul(add(mul(i, b), t), c), j)))); env.it.st.pc = pc
                r.append(('the values of the %s dataset' % nm, Implies(inr, goal)))
            return r
        return None, [d1.v, d2.v, axis], post
    return C('concatenate(axis %d)' % axis, 'concatenate', su, models=dict(dlmath.BLOCK, **CT))
def c19_concat_empty(first):
    def su(env):
        d1, d2 = State(env, 'd1'), State(env, 'd2'); axis = env.nat('axis')
        e, x = (d1, d2) if first else (d2, d1)
        env.assume(ieq(e.size, 0)); 
        if not first: env.assume(lt(0, x.size))
        def post(env, o):
            if not ok(o): return bad(o)
            j = const('j', I)
            return rep(o.v, x.f, x.q, x.k, x.lab.has) + [('the values of the other dataset', Implies(rng(j, 0, x.size), eq_goal(o.v.f['_data'].get(j), x.D(j))))]
        return None, [d1.v, d2.v, axis], post
    return C('concatenate(%s empty)' % ('first' if first else 'second'), 'concatenate', su, models=dict(dlmath.BLOCK, **CT))
def c19_concat_bad(env):
    d1, d2 = State(env, 'd1'), State(env, 'd2'); axis = env.nat('axis')
    env.assume(lt(0, d1.size)); env.assume(lt(0, d2.size))
    env.assume(Or(le(3, axis), And(ieq(axis, 0), Or(Not(ieq(d1.q, d2.q)), Not(ieq(d1.f, d2.f)))), And(ieq(axis, 1), Or(Not(ieq(d1.k, d2.k)), Not(ieq(d1.f, d2.f)))), And(ieq(axis, 2), Or(Not(ieq(d1.q, d2.q)), Not(ieq(d1.k, d2.k))))))
    return None, [d1.v, d2.v, axis], lambda env, o: [('incompatible datasets are rejected', o.kind == 'throw' and o.v[0] == 'runtime_error')]
def c19_concat_all(): return [c19_concat(0), c19_concat(1), c19_concat(2), c19_concat_empty(True), c19_concat_empty(False), C('concatenate(incompatible)', 'concatenate', c19_concat_bad, models=dict(dlmath.BLOCK, **CT))]
DP = 'EdgeLearning::DatasetParser::'
def c19_parse(env):
    # contracts of the parser methods (proved in C11/C12): whole entries, one feature size and label set per encoding
    MM, FF, LL, DD = func('enc.rows', I, I), func('enc.features', I, I), func('enc.labels', I, sets.theory(I).sort), func('enc.data', I, I, R)
    for f in (MM, FF): T.define(f, lambda x: [x >= 0, x < 2 ** 28])
    lv = env.it.alloc(StructV('EdgeLearning::DatasetParser', {})); e = env.int('encoding'); s0 = env.nat('sequence_size', 1)
    def right(it, this): it.safe('the given parser is asked', this is not None and this.same(lv))
    def data(it, this, a, d): right(it, this); x = zi(it.use(a[0])); return SeqV.fn(mul(MM(x), FF(x)), lambda i: DD(x, zi(i)), FP)
    def feat(it, this, a, d): right(it, this); return FF(zi(it.use(a[0])))
    def lab(it, this, a, d): right(it, this); return symset(LL(zi(it.use(a[0]))), SZ)
    env.it.models = dict(env.it.models, **{DP + 'data_to_encoding': data, DP + 'encoding_feature_size': feat, DP + 'encoding_labels_idx': lab})
    f, q, k = shape_of(MM(e), FF(e), s0)
    def post(env, o):
        if not ok(o): return bad(o)
        j = const('j', I)
        return rep(o.v, f, q, k, symset(LL(e), SZ).has) + [('the encoded values in order', Implies(rng(j, 0, mul(mul(k, q), f)), eq_goal(o.v.f['_data'].get(j), DD(e, j)))), ('nothing but an incomplete sequence is dropped', Implies(And(lt(0, MM(e)), lt(0, FF(e))), lt(sub(MM(e), mul(k, q)), q)))]
    return None, [lv, e, s0], post
def c19():
    return [C('subdata(from, to)', 'subdata', c19_subdata, nparams=2, models=CT), C('subdata(perc)', 'subdata', c19_perc, nparams=1, models=CT), C('split', 'split', c19_split, models=CT), C('shuffle', 'shuffle', c19_shuffle), C('parse', 'parse', c19_parse, models=CT)]

# ------------------------------------------------------------------ C20
def scaled(x, lo, hi): return fdiv(fsub(x, lo), fsub(hi, lo))
def c20_given(listed):
    def su(env):
        d = State(env); lo, hi = env.real('min'), env.real('max'); m = env.nat('columns') if listed else 0
        IX, INV = func('idx', I, I), func('idx.inv', I, I)
        if listed:
            T.PERM[IX.get_id()] = INV; T.PERM_RANGE[IX.get_id()] = d.f
            T.define(IX, lambda x: [z3.Implies(z3.And(x.arg(0) >= 0, x.arg(0) < zi(m)), z3.And(x >= 0, x < zi(d.f), INV(x) == x.arg(0)))])
            env.assume(lt(0, m))
        v = SeqV.fn(m, lambda i: IX(zi(i)), SZ) if listed else SeqV.items([], SZ)
        def post(env, o):
            g = env.it.read(d.lv)
            if o.kind == 'throw': return [('only equal bounds are rejected', And(o.v[0] == 'runtime_error', feq(lo, hi)))] + unchanged(env, d)
            if not ok(o): return bad(o)
            r, c = const('r', I), const('c', I); k = INV(zi(c))
            col = And(rng(k, 0, m), ieq(IX(k), c)) if listed else True
            sv = env.it.st.pc; env.it.st.pc = sv + [And(rng(r, 0, d.n), rng(c, 0, d.f))]
            got = g.f['_data'].get(add(mul(r, d.f), c)); env.it.st.pc = sv
            return [('returns the dataset', isinstance(o.v, LV) and o.v.same(d.lv) or o.v is g), ('equal bounds are rejected', Not(feq(lo, hi)))] + rep(g, d.f, d.q, d.k, d.lab.has) + [
                ('the values of the chosen columns are scaled', Implies(And(rng(r, 0, d.n), rng(c, 0, d.f), col), eq_goal(got, scaled(d.at(r, c), lo, hi)))),
                ('the values of the other columns are kept', Implies(And(rng(r, 0, d.n), rng(c, 0, d.f), Not(col)), eq_goal(got, d.at(r, c))))]
        return d.lv, [lo, hi, v], post
    return su
def c20_auto(env):
    d = State(env); env.assume(Or(lt(0, d.n), ieq(d.f, 0)))
    def ext(c, less):
        def step(a, k): x = d.at(add(k, 1), c); return ite(flt(x, a) if less else flt(a, x), x, a)
        return env.fold(d.at(0, c), step, sub(d.n, 1))
    def post(env, o):
        if not ok(o): return bad(o)
        g = env.it.read(d.lv); r, c, i = const('r', I), const('c', I), const('i', I); b = env.real('bound')
        lo, hi = ext(c, True), ext(c, False)
        sv = env.it.st.pc; env.it.st.pc = sv + [And(rng(r, 0, d.n), rng(c, 0, d.f))]
        got = g.f['_data'].get(add(mul(r, d.f), c)); env.it.st.pc = sv
        inr = And(rng(r, 0, d.n), rng(c, 0, d.f))
        return [('returns the dataset', isinstance(o.v, LV) and o.v.same(d.lv) or o.v is g)] + rep(g, d.f, d.q, d.k, d.lab.has) + [
            ('every value is scaled with the minimum and maximum of its column', Implies(inr, eq_goal(got, scaled(d.at(r, c), lo, hi)))),
            ('no value of the column is below the minimum or above the maximum', Implies(inr, And(Not(flt(d.at(r, c), lo)), Not(flt(hi, d.at(r, c))))))]
    return d.lv, [], post
def c20(): return [C('min_max_normalization(min, max)', 'min_max_normalization', c20_given(False), nparams=3), C('min_max_normalization(min, max, columns)', 'min_max_normalization', c20_given(True), nparams=3), C('min_max_normalization()', 'min_max_normalization', c20_auto, nparams=0)]
