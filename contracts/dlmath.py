"""Contracts for dnn/dlmath.hpp."""
from contract import *
from loops import divmod_sym
D = 'EdgeLearning::DLMath::'
EPSM = Fraction(2) ** -52
DBL_MIN = Fraction(2) ** -1022

def exp(x): return ufun('exp', x)
def log(x): return ufun('log', x)
def tanh(x): return ufun('tanh', x)
def fmax(a, b): return ite(flt(a, b), b, a)
ONE, ZERO = Fraction(1), Fraction(0)

def sigmoid(x): return fdiv(ONE, fadd(ONE, exp(fneg(x))))
UNARY = {   # name -> (scalar specification, has alpha)
    'relu': (lambda x, al: ite(flt(ZERO, x), x, ZERO), False),
    'relu_1': (lambda x, al: ite(flt(ZERO, x), ONE, ZERO), False),
    'elu': (lambda x, al: ite(flt(ZERO, x), x, fmul(al, fsub(exp(x), ONE))), True),
    'elu_1': (lambda x, al: ite(flt(ZERO, x), ONE, fmul(al, exp(x))), True),
    'elu_1_opt': (lambda x, al: ite(flt(ZERO, x), ONE, fadd(x, al)), True),
    'tanh': (lambda x, al: tanh(x), False),
    'tanh_1_opt': (lambda x, al: fsub(ONE, fmul(x, x)), False),
    'tanh_1': (lambda x, al: fsub(ONE, fmul(tanh(x), tanh(x))), False),
    'sigmoid': (lambda x, al: sigmoid(x), False),
    'sigmoid_1_opt': (lambda x, al: fmul(x, fsub(ONE, x)), False),
    'sigmoid_1': (lambda x, al: fmul(sigmoid(x), fsub(ONE, sigmoid(x))), False),
}
def elementwise(env, p, n, total, before, spec, name='element'):
    """array p after the call: elements [0,n) follow spec, the others keep their value"""
    j = const('j', I)
    got = env.it.read(p.lv).get(add(p.idx, j))
    inr = And(le(0, j), lt(j, n))
    o = const('o', I)
    got2 = env.it.read(p.lv).get(o)
    outr = And(le(0, o), lt(o, total), Or(lt(o, p.idx), le(add(p.idx, n), o)))
    ok = False if isinstance(got, Uninit) else eq_goal(got, spec(j))
    fr = [] 
    if before is not None: fr = [('frame', Implies(outr, eq_goal(got2, before.get(o))))]
    return [(name, Implies(inr, ok))] + fr + [('length', ieq(env.it.read(p.lv).n, total))]

def ret_is(env, o, p): return ('returns dst', o.kind == 'normal' and isinstance(o.v, PtrV) and o.v.lv.same(p.lv) and ieq(o.v.idx, p.idx))

def arr(env, name, n):
    """array object with room for n elements at an arbitrary offset"""
    off = env.nat(name + '.off'); tail = env.nat(name + '.tail')
    total = add(add(off, n), tail)
    v = env.seq(name, total)
    return env.ptr(v, off), v, total

def unary_contract(nm, alias):
    spec, al = UNARY[nm]
    def setup(env):
        n = env.nat('n')
        src, sv, st = arr(env, 'src', n)
        a = env.real('alpha')
        if alias: dst, dv, dt = src, sv, st
        else: dst, dv, dt = arr(env, 'dst', n)
        def post(env, o):
            r = elementwise(env, dst, n, dt, dv, lambda j: spec(sv.get(add(src.idx, j)), a)) + [ret_is(env, o, dst)]
            if not alias:
                k = const('k', I)
                r.append(('source untouched', veq(env.it.read(src.lv).get(k), sv.get(k))))
            return r
        return None, [dst, src, n] + ([a] if al else []), post
    return Contract('%s%s' % (nm, '(in place)' if alias else ''), D + nm, setup, nparams=4 if al else 3)

def binary_contract(nm, alias, op, scalar):
    def setup(env):
        n = env.nat('n')
        s1, v1, t1 = arr(env, 'a', n)
        x = env.real('x')
        s2, v2, t2 = arr(env, 'b', n)
        if alias == 1: dst, dv, dt = s1, v1, t1
        elif alias == 2: dst, dv, dt = s2, v2, t2
        else: dst, dv, dt = arr(env, 'dst', n)
        if alias == 3: s2, v2, t2 = s1, v1, t1
        def post(env, o):
            return elementwise(env, dst, n, dt, dv, lambda j: op(v1.get(add(s1.idx, j)), x if scalar else v2.get(add(s2.idx, j)))) + [ret_is(env, o, dst)]
        return None, [dst, s1, x if scalar else s2, n], post
    return Contract('%s%s%s' % (nm, '(scalar)' if scalar else '', {0: '', 1: '(dst=src1)', 2: '(dst=src2)', 3: '(src1=src2)'}[alias]), D + nm, setup, nparams=4,
                    sig='double, SizeType)' if scalar else 'const double *, const double *, SizeType')

def elementwise_contracts():
    cs = []
    for nm in UNARY:
        cs += [unary_contract(nm, False), unary_contract(nm, True)]
    for nm, op in (('arr_mul', fmul), ('arr_sum', fadd)):
        for al in (0, 1, 2, 3): cs.append(binary_contract(nm, al, op, False))
        for al in (0, 1): cs.append(binary_contract(nm, al, op, True))
    return cs

def softmax_contract(stable, alias):
    nm = 'stable_softmax' if stable else 'softmax'
    def setup(env):
        n = env.nat('n', 1)
        src, sv, st = arr(env, 'src', n)
        dst, dv, dt = (src, sv, st) if alias else arr(env, 'dst', n)
        def post(env, o):
            s = lambda j: sv.get(add(src.idx, j))
            if not stable:
                tot = env.fold(ZERO, lambda acc, k: fadd(acc, exp(s(k))), n)
                inv = fdiv(ONE, tot)
                return elementwise(env, dst, n, dt, dv, lambda j: fmul(exp(s(j)), inv)) + [ret_is(env, o, dst)]
            # the subtracted value is the maximum: some element q with s(q) >= every other; found from the path facts
            m = None
            for f in env.it.st.pc: pass
            q = MAXQ[-1]
            m = s(q) if q is not None else None
            tot = env.fold(ZERO, lambda acc, k: fadd(acc, exp(fsub(s(k), m))), n)
            inv = fdiv(ONE, tot)
            j = const('mx', I)
            return elementwise(env, dst, n, dt, dv, lambda j: fmul(exp(fsub(s(j), m)), inv)) + [ret_is(env, o, dst)]
        return None, [dst, src, n], post
    models = {D + 'max': max_model} if stable else {}
    return Contract(nm + ('(in place)' if alias else ''), D + nm, setup, models=models)
MAXQ = [None]
def max_model(it, this, args, decl):
    """contract of DLMath::max, verified on its own: an element that no other element exceeds"""
    p, n = args[0], args[1]
    p = it.read(p) if isinstance(p, LV) else p
    n = it.read(n) if isinstance(n, LV) else n
    s = it.read(p.lv)
    it.safe('max of a non-empty range', And(lt(0, n), le(0, p.idx), le(add(p.idx, n), s.n)))
    q = const('argmax', I); k = const('q', I)
    it.assume(And(q >= 0, q < zi(n)))
    it.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n)), z3.Not(zb(flt(s.get(add(p.idx, q)), s.get(add(p.idx, k))))))))
    MAXQ.append(q)
    return s.get(add(p.idx, q))

def softmax1_contract(opt):
    def setup(env):
        n = env.nat('n')
        src, sv, st = arr(env, 'src', n); g, gv, gt = arr(env, 'g', n); dst, dv, dt = arr(env, 'dst', n)
        def post(env, o):
            s = lambda j: sv.get(add(src.idx, j)); gg = lambda j: gv.get(add(g.idx, j))
            if opt: y = s
            else:
                tot = env.fold(ZERO, lambda acc, k: fadd(acc, exp(s(k))), n)
                inv = fdiv(ONE, tot)
                y = lambda j: fmul(exp(s(j)), inv)
            def spec(i): return env.fold(ZERO, lambda acc, k: fadd(acc, fmul(fmul(y(i), fsub(ite(ieq(i, k), ONE, ZERO), y(k))), gg(k))), n)
            return elementwise(env, dst, n, dt, dv, spec) + [ret_is(env, o, dst)]
        return None, [dst, src, g, n], post
    return Contract('softmax_1_opt' if opt else 'softmax_1', D + ('softmax_1_opt' if opt else 'softmax_1'), setup)

def matarr_contract():
    def setup(env):
        rows, cols = env.nat('rows'), env.nat('cols')
        dst, dv, dt = arr(env, 'dst', rows)
        m, mv, mt = arr(env, 'm', mul(rows, cols)); x, xv, xt = arr(env, 'x', cols)
        def post(env, o):
            def spec(i): return env.fold(ZERO, lambda acc, k: fadd(acc, fmul(mv.get(add(m.idx, add(mul(i, cols), k))), xv.get(add(x.idx, k)))), cols)
            return elementwise(env, dst, rows, dt, dv, spec) + [ret_is(env, o, dst)]
        return None, [dst, m, x, rows, cols], post
    return Contract('matarr_mul', D + 'matarr_mul', setup)
def matarr_throw():
    def setup(env):
        rows, cols = env.nat('rows'), env.nat('cols')
        x, xv, xt = arr(env, 'x', add(rows, cols)); m, mv, mt = arr(env, 'm', mul(rows, cols))
        return None, [x, m, x, rows, cols], lambda env, o: [('aliased source and destination rejected', o.kind == 'throw' and o.v[0] == 'runtime_error'), ('nothing written', env.it.read(x.lv) is xv)]
    return Contract('matarr_mul(alias)', D + 'matarr_mul', setup)

def dense_contract(nm='dense'):
    def setup(env):
        nin, nout = env.nat('nin'), env.nat('nout')
        dst, dv, dt = arr(env, 'dst', nout)
        src, sv, _ = arr(env, 'src', nin); w, wv, _ = arr(env, 'w', mul(nout, nin)); b, bv, _ = arr(env, 'b', nout)
        def post(env, o):
            def spec(i): return env.fold(bv.get(add(b.idx, i)), lambda acc, k: fadd(acc, fmul(wv.get(add(w.idx, add(mul(i, nin), k))), sv.get(add(src.idx, k)))), nin)
            return elementwise(env, dst, nout, dt, dv, spec) + [ret_is(env, o, dst)]
        return None, [dst, src, w, b, nin, nout], post
    return Contract(nm, D + nm, setup)

def dense1_contract(nm='dense_1'):
    def setup(env):
        nin, nout = env.nat('nin'), env.nat('nout')
        ig, igv, igt = arr(env, 'ig', nin); wg, wgv, wgt = arr(env, 'wg', mul(nout, nin)); bg, bgv, bgt = arr(env, 'bg', nout)
        g, gv, _ = arr(env, 'g', nout); x, xv, _ = arr(env, 'x', nin); w, wv, _ = arr(env, 'w', mul(nout, nin))
        def post(env, o):
            G = lambda i: gv.get(add(g.idx, i)); X = lambda j: xv.get(add(x.idx, j)); W = lambda i, j: wv.get(add(w.idx, add(mul(i, nin), j)))
            r = elementwise(env, ig, nin, igt, igv, lambda j: env.fold(ZERO, lambda acc, k: fadd(acc, fmul(G(k), W(k, j))), nout), 'input gradient')
            r += elementwise(env, bg, nout, bgt, bgv, lambda i: fadd(bgv.get(add(bg.idx, i)), G(i)), 'bias gradient')
            # weight gradient at (i, j)
            i, j = const('wi', I), const('wj', I)
            J = add(wg.idx, add(mul(i, nin), j))
            env.it.st.pc += [i >= 0, i < nout, j >= 0, j < nin]
            got = env.it.read(wg.lv).get(J)
            r.append(('weight gradient', veq(got, fadd(wgv.get(J), fmul(G(i), X(j))))))
            o_ = const('o', I)
            r.append(('weight gradient frame', Implies(Or(lt(o_, wg.idx), le(add(wg.idx, mul(nout, nin)), o_)), veq(env.it.read(wg.lv).get(o_), wgv.get(o_)))))
            return r + [ret_is(env, o, ig)]
        return None, [ig, wg, bg, g, x, w, nin, nout], post
    return Contract(nm, D + nm, setup)

def loss_contracts():
    cs = []
    def ce(env):
        y, h = env.real('y'), env.real('h')
        return None, [y, h], lambda env, o: [('value', veq(o.v, fmul(fneg(y), log(fmax(h, EPSM)))))]
    cs.append(Contract('cross_entropy(scalar)', D + 'cross_entropy', ce, nparams=2))
    def ce1(env):
        y, h, nn = env.real('y'), env.real('h'), env.real('norm')
        return None, [y, h, nn], lambda env, o: [('value', veq(o.v, fmul(nn, fdiv(fneg(y), fmax(h, DBL_MIN)))))]
    cs.append(Contract('cross_entropy_1(scalar)', D + 'cross_entropy_1', ce1, nparams=3))
    def se(env):
        y, h = env.real('y'), env.real('h')
        return None, [y, h], lambda env, o: [('value', veq(o.v, fmul(fsub(y, h), fsub(y, h))))]
    cs.append(Contract('squared_error', D + 'squared_error', se, nparams=2))
    def se1(env):
        y, h, nn = env.real('y'), env.real('h'), env.real('norm')
        return None, [y, h, nn], lambda env, o: [('value', veq(o.v, fmul(fmul(Fraction(-2), nn), fsub(y, h))))]
    cs.append(Contract('squared_error_1', D + 'squared_error_1', se1, nparams=3))
    def total(kind):
        def setup(env):
            n = env.nat('n', 0 if kind == 'ce' else 1)
            a, av, _ = arr(env, 'y', n); b, bv, _ = arr(env, 'h', n)
            def post(env, o):
                y = lambda k: av.get(add(a.idx, k)); h = lambda k: bv.get(add(b.idx, k))
                if kind == 'ce': s = env.fold(ZERO, lambda acc, k: fadd(acc, fmul(fneg(y(k)), log(fmax(h(k), EPSM)))), n)
                else: s = fdiv(env.fold(ZERO, lambda acc, k: fadd(acc, fmul(fsub(y(k), h(k)), fsub(y(k), h(k)))), n), i2f(n))
                return [('value', veq(o.v, s))]
            return None, [a, b, n], post
        return setup
    cs.append(Contract('cross_entropy(array)', D + 'cross_entropy', total('ce'), nparams=3))
    cs.append(Contract('mean_squared_error', D + 'mean_squared_error', total('mse'), nparams=3))
    def grad(nm, f):
        def setup(env):
            n = env.nat('n'); nn = env.real('norm')
            a, av, _ = arr(env, 'y', n); b, bv, _ = arr(env, 'h', n); dst, dv, dt = arr(env, 'dst', n)
            def post(env, o):
                y = lambda k: av.get(add(a.idx, k)); h = lambda k: bv.get(add(b.idx, k))
                return elementwise(env, dst, n, dt, dv, lambda j: f(y(j), h(j), nn)) + [ret_is(env, o, dst)]
            return None, [dst, a, b, nn, n], post
        cs.append(Contract(nm + '(array)', D + nm, setup, nparams=5))
    grad('cross_entropy_1', lambda y, h, nn: fmul(nn, fdiv(fneg(y), fmax(h, DBL_MIN))))
    grad('mean_squared_error_1', lambda y, h, nn: fmul(fmul(Fraction(-2), nn), fsub(y, h)))
    return cs

def max_contracts():
    def mk(nm):
        def setup(env):
            n = env.nat('n', 1)
            a, av, _ = arr(env, 'a', n)
            def post(env, o):
                s = lambda k: av.get(add(a.idx, k))
                k = const('k', I); inr = And(le(0, k), lt(k, n))
                r = []
                if nm == 'max': v, q = o.v, None
                elif nm == 'argmax': q = o.v; v = s(q)
                else: v, q = o.v.xs
                r.append(('no element is greater', Implies(inr, Not(flt(v, s(k))))))
                if q is not None:
                    r.append(('index in range', And(le(0, q), lt(q, n))))
                    r.append(('value at the index', veq(v, s(q))))
                    r.append(('first maximum', Implies(And(le(0, k), lt(k, q)), flt(s(k), s(q)))))
                else:
                    # membership: the returned value is an element (witness from the search)
                    x = const('w', I)
                    w = z3.Exists([x], z3.And(x >= 0, x < n, term(s(x)) == term(v)))
                    r.append(('is an element', w))
                return r
            return None, [a, n], post
        return Contract(nm, D + nm, setup)
    return [mk('max'), mk('argmax'), mk('max_and_argmax')]
def softmax1_throw():
    def setup(env):
        n = env.nat('n'); src, sv, st = arr(env, 'src', n); g, gv, gt = arr(env, 'g', n)
        return None, [src, src, g, n], lambda env, o: [('aliased source and destination rejected', o.kind == 'throw' and o.v[0] == 'runtime_error'), ('nothing written', env.it.read(src.lv) is sv)]
    return Contract('softmax_1_opt(aliased)', D + 'softmax_1_opt', setup)

def c21(): return [softmax1_throw()] + elementwise_contracts() + [softmax_contract(s, a) for s in (0, 1) for a in (0, 1)] + [softmax1_contract(1), softmax1_contract(0)]
def c22(): return [matarr_contract(), matarr_throw(), dense_contract(), dense_contract('dense_simd_opt'), dense1_contract()]
def c27(): return loss_contracts()
def c28(): return max_contracts()
def all_contracts():
    return elementwise_contracts() + [softmax_contract(s, a) for s in (0, 1) for a in (0, 1)] + [softmax1_contract(1), softmax1_contract(0), matarr_contract(), matarr_throw(), dense_contract(), dense_contract('dense_simd_opt'), dense1_contract()] + loss_contracts() + max_contracts()

# ---- n-dimensional append / extract -------------------------------------------------------------------------------
def nd_contract(nm):
    """append / extract along any axis of an array of any number of dimensions: with outer = product of the dimensions before the
    axis and inner = product of those after it, element (i, a, k) of the small array is element (i, off+a, k) of the big one"""
    def setup(env):
        nd = env.nat('nd', 1); sh = env.seq('shape', nd, ('int', 64, False))
        axis = env.nat('axis')
        if not nm.endswith('_check'): env.assume(lt(axis, nd))
        k = z3.Int('shk'); sf = sh.get(k)
        env.assume(z3.ForAll([k], sf >= 0, patterns=[sf]))
        step = lambda c: (lambda acc, j: ite(c(j), mul(acc, sh.get(j)), acc))
        outer = env.fold(1, step(lambda j: lt(j, axis)), nd); inner = env.fold(1, step(lambda j: lt(axis, j)), nd)
        env.assume(And(le(0, outer), le(0, inner)))
        ext = sh.get(axis)
        app = nm.startswith('append')
        big, small = (ext, env.nat('m')) if app else (env.nat('big'), ext)
        off = env.nat('axoff'); env.assume(le(add(off, small), big))
        dst, dv, dt = arr(env, 'dst', mul(outer, mul(inner, ext)))
        src, sv, st = arr(env, 'src', mul(outer, mul(inner, small if app else big)))
        env.nonneg = [mul(outer, mul(inner, big)), mul(inner, small)]
        for t in env.nonneg: env.assume(le(0, t))
        def post(env, o):
            if nm.endswith('_check'):
                if o.kind == 'throw': return [('only a bad axis is rejected', And(le(nd, axis), o.v[0] == 'runtime_error')), ('nothing written', env.it.read(dst.lv) is dv)]
                r0 = [('a bad axis is rejected', lt(axis, nd))]
            else: r0 = []
            i, a, kk = const('i', I), const('a', I), const('k', I)
            inr = And(le(0, i), lt(i, outer), le(0, a), lt(a, small), le(0, kk), lt(kk, inner))
            at_small = add(mul(i, mul(inner, small)), add(mul(a, inner), kk)); at_big = add(mul(i, mul(inner, big)), add(mul(add(off, a), inner), kk))
            D_, S_ = (at_big, at_small) if app else (at_small, at_big)
            got = env.it.read(dst.lv).get(add(dst.idx, D_))
            r = r0 + [('element', Implies(inr, False if isinstance(got, Uninit) else veq(got, sv.get(add(src.idx, S_)))))]
            b = const('b', I)
            rest = And(le(0, i), lt(i, outer), le(0, b), lt(b, big), Or(lt(b, off), le(add(off, small), b)), le(0, kk), lt(kk, inner))
            if app: r.append(('rest untouched', Implies(rest, veq(env.it.read(dst.lv).get(add(dst.idx, add(mul(i, mul(inner, big)), add(mul(b, inner), kk)))), dv.get(add(dst.idx, add(mul(i, mul(inner, big)), add(mul(b, inner), kk))))))))
            w = const('o', I)
            r.append(('outside untouched', Implies(Or(lt(w, dst.idx), le(add(dst.idx, mul(outer, mul(inner, ext))), w)), veq(env.it.read(dst.lv).get(w), dv.get(w)))))
            return r + [ret_is(env, o, dst)]
        return None, [dst, sh, src, small if app else big, axis, off], post
    return Contract(nm + '(any rank)', D + nm, setup)
def c24(): return [nd_contract(x) for x in ('append', 'extract', 'append_check', 'extract_check')]

# ---- concatenate / separate of cubes ------------------------------------------------------------------------------
def shape3(env, dims):
    """a Shape3d value, built by running its constructor"""
    it = env.it
    return it.construct_value('EdgeLearning::DLMath::Shape3d', list(dims))
def block_copy(it, dst, shape, src, other, axis, off, app):
    """append / extract by their contract (proved for any rank by c24): requires the window to fit and both blocks to be long enough"""
    R = lambda x: it.read(x) if isinstance(x, LV) else x
    dst, shape, src, other, axis, off = [R(x) for x in (dst, shape, src, other, axis, off)]
    if isinstance(shape, StructV): shape = [v for v in shape.f.values() if isinstance(v, SeqV)][0]
    if not (conc(shape.n) and conc(axis)): raise Unsupported('append/extract of unknown rank')
    it.safe('append/extract: axis below the rank', lt(axis, shape.n))
    ds = [shape.get(i) for i in range(shape.n)]
    outer = inner = 1
    for d in ds[:axis]: outer = mul(outer, d)
    for d in ds[axis + 1:]: inner = mul(inner, d)
    big, small = (ds[axis], other) if app else (other, ds[axis])
    dn, sn = mul(outer, mul(inner, big)), mul(outer, mul(inner, small))
    if not app: dn, sn = sn, dn
    old, s = it.read(dst.lv), it.read(src.lv)
    it.safe('append/extract: the window fits', le(add(off, small), big))
    it.safe('append/extract: destination block', Or(ieq(dn, 0), And(le(0, dst.idx), le(add(dst.idx, dn), old.n))))
    it.safe('append/extract: source block', Or(ieq(sn, 0), And(le(0, src.idx), le(add(src.idx, sn), s.n))))
    if dst.lv.same(src.lv): raise Unsupported('append/extract in place')
    def g(J):
        q = sub(J, dst.idx)
        i, rem = divmod_sym(it, q, mul(inner, big if app else small)); a, k = divmod_sym(it, rem, inner)
        inside = And(le(0, q), lt(q, dn))
        if app: return vite(And(inside, le(off, a), lt(a, add(off, small))), s.get(add(src.idx, add(mul(i, mul(inner, small)), add(mul(sub(a, off), inner), k)))), old.get(J))
        return vite(inside, s.get(add(src.idx, add(mul(i, mul(inner, big)), add(mul(add(off, a), inner), k)))), old.get(J))
    it.write(dst.lv, SeqV.fn(old.n, g, old.et))
    return dst
BLOCK = {D + 'append': lambda it, this, a, decl: block_copy(it, *a, True), D + 'extract': lambda it, this, a, decl: block_copy(it, *a, False),
         D + 'append_check': lambda it, this, a, decl: block_copy(it, *a, True), D + 'extract_check': lambda it, this, a, decl: block_copy(it, *a, False)}
def cube_contract(nm, axis, k, aslist):
    def setup(env):
        base = [env.nat('d%d' % i) for i in range(3)]
        parts = [env.nat('e%d' % i) for i in range(k)]
        tot = 0
        for p in parts: tot = add(tot, p)
        def dims(p): return [p if i == axis else base[i] for i in range(3)]
        def size(d): return mul(d[0], mul(d[1], d[2]))
        inner = 1
        for i in range(axis + 1, 3): inner = mul(inner, base[i])
        outer = 1
        for i in range(axis): outer = mul(outer, base[i])
        for p in parts + [tot]: env.assume(le(0, mul(outer, mul(p, inner))))
        env.assume(le(0, inner)); env.assume(le(0, outer))
        shp = [shape3(env, dims(p)) for p in parts]
        con = nm == 'concatenate'
        big = arr(env, 'big', size(dims(tot)))
        if aslist: joined = arr(env, 'small', size(dims(tot))); small = None
        else: small = [arr(env, 's%d' % i, size(dims(p))) for i, p in enumerate(parts)]
        if aslist:
            vec = SeqV.items([env.it.read(s) if isinstance(s, LV) else s for s in shp], ('rec', 'EdgeLearning::DLMath::Shape3d'))
            args = [big[0], joined[0], vec, axis] if con else [joined[0], vec, big[0], axis]
        elif con: args = [big[0], small[0][0], shp[0], small[1][0], shp[1], axis]
        else: args = [small[0][0], shp[0], small[1][0], shp[1], big[0], axis]
        def post(env, o):
            if o.kind != 'normal': return [('accepted', False)]
            r = []
            off = 0; joff = 0
            bp, bv, bt = big
            base_pc = list(env.it.st.pc)
            for q, p in enumerate(parts):
                i, a, kk = const('i', I), const('a', I), const('k', I)
                if aslist: sp, sv, st = joined; s0 = add(sp.idx, joff)
                else: sp, sv, st = small[q]; s0 = sp.idx
                inr = And(le(0, i), lt(i, outer), le(0, a), lt(a, p), le(0, kk), lt(kk, inner))
                env.it.st.pc = base_pc + [inr]
                si = add(s0, add(mul(i, mul(p, inner)), add(mul(a, inner), kk)))
                bi = add(bp.idx, add(mul(i, mul(tot, inner)), add(mul(add(off, a), inner), kk)))
                if con: got, want = env.it.read(bp.lv).get(bi), sv.get(si)
                else: got, want = env.it.read(sp.lv).get(si), bv.get(bi)
                r.append(('part %d' % q, Implies(inr, eq_goal(got, want))))
                off = add(off, p); joff = add(joff, mul(outer, mul(p, inner)))
            env.it.st.pc = base_pc
            w = const('o', I)
            for (sp, sv, st) in ([big] if con else [joined] if aslist else small):
                n = sub(sub(st, sp.idx), 0)
                ln = size(dims(tot)) if (con or aslist) else None
                if ln is None: ln = size(dims(parts[small.index((sp, sv, st))]))
                r.append(('outside untouched', Implies(Or(lt(w, sp.idx), le(add(sp.idx, ln), w)), eq_goal(env.it.read(sp.lv).get(w), sv.get(w)))))
            return r
        return None, args, post
    return Contract('%s(%s, axis %d)' % (nm, '%d cubes in a list' % k if aslist else 'pair', axis), D + nm, setup, models=BLOCK, nparams=(4 if aslist else 6))
def c24b(): return [cube_contract(nm, a, 2, False) for nm in ('concatenate', 'separate') for a in range(3)]
def c24c(ks=(1, 2, 3)): return [cube_contract(nm, a, k, True) for nm in ('concatenate', 'separate') for a in range(3) for k in ks]
def c24_four(): return c24c((4,))
def cube_reject(nm, aslist):
    def setup(env):
        k = 2
        ds = [[env.nat('d%d%d' % (q, i)) for i in range(3)] for q in range(k)]
        axis = env.nat('axis')
        env.assume(Or(le(3, axis), *[And(Not(ieq(axis, i)), Not(ieq(ds[0][i], ds[1][i]))) for i in range(3)]))
        shp = [shape3(env, d) for d in ds]
        b1, b2, b3 = [arr(env, 'b%d' % i, env.nat('n%d' % i)) for i in range(3)]
        con = nm == 'concatenate'
        if aslist:
            vec = SeqV.items(shp, ('rec', 'EdgeLearning::DLMath::Shape3d'))
            args = [b1[0], b2[0], vec, axis] if con else [b1[0], vec, b2[0], axis]
        else: args = [b1[0], b2[0], shp[0], b3[0], shp[1], axis] if con else [b1[0], shp[0], b2[0], shp[1], b3[0], axis]
        return None, args, lambda env, o: [('rejected', o.kind == 'throw' and o.v[0] == 'runtime_error'), ('nothing written', all(env.it.read(b[0].lv) is b[1] for b in (b1, b2, b3)))]
    return Contract('%s(%s, incompatible shapes or axis)' % (nm, 'list' if aslist else 'pair'), D + nm, setup, models=BLOCK, nparams=(4 if aslist else 6))
def c24d(): return [cube_reject(nm, l) for nm in ('concatenate', 'separate') for l in (0, 1)]
def c24_all(): return c24c()[::-1] + c24() + c24b() + c24d()

# ---- cross correlation and pooling ----------------------------------------------------------------------------------
def shape2(env, h, w): return env.it.construct_value('EdgeLearning::DLMath::Shape2d', [h, w])
def slide_setup(env, pad):
    H, W, C = env.nat('H', 1), env.nat('W', 1), env.nat('C', 1)
    kh, kw = env.nat('kh', 1), env.nat('kw', 1); sh, sw = env.nat('sh', 1), env.nat('sw', 1)
    ph, pw = (env.nat('ph'), env.nat('pw')) if pad else (0, 0)
    env.assume(And(le(kh, add(H, mul(2, ph))), le(kw, add(W, mul(2, pw)))))
    qh, _ = udivmod(add(sub(H, kh), mul(2, ph)), sh); qw, _ = udivmod(add(sub(W, kw), mul(2, pw)), sw)
    oh, ow = add(qh, 1), add(qw, 1)
    return H, W, C, kh, kw, sh, sw, ph, pw, oh, ow
def conv_op_contract():
    def setup(env):
        H, W, C = env.nat('H', 1), env.nat('W', 1), env.nat('C', 1)
        kh, kw = env.nat('kh', 1), env.nat('kw', 1); nf = env.nat('nf', 1)
        oh, ow = env.nat('oh', 1), env.nat('ow', 1); r_, c_ = env.nat('r'), env.nat('c')
        env.assume(And(lt(r_, oh), lt(c_, ow)))
        row = env.int('row'); col = env.int('col')
        for v in (row, col): env.assume(And(lt(-2**61, v), lt(v, 2**61)))
        for t in (mul(mul(kh, kw), C), mul(W, C), mul(kw, C), mul(mul(mul(kh, kw), C), nf), mul(H, mul(W, C)), mul(oh, mul(ow, nf))): env.assume(And(le(1, t), lt(t, 2**60)))
        dst, dv, dt = arr(env, 'dst', mul(oh, mul(ow, nf))); src, sv, st = arr(env, 'src', mul(H, mul(W, C))); k, kv, kt = arr(env, 'k', mul(mul(mul(kh, kw), C), nf))
        coord = StructV('EdgeLearning::DLMath::Coord2d', {'row': r_, 'col': c_})
        args = [dst, shape2(env, oh, ow), coord, src, shape3(env, [H, W, C]), k, shape2(env, kh, kw), nf, row, col]
        def post(env, o):
            f = const('f', I); base = list(env.it.st.pc)
            env.it.st.pc = base + [And(le(0, f), lt(f, nf))]
            D_ = add(mul(r_, mul(ow, nf)), add(mul(c_, nf), f))
            got = env.it.read(dst.lv).get(add(dst.idx, D_))
            step_ = mul(kw, C); sstep = mul(W, C)
            def step(acc, q):
                a, b = udivmod(q, step_)
                y, x = add(row, a), add(col, b)
                out = Or(lt(x, 0), lt(y, 0), le(sstep, x), le(H, y))
                return ite(out, acc, fadd(acc, fmul(sv.get(add(src.idx, add(mul(y, sstep), x))), kv.get(add(k.idx, add(mul(q, nf), f))))))
            want = env.fold(ZERO, step, mul(mul(kh, kw), C))
            env.it.st.pc = base
            w = const('o', I); w0 = add(dst.idx, add(mul(r_, mul(ow, nf)), mul(c_, nf)))
            return [('one output cell: zero padded sum of products', Implies(And(le(0, f), lt(f, nf)), eq_goal(got, want))),
                    ('other cells untouched', Implies(Or(lt(w, w0), le(add(w0, nf), w)), eq_goal(env.it.read(dst.lv).get(w), dv.get(w))))]
        return None, args, post
    return Contract('_conv4d_op', D + '_conv4d_op', setup)
def pool_op_contract(nm):
    def setup(env):
        H, W, C = env.nat('H', 1), env.nat('W', 1), env.nat('C', 1)
        kh, kw = env.nat('kh', 1), env.nat('kw', 1)
        oh, ow = env.nat('oh', 1), env.nat('ow', 1); r_, c_ = env.nat('r'), env.nat('c')
        env.assume(And(lt(r_, oh), lt(c_, ow)))
        row, col0 = env.nat('row'), env.nat('col0'); col = mul(col0, C)
        env.assume(And(le(add(row, kh), H), le(add(col0, kw), W)))
        for t in (mul(kh, kw), mul(kw, C), mul(W, C), mul(ow, C), mul(H, mul(W, C)), mul(oh, mul(ow, C))): env.assume(And(le(1, t), lt(t, 2**60)))
        dst, dv, dt = arr(env, 'dst', mul(oh, mul(ow, C))); src, sv, st = arr(env, 'src', mul(H, mul(W, C)))
        coord = StructV('EdgeLearning::DLMath::Coord2d', {'row': r_, 'col': c_})
        args = [dst, shape2(env, oh, ow), coord, src, shape3(env, [H, W, C]), NULL, shape2(env, kh, kw), 1, row, col]
        def post(env, o):
            c = const('ch', I); base = list(env.it.st.pc)
            rng = And(le(0, c), lt(c, C))
            env.it.st.pc = base + [rng]
            got = env.it.read(dst.lv).get(add(dst.idx, add(mul(r_, mul(ow, C)), add(mul(c_, C), c))))
            def cell(q):
                a, b = udivmod(q, kw)
                return sv.get(add(src.idx, add(mul(add(row, a), mul(W, C)), add(add(col, mul(b, C)), c))))
            n = mul(kh, kw)
            if nm == '_avg_pool_op': want = fdiv(env.fold(ZERO, lambda acc, q: fadd(acc, cell(q)), n), i2f(n)); gs = [('window average', Implies(rng, eq_goal(got, want)))]
            else:
                want = env.fold(cell(0), lambda acc, q: ite(flt(acc, cell(add(q, 1))), cell(add(q, 1)), acc), sub(n, 1))
                gs = [('window maximum', Implies(rng, eq_goal(got, want)))]
            env.it.st.pc = base
            w = const('o', I); w0 = add(dst.idx, add(mul(r_, mul(ow, C)), mul(c_, C)))
            return gs + [('other cells untouched', Implies(Or(lt(w, w0), le(add(w0, C), w)), eq_goal(env.it.read(dst.lv).get(w), dv.get(w))))]
        return None, args, post
    return Contract(nm, D + nm, setup)
def slide_contract(nm, form):
    """every output cell (i,j) is produced by exactly one call of the window operation, at the right place of the source"""
    conv = nm == 'cross_correlation'
    opname = {'cross_correlation': '_conv4d_op', 'max_pool': '_max_pool_op', 'avg_pool': '_avg_pool_op'}[nm]
    g = z3.Function('window', I, I, I, R)
    info = {}
    def op(it, this, args, decl):
        a = [it.read(x) if isinstance(x, LV) else x for x in args]
        dst, ds, co, src, ss, k, ks, nf, row, col = a
        E = info
        def dim(s, i): return s.f['_shape'].get(i)
        per = E['per']
        it.safe('destination and source passed on', And(*[x if not isinstance(x, bool) else x for x in (dst.lv.same(E['dst'].lv), ieq(dst.idx, E['dst'].idx), src.lv.same(E['src'].lv), ieq(src.idx, E['src'].idx))]))
        if conv: it.safe('kernel passed on', And(isinstance(k, PtrV) and k.lv is not None and k.lv.same(E['k'].lv), ieq(k.idx, E['k'].idx), ieq(nf, E['nf'])))
        it.safe('output shape', And(ieq(dim(ds, 0), E['oh']), ieq(dim(ds, 1), E['ow'])))
        it.safe('source shape', And(*[ieq(dim(ss, i), E['ss'][i]) for i in range(3)]))
        it.safe('kernel shape', And(*[ieq(dim(ks, i), E['ks'][i]) for i in range(2)]))
        r_, c_ = co.f['row'], co.f['col']
        it.safe('cell inside the output', And(le(0, r_), lt(r_, E['oh']), le(0, c_), lt(c_, E['ow'])))
        s = it.read(dst.lv); w0 = add(dst.idx, add(mul(r_, mul(E['ow'], per)), mul(c_, per)))
        it.write(dst.lv, s.rng(w0, add(w0, per), lambda J: g(zi(row), zi(col), zi(sub(J, w0)))))
        return None
    def bad(it, this, args, decl): it.safe('the right window operation is used', False)
    def setup(env):
        H, W, C, kh, kw, sh, sw, ph, pw, oh, ow = slide_setup(env, conv)
        if form == '2d': C = 1
        nf = env.nat('nf', 1) if form == 'filters' else 1
        per = nf if conv else C
        for t in (mul(oh, mul(ow, per)), mul(ow, per), mul(ow, sw), mul(oh, sh), mul(mul(ow, sw), C), mul(pw, C)): env.assume(And(le(0, t), lt(t, 2**60)))
        for t in (H, W, kh, kw, ph, pw): env.assume(lt(t, 2**59))
        dst, dv, dt = arr(env, 'dst', mul(oh, mul(ow, per))); src, sv, st = arr(env, 'src', mul(H, mul(W, C))); k, kv, kt = arr(env, 'k', mul(mul(mul(kh, kw), C), nf))
        info.update(per=per, dst=dst, src=src, k=k, nf=nf, oh=oh, ow=ow, ss=[H, W, C], ks=[kh, kw])
        ks, s = shape2(env, kh, kw), shape2(env, sh, sw)
        if conv:
            p = shape2(env, ph, pw)
            if form == '2d': args = [dst, src, shape2(env, H, W), k, ks, s, p]
            elif form == '3d': args = [dst, src, shape3(env, [H, W, C]), k, ks, s, p]
            else: args = [dst, src, shape3(env, [H, W, C]), k, ks, nf, s, p]
        else: args = [dst, src, shape3(env, [H, W, C]), ks, s]
        def post(env, o):
            i, j, f = const('i', I), const('j', I), const('f', I); base = list(env.it.st.pc)
            rng = And(le(0, i), lt(i, oh), le(0, j), lt(j, ow), le(0, f), lt(f, per))
            env.it.st.pc = base + [rng]
            got = env.it.read(dst.lv).get(add(dst.idx, add(mul(i, mul(ow, per)), add(mul(j, per), f))))
            want = g(zi(sub(mul(i, sh), ph)), zi(mul(sub(mul(j, sw), pw), C)), zi(f))
            env.it.st.pc = base
            w = const('o', I)
            return [('each output cell from its own window', Implies(rng, eq_goal(got, want))),
                    ('outside untouched', Implies(Or(lt(w, dst.idx), le(add(dst.idx, mul(oh, mul(ow, per))), w)), eq_goal(env.it.read(dst.lv).get(w), dv.get(w)))), ret_is(env, o, dst)]
        return None, args, post
    np_, sig = {'2d': (7, 'Shape2d, const double *, Shape2d'), '3d': (7, 'Shape3d, const double *, Shape2d'), 'filters': (8, None), '': (5, None)}[form]
    models = {D + x: bad for x in ('_conv4d_op', '_max_pool_op', '_avg_pool_op')}; models[D + opname] = op
    return Contract('%s(%s)' % (nm, form), D + nm, setup, models=models, nparams=np_, sig=sig)
def c25(): return [conv_op_contract()] + [slide_contract('cross_correlation', f) for f in ('2d', '3d', 'filters')]
def c26(): return [pool_op_contract('_max_pool_op'), pool_op_contract('_avg_pool_op'), slide_contract('max_pool', ''), slide_contract('avg_pool', '')]

# ---- thread pool variants -----------------------------------------------------------------------------------------
TM = 'BetterThreads::TaskManager::'
def task_models(owners):
    """enqueue(task, i) by contract: the task may run at any time until get().  Two obligations make every schedule equal to
    the sequential one: run in isolation, with everything the task does not own indeterminate, the body reads only what it owns
    (or constants) and writes only what it owns.  owners() -> the kinds of task, each [(array pointer, length, does task i own element j)]"""
    def enqueue(it, this, args, decl):
        f = it.read(args[0]) if isinstance(args[0], LV) else args[0]
        i = it.read(args[1]) if isinstance(args[1], LV) else args[1]
        def isolate(spec):
            """run the task with everything it does not own indeterminate"""
            before = []
            for p, n, own in spec:
                s = it.read(p.lv)
                def g(J, s=s, p=p, own=own, n=n):
                    inside = And(le(p.idx, J), lt(J, add(p.idx, n)))
                    mine = And(inside, own(sub(J, p.idx), i))
                    v = s.get(J)
                    return v if isinstance(v, Uninit) else maybe(mine, v)
                iso = SeqV.fn(s.n, g, s.et)
                it.write(p.lv, iso); before.append((p, n, own, iso))
            if isinstance(args[1], LV): it.write(args[1], UNINIT)      # the enqueuing loop has moved on
            it.call_func(f, [it.alloc(i)])
            for p, n, own, iso in before:
                now = it.read(p.lv)
                if now is iso: continue
                J = const('shared', I); pc0 = it.st.pc
                it.st.pc = pc0 + [zb(And(le(p.idx, J), lt(J, add(p.idx, n)), Not(own(sub(J, p.idx), i))))]
                try:
                    v = now.get(J)
                    it.safe('a task writes only the elements it owns', True if isinstance(v, Uninit) else Not(v.c) if isinstance(v, MaybeV) else False)   # still indeterminate
                finally: it.st.pc = pc0
        if not it.dry and not it.guess:
            cands = owners(); sink = it.sink; best = None
            try:
                for spec in cands:
                    it.sink = []
                    it.explore(lambda: isolate(spec))
                    if best is None: best = it.sink
                    if all(prove(pc, g)[0] == 'proved' for _, _, pc, g in it.sink): best = it.sink; break
            finally: it.sink = sink
            it.sink.extend(best)
        it.call_func(f, [it.alloc(i)])       # effect: that of some sequential order
        return 0
    return {'ext:instance': lambda it, this, args, decl: it.alloc(StructV('BetterThreads::TaskManager', {})), 'ext:set_maximum_concurrency': lambda *a: None, 'ext:set_concurrency': lambda *a: None,
            'ext:enqueue': enqueue, 'ext:get': lambda *a: None, 'ext:wait': lambda *a: None}
def thread_contract(nm):
    base = dense_contract(nm) if nm == 'dense_thread_opt' else dense1_contract(nm)
    state = {}
    def setup(env):
        this, args, post = base.setup(env)
        if nm == 'dense_thread_opt':
            dst, src, w, b, nin, nout = args
            state['o'] = lambda: [[(dst, nout, lambda j, i: ieq(j, i))]]
        else:
            ig, wg, bg, g, x, w, nin, nout = args
            no = lambda j, i: False
            row = lambda j, i: And(le(mul(i, nin), j), lt(j, add(mul(i, nin), nin)))
            one = lambda j, i: ieq(j, i)
            # two kinds of task: one owns a weight row and its bias, the other one input gradient
            state['o'] = lambda: [[(ig, nin, no), (wg, mul(nout, nin), row), (bg, nout, one)], [(ig, nin, one), (wg, mul(nout, nin), no), (bg, nout, no)]]
        return this, args, post
    return Contract(nm, D + nm, setup, models=task_models(lambda: state['o']()))
def c23(): return [thread_contract('dense_thread_opt'), thread_contract('dense_1_thread_opt')]
