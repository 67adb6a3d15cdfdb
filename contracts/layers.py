"""Contracts for the layers, losses and optimizers of dnn/ (C29-C36)."""
from contract import *
from dlmath import exp, log, tanh, sigmoid, fmax, shape3, shape2, ONE, ZERO, EPSM, DBL_MIN, UNARY
E_ = 'EdgeLearning::'
L = E_ + 'Layer'
U64 = ('int', 64, False)
def rng(x, lo, hi): return And(le(lo, x), lt(x, hi))
def bad(o): return [('no exception', False)]
def ok(o): return o.kind in ('normal', 'return')
def thrown(o): return [('rejected with runtime_error', o.kind == 'throw' and o.v[0] == 'runtime_error')]
def V(name, fn, setup, **k): return Contract(name, E_ + fn, setup, **k)
def val(env, x): return env.it.read(env.it.resolve(x)) if isinstance(x, LV) else x
# ------------------------------------------------------------------ objects
def params(env, v): return StructV(E_ + 'SharedParams', {'_p': PtrV(env.lv(v))})
def lshape(env, s): return StructV(E_ + 'LayerShape', {'_shape_vec': SeqV.items(s if isinstance(s, list) else [s], ('rec', E_ + 'DLMath::Shape3d'))})
def fields(env, ins, outs, nin=None, nout=None):
    return PtrV(env.lv(StructV(L + '::Fields', {'_name': env.string('name'), '_input_shape': lshape(env, ins), '_input_size': nin, '_output_shape': lshape(env, outs), '_output_size': nout})))
class Lay:
    """a layer object: shapes, activations and gradients of the right length, arbitrary contents"""
    def __init__(self, env, rec, ins, outs, nin, nout, loss=False, nm='', **f):
        self.env = env; self.nin, self.nout = nin, nout
        self.x = env.seq(nm + 'last input', nin); self.xl = env.lv(self.x)
        d = dict(_shared_fields=fields(env, ins, outs, nin, nout), _last_input=PtrV(self.xl, 0))
        if not loss:
            self.out, self.ig = env.seq(nm + 'output', nout), env.seq(nm + 'input gradient', nin)
            d.update(_output_activations=self.out, _input_gradients=self.ig)
        d.update(f); self.f0 = d
        self.lv = env.lv(StructV(E_ + rec, d))
    def now(self, f): return self.env.it.read(self.lv).f[f]
    def frozen(self, *but):
        """every other member keeps its value"""
        r = []
        for k, v in self.f0.items():
            if k in but: continue
            r.append(('member %s untouched' % k, same_value(self.env, self.now(k), v)))
        return r
def same_value(env, a, b):
    if a is b: return True
    if isinstance(a, PtrV) and isinstance(b, PtrV): return a.lv is not None and b.lv is not None and a.lv.same(b.lv) and ieq(a.idx, b.idx) if (a.lv is not None and b.lv is not None) else a.lv is b.lv
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        k = const('fk', I); return And(ieq(a.n, b.n), Implies(rng(k, 0, b.n), eq_goal(a.get(k), b.get(k))))
    if isinstance(a, StructV) and isinstance(b, StructV): return And(*[same_value(env, a.f[k], b.f[k]) for k in b.f])
    return veq(a, b)
def seq_is(env, got, n, spec, w):
    j = const('j', I); inr = rng(j, 0, n)
    old = env.it.st.pc; env.it.st.pc = list(old) + [zb(inr)]
    try: g, s = got.get(j), spec(j)
    finally: env.it.st.pc = old
    return [(w + ' length', ieq(got.n, n)), (w + ' values', Implies(inr, False if isinstance(g, Uninit) else eq_goal(g, s)))]
def returns(env, lay, o, f):
    """the reference returned designates member f of the layer"""
    r = o.v
    if not isinstance(r, LV): return [('returns ' + f, False)]
    r = env.it.resolve(r)
    return [('returns ' + f, r.same(lay.lv.f(f)))]
# ------------------------------------------------------------------ C29 optimizers
class Par:
    """an abstract layer seen through its virtual interface: n parameters and n gradients"""
    def __init__(self, env, n, nm):
        self.env, self.n = env, n; self.p, self.g = env.seq(nm + 'param', n), env.seq(nm + 'gradient', n); self.pl, self.gl = env.lv(self.p), env.lv(self.g)
        self.lv = env.lv(StructV(L, {}))
def par_models(*ls):
    def who(it, this):
        this = it.resolve(this)
        for l in ls:
            if l.lv.same(this): return l
        raise Unsupported('unknown layer')
    def at(which):
        def f(it, this, a, d):
            l = who(it, this); i = a[0]; i = it.read(it.resolve(i)) if isinstance(i, LV) else i
            it.safe('parameter index below param_count', rng(i, 0, l.n))
            return getattr(l, which).i(i)
        return f
    return {L + '::param': at('pl'), L + '::gradient': at('gl'), L + '::param_count': lambda it, this, a, d: who(it, this).n}
def gd_spec(eta, p, g): return fsub(p, fmul(eta, g))
def c_gd(fn, alias):
    def su(env):
        n, m = env.nat('param_count'), env.nat('gradient_count'); eta = env.real('eta')
        a = Par(env, n, 'to.'); b = a if alias else Par(env, n if fn == 'check' else m, 'from.')
        if not alias and fn == 'train': env.assume(le(n, m))
        env.it.models = dict(env.it.models, **par_models(*([a] if alias else [a, b])))
        opt = env.lv(StructV(E_ + 'GradientDescentOptimizer', {'_eta': eta})); ov = env.it.read(opt)
        def post(env, o):
            if not ok(o): return bad(o)
            r = seq_is(env, env.it.read(a.pl), n, lambda j: gd_spec(eta, a.p.get(j), b.g.get(j)), 'parameters')
            r += seq_is(env, env.it.read(b.gl), b.n, lambda j: ite(lt(j, n), ZERO, b.g.get(j)), 'gradients')
            if not alias: r += seq_is(env, env.it.read(a.gl), n, a.g.get, 'gradients of the other layer') + seq_is(env, env.it.read(b.pl), b.n, b.p.get, 'parameters of the other layer')
            return r + [('learning rate kept', veq(env.it.read(opt).f['_eta'], eta))]
        return opt, ([a.lv] if fn == 'one' else [b.lv, a.lv]), post
    return su
def c_gd_reject(env):
    n, m = env.nat('n'), env.nat('m'); env.assume(Not(ieq(n, m))); a, b = Par(env, n, 'a.'), Par(env, m, 'b.')
    env.it.models = dict(env.it.models, **par_models(a, b))
    opt = env.lv(StructV(E_ + 'GradientDescentOptimizer', {'_eta': env.real('eta')}))
    return opt, [a.lv, b.lv], lambda env, o: thrown(o) + [('nothing changed', And(same_value(env, env.it.read(a.pl), a.p), same_value(env, env.it.read(a.gl), a.g), same_value(env, env.it.read(b.pl), b.p), same_value(env, env.it.read(b.gl), b.g)))]
def c_adam(alias):
    def su(env):
        n = env.nat('param_count'); a = Par(env, n, 'to.'); b = a if alias else Par(env, n, 'from.')
        env.it.models = dict(env.it.models, **par_models(*([a] if alias else [a, b])))
        K = {k: env.real(k) for k in ('_eta', '_beta_1', '_beta_2', '_epsilon', '_m', '_v')}; K['_t'] = t0 = env.nat('t', 1)
        opt = env.lv(StructV(E_ + 'AdamOptimizer', dict(K)))
        def post(env, o):
            if not ok(o): return bad(o)
            r = seq_is(env, env.it.read(b.gl), n, lambda j: ZERO, 'gradients')
            q = env.it.read(opt).f
            b1, b2, g = K['_beta_1'], K['_beta_2'], b.g.get
            M = lambda k: env.fold(K['_m'], lambda acc, i: fadd(fmul(b1, acc), fmul(fsub(ONE, b1), g(i))), k)
            Q = lambda k: env.fold(K['_v'], lambda acc, i: fadd(fmul(b2, acc), fmul(fsub(ONE, b2), fmul(g(i), g(i)))), k)
            def moved(i):
                mh = fdiv(M(add(i, 1)), fsub(ONE, ufun('pow', b1, i2f(add(t0, i))))); vh = fdiv(Q(add(i, 1)), fsub(ONE, ufun('pow', b2, i2f(add(t0, i)))))
                return fsub(a.p.get(i), fmul(K['_eta'], fdiv(mh, fadd(ufun('sqrt', vh), K['_epsilon']))))
            r += seq_is(env, env.it.read(a.pl), n, moved, 'parameters') + [('one step per parameter', ieq(q['_t'], add(t0, n)))]
            r += [('first moment', veq(q['_m'], M(n))), ('second moment', veq(q['_v'], Q(n)))]
            r += [('%s kept' % k, veq(q[k], K[k])) for k in ('_eta', '_beta_1', '_beta_2', '_epsilon')]
            if not alias: r += seq_is(env, env.it.read(a.gl), n, a.g.get, 'gradients of the other layer') + seq_is(env, env.it.read(b.pl), n, b.p.get, 'parameters of the other layer')
            return r
        return opt, [b.lv, a.lv], post
    return su
def c_adam_reset(env):
    K = {k: env.real(k) for k in ('_eta', '_beta_1', '_beta_2', '_epsilon', '_m', '_v')}; K['_t'] = env.nat('t', 1); opt = env.lv(StructV(E_ + 'AdamOptimizer', dict(K)))
    return opt, [], lambda env, o: [(k, veq(env.it.read(opt).f[k], {'_m': ZERO, '_v': ZERO, '_t': 1}.get(k, K[k]))) for k in K]
def c29():
    cs = [V('GD train(layer)', 'Optimizer::train', c_gd('one', True), nparams=1), V('GD train(from, to)', 'Optimizer::train', c_gd('train', False), nparams=2), V('GD train(layer, layer)', 'Optimizer::train', c_gd('train', True), nparams=2),
          V('GD train_check', 'Optimizer::train_check', c_gd('check', False)), V('GD train_check(other count)', 'Optimizer::train_check', c_gd_reject),
          V('Adam train(layer, layer)', 'AdamOptimizer::_train', c_adam(True)), V('Adam train(from, to)', 'AdamOptimizer::_train', c_adam(False)), V('Adam reset', 'AdamOptimizer::reset', c_adam_reset)]
    return cs
# ------------------------------------------------------------------ C30 loss layers
def mse(env, y, h, n): return fdiv(env.fold(ZERO, lambda acc, k: fadd(acc, fmul(fsub(y(k), h(k)), fsub(y(k), h(k)))), n), i2f(n))
def cce(env, y, h, n): return env.fold(ZERO, lambda acc, k: fadd(acc, fmul(fneg(y(k)), log(fmax(h(k), EPSM)))), n)
class LossL(Lay):
    def __init__(self, env, rec, n, target=True, nt=None):
        self.n = n; self.t = env.seq('target', (n if nt is None else nt) if target else 0); self.g = env.seq('gradient', n)
        self.loss, self.cum, self.inv = env.real('loss'), env.real('cumulative'), env.real('inverse batch size'); self.c, self.i = env.nat('correct', 0, 2 ** 60), env.nat('incorrect', 0, 2 ** 60)
        extra = {'MeanSquaredLossLayer': {'_loss_tolerance': env.real('tolerance')}, 'CategoricalCrossEntropyLossLayer': {'_active': env.nat('active')}, 'LossLayer': {}}[rec]
        self.tol = extra.get('_loss_tolerance')
        d = shape3(env, [n, 1, 1])
        Lay.__init__(self, env, rec, d, shape3(env, [0, 1, 1]), n, 0, loss=True, _loss=self.loss, _target=self.t, _gradients=self.g, _inv_batch_size=self.inv, _cumulative_loss=self.cum, _correct=self.c, _incorrect=self.i, **extra)
MSE, CCE = 'MeanSquaredLossLayer', 'CategoricalCrossEntropyLossLayer'
def same_lv(a, b): return isinstance(a, LV) and isinstance(b, LV) and a.same(b)
def c_loss_fwd(rec, target):
    def su(env):
        n = env.nat('n', 1); l = LossL(env, rec, n, target); h = env.seq('prediction', n); hl = env.lv(h)
        w = const('hot', I)
        if rec == CCE and target: env.assume(And(rng(w, 0, n), Not(ieq_f(l.t.get(w), ZERO))))
        def post(env, o):
            if not target: return thrown(o) + l.frozen()
            if not ok(o): return bad(o)
            s = (mse if rec == MSE else cce)(env, l.t.get, h.get, n); q = env.it.read(l.lv).f
            r = [('loss', veq(q['_loss'], s)), ('cumulative loss', veq(q['_cumulative_loss'], fadd(l.cum, s)))]
            if rec == MSE:
                good = And(Not(flt(s, fneg(l.tol))), Not(flt(l.tol, s)))
                r += [('one more correct', veq(q['_correct'], ite(good, add(l.c, 1), l.c))), ('one more incorrect', veq(q['_incorrect'], ite(good, l.i, add(l.i, 1))))]
            else:
                # the prediction is correct exactly when its first maximum is at the first non-zero target
                a, k = q['_active'], const('k', I)
                r += [('active target', And(rng(a, 0, n), Not(ieq_f(l.t.get(a), ZERO)))), ('first active target', Implies(And(rng(k, 0, n), lt(k, a)), ieq_f(l.t.get(k), ZERO)))]
                up = ieq(q['_correct'], add(l.c, 1))
                r += [('exactly one more', ieq(add(q['_correct'], q['_incorrect']), add(add(l.c, l.i), 1))), ('no count drops', And(le(l.c, q['_correct']), le(l.i, q['_incorrect'])))]
                r += [('correct: the active class is a maximum', Implies(And(up, rng(k, 0, n)), Not(flt(h.get(a), h.get(k))))), ('correct: and the first', Implies(And(up, rng(k, 0, n), lt(k, a)), flt(h.get(k), h.get(a))))]
            r += [('returns its input', same_lv(env.it.resolve(o.v), hl) if isinstance(o.v, LV) else False), ('prediction untouched', same_value(env, env.it.read(hl), h))]
            return r + l.frozen('_loss', '_cumulative_loss', '_correct', '_incorrect', '_active')
        return l.lv, [hl], post
    return su
def c_cce_wrong(env):
    """when another class is the strict maximum, or an earlier one an equal maximum, the prediction is incorrect"""
    n = env.nat('n', 1); l = LossL(env, CCE, n); h = env.seq('prediction', n); hl = env.lv(h)
    w, m = const('hot', I), const('m', I)
    z = lambda k: l.t.get(k)
    T.define(z3.Function('before hot', I, I), lambda app: [])
    env.assume(And(rng(w, 0, n), Not(ieq_f(z(w), ZERO))))
    env.assume(rng(m, 0, n))
    def post(env, o):
        if not ok(o): return bad(o)
        q = env.it.read(l.lv).f; a = q['_active']
        beats = Or(flt(h.get(a), h.get(m)), And(lt(m, a), Not(flt(h.get(m), h.get(a)))))
        return [('incorrect', Implies(beats, And(ieq(q['_incorrect'], add(l.i, 1)), ieq(q['_correct'], l.c))))]
    return l.lv, [hl], post
def c_loss_bwd(rec):
    def su(env):
        n = env.nat('n'); l = LossL(env, rec, n); g = env.lv(env.seq('unused', env.nat('m')))
        f = (lambda y, h, nn: fmul(fmul(Fraction(-2), nn), fsub(y, h))) if rec == MSE else (lambda y, h, nn: fmul(nn, fdiv(fneg(y), fmax(h, DBL_MIN))))
        def post(env, o):
            if not ok(o): return bad(o)
            return seq_is(env, l.now('_gradients'), n, lambda j: f(l.t.get(j), l.x.get(j), l.inv), 'gradient') + returns(env, l, o, '_gradients') + l.frozen('_gradients')
        return l.lv, [g], post
    return su
def c_scores(what):
    def su(env):
        n = env.nat('n'); l = LossL(env, 'LossLayer', n); env.assume(lt(0, add(l.c, l.i)))
        def post(env, o):
            if not ok(o): return bad(o)
            if what == 'reset_score': return [('cumulative loss', veq(l.now('_cumulative_loss'), ZERO)), ('correct', ieq(l.now('_correct'), 0)), ('incorrect', ieq(l.now('_incorrect'), 0))] + l.frozen('_cumulative_loss', '_correct', '_incorrect')
            return [('value', veq(o.v, fdiv(i2f(l.c) if what == 'accuracy' else l.cum, i2f(add(l.c, l.i)))))] + l.frozen()
        return l.lv, [], post
    return su
def c_set_target(env):
    n = env.nat('n'); l = LossL(env, 'LossLayer', n); m = env.nat('m'); t = env.seq('new target', m); tl = env.lv(t)
    return l.lv, [tl], lambda env, o: seq_is(env, l.now('_target'), m, t.get, 'target') + l.frozen('_target') if ok(o) else bad(o)
def ieq_f(a, b): return veq(a, b)
def c30():
    cs = [V('%s forward%s' % (r[:3], '' if t else ' (no target)'), r + '::forward', c_loss_fwd(r, t), opts={'trip_forall': 1}) for r in (MSE, CCE) for t in (1, 0)] + [V('Cat forward: wrong class', CCE + '::forward', c_cce_wrong, opts={'trip_forall': 1})]
    cs += [V('%s backward' % r[:3], r + '::backward', c_loss_bwd(r)) for r in (MSE, CCE)] + [V('Loss ' + w, 'LossLayer::' + w, c_scores(w)) for w in ('accuracy', 'avg_loss', 'reset_score')]
    return cs + [V('Loss set_target', 'LossLayer::set_target', c_set_target)]
# ------------------------------------------------------------------ C31 parameters, C32 forward / backward
class DenseL(Lay):
    def __init__(self, env, nin=None, nout=None):
        nin = env.nat('nin', 0, 2 ** 28) if nin is None else nin; nout = env.nat('nout', 0, 2 ** 28) if nout is None else nout
        self.w, self.b = env.seq('weight', mul(nout, nin)), env.seq('bias', nout); self.wg, self.bg = env.seq('weight gradient', mul(nout, nin)), env.seq('bias gradient', nout)
        env.assume(le(0, mul(nout, nin)))
        self.nw, self.nb = mul(nout, nin), nout
        Lay.__init__(self, env, 'DenseLayer', shape3(env, [nin, 1, 1]), shape3(env, [nout, 1, 1]), nin, nout, _weights=params(env, self.w), _biases=params(env, self.b), _weight_gradients=self.wg, _bias_gradients=self.bg)
class ConvL(Lay):
    def __init__(self, env):
        h, w, c, kh, kw, nf, oh, ow = self.dims = [env.nat(x, 0, 2 ** 20) for x in ('h', 'w', 'c', 'kh', 'kw', 'nf', 'oh', 'ow')]
        self.nw, self.nb = mul(mul(mul(kh, kw), c), nf), nf; env.assume(le(0, self.nw))
        self.w, self.b = env.seq('weight', self.nw), env.seq('bias', nf); self.wg, self.bg = env.seq('weight gradient', self.nw), env.seq('bias gradient', nf)
        nin, nout = env.nat('nin'), env.nat('nout')
        Lay.__init__(self, env, 'ConvolutionalLayer', shape3(env, [h, w, c]), shape3(env, [oh, ow, nf]), nin, nout, _weights=params(env, self.w), _biases=params(env, self.b), _weight_gradients=self.wg, _bias_gradients=self.bg, _kernel_shape=shape2(env, kh, kw), _n_filters=nf, _stride=shape2(env, env.nat('sh'), env.nat('sw')), _padding=shape2(env, env.nat('ph'), env.nat('pw')))
PL = {'Dense': ('DenseLayer', DenseL), 'Conv': ('ConvolutionalLayer', ConvL)}
def c_param_count(k):
    def su(env):
        l = PL[k][1](env)
        return l.lv, [], lambda env, o: [('weights and biases', ieq(o.v, add(l.nw, l.nb)))] + l.frozen() if ok(o) else bad(o)
    return su
def c_param(k, grad, inside):
    def su(env):
        l = PL[k][1](env); i = env.nat('index'); tot = add(l.nw, l.nb)
        env.assume(lt(i, tot) if inside else le(tot, i))
        a, b = (l.lv.f('_weight_gradients'), l.lv.f('_bias_gradients')) if grad else (l.f0['_weights'].f['_p'].lv, l.f0['_biases'].f['_p'].lv)
        def post(env, o):
            if not inside: return thrown(o) + l.frozen()
            if not ok(o): return bad(o)
            r = env.it.resolve(o.v); w = lt(i, l.nw)
            at = lambda base, ix: isinstance(r, LV) and len(r.path) == len(base.path) + 1 and r.path[-1][0] == 'i' and LV(r.loc, r.path[:-1]).same(base) and ieq(r.path[-1][1], ix)
            return [('a weight below the weight count', Implies(w, at(a, i))), ('a bias from there on', Implies(Not(w), at(b, sub(i, l.nw))))] + l.frozen()
        return l.lv, [i], post
    return su
def c31():
    cs = []
    for k in PL:
        cs += [V('%s param_count' % k, PL[k][0] + '::param_count', c_param_count(k))]
        for g in (0, 1):
            for ins in (1, 0): cs.append(V('%s %s(%s)' % (k, ('param', 'gradient')[g], 'in range' if ins else 'out of range'), PL[k][0] + '::' + ('param', 'gradient')[g], c_param(k, g, ins)))
    return cs
ACT = {   # forward value, derivative as a function of the output (what backward multiplies the incoming gradient with)
    'Relu': ('relu', lambda y, al: ite(flt(ZERO, y), ONE, ZERO)), 'Elu': ('elu', lambda y, al: ite(flt(ZERO, y), ONE, fadd(y, al))),
    'Tanh': ('tanh', lambda y, al: fsub(ONE, fmul(y, y))), 'Sigmoid': ('sigmoid', lambda y, al: fmul(y, fsub(ONE, y)))}
def act(env, nm, n):
    al = env.real('alpha'); return Lay(env, nm + 'Layer', shape3(env, [n, 1, 1]), shape3(env, [n, 1, 1]), n, n, **({'_alpha': al} if nm == 'Elu' else {})), al
def c_act(nm, how):
    def su(env):
        n = env.nat('n'); l, al = act(env, nm, n); x = env.seq('input', n); xl = env.lv(x)
        def post(env, o):
            if not ok(o): return bad(o)
            if how == 'forward':
                f = (lambda v: v) if nm == 'Linear' else (lambda v: UNARY[ACT[nm][0]][0](v, al))
                r = seq_is(env, l.now('_output_activations'), n, lambda j: f(x.get(j)), 'output') + returns(env, l, o, '_output_activations') + l.frozen('_output_activations')
            elif how == 'training_forward':
                f = (lambda v: v) if nm == 'Linear' else (lambda v: UNARY[ACT[nm][0]][0](v, al))
                r = seq_is(env, l.now('_output_activations'), n, lambda j: f(x.get(j)), 'output') + returns(env, l, o, '_output_activations') + l.frozen('_output_activations', '_last_input')
                p = l.now('_last_input'); r += [('remembers its input', isinstance(p, PtrV) and p.lv is not None and p.lv.same(xl) and ieq(p.idx, 0))]
            else:
                f = (lambda y, g: g) if nm == 'Linear' else (lambda y, g: fmul(ACT[nm][1](y, al), g))
                r = seq_is(env, l.now('_input_gradients'), n, lambda j: f(l.out.get(j), x.get(j)), 'input gradient') + returns(env, l, o, '_input_gradients') + l.frozen('_input_gradients')
            return r + [('argument untouched', same_value(env, env.it.read(xl), x))]
        return l.lv, [xl], post
    return su
def c_softmax(how):
    def su(env):
        n = env.nat('n', 1 if how == 'forward' else 0); l, al = act(env, 'Softmax', n); x = env.seq('input', n); xl = env.lv(x)
        def post(env, o):
            if not ok(o): return bad(o)
            if how == 'forward':
                got = l.now('_output_activations')
                return [('length', ieq(got.n, n))] + returns(env, l, o, '_output_activations') + l.frozen('_output_activations') + [('argument untouched', same_value(env, env.it.read(xl), x))]
            y = l.out.get
            spec = lambda i: env.fold(ZERO, lambda acc, k: fadd(acc, fmul(fmul(y(i), fsub(ite(ieq(i, k), ONE, ZERO), y(k))), x.get(k))), n)
            return seq_is(env, l.now('_input_gradients'), n, spec, 'input gradient') + returns(env, l, o, '_input_gradients') + l.frozen('_input_gradients')
        return l.lv, [xl], post
    return su
def c_dense(how):
    def su(env):
        l = DenseL(env); nin, nout = l.nin, l.nout; x = env.seq('input', nout if how == 'backward' else nin); xl = env.lv(x)
        def post(env, o):
            if not ok(o): return bad(o)
            W = lambda i, j: l.w.get(add(mul(i, nin), j))
            if how != 'backward':
                r = seq_is(env, l.now('_output_activations'), nout, lambda i: env.fold(l.b.get(i), lambda acc, k: fadd(acc, fmul(W(i, k), x.get(k))), nin), 'output') + returns(env, l, o, '_output_activations')
                return r + l.frozen('_output_activations', '_last_input') + [('input untouched', same_value(env, env.it.read(xl), x))]
            r = seq_is(env, l.now('_input_gradients'), nin, lambda j: env.fold(ZERO, lambda acc, k: fadd(acc, fmul(x.get(k), W(k, j))), nout), 'input gradient')
            r += seq_is(env, l.now('_bias_gradients'), nout, lambda i: fadd(l.bg.get(i), x.get(i)), 'bias gradient')
            i, j = const('wi', I), const('wj', I); J = add(mul(i, nin), j); old = env.it.st.pc
            env.it.st.pc = list(old) + [zb(rng(i, 0, nout)), zb(rng(j, 0, nin))]
            got = l.now('_weight_gradients').get(J); env.it.st.pc = old
            r += [('weight gradient', Implies(And(rng(i, 0, nout), rng(j, 0, nin)), veq(got, fadd(l.wg.get(J), fmul(x.get(i), l.x.get(j))))))]
            return r + [('weight gradient count', ieq(l.now('_weight_gradients').n, mul(nout, nin)))] + returns(env, l, o, '_input_gradients') + l.frozen('_input_gradients', '_bias_gradients', '_weight_gradients')
        return l.lv, [xl], post
    return su
def c32():
    cs = [V('%s %s' % (a, h), (a + 'Layer' if h != 'training_forward' else 'Layer') + '::' + h, c_act(a, h)) for a in list(ACT) + ['Linear'] for h in ('forward', 'training_forward', 'backward')]
    cs += [V('Softmax ' + h, 'SoftmaxLayer::' + h, c_softmax(h)) for h in ('forward', 'backward')]
    return cs + [V('Dense ' + h, ('Layer' if h == 'training_forward' else 'DenseLayer') + '::' + h, c_dense(h)) for h in ('forward', 'training_forward', 'backward')]
# ------------------------------------------------------------------ pooling and convolution, backward
import dlmath as DM
def grab(env, lv, f): return env.it.read(lv).f[f]
def slide(env, E):
    """DLMath::kernel_slide by its contract (C25/C26: the operation runs exactly once for every output cell): the operation handed
    over is run once, for an arbitrary cell and arbitrary contents of what earlier cells wrote"""
    def model(it, this, args, decl):
        a = [it.read(x) if isinstance(x, LV) else x for x in args]
        f, dst, src, ss, k, ks, nf, s, p = a
        dim = lambda v, i: v.f['_shape'].get(i)
        it.safe('the source of the windows', isinstance(src, PtrV) and (src.lv is None if E['src'] is None else And(src.lv is not None and src.lv.same(E['src']), ieq(src.idx, 0))))
        it.safe('the kernel', isinstance(k, PtrV) and (k.lv is None if E['k'] is None else And(k.lv is not None and k.lv.same(E['k']), ieq(k.idx, 0))))
        for w, v, d in (('source shape', ss, E['ss']), ('kernel shape', ks, E['ks']), ('stride', s, E['s']), ('padding', p, E['p'])):
            it.safe('the ' + w, And(*[ieq(dim(v, i), d[i]) for i in range(len(d))]))
        it.safe('the number of filters', ieq(nf, E['nf']))
        for nm, z in E['clear']:
            x = grab(env, E['lv'], nm); j = const('z', I)
            it.oblig('%s cleared before the first window' % nm, And(ieq(x.n, z), Implies(rng(j, 0, z), eq_goal(x.get(j), ZERO))), 'post')
        it.safe('one pass over the windows', not E.get('done')) ; E['done'] = True
        for nm, v in E['keep']:
            it.oblig('%s not reset' % nm, same_value(env, grab(env, E['lv'], nm), v), 'post')
        for nm, z in E['write']: it.write(E['lv'].f(nm), env.seq('before ' + nm, z))
        G = {nm: grab(env, E['lv'], nm) for nm, z in E['write']}
        r_, c_ = const('r', I), const('c', I); env.assume(And(rng(r_, 0, E['oh']), rng(c_, 0, E['ow'])))
        row, col = sub(mul(r_, E['s'][0]), E['p'][0]), mul(sub(mul(c_, E['s'][1]), E['p'][1]), E['ss'][2])
        if E.get('inside'): row, col = E['inside'](r_, c_, row, col)
        coord = StructV(E_ + 'DLMath::Coord2d', {'row': r_, 'col': c_})
        it.call_func(f, [dst, DM.shape2(env, E['oh'], E['ow']), coord, src, ss, k, ks, nf, row, col])
        for t, g in E['effect'](G, r_, c_, row, col): it.oblig('window: ' + t, g, 'post')
        for nm, z in E['write']: it.write(E['lv'].f(nm), env.seq('after ' + nm, z)); E['fin'][nm] = grab(env, E['lv'], nm)
        return dst
    return model
def pool_layer(env, rec):
    H, W, C, kh, kw, sh, sw, ph, pw, oh, ow = DM.slide_setup(env, False)
    for t in (mul(kh, kw), mul(kw, C), mul(W, C), mul(ow, C), mul(H, mul(W, C)), mul(oh, mul(ow, C)), mul(oh, sh), mul(ow, sw)): env.assume(And(le(1, t), lt(t, 2**60)))
    l = Lay(env, rec, DM.shape3(env, [H, W, C]), DM.shape3(env, [oh, ow, C]), mul(H, mul(W, C)), mul(oh, mul(ow, C)), _kernel_shape=DM.shape2(env, kh, kw), _stride=DM.shape2(env, sh, sw))
    return l, (H, W, C, kh, kw, sh, sw, oh, ow)
def c_pool_backward(nm):
    def su(env):
        l, (H, W, C, kh, kw, sh, sw, oh, ow) = pool_layer(env, nm + 'PoolingLayer')
        g = env.seq('gradient', l.nout); gl = env.lv(g); wc = mul(W, C)
        def inside(r_, c_, row, col):
            env.it.safe('window rows inside the source', le(add(row, kh), H)); env.assume(le(add(row, kh), H))
            c0 = mul(c_, sw); env.it.safe('window columns inside the source', le(add(c0, kw), W))
            y, x = env.nat('row'), env.nat('col'); env.assume(And(veq(y, row), veq(x, c0), le(add(y, kh), H), le(add(x, kw), W)))
            if nm == 'Max':      # loop invariants: where the largest element so far lies
                top, right = mul(sub(add(y, kh), 1), wc), sub(mul(add(x, kw), C), 1)
                env.it.fold_bounds = [lambda v: And(le(0, v), le(v, top)), lambda v: And(le(0, v), le(v, right))]
            return y, mul(x, C)
        def effect(G, r_, c_, row, col):
            it = env.it; ch, q = const('ch', I), const('q', I); old = it.st.pc
            def cell(q, ch):
                a, b = udivmod(q, kw); return add(mul(add(row, a), wc), add(add(col, mul(b, C)), ch))
            gr = lambda ch: g.get(add(mul(r_, mul(ow, C)), add(mul(c_, C), ch)))
            now = grab(env, l.lv, '_input_gradients'); old_ = G['_input_gradients']
            try:
                J = const('J', I); old.append(zb(rng(J, 0, l.nin))); it.st.pc = list(old); n = mul(kh, kw)
                if nm == 'Average':
                    def share(acc, ch): return env.fold(acc, lambda a, q: ite(ieq(J, cell(q, ch)), fadd(a, fdiv(gr(ch), i2f(n))), a), n)
                    r = [('every element receives its share of every window position it is under', eq_goal(now.get(J), env.fold(old_.get(J), share, C)))]
                else:
                    x = l.x
                    def where(ch):
                        # first position of the largest element of the window: value, row part and column part of its place
                        c0 = cell(0, ch); F = lambda q: (mul(add(row, udivmod(q, kw)[0]), wc), add(add(col, mul(udivmod(q, kw)[1], C)), ch))
                        def st(a, k):
                            y, z = F(add(k, 1)); v = x.get(add(y, z)); up = flt(a[0], v)
                            return [ite(up, v, a[0]), ite(up, y, a[1]), ite(up, z, a[2])]
                        y0, z0 = F(0); m, y, z = mk_fold([x.get(add(y0, z0)), y0, z0], st, sub(n, 1)); return add(y, z)
                    def share(acc, ch): return ite(ieq(J, where(ch)), fadd(acc, gr(ch)), acc)
                    r = [('the gradient of a cell goes to the first largest element of its window', eq_goal(now.get(J), env.fold(old_.get(J), share, C)))]
                r += [('length kept', ieq(now.n, l.nin))]
            finally: it.st.pc = old
            return r
        env.it.form_hints = ('_input_gradients',)
        E = dict(src=None if nm == 'Average' else l.xl, k=None, ss=[H, W, C], ks=[kh, kw], s=[sh, sw], p=[0, 0], nf=1, oh=oh, ow=ow, lv=l.lv, clear=[('_input_gradients', l.nin)], keep=[],
                 write=[('_input_gradients', l.nin)], inside=inside, effect=effect, fin={})
        env.it.models = dict(env.it.models, **{E_ + 'DLMath::kernel_slide': slide(env, E)})
        def post(env, o):
            if not ok(o): return bad(o)
            return [('the sum over the windows is the result', same_value(env, l.now('_input_gradients'), E['fin'].get('_input_gradients')))] + returns(env, l, o, '_input_gradients') + l.frozen('_input_gradients') + [('argument untouched', same_value(env, env.it.read(gl), g))]
        return l.lv, [gl], post
    return V(nm + 'Pooling backward', nm + 'PoolingLayer::backward', su, opts=dict(limit=300, inv_timeout=12000))
def c_pool_forward(nm):
    def su(env):
        l, (H, W, C, kh, kw, sh, sw, oh, ow) = pool_layer(env, nm + 'PoolingLayer'); x = env.seq('input', l.nin); xl = env.lv(x); fin = {}
        def pool(it, this, args, decl):
            dst, src, ss, ks, s = [it.read(a) if isinstance(a, LV) else a for a in args]; dim = lambda v, i: v.f['_shape'].get(i)
            it.safe('writes the output activations', isinstance(dst, PtrV) and dst.lv is not None and And(dst.lv.same(l.lv.f('_output_activations')), ieq(dst.idx, 0)))
            it.safe('reads the input', isinstance(src, PtrV) and src.lv is not None and And(src.lv.same(xl), ieq(src.idx, 0)))
            for w, v, d in (('source shape', ss, [H, W, C]), ('kernel shape', ks, [kh, kw]), ('stride', s, [sh, sw])): it.safe('the ' + w, And(*[ieq(dim(v, i), d[i]) for i in range(len(d))]))
            it.safe('one pass', 'n' not in fin); fin['n'] = env.seq('pooled', l.nout); it.write(l.lv.f('_output_activations'), fin['n']); return dst
        def wrong(it, this, args, decl): it.safe('the right kind of pooling', False)
        a, b = ('avg_pool', 'max_pool') if nm == 'Average' else ('max_pool', 'avg_pool')
        env.it.models = dict(env.it.models, **{E_ + 'DLMath::' + a: pool, E_ + 'DLMath::' + b: wrong})
        def post(env, o):
            if not ok(o): return bad(o)
            return [('the pooled values are the output', same_value(env, l.now('_output_activations'), fin.get('n')))] + returns(env, l, o, '_output_activations') + l.frozen('_output_activations') + [('argument untouched', same_value(env, env.it.read(xl), x))]
        return l.lv, [xl], post
    return V(nm + 'Pooling forward', nm + 'PoolingLayer::forward', su)
def conv_layer(env):
    H, W, C, kh, kw, sh, sw, ph, pw, oh, ow = DM.slide_setup(env, True); nf = env.nat('nf', 1)
    for t in (mul(kh, kw), mul(mul(kh, kw), C), mul(mul(mul(kh, kw), C), nf), mul(kw, C), mul(W, C), mul(H, mul(W, C)), mul(oh, mul(ow, nf)), mul(ow, nf), mul(oh, sh), mul(ow, sw)): env.assume(And(le(1, t), lt(t, 2**60)))
    nw = mul(mul(mul(kh, kw), C), nf); f = {}
    for nm, n in (('_weights', nw), ('_weight_gradients', nw), ('_biases', nf), ('_bias_gradients', nf)): f[nm] = env.seq(nm, n); f[nm] = params(env, f[nm]) if nm in ('_weights', '_biases') else f[nm]
    l = Lay(env, 'ConvolutionalLayer', DM.shape3(env, [H, W, C]), DM.shape3(env, [oh, ow, nf]), mul(H, mul(W, C)), mul(oh, mul(ow, nf)), _kernel_shape=DM.shape2(env, kh, kw), _stride=DM.shape2(env, sh, sw), _padding=DM.shape2(env, ph, pw), _n_filters=nf, **f)
    l.wl = f['_weights'].f['_p'].lv; l.w, l.b = env.it.read(l.wl), env.it.read(f['_biases'].f['_p'].lv); l.bl = f['_biases'].f['_p'].lv
    return l, (H, W, C, kh, kw, sh, sw, ph, pw, oh, ow, nf, nw)
def conv_forward(env):
    l, (H, W, C, kh, kw, sh, sw, ph, pw, oh, ow, nf, nw) = conv_layer(env); x = env.seq('input', l.nin); xl = env.lv(x); fin = {}
    def cc(it, this, args, decl):
        dst, src, ss, k, ks, n, s, p = [it.read(a) if isinstance(a, LV) else a for a in args]; dim = lambda v, i: v.f['_shape'].get(i)
        for w, v, t in (('writes the output activations', dst, l.lv.f('_output_activations')), ('reads the input', src, xl), ('uses the weights', k, l.wl)):
            it.safe(w, isinstance(v, PtrV) and v.lv is not None and And(v.lv.same(t), ieq(v.idx, 0)))
        for w, v, d in (('source shape', ss, [H, W, C]), ('kernel shape', ks, [kh, kw]), ('stride', s, [sh, sw]), ('padding', p, [ph, pw])): it.safe('the ' + w, And(*[ieq(dim(v, i), d[i]) for i in range(len(d))]))
        it.safe('the number of filters', ieq(n, nf)); it.safe('one pass', 'n' not in fin)
        fin['n'] = env.seq('correlated', l.nout); it.write(l.lv.f('_output_activations'), fin['n']); return dst
    env.it.models = dict(env.it.models, **{E_ + 'DLMath::cross_correlation': cc})
    def post(env, o):
        if not ok(o): return bad(o)
        return [('one correlation', 'n' in fin)] + (seq_is(env, l.now('_output_activations'), l.nout, lambda j: fadd(fin['n'].get(j), l.b.get(udivmod(j, nf)[1])), 'correlation plus the bias of the filter') if 'n' in fin else []) + [('parameters untouched', And(same_value(env, env.it.read(l.wl), l.w), same_value(env, env.it.read(l.bl), l.b)))] + returns(env, l, o, '_output_activations') + l.frozen('_output_activations') + [('argument untouched', same_value(env, env.it.read(xl), x))]
    return l.lv, [xl], post
def conv_backward(env):
    l, (H, W, C, kh, kw, sh, sw, ph, pw, oh, ow, nf, nw) = conv_layer(env); g = env.seq('gradient', l.nout); gl = env.lv(g); wc, kc = mul(W, C), mul(kw, C)
    def inside(r_, c_, row, col):
        y, x = env.int('row'), env.int('col'); env.assume(And(veq(y, row), veq(x, col), lt(-2**61, y), lt(y, 2**61), lt(-2**61, x), lt(x, 2**61)))
        return y, x
    def effect(G, r_, c_, row, col):
        it = env.it; old = it.st.pc; r = []
        def place(q):
            a, b = udivmod(q, kc); y, x = add(row, a), add(col, b)
            return Or(lt(x, 0), lt(y, 0), le(wc, x), le(H, y)), add(mul(y, wc), x)
        gr = lambda f: g.get(add(mul(r_, mul(ow, nf)), add(mul(c_, nf), f)))
        ig, wg = grab(env, l.lv, '_input_gradients'), grab(env, l.lv, '_weight_gradients'); n = mul(mul(kh, kw), C)
        J = const('J', I); old.append(zb(rng(J, 0, l.nin))); it.st.pc = list(old)
        def share(acc, f): return env.fold(acc, lambda a, q: ite(And(Not(place(q)[0]), ieq(J, place(q)[1])), fadd(a, fmul(l.w.get(add(mul(q, nf), f)), gr(f))), a), n)
        try: r += [('an input receives weight times gradient from every kernel cell and filter over it', eq_goal(ig.get(J), env.fold(G['_input_gradients'].get(J), share, nf)))]
        finally: it.st.pc = old
        K = const('K', I); old.append(zb(rng(K, 0, nw))); it.st.pc = list(old)
        def wshare(acc, f): return env.fold(acc, lambda a, q: ite(And(Not(place(q)[0]), ieq(K, add(mul(q, nf), f))), fadd(a, fmul(l.x.get(place(q)[1]), gr(f))), a), n)
        try: r += [('a weight accumulates input times gradient', eq_goal(wg.get(K), env.fold(G['_weight_gradients'].get(K), wshare, nf)))]
        finally: it.st.pc = old
        return r + [('lengths kept', And(ieq(ig.n, l.nin), ieq(wg.n, nw)))]
    env.it.form_hints = ('_input_gradients', '_weight_gradients')
    E = dict(src=l.xl, k=l.wl, ss=[H, W, C], ks=[kh, kw], s=[sh, sw], p=[ph, pw], nf=nf, oh=oh, ow=ow, lv=l.lv, clear=[('_input_gradients', l.nin)], keep=[('_weight_gradients', l.f0['_weight_gradients'])],
             write=[('_input_gradients', l.nin), ('_weight_gradients', nw)], inside=inside, effect=effect, fin={})
    env.it.models = dict(env.it.models, **{E_ + 'DLMath::kernel_slide': slide(env, E)})
    def post(env, o):
        if not ok(o): return bad(o)
        r = [('the sum over the windows is the result', And(*[same_value(env, l.now(m), E['fin'].get(m)) for m in ('_input_gradients', '_weight_gradients')]))]
        cell = lambda i, j, f: g.get(add(mul(i, mul(ow, nf)), add(mul(j, nf), f)))
        total = lambda f: env.fold(ZERO, lambda acc, i: env.fold(acc, lambda a, j: fadd(a, cell(i, j, f)), ow), oh)
        r += seq_is(env, l.now('_bias_gradients'), nf, lambda f: fadd(l.f0['_bias_gradients'].get(f), total(f)), 'bias gradient')
        return r + returns(env, l, o, '_input_gradients') + l.frozen('_input_gradients', '_weight_gradients', '_bias_gradients') + [('parameters untouched', And(same_value(env, env.it.read(l.wl), l.w), same_value(env, env.it.read(l.bl), l.b)))] + [('argument untouched', same_value(env, env.it.read(gl), g))]
    return l.lv, [gl], post
def c34(): return [c_pool_backward('Average'), c_pool_backward('Max'), c_pool_forward('Average'), c_pool_forward('Max')]
def c35(): return [V('Conv forward', 'ConvolutionalLayer::forward', conv_forward), V('Conv backward', 'ConvolutionalLayer::backward', conv_backward, opts=dict(limit=420, inv_timeout=15000))]
def slide_once(env):
    """kernel_slide runs the operation exactly once for every output cell, with the place of its window"""
    H, W, C, kh, kw, sh, sw, ph, pw, oh, ow = DM.slide_setup(env, True); nf = env.nat('nf', 1)
    for t in (mul(oh, ow), mul(oh, sh), mul(ow, sw), mul(mul(ow, sw), C), mul(pw, C)): env.assume(And(le(0, t), lt(t, 2**60)))
    for t in (H, W, kh, kw, ph, pw): env.assume(lt(t, 2**59))
    dst, src, k = [env.ptr(env.seq(x, env.nat(x + '.n'))) for x in ('dst', 'src', 'k')]
    n = mul(oh, ow); count = env.lv(SeqV.fn(n, lambda i: 0, U64)); place = env.lv(env.seq('place', n, ('fp',)))
    at = z3.Function('window_at', I, I, R)
    def op(it, a):
        a = [it.read(x) if isinstance(x, LV) else x for x in a]; d, ds, co, s, ss, kk, ks, f, row, col = a; dim = lambda v, i: v.f['_shape'].get(i)
        for w, v, t in (('destination', d, dst), ('source', s, src), ('kernel', kk, k)): it.safe(w + ' passed on', And(v.lv is not None and v.lv.same(t.lv), ieq(v.idx, 0)))
        for w, v, t in (('output shape', ds, [oh, ow]), ('source shape', ss, [H, W, C]), ('kernel shape', ks, [kh, kw])): it.safe(w, And(*[ieq(dim(v, i), t[i]) for i in range(len(t))]))
        it.safe('filters passed on', ieq(f, nf)); r_, c_ = co.f['row'], co.f['col']
        it.safe('cell inside the output', And(rng(r_, 0, oh), rng(c_, 0, ow)))
        J = add(mul(r_, ow), c_); s_ = it.read(count); it.write(count, s_.rng(J, add(J, 1), lambda x: add(s_.get(x), 1))); p_ = it.read(place); it.write(place, p_.rng(J, add(J, 1), lambda x: at(zi(row), zi(col))))
        return None
    def post(env, o):
        if not ok(o): return bad(o)
        i, j = const('i', I), const('j', I); J = add(mul(i, ow), j); h = And(rng(i, 0, oh), rng(j, 0, ow)); old = env.it.st.pc
        env.it.st.pc = list(old) + [zb(h)]
        try: c, p = env.it.read(count).get(J), env.it.read(place).get(J)
        finally: env.it.st.pc = old
        return [('every cell once', Implies(h, ieq(c, 1))), ('at its own window', Implies(h, eq_goal(p, at(zi(sub(mul(i, sh), ph)), zi(mul(sub(mul(j, sw), pw), C))))))]
    return None, [FuncV(op), dst, src, shape3(env, [H, W, C]), k, DM.shape2(env, kh, kw), nf, DM.shape2(env, sh, sw), DM.shape2(env, ph, pw)], post
def c34s(): return [V('kernel_slide', 'DLMath::kernel_slide', slide_once)]
# ------------------------------------------------------------------ C33 shapes
def sh_of(env, v):
    """dimensions of a Shape, or of a LayerShape holding one shape"""
    v = env.it.read(env.it.resolve(v)) if isinstance(v, LV) else v
    if '_shape_vec' in v.f:
        s = v.f['_shape_vec']; s0 = s.get(0)
        return s.n, [s0.f['_shape'].get(i) for i in range(3)]
    return 1, [v.f['_shape'].get(i) for i in range(3)]
def geometry(env, w, o, inp, k, s, p):
    """the output side counts the positions of the window: the last one fits, one more does not"""
    r = []
    for nm, O, X, K, S_, P in (('rows', o[0], inp[0], k[0], s[0], p[0]), ('columns', o[1], inp[1], k[1], s[1], p[1])):
        X2 = add(X, mul(2, P))
        r.append(('%s %s: the last window fits and one more would not' % (w, nm), And(le(1, O), le(add(mul(sub(O, 1), S_), K), X2), lt(X2, add(mul(O, S_), K)))))
    return r
def c_out_shape(kind):
    def su(env):
        H, W, C, kh, kw, sh, sw, ph, pw, oh, ow = DM.slide_setup(env, kind == 'Convolutional')
        a = [DM.shape3(env, [H, W, C]), DM.shape2(env, kh, kw), DM.shape2(env, sh, sw)]; nf = C
        if kind == 'Convolutional': nf = env.nat('nf'); a += [DM.shape2(env, ph, pw), nf]
        def post(env, o):
            if not ok(o): return bad(o)
            n, d = sh_of(env, o.v)
            return geometry(env, 'output', d, [H, W], [kh, kw], [sh, sw], [ph, pw]) + [('channels', ieq(d[2], nf))]
        return None, a, post
    return V('%s output shape' % kind, '%sLayer::calculate_output_shape' % kind, su)
def consistent(env, l, rd):
    """array sizes agree with the recorded shapes"""
    n1, i = sh_of(env, rd['_input_shape']); n2, o = sh_of(env, rd['_output_shape']); si, so = mul(mul(i[0], i[1]), i[2]), mul(mul(o[0], o[1]), o[2])
    return [('one input and one output', And(ieq(n1, 1), ieq(n2, 1))), ('recorded input size', ieq(rd['_input_size'], si)), ('room for every output', ieq(l['_output_activations'].n, so)), ('room for every input gradient', ieq(l['_input_gradients'].n, si))]
def pcount(env, v):
    v = v.f['_p'] if isinstance(v, StructV) else v
    return env.it.read(v.lv).n
def shape_goals(env, kind, l, new, g):
    rd = env.it.read(l['_shared_fields'].lv).f; n, i = sh_of(env, rd['_input_shape']); n2, o = sh_of(env, rd['_output_shape'])
    r = [('input shape recorded', And(*[ieq(a, b) for a, b in zip(i, new)]))] + consistent(env, l, rd)
    if kind == 'Dense':
        no = g; tot = mul(mul(new[0], new[1]), new[2])
        return r + [('output size kept', ieq(mul(mul(o[0], o[1]), o[2]), no)), ('one weight per input and output', And(ieq(pcount(env, l['_weights']), mul(no, tot)), ieq(l['_weight_gradients'].n, mul(no, tot)))), ('one bias per output', And(ieq(pcount(env, l['_biases']), no), ieq(l['_bias_gradients'].n, no)))]
    if kind == 'Relu' or kind == 'Dropout': return r + [('as many outputs as inputs', ieq(mul(mul(o[0], o[1]), o[2]), mul(mul(new[0], new[1]), new[2])))]
    k, s, p, nf = g
    r += geometry(env, 'output', o, new, k, s, p) + [('output channels', ieq(o[2], nf if kind == 'Conv' else new[2]))]
    if kind == 'Conv':
        nw = mul(mul(mul(k[0], k[1]), new[2]), nf)
        r += [('one weight per kernel cell, channel and filter', And(ieq(pcount(env, l['_weights']), nw), ieq(l['_weight_gradients'].n, nw))), ('one bias per filter', And(ieq(pcount(env, l['_biases']), nf), ieq(l['_bias_gradients'].n, nf)))]
    return r
def new_shape(env, k, s, p):
    """another input shape the window still fits in"""
    d = [env.nat('H2', 1, 2**20), env.nat('W2', 1, 2**20), env.nat('C2', 1, 2**20)]
    for i in (0, 1): env.assume(le(k[i], add(d[i], mul(2, p[i]))))
    return d
def small(env, *xs):
    for x in xs: env.assume(lt(x, 2**20))
def c_set_shape(kind):
    def su(env):
        if kind == 'Dense': L_ = DenseL(env); g = L_.nout; d = [env.nat(x, 0, 2**20) for x in ('H2', 'W2', 'C2')]
        elif kind == 'Dropout': L_ = DropL(env); small(env, L_.n); g = None; d = [env.nat(x, 0, 2**20) for x in ('H2', 'W2', 'C2')]
        elif kind == 'Relu': n = env.nat('n', 0, 2**20); L_ = act(env, 'Relu', n)[0]; g = None; d = [env.nat(x, 0, 2**20) for x in ('H2', 'W2', 'C2')]
        elif kind == 'Conv': L_, (H, W, C, kh, kw, sh, sw, ph, pw, oh, ow, nf, nw) = conv_layer(env); g = ([kh, kw], [sh, sw], [ph, pw], nf); d = new_shape(env, *g[:3]); small(env, kh, kw, sh, sw, ph, pw, nf)
        else: L_, (H, W, C, kh, kw, sh, sw, oh, ow) = pool_layer(env, kind + 'PoolingLayer'); g = ([kh, kw], [sh, sw], [0, 0], C); d = new_shape(env, *g[:3]); small(env, kh, kw, sh, sw)
        def post(env, o):
            if not ok(o): return bad(o)
            return shape_goals(env, kind, env.it.read(L_.lv).f, d, g)
        return L_.lv, [lshape(env, DM.shape3(env, d))], post
    return V('%s: new input shape' % kind, 'Layer::input_shape', su, nparams=1)
def c_make(kind):
    def su(env):
        see = Seen(env)
        if kind == 'Dense': d = [env.nat('in', 0, 2**28), 1, 1]; g = env.nat('out', 0, 2**28); a = [d[0], g]
        elif kind == 'Relu': d = [env.nat('n', 0, 2**28), 1, 1]; g = None; a = [d[0]]
        else:
            H, W, C, kh, kw, sh, sw, ph, pw, oh, ow = DM.slide_setup(env, kind == 'Conv'); d = [H, W, C]; nf = env.nat('nf', 1) if kind == 'Conv' else C
            small(env, H, W, C, kh, kw, sh, sw, ph, pw, nf); g = ([kh, kw], [sh, sw], [ph, pw], nf)
            a = [DM.shape3(env, d), DM.shape2(env, kh, kw)] + ([nf] if kind == 'Conv' else []) + [DM.shape2(env, sh, sw)] + ([DM.shape2(env, ph, pw)] if kind == 'Conv' else [])
        def post(env, o):
            if not ok(o): return bad(o)
            return shape_goals(env, kind, see[0].f, d, g)
        return None, a, post
    return V('%s: construction' % kind, 'drv::make_' + {'Dense': 'dense', 'Relu': 'relu', 'Conv': 'conv', 'Average': 'avg', 'Max': 'max'}[kind], su)
def c33(): return [c_out_shape('Pooling'), c_out_shape('Convolutional')] + [f(k) for k in ('Dense', 'Relu', 'Conv', 'Average', 'Max') for f in (c_set_shape, c_make)]
# ------------------------------------------------------------------ C36 dropout
RNG = 'std::mt19937_64'
DRAW = __import__('stdlib').DRAWF
def unit(k): return fadd(fmul(fsub(fmul(fdiv(i2f(DRAW(zi(k))), i2f(2**64 - 1)), Fraction(2)), ONE), fdiv(ONE, Fraction(2))), Fraction(1, 2))
class DropL(Lay):
    def __init__(self, env, mask=None):
        n = self.n = env.nat('n', 0, 2**28); self.p, self.s, self.pos = env.real('p'), env.real('scale'), env.nat('position', 0, 2**40)
        self.mask = env.seq('mask', env.nat('masked'), U64) if mask is None else mask
        Lay.__init__(self, env, 'DropoutLayer', shape3(env, [n, 1, 1]), shape3(env, [n, 1, 1]), n, n, _drop_probability=self.p, _scale=self.s, _random_generator=StructV(RNG, {'pos': self.pos}), _zero_mask_idxs=self.mask)
def drop_forward(train):
    def su(env):
        l = DropL(env); x = env.seq('input', l.n); xl = env.lv(x)
        def post(env, o):
            if not ok(o): return bad(o)
            if not train: return seq_is(env, val(env, o.v), l.n, x.get, 'output') + [('argument untouched', same_value(env, env.it.read(xl), x))] + l.frozen('_last_input')
            dropped = lambda j: Not(flt(l.p, unit(add(l.pos, j))))
            r = seq_is(env, l.now('_output_activations'), l.n, lambda j: ite(dropped(j), ZERO, fmul(x.get(j), l.s)), 'output') + returns(env, l, o, '_output_activations')
            m = l.now('_zero_mask_idxs'); k = const('k', I); h = rng(k, 0, m.n)
            r += [('only dropped positions are remembered', Implies(h, And(rng(m.get(k), 0, l.n), dropped(m.get(k))))), ('one draw per position', ieq(l.now('_random_generator').f['pos'], add(l.pos, l.n)))]
            return r + l.frozen('_output_activations', '_zero_mask_idxs', '_last_input', '_random_generator') + [('argument untouched', same_value(env, env.it.read(xl), x))]
        return l.lv, [xl], post
    return V('Dropout %sforward' % ('training_' if train else ''), 'DropoutLayer::%sforward' % ('training_' if train else ''), su)
def drop_round(env):
    """a training pass and the backward pass of its gradient"""
    l = DropL(env); x = env.seq('input', l.n); xl = env.lv(x); g = env.seq('gradient', l.n); gl = env.lv(g)
    def post(env, o):
        if not ok(o): return bad(o)
        dropped = lambda j: Not(flt(l.p, unit(add(l.pos, j))))
        return seq_is(env, l.now('_input_gradients'), l.n, lambda j: ite(dropped(j), ZERO, fmul(g.get(j), l.s)), 'input gradient') + [('argument untouched', same_value(env, env.it.read(gl), g))] + l.frozen('_output_activations', '_zero_mask_idxs', '_last_input', '_random_generator', '_input_gradients')
    return None, [l.lv, xl, gl], post
def drop_make(env):
    see = Seen(env); n, p, pos = env.nat('n', 0, 2**28), env.real('p'), env.nat('position', 0, 2**40)
    def post(env, o):
        if not ok(o): return bad(o)
        f = see[0].f
        return shape_goals(env, 'Dropout', f, [n, 1, 1], None) + [('drop probability', veq(f['_drop_probability'], p)), ('kept values are scaled by 1/(1-p)', Implies(Not(veq(p, ONE)), veq(f['_scale'], fdiv(ONE, fsub(ONE, p))))), ('and by one when everything is dropped', Implies(veq(p, ONE), veq(f['_scale'], ONE))),
                ('own copy of the generator', ieq(f['_random_generator'].f['pos'], pos)), ('nothing dropped yet', ieq(f['_zero_mask_idxs'].n, 0))]
    return None, [n, p, env.lv(StructV(RNG, {'pos': pos}))], post
def c36(): return [drop_forward(0), drop_forward(1), V('Dropout training pass and backward', 'drv::dropout_round', drop_round), V('Dropout construction', 'drv::make_dropout', drop_make), c_set_shape('Dropout')]
