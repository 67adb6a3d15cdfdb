"""Contracts for parser/type_checker.hpp: the type of every text, and the conversions that are not formatted stream input."""
from contract import *
TC = 'EdgeLearning::TypeChecker'
NONE, FLOAT, INT, BOOL, STRING = -1, 1, 2, 3, 4
TY = ('int', 32, True)
# the grammar of values, written from the property text
def _c(x): return z3.Re(z3.StringVal(x))
_digit = z3.Range('0', '9'); _sign = z3.Option(z3.Union(_c('+'), _c('-')))
L_BOOL = z3.Union(_c('true'), _c('false'))
L_INT = z3.Concat(_sign, z3.Union(_c('0'), z3.Concat(z3.Range('1', '9'), z3.Star(_digit))))
_mant = z3.Union(z3.Plus(_digit), z3.Concat(z3.Star(_digit), _c('.'), z3.Plus(_digit)))
_exp = z3.Concat(z3.Union(_c('e'), _c('E')), _sign, z3.Plus(_digit))
L_FLOAT = z3.Concat(_sign, _mant, z3.Option(_exp))
def want(s):
    f = lambda l: z3.InRe(s, l)
    return z3.If(s == z3.StringVal(''), z3.IntVal(NONE), z3.If(f(L_BOOL), z3.IntVal(BOOL), z3.If(f(L_INT), z3.IntVal(INT), z3.If(f(L_FLOAT), z3.IntVal(FLOAT), z3.IntVal(STRING)))))
def bad(o): return [('no exception', False)]
def ok(o): return o.kind in ('normal', 'return')
def tc(env): return env.it.alloc(StructV(TC, {}))
def V(name, fn, setup, **k): return Contract(name, 'EdgeLearning::drv::' + fn, setup, **k)
def cases(s, got):
    f = lambda l: z3.InRe(s, l)
    e = s == z3.StringVal('')
    return [('empty text is NONE', Implies(e, ieq(got, NONE))), ('true and false are BOOL', Implies(f(L_BOOL), ieq(got, BOOL))), ('integers are INT', Implies(f(L_INT), ieq(got, INT))),
            ('other decimal numbers are FLOAT', Implies(And(f(L_FLOAT), Not(f(L_INT))), ieq(got, FLOAT))),
            ('every other text is STRING', Implies(And(Not(e), Not(f(L_BOOL)), Not(f(L_INT)), Not(f(L_FLOAT))), ieq(got, STRING)))]
def c_parse(obj):
    def su(env):
        s = env.string('field')
        return None, ([tc(env)] if obj else []) + [env.it.alloc(s)], lambda env, o: cases(s, o.v) if ok(o) else bad(o)
    return su
def c_is(k):
    def su(env):
        s = env.string('field')
        return None, [env.it.alloc(s)], lambda env, o: [('exactly the texts of the type', veq(o.v, want(s) == k))] if ok(o) else bad(o)
    return su
TYF = z3.Function('type of text', S, I)      # the classification of one text, decided by the contracts of parse(text)
def one(it, this, a, d):
    if len(a) != 1: return NotImplemented
    x = it.read(it.resolve(a[-1])) if isinstance(a[-1], LV) else a[-1]
    return NotImplemented if isinstance(x, SeqV) else TYF(zs(x))
def c_vec(obj):
    def su(env):
        n = env.nat('texts'); f = func('text', I, S)
        v = SeqV.fn(n, lambda i: f(zi(i)), ('str',))
        j = const('j', I)
        return None, ([tc(env)] if obj else []) + [env.it.alloc(v)], lambda env, o: [('one type per text', ieq(o.v.n, n)), ('type of the text at the same place', Implies(And(le(0, j), lt(j, n)), eq_goal(o.v.get(j), TYF(f(j)))))] if ok(o) else bad(o)
    return su
def c_same(res):
    def su(env):
        n = env.nat('types'); f = func('type', I, I)
        mk = lambda m, g: env.it.alloc(SeqV.fn(m, lambda i: g(zi(i)), TY))
        return None, [mk(n, f), mk(n, f)], lambda env, o: [('equal lists', veq(o.v, res))] if ok(o) else bad(o)
    return su
def c_diff(res):
    def su(env):
        n, m = env.nat('types'), env.nat('types2'); f, g = func('type', I, I), func('type2', I, I); w = const('w', I)
        env.assume(Or(Not(ieq(n, m)), And(le(0, w), lt(w, n), Not(ieq(f(w), g(w))))))
        mk = lambda m, g: env.it.alloc(SeqV.fn(m, lambda i: g(zi(i)), TY))
        return None, [mk(n, f), mk(m, g)], lambda env, o: [('different lists', veq(o.v, res))] if ok(o) else bad(o)
    return su
def c_tobool(env):
    s = env.string('text'); r = env.it.alloc(env.bool('old'))
    return None, [tc(env), env.it.alloc(s), r], lambda env, o: [('accepted', o.v), ('true exactly for true and 1', veq(env.it.read(r), Or(s == z3.StringVal('true'), s == z3.StringVal('1'))))] if ok(o) else bad(o)
def c_tostr(env):
    s = env.string('text'); r = env.it.alloc(env.string('old'))
    return None, [tc(env), env.it.alloc(s), r], lambda env, o: [('accepted', o.v), ('the text itself', veq(env.it.read(r), s))] if ok(o) else bad(o)
def c_frombool(env):
    b = env.bool('b')
    return None, [tc(env), b], lambda env, o: [('true or false', veq(o.v, z3.If(b, z3.StringVal('true'), z3.StringVal('false'))))] if ok(o) else bad(o)
def c04():
    L = [V('parse(text)', 'parse', c_parse(False)), V('operator()(text)', 'call', c_parse(True)), V('is_int', 'isint', c_is(INT)), V('is_float', 'isfloat', c_is(FLOAT)), V('is_bool', 'isbool', c_is(BOOL)), V('is_string', 'isstring', c_is(STRING)),
         V('parse(texts)', 'parsev', c_vec(False), models={TC + '::parse': one}), V('operator()(texts)', 'callv', c_vec(True), models={TC + '::parse': one}),
         V('operator==(equal)', 'same', c_same(True)), V('operator!=(equal)', 'differ', c_same(False)), V('operator==(different)', 'same', c_diff(False), opts={'trip_forall': 1}), V('operator!=(different)', 'differ', c_diff(True), opts={'trip_forall': 1}),
         V('convert to bool', 'tobool', c_tobool), V('convert to string', 'tostr', c_tostr), V('convert from bool', 'frombool', c_frombool)]
    return L
