"""Contracts for parser/mnist.hpp and parser/cifar.hpp."""
from contract import *
import ghost
D = 'EdgeLearning::drv::'
PX = 784

def byte_file(env, name):
    n = env.nat(name + '.bytes')
    f = func(name, I, I)
    define(f, lambda app: [app >= 0, app <= 255])
    return BytesV(n, lambda i: f(zi(i)), name), n, (lambda i: f(zi(i)))

def be32(b, o): return add(add(mul(b(o), 1 << 24), mul(b(o + 1), 1 << 16)), add(mul(b(o + 2), 1 << 8), b(o + 3)))

def mnist_files(env, wellformed=True):
    a, b = env.string('img_path'), env.string('lab_path')
    env.assume(a != b)
    fa, na, ba = byte_file(env, 'img'); fb, nb, bb = byte_file(env, 'lab')
    ea, eb = env.bool('img.exists'), env.bool('lab.exists')
    env.it.files[('z', a.get_id())] = (fa, ea); env.it.files[('z', b.get_id())] = (fb, eb)
    if wellformed:
        n = be32(ba, 4)
        env.assume(ea); env.assume(eb)
        for c in header(ba, bb, na, nb): env.assume(c)
        env.assume(lt(0, n))
    return (a, b), (fa, na, ba, ea), (fb, nb, bb, eb)
def header(ba, bb, na, nb):
    return [le(16, na), le(8, nb), ieq(be32(ba, 0), 0x803), ieq(be32(bb, 0), 0x801), ieq(be32(ba, 4), be32(bb, 4)), ieq(be32(ba, 8), 28), ieq(be32(ba, 12), 28)]

def rd(env, lv): return env.it.read(lv)
def C(name, fn, setup, **k):
    m = dict(ghost.MODELS); m.update(k.pop('models', {}))
    return Contract(name, D + fn, setup, models=m, **k)

def header_contract():
    def setup(env):
        p, (fa, na, ba, ea), (fb, nb, bb, eb) = mnist_files(env, False)
        ok = And(ea, eb, *header(ba, bb, na, nb))
        def post(env, o):
            if o.kind == 'throw': return [('rejected only when a header condition fails', Not(ok)), ('error type', o.v[0] == 'runtime_error')]
            return [('accepted only when every header condition holds', ok), ('size is the big-endian record count', ieq(o.v, be32(ba, 4)))]
        return None, list(p), post
    return C('Mnist::Mnist', 'mnist_open', setup)

def record(env, i, which='image'):
    pass
def mnist_records():
    cs = []
    def base(env):
        p, (fa, na, ba, ea), (fb, nb, bb, eb) = mnist_files(env)
        n = be32(ba, 4); i = env.nat('i', 0, 2 ** 64)
        k = udivmod(i, n)[1]
        return p, na, ba, nb, bb, n, i, k
    def px(env, o, v, ba, k, na):
        j = const('j', I)
        inside = le(add(16, mul(PX, add(k, 1))), na)
        return [('image has 784 pixels', ieq(v.n, PX)),
                ('pixel j of record i mod n is the file byte at 16 + 784 (i mod n) + j', Implies(And(inside, le(0, j), lt(j, PX)), eq_goal(v.get(j), ba(add(add(16, mul(PX, k)), j)))))]
    def img(env):
        p, na, ba, nb, bb, n, i, k = base(env)
        x = env.lv(0)
        def post(env, o):
            if o.kind != 'normal': return [('no exception', False)]
            return px(env, o, o.v, ba, k, na) + [('reported index', ieq(rd(env, x), k))]
        return None, list(p) + [i, x], post
    cs.append(C('Mnist::image', 'mnist_image_data', img))
    def lab(env):
        p, na, ba, nb, bb, n, i, k = base(env)
        x = env.lv(0)
        def post(env, o):
            if o.kind != 'normal': return [('no exception', False)]
            inside = lt(add(8, k), nb)
            return [('label is the file byte at 8 + (i mod n)', Implies(inside, eq_goal(o.v, bb(add(8, k))))), ('reported index', ieq(rd(env, x), k))]
        return None, list(p) + [i, x], post
    cs.append(C('Mnist::label', 'mnist_label_data', lab))
    def item(env):
        p, na, ba, nb, bb, n, i, k = base(env)
        l, x, y = env.lv(0), env.lv(0), env.lv(0)
        def post(env, o):
            if o.kind != 'normal': return [('no exception', False)]
            inside = lt(add(8, k), nb)
            return px(env, o, o.v, ba, k, na) + [('label', Implies(inside, eq_goal(rd(env, l), bb(add(8, k))))), ('image index', ieq(rd(env, x), k)), ('label index', ieq(rd(env, y), k))]
        return None, list(p) + [i, l, x, y], post
    cs.append(C('Mnist::operator[]', 'mnist_item_data', item))
    def entry(env):
        p, na, ba, nb, bb, n, i, k = base(env)
        def post(env, o):
            if o.kind != 'normal': return [('no exception', False)]
            j = const('j', I); v = o.v
            ins = le(add(16, mul(PX, add(k, 1))), na)
            return [('entry has 785 values', ieq(v.n, PX + 1)),
                    ('pixel values', Implies(And(ins, le(0, j), lt(j, PX)), eq_goal(v.get(j), i2f(ba(add(add(16, mul(PX, k)), j)))))),
                    ('label last', Implies(lt(add(8, k), nb), eq_goal(v.get(PX), i2f(bb(add(8, k))))))]
        return None, list(p) + [i], post
    cs.append(C('Mnist::entry', 'mnist_entry', entry))
    def meta(env):
        p, na, ba, nb, bb, n, i, k = base(env)
        L = [env.lv(0) for _ in range(5)]
        def post(env, o):
            if o.kind != 'normal': return [('no exception', False)]
            g = [rd(env, x) for x in L]
            s = o.v.seq
            return [('size', ieq(g[0], n)), ('entries_amount', ieq(g[1], n)), ('feature_size', ieq(g[2], 785)), ('height', ieq(g[3], 28)), ('width', ieq(g[4], 28)), ('labels_idx', And(ieq(s.n, 1), ieq(s.get(0), 784)))]
        return None, list(p) + L, post
    cs.append(C('Mnist geometry', 'mnist_meta', meta))
    return cs
def c06(): return mnist_records()
def c07(): return [header_contract()]

# ------------------------------------------------------------------ CIFAR
def cifar_files(env):
    a, c, f = env.string('batch_path'), env.string('coarse_path'), env.string('fine_path')
    env.assume(And(a != c, a != f, c != f))
    fa, na, ba = byte_file(env, 'batch')
    env.it.files[('z', a.get_id())] = (fa, True)
    for t, nm in ((c, 'coarse'), (f, 'fine')):
        txt = env.string(nm + '_text'); ex = env.bool(nm + '_exists')
        env.it.files[('z', t.get_id())] = (txt, ex)
    o = env.nat('order', 0, 2); d = env.nat('dataset', 0, 2)
    i = env.nat('i', 0, 2 ** 64)
    k = norm(simp(i % 10000))
    # the dataset is CIFAR-100 when asked for and a fine label file is named
    is100 = And(ieq(d, 1), Not(ieq(slen(f), 0)))
    lab = ite(is100, 2, 1)
    rec = mul(k, add(lab, 3072)) if conc(lab) else ite(is100, mul(k, 3074), mul(k, 3073))
    return [a, c, o, d, f], na, ba, o, is100, lab, rec, k, i

def chw(ba, base, o, j):
    """value j of the returned vector, given the planar record at base"""
    q, c = simp(zi(j) / 3), simp(zi(j) % 3)
    return ite(ieq(o, 1), ba(add(base, add(mul(1024, c), q))), ba(add(base, j)))
NONAMES = {'loop': None}
def cifar_contracts():
    cs = []
    def img_post(env, v, ba, na, rec, lab, o):
        j = const('j', I); inside = le(add(rec, add(lab, 3072)), na)
        r, c = const('pix', I), const('chn', I)
        b = add(rec, lab)
        inr = And(le(0, r), lt(r, 1024), le(0, c), lt(c, 3))
        return [('3072 values', ieq(v.n, 3072)),
                ('planar order returns the stored bytes', Implies(And(inside, ieq(o, 0), le(0, j), lt(j, 3072)), eq_goal(v.get(j), ba(add(b, j))))),
                ('interleaved order: value 3 p + c is plane c, pixel p', Implies(And(inside, ieq(o, 1), inr), eq_goal(v.get(add(mul(3, r), c)), ba(add(b, add(mul(1024, c), r))))))]
    def img(env):
        args, na, ba, o, is100, lab, rec, k, i = cifar_files(env); x = env.lv(0)
        def post(env, oc):
            if oc.kind != 'normal': return [('no exception', False)]
            return img_post(env, oc.v, ba, na, rec, lab, o) + [('reported index', ieq(rd(env, x), k))]
        return None, args + [i, x], post
    cs.append(C('Cifar::image', 'cifar_image_data', img))
    def lab_(env):
        args, na, ba, o, is100, lab, rec, k, i = cifar_files(env); f, c, x = env.lv(0), env.lv(0), env.lv(0)
        def post(env, oc):
            if oc.kind != 'normal': return [('no exception', False)]
            ins = le(add(rec, lab), na)
            return [('label is the first record byte', Implies(ins, eq_goal(oc.v, ba(rec)))), ('coarse label', Implies(ins, eq_goal(rd(env, c), ba(rec)))),
                    ('fine label', Implies(ins, eq_goal(rd(env, f), ite(is100, ba(add(rec, 1)), 0)))), ('reported index', ieq(rd(env, x), k))]
        return None, args + [i, f, c, x], post
    cs.append(C('Cifar::label', 'cifar_label_data', lab_))
    def item(env):
        args, na, ba, o, is100, lab, rec, k, i = cifar_files(env); l, f, x, y = env.lv(0), env.lv(0), env.lv(0), env.lv(0)
        def post(env, oc):
            if oc.kind != 'normal': return [('no exception', False)]
            ins = le(add(rec, lab), na)
            return img_post(env, oc.v, ba, na, rec, lab, o) + [('label', Implies(ins, eq_goal(rd(env, l), ba(rec)))), ('fine label', Implies(ins, eq_goal(rd(env, f), ite(is100, ba(add(rec, 1)), 0)))),
                    ('image index', ieq(rd(env, x), k)), ('label index', ieq(rd(env, y), k))]
        return None, args + [i, l, f, x, y], post
    cs.append(C('Cifar::operator[]', 'cifar_item_data', item))
    def entry(env):
        args, na, ba, o, is100, lab, rec, k, i = cifar_files(env)
        def post(env, oc):
            if oc.kind != 'normal': return [('no exception', False)]
            v = oc.v; ins = le(add(rec, add(lab, 3072)), na); j = const('j', I); r, c = const('pix', I), const('chn', I); b = add(rec, lab)
            inr = And(le(0, r), lt(r, 1024), le(0, c), lt(c, 3))
            return [('3073 values', ieq(v.n, 3073)), ('planar pixels', Implies(And(ins, ieq(o, 0), le(0, j), lt(j, 3072)), eq_goal(v.get(j), i2f(ba(add(b, j)))))),
                    ('interleaved pixels', Implies(And(ins, ieq(o, 1), inr), eq_goal(v.get(add(mul(3, r), c)), i2f(ba(add(b, add(mul(1024, c), r))))))),
                    ('label last: fine label for CIFAR-100', Implies(ins, eq_goal(v.get(3072), i2f(ite(is100, ba(add(rec, 1)), ba(rec))))))]
        return None, args + [i], post
    cs.append(C('Cifar::entry', 'cifar_entry', entry))
    def meta(env):
        args, na, ba, o, is100, lab, rec, k, i = cifar_files(env)
        L = [env.lv(0) for _ in range(6)]
        def post(env, oc):
            if oc.kind != 'normal': return [('no exception', False)]
            g = [rd(env, x) for x in L]; s = oc.v.seq
            return [(nm, ieq(v, w)) for nm, v, w in zip(('size', 'entries', 'features', 'height', 'width', 'channels'), g, (10000, 10000, 3073, 32, 32, 3))] + [('labels_idx', And(ieq(s.n, 1), ieq(s.get(0), 3072)))]
        return None, args + L, post
    cs.append(C('Cifar geometry', 'cifar_meta', meta))
    def shape(env):
        args, na, ba, o, is100, lab, rec, k, i = cifar_files(env)
        def post(env, oc):
            if oc.kind != 'normal': return [('no exception', False)]
            t = oc.v.xs
            return [('shape %d' % q, ieq(t[q], ite(ieq(o, 1), (32, 32, 3)[q], (3, 32, 32)[q]))) for q in range(3)]
        return None, args, post
    cs.append(C('Cifar::shape', 'cifar_shape', shape))
    return cs
def c08(): return cifar_contracts()

# ------------------------------------------------------------------ rendering
INK = "$@B%8&WM#*oahkbdpqwmZO0QLCJUYXzcvunxrjft/\\|()1{}[]?-_+~<>i!lI;:,\"^`'. "
def ink(g):
    """character for luminance g (0..255): the table read at floor(len*g/256)"""
    q = simp(zi(mul(g, len(INK))) / 256)
    r = zi(ord(INK[-1]))
    for k in range(len(INK) - 2, -1, -1): r = z3.If(zi(q) == k, zi(ord(INK[k])), r)
    return norm(r)
def image_stream(env, need):
    f, n, b = byte_file(env, 'data')
    env.assume(le(need, n))
    return env.lv(StreamV(f, 0, False, False, True)), b
def render_post(env, o, side, lum):
    if o.kind != 'normal': return [('no exception', False)]
    s = o.v; ch = chars(s); n = length(s)
    i, j = const('row', I), const('col', I)
    w = 2 * side + 1
    inr = And(le(0, i), lt(i, side), le(0, j), lt(j, side))
    base = add(1, mul(w, i))
    want = ink(lum(add(mul(side, i), j)))
    return [('length: one line per row, two characters per pixel', ieq(n, 2 + side * w)), ('first character is a newline', ieq(ch(0), 10)), ('last character is a newline', ieq(ch(1 + side * w), 10)),
            ('row ends with a newline', Implies(And(le(0, i), lt(i, side)), ieq(ch(add(base, 2 * side)), 10))),
            ('first character of the pixel', Implies(inr, eq_goal(ch(add(base, mul(2, j))), want))),
            ('second character of the pixel', Implies(inr, eq_goal(ch(add(base, add(mul(2, j), 1))), want)))]
def chars(s):
    if isinstance(s, SeqV): return lambda i: s.get(i)
    return lambda i: schar(s, i)
def length(s): return s.n if isinstance(s, SeqV) else slen(s)
def rendering():
    cs = []
    def mn(env):
        s, b = image_stream(env, 784)
        return None, [s, 0], lambda env, o: render_post(env, o, 28, b)
    cs.append(C('MnistImage text', 'mnist_render', mn))
    def ml(env):
        s, b = image_stream(env, 1)
        def post(env, o):
            if o.kind != 'normal': return [('no exception', False)]
            return [('decimal text of the label byte', veq(o.v, b(0)))]
        return None, [s, 0], post
    def br(env):
        r, g, b = env.nat('r', 0, 256), env.nat('g', 0, 256), env.nat('b', 0, 256)
        def post(env, o):
            if o.kind != 'normal': return [('no exception', False)]
            e = simp((21 * r + 72 * g + 7 * b) / 100)
            return [('truncated weighted luminance (one below at most, from rounding)', Or(ieq(o.v, e), ieq(o.v, sub(e, 1))))]
        return None, [r, g, b], post
    def cf(env):
        s, b = image_stream(env, 3072); o = env.nat('order', 0, 2)
        lum = func('lum', I, I)
        define(lum, lambda app: [app >= 0, app <= 255])
        def model(it, this, args, decl):
            r, g, b_ = [it.use(it.read(a) if isinstance(a, LV) else a) for a in args]
            LUM = z3.Function('luminance', I, I, I, I)
            t = LUM(zi(r), zi(g), zi(b_))
            define(LUM, lambda app: [app >= 0, app <= 255])
            return t
        env.it.models['EdgeLearning::perception_brightness'] = model
        LUM = z3.Function('luminance', I, I, I, I)
        define(LUM, lambda app: [app >= 0, app <= 255])
        return None, [s, 0, o], lambda env, oc: render_post(env, oc, 32, lambda p: LUM(zi(b(p)), zi(b(add(p, 1024))), zi(b(add(p, 2048)))))
    cs.append(C('CifarImage text', 'cifar_render', cf))
    cs.append(C('perception_brightness', 'brightness', br, opts={'fp_bounds': True}))
    return cs
def c10(): return rendering()
def c09(): return [c for c in cifar_contracts() if c.name in ("Cifar::image", "Cifar::entry", "Cifar::shape")]
