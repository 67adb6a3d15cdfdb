"""Loop rule: closed-form invariants are inferred, then checked inductively (initialisation is by construction,
preservation is an obligation); a loop whose invariant cannot be established is Unsupported, never assumed."""
import z3
import terms as T
from terms import *
import values as VV
from values import *

CTX = None
UNROLL = 20000

# ------------------------------------------------------------------ polynomial helpers
def poly(t):
    """integer term -> {monomial(tuple of ids): coeff}, atoms"""
    atoms = {}
    def go(x):
        x = norm(x)
        if conc(x): return {(): int(x)} if x else {}
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in x.children():
                for m, v in go(c).items(): r[m] = r.get(m, 0) + v
            return {m: v for m, v in r.items() if v}
        if k == z3.Z3_OP_SUB:
            ch = x.children(); r = dict(go(ch[0]))
            for c in ch[1:]:
                for m, v in go(c).items(): r[m] = r.get(m, 0) - v
            return {m: v for m, v in r.items() if v}
        if k == z3.Z3_OP_UMINUS: return {m: -v for m, v in go(x.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): 1}
            for c in x.children():
                p = go(c); n = {}
                for m1, v1 in r.items():
                    for m2, v2 in p.items():
                        m = tuple(sorted(m1 + m2)); n[m] = n.get(m, 0) + v1 * v2
                r = {m: v for m, v in n.items() if v}
            return r
        atoms[x.get_id()] = x
        return {(x.get_id(),): 1}
    p = go(t)
    return p, atoms
def unpoly(p, atoms):
    r = 0
    for m, v in sorted(p.items()):
        f = v
        for a in m: f = mul(f, atoms[a])
        r = add(r, f)
    return r
def linear_in(t, it):
    """t == a*it + b with a, b free of it -> (a, b) or None"""
    t = norm(t)
    if conc(t): return 0, t
    p, atoms = poly(t)
    i = it.get_id()
    pa, pb = {}, {}
    for m, v in p.items():
        c = m.count(i)
        if c == 0: pb[m] = v
        elif c == 1:
            l = list(m); l.remove(i); pa[tuple(l)] = v
        else: return None
    a, b = unpoly(pa, atoms), unpoly(pb, atoms)
    for x in (a, b):
        if is_z(x) and any(c.get_id() == i for c in consts_of(x)): return None
    return a, b

def divmod_sym(it, a, b):
    """quotient and remainder of naturals a, b (b>0)"""
    if conc(b) and b == 1: return a, 0
    p, atoms = poly(a)
    pb, batoms = poly(b)
    atoms.update(batoms)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        q, r = {}, {}
        for m, v in p.items():
            l = list(m); ok = True
            for x in mb:
                if x in l: l.remove(x)
                else: ok = False; break
            if ok and cb > 0:
                if not l and not mb:
                    q[()] = v // cb
                    if v % cb: r[m] = v % cb
                elif v % cb == 0: q[tuple(l)] = v // cb
                else: r[m] = v
            else: r[m] = v
        q = {m: v for m, v in q.items() if v}
        Q, Rm = unpoly(q, atoms), unpoly(r, atoms)
        if conc(Rm) and conc(b):
            if 0 <= Rm < b: return Q, Rm
        if conc(Rm) and Rm == 0: return Q, 0
        if not (conc(Rm) and Rm < 0):
            T.PCDEP[0] += 1
            if it.known(And(le(0, Rm), lt(Rm, b))): return Q, Rm
    elif 2 <= len(pb) <= 4:
        # divisor a sum of monomials: take the quotient from the terms one of its monomials divides
        for mb, cb in sorted(pb.items(), key=lambda x: (-len(x[0]), x[0])):
            if not mb or cb <= 0: continue
            q = {}
            for m, v in p.items():
                l = list(m); ok = v % cb == 0
                for x in mb:
                    if x in l: l.remove(x)
                    else: ok = False; break
                if ok: q[tuple(l)] = v // cb
            Q = unpoly(q, atoms)
            pr, ra = poly(sub(a, mul(Q, b))); atoms.update(ra)
            if len(pr) > len(p): continue
            Rm = unpoly(pr, atoms)
            if conc(Rm) and Rm == 0: return Q, 0
            if not (conc(Rm) and Rm < 0):
                T.PCDEP[0] += 1
                if it.known(And(le(0, Rm), lt(Rm, b))): return Q, Rm
                if len(pr) > 1 and it.known(And(lt(Rm, 0), le(0, add(Rm, b)))): return sub(Q, 1), add(Rm, b)
    return udivmod(a, b)

# ------------------------------------------------------------------ merging sequences
def same_base(a, b): return a is b or (a.kind == b.kind and a.a is b.a)
def merge_seq(c, a, b):
    if isinstance(a, SeqV) and isinstance(b, SeqV) and not conc(c):
        n = ite(c, a.n, b.n)
        if same_base(a, b): return SeqV(n, a.kind, a.a, a.et)
        if a.kind == b.kind == 'items' and len(a.a) == len(b.a):
            return SeqV(n, 'items', [x if x is y else merge_seq(c, x, y) for x, y in zip(a.a, b.a)], a.et)
        if a.kind == 'upd' and b.kind == 'upd' and ieq(a.a[1], b.a[1]) is True:
            p = merge_seq(c, a.a[0], b.a[0])
            return SeqV(n, 'upd', (p, a.a[1], merge_seq(c, a.a[2], b.a[2])), a.et)
        if a.kind == 'rng' and b.kind == 'rng' and ieq(a.a[1], b.a[1]) is True and ieq(a.a[2], b.a[2]) is True:
            p = merge_seq(c, a.a[0], b.a[0]); fa, fb = a.a[3], b.a[3]
            return SeqV(n, 'rng', (p, a.a[1], a.a[2], lambda J: vite(c, fa(J), fb(J))), a.et)
        da, db = chain(a), chain(b)
        if da >= db and a.kind in ('upd', 'rng'):
            p = merge_seq(c, a.a[0], b)
            if a.kind == 'upd': return SeqV(n, 'upd', (p, a.a[1], vite(c, a.a[2], lazy_get(p, a.a[1]))), a.et)
            f = a.a[3]
            return SeqV(n, 'rng', (p, a.a[1], a.a[2], lambda J: vite(c, f(J), p.get(J))), a.et)
        if b.kind in ('upd', 'rng'):
            return merge_seq(Not(c), b, a)
        return vite(c, a, b)
    if isinstance(a, StructV) and isinstance(b, StructV) and a.t == b.t:
        return StructV(a.t, {k: (a.f[k] if a.f[k] is b.f[k] else merge_seq(c, a.f[k], b.f[k])) for k in a.f})
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.xs) == len(b.xs):
        return TupV([x if x is y else merge_seq(c, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, Uninit) != isinstance(b, Uninit): return UNINIT_MAYBE(a, b)
    return vite(c, a, b)
def UNINIT_MAYBE(a, b):
    # a value that may be indeterminate is treated as indeterminate (reading it is an obligation failure)
    return UNINIT
def lazy_get(p, i):
    return p.get(i)
def chain(s):
    d = 0
    while isinstance(s, SeqV) and s.kind in ('upd', 'rng'): s = s.a[0]; d += 1
    return d

# ------------------------------------------------------------------ leaves
def pkey(loc, path): return (loc, tuple((k, v if not is_z(v) else ('z', v.get_id())) for k, v in path))
def diff(h, v, loc, path, out):
    if h is v: return
    if isinstance(h, VV_ByteInt()): h = h.value()
    if isinstance(v, VV_ByteInt()): v = v.value()
    if isinstance(h, Uninit):
        if isinstance(v, Uninit): return
        out[pkey(loc, path)] = (loc, path, 'dead'); return
    if isinstance(v, Uninit):
        out[pkey(loc, path)] = (loc, path, 'dead'); return
    if h is None or v is None:
        if h is v: return
        out[pkey(loc, path)] = (loc, path, 'dead'); return
    if isscalar(h) and isscalar(v):
        if veq(h, v) is True: return
        out[pkey(loc, path)] = (loc, path, 'sc'); return
    if isinstance(h, StructV) and isinstance(v, StructV):
        if h.t != v.t: raise Unsupported('dynamic type changes in loop')
        for k in h.f: diff(h.f[k], v.f[k], loc, path + (('f', k),), out)
        return
    if isinstance(h, TupV) and isinstance(v, TupV):
        for k in range(len(h.xs)): diff(h.xs[k], v.xs[k], loc, path + (('t', k),), out)
        return
    if isinstance(h, StreamV) and isinstance(v, StreamV):
        if h.content is not v.content and not (isscalar(h.content) and isscalar(v.content) and veq(h.content, v.content) is True): raise Unsupported('stream content changes in loop')
        for k in ('pos', 'eof', 'fail', 'isopen'): diff(getattr(h, k), getattr(v, k), loc, path + (('s', k),), out)
        return
    if isinstance(h, SeqV) and isinstance(v, SeqV):
        if h.kind == 'items' and v.kind == 'items' and conc(h.n) and conc(v.n) and h.n == v.n and h.n <= 64:
            for k in range(h.n): diff(h.a[k], v.a[k], loc, path + (('i', k),), out)
            return
        if veq(h.n, v.n) is not True: out[pkey(loc, path + (('n', 0),))] = (loc, path + (('n', 0),), 'sc')
        if not same_base(h, v): out[pkey(loc, path)] = (loc, path, 'seq')
        return
    if isinstance(h, PtrV) and isinstance(v, PtrV):
        if h.lv is not None and v.lv is not None and h.lv.same(v.lv):
            if h.idx is not None and v.idx is not None:
                if ieq(h.idx, v.idx) is not True: out[pkey(loc, path + (('p', 0),))] = (loc, path + (('p', 0),), 'sc')
                return
            if h.idx is None and v.idx is None: return
        elif h.lv is None and v.lv is None: return
        out[pkey(loc, path)] = (loc, path, 'dead'); return
    if isinstance(h, RefV) and isinstance(v, RefV) and h.lv.same(v.lv): return
    if isinstance(h, FuncV) or isinstance(v, FuncV):
        return
    if isinstance(h, SeqV) and isscalar(v) or isinstance(v, SeqV) and isscalar(h):
        out[pkey(loc, path)] = (loc, path, 'seq'); return
    if isinstance(h, SetV) and isinstance(v, SetV):
        if h.s is not None and v.s is not None and h.s.eq(v.s): return
        if h.s is None and v.s is None and same_base(h.seq, v.seq): return
        out[pkey(loc, path)] = (loc, path, 'set'); return
    if isinstance(h, MapV) and isinstance(v, MapV):
        if h.keys is v.keys and h.val is v.val: return
        out[pkey(loc, path)] = (loc, path, 'map'); return
    raise Unsupported('loop changes %s' % type(h).__name__)
def VV_ByteInt():
    import interp
    return interp.ByteInt

def rd(st, loc, path):
    v = st.mem[loc]
    for k, x in path: v = CTX.step(v, k, x)
    if isinstance(v, VV_ByteInt()): v = v.value()
    return v
def CTX_read(st, loc, path):
    v = st.mem[loc]
    for k, x in path: v = CTX.step(v, k, x)
    return v
def wr(st, loc, path, v):
    st.mem[loc] = CTX.wr(st.mem[loc], path, v)

class LeafInfo:
    def __init__(self, loc, path, kind): self.loc, self.path, self.kind = loc, path, kind
    def key(self): return pkey(self.loc, self.path)
    def __repr__(self): return '%s%s:%s' % (self.loc, [x for x in self.path], self.kind)

# ------------------------------------------------------------------ the rule
def loop(it, node, cond, body, inc):
    import interp as IN
    if "'erase'" in str(node) and filter_rule(it, node, cond, body, inc): return
    count = 0
    entry = it.st.copy(); sink0 = len(it.sink); straight = True
    while True:
        if (count == 12 or count == 0 and long_loop(it, node)) and id(node) not in NOSUM and straight and not it.st.pc[len(entry.pc):]:
            # a long counted loop: try its invariant before unrolling it completely
            sv, mark = it.st, len(it.sink)
            it.st = entry.copy()
            try: return summarise(it, node, cond, body, inc)
            except Unsupported as e:
                if 'time limit' in str(e): raise
                NOSUM[id(node)] = node
                it.st = sv; del it.sink[mark:]
        # concrete unrolling as long as the condition is a literal
        sv = it.st
        probe = it.st.copy()
        it.st = probe; it.dry += 1
        try:
            outs = it.explore(lambda: simp(it.truth(cond())) if True else None)
            lit = len(outs) == 1 and outs[0].kind == 'normal' and conc(outs[0].v) and not outs[0].delta
        finally:
            it.dry -= 1; it.st = sv
        if not lit: break
        c = outs[0].v
        if c and is_forever(node): break
        it.truth(cond())
        if not c: return
        count += 1
        if count > UNROLL: raise Unsupported('unrolling limit')
        def once():
            try: body()
            except IN.ContinueEx: pass
            inc()
        try:
            os_ = it.explore(once)
            if len(os_) != 1: straight = False
            it.settle(os_)
        except IN.BreakEx: return
    return summarise(it, node, cond, body, inc)

NOSUM = {}
def long_loop(it, node):
    """a counted loop with more than 12 iterations"""
    c = node['inner'][2] if node['kind'] == 'ForStmt' else node['inner'][-2] if node['kind'] == 'WhileStmt' else None
    while c and c.get('inner') and c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): c = c['inner'][0]
    if not c or c.get('kind') != 'BinaryOperator' or c.get('opcode') not in ('<', '<=', '!=', '>', '>='): return False
    sv = it.st; it.st = it.st.copy(); it.dry += 1
    try:
        outs = it.explore(lambda: [simp(it.rv(x)) for x in c['inner']])
        if len(outs) != 1 or outs[0].kind != 'normal': return False
        a, b = outs[0].v
        return conc(a) and conc(b) and isinstance(a, int) and isinstance(b, int) and abs(a - b) > 12
    except Unsupported: return False
    finally: it.dry -= 1; it.st = sv

def is_forever(node):
    if node['kind'] == 'WhileStmt':
        c = node['inner'][-2]
        while c.get('inner') and c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'): c = c['inner'][0]
        return c['kind'] in ('CXXBoolLiteralExpr', 'IntegerLiteral')
    if node['kind'] == 'ForStmt': return not node['inner'][2]
    return False

class Bad(Exception): pass

def summarise(it, node, cond, body, inc):
    import interp as IN
    where = '%s loop@%s' % (it.where, node.get('_line', '?'))
    st0 = it.st
    line = loop_name(it, node)
    where = '%s/%s' % (it.where, line)

    def one():
        c = it.truth(cond())
        if not it.decide(simp(c)): raise IN.LoopExit()
        try: body()
        except IN.ContinueEx: pass
        inc()

    itc = const('it', I)
    def run(st, extra, dry, guess, itv, sink=None):
        sv, si = it.st, it.iters
        sd, sg, ss = it.dry, it.guess, it.sink
        it.st = st; it.iters = si + [itv]
        it.dry += 1 if dry else 0; it.guess += 1 if guess else 0
        if sink is not None: it.sink = sink
        try: return it.explore(one, extra)
        finally: it.st, it.iters, it.dry, it.guess, it.sink = sv, si, sd, sg, ss

    locs0 = set(st0.mem)
    # ---- A: which storage does the loop modify
    mods = {}
    hconsts = {}; hsets = {}; hmaps = {}
    def header_havoc():
        st = st0.copy()
        for k, lf in mods.items():
            if lf.kind == 'sc':
                b = rd(st0, lf.loc, lf.path)
                if k not in hconsts: hconsts[k] = const('h', term(b).sort())
                wr(st, lf.loc, lf.path, hconsts[k])
            elif lf.kind == 'dead': wr(st, lf.loc, lf.path, UNINIT)
            elif lf.kind == 'set':
                b = rd(st0, lf.loc, lf.path)
                if k not in hsets: hsets[k] = const('hs', set_term(b).sort())
                wr(st, lf.loc, lf.path, symset(hsets[k], b.seq.et))
            elif lf.kind == 'map':
                b = rd(st0, lf.loc, lf.path)
                if k not in hsets:
                    vs = sort_of(b.vt)
                    if vs is None: raise Unsupported('map of compound values changes in loop')
                    hsets[k] = const('hs', set_term(b.keys).sort()); hmaps[k] = func('hm', sort_of(b.keys.seq.et), vs)
                wr(st, lf.loc, lf.path, MapV(symset(hsets[k], b.keys.seq.et), lambda y, f=hmaps[k], e=sort_of(b.keys.seq.et): f(coerce(term(y), e)), b.vt))
        return st
    discover = it.guess >= 2
    for rnd in range(8):
        st = header_havoc()
        outs = run(st, [], True, True, itc)
        new = {}
        for o in outs:
            if o.kind not in ('normal', 'exit', 'break'): continue
            for loc in locs0:
                if o.st.mem[loc] is not st.mem[loc]: diff(st.mem[loc], o.st.mem[loc], loc, (), new)
        add_ = [k for k in new if k not in mods]
        conv_ = False
        for k in add_:
            mods[k] = LeafInfo(*new[k])
            if mods[k].kind == 'seq':
                b = rd(st0, mods[k].loc, mods[k].path)
                if isscalar(b): wr(st0, mods[k].loc, mods[k].path, as_seq(b)); conv_ = True
        # a sequence leaf subsumes item leaves below it
        for k in list(mods):
            lf = mods[k]
            for k2 in list(mods):
                l2 = mods[k2]
                if l2 is not lf and l2.loc == lf.loc and len(l2.path) > len(lf.path) and pkey(0, l2.path[:len(lf.path)])[1] == pkey(0, lf.path)[1]:
                    if lf.kind == 'seq' and l2.path[len(lf.path)][0] == 'n' and len(l2.path) == len(lf.path) + 1: continue
                    del mods[k2]
        if not add_ and not conv_: break
    else: raise Unsupported('loop frame not found')
    scal = {k: lf for k, lf in mods.items() if lf.kind == 'sc'}
    seqs = {k: lf for k, lf in mods.items() if lf.kind == 'seq'}
    dead = {k: lf for k, lf in mods.items() if lf.kind == 'dead'}
    sets_ = {k: lf for k, lf in mods.items() if lf.kind == 'set'}
    maps_ = {k: lf for k, lf in mods.items() if lf.kind == 'map'}

    # ---- B: closed forms of scalars
    normals = [o for o in outs if o.kind == 'normal']
    forms = {}
    if normals:
        # boolean storage whose value is decided on every path
        for o in normals:
            for k, lf in scal.items():
                v = rd(o.st, lf.loc, lf.path)
                if is_z(v) and v.sort() == B:
                    if entails(o.st.pc, v): wr(o.st, lf.loc, lf.path, True)
                    elif entails(o.st.pc, Not(v)): wr(o.st, lf.loc, lf.path, False)
        m = it.merge(normals)
        if m is None: raise Unsupported('loop paths cannot be merged')
        base = {k: rd(st0, lf.loc, lf.path) for k, lf in scal.items()}
        vals = {}
        for k, lf in scal.items():
            v = rd(m.st, lf.loc, lf.path)
            if isinstance(v, Uninit): raise Unsupported('indeterminate in loop')
            vals[k] = norm(z3.simplify(term(v), som=True)) if is_z(v) else v
        hid = {hconsts[k].get_id(): k for k in scal}
        for v in vals.values():
            if is_z(v) and (any(c.eq(h) for c in consts_of(v) for h in hsets.values()) or hmaps and any(x.decl().eq(f) for x in walk_apps([v]) for f in hmaps.values())):
                if T.OPT.get('debug'): print('   SETDEP', where, {k: (lf.loc, lf.path, vals.get(k)) for k, lf in scal.items()})
                raise Unsupported('a value depends on a set that changes in the loop')
        deps = {k: {hid[c.get_id()] for c in (consts_of(v) if is_z(v) else []) if c.get_id() in hid} for k, v in vals.items()}
        order = []
        for k in scal:
            h = hconsts[k]
            if h.sort() == I:
                d = simp(z3.simplify(term(b2i(vals[k])) - h, som=True))
                if is_z(d):
                    cs = {c.get_id() for c in consts_of(d)}
                    if cs & set(hid) or itc.get_id() in cs: d = None
                if d is not None:
                    forms[k] = ('lin', d); order.append(k)
        rest = [k for k in scal if k not in forms]
        def cval_lin(k, t): return add(b2i(base[k]), mul(forms[k][1], t))
        # a stream read piece by piece, once per iteration
        for k in list(rest):
            lf = scal[k]
            if lf.path and lf.path[-1] == ('s', 'pos') and T.is_z(vals[k]):
                b = CTX_read(st0, lf.loc, lf.path[:-1])
                pc_ = b.content
                if isinstance(pc_, TextV): pc_ = next(iter(pc_.p.values())) if len(pc_.p) == 1 else None
                if not isinstance(pc_, PiecesV): continue
                p0, e0, f0, nn, cl = b.pos, b.eof, b.fail, pc_.n, pc_.closed
                def stream_form(what, p0=p0, e0=e0, f0=f0, nn=nn, cl=cl):
                    def g(t):
                        q = add(p0, t)
                        return {'pos': ite(le(q, nn), q, nn), 'eof': Or(e0, lt(nn, q), And(lt(0, t), ieq(q, nn), Not(cl))), 'fail': Or(f0, lt(nn, q))}[what]
                    return g
                for k2 in list(rest):
                    l2 = scal[k2]
                    if l2.loc == lf.loc and pkey(0, l2.path[:-1])[1] == pkey(0, lf.path[:-1])[1] and l2.path[-1] in (('s', 'pos'), ('s', 'eof'), ('s', 'fail')):
                        forms[k2] = ('fn', stream_form(l2.path[-1][1])); rest.remove(k2); order.append(k2)
        ch = True
        while ch:
            ch = False
            for k in list(rest):
                if deps[k] <= set(forms):
                    forms[k] = ('last', vals[k]); rest.remove(k); ch = True; order.append(k)
        bound = []
        def early_trip():
            """trip count when the loop condition only depends on linear counters"""
            if not bound:
                sv = it.st; st = header_havoc(); bound.append(None)
                for k2, lf in scal.items():
                    if forms.get(k2, ('',))[0] == 'lin': wr(st, lf.loc, lf.path, cval_lin(k2, itc))
                it.st = st; it.st.pc.append(itc >= 0); it.dry += 1
                try:
                    os_ = it.explore(lambda: simp(it.truth(cond())))
                    if len(os_) == 1 and os_[0].kind == 'normal':
                        c = os_[0].v
                        if not is_z(c) or not any(x.get_id() in hid and forms.get(hid[x.get_id()], ('',))[0] != 'lin' for x in consts_of(c)): bound[0] = closed_trip(it, c, itc)
                except (Unsupported, IN.Ctl): pass
                finally: it.dry -= 1; it.st = sv
            return bound[0]
        for k in list(rest):
            if hconsts[k].sort() != I or not is_z(vals[k]) or not deps[k] <= set(k2 for k2 in forms if forms[k2][0] == 'lin') | {k}: continue
            d = T._delta(vals[k], hconsts[k])
            if d is None: continue
            d = z3.simplify(subst(d, [(hconsts[q], term(cval_lin(q, itc))) for q in deps[k] if q != k]))
            if not (z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(x) for x in d.children()[1:]) and sorted(x.as_long() for x in d.children()[1:]) == [0, 1]): continue
            N0 = early_trip()
            if N0 is None or is_z(N0) and any(x.eq(itc) for x in consts_of(N0)): continue
            p = d.arg(0) if d.arg(1).as_long() == 1 else z3.Not(d.arg(0))
            forms[k] = ('count', set_by(('int', 64, False), lambda x: And(le(0, x), lt(x, N0), norm(z3.simplify(z3.substitute(p, (itc, zi(x))))))).s)
            rest.remove(k)
        if rest:
            # conditionals decided by the loop condition
            lin = [(hconsts[q], cval_lin(q, itc)) for q in scal if forms.get(q, ('',))[0] == 'lin']
            hyp = [itc >= 0] + [subst(p, lin) for p in m.st.pc if is_z(p)]
            for k in rest:
                for _ in range(3):
                    if not is_z(vals[k]): break
                    pr = []
                    for x in walk_apps([vals[k]]):
                        if x.decl().kind() != z3.Z3_OP_ITE or any(c.get_id() in hid and forms.get(hid[c.get_id()], ('',))[0] != 'lin' for c in consts_of(x.arg(0))): continue
                        c = subst(x.arg(0), lin)
                        if entails(hyp, c, timeout=1000): pr.append((x, x.arg(1)))
                        elif entails(hyp, z3.Not(c), timeout=1000): pr.append((x, x.arg(2)))
                    if not pr: break
                    vals[k] = norm(z3.simplify(z3.substitute(vals[k], *pr), som=True))
        for k in rest: forms[k] = ('fold', None)
        def cval(k, t):
            f = forms[k]; x0 = base[k]; h = hconsts[k]
            if f[0] == 'lin': return add(b2i(x0), mul(f[1], t))
            if f[0] == 'fn': return f[1](t)
            if f[0] == 'count': return add(b2i(x0), __import__('sets').theory(I).LB(f[1], zi(t)))
            if f[0] == 'last':
                tm = sub(t, 1)
                c = lt(0, t)
                if c is False: return x0
                pr = [(hconsts[d], cval(d, tm)) for d in deps[k]] + [(itc, tm)]
                v = simp(subst(f[1], pr)) if is_z(f[1]) else f[1]
                return ite(c, v, x0)
            return folds(t)[rest.index(k)]
        def folds(t):
            def step(accs, kk):
                out = []
                need = set().union(*[deps[k] for k in rest]) - set(rest)
                pr = [(hconsts[d], cval(d, kk)) for d in need] + [(hconsts[k], a) for k, a in zip(rest, accs)] + [(itc, kk)]
                for k in rest: out.append(term(subst(term(vals[k]), pr)))
                return out
            return mk_fold([base[k] for k in rest], step, t, sorts=[hconsts[k].sort() for k in rest])
    else:
        base = {}
        def cval(k, t): return rd(st0, scal[k].loc, scal[k].path)

    setform = {}
    if normals:
        for k, lf in sets_.items():
            b = rd(st0, lf.loc, lf.path); v = rd(m.st, lf.loc, lf.path)
            setform[k] = set_form(it, b, v, hsets[k], lambda t: [(hconsts[q], term(cval(q, t))) for q in scal], itc, hconsts, set(hc.get_id() for hc in hsets.values()))
        for k, lf in maps_.items():
            b = rd(st0, lf.loc, lf.path); v = rd(m.st, lf.loc, lf.path)
            setform[k] = map_form(it, b, v, hsets[k], hmaps[k], lambda t: [(hconsts[q], term(cval(q, t))) for q in scal], itc, set(hc.get_id() for hc in hsets.values()))
    seqform = {}
    def C(t):
        """state at the loop head after t iterations"""
        st = st0.copy()
        for k, lf in seqs.items():
            if lf.path and False: pass
            b = as_seq(rd(st0, lf.loc, lf.path))
            f = seqform.get(k)
            wr(st, lf.loc, lf.path, f(b, t) if f else b)
        for k, lf in scal.items(): wr(st, lf.loc, lf.path, cval(k, t))
        for k, lf in dead.items():
            wr(st, lf.loc, lf.path, UNINIT)
        for k, lf in sets_.items():
            if k in setform: wr(st, lf.loc, lf.path, setform[k](t))
        for k, lf in maps_.items():
            if k in setform: wr(st, lf.loc, lf.path, setform[k](t))
        return st

    # ---- B2: closed forms of sequences
    cand = {k: [] for k in seqs}
    if seqs and normals:
        hobj = {}
        stq = C(itc)
        for k, lf in seqs.items():
            b = as_seq(rd(stq, lf.loc, lf.path))
            hobj[k] = SeqV(b.n, 'fn', (lambda i, b=as_seq(rd(st0, lf.loc, lf.path)): b.get(i)), b.et)
            wr(stq, lf.loc, lf.path, hobj[k])
        outq = [o for o in run(stq, [itc >= 0], True, False, itc) if o.kind == 'normal']
        if outq:
            mq = it.merge(outq)
            if mq is None: raise Unsupported('loop paths cannot be merged')
            svst = it.st; it.st = outq[0].st if len(outq) == 1 else mq.st
            try:
                for k, lf in seqs.items():
                    if rd(mq.st, lf.loc, lf.path) is hobj[k]: cand[k].append(same_form()); continue
                    ls = layers(rd(mq.st, lf.loc, lf.path), hobj[k])
                    if ls is not None:
                        f = p1_form(it, ls, itc, as_seq(rd(st0, lf.loc, lf.path))) or perm_form(it, ls, itc) or count_form(it, ls, itc) or elem_form(it, ls, itc) or sum_form(it, ls, itc)
                        if f is not None: cand[k].append(f)
            finally: it.st = svst
        # pointwise folds
        elem_sorts = {k: sort_of(as_seq(rd(st0, lf.loc, lf.path)).et) for k, lf in seqs.items()}
        if not all(cand[k] for k in seqs) or True:
            def p2_builder(k, lf, opaque=False):
                def build():
                    stp = C(itc)
                    b0 = as_seq(rd(st0, lf.loc, lf.path)); nn = as_seq(rd(stp, lf.loc, lf.path)).n
                    s = elem_sorts[k]
                    if s is None: return None
                    H = func('H', I, s)
                    ho = SeqV(nn, 'fn', (lambda i: H(zi(i))), b0.et)
                    wr(stp, lf.loc, lf.path, ho)
                    os_ = [o for o in run(stp, [itc >= 0], True, False, itc) if o.kind == 'normal']
                    if not os_: return None
                    mp = it.merge(os_)
                    if mp is None: return None
                    return p2_form(it, rd(mp.st, lf.loc, lf.path), ho, H, itc, b0, mp.st, opaque)
                return build
            for k, lf in seqs.items():
                ops = (False, True)
                try:
                    ls = layers(rd(mq.st, lf.loc, lf.path), hobj[k]) if outq else None
                    if ls and any(is_z(lo) and any(x.decl().name() in ('udiv', 'umod') and not free_of(x, itc) for x in walk_apps([zi(lo)])) for g, lo, hi, f in ls): ops = (True, False)
                except Exception: pass
                for op in ops: cand[k].append(p2_builder(k, lf, op))
                # the contract may say that an array is accumulated cell by cell (a fold per index); it still has to be preserved
                if it.form_hints and lf.path and lf.path[-1][1] in it.form_hints: cand[k] = [p2_builder(k, lf, True)]
            for k, lf in seqs.items():
                hv = havoc_form(it, as_seq(rd(st0, lf.loc, lf.path)))
                if hv is not None and not (it.form_hints and lf.path and lf.path[-1][1] in it.form_hints): cand[k].append(hv)

    # ---- C: inductive check
    def check(final):
        """run one iteration from the closed form; prove the closed form is preserved"""
        st = C(itc)
        tmp = []
        outs = run(st, [itc >= 0], not final, False, itc, sink=tmp)
        goals = []
        nxt = C(add(itc, 1))
        for o in outs:
            if o.kind != 'normal': continue
            for loc in locs0:
                if o.st.mem[loc] is not nxt.mem[loc]:
                    ch = {}
                    try: diff(nxt.mem[loc], o.st.mem[loc], loc, (), ch)
                    except Unsupported: raise Bad('unmodelled change')
                    for kk, (l, p, kd) in ch.items():
                        if any(d.loc == l and pkey(0, d.path)[1] == pkey(0, p)[1] for d in dead.values()): continue
                        a, b = rd(nxt, l, p), rd(o.st, l, p)
                        if isinstance(a, Uninit): raise Bad('indeterminate')
                        pars = None
                        for kq, lf in seqs.items():
                            if lf.loc == l and pkey(0, lf.path)[1] == pkey(0, p)[1]: pars = getattr(seqform.get(kq), 'stride', None)
                        if any(lf.loc == l and pkey(0, p[:len(lf.path)])[1] == pkey(0, lf.path)[1] and getattr(seqform.get(kq), 'havoc', False) for kq, lf in seqs.items()): continue
                        own = [kq for kq, lf in seqs.items() if lf.loc == l and pkey(0, p[:len(lf.path)])[1] == pkey(0, lf.path)[1]]
                        goals.append((o.st.pc, eq_leaf(it, a, b, o.st, pars), own[0] if own else None))
        for pc, g, own in goals:
            if isinstance(g, tuple): pc, g = list(pc) + g[0], g[1]
            if g is False: e = Bad('not preserved'); e.seq = own; raise e
            svst = it.st
            ok = entails(pc, g, timeout=T.OPT.get('inv_timeout', 3000)) if it.guess or it.dry else prove(pc, g, timeout=T.OPT.get('inv_timeout', 5000), cvc5=None)[0] == 'proved'
            if not ok and (it.guess or it.dry): ok = prove(pc, g, timeout=T.OPT.get('inv_timeout', 5000), cvc5=None)[0] == 'proved'
            if not ok:
                if T.OPT.get('debug'): print('   NOT PRESERVED', where, g); T.OPT['last'] = (pc, g)
                e = Bad('not preserved'); e.seq = own; raise e
        return tmp, len(goals)

    if it.guess >= 1 or not normals:
        for k in seqs:
            seqform[k] = None
            for c in cand[k]:
                f = c() if not hasattr(c, 'form') else c
                if f is not None: seqform[k] = f; break
            if normals and seqform[k] is None: raise Unsupported('sequence update in loop')
        pres = 0
    else:
        keys = list(seqs)
        tried = 0
        import itertools as itl
        ok = False; err = None
        lists = []
        for k in keys: lists.append(list(range(len(cand[k]))))
        built = {}
        def form(k, ci):
            if (k, ci) not in built:
                c = cand[k][ci]
                built[(k, ci)] = c if hasattr(c, 'form') else c()
            return built[(k, ci)]
        def guided():
            # move on to the next form of the sequence whose form was not preserved
            at = {k: 0 for k in keys}
            while True:
                for k in keys:
                    while at[k] < len(cand[k]) and form(k, at[k]) is None: at[k] += 1
                    if at[k] >= len(cand[k]): return
                yield tuple(at[k] for k in keys)
                k = getattr(err, 'seq', None)
                if k is None and len(keys) == 1: k = keys[0]
                if k is None: return
                at[k] += 1
        seen = set()
        for combo in itl.chain(guided(), itl.product(*lists)):
            if combo in seen: continue
            seen.add(combo)
            good = True
            for k, ci in zip(keys, combo):
                f = form(k, ci)
                if f is None: good = False; break
                seqform[k] = f
            if not good: continue
            tried += 1
            if tried > 10: break
            try:
                tmp, pres = check(not it.dry)
                ok = True; break
            except Bad as e: err = e
        if not ok: raise Unsupported('no loop invariant found for %s (%s)' % (where, err))
        if not it.dry:
            for o in tmp: it.sink.append(o)
            for i in range(pres): it.sink.append(('%s/invariant preserved' % where, 'invariant', None, True))

    # ---- D: number of iterations and exit
    stc = C(itc)
    N = trip(it, cond, stc, itc, outs_kinds(outs), run, where)
    stN = C(N)
    if it.fold_bounds:
        for k in scal: stN.pc += bound_lemmas(it, st0.pc, rd(stN, scal[k].loc, scal[k].path))
    if dead and normals:
        # value left by the last iteration, when there certainly was one
        if it.known(lt(0, N)):
            tm = sub(N, 1)
            os_ = [o for o in run(C(tm), [], True, bool(it.guess), tm) if o.kind == 'normal']
            m = it.merge(os_) if os_ else None
            if m is not None:
                for k, lf in dead.items():
                    v = rd(m.st, lf.loc, lf.path)
                    if not has_local(v, locs0): wr(stN, lf.loc, lf.path, v)
                for f in m.delta:
                    stN.pc.append(f)
    ex = run(stN, [le(0, N)], True, False, N)
    final = []
    n0 = len(it.st.pc)
    for o in ex:
        if o.kind == 'normal': continue
        final.append(IN.Outcome('normal' if o.kind in ('exit', 'break') else o.kind, o.v, o.st, o.st.pc[n0:]))
    if not final: raise IN.Infeasible()
    it.loopinfo.append((where, len(seqs), len(scal)))
    it.settle(final)

def has_local(v, locs):
    if isinstance(v, PtrV) and v.lv is not None: return v.lv.loc not in locs
    return False

def outs_kinds(outs): return {o.kind for o in outs}

def loop_name(it, node):
    """name of a loop: its ordinal inside its function (stable under edits elsewhere)"""
    fn = it.frame.fn
    if fn is None: return 'loop'
    if '_loops' not in fn:
        ids = []
        def go(n):
            if not n: return
            if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'): ids.append(id(n))
            for c in n.get('inner', []): go(c)
        go(fn); fn['_loops'] = ids
    return 'loop%d' % fn['_loops'].index(id(node)) if id(node) in fn['_loops'] else 'loop'

def as_seq(v):
    import interp
    return interp.seq_of_str(v) if isscalar(v) else v
def b2i(v):
    import interp
    return interp.b2i(v)

def eq_leaf(it, a, b, st, stride):
    """goal a == b, with index skolems written as base + q*stride + r when the stride is symbolic"""
    if isinstance(a, SeqV) or isinstance(b, SeqV):
        a, b = as_seq(a), as_seq(b)
        j = const('sk!j', I); pc = []
        J = j
        if stride is not None and not (conc(stride[0]) and stride[0] == 1):
            s, b0 = stride
            q, r = const('sk!q', I), const('sk!r', I)
            J = add(b0, add(mul(q, s), r))
            pc = [le(0, r), lt(r, s)]
        sv = it.st
        it.st = st.copy(); it.st.pc += [p for p in pc if is_z(p)] + [z3.And(zi(J) >= 0, zi(J) < zi(a.n))]
        try:
            va, vb = a.get(J), b.get(J)
            g = eq_goal(va, vb)
            extra = it.st.pc[len(st.pc):]
        finally: it.st = sv
        lenok = ieq(a.n, b.n)
        if lenok is True: return (extra, g)
        return ([p for p in pc if is_z(p)], And(lenok, Implies(And(le(0, J), lt(J, a.n)), g)))
    return eq_goal(a, b)

def set_form(it, base, after, H, scpairs, itc, hconsts, hids):
    """contents of a set after t iterations, from the effect of one iteration on an arbitrary set H"""
    import sets
    th = sets.BYSORT[str(H.sort())]; et = base.seq.et
    X = z3.Const('set!Y!' + str(th.e), th.e)
    phi = zb(after.has(X))
    for _ in range(8):
        pr = []
        for a in walk_apps([phi]):
            if a.decl().eq(th.MEM) and not a.arg(0).eq(H):
                d = sets.definition(a.arg(0), a.arg(1))
                if d is not None: pr.append((a, d))
        if not pr: break
        phi = z3.substitute(phi, *pr)
    acc = const('acc', B)
    phi = z3.simplify(z3.substitute(phi, (th.MEM(H, X), acc)))
    if any(c.get_id() in hids for c in consts_of(phi)): raise Unsupported('set update depends on the set')
    # only insertions of one value whose position is the iteration number: closed form without recursion
    def at(x, k): 
        pr = [(X, coerce(term(x), th.e)), (itc, zi(k))] + [(h, coerce(v, h.sort())) for h, v in scpairs(k)]
        return z3.substitute(phi, *pr)
    cond1 = z3.simplify(z3.substitute(phi, (acc, z3.BoolVal(False))))
    if th.e == I and z3.is_true(z3.simplify(z3.substitute(phi, (acc, z3.BoolVal(True))))):
        body = norm(z3.simplify(z3.substitute(cond1, *[(h, coerce(v, h.sort())) for h, v in scpairs(itc)])) if scpairs(itc) else cond1)
        eqs = [c for c in ([body] if not z3.is_and(body) else body.children()) if is_z(c) and z3.is_eq(c) and c.arg(0).sort() == I and any(z.eq(X) for z in consts_of(c))] if is_z(body) else []
        for e in eqs:
            d = linear_in(simp(z3.simplify(e.arg(0) - e.arg(1), som=True)), X)
            if d is None or not (conc(d[0]) and abs(d[0]) == 1): continue
            v = mul(-d[0], d[1])           # the inserted value, as a function of the iteration
            l = linear_in(v, itc)
            if l is None or not (conc(l[0]) and l[0] == 1): continue
            def form(t, b=l[1], body=body):
                def pred(x):
                    k = sub(x, b)
                    return Or(base.has(x), And(le(0, k), lt(k, t), norm(z3.simplify(z3.substitute(body, (itc, zi(k)), (X, zi(x)))))))
                return base if conc(t) and t == 0 else set_by(et, pred)
            return form
    def form(t):
        if conc(t) and t == 0: return base
        def pred(x): return mk_fold([zb(base.has(x))], lambda a, k: [z3.substitute(at(x, k), (acc, a[0]))], t, sorts=[B])[0]
        return set_by(et, pred)
    return form

def elem_of(phi, itc):
    """the set whose elements the iterations run through: s when phi reads ELEM(s, it)"""
    import sets
    r = []
    for a in walk_apps([phi]):
        d = sets.DECL.get(a.decl().get_id())
        if d is not None and d[1] == 'elem' and a.arg(1).eq(itc) and free_of(a.arg(0), itc) and not any(a.arg(0).eq(x) for x in r): r.append(a.arg(0))
    return r[0] if len(r) == 1 else None
def map_form(it, base, after, H, hm, scpairs, itc, hids):
    """contents of a map after t iterations when iteration k assigns the k-th element of a set"""
    import sets
    ks = sort_of(base.keys.seq.et); Y = z3.Const('map!Y!' + str(ks), ks); th = sets.theory(ks)
    phi = zb(after.keys.has(Y))
    for _ in range(8):
        pr = [(a, sets.definition(a.arg(0), a.arg(1))) for a in walk_apps([phi]) if a.decl().eq(th.MEM) and not a.arg(0).eq(H)]
        pr = [x for x in pr if x[1] is not None]
        if not pr: break
        phi = z3.substitute(phi, *pr)
    sc = [(h, coerce(v, h.sort())) for h, v in scpairs(itc)]
    val = term(after.val(Y))
    if sc: phi, val = [z3.simplify(z3.substitute(x, *sc)) for x in (phi, val)]
    s = elem_of(phi, itc)
    if s is None or s.sort() != th.sort: raise Unsupported('map update in loop')
    k = th.RANK(s, Y)
    # at the iteration that assigns Y the key is Y
    phi1 = norm(z3.simplify(z3.substitute(z3.substitute(phi, (th.ELEM(s, itc), Y), (th.MEM(H, Y), z3.BoolVal(False))), (itc, k))))
    v1 = z3.substitute(val, (th.ELEM(s, itc), Y), (hm(Y), coerce(term(base.val(Y)), hm.range())), (th.MEM(H, Y), zb(base.keys.has(Y))))
    v1 = norm(z3.simplify(z3.substitute(v1, (itc, k))))
    for x in (phi1, v1):
        if is_z(x) and (any(c.get_id() in hids for c in consts_of(x)) or any(a.decl().eq(hm) for a in walk_apps([x]))): raise Unsupported('map update depends on the map')
    def form(t):
        if conc(t) and t == 0: return base
        def done(y): y = coerce(term(y), ks); return And(th.MEM(s, y), lt(th.RANK(s, y), t), norm(z3.substitute(phi1, (Y, y))) if is_z(phi1) else phi1)
        keys = set_by(base.keys.seq.et, lambda y: Or(base.keys.has(y), done(y)))
        return MapV(keys, lambda y: vite(done(y), norm(z3.substitute(v1, (Y, coerce(term(y), ks)))) if is_z(v1) else v1, base.val(y)), base.vt)
    return form

def filter_rule(it, node, cond, body, inc):
    """for (p = s.begin(); p != s.end();) drop-or-advance: the set keeps exactly the elements the body does not drop.
    Proof rule: the body is executed once on an arbitrary set and position; induction is on the elements not yet visited."""
    import interp as IN, sets
    st0 = it.st
    cur = [(loc, v) for loc, v in st0.mem.items() if isinstance(v, PtrV) and v.lv is not None and v.idx is not None and conc(v.idx) and v.idx == 0 and isinstance(quiet(it, v.lv), SetV)]
    cur = [(loc, v) for loc, v in cur if any(loc == x.loc for x in it.frame.env.values() if isinstance(x, LV))]
    if len(cur) != 1: return False
    (loc, p), = cur
    base = it.read(p.lv); et = base.seq.et; th = sets.theory(sort_of(et))
    H = const('hs', th.sort); h = const('h', I); e = th.ELEM(H, h)
    st = st0.copy(); sv = it.st
    it.st = st; it.write(p.lv, symset(H, et)); st.mem[loc] = PtrV(p.lv, h)
    st.pc += [h >= 0, h < th.CARD(H)]
    n0 = len(st.pc)
    def one():
        if not it.decide(simp(it.truth(cond()))): raise IN.LoopExit()
        try: body()
        except IN.ContinueEx: pass
        inc()
    if it.guess: it.st = sv; raise Unsupported('filter loop')
    try:
        outs = it.explore(one)
        drop = []
        X = z3.Const('set!Y!' + str(th.e), th.e)
        for o in outs:
            if o.kind != 'normal': return False
            for l2, v2 in o.st.mem.items():
                if l2 in st.mem and l2 not in (loc, p.lv.loc) and v2 is not st.mem[l2]: return False
            np_ = o.st.mem[loc]; sv2 = it.st; it.st = o.st; ns = it.read(p.lv); it.st = sv2
            if not isinstance(np_, PtrV) or not np_.lv.same(p.lv): return False
            c = And(*[d for d in o.delta if not T.marked(d) and not entails(st.pc, d)])
            x = const('sk!x', th.e)
            def same_at(v, d):
                if is_z(v) and v.decl().kind() == z3.Z3_OP_ITE:
                    q = v.children(); return ite(q[0], same_at(q[1], d), same_at(q[2], d))
                return ieq(simp(z3.simplify(zi(v) - h, som=True)), d)
            stay, adv = same_at(np_.idx, 0), same_at(np_.idx, 1)
            if is_z(stay): stay = norm(z3.simplify(zb(stay)))
            if not entails(o.st.pc, Or(stay, adv)): return False
            if not entails(o.st.pc, Implies(stay, veq(ns.has(x), And(th.MEM(H, x), x != e)))): return False
            if not entails(o.st.pc, Implies(Not(stay), veq(ns.has(x), th.MEM(H, x)))): return False
            c = And(c, stay)
            c = z3.substitute(zb(c), (e, X))
            if any(q.eq(H) or q.eq(h) for q in consts_of(c)): return False
            drop.append(norm(c))
        it.st = st0.copy(); it.write(p.lv, symset(H, et)); it.st.mem[loc] = PtrV(p.lv, th.CARD(H))
        ex = it.explore(lambda: simp(it.truth(cond())))
        if len(ex) != 1 or ex[0].kind != 'normal' or not (ex[0].v is False or is_z(ex[0].v) and entails(ex[0].st.pc, Not(ex[0].v))): return False
    finally: it.st = sv
    D = Or(*drop)
    res = set_by(et, lambda x: And(base.has(x), Not(norm(z3.substitute(D, (X, term(x)))) if is_z(D) else D)))
    it.write(p.lv, res); it.st.mem[loc] = PtrV(p.lv, res.seq.n)
    it.loopinfo.append((it.where + '/' + loop_name(it, node), 1, 1))
    if not it.dry: it.sink.append(('%s/%s filter' % (it.where, loop_name(it, node)), 'invariant', None, True))
    return True
def quiet(it, lv):
    try: return it.read(lv)
    except Unsupported: return None

# ------------------------------------------------------------------ sequence updates of one iteration
def layers(s, H):
    """writes applied on top of H, bottom first: (guard, lo, hi, fn) ; None when not of this shape"""
    s = as_seq(s)
    if same_base(s, H): return []
    if s.kind == 'upd':
        p = layers(s.a[0], H)
        if p is None: return None
        i, v = s.a[1], s.a[2]
        return p + [(True, i, add(i, 1), (lambda J, v=v: v))]
    if s.kind == 'rng':
        p = layers(s.a[0], H)
        if p is None: return None
        return p + [(True, s.a[1], s.a[2], s.a[3])]
    if s.kind == 'ite':
        c, x, y = s.a
        lx, ly = layers(x, H), layers(y, H)
        if lx is None or ly is None: return None
        return [(And(c, g), lo, hi, f) for g, lo, hi, f in lx] + [(And(Not(c), g), lo, hi, f) for g, lo, hi, f in ly]
    return None

def free_of(t, c):
    return not is_z(t) or all(not x.eq(c) for x in consts_of(t))

def p1_form(it, ls, itc, base):
    """each iteration writes its own region [a*it+b, a*it+b+len)"""
    if not ls: return None
    info = []
    def res(x): return T.resolve_ites(it.st.pc, simp(x)) if is_z(x) and any(a.decl().kind() == z3.Z3_OP_ITE for a in walk_apps([x])) else x
    for g, lo, hi, f in ls:
        lo, hi = res(lo), res(hi)
        l = linear_in(lo, itc)
        if l is None: return None
        ln = sub(hi, lo)
        if not free_of(ln, itc): return None
        info.append((g, l[0], l[1], ln, f))
    a = info[0][1]
    if conc(a) and a == 0: return None
    for x in info[1:]:
        if ieq(a, x[1]) is not True: return None
    neg = False
    if conc(a):
        if a < 0: neg = True
    elif not it.known(le(0, a)):
        return None      # (a == 0 makes the region empty)
    if neg:
        if len(info) != 1 or info[0][3] != 1: return None
        g, _, b0, ln, f = info[0]; s = -a
        def form(bs, t):
            def val(J):
                q, r = divmod_sym(CTX, sub(b0, J), s)
                v = vsubst(f(J), [(itc, q)])
                c = ieq(r, 0)
                gg = subst(g, [(itc, zi(q))]) if is_z(g) else g
                c = And(c, gg)
                return v if c is True else vite(c, v, bs.get(J))
            return bs.rng(add(sub(b0, mul(s, t)), 1) if s == 1 else add(sub(b0, mul(s, t)), 1), add(b0, 1), val)
        form.form = True; form.stride = (s, b0)
        return form
    # smallest offset first
    b0 = info[0][2]
    offs = []
    for x in info:
        d = sub(x[2], b0)
        offs.append(d)
    if any(not (conc(d)) for d in offs):
        # region bases differ by symbolic amounts: order by entailment
        best = 0
        for i in range(1, len(info)):
            if it.known(le(info[i][2], info[best][2])): best = i
        b0 = info[best][2]
        for x in info:
            if not it.known(le(b0, x[2])): return None
    else:
        m = min(offs); b0 = info[offs.index(m)][2]
    whole = len(info) == 1 and info[0][0] is True and ieq(info[0][3], a) is True
    # every region inside the iteration's own block [a*it+b0, a*it+b0+a): one division finds the iteration
    block = len(info) > 1 and any(not conc(d) for d in offs) and all(it.known(le(add(sub(x[2], b0), x[3]), a)) for x in info)
    def form(bs, t):
        def val(J):
            out = None
            def getbase(): return bs.get(J)
            res = None
            for g, _, b, ln, f in info:
                q, r = divmod_sym(CTX, sub(J, b0 if block else b), a)
                v = vsubst(f(J), [(itc, q)])
                gg = subst(g, [(itc, zi(q))]) if is_z(g) else g
                if block: c = And(le(sub(b, b0), r), lt(r, add(sub(b, b0), ln)), gg)
                else: c = And(True if whole else lt(r, ln), gg)
                if not whole and not block and not (conc(sub(b, b0)) and sub(b, b0) == 0): c = And(c, le(b, J))
                if c is True: res = v
                else:
                    c = simp(c)
                    if c is True: res = v
                    elif c is False: res = res
                    else: res = vite(c, v, res if res is not None else getbase())
            return res if res is not None else getbase()
        return bs.rng(b0, add(b0, mul(a, t)), val)
    form.form = True; form.stride = (a, b0)
    return form

def perm_form(it, ls, itc):
    """each iteration writes its own block, blocks addressed through a permutation of the iterations: [a*p(it)+b, a*p(it)+b+a)"""
    if len(ls) != 1 or ls[0][0] is not True: return None
    _, lo, hi, f = ls[0]
    if not T.PERM: return None
    if is_z(lo): lo, hi = [T.resolve_ites(it.st.pc, simp(x)) if is_z(x) else x for x in (lo, hi)]
    ps = [x for x in walk_apps([lo]) if x.decl().get_id() in T.PERM and x.arg(0).eq(itc)] if is_z(lo) else []
    if len(ps) != 1: return None
    P = ps[0]; inv = T.PERM[P.decl().get_id()]; p = const('pp', I)
    l = linear_in(z3.substitute(lo, (P, p)), p)
    if l is None or not free_of(l[0], itc) or not free_of(l[1], itc): return None
    a, b = l
    if ieq(sub(hi, lo), a) is not True or not it.known(le(0, a)): return None
    def form(bs, t):
        def val(J):
            q, r = divmod_sym(CTX, sub(J, b), a)
            k = inv(zi(q))
            v = vsubst(vsubst(f(J), [(P, zi(q))]), [(itc, k)])
            return vite(And(le(b, J), lt(0, a), le(0, k), lt(k, t), ieq(P.decl()(k), q)), v, bs.get(J))
        M = T.PERM_RANGE.get(P.decl().get_id())
        if M is not None: return bs.rng(b, add(b, mul(a, M)), val)
        return bs.rng(0, bs.n, val)
    form.form = True; form.stride = (a, b)
    return form

def count_form(it, ls, itc):
    """the iterations that satisfy a condition write consecutive positions: [LB(S, it)+b, +1) when S has it"""
    import sets
    if len(ls) != 1: return None
    g, lo, hi, f = ls[0]
    if not is_z(lo) or ieq(sub(hi, lo), 1) is not True: return None
    th = sets.theory(I)
    for x in walk_apps([lo]):
        if not (x.decl().eq(th.LB) and x.arg(1).eq(itc) and free_of(x.arg(0), itc)): continue
        b = sub(lo, x); S = x.arg(0)
        if not free_of(b, itc): continue
        def form(bs, t):
            return bs.rng(b, add(b, th.LB(S, zi(t))), lambda J: vsubst(f(J), [(itc, th.ELEM(S, zi(sub(J, b))))]))
        form.form = True; form.stride = None
        return form
    return None
def elem_form(it, ls, itc):
    """iteration k writes position elem(S, k) + b: the positions written are the elements of a set"""
    import sets
    if len(ls) != 1 or ls[0][0] is not True or not is_z(ls[0][1]) or ieq(sub(ls[0][2], ls[0][1]), 1) is not True: return None
    lo, f = ls[0][1], ls[0][3]; th = sets.theory(I)
    if any(a.decl().kind() == z3.Z3_OP_ITE for a in walk_apps([lo])): lo = T.resolve_ites(it.st.pc, simp(lo))
    for x in walk_apps([lo]):
        if not (x.decl().eq(th.ELEM) and x.arg(1).eq(itc) and free_of(x.arg(0), itc)): continue
        b = sub(lo, x); S = x.arg(0)
        if not free_of(b, itc): continue
        def form(bs, t):
            def v(J):
                y = zi(sub(J, b)); return vite(And(th.MEM(S, y), lt(th.RANK(S, y), t)), vsubst(vsubst(f(J), [(x, y)]), [(itc, th.RANK(S, y))]), bs.get(J))
            return bs.rng(0, bs.n, v)
        form.form = True; form.stride = None
        return form
    return None
def sum_form(it, ls, itc):
    """iterations write consecutive blocks of varying length: block i starts at b + F(i) for a sum F of the lengths"""
    if not ls or not is_z(ls[0][1]): return None
    for x in walk_apps([ls[0][1]]):
        e = FOLDS.get(x.decl().get_id())
        if e is None or not x.children()[-1].eq(itc) or not T.is_sum(e[0]): continue
        F, _ = e; ch = x.children()
        if not (z3.is_int_value(ch[-2]) and ch[-2].as_long() == 0) or not all(free_of(c, itc) for c in ch[:-1]): continue
        b = sub(ls[0][1], x)
        if not free_of(b, itc) or len(ls) != 1 or ls[0][0] is not True: continue
        f = ls[0][3]; loc = T.locator(F)
        def at(t): return T.fold_app(F, 0, ch[:-2], [ch[-2]], zi(t))
        def form(bs, t):
            def val(J):
                q = sub(J, b); i = None
                if is_z(q):
                    for y in walk_apps([q]):
                        if y.decl().eq(x.decl()) and all(u.eq(v) for u, v in zip(y.children()[:-1], ch[:-1])):
                            j = y.children()[-1]; o = sub(q, y)
                            if CTX.known(And(le(0, j), le(0, o), lt(q, at(add(j, 1))))): i = j; break
                if i is None: i = loc(*(ch[:-2] + [zi(q)]))
                return vsubst(f(J), [(itc, i)])
            return bs.rng(b, add(b, at(t)), val)
        form.form = True; form.stride = None
        return form
    return None

def havoc_form(it, b):
    """no closed form: the contents at the loop head are some function of the iteration (nothing is claimed about it)"""
    args = list(it.iters)
    try:
        nf = func('hv.n', *([I] * (len(args) + 1) + [I]))
        fam = VV._fam(b.et, 'hv.e', len(args) + 2, it.rec_fields)
    except Unsupported: return None
    define(nf, lambda app: [app >= 0])
    def form(bs, t):
        if conc(t) and t == 0: return bs
        a = [zi(x) for x in args] + [zi(t)]
        new = SeqV.fn(nf(*a), lambda j: fam(a + [zi(j)]), bs.et)
        return vite(simp(ieq(t, 0)), bs, new)
    form.form = True; form.stride = None; form.havoc = True
    return form

def p2_form(it, s, ho, H, itc, base, st, opaque=False):
    """element J after t iterations is a fold over the iterations of what happens to element J"""
    s = as_seq(s)
    ls = layers(s, ho)
    if ls is None: return None
    def hide(t, i, J):
        # inside the branch J == i, H(i) is the accumulator
        if not is_z(t): return t
        pr = []
        for x in walk_apps([t]):
            if x.decl().eq(H):
                if simp(x.arg(0) - zi(i)) == 0: pr.append((x, H(zi(J))))
        return z3.substitute(t, *pr) if pr else t
    def newval(J):
        v = H(zi(J))
        for g, lo, hi, f in ls:
            w = f(J)
            if simp(sub(hi, lo)) == 1 or (conc(sub(hi, lo)) and sub(hi, lo) == 1):
                w = hide(term(w), lo, J)
                g2 = hide(g, lo, J) if is_z(g) else g
                c = And(ieq(J, lo), g2)
            else: c = And(le(lo, J), lt(J, hi), g)
            # values written by earlier layers of the same iteration were already folded into w by the interpreter
            v = ite(simp(c) if is_z(c) else c, w, v)
        return term(v)
    Jc = const('J', I)
    nv = z3.simplify(newval(Jc), som=True)
    pr = [(x, H(Jc)) for x in walk_apps([nv]) if x.decl().eq(H) and not x.arg(0).eq(Jc) and simp(z3.simplify(x.arg(0) - Jc, som=True)) == 0]
    if pr: nv = z3.substitute(nv, *pr)
    for x in walk_apps([nv]):
        if x.decl().eq(H) and not x.arg(0).eq(Jc):
            if T.OPT.get('debug'): print('   P2: element depends on another element', x)
            return None
    acc0 = H(Jc)
    srt = H.range()
    inv = all(free_of(lo, itc) and free_of(hi, itc) for g, lo, hi, f in ls)
    hasacc = any(x.decl().eq(H) for x in walk_apps([nv]))
    def valfn(bs, t):
        def val(J):
            v = newval(J) if False else z3.simplify(z3.substitute(nv, (Jc, zi(J))))
            app = H(zi(J))
            init = bs.get(J)
            if isinstance(init, Uninit):
                # accumulator must not be read: usable only when the last write always happens
                if any(x.decl().eq(H) for x in walk_apps([v])): return UNINIT
                if lt(0, t) is True or CTX.known(lt(0, t)): return norm(z3.substitute(v, (itc, zi(sub(t, 1)))))
                return UNINIT
            if not any(x.decl().eq(H) for x in walk_apps([v])):
                lastv = norm(z3.simplify(z3.substitute(v, (itc, zi(sub(t, 1))))))
                return ite(lt(0, t), lastv, init)
            if opaque:
                # the fold is built once for a nameless index, so that equal indices give equal applications of one function
                v0, i0 = z3.simplify(nv), const('init', srt)
                def step0(accs, k): return [norm(z3.substitute(z3.substitute(v0, (H(Jc), accs[0])), (itc, k)))]
                F = term(mk_fold([i0], step0, t, sorts=[srt])[0])
                return norm(z3.substitute(F, (Jc, zi(J)), (i0, coerce(term(init), srt))))
            def step(accs, k): return [norm(z3.substitute(z3.substitute(v, (H(zi(J)), accs[0])) if True else v, (itc, k)))]
            return norm(mk_fold([init], step, t, sorts=[srt])[0])
        return val
    def form(bs, t):
        f = valfn(bs, t)
        if inv and len(ls) == 1:
            g, lo, hi, _ = ls[0]
            if conc(sub(hi, lo)) and sub(hi, lo) == 1: return bs.set(lo, f(lo)).with_n(bs.n)
            return bs.rng(lo, hi, f)
        if inv and all(conc(sub(hi, lo)) and sub(hi, lo) == 1 and ieq(lo, ls[0][1]) is True for g, lo, hi, _ in ls):
            return bs.set(ls[0][1], f(ls[0][1])).with_n(bs.n)
        return bs.rng(0, bs.n, f)
    form.form = True; form.stride = None
    return form

def bound_lemmas(it, pc, v):
    """candidate bounds (it.fold_bounds, stated by the contract) for an integer accumulator: kept when they hold initially and every
    step preserves them, for every iteration"""
    if not is_z(v) or v.sort() != I or v.decl().get_id() not in T.FOLDS: return []
    key = (v.get_id(), tuple(p.get_id() for p in pc if is_z(p)))
    c = it.bound_cache.get(key)
    if c is not None: return c[0]
    f, i = T.FOLDS[v.decl().get_id()]; ch = v.children(); ps, init = ch[:f.nparams], ch[f.nparams:-1]
    k = const('bk', I); accs = [const('ba', x.sort()) for x in init]
    st = term(T.fold_step(f, i, ps, accs, k)); hyp = list(pc) + [k >= 0, k < ch[-1]]
    r = []
    for cand in it.fold_bounds:
        inv = lambda x: cand(x)
        if T.entails(pc, inv(init[i])) and T.entails(hyp + [zb(inv(accs[i]))], inv(st), timeout=4000): r.append(zb(inv(v)))
    it.bound_cache[key] = (r, v, list(pc))
    return r
def same_form():
    """the loop leaves the sequence as it found it"""
    def form(bs, t): return bs
    form.form = True; form.stride = None
    return form

# ------------------------------------------------------------------ trip count
def trip(it, cond, stc, itc, kinds, run, where):
    import interp as IN
    sv = it.st
    it.st = stc.copy(); it.st.pc.append(itc >= 0); it.dry += 1
    try:
        os_ = it.explore(lambda: simp(it.truth(cond())))
        pure = len(os_) == 1 and os_[0].kind == 'normal'
        c = os_[0].v if pure else None
    finally: it.dry -= 1; it.st = sv
    others = kinds - {'normal', 'exit'}
    if pure and not others:
        N = closed_trip(it, c, itc)
        if N is not None: return N
    # first iteration that does not complete normally
    d = func('N', *([I] * max(1, len(it.iters)) + [I]))     # one dummy argument when not nested, so that the definition is instantiated
    N = d(*[zi(x) for x in it.iters]) if it.iters else d(0)
    k = const('it', I)
    alive_cache = {}
    outs = run(stc, [itc >= 0], True, False, itc)
    n0 = len(stc.pc)
    alive = Or(*[And(*o.st.pc[n0:]) for o in outs if o.kind == 'normal'])
    args = list(it.iters)
    def ax(app):
        ch = app.children()
        pr = [(a, c2) for a, c2 in zip(args, ch) if is_z(a) and z3.is_const(a)]
        def al(t): return zb(subst(subst(alive, [(itc, t)]) if is_z(alive) else alive, pr))
        r = [app >= 0, z3.Implies(app > 0, al(app - 1)), z3.Not(al(app))]
        for t in exits:      # every earlier iteration completed normally: instances at the points the exits compare with
            t = subst(t, pr); r.append(z3.Implies(z3.And(t >= 0, t < app), al(t)))
        return r
    exits = []
    for x in walk_apps([alive]) if is_z(alive) else []:
        if z3.is_eq(x) and x.arg(0).sort() == I:
            for a, b in (x.children(), x.children()[::-1]):
                if a.eq(itc) and not any(c.eq(itc) for c in consts_of(b)) and len(exits) < 4: exits.append(b)
    define(d, ax)
    it.st.pc.append(N >= 0)
    if T.OPT.get('trip_forall'):     # every earlier iteration completed normally
        q = const('k', I)
        it.st.pc.append(T.mark(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N), zb(subst(alive, [(itc, q)]) if is_z(alive) else alive)))))
    NTRIP.append((where, N, alive, itc))
    IN.NOTES.add('termination of condition-controlled loops is assumed (counted loops are shown to terminate by their closed-form trip count)')
    return N
NTRIP = []

def closed_trip(it, c, itc):
    if c is False: return 0
    if not is_z(c): return None
    neg = False
    x = c
    if z3.is_not(x): neg = True; x = x.arg(0)
    k = x.decl().kind()
    if x.num_args() != 2 or x.arg(0).sort() != I: return None
    l, r = x.children()
    if k == z3.Z3_OP_EQ and neg: op = '!='
    elif k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
        op = {z3.Z3_OP_LT: '<', z3.Z3_OP_LE: '<=', z3.Z3_OP_GT: '>', z3.Z3_OP_GE: '>='}[k]
        if neg: op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
    else: return None
    if op in ('>', '>='): l, r = r, l; op = '<' if op == '>' else '<='
    d = linear_in(simp(z3.simplify(r - l, som=True)), itc)     # remaining distance
    if d is None: return None
    a, b = d
    if op == '<=': b = add(b, 1); op = '<'
    if op == '<':
        if conc(a) and a == -1:
            if it.known(le(0, b)): return b
            return ite(lt(0, b), b, 0)
        if conc(a) and a >= 0: return None
        s = sub(0, a)
        if not it.known(lt(0, s)): return None
        if conc(s) and conc(b): return max(0, -(-b // s))
        # smallest N with s*N >= b
        dd = func('N', *([I] * max(1, len(it.iters)) + [I]))
        N = dd(*[zi(y) for y in it.iters]) if it.iters else dd(0)
        args = list(it.iters)
        def ax(app):
            ch = app.children()
            pr = [(p, q) for p, q in zip(args, ch) if is_z(p) and z3.is_const(p)]
            S, Bv = zi(subst(s, pr) if is_z(s) else s), zi(subst(b, pr) if is_z(b) else b)
            return [app >= 0, S * app >= Bv, z3.Implies(app > 0, S * (app - 1) < Bv)]
        define(dd, ax)
        q = exact_div(b, s)
        if q is not None and it.known(le(0, q)): return q
        return N
    if op == '!=':
        if conc(a) and a == 1: a, b = -1, sub(0, b)
        if conc(a) and a == -1 and it.known(le(0, b)): return b
    return None

def exact_div(b, s):
    p, at = poly(b); ps, at2 = poly(s); at.update(at2)
    if len(ps) != 1: return None
    (ms, cs), = ps.items()
    q = {}
    for m, v in p.items():
        l = list(m)
        for x in ms:
            if x in l: l.remove(x)
            else: return None
        if v % cs: return None
        q[tuple(l)] = v // cs
    return unpoly(q, at)
