"""Contracts for parser/csv.hpp: fields, rows, the random-access file and the line iterator.

Files and string streams are specified at the granularity of lines and fields (values.PiecesV): a file is its n lines,
and a line cut at the separator is its count+1 fields."""
from contract import *
import stdlib
E_ = 'EdgeLearning::'
SZ, CH, TY = ('int', 64, False), ('int', 8, True), ('int', 32, True)
AUTO = 0
TYF = z3.Function('type of text', S, I)
NUMD = z3.Function('number of text', S, R); NUMI = z3.Function('integer of text', S, I); OKC = z3.Function('converts', S, B)
T.define(TYF, lambda x: [x != AUTO])
def rng(x, lo, hi): return And(le(lo, x), lt(x, hi))
def bad(o): return [('no exception', False)]
def ok(o): return o.kind in ('normal', 'return')
def text(it, a):
    x = it.read(it.resolve(a)) if isinstance(a, LV) else a
    return zs(x)
def parse1(it, this, a, d):
    if len(a) != 1: return NotImplemented
    x = it.read(it.resolve(a[-1])) if isinstance(a[-1], LV) else a[-1]
    return NotImplemented if isinstance(x, SeqV) else TYF(zs(x))
def convert(it, this, a, d):
    q = d['type']['qualType']
    if len(a) != 2: return NotImplemented
    if 'double &' in q: f, z = NUMD, 0
    elif 'int &' in q: f, z = NUMI, 0
    else: return NotImplemented
    lv = it.resolve(a[1]); it.safe('the converted variable starts at zero', veq(it.read(lv), z))
    s = text(it, a[0]); it.write(lv, f(s)); return OKC(s)
MODELS = {E_ + 'TypeChecker::parse': parse1, E_ + 'convert': convert}
CNT = T.SCOUNT
def V(name, fn, setup, **k): return Contract(name, 'EdgeLearning::drv::' + fn, setup, models=dict(MODELS, **k.pop('models', {})), **k)
def fld(L, c, j): return z3.If(z3.And(zi(j) >= 0, zi(j) <= CNT(zs(L), zi(c))), VV.FIELD(zs(L), zi(c), zi(j)), z3.StringVal(''))
def tchk(): return StructV(E_ + 'TypeChecker', {})
class Types:
    """type list of m entries; given: none of them AUTO"""
    def __init__(self, env, name='types', m=None, resolved=True):
        self.m = env.nat(name + '.n') if m is None else m; self.f = func(name, I, I)
        T.define(self.f, lambda x: [x >= -1, x <= 5] + ([x != AUTO] if resolved else []))
        self.lv = env.it.alloc(SeqV.fn(self.m, lambda i: self.f(zi(i)), TY))
def sepc(env): 
    c = env.nat('sep', 0, 128); env.assume(c != 10); return c
class Row:
    def __init__(self, env, name='row', types=None, cols=None, **k):
        self.L = env.string(name + '.line'); self.i = env.nat(name + '.idx'); self.cols = env.nat(name + '.cols') if cols is None else cols
        self.T = types or Types(env, name + '.types', self.cols); self.c = sepc(env)
        self.v = row(self.L, self.i, self.cols, self.T.lv, self.c); self.lv = env.it.alloc(self.v)
def row(L, i, cols, tlv, c): return StructV(E_ + 'CSVRow', dict(_tc=tchk(), _line=L, _idx=i, _cols_amount=cols, _types=RefV(tlv), _separator=c))
def is_row(v, L, i, cols, tlv, c, w=''):
    return [(w + 'line', veq(v.f['_line'], L)), (w + 'row index', ieq(v.f['_idx'], i)), (w + 'column count', ieq(v.f['_cols_amount'], cols)), (w + 'column types', isinstance(v.f['_types'], RefV) and v.f['_types'].lv.same(tlv)), (w + 'separator', veq(v.f['_separator'], c))]
# ------------------------------------------------------------------ C02: rows
def types_after(env, tlv, L, c, cols, old, kept):
    v = env.it.read(tlv); j = const('j', I)
    if kept: return [('types kept', ieq(v.n, cols)), ('types kept, in place', Implies(rng(j, 0, cols), veq(v.get(j), old(j))))]
    return [('one type per column', ieq(v.n, cols)), ('type of the field', Implies(rng(j, 0, cols), eq_goal(v.get(j), TYF(fld(L, c, j)))))]
def c_row_make(kind, how='cols'):
    def su(env):
        L, i, c = env.string('line'), env.nat('i'), sepc(env)
        cols = env.nat('cols') if how == 'cols' else add(CNT(L, c), 1)
        t = Types(env, m=cols if kind in ('kept', 'auto') else None, resolved=kind != 'auto')
        if kind == 'kept': env.assume(lt(0, cols))
        if kind == 'auto': w = const('w', I); env.assume(And(rng(w, 0, t.m), ieq(t.f(w), AUTO)))
        if kind == 'size': env.assume(Or(ieq(t.m, 0), Not(ieq(t.m, cols))))
        out = Seen(env)
        def post(env, o):
            if not ok(o): return bad(o)
            return is_row(out[-1], L, i, cols, t.lv, c) + types_after(env, t.lv, L, c, cols, t.f, kind == 'kept')
        return None, [L, i] + ([cols] if how == 'cols' else []) + [t.lv, c], post
    return su
def c_row_empty(env):
    t = Types(env, resolved=False); c = sepc(env); out = Seen(env)
    return None, [t.lv, c], lambda env, o: is_row(out[-1], '', 0, 0, t.lv, c) + [('types emptied', ieq(env.it.read(t.lv).n, 0))] if ok(o) else bad(o)
def c_row_copy(env):
    r = Row(env); out = Seen(env)
    return None, [r.lv], lambda env, o: is_row(out[-1], r.L, r.i, r.cols, r.T.lv, r.c) if ok(o) else bad(o)
def c_row_assign(env):
    r, q = Row(env), Row(env, 'other')
    def post(env, o):
        if not ok(o): return bad(o)
        v = env.it.read(env.it.read_raw(r.lv).f['_types'].lv); j = const('j', I)
        return [x for x in is_row(env.it.read_raw(r.lv), q.L, q.i, q.cols, r.T.lv, q.c)] + [('types copied', And(ieq(v.n, q.cols), Implies(rng(j, 0, q.cols), veq(v.get(j), q.T.f(j)))))]
    return None, [r.lv, q.lv], post
def is_field(env, v, L, c, j, ty):
    t = env.it.read(v.f['_type'].lv) if isinstance(v.f['_type'], RefV) else v.f['_type']
    return And(veq(v.f['_field'], fld(L, c, j)), ieq(v.f['_col_index'], j), veq(t, ty))
def c_row_at(env):
    r = Row(env); j = env.nat('j', 0, 2 ** 64)
    def post(env, o):
        there = And(lt(j, r.cols), le(j, CNT(r.L, r.c)))
        if o.kind == 'throw': return [('rejected only when the field is not there', Not(there)), ('error type', o.v[0] == 'runtime_error')]
        return [('answers only for a field that is there', there), ('the j-th field', veq(o.v.f['_field'], VV.FIELD(r.L, zi(r.c), j))), ('its index and type', is_field(env, o.v, r.L, r.c, j, r.T.f(j)))]
    return None, [r.lv, j], post
def c_row_vec(get):
    def su(env):
        r = Row(env); j = const('j', I)
        def post(env, o):
            if not ok(o): return bad(o)
            pc = list(env.it.st.pc); env.it.assume(rng(j, 0, r.cols))
            try: x = o.v.get(j)
            finally: env.it.st.pc = pc
            return [('one value per column', ieq(o.v.n, r.cols)), ('value of the field of the column', Implies(rng(j, 0, r.cols), get(env, r, x, j)))]
        return None, [r.lv], post
    return su
def g_text(env, r, x, j): return eq_goal(x, fld(r.L, r.c, j))
def g_num(env, r, x, j): return eq_goal(x, NUMD(fld(r.L, r.c, j)))
def g_int(env, r, x, j): return eq_goal(x, NUMI(fld(r.L, r.c, j)))
def g_field(env, r, x, j): return is_field(env, x, r.L, r.c, j, r.T.f(j))
def c_row_get(want):
    def su(env):
        r = Row(env)
        return None, [r.lv], lambda env, o: [('as constructed', veq(o.v, want(r)))] if ok(o) else bad(o)
    return su
def c_row_types(env):
    r = Row(env)
    return None, [r.lv], lambda env, o: [('the type list itself', isinstance(o.v, LV) and env.it.resolve(o.v).same(r.T.lv))] if ok(o) else bad(o)
def c_row_cmp(eq):
    def su(env):
        a, b = Row(env), Row(env, 'b')
        return None, [a.lv, b.lv], lambda env, o: [('equal exactly when the lines are', veq(o.v, (a.L == b.L) if eq else Not(a.L == b.L)))] if ok(o) else bad(o)
    return su
def c_field(want, get):
    def su(env):
        s, j = env.string('field'), env.nat('col'); t = env.it.alloc(env.int('type'))
        lv = env.it.alloc(StructV(E_ + 'CSVField', dict(_tc=tchk(), _field=s, _type=RefV(t), _col_index=j)))
        return None, [lv], lambda env, o: [('as constructed', veq(get(env, o.v), want(s, env.it.read(t), j)))] if ok(o) else bad(o)
    return su
def c02_rows():
    P = [V('CSVRow(%s types%s)' % (k, '' if h == 'cols' else ', columns counted'), 'row_make' if h == 'cols' else 'row_make_counted', c_row_make(k, h)) for k in ('kept', 'auto', 'size') for h in ('cols', 'count')]
    return P + [V('CSVRow(types)', 'row_make_empty', c_row_empty), V('CSVRow(copy)', 'row_copy', c_row_copy), V('CSVRow::operator=', 'row_assign', c_row_assign), V('CSVRow::operator[]', 'row_at', c_row_at),
      V('CSVRow as text fields', 'row_strings', c_row_vec(g_text)), V('CSVRow::to_vec<string>', 'row_tovec_strings', c_row_vec(g_text)), V('CSVRow as fields', 'row_fields', c_row_vec(g_field)),
      V('CSVRow as numbers', 'row_numbers', c_row_vec(g_num)), V('CSVRow::to_vec<double>', 'row_tovec_numbers', c_row_vec(g_num)), V('CSVRow::to_vec<int>', 'row_tovec_ints', c_row_vec(g_int)),
      V('CSVRow as text', 'row_text', c_row_get(lambda r: r.L)), V('CSVRow::line', 'row_line', c_row_get(lambda r: r.L)), V('CSVRow::size', 'row_size', c_row_get(lambda r: r.cols)), V('CSVRow::idx', 'row_idx', c_row_get(lambda r: r.i)),
      V('CSVRow::empty', 'row_none', c_row_get(lambda r: ieq(r.cols, 0))), V('CSVRow::types', 'row_types', c_row_types), V('CSVRow::operator==', 'row_same', c_row_cmp(True)), V('CSVRow::operator!=', 'row_differ', c_row_cmp(False)),
      V('CSVField::as<string>', 'field_text', c_field(lambda s, t, j: s, lambda env, v: v)), V('CSVField::as<double>', 'field_number', c_field(lambda s, t, j: NUMD(s), lambda env, v: v)),
      V('CSVField::type', 'field_type', c_field(lambda s, t, j: t, lambda env, v: env.it.read(env.it.resolve(v)) if isinstance(v, LV) else v)), V('CSVField::idx', 'field_idx', c_field(lambda s, t, j: j, lambda env, v: v))]
# ------------------------------------------------------------------ files
class File:
    """a text file of n >= 1 lines"""
    def __init__(self, env, exists=True):
        self.n = env.nat('lines', 1, 2 ** 40); self.f = func('line', I, S); self.nl = env.bool('ends with newline'); self.path = env.string('path')
        self.ex = env.bool('exists')
        if exists: self.ex = True
        self.p = VV.PiecesV(self.n, lambda i: self.f(zi(i)), self.nl, 10)
        env.it.files[('z', self.path.get_id())] = (self.p, self.ex)
class Csv:
    """a CSV object in an arbitrary reachable state: any cached row"""
    def __init__(self, env):
        self.F = F = File(env); self.n = F.n; self.c = sepc(env); self.cols = add(CNT(F.f(0), zi(self.c)), 1)
        self.k = env.nat('cached row'); self.cl = env.string('cached line')
        env.assume(Implies(lt(self.k, F.n), self.cl == F.f(self.k)))
        self.tf = func('types', I, I); T.define(self.tf, lambda x: [x >= -1, x <= 5, x != AUTO])
        self.lv = env.it.alloc(None); self.tlv = self.lv.f('_types')
        import sets
        self.labels = env.it.alloc(fresh(('set', SZ), 'labels'))
        env.it.write(self.lv, StructV(E_ + 'CSV', dict(_tc=tchk(), _fn=F.path, _types=SeqV.fn(self.cols, lambda i: self.tf(zi(i)), TY), _row_header=row(F.f(0), 0, self.cols, self.tlv, self.c), _row_cache=row(self.cl, self.k, self.cols, self.tlv, self.c),
          _cols_amount=self.cols, _rows_amount=F.n, _separator=self.c, _labels_idx=env.it.read(self.labels))))
    def inv(self, env, w='invariant: '):
        v = env.it.read_raw(self.lv); h, q = v.f['_row_header'], v.f['_row_cache']; j = const('j', I); t = v.f['_types']
        return [(w + 'sizes', And(ieq(v.f['_cols_amount'], self.cols), ieq(v.f['_rows_amount'], self.n), veq(v.f['_separator'], self.c), veq(v.f['_fn'], self.F.path)))] + is_row(h, self.F.f(0), 0, self.cols, self.tlv, self.c, w + 'header ') + \
            [(w + 'cached row is the row of its index', And(Implies(lt(q.f['_idx'], self.n), veq(q.f['_line'], self.F.f(zi(q.f['_idx'])))), ieq(q.f['_cols_amount'], self.cols), q.f['_types'].lv.same(self.tlv), veq(q.f['_separator'], self.c))),
             (w + 'types', And(ieq(t.n, self.cols), Implies(rng(j, 0, self.cols), veq(t.get(j), self.tf(j)))))]
def c_csv_make(kind):
    def su(env):
        F = File(env); c = sepc(env); cols = add(CNT(F.f(0), zi(c)), 1); L1 = z3.If(F.n > 1, F.f(1), z3.StringVal('')); out = Seen(env, raw=True)
        if kind == 'plain': args = [F.path]; env.assume(c == 44)
        else:
            t = Types(env, m=cols if kind == 'kept' else None, resolved=kind == 'kept' or kind == 'size')
            if kind == 'auto': w = const('w', I); env.assume(And(rng(w, 0, t.m), ieq(t.f(w), AUTO)))
            if kind == 'size': env.assume(Not(ieq(t.m, cols)))
            lab = env.it.alloc(fresh(('set', SZ), 'labels')); args = [F.path, env.it.read(t.lv), c, env.it.read(lab)]
        def post(env, o):
            if not ok(o): return bad(o)
            lv, v = out.lv, out[-1]; tl = lv.f('_types'); j, x = const('j', I), const('x', I); q = v.f['_row_cache']; ty = v.f['_types']
            return [('rows of the file', ieq(v.f['_rows_amount'], F.n)), ('columns of the header', ieq(v.f['_cols_amount'], cols)), ('path', veq(v.f['_fn'], F.path)), ('separator', veq(v.f['_separator'], c))] + is_row(v.f['_row_header'], F.f(0), 0, cols, tl, c, 'header ') + \
              [('cached row is the row of its index', And(Implies(lt(q.f['_idx'], F.n), veq(q.f['_line'], F.f(zi(q.f['_idx'])))), ieq(q.f['_cols_amount'], cols), q.f['_types'].lv.same(tl), veq(q.f['_separator'], c))),
               ('one type per column', ieq(ty.n, cols)), ('type of the column', Implies(rng(j, 0, cols), eq_goal(ty.get(j), t.f(j) if kind == 'kept' else TYF(fld(L1, c, j)))))] + \
              ([] if kind == 'plain' else [('label columns', veq(v.f['_labels_idx'].has(x), env.it.read(lab).has(x)))])
        return None, args, post
    return su
def c_csv_missing(env):
    F = File(env, False); env.assume(Not(F.ex)); out = Seen(env)
    return None, [F.path], lambda env, o: [('a missing file is rejected', o.kind == 'throw' and o.v[0] == 'runtime_error')]
def c_csv_at(env):
    q = Csv(env); i = env.nat('i', 0, 2 ** 64); k = udivmod(i, q.n)[1]
    return None, [q.lv, i], lambda env, o: is_row(o.v, q.F.f(zi(k)), k, q.cols, q.tlv, q.c, 'row i mod n: ') + q.inv(env) if ok(o) else bad(o)
def c_csv_get(want):
    def su(env):
        q = Csv(env)
        def post(env, o):
            if not ok(o): return bad(o)
            return want(env, q, env.it.read_raw(env.it.resolve(o.v)) if isinstance(o.v, LV) else o.v) + q.inv(env)
        return None, [q.lv], post
    return su
def c_csv_entry(env):
    q = Csv(env); i = env.nat('i', 0, 2 ** 62); k = udivmod(add(i, 1), q.n)[1]; j = const('j', I)
    return None, [q.lv, i], lambda env, o: [('one value per column', ieq(o.v.n, q.cols)), ('values of the row', Implies(rng(j, 0, q.cols), eq_goal(o.v.get(j), NUMD(fld(q.F.f(zi(k)), q.c, j)))))] + q.inv(env) if ok(o) else bad(o)
def c01():
    x = const('x', I)
    def labs(env, q, v): return [('the label columns', veq(v.has(x), env.it.read(q.labels).has(x)))]
    def typs(env, q, v):
        j = const('j', I); return [('the column types', And(ieq(v.n, q.cols), Implies(rng(j, 0, q.cols), veq(v.get(j), q.tf(j)))))]
    return [V('CSV(%s types)' % k, 'csv_make', c_csv_make(k)) for k in ('kept', 'auto', 'size')] + [V('CSV(path)', 'csv_make_plain', c_csv_make('plain')), V('CSV(missing file)', 'csv_make_plain', c_csv_missing), V('CSV::operator[]', 'csv_at', c_csv_at), V('CSV::entry', 'csv_entry', c_csv_entry),
      V('CSV::entries_amount', 'csv_entries', c_csv_get(lambda env, q, v: [('rows without the header', ieq(v, sub(q.n, 1)))])), V('CSV::feature_size', 'csv_features', c_csv_get(lambda env, q, v: [('columns', ieq(v, q.cols))])),
      V('CSV::rows_size', 'csv_rows', c_csv_get(lambda env, q, v: [('lines', ieq(v, q.n))])), V('CSV::cols_size', 'csv_cols', c_csv_get(lambda env, q, v: [('columns', ieq(v, q.cols))])),
      V('CSV::labels_idx', 'csv_labels', c_csv_get(labs)), V('CSV::header', 'csv_header', c_csv_get(lambda env, q, v: is_row(v, q.F.f(0), 0, q.cols, q.tlv, q.c))), V('CSV::types', 'csv_types', c_csv_get(typs))]
# ------------------------------------------------------------------ C02: views of the whole file
def c_csv_view(get, n=None):
    def su(env):
        q = Csv(env); i = const('i', I)
        def post(env, o):
            if not ok(o): return bad(o)
            pc = list(env.it.st.pc); env.it.assume(rng(i, 0, q.n))
            try: x = o.v.get(i); g = get(env, q, x, i)
            finally: env.it.st.pc = pc
            return [('one element per line', ieq(o.v.n, q.n))] + [(t, Implies(rng(i, 0, q.n), f)) for t, f in g] + q.inv(env)
        return None, [q.lv], post
    return su
def v_line(env, q, x, i): return [('the line of the row', eq_goal(x, q.F.f(zi(i))))]
def v_row(env, q, x, i): return is_row(x, q.F.f(zi(i)), i, q.cols, q.tlv, q.c)
def v_of(f):
    def g(env, q, x, i):
        j = const('j', I)
        return [('one value per column', ieq(x.n, q.cols)), ('value of row and column', Implies(rng(j, 0, q.cols), eq_goal(x.get(j), f(fld(q.F.f(zi(i)), q.c, j)))))]
    return g
def c_csv_vec(env):
    q = Csv(env); i, j = const('i', I), const('j', I)
    def post(env, o):
        if not ok(o): return bad(o)
        r = And(rng(i, 0, q.n), rng(j, 0, q.cols)); pc = list(env.it.st.pc); env.it.assume(r)
        try: x = o.v.get(add(mul(i, q.cols), j))
        finally: env.it.st.pc = pc
        return [('one value per row and column', ieq(o.v.n, mul(q.n, q.cols))), ('value of row and column', Implies(r, eq_goal(x, NUMD(fld(q.F.f(zi(i)), q.c, j)))))] + q.inv(env)
    return None, [q.lv], post
def c02_files():
    return [V('CSV as lines', 'csv_lines', c_csv_view(v_line)), V('CSV as rows', 'csv_rowviews', c_csv_view(v_row)), V('CSV::to_mat<double>', 'csv_mat', c_csv_view(v_of(NUMD))), V('CSV::to_mat<string>', 'csv_textmat', c_csv_view(v_of(lambda s: s))), V('CSV::to_vec<double>', 'csv_vec', c_csv_vec)]
def c02(): return c02_rows() + c02_files()
# ------------------------------------------------------------------ C03: the line iterator
class Iter:
    """an iterator in an arbitrary reachable state: any row read so far, any requested row"""
    def __init__(self, env, name='it', F=None, types=None, c=None, cols=None):
        self.F = F or File(env); self.n = self.F.n; self.c = sepc(env) if c is None else c; self.cols = env.nat(name + '.cols', 1) if cols is None else cols
        self.T = types or Types(env, name + '.types', self.cols); self.r = env.nat(name + '.row', 0, None); self.q = env.nat(name + '.req', 0, 2 ** 64); env.assume(lt(self.r, self.n))
        self.lv = env.it.alloc(self.value(self.r, self.q))
    def value(self, r, q): return StructV(E_ + 'CSVIterator', dict(_fn=self.F.path, _row=row(self.F.f(zi(r)), r, self.cols, self.T.lv, self.c), _req_row_idx=q, _stream=VV.StreamV(self.F.p, add(r, 1), And(ieq(add(r, 1), self.n), Not(self.F.nl)), False, True)))
def it_inv(env, v, F, cols, tlv, c, w='invariant: '):
    r, s = v.f['_row'].f['_idx'], v.f['_stream']; p = s.content
    return [(w + 'row index inside the file', And(le(0, r), lt(r, F.n)))] + is_row(v.f['_row'], F.f(zi(r)), r, cols, tlv, c, w) + \
        [(w + 'file', veq(v.f['_fn'], F.path)), (w + 'stream on the file', p is F.p), (w + 'stream after the row', And(ieq(s.pos, add(r, 1)), veq(s.isopen, True), veq(s.fail, False), veq(s.eof, And(ieq(add(r, 1), F.n), Not(F.nl)))))]
def types_kept(env, T_, cols, w=''):
    v = env.it.read(T_.lv); j = const('j', I)
    return [(w + 'column types untouched', And(ieq(v.n, cols), Implies(rng(j, 0, cols), veq(v.get(j), T_.f(j)))))]
def c_it_make(env):
    F = File(env); c = sepc(env); cols = env.nat('cols', 1); i = env.nat('i', 0, 2 ** 64); t = Types(env, m=cols); out = Seen(env, raw=True)
    return None, [F.path, i, cols, t.lv, c], lambda env, o: [('requested row', ieq(out[-1].f['_req_row_idx'], i))] + it_inv(env, out[-1], F, cols, t.lv, c) + types_kept(env, t, cols) if ok(o) else bad(o)
def c_it_copy(env):
    q = Iter(env); out = Seen(env, raw=True)
    return None, [q.lv], lambda env, o: [('same requested row', ieq(out[-1].f['_req_row_idx'], q.q))] + it_inv(env, out[-1], q.F, q.cols, q.T.lv, q.c) + types_kept(env, q.T, q.cols) if ok(o) else bad(o)
def c_it_deref(env):
    q = Iter(env); env.assume(lt(q.q, q.n))
    def post(env, o):
        if not ok(o): return bad(o)
        lv = o.v.lv if isinstance(o.v, (RefV, PtrV)) else o.v; lv = env.it.resolve(lv); v = env.it.read_raw(q.lv)
        return [('the row of the iterator', lv.same(q.lv.f('_row')))] + is_row(env.it.read_raw(lv), q.F.f(q.q), q.q, q.cols, q.T.lv, q.c, 'requested ') + [('requested row kept', ieq(v.f['_req_row_idx'], q.q))] + it_inv(env, v, q.F, q.cols, q.T.lv, q.c) + types_kept(env, q.T, q.cols)
    return None, [q.lv], post
W64 = 2 ** 64
def c_it_move(d, post_form=False):
    def su(env):
        q = Iter(env); out = Seen(env, raw=True)
        env.assume(lt(q.q, q.n) if d > 0 else And(lt(0, q.q), le(q.q, q.n)))
        def post(env, o):
            if not ok(o): return bad(o)
            v = env.it.read_raw(q.lv); g = [('moved by one row', ieq(v.f['_req_row_idx'], add(q.q, d)))] + it_inv(env, v, q.F, q.cols, q.T.lv, q.c) + types_kept(env, q.T, q.cols)
            return g + ([('result stays on the row', ieq(out[-1].f['_req_row_idx'], q.q))] + it_inv(env, out[-1], q.F, q.cols, q.T.lv, q.c, 'result: ') if post_form else [])
        return None, [q.lv], post
    return su
def c_it_cmp(eq):
    def su(env):
        a = Iter(env); b = Iter(env, 'b', a.F, a.T, a.c, a.cols)
        return None, [a.lv, b.lv], lambda env, o: [('compares the row positions', veq(o.v, ieq(a.q, b.q) if eq else Not(ieq(a.q, b.q))))] if ok(o) else bad(o)
    return su
def c_it_range(end):
    def su(env):
        q = Csv(env); out = Seen(env, raw=True)
        return None, [q.lv], lambda env, o: [('past the last line' if end else 'the line after the header', ieq(out[-1].f['_req_row_idx'], q.n if end else 1))] + it_inv(env, out[-1], q.F, q.cols, q.tlv, q.c) + q.inv(env, 'csv: ') if ok(o) else bad(o)
    return su
def c_csv_walk(env):
    q = Csv(env); i = const('i', I)
    def post(env, o):
        if not ok(o): return bad(o)
        pc = list(env.it.st.pc); r = rng(i, 0, sub(q.n, 1)); env.it.assume(r)
        try: x = o.v.get(i)
        finally: env.it.st.pc = pc
        return [('one visit per line after the header', ieq(o.v.n, sub(q.n, 1))), ('in order', Implies(r, eq_goal(x, q.F.f(add(i, 1)))))] + q.inv(env)
    return None, [q.lv], post
def c03():
    return [V('CSVIterator(path, row)', 'it_make', c_it_make), V('CSVIterator(copy)', 'it_copy', c_it_copy), V('CSVIterator::operator*', 'it_row', c_it_deref), V('CSVIterator::operator->', 'it_arrow', c_it_deref),
      V('CSVIterator::operator++', 'it_inc', c_it_move(1)), V('CSVIterator::operator--', 'it_dec', c_it_move(-1)), V('CSVIterator::operator++(int)', 'it_postinc', c_it_move(1, True)), V('CSVIterator::operator--(int)', 'it_postdec', c_it_move(-1, True)),
      V('CSVIterator::operator==', 'it_same', c_it_cmp(True)), V('CSVIterator::operator!=', 'it_differ', c_it_cmp(False)), V('CSV::begin', 'it_begin', c_it_range(False)), V('CSV::end', 'it_end', c_it_range(True)), V('iteration over the file', 'csv_walk', c_csv_walk)]
