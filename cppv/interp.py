"""Symbolic execution of clang AST bodies against contracts: expressions, statements, calls."""
import z3, copy, time
import terms as T
from terms import *
import values as VV
from values import *
from ctypes_ import Types
import loops

class Ctl(Exception): pass
class ReturnEx(Ctl):
    kind = 'return'
    def __init__(self, v): self.v = v
class BreakEx(Ctl): kind = 'break'; v = None
class ContinueEx(Ctl): kind = 'continue'; v = None
class LoopExit(Ctl): kind = 'exit'; v = None
class ThrowEx(Ctl):
    kind = 'throw'
    def __init__(self, t, v=None): self.t, self.v = t, (t, v)
class Infeasible(Exception): pass

class State:
    __slots__ = ('mem', 'pc')
    def __init__(self, mem=None, pc=None): self.mem, self.pc = mem or {}, pc or []
    def copy(self): return State(dict(self.mem), list(self.pc))

class Outcome:
    __slots__ = ('kind', 'v', 'st', 'delta')
    def __init__(self, kind, v, st, delta): self.kind, self.v, self.st, self.delta = kind, v, st, delta

class Frame:
    __slots__ = ('env', 'this', 'fn', 'rec', 'lam')
    def __init__(self, fn=None, this=None, rec=None): self.env, self.this, self.fn, self.rec, self.lam = {}, this, fn, rec, None

class ByteInt:
    """scalar integer written through a byte view"""
    __slots__ = ('b', 'bits')
    def __init__(self, b, bits): self.b, self.bits = b, bits
    def value(self):
        if any(isinstance(x, Uninit) for x in self.b): return UNINIT
        r = 0
        for k, x in enumerate(self.b): r = add(r, mul(x, 256 ** k))
        return r

class Fail(Exception):
    """a path hit an obligation that is violated outright; the path stops (the obligation is recorded)"""

class Decider:
    def __init__(self, prefix, work): self.prefix, self.work, self.pos, self.taken = prefix, work, 0, []

class Interp:
    def __init__(self, ast, sink=None, models=None):
        self.ast, self.types = ast, Types(ast)
        self.st = State()
        self.frame = None
        self.sink = sink if sink is not None else []
        self.dry = 0
        self.guess = 0
        self.dec = None
        self.nloc = 0
        self.iters = []
        self.globals = {}
        self.models = models or {}
        self.files = {}
        self.depth = 0
        self.loopinfo = []
        self.fold_bounds, self.bound_cache, self.form_hints = [], {}, ()
        self.inlined = set()
        self.contracted = set()
        self.stdused = set()
        self.where = '?'
        self.dtor = set()
        self.max_paths = 400
        self.safety = True
        VV.REC_DEFAULT[:] = [lambda t: self.default_rec(t)]
        loops.CTX = self
        VV.KNOWN[:] = [lambda c: self.known(c)]

    # ------------------------------------------------------------------ memory
    def alloc(self, v):
        self.nloc += 1
        self.st.mem[self.nloc] = v
        return LV(self.nloc)
    def read_raw(self, lv):
        if lv.loc not in self.st.mem: raise Unsupported('dangling reference')
        v = self.st.mem[lv.loc]
        for k, x in lv.path: v = self.step(v, k, x)
        return v
    def step(self, v, k, x):
        if isinstance(v, RefV): v = self.read_raw(v.lv)
        if k == 'f':
            if isinstance(v, StructV):
                if x not in v.f: raise Unsupported('field %s of %s' % (x, v.t))
                return v.f[x]
            raise Unsupported('field %s of %s' % (x, type(v).__name__))
        if k == 'i':
            if isinstance(v, SeqV): return v.get(x)
            if isinstance(v, Uninit): return UNINIT
            if isscalar(v): return schar(v, x)
            raise Unsupported('index of %s' % type(v).__name__)
        if k == 's': return getattr(v, x)
        if k == 't': return v.xs[x]
        if k == 'p': return v.idx
        if k == 'n': return v.n
        if k == 'm': return v.val(x)
        if k == 'b': return SeqV.items(bytes_of(v, x), ('int', 8, True))
        raise Unsupported('path ' + k)
    def read(self, lv):
        v = self.read_raw(lv)
        if isinstance(v, ByteInt): return v.value()
        return v
    def write(self, lv, v):
        if lv.loc not in self.st.mem: raise Unsupported('dangling reference')
        self.st.mem[lv.loc] = self.wr(self.st.mem[lv.loc], lv.path, v)
    def wr(self, old, path, v):
        if not path: return v
        (k, x), rest = path[0], path[1:]
        if k == 'f':
            if isinstance(old, RefV): raise Unsupported('write through ref field path')
            return old.set(x, self.wr(old.f.get(x), rest, v))
        if k == 'i':
            if isinstance(old, Uninit): raise Unsupported('write into uninitialised sequence')
            if isscalar(old): old = seq_of_str(old)
            return old.set(x, self.wr(old.get(x), rest, v) if rest else v)
        if k == 's': return old.upd(**{x: v})
        if k == 't':
            xs = list(old.xs); xs[x] = self.wr(xs[x], rest, v)
            return TupV(xs)
        if k == 'p': return PtrV(old.lv, v)
        if k == 'n': return old.with_n(v)
        if k == 'm':
            nv = self.wr(old.val(x), rest, v)
            return MapV(old.keys, lambda y, o=old: vite(veq(y, x), nv, o.val(y)), old.vt)
        if k == 'b':
            b = SeqV.items(bytes_of(old, x), ('int', 8, True))
            nb = self.wr(b, rest, v) if rest else v
            return ByteInt([nb.get(i) for i in range(x // 8)], x)
        raise Unsupported('write path ' + k)
    def resolve(self, lv):
        """follow reference-typed fields"""
        v = self.st.mem.get(lv.loc); 
        cur = LV(lv.loc)
        for k, x in lv.path:
            if isinstance(v, RefV): cur = v.lv; v = self.read_raw(cur)
            cur = LV(cur.loc, cur.path + ((k, x),)); v = self.step(v, k, x)
        if isinstance(v, RefV): return v.lv
        return cur

    # ------------------------------------------------------------------ obligations & decisions
    def oblig(self, name, goal, kind='safety'):
        """record a proof obligation; continue assuming it"""
        g = norm(goal)
        if self.dry:
            if g is not True and is_z(g): self.st.pc.append(T.mark(g))
            elif g is False and not self.guess: raise Infeasible()
            return
        self.sink.append((name, kind, list(self.st.pc), g))
        if g is False: raise Fail(name)
        if g is not True: self.st.pc.append(T.mark(g))
    def safe(self, what, goal):
        g = norm(goal)
        if g is True: return
        if not self.safety: 
            if is_z(g): self.st.pc.append(T.mark(g))
            return
        self.oblig('%s/%s' % (self.where, what), g, 'safety')
    def known(self, c):
        return entails(self.st.pc, c)
    def assume(self, c):
        c = norm(c)
        if c is True: return
        if c is False: raise Infeasible()
        self.st.pc.append(c)

    def decide(self, c):
        c = simp(c) if is_z(c) else c
        if conc(c): return bool(c)
        d = self.dec
        if d is None: raise Unsupported('decision outside exploration')
        if d.pos < len(d.prefix):
            ch = d.prefix[d.pos]; d.pos += 1; d.taken.append(ch)
            if ch == 'T': return True      # forced: entailed
            if ch == 'F': return False
            self.st.pc.append(c if ch else Not(c)); return ch
        d.pos += 1
        if self.known(c): d.taken.append('T'); return True
        if self.known(Not(c)): d.taken.append('F'); return False
        d.work.append(d.taken + [False])
        d.taken.append(True)
        self.st.pc.append(c)
        return True
    def choose(self, outs):
        """continue with one of several outcomes (each a full state)"""
        if not outs: raise Infeasible()
        if len(outs) == 1: i = 0
        else:
            d = self.dec
            if d.pos < len(d.prefix): i = d.prefix[d.pos]
            else:
                i = 0
                for j in range(len(outs) - 1, 0, -1): d.work.append(d.taken + [j])
            d.pos += 1; d.taken.append(i)
        o = outs[i]
        self.st = o.st.copy()
        return o

    def explore(self, thunk, extra=()):
        base = self.st
        frame, dec, iters = self.frame, self.dec, list(self.iters)
        start = base.copy()
        for c in extra:
            c = norm(c)
            if c is False: return []
            if c is not True: start.pc.append(c)
        n0 = len(base.pc)
        work = [[]]; outs = []
        depth, dry, guess = self.depth, self.dry, self.guess
        try:
            while work:
                if len(outs) > self.max_paths: raise Unsupported('too many paths')
                prefix = work.pop()
                self.st = start.copy()
                self.dec = Decider(prefix, work)
                self.frame = frame; self.depth = depth; self.iters = list(iters); self.dry = dry; self.guess = guess
                try:
                    v = thunk(); kind = 'normal'
                except Ctl as e:
                    v, kind = e.v, e.kind
                except (Infeasible, Fail):
                    continue
                outs.append(Outcome(kind, v, self.st, self.st.pc[n0:]))
        finally:
            self.frame, self.dec, self.st, self.iters = frame, dec, base, iters
            self.depth, self.dry, self.guess = depth, dry, guess
        return outs

    def merge(self, outs):
        """merge outcomes of the same kind into one; None if not mergeable"""
        if len(outs) == 1: return outs[0]
        # facts established by obligations hold whenever their path is taken: they do not distinguish the paths
        conds = [And(*[d for d in o.delta if not T.marked(d)]) for o in outs]
        base = outs[-1]
        try:
            mem = dict(base.st.mem)
            v = base.v
            for o, c in list(zip(outs, conds))[-2::-1]:
                for loc, val in o.st.mem.items():
                    if loc in mem:
                        if mem[loc] is not val: mem[loc] = vmerge(c, val, mem[loc])
                    else: mem[loc] = val
                if isinstance(v, tuple) or isinstance(o.v, tuple):
                    if v != o.v: return None
                elif v is None and o.v is None: pass
                else: v = lvmerge(c, o.v, v)
        except Unsupported:
            return None
        n = len(base.st.pc) - len(base.delta)
        pc0 = base.st.pc[:n]
        d = simp_or(conds)
        delta = [] if d is True else [d]
        for o, c in zip(outs, conds):
            fs = [f for f in o.delta if T.marked(f)]
            if fs:
                g = norm(Implies(c, And(*fs)))
                if g is not True: delta.append(T.mark(g))
        return Outcome(base.kind, v, State(mem, pc0 + delta), delta)

    def settle(self, outs, kinds=('normal',)):
        """merge outcomes of the same kind, choose one, raise abrupt ones"""
        groups = {}
        for o in outs: groups.setdefault(o.kind if o.kind != 'throw' else ('throw', o.v[0]), []).append(o)
        final = []
        for k, os_ in groups.items():
            m = self.merge(os_)
            if m is None: final += os_
            else: final.append(m)
        o = self.choose(final)
        if o.kind in kinds: return o.v
        self.rethrow(o)
    def rethrow(self, o):
        if o.kind == 'return': raise ReturnEx(o.v)
        if o.kind == 'break': raise BreakEx()
        if o.kind == 'continue': raise ContinueEx()
        if o.kind == 'exit': raise LoopExit()
        if o.kind == 'throw': raise ThrowEx(o.v[0], o.v[1])
        raise Unsupported('outcome ' + o.kind)

    # ------------------------------------------------------------------ types
    def ty(self, e):
        return self.types.of(e['type'], self.frame.rec or '' if self.frame else '')
    def tyd(self, td):
        return self.types.of(td, self.frame.rec or '' if self.frame else '')
    def default_rec(self, t):
        """value-initialised record (default constructor)"""
        return self.construct_value(t[1], [])
    def rec_fields(self, rec):
        return [(n, self.types.of(td, rec)) for n, td, _ in self.ast.fields(rec)]

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        k = e['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        if '_line' in e: self.line = e['_line']
        return m(e)
    def rv(self, e):
        """rvalue of any expression"""
        v = self.ev(e)
        if isinstance(v, LV): return self.read(self.resolve(v))
        return v
    def lv(self, e):
        v = self.ev(e)
        if isinstance(v, LV): return self.resolve(v)
        return self.alloc(v)
    def use(self, v, what='value'):
        if isinstance(v, Uninit):
            self.oblig('%s/uninitialised %s read' % (self.where, what), False)
            raise Infeasible()
        if isinstance(v, MaybeV):
            self.oblig('%s/uninitialised %s read' % (self.where, what), v.c)
            return v.v
        return v
    def inner(self, e, i=0):
        xs = [c for c in e.get('inner', []) if c.get('kind') != 'FullComment']
        return xs[i]

    def e_IntegerLiteral(self, e): return int(e['value'])
    def e_CharacterLiteral(self, e): return int(e['value']) & 255
    def e_CXXBoolLiteralExpr(self, e): return bool(e['value'])
    def e_FloatingLiteral(self, e): return Fraction(float(e['value']))
    def e_CXXNullPtrLiteralExpr(self, e): return NULL
    def e_GNUNullExpr(self, e): return NULL
    def e_StringLiteral(self, e):
        s = c_unescape(e['value'])
        key = ('str', s)
        return self.alloc(s)
    def e_ConstantExpr(self, e): return self.ev(self.inner(e))
    def e_ParenExpr(self, e): return self.ev(self.inner(e))
    def e_ExprWithCleanups(self, e): return self.ev(self.inner(e))
    def e_CXXBindTemporaryExpr(self, e): return self.ev(self.inner(e))
    def e_SubstNonTypeTemplateParmExpr(self, e): return self.ev([c for c in e['inner'] if 'Decl' not in c['kind']][0])
    def e_MaterializeTemporaryExpr(self, e):
        v = self.ev(self.inner(e))
        return v if isinstance(v, LV) else self.alloc(v)
    def e_CXXDefaultArgExpr(self, e):
        if e.get('inner'): return self.ev(self.inner(e))
        raise Unsupported('default argument')
    def e_CXXDefaultInitExpr(self, e):
        if e.get('inner'): return self.ev(self.inner(e))
        raise Unsupported('default member initialiser')
    def e_CXXThisExpr(self, e):
        return PtrV(self.frame.this)
    def e_OpaqueValueExpr(self, e): return self.ev(self.inner(e))
    def e_CXXScalarValueInitExpr(self, e): return default_like(self.ty(e))
    def e_ImplicitValueInitExpr(self, e): return default_like(self.ty(e))
    def e_CXXNoexceptExpr(self, e): return True
    def e_UnaryExprOrTypeTraitExpr(self, e):
        if e.get('name') != 'sizeof': raise Unsupported('trait')
        if 'argType' in e: t = self.tyd(e['argType'])
        else: t = self.ty(e['inner'][0])
        return sizeof(t)

    def e_DeclRefExpr(self, e):
        rd = e['referencedDecl']
        did, kind = rd['id'], rd['kind']
        if kind in ('ParmVarDecl', 'VarDecl', 'BindingDecl', 'DecompositionDecl'):
            f = self.frame
            if did in f.env:
                lv = f.env[did]
                return lv
            return self.global_var(did, rd)
        if kind == 'EnumConstantDecl':
            if did in self.ast.enums: return self.ast.enums[did]
            raise Unsupported('enum constant ' + rd['name'])
        if kind in ('FunctionDecl', 'CXXMethodDecl'):
            return FuncV(None, ('fn', did, rd['name'], rd.get('type', {}).get('qualType')))
        raise Unsupported('declref ' + kind)
    def global_var(self, did, rd):
        if did in self.globals:
            loc, v = self.globals[did]
            if loc.loc not in self.st.mem: self.st.mem[loc.loc] = v
            return loc
        n = self.ast.by_id.get(did)
        if n is None: return self.std_global(rd)
        init = None
        for c in n.get('inner', []):
            if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal')): init = c
        if init is None:
            # static member declared in class, defined elsewhere
            for m in self.ast.by_id.values():
                if m.get('kind') == 'VarDecl' and m.get('mangledName') == n.get('mangledName') and m.get('mangledName'):
                    for c in m.get('inner', []):
                        if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal')): init = c
        if init is None: raise Unsupported('global without initialiser ' + rd['name'])
        sv, fr = self.st, self.frame
        self.frame = Frame(rec=n.get('_rec'))
        try:
            lv = self.alloc(None)
            self.init_into(lv, init, self.types.of(n['type'], n.get('_rec') or ''))
            v = self.st.mem[lv.loc]
        finally: self.frame = fr
        if 'const' not in n['type']['qualType'] and n.get('storageClass') == 'static' and not n.get('_rec'):
            raise Unsupported('mutable global ' + rd['name'])
        self.globals[did] = (lv, v)
        return lv
    def std_global(self, rd):
        if rd['name'] in ('cout', 'cerr', 'clog'): return self.alloc(OutV())
        raise Unsupported('external variable ' + rd['name'])

    def e_MemberExpr(self, e):
        name = e['name']
        b = self.ev(self.inner(e))
        if e.get('isArrow'):
            if isinstance(b, LV): b = self.read(self.resolve(b))
            b = self.deref(b)
        did = e.get('referencedMemberDecl')
        n = self.ast.by_id.get(did)
        if n is not None and n['kind'] == 'VarDecl': return self.global_var(did, {'name': name, 'id': did})
        if n is not None and n['kind'] == 'EnumConstantDecl': return self.ast.enums[did]
        if n is None:
            if name in ('beg', 'cur', 'end') : return {'beg': 0, 'cur': 1, 'end': 2}[name]
            if isinstance(b, LV):
                bv = self.read(self.resolve(b))
                if isinstance(bv, TupV): return LV(self.resolve(b).loc, self.resolve(b).path + (('t', {'first': 0, 'second': 1}[name]),))
            elif isinstance(b, TupV): return b.xs[{'first': 0, 'second': 1}[name]]
        if not isinstance(b, LV): b = self.alloc(b)
        b = self.resolve(b)
        return LV(b.loc, b.path + (('f', name),))
    def deref(self, p):
        """pointer value -> lvalue"""
        p = self.use(p, 'pointer')
        if isinstance(p, RefV): return p.lv
        if isinstance(p, LV): return p
        if isinstance(p, StructV): raise Unsupported('operator-> on object')
        if not isinstance(p, PtrV): raise Unsupported('deref of %s' % type(p).__name__)
        if p.lv is None:
            self.safe('null pointer dereference', False); raise Infeasible()
        if p.idx is None: return p.lv
        self.bounds(p.lv, p.idx)
        return LV(p.lv.loc, p.lv.path + (('i', p.idx),))
    def bounds(self, lv, idx, what='index in bounds'):
        v = self.read_raw(lv)
        if isinstance(v, RefV): v = self.read_raw(v.lv)
        n = v.n if isinstance(v, SeqV) else (slen(v) if isscalar(v) else None)
        if isinstance(v, SetV): n = v.seq.n
        if n is None: raise Unsupported('bounds of ' + type(v).__name__)
        self.safe(what, And(le(0, idx), lt(idx, n)))

    def e_ArraySubscriptExpr(self, e):
        xs = [c for c in e['inner']]
        p = self.rv(xs[0]); i = self.use(self.rv(xs[1]), 'index')
        return self.ptr_at(p, i)
    def ptr_at(self, p, i):
        if isinstance(p, PtrV):
            if p.lv is None: self.safe('null pointer dereference', False); raise Infeasible()
            if p.idx is None:
                if conc(i) and i == 0: return p.lv
                raise Unsupported('index on scalar pointer')
            j = add(p.idx, i)
            self.bounds(p.lv, j)
            return LV(p.lv.loc, p.lv.path + (('i', j),))
        raise Unsupported('subscript of %s' % type(p).__name__)

    # casts
    def cast(self, e):
        ck = e.get('castKind'); x = self.inner(e)
        if ck == 'LValueToRValue':
            v = self.ev(x)
            if isinstance(v, LV):
                v = self.read(self.resolve(v))
            if isinstance(v, (Uninit, MaybeV)) and self.ty(e)[0] in ('int', 'bool', 'fp', 'ptr'): v = self.use(v)
            return v
        if ck in ('NoOp', 'UserDefinedConversion', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dependent', 'LValueBitCast', 'AtomicToNonAtomic'):
            return self.ev(x)
        if ck == 'ToVoid': self.ev(x); return None
        if ck == 'FunctionToPointerDecay': return self.ev(x)
        if ck == 'BuiltinFnToFnPtr': return self.ev(x)
        if ck == 'ArrayToPointerDecay':
            lv = self.ev(x)
            return PtrV(self.resolve(lv), 0)
        if ck == 'NullToPointer': return NULL
        if ck == 'PointerToBoolean':
            p = self.rv(x); return not (isinstance(p, PtrV) and p.lv is None)
        if ck == 'IntegralToBoolean':
            v = self.use(self.rv(x))
            if conc(v): return v != 0
            return Not(veq(v, 0)) if not z3.is_bool(v) else v
        if ck == 'FloatingToBoolean':
            v = self.use(self.rv(x)); return Not(feq(v, Fraction(0)))
        if ck == 'IntegralCast':
            v = self.use(self.rv(x))
            return self.int_cast(v, self.ty(x), self.ty(e))
        if ck == 'BooleanToSignedIntegral':
            return b2i(self.use(self.rv(x)))
        if ck == 'IntegralToFloating':
            v = b2i(self.use(self.rv(x))); t = self.ty(x)
            bits = t[1] if t[0] == 'int' else 1
            return i2f(v, bits if bits <= 32 else None)
        if ck == 'FloatingToIntegral':
            v = self.use(self.rv(x)); t = self.ty(e)
            return self.fp_to_int(v, t)
        if ck == 'FloatingCast': 
            if 'float' in (e['type'].get('desugaredQualType') or e['type']['qualType']): raise Unsupported('binary32')
            return self.rv(x)
        if ck == 'BitCast':
            p = self.rv(x); ft, tt = self.ty(x), self.ty(e)
            return self.bitcast(p, ft, tt)
        if ck == 'Dynamic':
            p = self.rv(x); tt = self.ty(e)
            if isinstance(p, PtrV) and p.lv is not None:
                o = self.read(p.lv)
                return p if self.ast.derives(o.t, tt[1][1]) else NULL
            return p
        raise Unsupported('cast ' + str(ck))
    e_ImplicitCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = cast
    e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXDynamicCastExpr = cast
    def fp_to_int(self, v, t):
        r = f2i(v)
        lo = -(1 << (t[1] - 1)) if t[2] else 0
        hi = (1 << (t[1] - (1 if t[2] else 0)))
        # truncated value must be representable
        self.safe('floating value representable in target integer', And(flt(Fraction(lo - 1), v), flt(v, Fraction(hi))) if is_z(v) else lo - 1 < v < hi)
        return r
    def bitcast(self, p, ft, tt):
        if not isinstance(p, PtrV) or p.lv is None: return p
        if ft[0] != 'ptr' or tt[0] != 'ptr': raise Unsupported('bitcast')
        a, b = ft[1], tt[1]
        if a == b or b == ('void',) or (a[0] == 'int' and b[0] == 'int' and a[1] == b[1]): return p
        if b[0] == 'int' and b[1] == 8 and a[0] == 'int':
            if p.idx is None: return PtrV(LV(p.lv.loc, p.lv.path + (('b', a[1]),)), 0)
            raise Unsupported('byte view of array')
        if b[0] == 'int' and b[1] == 8 and a == ('void',): return p
        raise Unsupported('reinterpret_cast %s -> %s' % (ft, tt))
    def int_cast(self, v, ft, tt):
        if tt[0] == 'bool': return Not(veq(v, 0)) if not isinstance(v, bool) else v
        v = b2i(v)
        if tt[0] != 'int': return v
        ischar = ft == ('int', 8, True)
        if ischar and tt != ft:
            # chars are held as byte codes
            if conc(v): v = v - 256 if v >= 128 else v
            elif not self.known(lt(v, 128)): v = z3.If(v >= 128, v - 256, v)
        if ft[0] == 'int' and not ischar:
            flo, fhi = irange(ft); lo, hi = irange(tt) if tt != ('int', 8, True) else (0, 255)
            if lo <= flo and fhi <= hi: return v
            # 64-bit arithmetic is treated as mathematical, so a signed value that is not negative fits the unsigned type
            if ft == ('int', 64, True) and tt == ('int', 64, False) and not conc(v) and not self.guess and self.nonneg(v): return v
        return self.wrap(v, tt)
    def nonneg(self, v):
        if self.known(v >= 0): return True
        p, atoms = loops.poly(v)
        if not all(isinstance(c, int) and c >= 0 for c in p.values()): return False
        return all(self.known(a >= 0) for a in atoms.values())
    def wrap(self, v, tt):
        if tt == ('int', 8, True): lo, hi = 0, 255
        else: lo, hi = irange(tt)
        if conc(v):
            if lo <= v <= hi: return v
            m = hi - lo + 1
            return (v - lo) % m + lo
        if self.guess: return v
        if self.known(And(v >= lo, v <= hi)): return v
        m = hi - lo + 1
        if tt[1] == 64 and tt[2]: 
            self.assume_note('size_t values converted to signed 64-bit are below 2^63'); return v
        if tt[1] == 64:
            # signed -> unsigned conversion of a possibly negative value
            return z3.If(v >= 0, v, v + m)
        return simp((v - lo) % m + lo)
    def assume_note(self, s): NOTES.add(s)

    # operators
    def arith(self, op, a, b, t):
        if t[0] == 'fp':
            return {'+': fadd, '-': fsub, '*': fmul, '/': fdiv}[op](a, b)
        a, b = b2i(a), b2i(b)
        if t[0] == 'int' and not t[2] and t[1] == 64 and op in '+-' and not self.guess:
            # operands that are already wrapped differences: continue modulo 2^64 on the difference itself
            ua, ub = unwrapped(a), unwrapped(b)
            if ua is not None or ub is not None:
                a2, b2_ = ua if ua is not None else a, ub if ub is not None else b
                r = add(a2, b2_) if op == '+' else sub(a2, b2_)
                if conc(r): return r % (1 << 64)
                if self.known(r >= 0): return r
                return z3.If(r >= 0, r, r + (1 << 64))
        if op == '+': r = add(a, b)
        elif op == '-':
            r = sub(a, b)
            if t[0] == 'int' and not t[2]:
                if conc(r): return r % (1 << t[1])
                if self.guess: return r
                if self.known(r >= 0): return r
                return z3.If(r >= 0, r, r + (1 << t[1]))
        elif op == '*': r = mul(a, b)
        elif op in '/%':
            self.safe('division by zero', Not(ieq(b, 0)))
            if conc(a) and conc(b):
                if b == 0: raise Infeasible()
                q = abs(a) // abs(b); q = q if (a >= 0) == (b >= 0) else -q
                return q if op == '/' else a - q * b
            if not (t[0] == 'int' and not t[2]) and not (self.known(And(le(0, a), lt(0, b)))):
                raise Unsupported('signed division')
            return self.divmod(a, b)[0 if op == '/' else 1]
        elif op in ('<<', '>>', '&', '|', '^'): return self.bitop(op, a, b, t)
        else: raise Unsupported('operator ' + op)
        if t[0] == 'int' and t[1] < 64 and not conc(r): return self.wrap(r, t)
        if t[0] == 'int' and conc(r): return self.wrap(r, t)
        return r
    def divmod(self, a, b): return loops.divmod_sym(self, a, b)
    def bitop(self, op, a, b, t):
        if conc(a) and conc(b):
            r = {'<<': a << b, '>>': a >> b, '&': a & b, '|': a | b, '^': a ^ b}[op]
            return self.wrap(r, t)
        if op == '<<' and conc(b): return self.wrap(mul(a, 1 << b), t)
        if op == '>>' and conc(b): return simp(zi(a) / (1 << b)) if True else None
        if op == '&' and conc(b) and b >= 0 and (b & (b + 1)) == 0: return simp(zi(a) % (b + 1))
        if op == '&' and conc(a) and a >= 0 and (a & (a + 1)) == 0: return simp(zi(b) % (a + 1))
        if op == '&' and conc(b) and b > 0:
            # contiguous mask: bits lo..hi
            lo = (b & -b).bit_length() - 1; m = b >> lo
            if (m & (m + 1)) == 0: return simp(((zi(a) / (1 << lo)) % (m + 1)) * (1 << lo))
        if op == '|':
            # disjoint bits: a multiple of 2^k and b < 2^k
            for k in (8, 16, 24, 32, 40, 48, 56):
                if self.known(And(ieq(simp(zi(a) % (1 << k)), 0), le(0, b), lt(b, 1 << k))): return add(a, b)
                if self.known(And(ieq(simp(zi(b) % (1 << k)), 0), le(0, a), lt(a, 1 << k))): return add(a, b)
        raise Unsupported('bit operation ' + op)
    def compare(self, op, a, b, fp):
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            if op in ('==', '!='):
                r = eq_ptr(self, a, b)
                return r if op == '==' else Not(r)
            if a.lv.same(b.lv): a, b = a.idx, b.idx
            else: raise Unsupported('pointer comparison')
        if isscalar(a) and isscalar(b):
            if fp or (is_z(a) and a.sort() == R) or (is_z(b) and b.sort() == R):
                return {'<': flt(a, b), '>': flt(b, a), '<=': fle(a, b), '>=': fle(b, a), '==': feq(a, b), '!=': Not(feq(a, b))}[op]
            if op in ('==', '!='):
                r = veq(a, b); return r if op == '==' else Not(r)
            a, b = b2i(a), b2i(b)
            return {'<': lt(a, b), '>': lt(b, a), '<=': le(a, b), '>=': le(b, a)}[op]
        raise Unsupported('compare')
    def e_BinaryOperator(self, e):
        op = e['opcode']; l, r = [c for c in e['inner']]
        if op == '=':
            v = self.rv(r)
            tgt = self.lv(l)
            self.write(tgt, v); return tgt
        if op in ('&&', '||'): return self.logic(op, l, r)
        if op == ',': self.ev(l); return self.ev(r)
        a = self.rv(l); b = self.rv(r)
        a = self.use(a); b = self.use(b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, self.ty(l)[0] == 'fp')
        t = self.ty(e)
        if isinstance(a, PtrV) or isinstance(b, PtrV): return self.ptr_arith(op, a, b)
        return self.arith(op, a, b, t)
    def ptr_arith(self, op, a, b):
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if op == '-' and a.lv is not None and b.lv is not None and a.lv.same(b.lv): return sub(a.idx, b.idx)
            raise Unsupported('pointer difference')
        if isinstance(b, PtrV): a, b = b, a
        if a.lv is None:
            if conc(b) and b == 0: return a
            self.safe('null pointer arithmetic', False); raise Infeasible()
        if a.idx is None: raise Unsupported('arithmetic on scalar pointer')
        return PtrV(a.lv, add(a.idx, b) if op == '+' else sub(a.idx, b))
    def truth(self, v):
        v = self.use(v)
        if isinstance(v, PtrV): return v.lv is not None
        if conc(v): return bool(v)
        if z3.is_bool(v): return v
        if v.sort() == I: return Not(veq(v, 0))
        if v.sort() == R: return Not(feq(v, Fraction(0)))
        raise Unsupported('truth')
    def logic(self, op, l, r):
        a = self.truth(self.rv(l))
        a = simp(a)
        if conc(a):
            if op == '&&': return self.truth(self.rv(r)) if a else False
            return True if a else self.truth(self.rv(r))
        c = a if op == '&&' else Not(a)
        if not self.guess and self.known(c): return self.truth(self.rv(r))
        if not self.guess and self.known(Not(c)): return op == '||'
        mem0 = self.st.mem
        try: outs = self.explore(lambda: self.truth(self.rv(r)), [c])
        except Unsupported: outs = None
        if outs is not None and len(outs) == 1 and outs[0].kind == 'normal' and self.same_mem(mem0, outs[0].st.mem):
            o = outs[0]
            for f in o.delta[1:]: self.st.pc.append(Implies(c, f))
            return And(a, o.v) if op == '&&' else Or(a, o.v)
        if self.decide(a): return self.truth(self.rv(r)) if op == '&&' else True
        return False if op == '&&' else self.truth(self.rv(r))
    def same_mem(self, m0, m1):
        for k, v in m0.items():
            if m1.get(k) is not v: return False
        return True
    def e_CompoundAssignOperator(self, e):
        op = e['opcode'][:-1]; l, r = e['inner']
        b = self.rv(r)
        tgt = self.lv(l); a = self.read(tgt)
        a = self.use(a); b = self.use(b)
        lt_ = self.ty(l)
        ct = self.tyd(e['computeResultType']) if 'computeResultType' in e else lt_
        if isinstance(a, PtrV): v = self.ptr_arith(op, a, b)
        else:
            if ct[0] == 'fp' and lt_[0] != 'fp': a = i2f(b2i(a))
            elif ct[0] == 'int' and lt_[0] == 'int': a = self.int_cast(a, lt_, ct)
            if ct[0] == 'fp' and (not is_z(b) and not isinstance(b, Fraction)): b = Fraction(b)
            v = self.arith(op, a, b, ct)
            if lt_[0] == 'int' and ct[0] == 'int': v = self.int_cast(v, ct, lt_)
            elif lt_[0] == 'int' and ct[0] == 'fp': v = self.fp_to_int(v, lt_)
        self.write(tgt, v); return tgt
    def e_UnaryOperator(self, e):
        op = e['opcode']; x = self.inner(e)
        if op == '&':
            if self.inner(e)['kind'] == 'DeclRefExpr' and self.inner(e)['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return self.ev(x)
            lv = self.lv(x)
            return addr_of(lv)
        if op == '*':
            p = self.rv(x)
            if isinstance(p, FuncV): return p
            return self.deref(p)
        if op in ('++', '--'):
            lv = self.lv(x); v = self.use(self.read(lv)); t = self.ty(x)
            if isinstance(v, PtrV): nv = self.ptr_arith('+' if op == '++' else '-', v, 1)
            elif t[0] == 'fp': nv = fadd(v, Fraction(1 if op == '++' else -1))
            else: nv = self.arith(op[0], v, 1, t)
            self.write(lv, nv)
            return v if e.get('isPostfix') else lv
        v = self.use(self.rv(x))
        if op == '-':
            t = self.ty(e)
            if t[0] == 'fp': return fneg(v)
            return self.arith('-', 0, v, t)
        if op == '+': return v
        if op == '!': return Not(self.truth(v))
        if op == '~':
            t = self.ty(e); lo, hi = irange(t)
            return sub(hi, v) if not t[2] else sub(-1, v)
        raise Unsupported('unary ' + op)
    def e_ConditionalOperator(self, e):
        c, a, b = e['inner']
        cv = simp(self.truth(self.rv(c)))
        if conc(cv): return self.ev(a) if cv else self.ev(b)
        if not self.guess and self.known(cv): return self.ev(a)
        if not self.guess and self.known(Not(cv)): return self.ev(b)
        f = (lambda x: lambda: self.ev(x))
        oa = self.explore(f(a), [cv]); ob = self.explore(f(b), [Not(cv)])
        return self.settle(oa + ob)
    def e_CXXThrowExpr(self, e):
        if not e.get('inner'): raise Unsupported('rethrow')
        x = self.inner(e)
        t = (x['type'].get('desugaredQualType') or x['type']['qualType'])
        raise ThrowEx(t.split('::')[-1])
    def e_InitListExpr(self, e):
        t = self.ty(e); xs = [c for c in e.get('inner', [])]
        if e.get('valueCategory') == 'lvalue': return self.ev(xs[0])
        if t[0] in ('int', 'bool', 'fp', 'ptr'):
            return self.rv(xs[0]) if xs else default_like(t)
        if t[0] == 'arr':
            vs = [self.rv(x) for x in xs]
            if 'array_filler' in e: vs = [self.rv(c) for c in e['array_filler'] if c.get('kind') != 'ImplicitValueInitExpr']
            while len(vs) < t[2]: vs.append(default_like(t[1]))
            return SeqV.items(vs, t[1])
        if t[0] == 'rec':
            lv = self.alloc(self.blank(t[1])); self.agg_into(lv, e, t); 
            return self.read(lv)
        if t[0] == 'tup': return TupV([self.rv(x) for x in xs])
        if not xs: return default_like(t)
        if len(xs) == 1: return self.rv(xs[0])
        raise Unsupported('init list of ' + str(t))
    def agg_into(self, lv, e, t):
        flds = self.ast.fields(t[1]); xs = e.get('inner', [])
        for (nm, td, init), x in zip(flds, xs):
            self.init_into(lv.f(nm), x, self.types.of(td, t[1]))
        for nm, td, init in flds[len(xs):]:
            self.write(lv.f(nm), default_like(self.types.of(td, t[1])))
    def e_CXXStdInitializerListExpr(self, e):
        v = self.ev(self.inner(e))
        return self.read(v) if isinstance(v, LV) else v
    def e_LambdaExpr(self, e):
        return self.make_lambda(e)
    def make_lambda(self, e):
        rec = [c for c in e['inner'] if c['kind'] == 'CXXRecordDecl'][0]
        body = [c for c in e['inner'] if c['kind'] == 'CompoundStmt'][-1]
        meth = None
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': meth = c
            if c.get('kind') == 'FunctionTemplateDecl':
                for d in c.get('inner', []):
                    if d.get('kind') == 'CXXMethodDecl' and not self.ast._dependent(d): meth = d
        parms = [c for c in meth.get('inner', []) if c['kind'] == 'ParmVarDecl']
        # captures: fields of the closure in order, initialisers follow the record in e.inner
        flds = [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
        inits = [c for c in e['inner'] if c['kind'] not in ('CXXRecordDecl', 'CompoundStmt')]
        frame = self.frame
        env = dict(frame.env)
        for fd, ini in zip(flds, inits):
            t = self.tyd(fd['type'])
            if t[0] != 'ref':
                tgt = ini
                while tgt['kind'] != 'DeclRefExpr' and tgt.get('inner'): tgt = tgt['inner'][0]
                if tgt['kind'] == 'DeclRefExpr':
                    env[tgt['referencedDecl']['id']] = self.alloc(self.rv(ini))
        this = frame.this
        def call(it, args, env=env, this=this, rec=frame.rec):
            fr = Frame(fn=meth, this=this, rec=rec)
            fr.env = dict(env)
            return it.run_body(meth, body, parms, args, fr)
        fv = FuncV(call, 'lambda'); fv.site = e.get('id')
        return fv

    # ------------------------------------------------------------------ objects
    def blank(self, rec):
        return StructV(rec, {n: UNINIT for n, td, _ in self.ast.fields(rec)})
    def strip(self, e):
        while True:
            k = e['kind']
            if k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr'): e = self.inner(e)
            elif k == 'MaterializeTemporaryExpr': e = self.inner(e)
            elif k in ('CXXFunctionalCastExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr') and e.get('castKind') in ('ConstructorConversion',) : e = self.inner(e)
            elif k == 'CXXFunctionalCastExpr' and e.get('castKind') == 'NoOp': e = self.inner(e)
            elif k == 'CXXConstructExpr' and e.get('elidable') and len(e.get('inner', [])) == 1: e = e['inner'][0]
            else: return e
    def init_into(self, lv, e, t):
        """initialise storage lv of declared type t from expression e"""
        if t[0] == 'ref':
            self.write(lv, RefV(self.lv(e))); return
        s = self.strip(e)
        if t[0] == 'rec' and s['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            st = self.types.of(s['type'], self.frame.rec or '')
            if st[0] == 'rec':
                self.construct_into(lv, s, st[1]); return
        if t[0] == 'rec' and s['kind'] == 'InitListExpr' and s.get('valueCategory') == 'prvalue':
            self.write(lv, self.blank(t[1])); self.agg_into(lv, s, t); return
        if t[0] == 'rec' and s['kind'] == 'CXXDefaultInitExpr': raise Unsupported('default member init')
        v = self.rv(e)
        self.write(lv, v)
    def ctor_of(self, s, rec):
        want = sig_params(s['ctorType']['qualType'])
        cands = []
        short = rec.split('::')[-1].split('<')[0]
        for n in self.ast.records[rec].get('inner', []):
            if n.get('kind') == 'CXXConstructorDecl': cands.append(n)
            if n.get('kind') == 'FunctionTemplateDecl':
                for d in n.get('inner', []):
                    if d.get('kind') == 'CXXConstructorDecl': cands.append(d)
        for n in cands:
            if sig_params(n['type']['qualType']) == want: return n
        return None
    def construct_into(self, lv, s, rec):
        n = self.ctor_of(s, rec)
        args = [c for c in s.get('inner', [])]
        if n is None:
            # implicit
            if not args:
                self.write(lv, self.blank(rec)); self.default_init(lv, rec); return
            if len(args) == 1: self.write(lv, self.rv(args[0])); return
            raise Unsupported('constructor of ' + rec)
        self.run_ctor(lv, n, rec, args)
    def default_init(self, lv, rec):
        for b in self.ast.bases(rec):
            if b in self.ast.records: self.default_init_base(lv, b)
        for c in self.ast.records[rec].get('inner', []):
            if c.get('kind') == 'FieldDecl':
                t = self.types.of(c['type'], rec)
                init = [x for x in c.get('inner', []) if x.get('kind') not in ('FullComment',) and not x['kind'].endswith('Attr')]
                if c.get('hasInClassInitializer') and init: self.init_into(lv.f(c['name']), init[-1], t)
                elif t[0] in ('int', 'fp', 'bool', 'ptr'): pass
                elif t[0] == 'rec':
                    self.write(lv.f(c['name']), self.construct_value(t[1], []))
                else: self.write(lv.f(c['name']), default_like(t))
    def default_init_base(self, lv, b):
        ct = self.default_ctor(b)
        if ct is not None: self.run_ctor(lv, ct, b, [], base=True)
        else: self.default_init(lv, b)
    def default_ctor(self, rec):
        for n in self.ast.records[rec].get('inner', []):
            if n.get('kind') == 'CXXConstructorDecl' and not [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl'] and not n.get('isImplicit'):
                d = self.ast.by_mangled.get(n.get('mangledName'))
                return d or n
        return None
    def construct_value(self, rec, argvals, want=None):
        """value of rec constructed from already evaluated argument values"""
        lv = self.alloc(self.blank(rec))
        if not argvals:
            ct = self.default_ctor(rec)
            if ct is not None: self.run_ctor(lv, ct, rec, [])
            else: self.default_init(lv, rec)
            return self.read(lv)
        cands = []
        for n in self.ast.records[rec].get('inner', []):
            if n.get('kind') != 'CXXConstructorDecl' or n.get('isImplicit'): continue
            ps = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            if len(ps) < len(argvals) or (want and want not in n['type']['qualType']): continue
            if len(ps) > len(argvals) and not ps[len(argvals)].get('init'): continue
            cands.append((len(ps), n))
        cands.sort(key=lambda x: x[0])
        if not cands or len(cands) > 1 and cands[0][0] == cands[1][0]: raise Unsupported('no unique constructor of %s for %d arguments' % (rec, len(argvals)))
        n = cands[0][1]; d = self.ast.by_mangled.get(n.get('mangledName')) or n
        full = list(argvals)
        for i in range(len(argvals), cands[0][0]): full.append(self.default_arg(n, i))
        self.run_ctor(lv, n, rec, [], argvals=full)
        return self.read(lv)
    def run_ctor(self, lv, n, rec, argexprs, base=False, argvals=None):
        d = self.ast.by_mangled.get(n.get('mangledName')) or n
        parms = [c for c in d.get('inner', []) if c['kind'] == 'ParmVarDecl']
        inits = [c for c in d.get('inner', []) if c['kind'] == 'CXXCtorInitializer']
        body = [c for c in d.get('inner', []) if c['kind'] == 'CompoundStmt']
        if argvals is None: argvals = self.eval_args(argexprs, n)
        mk = self.models.get('ctor:' + rec)
        if mk is not None and mk(self, lv, argvals, d): return
        if n.get('isImplicit') or n.get('explicitlyDefaulted') or (not body and not inits):
            if len(argvals) == 1:
                v = argvals[0]; v = self.read(v) if isinstance(v, LV) else v
                if base and isinstance(v, StructV) and v.t != rec:      # copy of the base subobject only
                    for nm, _ in self.rec_fields(rec): self.write(lv.f(nm), v.f[nm])
                    return
                self.write(lv, v); return
            if not argvals:
                if not base: self.write(lv, self.blank(rec))
                self.default_init(lv, rec); return
            raise Unsupported('implicit constructor')
        q = d.get('_qual') or rec
        self.inlined.add(q)
        fr = Frame(fn=d, this=lv, rec=rec)
        old, oldw = self.frame, self.where
        self.bind_params(fr, parms, argvals)
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion depth')
        self.frame = fr; self.where = q
        try:
            if any('delegatingInit' in i for i in inits):
                i = [i for i in inits if 'delegatingInit' in i][0]
                s = self.strip(self.inner(i))
                self.construct_into(lv, s, rec)
            else:
                if not base:
                    self.write(lv, self.blank(rec))
                done = set()
                for b in self.ast.bases(rec):
                    if b not in self.ast.records: continue
                    bi = [i for i in inits if 'baseInit' in i and self.types.of(i['baseInit'], rec) == ('rec', b)]
                    if bi:
                        s = self.strip(self.inner(bi[0]))
                        cn = self.ctor_of(s, b)
                        if cn is None: self.default_init(lv, b)
                        else: self.run_ctor(lv, cn, b, s.get('inner', []), base=True)
                    else: self.default_init_base(lv, b)
                own = [c for c in self.ast.records[rec].get('inner', []) if c.get('kind') == 'FieldDecl']
                for c in own:
                    t = self.types.of(c['type'], rec)
                    fi = [i for i in inits if 'anyInit' in i and i['anyInit']['name'] == c['name']]
                    if fi:
                        x = self.inner(fi[0])
                        if x['kind'] == 'CXXDefaultInitExpr' and not x.get('inner'):
                            x = [y for y in c.get('inner', []) if y['kind'] != 'FullComment'][-1]
                        self.init_into(lv.f(c['name']), x, t)
                    else:
                        init = [x for x in c.get('inner', []) if x.get('kind') not in ('FullComment',) and not x['kind'].endswith('Attr')]
                        if c.get('hasInClassInitializer') and init: self.init_into(lv.f(c['name']), init[-1], t)
                        elif t[0] in ('int', 'fp', 'bool', 'ptr', 'ref', 'arr'): pass
                        elif t[0] == 'rec': self.write(lv.f(c['name']), self.construct_value(t[1], []))
                        else: self.write(lv.f(c['name']), default_like(t))
            if body:
                def run():
                    try: self.stmt(body[-1])
                    except ReturnEx: pass
                outs = self.explore(run)
                self.settle(outs)
        finally:
            self.frame = old; self.where = oldw; self.depth -= 1
    def e_CXXConstructExpr(self, e):
        t = self.ty(e)
        if t[0] == 'rec':
            lv = self.alloc(None)
            self.construct_into(lv, e, t[1])
            return self.read(lv)
        return self.std_construct(e, t)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def e_CXXInheritedCtorInitExpr(self, e): raise Unsupported('inherited ctor')
    def std_construct(self, e, t):
        import stdlib
        return stdlib.construct(self, e, t)
    def e_CXXNewExpr(self, e):
        t = self.ty(e)
        if e.get('isArray'):
            n = self.rv(e['inner'][0])
            lv = self.alloc(SeqV.fn(n, lambda i: UNINIT, t[1]))
            return PtrV(lv, 0)
        lv = self.alloc(UNINIT)
        if e.get('inner'): self.init_into(lv, e['inner'][0], t[1])
        return PtrV(lv)
    def e_CXXDeleteExpr(self, e):
        self.rv(self.inner(e)); return None

    # ------------------------------------------------------------------ calls
    def eval_args(self, argexprs, fnnode):
        """evaluate argument expressions: LV for glvalue arguments, values otherwise"""
        out = []
        parms = [c for c in (fnnode or {}).get('inner', []) if c.get('kind') == 'ParmVarDecl']
        d = self.ast.by_mangled.get((fnnode or {}).get('mangledName'))
        for i, a in enumerate(argexprs):
            if a['kind'] == 'CXXDefaultArgExpr' and not a.get('inner'):
                out.append(self.default_arg(fnnode, i)); continue
            out.append(self.ev(a))
        return out
    def default_arg(self, fnnode, i):
        for n in self.redecls(fnnode):
            parms = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            if i < len(parms):
                ini = [c for c in parms[i].get('inner', []) if c.get('kind') != 'FullComment']
                if ini:
                    old = self.frame
                    self.frame = Frame(rec=n.get('_rec'))
                    try: return self.rv(ini[-1])
                    finally: self.frame = old
        raise Unsupported('default argument of ' + str((fnnode or {}).get('name')))
    def redecls(self, n):
        if n is None: return []
        out = [n]
        m = n.get('mangledName')
        for x in self.ast.by_id.values():
            if m and x.get('mangledName') == m and x is not n: out.append(x)
        if not any(c.get('inner') for x in out for c in x.get('inner', []) if c.get('kind') == 'ParmVarDecl'):
            # template instantiation: default arguments live on the pattern
            nm, sc = n.get('name'), n.get('_scope')
            np = len([c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl'])
            for x in self.ast.by_id.values():
                if x.get('name') == nm and x.get('_scope') == sc and x.get('kind') == n.get('kind') and x is not n:
                    if len([c for c in x.get('inner', []) if c.get('kind') == 'ParmVarDecl']) == np: out.append(x)
        return out
    def bind_params(self, fr, parms, args):
        for p, a in zip(parms, args):
            t = self.types.of(p['type'], fr.rec or '')
            if t[0] == 'ref':
                if not isinstance(a, LV): a = self.alloc(a)
                fr.env[p['id']] = self.resolve(a)
            else:
                if isinstance(a, LV): a = self.read(self.resolve(a))
                fr.env[p['id']] = self.alloc(a)
    def run_body(self, fn, body, parms, args, fr):
        self.depth += 1
        if self.depth > 60: self.depth -= 1; raise Unsupported('recursion depth')
        old, oldw = self.frame, self.where
        self.bind_params(fr, parms, args)
        self.frame = fr; self.where = fn.get('_qual') or fn.get('name')
        try:
            def run():
                self.frame = fr
                try:
                    self.stmt(body)
                    return None
                except ReturnEx as r: return r.v
            outs = self.explore(run)
            if not outs: raise Infeasible()
            return self.settle(outs)
        finally:
            self.frame, self.where = old, oldw; self.depth -= 1
    def call_fn(self, n, this, args, virtual=False):
        """call function declaration node n with evaluated args"""
        d = self.ast.by_mangled.get(n.get('mangledName')) if n.get('mangledName') else n
        if virtual and this is not None:
            o = self.read(this)
            if isinstance(o, StructV):
                v = self.ast.find_virtual(o.t, n['name'], n['type']['qualType'])
                if v is not None: d = v
        if d is None: d = n
        q = d.get('_qual') or n.get('name')
        key = q
        if key in self.models:
            r = self.models[key](self, this, args, d)
            if r is not NotImplemented:
                self.contracted.add(q); return r
        body = [c for c in d.get('inner', []) if c.get('kind') == 'CompoundStmt']
        parms = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        if not body:
            if d.get('explicitlyDefaulted') or d.get('isImplicit'):
                if d['name'] == 'operator=':
                    v = args[0]; self.write(this, self.read(self.resolve(v)) if isinstance(v, LV) else v); return this
            raise Unsupported('no body for ' + str(q))
        self.inlined.add(q)
        fr = Frame(fn=d, this=this, rec=d.get('_rec'))
        r = self.run_body(d, body[-1], parms, args, fr)
        t = d['type']['qualType']
        ret = self.types.parse(t[:t.index('(')] if '(' in t else t, d.get('_rec') or '')
        if ret[0] != 'ref' and isinstance(r, LV): r = self.read(self.resolve(r))
        return r
    def e_CallExpr(self, e):
        import stdlib
        c = e['inner'][0]; args = e['inner'][1:]
        x = c
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'): x = self.inner(x)
        if x['kind'] == 'MemberExpr':
            n = self.ast.by_id.get(x.get('referencedMemberDecl'))
            if n is not None: return self.call_fn(n, None, self.eval_args(args, n))
            return stdlib.function(self, x['name'], args, e, self.ev)
        if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            rd = x['referencedDecl']
            n = self.ast.by_id.get(rd['id'])
            if n is None:       # explicit specialization: referenced through its primary template's instantiation
                c_ = [m for l in self.ast.by_qual.values() for m in l if m.get('previousDecl') == rd['id']]
                if len(c_) == 1: n = c_[0]
            if n is None: return stdlib.function(self, rd['name'], args, e, self.ev)
            return self.call_fn(n, None, self.eval_args(args, n))
        f = self.rv(c)
        if isinstance(f, FuncV): return self.call_func(f, [self.ev(a) for a in args])
        raise Unsupported('call of ' + x['kind'])
    def call_func(self, f, args):
        if f.call is not None: return f.call(self, args)
        if isinstance(f.desc, tuple) and f.desc[0] == 'fn':
            n = self.ast.by_id.get(f.desc[1])
            if n is not None: return self.call_fn(n, None, args)
        raise Unsupported('call through function value ' + str(f.desc))
    def e_CXXMemberCallExpr(self, e):
        import stdlib
        m = e['inner'][0]; args = e['inner'][1:]
        while m['kind'] == 'ParenExpr': m = self.inner(m)
        if m['kind'] != 'MemberExpr': raise Unsupported('member call')
        obj = self.inner(m)
        n = self.ast.by_id.get(m.get('referencedMemberDecl'))
        b = self.ev(obj)
        if m.get('isArrow'):
            if isinstance(b, LV): b = self.read(self.resolve(b))
            if isinstance(b, PtrV) and b.lv is None:
                self.safe('null pointer dereference', False); raise Infeasible()
            b = self.deref(b)
        if isinstance(b, LV): b = self.resolve(b)
        if n is not None:
            if not isinstance(b, LV): b = self.alloc(b)
            a = self.eval_args(args, n)
            # `Base::f(x)` on the implicit this names its function statically: the MemberExpr then spans more than the name token
            r, oo = m.get('range', {}), obj
            while oo['kind'] == 'ImplicitCastExpr': oo = self.inner(oo)
            qualified = oo['kind'] == 'CXXThisExpr' and oo.get('implicit') and \
                r.get('begin', {}).get('offset') != r.get('end', {}).get('offset')
            virt = not qualified and self.is_virtual(n)
            return self.call_fn(n, b, a, virtual=virt)
        return stdlib.method(self, b, m['name'], args, e, obj)
    def is_virtual(self, n):
        if n.get('virtual'): return True
        if any(c.get('kind') == 'OverrideAttr' for c in n.get('inner', [])): return True
        p = self.ast.by_id.get(n.get('previousDecl'))       # out-of-line definition: the keyword is on the declaration in the class
        return p is not None and p is not n and self.is_virtual(p)
    def e_CXXOperatorCallExpr(self, e):
        import stdlib
        c = e['inner'][0]; args = e['inner'][1:]
        x = c
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'): x = self.inner(x)
        rd = x.get('referencedDecl', {})
        n = self.ast.by_id.get(rd.get('id'))
        if n is not None:
            if n['kind'] == 'CXXMethodDecl' and n.get('storageClass') != 'static':
                if n['name'] == 'operator()' and 'lambda' in str(args[0].get('type')):
                    f = self.rv(args[0]); return self.call_func(f, [self.ev(a) for a in args[1:]])
                this = self.lv(args[0])
                return self.call_fn(n, this, self.eval_args(args[1:], n), virtual=self.is_virtual(n))
            return self.call_fn(n, None, self.eval_args(args, n))
        return stdlib.operator(self, rd.get('name'), args, e)

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        k = s.get('kind')
        if k is None: return
        if '_line' in s: self.line = s['_line']
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(s)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k == 'ExprWithCleanups':
            self.ev(s); return
        raise Unsupported('statement ' + k)
    def s_CompoundStmt(self, s):
        for c in s.get('inner', []): self.stmt(c)
    def s_NullStmt(self, s): pass
    def s_AttributedStmt(self, s):
        for c in s['inner']:
            if not c['kind'].endswith('Attr'): self.stmt(c)
    def s_LabelStmt(self, s): self.stmt(s['inner'][-1])
    def s_GCCAsmStmt(self, s):
        if s.get('inner'): raise Unsupported('asm')
    def s_DeclStmt(self, s):
        for d in s.get('inner', []):
            if d['kind'] == 'VarDecl': self.declare(d)
            elif d['kind'] == 'DecompositionDecl': self.decompose(d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl', 'CXXRecordDecl'): pass
            else: raise Unsupported('declaration ' + d['kind'])
    def decompose(self, d):
        inner = [c for c in d.get('inner', []) if c['kind'] != 'FullComment']
        init = [c for c in inner if c['kind'] != 'BindingDecl'][0]
        v = self.ev(init)
        lv = self.resolve(v) if isinstance(v, LV) else self.alloc(v)
        t = self.tyd(d['type'])
        if t[0] != 'ref': lv = self.alloc(self.read(lv))
        val = self.read(lv)
        for i, b in enumerate(c for c in inner if c['kind'] == 'BindingDecl'):
            if isinstance(val, TupV): self.frame.env[b['id']] = LV(lv.loc, lv.path + (('t', i),))
            elif isinstance(val, StructV): self.frame.env[b['id']] = lv.f(list(val.f)[i])
            else: raise Unsupported('structured binding')
    def declare(self, d):
        t = self.tyd(d['type'])
        init = [c for c in d.get('inner', []) if c.get('kind') != 'FullComment' and not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static':
            if 'const' not in d['type']['qualType']: raise Unsupported('mutable static local')
        if t[0] == 'ref':
            lv = self.lv(init[-1])
            self.frame.env[d['id']] = lv
            return
        if t[0] == 'unk' and init and init[-1]['kind'] == 'LambdaExpr': pass
        lv = self.alloc(UNINIT if t[0] in ('int', 'fp', 'bool', 'ptr', 'unk') else None)
        self.frame.env[d['id']] = lv
        if init: self.init_into(lv, init[-1], t)
        elif t[0] == 'arr': self.write(lv, SeqV.items([UNINIT] * t[2], t[1]))
        elif t[0] not in ('int', 'fp', 'bool', 'ptr', 'unk'): self.write(lv, default_like(t))
    def s_ReturnStmt(self, s):
        if s.get('inner'):
            x = self.inner(s)
            v = self.ev(x)
            fn = self.frame.fn
            raise ReturnEx(self.retval(v, fn))
        raise ReturnEx(None)
    def retval(self, v, fn):
        if isinstance(v, LV):
            t = (fn or {}).get('type', {}).get('qualType', '')
            r = self.types.parse(t[:t.index('(')], (fn or {}).get('_rec') or '') if '(' in t else ('unk',)
            if r == ('unk', 'auto') or r[0] == 'unk' and '->' in t: r = self.types.parse(t.split('->')[-1])
            if r[0] != 'ref': return self.read(self.resolve(v))
            return self.resolve(v)
        return v
    def s_BreakStmt(self, s): raise BreakEx()
    def s_ContinueStmt(self, s): raise ContinueEx()
    def s_IfStmt(self, s):
        xs = [c for c in s['inner']]
        i = 0
        if s.get('hasInit'): self.stmt(xs[0]); i = 1
        if s.get('hasVar'): self.stmt(xs[i]); i += 1
        cond, th = xs[i], xs[i + 1]
        el = xs[i + 2] if len(xs) > i + 2 else None
        c = simp(self.truth(self.rv(cond)))
        if s.get('isConstexpr') and not conc(c): raise Unsupported('if constexpr')
        self.branch(c, lambda: self.stmt(th), (lambda: self.stmt(el)) if el else (lambda: None))
    def branch(self, c, fa, fb):
        if conc(c): return fa() if c else fb()
        if not self.guess:
            if self.known(c): return fa()
            if self.known(Not(c)): return fb()
        outs = self.explore(lambda: fa(), [c]) + self.explore(lambda: fb(), [Not(c)])
        return self.settle(outs)
    def s_SwitchStmt(self, s):
        xs = [c for c in s['inner'] if c]
        v = self.use(self.rv(xs[-2])); body = xs[-1]
        flat = []   # (labels, stmt)
        def add_(st):
            labels = []
            while st['kind'] in ('CaseStmt', 'DefaultStmt'):
                if st['kind'] == 'CaseStmt':
                    labels.append(self.rv(st['inner'][0])); st = st['inner'][-1]
                else: labels.append('default'); st = st['inner'][-1]
            flat.append((labels, st))
        for st in body.get('inner', []): add_(st)
        cases = [(l, i) for i, (ls, _) in enumerate(flat) for l in ls if l != 'default']
        dflt = [i for i, (ls, _) in enumerate(flat) if 'default' in ls]
        def run_from(i):
            try:
                for _, st in flat[i:]: self.stmt(st)
            except BreakEx: pass
        def go(cs):
            if not cs:
                if dflt: run_from(dflt[0])
                return
            l, i = cs[0]
            self.branch(simp(veq(v, l)), lambda: run_from(i), lambda: go(cs[1:]))
        go(cases)
    def s_ForStmt(self, s):
        init, var, cond, inc, body = s['inner']
        if init: self.stmt(init)
        loops.loop(self, s, (lambda: self.truth(self.rv(cond))) if cond else (lambda: True), lambda: self.stmt(body), (lambda: self.ev(inc)) if inc else (lambda: None))
    def s_WhileStmt(self, s):
        xs = s['inner']
        cond, body = xs[-2], xs[-1]
        if len(xs) > 2: raise Unsupported('while with declaration')
        loops.loop(self, s, lambda: self.truth(self.rv(cond)), lambda: self.stmt(body), lambda: None)
    def s_DoStmt(self, s):
        body, cond = s['inner']
        try:
            try: self.stmt(body)
            except ContinueEx: pass
            loops.loop(self, s, lambda: self.truth(self.rv(cond)), lambda: self.stmt(body), lambda: None)
        except BreakEx: pass
    def s_CXXForRangeStmt(self, s):
        init, rng, beg, end, cond, inc, var, body = s['inner']
        if init: self.stmt(init)
        rd = rng['inner'][0]
        r = self.lv([c for c in rd['inner'] if c['kind'] != 'FullComment'][-1])
        import stdlib
        v = self.read(r)
        if isinstance(v, StructV):
            self.frame.env[rd['id']] = r
            self.stmt(beg); self.stmt(end)
            loops.loop(self, s, lambda: self.truth(self.rv(cond)), lambda: (self.stmt(var), self.stmt(body)), lambda: self.ev(inc))
            return
        # standard container: counted iteration
        n, elem = stdlib.range_of(self, r)
        it = self.alloc(0)
        vd = var['inner'][0]
        t = self.tyd(vd['type'])
        def body_():
            i = self.read(it)
            e = elem(i)
            if vd['kind'] == 'DecompositionDecl':
                lv = e if isinstance(e, LV) else self.alloc(e)
                val = self.read(self.resolve(lv))
                for k, b in enumerate(c for c in vd.get('inner', []) if c['kind'] == 'BindingDecl'):
                    self.frame.env[b['id']] = LV(lv.loc, lv.path + (('t', k),))
            elif t[0] == 'ref':
                self.frame.env[vd['id']] = self.resolve(e) if isinstance(e, LV) else self.alloc(e)
            else:
                self.frame.env[vd['id']] = self.alloc(self.read(self.resolve(e)) if isinstance(e, LV) else e)
            self.stmt(body)
        loops.loop(self, s, lambda: lt(self.read(it), n()), body_, lambda: self.write(it, add(self.read(it), 1)))
    def s_CXXTryStmt(self, s):
        body = s['inner'][0]; handlers = s['inner'][1:]
        outs = self.explore(lambda: self.stmt(body))
        def go():
            return self.settle(outs)
        try: go()
        except ThrowEx as ex:
            for h in handlers:
                hv = [c for c in h.get('inner', []) if c.get('kind') == 'VarDecl']
                hb = [c for c in h['inner'] if c.get('kind') == 'CompoundStmt'][-1]
                if not hv or catches(hv[0]['type']['qualType'], ex.t):
                    if hv and hv[0].get('name'): self.frame.env[hv[0]['id']] = self.alloc(UNINIT)
                    self.stmt(hb); return
            raise

NOTES = set()

def unwrapped(x):
    """v when x is the term If(v >= 0, v, v + 2^64)"""
    if not is_z(x) or x.decl().kind() != z3.Z3_OP_ITE: return None
    c, a, b = x.children()
    d = z3.simplify(b - a)
    if z3.is_int_value(d) and d.as_long() == 1 << 64 and z3.simplify(c).eq(z3.simplify(a >= 0)): return a
    return None
def catches(t, ex):
    t = t.replace('const', '').replace('&', '').strip().split('::')[-1]
    if t == ex: return True
    if t == 'exception': return True
    if t == 'runtime_error' and ex in ('range_error', 'overflow_error'): return True
    if t == 'logic_error' and ex in ('out_of_range', 'invalid_argument'): return True
    return False

def addr_of(lv):
    """address of an lvalue: element addresses keep their sequence"""
    if lv.path and lv.path[-1][0] == 'i': return PtrV(LV(lv.loc, lv.path[:-1]), lv.path[-1][1])
    return PtrV(lv)

def eq_ptr(it, a, b):
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.lv is None or b.lv is None: return a.lv is None and b.lv is None
        if not a.lv.same(b.lv): return False
        if (a.idx is None) != (b.idx is None): return False
        return True if a.idx is None else ieq(a.idx, b.idx)
    raise Unsupported('pointer equality')

def lvmerge(c, a, b):
    if isinstance(a, LV) and isinstance(b, LV):
        if a.same(b): return a
        raise Unsupported('merge lvalues')
    if isinstance(a, LV) or isinstance(b, LV): raise Unsupported('merge lvalue/value')
    if a is None or b is None: raise Unsupported('merge none')
    return vmerge(c, a, b)

def vmerge(c, a, b):
    if a is b: return a
    if isinstance(a, ByteInt) or isinstance(b, ByteInt):
        if isinstance(a, ByteInt) and isinstance(b, ByteInt): return ByteInt([vite(c, x, y) for x, y in zip(a.b, b.b)], a.bits)
        if isinstance(a, ByteInt): a = a.value()
        if isinstance(b, ByteInt): b = b.value()
    return loops.merge_seq(c, a, b)

def simp_or(conds):
    d = Or(*conds)
    return simp(d) if is_z(d) else d

def b2i(v):
    if isinstance(v, bool): return int(v)
    if is_z(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v

def irange(t):
    if t[0] == 'bool': return 0, 1
    if t[2]: return -(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1
    return 0, (1 << t[1]) - 1

def sizeof(t):
    if t[0] == 'int': return t[1] // 8
    if t[0] == 'bool': return 1
    if t[0] == 'fp': return 8
    if t[0] == 'arr': return sizeof(t[1]) * t[2]
    if t[0] in ('ptr',): return 8
    raise Unsupported('sizeof %s' % (t,))

def bytes_of(v, bits):
    n = bits // 8
    if isinstance(v, ByteInt): return v.b
    if isinstance(v, Uninit): return [UNINIT] * n
    v = b2i(v)
    if conc(v): return [(v >> (8 * k)) & 255 for k in range(n)]
    return [simp((zi(v) / (256 ** k)) % 256) for k in range(n)]

def seq_of_str(s):
    et = ('int', 8, True)
    if isinstance(s, str): return SeqV.items([ord(c) for c in s], et)
    return SeqV.fn(slen(s), lambda i: schar(s, i), et)

def c_unescape(s):
    s = s[s.index('"') + 1:-1]
    out = ''; i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 1; c = s[i]
            m = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'", 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '?': '?'}
            if c in '01234567':
                j = i
                while j < len(s) and j < i + 3 and s[j] in '01234567': j += 1
                out += chr(int(s[i:j], 8)); i = j; continue
            if c == 'x':
                j = i + 1
                while j < len(s) and s[j] in '0123456789abcdefABCDEF': j += 1
                out += chr(int(s[i + 1:j], 16)); i = j; continue
            out += m[c]
        else: out += c
        i += 1
    return out

def sig_params(t):
    import re
    i = t.index('(')
    t = t[i:]
    t = re.sub(r'\bnoexcept\b|\bstd::|\bEdgeLearning::|\bstruct |\bclass ', '', t)
    return re.sub(r'\s+', '', t)
