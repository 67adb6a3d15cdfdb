"""Function contracts: set up an arbitrary pre-state satisfying the precondition, execute the real body symbolically,
and emit the postcondition obligations for every way the body can finish."""
import sys, time, traceback, os, json, multiprocessing as mp
sys.setrecursionlimit(20000)
import z3
import terms as T
from terms import *
import values as VV
from values import *
import interp as IN
from interp import Interp
import stdlib, loops
from astload import AST

class Env:
    """helpers to build symbolic pre-states"""
    def __init__(self, it): self.it = it; self.pre = []
    def nat(self, name, lo=0, hi=None):
        c = const(name, I)
        self.it.st.pc.append(c >= lo)
        self.it.st.pc.append(c < (hi if hi is not None else 2 ** 62))
        return c
    def int(self, name): return const(name, I)
    def real(self, name): return const(name, R)
    def bool(self, name): return const(name, B)
    def string(self, name): return const(name, S)
    def assume(self, c): self.it.assume(c)
    def seq(self, name, n, et=('fp',)):
        """sequence value of length n with arbitrary elements"""
        s = sort_of(et)
        if s is not None:
            f = func(name, I, s)
            sv = SeqV.fn(n, lambda i: f(zi(i)), et)
        else:
            sv = SeqV.fn(n, fresh_fn(et, name, (), self.it.rec_fields), et)
        return sv
    def uninit(self, n, et=('fp',)): return SeqV.fn(n, lambda i: UNINIT, et)
    def lv(self, v): return self.it.alloc(v)
    def ptr(self, v, idx=0):
        """pointer to element idx of a fresh array object"""
        return PtrV(self.it.alloc(v), idx)
    def svec(self, name, et, facts=True):
        n = self.nat(name + '.n')
        return self.seq(name, n, et)
    def at(self, p, i):
        """element i of the array p points into, in the current state"""
        return self.it.read(p.lv).get(add(p.idx, i))
    def fold(self, init, step, n):
        # own names for the bound variables: folds may be nested
        def f(a, k):
            a1, k1 = const('facc', a[0].sort()), const('fk', I)
            return [z3.substitute(coerce(term(step(a1, k1)), a[0].sort()), (a1, a[0]), (k1, k))]
        return mk_fold([init], f, n)[0]

class Seen:
    """what the driver showed through seen(x): kept in the symbolic memory, so that every path keeps its own"""
    def __init__(self, env, raw=False, fn='EdgeLearning::drv::seen'):
        self.env = env; self.cell, self.at = env.it.alloc(0), env.it.alloc(NULL)
        def f(it, this, a, d):
            lv = it.resolve(a[0]); it.st.mem[self.cell.loc] = it.read_raw(lv) if raw else it.read(lv); it.st.mem[self.at.loc] = PtrV(lv); return None
        env.it.models = dict(env.it.models, **{fn: f})
    def __getitem__(self, i): return self.env.it.st.mem[self.cell.loc]
    @property
    def lv(self): return self.env.it.st.mem[self.at.loc].lv
class Result:
    def __init__(self, name):
        self.name = name; self.obls = []; self.status = 'proved'; self.note = ''
        self.inlined = set(); self.contracted = set(); self.std = set(); self.notes = set(); self.loops = 0
        self.time = 0; self.solver = 0.0; self.queries = 0; self.fn = ''; self.file = ''

def pick(ast, qual, nparams=None, sig=None):
    c = [n for n in ast.by_qual.get(qual, [])]
    if nparams is not None: c = [n for n in c if len([p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']) == nparams]
    if sig is not None: c = [n for n in c if sig in n['type']['qualType']]
    c = {n.get('mangledName'): n for n in c if not ast._dependent(n)}
    c = list(c.values())
    if len(c) != 1: raise KeyError('%d definitions of %s (%s)' % (len(c), qual, [x['type']['qualType'] for x in c]))
    return c[0]

class Contract:
    """name, function selector, setup(env)->(this, args, post); post(env, outcome)->[(name, goal)]"""
    def __init__(self, name, fn, setup, models=None, opts=None, nparams=None, sig=None, calls=None):
        self.name, self.fn, self.setup, self.models, self.opts = name, fn, setup, models or {}, opts or {}
        self.nparams, self.sig, self.calls = nparams, sig, calls

def run_contract(ast, c, debug=False):
    r = Result(c.name)
    t0 = time.time()
    old = dict(T.OPT); T.OPT.update(c.opts)
    q0, s0 = T.STATS.queries, T.STATS.time
    stdlib.USED.clear(); IN.NOTES.clear()
    try:
        it = Interp(ast, models=c.models)
        env = Env(it)
        if c.fn is not None:
            fn = pick(ast, c.fn, c.nparams, c.sig)
            r.fn = fn['_qual']
        it.where = c.name
        def go():
            pass
        # the setup may itself explore (constructors); run everything inside one exploration
        state = {}
        def thunk():
            this, args, post = c.setup(env)
            state['post'] = post
            n = len(it.st.pc)
            env.pre = list(it.st.pc)
            if c.calls is not None: v = c.calls(env, this, args)
            elif this is not None or c.fn is not None:
                v = it.call_fn(fn, this, args) if c.fn is not None else None
            else: v = None
            return v
        # post needs its own closure per path
        outs = []
        base = it.st
        work_posts = []
        def thunk2():
            v = None; kind = 'normal'
            try: v = thunk()
            except IN.Ctl as e: kind, v = e.kind, e.v
            post = state['post']
            work_posts.append((kind, v, post, it.st, list(env.pre)))
            o = IN.Outcome(kind, v, it.st, [])
            def emit():
                for nm, g in (post(env, o) or []):
                    it.sink.append(('%s/%s' % (c.name, nm), 'post', list(it.st.pc), g))
            emit()
            return None
        it.explore(thunk2)
        if not work_posts: r.status = 'vacuous'; r.note = 'no outcome reached'
        r.inlined, r.contracted, r.loops = set(it.inlined), set(it.contracted), len(it.loopinfo)
        # vacuity: the precondition is satisfiable
        if work_posts:
            sat, _ = T.check(work_posts[0][4], timeout=3000)
            if sat == 'unsat': r.status = 'vacuous'; r.note = 'precondition unsatisfiable'
        for (nm, kind, pc, g) in it.sink:
            t1 = time.time()
            if kind == 'invariant' and pc is None: r.obls.append((nm, kind, 'proved', 'z3', 0)); continue
            res, info = prove(pc, g)
            if res == 'proved': r.obls.append((nm, kind, 'proved', info, time.time() - t1))
            else:
                m = None
                if res == 'refuted' and info is not None:
                    try: m = model_str(info)
                    except Exception: m = None
                if debug: print('FAILED', nm, res); print('   goal', g)
                r.obls.append((nm, kind, 'refuted' if res == 'refuted' else 'unknown', m, time.time() - t1))
                if r.status == 'proved': r.status = 'failed'
    except Unsupported as e:
        r.status = 'unsupported'; r.note = str(e)
        if debug: traceback.print_exc()
    except z3.Z3Exception as e:
        r.status = 'unsupported'; r.note = 'z3: ' + str(e)[:200]
        if debug: traceback.print_exc()
    except RecursionError as e:
        r.status = 'unsupported'; r.note = 'recursion'
    except KeyError as e:
        r.status = 'unsupported'; r.note = 'missing: ' + str(e)[:300]
        if debug: traceback.print_exc()
    except Exception as e:
        r.status = 'unsupported'; r.note = 'internal: ' + repr(e)[:300]
        if debug: traceback.print_exc()
    finally:
        T.OPT.clear(); T.OPT.update(old)
    r.std = set(stdlib.USED); r.notes = set(IN.NOTES)
    r.time = time.time() - t0; r.queries = T.STATS.queries - q0; r.solver = T.STATS.time - s0
    return r

def model_str(m):
    out = []
    for d in m.decls()[:60]:
        s = '%s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:160])
        if not d.name().startswith(('fold', 'z3name')): out.append(s)
    return '; '.join(out[:40])

def _worker(args):
    i, = args
    return run_contract(_AST, _CS[i])
def run_all(ast, contracts, jobs=None, tmo=None):
    """verify contracts in parallel processes"""
    global _AST, _CS
    _AST, _CS = ast, contracts
    jobs = jobs or min(8, os.cpu_count() or 4)
    tmo = tmo or float(os.environ.get('CPPV_TIMEOUT', '240'))
    ctx = mp.get_context('fork')
    res = [None] * len(contracts)
    running = {}; todo = list(range(len(contracts)))
    import select
    def start(i):
        rd, wr_ = ctx.Pipe(False)
        def body():
            try: wr_.send(run_contract(ast, contracts[i]))
            except BaseException as e:
                rr = Result(contracts[i].name); rr.status = 'unsupported'; rr.note = 'internal: ' + repr(e)[:300]
                try: wr_.send(rr)
                except BaseException: pass
            wr_.close(); os._exit(0)
        p = ctx.Process(target=body); p.start(); wr_.close()
        running[i] = (p, rd, time.time())
    while todo or running:
        while todo and len(running) < jobs: start(todo.pop(0))
        mp.connection.wait([x[1] for x in running.values()], timeout=1)
        for i in list(running):
            p, rd, t0 = running[i]
            done = None
            if rd.poll():
                try: done = rd.recv()
                except EOFError: 
                    done = Result(contracts[i].name); done.status = 'unsupported'; done.note = 'verifier process ended'
            elif time.time() - t0 > max(tmo, contracts[i].opts.get('limit', 0)):
                done = Result(contracts[i].name); done.status = 'unsupported'; done.note = 'time limit of %ds' % tmo
                done.time = time.time() - t0
                p.terminate()
            elif not p.is_alive() and not rd.poll():
                done = Result(contracts[i].name); done.status = 'unsupported'; done.note = 'verifier process ended'
            if done is not None:
                res[i] = done; rd.close(); p.join(2)
                if p.is_alive(): p.kill()
                del running[i]
    return res
import multiprocessing.connection
