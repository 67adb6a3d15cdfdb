"""Meaning of the ghost functions used by the contract drivers."""
from terms import *
from values import *

def streams(it, lv, v, out):
    if isinstance(v, StreamV): out.append(lv)
    elif isinstance(v, StructV):
        for k, x in v.f.items(): streams(it, lv.f(k), x, out)
    return out

def history(it, this, args, decl):
    """Arbitrary earlier calls: every stream of the object is left at an arbitrary position with arbitrary eof/fail flags
    allowed by the invariant (the stream is open on the same file)."""
    lv = it.resolve(args[0]); v = it.read(lv)
    for s in streams(it, lv, v, []):
        x = it.read(s)
        p = const('hist.pos', I)
        it.st.pc += [p >= 0]
        fl = const('hist.eof', B), const('hist.fail', B)
        it.write(s, x.upd(pos=p, eof=fl[0], fail=fl[1]))
    SNAP[lv.key()] = it.read(lv)
    return None
SNAP = {}
def history_clean(it, this, args, decl):
    lv = it.resolve(args[0]); v = it.read(lv)
    for s in streams(it, lv, v, []):
        x = it.read(s)
        p = const('hist.pos', I); it.st.pc += [p >= 0]
        it.write(s, x.upd(pos=p, eof=const('hist.eof', B), fail=False))
    return None
def invariant(it, this, args, decl):
    lv = it.resolve(args[0]); v = it.read(lv)
    for s in streams(it, lv, v, []):
        x = it.read(s)
        it.oblig('class invariant: file streams stay open', x.isopen, 'invariant')
    s0 = SNAP.get(lv.key())
    if s0 is not None:
        # every other member keeps the value the constructor gave it; a member that changes needs an invariant of its own
        import loops
        loops.CTX = it
        ch = {}
        loops.diff(s0, v, lv.loc, (), ch)
        for loc, path, kind in ch.values():
            if not any(k == 's' for k, _ in path): raise Unsupported('member %s is modified and has no stated invariant' % '.'.join(str(x) for k, x in path))
    return None
MODELS = {'EdgeLearning::ghost::history': history, 'EdgeLearning::ghost::invariant': invariant}
