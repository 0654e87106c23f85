"""Path summaries: every path through a function as (condition, ordered effects, result).

The parser (or any object reached through a pointer argument) is symbolic memory; the effects
recorded are writes to it, calls of selected callees and indirect calls.  State.q is the tuple of
effects so far."""
from absint import *
from mir import *

NEGS, POSS = ('sym', ('neg',)), ('sym', ('pos',))     # any negative / any positive integer


class Path:
    def __init__(s, st, fid, ai, fn):
        s.st = st; s.fid = fid; s.ev = st.q or ()
        s.fn = fn

    def ret(s, *path):
        V = s.st.read(('L', 0, 0), path)
        return None if V is None else frozenset(V)

    def fld(s, base, *path):
        return s.st.read(base, path)


class SummHooks(Hooks):
    """opaque: set of callee shorts recorded as effects and not entered.
    bases: symbolic bases whose writes are recorded."""
    def __init__(s, bases=(), opaque=(), panics=False, inline=None, cb=None, ignore=()):
        s.bases = set(bases or ()); s.opaque = opaque; s.n = 0; s.inline = inline
        s.cb = cb; s.ignore = set(ignore)
        s.panics = []
        s.all_bases = bases is None
        s.prefix = {}

    def ev(s, st, e):
        st.q = (st.q or ()) + (e,)

    def fold_events(s, old, new):
        old = old or (); new = new or ()
        if new[:len(old)] != old or new == old: return new
        seg = new[len(old):]
        # everything since the first visit becomes one unordered group
        if old and old[-1][0] == 'loop':
            g = set(old[-1][1]); base = old[:-1]
        else:
            g = set(); base = old
        for e in seg:
            if e[0] == 'loop': g |= e[1]
            else: g.add(e)
        return base + (('loop', frozenset(g)),)

    def on_write(s, ai, st, fn, base, path, V, line):
        if base[0] in ('L', 'T', 'A'): return
        if not s.all_bases and base not in s.bases: return
        if path and path[0] in s.ignore: return
        W = V
        if V in ('op', 'agg'):
            W = st.read(base, path)
            D = st.read(base, path + ('#',))
            if D is not None and (('#',) == path[-1:] or st.mem.get(base, {}).get(path + ('#',)) is not None):
                s.ev(st, ('w', base, path + ('#',), D)); return
        s.ev(st, ('w', base, path, W))

    def on_bin(s, ai, op, a, b, w, sg):
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x in (NEGS, POSS) and isinstance(y, int):
                y2 = to_signed(y, w) if sg else y
                o = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op) if flip else op
                if x == NEGS and y2 >= 0:
                    r = {'Lt': 1, 'Le': 1, 'Gt': 0, 'Ge': 0, 'Eq': 0, 'Ne': 1}.get(o)
                elif x == POSS and y2 <= 0:
                    r = {'Lt': 0, 'Le': 0, 'Gt': 1, 'Ge': 1, 'Eq': 0, 'Ne': 1}.get(o)
                else: r = None
                if r is not None: return r
        return None

    def on_call(s, ai, st, fn, callee, term, fid):
        if s.cb:
            r = s.cb(s, ai, st, fn, callee, term, fid)
            if r is not None: return r
        if callee.short in s.opaque:
            return s.opaque_call(ai, st, fn, callee.short, term, fid)
        return None

    def args(s, ai, st, fn, fid, term):
        r = []
        for a in term[4]:
            V = ai.scalar(st, fn, fid, a)
            if V is None:
                D = ai.disc(st, fn, fid, a) if a[0] != 'k' else None
                if D is not None: V = ('#', D)
            r.append(V)
        return tuple(r)

    def opaque_call(s, ai, st, fn, name, term, fid, havoc=True):
        A = s.args(ai, st, fn, fid, term)
        s.ev(st, ('call', name, A))
        s.n += 1
        r = ('sym', ('ret', name, term[1]))
        if havoc: s.havoc(ai, st, ('h', name, term[1]))
        return [(st, frozenset((r,)))]

    def havoc(s, ai, st, site):
        """the callee may have changed any of the watched objects"""
        for b in list(s.bases):
            st.forget(b, ()); st.kill_alias(b, ())
            st.tag[b] = site
            st.fresh(b)

    def on_indirect(s, ai, st, fn, V, term, fid):
        # an indirect call through a known function constant is entered
        if V is not None and V and all(isinstance(a, tuple) and a[0] == 'fn' for a in V): return None
        s.ev(st, ('icall', V, s.args(ai, st, fn, fid, term)))
        s.havoc(ai, st, ('hi', fn.id, term[1]))
        return [(st, frozenset((('sym', ('iret', fn.id, term[1])),)))]

    def on_panic(s, ai, st, fn, term, why):
        s.panics.append((fn.short, term[1], why, st.q))


def summarise(p, fn, hooks, setup=None, budget=400000, widen=True):
    ai = AI(p, hooks, budget=budget)
    ai.paths = 'widen' if widen else True
    r = ai.run(fn, setup)
    out = [Path(st, fid, ai, fn) for st, fid in r]
    return out, ai


def one_int(V):
    if V is not None and len(V) == 1:
        a = next(iter(V))
        if isinstance(a, int): return a
    return None


def remember_eq(ai, st, x, y, want):
    k = ('eq', frozenset((x, y)))
    if k in st.eqs: return st.eqs[k] == want
    st.eqs[k] = want
    return True


def remember_op(ai, st, op, x, y, truth):
    if op in ('Lt', 'Le', 'Gt', 'Ge'):
        k = ('cmp', op, x, y)
        if k in st.eqs: return st.eqs[k] == bool(truth)
        st.eqs[k] = bool(truth)
    return True
