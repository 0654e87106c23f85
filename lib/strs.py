"""Strings with given or arbitrary characters, allocations and copies, for path summaries.

A string is a pointer whose cells hold numbers or symbols of their own; a copy moves cells, so that what a piece of code builds
can be read back character by character."""
from summ import *


def cell(ptr, k):
    """the memory cell k characters behind ptr"""
    if isinstance(ptr, tuple) and ptr[0] == 'po': return ('S', ('po', ptr[1], ptr[2] + k)) if ptr[2] + k else ('S', ptr[1])
    return ('S', ptr) if k == 0 else ('S', ('po', ptr, k))


def put(st, ptr, chars):
    if isinstance(ptr, tuple) and ptr[0] == 'sym': st.neq[ptr] = frozenset(st.neq.get(ptr, ())) | {0}
    for k, c in enumerate(chars):
        st._d(cell(ptr, k))[()] = frozenset((c,))
    return ptr


def char(name, k, *not_):
    """a symbol for an arbitrary character (never the end of a string)"""
    return ('sym', ('ch', name, k))


def free(st, chars, *others):
    """the symbols among chars are characters other than 0 and `others`"""
    for c in chars:
        if isinstance(c, tuple): st.neq[c] = frozenset(st.neq.get(c, ())) | {0} | set(others)


def cstr(st, ptr, limit=80):
    """the characters at ptr up to the end, or None where that is not known"""
    out = []
    for k in range(limit):
        V = st.read(*cell_path(ptr, k))
        if V is None or len(V) != 1: return None
        c = st.norm(next(iter(V)))
        if c == 0: return tuple(out)
        out.append(c)
    return None


def cell_path(ptr, k): return cell(ptr, k), ()


def text(cs):
    return 'unknown' if cs is None else ''.join(chr(c) if isinstance(c, int) and 32 <= c < 127 else '?' for c in cs)


def only(V): return next(iter(V)) if V is not None and len(V) == 1 else None


def canon(k):
    """one name for a field of something read from memory"""
    if isinstance(k, tuple) and k[0] == 'fld':
        a = canon(k[1])
        if isinstance(a, tuple) and a[0] == 'ld': return ('ld', a[1], a[2] + k[2], a[3])
        if isinstance(a, tuple) and a[0] == 'fld': return ('fld', a[1], a[2] + k[2])
        return ('fld', a, k[2])
    return k


def feasible(st):
    """no value is known to be two things under two names"""
    seen = {}
    for k, v in st.eqs.items():
        if isinstance(k, tuple) and k[0] == 'sym' and isinstance(v, int):
            if seen.setdefault(canon(k[1]), v) != v: return False
    return not any(isinstance(k, tuple) and k[0] == 'sym' and seen.get(canon(k[1])) in v for k, v in st.neq.items() if canon(k[1]) in seen)


def known(st, sym):
    """True/False where the path knows whether a value is other than 0"""
    for k, v in st.eqs.items():
        if isinstance(k, tuple) and k[0] == 'sym' and canon(k[1]) == sym and isinstance(v, int): return bool(v)
    for k, v in st.neq.items():
        if isinstance(k, tuple) and k[0] == 'sym' and canon(k[1]) == sym:
            if 0 in v: return True
            if 1 in v and sym[0] == 'ld' and sym[2][-1:] == ('#',): return False
    return None


class Strs:
    """callback for SummHooks: allocation, release, copying of memory, appending to a string pool.

    fail: whether allocations may fail"""
    def __init__(s, fail=True, extra=None):
        s.fail = fail; s.extra = extra

    def count(s, st, k): return sum(1 for e in (st.q or ()) if e[0] == k)

    def __call__(s, h, ai, st, fn, callee, term, fid):
        if s.extra:
            r = s.extra(h, ai, st, fn, callee, term, fid)
            if r is not None: return r
        n, nm = callee.short, callee.name
        if n in ('alloc', 'alloc_zeroed', 'realloc', '__rust_alloc', '__rust_realloc') and 'alloc' in nm and not nm.startswith('<'):
            A = h.args(ai, st, fn, fid, term)
            out = []
            if s.fail and not any(e[0] == 'nomem' for e in st.q or ()):
                t = st.copy(); h.ev(t, ('nomem', n)); out.append((t, frozenset((0,))))
            P = ('sym', ('new', s.count(st, 'alloc')))
            st.neq[P] = frozenset((0,))
            old = only(A[0]) if 'realloc' in n else None
            h.ev(st, ('alloc', P, old))
            if old is not None:
                for k in range(80):
                    b = cell(old, k)
                    if () in st.mem.get(b, {}): st._d(cell(P, k))[()] = st.mem[b][()]
            return out + [(st, frozenset((P,)))]
        if n in ('array', 'from_size_align') and 'Layout' in nm:
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            for d in dl or []:
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((0,))
            return [(st, 'done')]
        if n in ('dealloc', '__rust_dealloc') and 'alloc' in nm and not nm.startswith('<'):
            h.ev(st, ('free', only(h.args(ai, st, fn, fid, term)[0])))
            return [(st, None)]
        if n in ('memcpy', 'memmove', 'copy_nonoverlapping', 'copy') and len(term[4]) == 3:
            A = h.args(ai, st, fn, fid, term)
            d, r, c = (only(x) for x in A)
            if n.startswith('copy'): d, r = r, d
            if isinstance(c, int) and d is not None and r is not None and c < 200:
                vals = [st.read(*cell_path(r, k)) for k in range(c)]
                for k, V in enumerate(vals): st._d(cell(d, k))[()] = V
                h.ev(st, ('memcpy', d, r, c))
                return [(st, frozenset((d,)))]
            h.ev(st, ('memcpy', d, r, None))
            return [(st, None if d is None else frozenset((d,)))]
        return None


def call_closure(ai, st, fn, fid, term, clo, env, args):
    """the outcomes of a call whose work is to run the closure `env` (an operand of the call) once; clo: its FnOnce body"""
    nf = fid + 1
    ai.inlined.add(clo.id)
    ai.assign_op(st, fn, fid, [(('L', nf, 1), ())], False, env, term[1])
    for i, V in enumerate(args):
        if callable(V): V(st, ('L', nf, 2), (str(i),))
        else: st._d(('L', nf, 2))[(str(i),)] = V
    out = []
    for r, _ in ai.exec(clo, st, nf):
        dl, weak = ai.resolve(r, fn, fid, term[5], term[1])
        for d in dl or []: r.copy_tree(('L', nf, 0), (), d[0], d[1], weak)
        r.drop_frame(nf)
        out.append((r, 'done'))
    return out


def closure_of(p, callee, i=2):
    """the FnOnce body of the closure that is the i-th parameter of callee"""
    if not callee.blocks: return None
    k = p.tk(callee.locals[i])
    return p.fns[k[1]] if k[0] == 'closure' else None


class Pools:
    """a model of the string pools: the text being built and the finished strings.

    given: callback (st, args of store_c_string) -> characters stored for text converted from the input"""
    NAMES = ('append_char', 'append_c_string', 'append_c_string', 'store_c_string', 'finish_string', 'current_start', 'current_slice', 'current_mut_slice', 'clear_current',
             'replace_last_char', 'is_empty', 'get_last_char', 'backtrack', 'len', 'finish_string_cells', 'copy_c_string')

    def __init__(s, fail=False, given=None):
        s.fail = fail; s.given = given

    def key(s, a):
        return ('PC', a)

    def chars(s, st, a):
        d = st.mem.get(s.key(a), {})
        return list(next(iter(d.get(('c',), frozenset((('t',),)))))[1:])

    def set(s, st, a, cs):
        st._d(s.key(a))[('c',)] = frozenset((('t',) + tuple(cs),))

    def n(s, st, *k): return sum(1 for e in (st.q or ()) if e[0] in k)

    def __call__(s, h, ai, st, fn, callee, term, fid):
        n = callee.short
        if n not in s.NAMES or 'StringPool' not in callee.name or 'Inner' in callee.name: return None
        A = h.args(ai, st, fn, fid, term)
        a = only(A[0])
        if a is None: return None
        cs = s.chars(st, a)
        dest = lambda t: (ai.resolve(t, fn, fid, term[5], term[1])[0] or [])

        def flag(extra):
            out = []
            if s.fail and not any(e[0] == 'nomem' for e in st.q or ()):
                t = st.copy(); h.ev(t, ('nomem', n)); out.append((t, frozenset((0,))))
            s.set(st, a, cs + list(extra))
            return out + [(st, frozenset((1,)))]
        if n == 'append_char': return flag([only(A[1]) if only(A[1]) is not None else ('sym', ('unknown char', term[1]))])
        if n == 'append_c_string':
            x = cstr(st, only(A[1]))
            return flag(x if x is not None else [('sym', ('text', only(A[1])))])
        if n == 'store_c_string':
            x = s.given(st, ai, fn, fid, term) if s.given else None
            return flag(list(x if x is not None else [('sym', ('input', fn.short, term[1], s.n(st, 'input')))]) + [0])
        if n == 'copy_c_string':
            P = ('sym', ('str', s.n(st, 'finish')))
            h.ev(st, ('finish', a, P, ('copy of', only(A[1]))))
            st.neq[P] = frozenset((0,))
            x = cstr(st, only(A[1])) if only(A[1]) is not None else None
            if x is not None: put(st, P, list(x) + [0])
            for d in dest(st):
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((1,)); st._d(d[0])[d[1] + ('v:Some', '0')] = frozenset((('sl', P, len(x) + 1 if x is not None else ('sym', ('len', P))),))
            return [(st, 'done')]
        if n in ('finish_string', 'finish_string_cells'):
            P = ('sym', ('str', s.n(st, 'finish')))
            h.ev(st, ('finish', a, P, tuple(cs)))
            put(st, P, cs); s.set(st, a, [])
            return [(st, frozenset((('sl', P, len(cs)),)))]
        if n in ('current_start', 'current_slice', 'current_mut_slice'):
            C = ('sym', ('cur', s.n(st, 'current')))
            h.ev(st, ('current', a, C, tuple(cs)))
            put(st, C, cs)
            if n == 'current_start': return [(st, frozenset((C,)))]
            clo = closure_of(ai.p, callee)
            if clo is None or not clo.blocks: return None
            return call_closure(ai, st, fn, fid, term, clo, term[4][1], [frozenset((('sl', C, len(cs)),))])
        if n == 'clear_current':
            h.ev(st, ('clear', a)); s.set(st, a, [])
            return [(st, None)]
        if n == 'replace_last_char' and cs:
            s.set(st, a, cs[:-1] + [only(A[1])])
            return [(st, None)]
        if n == 'backtrack' and cs:
            s.set(st, a, cs[:-1]); return [(st, None)]
        if n == 'get_last_char' and cs: return [(st, frozenset((cs[-1],)))]
        if n == 'is_empty': return [(st, frozenset((int(not cs),)))]
        if n == 'len': return [(st, frozenset((len(cs),)))]
        return None


def chain(*cbs):
    def cb(*a):
        for c in cbs:
            r = c(*a)
            if r is not None: return r
        return None
    return cb


def strlen_key(h, ai, st, fn, callee, term, fid):
    """HashKey::from(pointer to a string): the key is that string"""
    if callee.short != 'from' or 'HashKey' not in callee.name: return None
    t = ai.p.tk(ai.p.op_ty(fn, term[4][0]))
    if t[0] in ('ptr', 'ref'): P = only(ai.scalar(st, fn, fid, term[4][0]))
    else:
        dl, weak = ai.resolve(st, fn, fid, term[4][0][1])
        P = only(st.read(dl[0][0], dl[0][1] + ('0',))) if dl and len(dl) == 1 else None
        if P is not None: P = padd(P, 1)       # a typed name: behind the type character
    if P is None: return None
    x = cstr(st, P)
    h.ev(st, ('key', P, x))
    for d in ai.resolve(st, fn, fid, term[5], term[1])[0] or []:
        st.write(d[0], d[1], None)
        st._d(d[0])[d[1] + ('0',)] = frozenset((('sl', P, len(x) if x is not None else ('sym', ('len', P))),))
    return [(st, 'done')]


class Vecs:
    """vectors of known length: element k lies at path (('i', k),) of the vector, the length at ('#len',)"""
    NAMES = ('iter', 'iter_mut', 'into_iter', 'len', 'clear', 'push', 'pop', 'deref', 'deref_mut', 'index', 'index_mut', 'last', 'last_mut', 'first', 'is_empty', 'as_slice', 'as_mut_slice', 'truncate', 'try_reserve', 'reserve', 'get', 'as_ptr', 'as_mut_ptr')

    def __init__(s, fail=False): s.fail = fail

    def length(s, st, a):
        if isinstance(a, tuple) and a[0] == 'sl': return a[2] if isinstance(a[2], int) else None
        if isinstance(a, tuple) and a[0] == '&': return one_int(st.mem.get(a[1], {}).get(a[2] + ('#len',)))
        return None

    def set(s, st, a, n): st._d(a[1])[a[2] + ('#len',)] = frozenset((n,))

    def __call__(s, h, ai, st, fn, callee, term, fid):
        n, nm = callee.short, callee.name
        if n == 'new' and not term[4] and nm.startswith('std::vec::Vec'):
            for b, pa in ai.resolve(st, fn, fid, term[5], term[1])[0] or []:
                st.write(b, pa, None); st._d(b)[pa + ('#len',)] = frozenset((0,))
            return [(st, 'done')]
        if n not in s.NAMES or not term[4] or not ('Vec' in nm or 'slice' in nm) or 'bumpalo' in nm: return None
        a = only(ai.scalar(st, fn, fid, term[4][0]))
        if not isinstance(a, tuple) or a[0] not in ('&', 'sl'): return None
        L = s.length(st, a)
        if L is None: return None
        v = a if a[0] == '&' else a[1]
        if not (isinstance(v, tuple) and v[0] == '&'): return None
        at = lambda k: ('&', v[1], v[2] + (('i', k),))
        def option(some, V=None, tree=None):
            for d in ai.resolve(st, fn, fid, term[5], term[1])[0] or []:
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((int(some),))
                if V is not None: st._d(d[0])[d[1] + ('v:Some', '0')] = frozenset((V,))
                if tree is not None: st.copy_tree(tree[1], tree[2], d[0], d[1] + ('v:Some', '0'))
            return [(st, 'done')]
        if n == 'len': return [(st, frozenset((L,)))]
        if n in ('iter', 'iter_mut', 'into_iter'):
            for b, pa in ai.resolve(st, fn, fid, term[5], term[1])[0] or []:
                st.write(b, pa, None)
                d = st._d(b)
                d[pa + ('#it',)] = frozenset((('sl', v, L),)); d[pa + ('#sz',)] = frozenset((0,)); d[pa + ('#ix',)] = frozenset((0,)); d[pa + ('#en',)] = frozenset((L,))
            return [(st, 'done')]
        if n == 'is_empty': return [(st, frozenset((int(L == 0),)))]
        if n in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice'): return [(st, frozenset((('sl', v, L),)))]
        if n in ('as_ptr', 'as_mut_ptr'): return [(st, frozenset((('sym', ('elements of', v)),)))]
        if n in ('index', 'index_mut', 'get'):
            i = only(ai.scalar(st, fn, fid, term[4][1]))
            if not isinstance(i, int): return None
            if n == 'get': return option(i < L, at(i) if i < L else None)
            if i >= L:
                h.ev(st, ('out of range', v, i)); return []
            return [(st, frozenset((at(i),)))]
        if n in ('last', 'last_mut', 'first'): return option(L > 0, at(L - 1 if n != 'first' else 0) if L else None)
        if n in ('try_reserve', 'reserve'):
            bad = []
            if s.fail and n == 'try_reserve':
                t = st.copy(); h.ev(t, ('nomem', n)); bad = [(t, 'done')]
                for d in ai.resolve(t, fn, fid, term[5], term[1])[0] or []:
                    t.write(d[0], d[1], None); t._d(d[0])[d[1] + ('#',)] = frozenset((1,))
            for d in ai.resolve(st, fn, fid, term[5], term[1])[0] or []:
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((0,))
            return bad + [(st, 'done')]
        if n in ('clear', 'truncate'):
            m = 0 if n == 'clear' else only(ai.scalar(st, fn, fid, term[4][1]))
            if not isinstance(m, int): return None
            for k in range(m, L): st.forget(v[1], v[2] + (('i', k),))
            s.set(st, v, min(m, L)); return [(st, None)]
        if n == 'push':
            ai.assign_op(st, fn, fid, [(v[1], v[2] + (('i', L),))], False, term[4][1], term[1])
            s.set(st, v, L + 1); return [(st, None)]
        if n == 'pop':
            r = option(L > 0, None, at(L - 1) if L else None)
            if L: st.forget(v[1], v[2] + (('i', L - 1),)); s.set(st, v, L - 1)
            return r
        return None


def search(h, ai, st, fn, callee, term, fid):
    """find, any, all, position over an iterator of known length: the closure is run for each element in turn"""
    n = callee.short
    if n not in ('find', 'any', 'all', 'position') or 'Iter' not in callee.name or len(term[4]) != 2: return None
    clo = closure_of(ai.p, callee)
    a = only(ai.scalar(st, fn, fid, term[4][0]))
    if clo is None or not clo.blocks or not (isinstance(a, tuple) and a[0] == '&'): return None
    m = st.mem.get(a[1], {})
    f = [only(m.get(a[2] + (k,))) for k in ('#it', '#ix', '#en')]
    if None in f or not (isinstance(f[1], int) and isinstance(f[2], int)) or f[0][1][0] != '&': return None
    x = f[0][1]

    def finish(t, V, some=None):
        for b, pa in ai.resolve(t, fn, fid, term[5], term[1])[0] or []:
            t.write(b, pa, None if some is not None else V)
            if some is not None:
                t._d(b)[pa + ('#',)] = frozenset((int(some),))
                if some: t._d(b)[pa + ('v:Some', '0')] = V
        return (t, 'done')
    live = [st]; out = []
    for k in range(f[1], f[2]):
        nxt = []
        E = frozenset((('&', x[1], x[2] + (('i', k),)),))
        for t in live:
            nf = fid + 1
            ai.assign_op(t, fn, fid, [(('L', nf, 1), ())], False, term[4][1], term[1])
            if n == 'find':
                t._d(('X', nf, 'element'))[()] = E
                t._d(('L', nf, 2))[('0',)] = frozenset((('&', ('X', nf, 'element'), ()),))
                t._d(('L', nf, 2))[()] = frozenset((('&', ('X', nf, 'element'), ()),))
            else: t._d(('L', nf, 2))[('0',)] = E; t._d(('L', nf, 2))[()] = E
            for r, _ in ai.exec(clo, t, nf):
                V = r.read(('L', nf, 0), ())
                V = frozenset(r.norm(q) for q in V) if V else None
                ways = []
                for v in (1, 0):
                    w = ai.assume(r, V, None, v, True, 8)
                    if w is not None: ways.append((w, v))
                for w, v in ways:
                    w.drop_frame(nf)
                    w._d(a[1])[a[2] + ('#ix',)] = frozenset((k + 1,))
                    if n == 'find' and v: out.append(finish(w, E, True))
                    elif n == 'position' and v: out.append(finish(w, frozenset((k - f[1],)), True))
                    elif n == 'any' and v: out.append(finish(w, frozenset((1,))))
                    elif n == 'all' and not v: out.append(finish(w, frozenset((0,))))
                    else: nxt.append(w)
        live = nxt
    for t in live:
        out.append(finish(t, None, False) if n in ('find', 'position') else finish(t, frozenset((int(n == 'all'),))))
    return out
