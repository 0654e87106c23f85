"""Runs of the functions that take input and tell the position: the input buffer is a region with symbolic start, end and length,
positions in it are linear expressions."""
import lin
from steps import *
from contract import *
from summ import SummHooks

LINK = ('m_buffer',)


def buf0(n): return ('sym', ('buffer', n))


class InHooks(CHooks):
    gen = 0

    # --- numbers
    def on_bin(s, ai, op, a, b, w, sg):
        if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked', 'Mul', 'MulUnchecked', 'Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            pa, pb = po_parts(a), po_parts(b)
            isbuf = lambda x: x and isinstance(x[0], tuple) and x[0][0] == 'sym' and x[0][1][0] == 'buffer'
            ev = lambda x: s.evp(x)
            if isbuf(pa) or isbuf(pb) or ev(a) is not None or ev(b) is not None:
                x = ev(a) if ev(a) is not None else pa[1] if isbuf(pa) else None
                y = ev(b) if ev(b) is not None else pb[1] if isbuf(pb) else None
                if x is not None and y is not None: a, b = x, y
                elif isbuf(pa) and op[:3] in ('Add', 'Sub') and y is None and lin.aff(b) is not None:
                    r = lin.add(lin.aff(pa[1]), lin.aff(b), 1 if op[:3] == 'Add' else -1)
                    r = lin.atom(r)
                    return ('po', pa[0], r) if r != 0 else pa[0]
                else: return None
            x, y = lin.aff(a), lin.aff(b)
            if x is None or y is None: return None
            if op[:3] == 'Mul':
                for p, q in ((x, y), (y, x)):
                    if not p[0]: return lin.atom(({k: v * p[1] for k, v in q[0].items() if p[1]}, q[1] * p[1]))
                return None
            if op[:3] in ('Add', 'Sub'):
                return lin.atom(lin.add(x, y, 1 if op[:3] == 'Add' else -1))
            d = lin.add(x, y, -1)
            if not d[0]: return int(CMP[op](d[1], 0))
            u, v = lin.atom(x), lin.atom(y)
            if op in ('Eq', 'Ne'):
                if len(d[0]) == 1:
                    (k, c), = d[0].items()
                    if c in (1, -1) and -c * d[1] >= 0: return ('op', op, k, -c * d[1])
                return ('op', op, lin.atom(d), 0)
            return ('op', op, u, v)
        return None

    def evp(s, a):
        """the position in the buffer of an event pointer"""
        if isinstance(a, tuple) and a[0] == 'sym' and a[1][0] == 'evp': return ('sym', ('event', a[1][1]))
        if isinstance(a, tuple) and a[0] == 'po' and a[1][0] == 'sym' and a[1][1][0] == 'evp' and isinstance(a[2], int): return ('lin', ('sym', ('event', a[1][1][1])), a[2])
        return None

    def on_refine_op(s, ai, st, op, x, y, truth):
        st.eqs[('cond', op, x, y)] = int(bool(truth))
        return True

    # --- the buffer
    def cur(s, st, what=None):
        g = st.mem.get(('X', 'buffer'), {}).get(())
        return next(iter(g)) if g else 0

    def opt(s, st, dl, some, v=None):
        for d in dl or []:
            st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((int(some),))
            if some and v is not None: st._d(d[0])[d[1] + ('v:Some', '0')] = v

    def on_call(s, ai, st, fn, callee, term, fid):
        n = callee.short
        nm = callee.name
        # the vector holding the input
        if term[4] and ('Vec' in nm or 'slice' in nm or 'index' in n or 'deref' in n or 'borrow' in n or n == 'from'):
            R = SummHooks.args(s, ai, st, fn, fid, term)
            a = next(iter(R[0])) if R[0] and len(R[0]) == 1 else None
            g = s.cur(st)
            blen = ('sym', ('size', g))
            vec = isinstance(a, tuple) and a[0] == '&' and a[1] == PB and a[2] == ('m_buffer',)
            sl = isinstance(a, tuple) and a[0] == 'sl' and po_parts(a[1]) and po_parts(a[1])[0][1][0] == 'buffer'
            if vec or sl:
                base, off, size = (buf0(g), 0, blen) if vec else (po_parts(a[1])[0], po_parts(a[1])[1], a[2])
                here = lambda o: ('po', base, o) if o != 0 else base
                if n in ('as_ptr', 'as_mut_ptr'): return [(st, frozenset((a[1] if sl else base,)))]
                if n in ('len', 'capacity') and vec: return [(st, frozenset((blen,)))]
                if n in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut') and vec: return [(st, frozenset((('sl', base, blen),)))]
                if n in ('index', 'index_mut', 'get_unchecked', 'get', 'get_mut'):
                    t = s.p.tk(s.p.op_ty(fn, term[4][1]))
                    r = s.range_of(ai, st, fn, fid, term[4][1], size)
                    if r is None: return None
                    if r[1] is None: return [(st, frozenset((('&', ('S', here(s.sum(off, r[0]))), ()),)))]
                    v = frozenset((('sl', here(s.sum(off, r[0])), s.sum(r[1], r[0], -1)),))
                    s.ev(st, ('within', (frozenset((r[0],)), frozenset((r[1],)), frozenset((size,)))))
                    return [(st, v)]
                if n == 'copy_within':
                    r = s.range_of(ai, st, fn, fid, term[4][1], size)
                    d = R[2]
                    if r is None or not d or len(d) != 1: return None
                    s.ev(st, ('call', 'move', (frozenset((s.sum(off, r[0]),)), frozenset((s.sum(off, r[1]),)), frozenset((s.sum(off, next(iter(d))),))), s.snap(ai, st)))
                    return [(st, None)]
                if n == 'copy_from_slice':
                    s.ev(st, ('call', 'store', (R[0], R[1]), s.snap(ai, st)))
                    return [(st, None)]
                if n in ('resize', 'resize_with') and vec:
                    s.ev(st, ('call', 'resize', (R[1],), s.snap(ai, st)))
                    st._d(('X', 'buffer'))[()] = frozenset((g + 1,))
                    v = lin.aff(next(iter(R[1]))) if R[1] and len(R[1]) == 1 else None
                    if v is not None: st.eqs[('cond', 'Eq', ('sym', ('size', g + 1)), lin.atom(v))] = 1
                    return [(st, None)]
                if n in ('try_reserve_exact', 'try_reserve', 'reserve', 'reserve_exact') and vec:
                    s.ev(st, ('call', 'reserve', (R[1],), s.snap(ai, st)))
                    dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
                    out = []
                    for lab in ('fail', 'ok')[n[:3] != 'try':]:
                        t = st.copy() if lab == 'fail' else st
                        t.eqs[('choice', 'mem', 0)] = lab
                        for d in dl or []:
                            t.write(d[0], d[1], None); t._d(d[0])[d[1] + ('#',)] = frozenset((int(lab == 'fail'),))
                        out.append((t, 'done'))
                    return out
        if n in ('min', 'max') and callee.name.startswith(('std::cmp', 'core::cmp')) or n in ('min', 'max') and '::Ord' in nm:
            R = SummHooks.args(s, ai, st, fn, fid, term)
            if all(r and len(r) == 1 and lin.aff(next(iter(r))) is not None for r in R[:2]):
                x, y = next(iter(R[0])), next(iter(R[1]))
                t = st.copy()
                t.eqs[('cond', 'Le', x, y)] = 1; st.eqs[('cond', 'Gt', x, y)] = 1
                return [(t, frozenset((x if n == 'min' else y,))), (st, frozenset((y if n == 'min' else x,)))]
        if n in ('checked_add', 'checked_mul', 'checked_sub'):
            R = SummHooks.args(s, ai, st, fn, fid, term)
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            if all(r and len(r) == 1 for r in R):
                v = ai.bin1({'a': 'Add', 'm': 'Mul', 's': 'Sub'}[n[8]], next(iter(R[0])), next(iter(R[1])), 64, True)
                t = st.copy()
                s.opt(t, dl, False); s.opt(st, dl, True, frozenset((v,)) if v is not None else None)
                return [(t, 'done'), (st, 'done')]
        if n in ('try_into', 'try_from') and 'usize' in nm + str(callee.defn) or n == 'try_into':
            R = SummHooks.args(s, ai, st, fn, fid, term)
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            if R[0] and len(R[0]) == 1 and dl:
                for d in dl:
                    st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((0,)); st._d(d[0])[d[1] + ('v:Ok', '0')] = R[0]
                return [(st, 'done')]
        if n == 'updatePosition' and n not in s.loops:
            s.ev(st, ('call', n, s.args(ai, st, fn, fid, term), s.snap(ai, st)))
            s.n += 1
            for f in ('lineNumber', 'columnNumber'):
                st.forget(PB, ('m_position', f)); st.kill_alias(PB, ('m_position', f))
                st._d(PB)[('m_position', f)] = frozenset((('sym', ('counted', f, s.n)),))
            return [(st, None)]
        if n == 'getBuffer' and n in s.choices:
            A = s.args(ai, st, fn, fid, term)
            s.ev(st, ('call', n, A, s.snap(ai, st)))
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            t = st.copy(); t.eqs[('choice', n, 0)] = 'none'; st.eqs[('choice', n, 0)] = 'some'
            s.opt(t, dl, False)
            g = s.cur(st) + 1
            st._d(('X', 'buffer'))[()] = frozenset((g,))
            for f in ('m_bufferStart', 'm_bufferEnd'):
                st.forget(PB, (f,)); st.kill_alias(PB, (f,)); st._d(PB)[(f,)] = frozenset((('sym', (f[2:], 'after getBuffer')),))
            e = ('sym', ('bufferEnd', 'after getBuffer'))
            s.opt(st, dl, True, frozenset((('sl', ('po', buf0(g), e), lin.atom(lin.add(lin.aff(('sym', ('size', g))), lin.aff(e), -1))),)))
            return [(t, 'done'), (st, 'done')]
        return CHooks.on_call(s, ai, st, fn, callee, term, fid)

    def sum(s, a, b, k=1):
        return lin.atom(lin.add(lin.aff(a), lin.aff(b), k))

    def range_of(s, ai, st, fn, fid, op, size):
        """(from, to) of a range argument; to is None for a single index"""
        t = s.p.tk(s.p.op_ty(fn, op))
        one = lambda V: next(iter(V)) if V and len(V) == 1 and lin.aff(next(iter(V))) is not None else None
        if t[0] in ('uint', 'int'):
            v = one(ai.scalar(st, fn, fid, op))
            return None if v is None else (v, None)
        if op[0] == 'k': return (0, size) if 'RangeFull' in str(t) else None
        dl, weak = ai.resolve(st, fn, fid, op[1])
        if not dl or len(dl) != 1: return None
        b, pa = dl[0]
        nm = str(t[1])
        a = one(st.read(b, pa + ('start',))) if 'RangeTo' not in nm and 'RangeFull' not in nm else 0
        e = one(st.read(b, pa + ('end',))) if 'RangeFrom' not in nm and 'RangeFull' not in nm else size
        if a is None or e is None: return None
        if 'Inclusive' in nm: return None
        return (a, e)

    def on_indirect(s, ai, st, fn, V, term, fid):
        a = next(iter(V)) if V and len(V) == 1 else None
        if not (isinstance(a, tuple) and 'm_processor' in repr(a)): return CHooks.on_indirect(s, ai, st, fn, V, term, fid)
        A = s.args(ai, st, fn, fid, term)
        R = SummHooks.args(s, ai, st, fn, fid, term)
        s.ev(st, ('call', 'process', A, s.snap(ai, st)))
        s.api_havoc(ai, st, ('hi', fn.id, term[1]))
        for f in ('m_eventPtr', 'm_eventEndPtr', 'm_positionIdx', 'm_position', 'm_processor', 'm_tagLevel'):
            st.forget(PB, (f,)); st.kill_alias(PB, (f,))
            for k in list(st.mem.get(PB, {})):
                if k[:1] == (f,): st._d(PB).pop(k)
        st._d(PB)[('m_eventPtr',)] = frozenset((('sym', ('evp', 'after')),))
        st._d(PB)[('m_eventEndPtr',)] = frozenset((('sym', ('evp', 'end after')),))
        st._d(PB)[('m_positionIdx', '#')] = frozenset((1,)); st._d(PB)[('m_positionIdx', 'v:Some', '0')] = frozenset((('sym', ('position', 'after')),))
        to = ('po', buf0(s.cur(st)), ('sym', ('consumed',)))
        for V in R[2] or ():
            if isinstance(V, tuple) and V[0] == '&': st.write(V[1], V[2], frozenset((to,)))
            elif isinstance(V, tuple) and V[0] == 'sym': st.write(('S', V), (), frozenset((to,)))
        dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
        t = st.copy()
        t.eqs[('choice', 'process', 0)] = 'err'; st.eqs[('choice', 'process', 0)] = 'ok'
        for x, e in ((t, ERRC), (st, 0)):
            for d in dl or []:
                x.write(d[0], d[1], None); x._d(d[0])[d[1] + ('#',)] = frozenset((e,))
        return [(t, 'done'), (st, 'done')]

    def on_widen(s, ai, st, tag):
        for base, p in ai.widened:
            if base[0] == 'L': st._d(base)[p] = frozenset((('sym', ('round', tag, base, p)),))
        return CHooks.on_widen(s, ai, st, tag)

    def snap(s, ai, st):
        return tuple((n, st.read(PB, p)) for n, p in FIELDS)


FIELDS = [('start', ('m_bufferStart',)), ('end', ('m_bufferEnd',)), ('pos#', ('m_positionIdx', '#')), ('pos', ('m_positionIdx', 'v:Some', '0')), ('pend', ('m_parseEndIdx',)),
          ('pbyte', ('m_parseEndByteIndex',)), ('event', ('m_eventPtr',)), ('eend', ('m_eventEndPtr',)), ('final', ('m_parsingStatus', 'finalBuffer')),
          ('line', ('m_position', 'lineNumber')), ('column', ('m_position', 'columnNumber'))]


class InPath:
    def __init__(s, st, ev, fid, ai):
        s.st = st; s.ev = [e for e in ev if e[0] == 'call']; s.raw = ev
        s.f = dict((n, st.read(PB, p)) for n, p in FIELDS)
        s.choice = {k[1]: v for k, v in st.eqs.items() if k[0] == 'choice'}
        V = st.read(('L', fid, 0), ()); D = st.read(('L', fid, 0), ('#',))
        s.ret = V if V is not None else D
        s.status = st.read(PB, STP)
        s.cells = {}
        s.fid = fid

    def lin(s, n):
        return one(s.f[n] if isinstance(n, str) else n)

    def facts(s, *more):
        """what the path knows about the numbers: the input it started with lies in its buffer"""
        S, E, N = sy('start'), sy('end'), sy('size', 0)
        base = [(S, 0), (lin.add(E, S, -1), 0), (lin.add(N, E, -1), 0), (sy('position'), 0), (lin.add(S, sy('position'), -1), 0)]
        base = [f[0] if isinstance(f[0], tuple) else f for f in base]
        return lin.facts_of(s.st.eqs, s.st.neq, base + list(more))


def sy(*k): return ({('sym', k): 1}, 0)
def num(n): return ({}, n)
def one(V):
    return lin.aff(next(iter(V))) if V and len(V) == 1 else None


def eq(F, a, b):
    """a = b on the path (a, b linear)"""
    if a is None or b is None: return False
    if a == b: return True
    d = lin.add(a, b, -1)
    return lin.implies(F, d) and lin.implies(F, ({k: -v for k, v in d[0].items()}, -d[1]))


def ge(F, a, b):
    return a is not None and b is not None and lin.implies(F, lin.add(a, b, -1))


class InEng(Eng):
    def inp(s, fname, setup, choices=None):
        fn = s.p.one(fname)
        ch = {'startParsing': TF}
        if choices is not None: ch = choices
        h = InHooks(s.p, 0, ch, quiet=set(), loops=('-',))

        def su(ai, st, f):
            st.neq[PA] = frozenset((0,))
            set_handlers(st, s.slots, None)
            for n, pa in FIELDS:
                if n in ('event', 'eend', 'pos#', 'pos'): continue
                st._d(PB)[pa] = frozenset((('sym', (n,)),))
            setup(st)
        paths, ai = step(s.p, fn, h, su)
        s.fns |= {s.p.fns[f].short for f, _ in ai.blocks_seen if s.p.fns[f].local}
        s.npaths += len(paths)
        return [InPath(x.st, x.ev, x.fid if hasattr(x, 'fid') else 0, ai) for x in paths]


# ---------------------------------------------------------------- what must hold
def slice_of(rec):
    """(buffer generation, from, to) of a piece of input given to a function"""
    if isinstance(rec, tuple) and rec and rec[0] == 'rec':
        for c in rec[1]:
            if c[0] == ('0',): rec = c[1]
    V = next(iter(rec)) if isinstance(rec, frozenset) and len(rec) == 1 else None
    if not (isinstance(V, tuple) and V[0] == 'sl'): return None
    pp = po_parts(V[1])
    if not pp or pp[0][0] != 'sym' or pp[0][1][0] != 'buffer': return None
    a, n = lin.aff(pp[1]), lin.aff(V[2])
    if a is None or n is None: return None
    return (pp[0][1][1], a, lin.add(a, n))


CONTEXT = 1024


class Feed:
    """one path of a function that takes input, followed from its first to its last event: where the input not yet consumed lies"""
    def __init__(s, x, length):
        s.x = x; s.bad = []; s.len = length
        s.off = num(0)       # how far the input has moved towards the start of the buffer
        s.gen = 0; s.touched = False; s.kept = None
        s.stored = False; s.procs = []; s.counted = []
        F = x.facts()
        s.F = F
        S, E = sy('start'), sy('end')
        for e in x.ev:
            k = e[1]
            if k == 'move':
                a, b, d = map(one, e[2])
                if None in (a, b, d): s.bad.append(('move', 'a move of the input is not understood')); continue
                sh = lin.add(a, d, -1)
                s.touched = True
                cs, ce = lin.add(S, s.off, -1), lin.add(E, s.off, -1)
                if s.stored: s.bad.append(('move', 'the input is moved after new input was stored'))
                if not ge(F, b, ce): s.bad.append(('move', 'a move of the input leaves out its end (moves up to %s of %s)' % (lin.show(b), lin.show(ce))))
                if not ge(F, cs, a): s.bad.append(('move', 'a move of the input starts behind its beginning (%s, input from %s)' % (lin.show(a), lin.show(cs))))
                lost = lin.add(cs, a, -1)     # context kept
                s.kept = lost
                s.off = lin.add(s.off, sh)
            elif k == 'resize':
                s.touched = True; s.gen += 1
                n = one(e[2][0])
                if n is None or not ge(F, n, lin.add(E, s.off, -1)): s.bad.append(('resize', 'the buffer is resized to %s, which need not hold the input up to %s' % (lin.show(n), lin.show(lin.add(E, s.off, -1)))))
            elif k == 'store':
                s.stored = e
                d = slice_of(e[2][0]); src = next(iter(e[2][1])) if e[2][1] and len(e[2][1]) == 1 else None
                if s.procs: s.bad.append(('store', 'input is stored after the input was processed'))
                if not d or d[0] != s.gen or not eq(F, d[1], lin.add(E, s.off, -1)): s.bad.append(('store', 'the new input is stored at %s, expected behind the input there was (%s)' % (d and lin.show(d[1]), lin.show(lin.add(E, s.off, -1)))))
                if not (isinstance(src, tuple) and src[0] == 'sl' and src[1] == ('sym', ('arg', 2)) and length is not None and eq(F, lin.aff(src[2]), length)): s.bad.append(('store', 'what is stored is not exactly the input given'))
            elif k == 'process': s.procs.append(e)
            elif k == 'updatePosition': s.counted.append(e)


def status_of(x):
    V = x.status
    return set(V) if V else None


ENTRY = [('XML_Parse', 3, 4), ('XML_ParseBuffer', 2, 3), ('XML_ResumeParser', None, None)]


def known(x, V):
    """the values a set of atoms is known to have on the path (None: any)"""
    if not V: return None
    r = set()
    for v in V:
        if isinstance(v, int): r.add(v)
        elif v in x.st.eqs and isinstance(x.st.eqs[v], int): r.add(x.st.eqs[v])
        else: return None
    return r


def feed_paths(E, fname, statuses):
    for stt in statuses:
        def su(st):
            st.write(PB, STP, frozenset((stt,)))
            if stt == 3: st._d(PB)[('m_parseEndIdx',)] = frozenset((('sym', ('end',)),))     # a suspended parser has taken no new input
            st._d(PB)[('m_positionIdx', '#')] = frozenset((1,)); st._d(PB)[('m_positionIdx', 'v:Some', '0')] = frozenset((('sym', ('position',)),))
            st._d(PB)[('m_eventPtr',)] = frozenset((('sym', ('evp', 'before')),)); st._d(PB)[('m_eventEndPtr',)] = frozenset((('sym', ('evp', 'end before')),))
        for x in E.inp(fname, su): yield stt, x


def final_of(x, V):
    """finalBuffer as a truth value of the argument: 'arg', True, False, None"""
    if not V or len(V) != 1: return None
    a = next(iter(V))
    return a


def check_feed(E, aspect):
    """obligations (key, ok, message) of the functions that process input"""
    out = []
    for fname, la, fa in ENTRY:
        nproc = 0
        for stt, x in feed_paths(E, fname, (3,) if la is None else (0, 1)):
            length = num(0) if la is None else None
            if la is not None:
                length = sy('arg', la)
                z = x.st.eqs.get(('sym', ('arg', la)))
                if z is not None: length = lin.aff(z)
            fd = Feed(x, length)
            lab = '%s:%s:%s' % (fname, {0: 'first', 1: 'further', 3: 'suspended'}[stt], ','.join('%s=%s' % kv for kv in sorted(x.choice.items())) or '-')
            def ob(ok, what, msg, asp='bytes'):
                if asp == aspect: out.append(('%s:%s' % (lab, what), bool(ok), msg))
            for what, msg in fd.bad: ob(False, what, msg)
            if not fd.procs:
                # nothing was processed: an error, or nothing was given
                ret = known(x, x.ret)
                if ret != {0}:
                    ob(length == num(0) and fa is not None and x.st.eqs.get(('sym', ('arg', fa))) == 0, 'unprocessed', 'success is returned without processing the input (length %s)' % lin.show(length))
                continue
            nproc += 1
            ob(len(fd.procs) == 1, 'once', 'the input is processed %d times in one call' % len(fd.procs))
            e = fd.procs[0]; F = fd.F
            pre = dict(e[3])
            S, Eo = lin.add(sy('start'), fd.off, -1), lin.add(sy('end'), fd.off, -1)
            En = lin.add(Eo, length)
            sl = slice_of(e[2][1])
            ob(sl and sl[0] == fd.gen and eq(F, sl[1], S), 'from', 'processing starts at %s of the buffer, the unconsumed input at %s' % (sl and lin.show(sl[1]), lin.show(S)))
            ob(sl and eq(F, sl[2], En), 'to', 'processing goes up to %s, the input given ends at %s' % (sl and lin.show(sl[2]), lin.show(En)))
            if fname == 'XML_Parse' and length != num(0): ob(fd.stored, 'stored', 'the input given is not stored before it is processed')
            elif fname != 'XML_Parse': ob(not fd.stored, 'stored', 'something is stored over the input')
            to = e[2][2]
            tv = None
            if isinstance(to, tuple) and to[0] == 'to':
                tv = next((v for k, v in to[2] if k == ()), None)
            tp = po_parts(next(iter(tv))) if tv and len(tv) == 1 else None
            ob(tp and tp[0] == buf0(fd.gen) and eq(F, lin.aff(tp[1]), S), 'next', 'where to continue is not set to the start of the unconsumed input beforehand')
            ob(eq(F, one(pre['start']), S), 'start', 'while processing, the recorded start is %s, expected %s' % (lin.show(one(pre['start'])), lin.show(S)))
            ob(eq(F, one(pre['end']), En), 'end', 'while processing, the recorded end of the buffered input is %s, expected %s' % (lin.show(one(pre['end'])), lin.show(En)))
            ob(eq(F, x.lin('start'), sy('consumed')), 'consumed', 'afterwards the unconsumed input is recorded to start at %s, not where processing stopped' % lin.show(x.lin('start')))
            ob(eq(F, x.lin('end'), En), 'endafter', 'afterwards the end of the buffered input is recorded as %s, expected %s' % (lin.show(x.lin('end')), lin.show(En)))
            if fa is not None:
                # the last piece: finalBuffer is whether the argument is not zero
                A = ('sym', ('arg', fa)); V = pre['final']
                a = next(iter(V)) if V and len(V) == 1 else None
                z = x.st.eqs.get(A); nz = 0 in x.st.neq.get(A, ())
                okf = a == ('op', 'Ne', A, 0) or a == ('op', 'Ne', 0, A) or (a == 1 and (nz or z)) or (a == 0 and z == 0)
                ob(okf, 'final', 'whether this is the last piece of the input is not recorded as told')
            else:
                ob(pre['final'] == frozenset((('sym', ('final',)),)), 'final', 'resuming changes whether this is the last piece')
            # outcome
            ret = known(x, x.ret); status = known(x, x.status)
            raw = next(iter(x.status)) if x.status and len(x.status) == 1 else None
            if status is None and raw is not None and {0, 1, 3} <= set(x.st.neq.get(raw, ())): status = {2}
            want = {0} if x.choice.get('process') == 'err' else {2} if status == {3} else {1}
            ob(ret == want, 'result', 'the call returns %s, expected %s' % (ret, want))
            if x.choice.get('process') == 'ok' and status != {3}:
                V = x.f['final']; a = next(iter(V)) if V and len(V) == 1 else None
                fin = None
                if isinstance(a, int): fin = bool(a)
                elif a in x.st.eqs: fin = bool(x.st.eqs[a])
                elif isinstance(a, tuple) and a[0] == 'op':
                    z = a[2] if isinstance(a[3], int) else a[3]
                    if x.st.eqs.get(z) is not None: fin = bool(x.st.eqs[z])
                    elif 0 in x.st.neq.get(z, ()): fin = True
                raw = next(iter(x.status)) if x.status and len(x.status) == 1 else None
                ex = set(x.st.neq.get(raw, ())) if raw is not None else set()
                if fin: ob(status == {2} or {0, 1} <= ex, 'finished', 'the last piece was processed without error, but the parser is not finished')
                elif fin is False: ob(status != {2}, 'finished', 'the parser is finished although more input is to come')
            # --- positions
            P = lambda ok, what, msg: ob(ok, what, msg, 'pos')
            P(pre['pos#'] == frozenset((1,)) and eq(F, one(pre['pos']), S if la is not None else sy('position')) or eq(F, one(pre['pos']), S), 'position', 'while processing, lines are counted from %s, the input is counted up to %s' % (lin.show(one(pre['pos'])), lin.show(S)))
            P(eq(F, one(pre['pend']), En), 'parseend', 'while processing, the end of the piece is recorded as %s, expected %s' % (lin.show(one(pre['pend'])), lin.show(En)))
            P(eq(F, one(pre['pbyte']), lin.add(sy('pbyte'), length)), 'bytes', 'while processing, the number of bytes given so far is recorded as %s, expected %s' % (lin.show(one(pre['pbyte'])), lin.show(lin.add(sy('pbyte'), length))))
            P(eq(F, x.lin('pend'), En) and eq(F, x.lin('pbyte'), lin.add(sy('pbyte'), length)), 'kept', 'afterwards the end of the piece or the number of bytes given is changed')
            pos = sy('position', 'after')
            before = [c for c in fd.counted if x.ev.index(c) < x.ev.index(e)]
            P(not before, 'before', 'lines are counted before the input is processed')
            for c in fd.counted:
                cs = slice_of(c[2][1])
                P(cs and cs[0] == fd.gen and eq(F, cs[1], pos), 'counted', 'lines are counted from %s, they were counted up to %s' % (cs and lin.show(cs[1]), lin.show(pos)))
                P(isinstance(c[2][0], frozenset) and 'm_encoding' in repr(c[2][0]), 'encoding', 'lines are not counted in the encoding of the document')
                if cs: pos = cs[2]
            P(x.f['pos#'] == frozenset((1,)) and eq(F, x.lin('pos'), pos), 'upto', 'lines are counted up to %s, recorded is %s' % (lin.show(pos), lin.show(x.lin('pos'))))
            if fd.counted: P('counted' in repr(x.f['line']) and 'counted' in repr(x.f['column']), 'count', 'the counted lines and columns are not kept')
            if x.choice.get('process') == 'err':
                P(x.f['eend'] == x.f['event'] == frozenset((('sym', ('evp', 'after')),)), 'empty', 'at an error the event is not the empty one where the error was found')
            else:
                if status != {2}: P(eq(F, x.lin('pos'), sy('consumed')), 'behind', 'the input can go on, but lines are counted up to %s, not to where processing stopped' % lin.show(x.lin('pos')))
                P(x.f['event'] == frozenset((('sym', ('evp', 'after')),)) and x.f['eend'] == frozenset((('sym', ('evp', 'end after')),)), 'event', 'the last event is not kept')
        out.append(('%s:processes' % fname, nproc > 0, 'no path of %s processes input' % fname))
    return out


def check_getbuffer(E, aspect):
    out = []
    n = 0
    for stt, x in feed_paths(E, 'XML_GetBuffer', (0, 1)):
        fd = Feed(x, None)
        V = next(iter(x.ret)) if x.ret and len(x.ret) == 1 else None
        def ob(ok, what, msg, asp='bytes'):
            if asp == aspect: out.append(('XML_GetBuffer:%s:%s' % ({0: 'first', 1: 'further'}[stt], what), bool(ok), msg))
        for what, msg in fd.bad: ob(False, what, msg)
        ob(not fd.procs, 'process', 'input is processed')
        F = fd.F
        S, Eo = lin.add(sy('start'), fd.off, -1), lin.add(sy('end'), fd.off, -1)
        same = not fd.touched
        if same:
            ob(eq(F, x.lin('start'), S) and eq(F, x.lin('end'), Eo), 'same', 'the recorded input changes to %s..%s without being moved' % (lin.show(x.lin('start')), lin.show(x.lin('end'))))
        else:
            ob(eq(F, x.lin('start'), S) and eq(F, x.lin('end'), Eo), 'moved', 'the input was moved to %s..%s, but is recorded at %s..%s' % (lin.show(S), lin.show(Eo), lin.show(x.lin('start')), lin.show(x.lin('end'))))
            # context before the input
            lo = F + [({('sym', ('start',)): -1}, CONTEXT - 1)]; hi = F + [({('sym', ('start',)): 1}, -CONTEXT)]
            ob(eq(F, x.lin('start'), S) and ge(lo, S, sy('start')) and ge(hi, S, num(CONTEXT)), 'context', 'the input moves to %s: less context than 1024 bytes (or all there was) is kept' % lin.show(S))
            if fd.kept is not None: ob(ge(F, fd.kept, S) , 'context', 'the context moved (%s bytes) does not fill what lies before the input (%s)' % (lin.show(fd.kept), lin.show(S)))
        if V == 0 or V is None:
            if V is None: ob(False, 'result', 'what is returned is not understood')
        else:
            n += 1
            pp = po_parts(V)
            ob(pp and pp[0] == buf0(fd.gen) and eq(F, lin.aff(pp[1]), Eo), 'behind', 'the buffer returned is not the place right behind the input (%s)' % (pp and lin.show(lin.aff(pp[1]))))
            size = sy('size', fd.gen)
            ob(ge(F, lin.add(size, Eo, -1), sy('arg', 2)), 'room', 'less room than asked for may be left behind the input')
        P = lambda ok, what, msg: ob(ok, what, msg, 'pos')
        null = x.f['event'] == frozenset((0,)) and x.f['eend'] == frozenset((0,))
        kept = x.f['event'] == frozenset((('sym', ('evp', 'before')),)) and x.f['eend'] == frozenset((('sym', ('evp', 'end before')),)) and x.f['pos#'] == frozenset((1,)) and eq(F, x.lin('pos'), sy('position'))
        failed = V == 0
        P(null or (not fd.touched and kept) or failed, 'event', 'the last event still points into the buffer as it was before')
        P(x.f['line'] == frozenset((('sym', ('line',)),)) and x.f['column'] == frozenset((('sym', ('column',)),)), 'count', 'the lines counted change')
        P(eq(F, x.lin('pbyte'), sy('pbyte')), 'bytes', 'the number of bytes given changes')
    out.append(('XML_GetBuffer:returns', n > 0, 'no path returns a buffer'))
    return out


# ---------------------------------------------------------------- where the parser says it is
def check_queries(E):
    out = []
    def runs(fname):
        for event in ('none', 'some'):
            for pset in (0, 1):
                def su(st):
                    st._d(PB)[('m_positionIdx', '#')] = frozenset((pset,))
                    if pset: st._d(PB)[('m_positionIdx', 'v:Some', '0')] = frozenset((('sym', ('position',)),))
                    st._d(PB)[('m_eventPtr',)] = frozenset((('sym', ('evp', 'now')) if event == 'some' else 0,))
                    st._d(PB)[('m_eventEndPtr',)] = frozenset((('sym', ('evp', 'end')) if event == 'some' else 0,))
                    st.neq[('sym', ('evp', 'now'))] = frozenset((0,)); st.neq[('sym', ('evp', 'end'))] = frozenset((0,))
                    for i in (2, 3): st.neq[('sym', ('arg', i))] = frozenset((0,))
                for x in E.inp(fname, su):
                    if event == 'some' and not pset: continue   # an event is only there while input is processed or after, when the position is set
                    yield event, pset, x
    ev, po = sy('event', 'now'), sy('position')
    unchanged = [n for n, _ in FIELDS if n not in ('line', 'column', 'pos', 'pos#')]
    n = 0
    for fname in ('XML_GetCurrentByteIndex', 'XML_GetCurrentByteCount', 'XML_GetInputContext', 'XML_GetCurrentLineNumber', 'XML_GetCurrentColumnNumber'):
        for event, pset, x in runs(fname):
            n += 1
            lab = '%s:%s' % (fname, 'event' if event == 'some' else 'no event' + (',counted' if pset else ''))
            def ob(ok, what, msg): out.append(('%s:%s' % (lab, what), bool(ok), msg))
            F = x.facts((ev[0], 0))
            r = one(x.ret)
            for f in unchanged:
                w = {'event': ('evp', 'now'), 'eend': ('evp', 'end')}.get(f)
                if f in ('event', 'eend'): want = frozenset((('sym', w) if event == 'some' else 0,))
                else: want = frozenset((('sym', (f,)),))
                ob(x.f[f] == want, 'keeps', 'asking changes %s' % f)
            if fname == 'XML_GetCurrentByteIndex':
                want = num(-1) if event == 'none' else lin.add(lin.add(sy('pbyte'), sy('pend'), -1), ev)
                ob(eq(F, r, want), 'value', 'gives %s, expected %s' % (lin.show(r), lin.show(want)))
            elif fname == 'XML_GetCurrentByteCount':
                want = num(0) if event == 'none' else lin.add(sy('event', 'end'), ev, -1)
                ob(eq(F, r, want), 'value', 'gives %s, expected %s' % (lin.show(r), lin.show(want)))
            elif fname == 'XML_GetInputContext':
                V = next(iter(x.ret)) if x.ret and len(x.ret) == 1 else None
                if event == 'none': ob(V == 0, 'value', 'gives a buffer without an event')
                else:
                    ob(V == buf0(0), 'value', 'does not give the start of the buffer')
                    o = one(x.st.read(('S', ('sym', ('arg', 2))), ())); z = one(x.st.read(('S', ('sym', ('arg', 3))), ()))
                    ob(eq(F, o, ev), 'offset', 'the offset given is %s, expected %s' % (lin.show(o), lin.show(ev)))
                    ob(eq(F, z, sy('end')), 'size', 'the size given is %s, expected %s' % (lin.show(z), lin.show(sy('end'))))
            else:
                want = []
                counted = [e for e in x.ev if e[1] == 'updatePosition']
                F = lin.facts_of(x.st.eqs, x.st.neq, [(ev[0], 0), (po[0], 0)])
                behind = lin.implies(F, (lin.add(po, ev, -1)[0], -1))
                upto = lin.implies(F, lin.add(ev, po, -1)) or eq(F, ev, po)
                if event == 'none':
                    ob(not counted, 'counts', 'lines are counted without an event')
                elif counted:
                    ob(len(counted) == 1, 'counts', 'lines are counted %d times' % len(counted))
                    cs = slice_of(counted[0][2][1])
                    ob(cs and cs[0] == 0 and eq(F, cs[1], po) and eq(F, cs[2], ev), 'range', 'lines are counted from %s to %s, expected from %s to %s' % (cs and lin.show(cs[1]), cs and lin.show(cs[2]), lin.show(po), lin.show(ev)))
                    ob(upto, 'range', 'lines are counted although the event may lie before what is counted already')
                    ob('m_encoding' in repr(counted[0][2][0]), 'encoding', 'lines are not counted in the encoding of the document')
                else:
                    ob(behind or eq(F, po, ev), 'counts', 'lines are not counted up to the event')
                if counted: ob(x.f['pos#'] == frozenset((1,)) and eq(F, x.lin('pos'), ev), 'upto', 'what was counted is not recorded: counted up to %s, recorded %s' % (lin.show(ev), lin.show(x.lin('pos'))))
                else: ob(x.f['pos#'] == frozenset((pset,)) and (not pset or eq(F, x.lin('pos'), po)), 'upto', 'what is counted is recorded wrongly')
                f, add1 = ('line', 1) if 'Line' in fname else ('column', 0)
                now = x.lin(f)
                w = now and lin.add(now, num(add1))
                ob(r is not None and eq(F, r, w) and (counted or now == sy(f)), 'value', 'gives %s, expected %s' % (lin.show(r), lin.show(w)))
    out.append(('queries:paths', n >= 12, 'only %d paths' % n))
    return out
