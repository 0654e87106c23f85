"""Picking the attributes out of a start tag: the generic scanner against the grammar of start tags, for tags of any length.

The exploration is the one of the tokenisers (lib/tok.py); the machine running alongside is the start tag part of the lexical grammar, so that only
well-formed tags are followed. It remembers where the current attribute's name and value begin and end, and whether the value so far reads the
same after normalisation. Every call of the callback must hand over exactly those places, once per attribute, in order."""
from tok import *
from tok_spec import Lex, D

ENDS = ('ave', 'avew', 'tag', 'tagw')
T = lambda base, rep=1, norm=1, last=2, name=None, val=None, end=None: ('T', base, rep, norm, last, name, val, end)


class AttAI(TokAI):
    def __init__(s, *a):
        TokAI.__init__(s, *a)
        s.marks = {}; s.stale = False

    def shift_atom(s, a, k):
        if isinstance(a, tuple) and a and a[0] == 'mk': return ('mk', 'old') if s.stale else a
        if s.marks and isinstance(a, tuple) and a and (a == F or (a[0] == 'po' and a[1] == F and isinstance(a[2], int))):
            o = 0 if a == F else a[2]
            if o - k < -s.u and o in s.marks: return ('mk', s.marks[o])
        return TokAI.shift_atom(s, a, k)

    def pointers(s, st):
        return [o for o in TokAI.pointers(s, st) if o > -FAR]

    def feed(s, sp, a, o, n, ex):
        """the machine's next state, None for characters no well-formed tag has here"""
        _, b, rep, norm, last, name, val, end = sp
        if b[0] == 'end': return None
        r = s.lex.step(b, a)
        if isinstance(r, D):
            if not r.tok.startswith(('START_TAG', 'EMPTY')): return None
            if not rep: s.viol('unreported', 'the last attribute of a tag is not reported (after %s)' % ex)
            return T(('end',))
        if r[0] == 'lt' or r[0] == 'tag': return T(r)
        if r[0] not in ('tagw', 'att', 'attc', 'attw', 'atteq', 'av', 'avr', 'ave', 'avew', 'sol'): return None
        if r[0] == 'sol' and b[0] != 'sol' and not rep: s.viol('unreported', 'the last attribute of a tag is not reported (after %s)' % ex)
        if r[0] == 'att' and b[0] in ('tagw', 'avew'):
            if not rep: s.viol('unreported', 'an attribute is not reported before the next one (after %s)' % ex)
            return T(r, 0, 1, 2, o)
        if r[0] == 'av' and b[0] == 'atteq': return ('T', r, rep, 1, 2, name, o + n, None)
        if r[0] == 'ave' and b[0] == 'av': return ('T', r, rep, norm and last != 1, 0, name, val, o)
        if b[0] in ('av', 'avr'):
            ws = s.lex.cls(a) == 'WS'
            if a == ord('&') or ws and (a != 32 or last): norm = 0
            return ('T', r, rep, norm, 1 if ws else 0, name, val, end)
        return ('T', r, rep, norm, last, name, val, end)

    def here(s, q):
        """what the next character may be in a well-formed tag"""
        return {a for a in q.get(0) or s.ALL if s.feed(q.spec, a, 0, s.lex.size(a), q.ex) is not None}

    def advance(s, st, c):
        q = st.q
        if q.spec[0] == 'X':
            n = st.copy(); s.shift(n, c); n.q = Q(q.spec, INF, INF, (), q.ex)
            return [n]
        front = [(0, q.spec, q, q.ex, False)]; done = []
        while front:
            o, sp, qq, ex, new = front.pop()
            if o == c: done.append((sp, qq, ex, new, o)); continue
            if sp[1][0] == 'end': s.viol('late', 'goes on behind the end of the tag (after %s)' % ex); continue
            groups = {}
            for a in qq.get(o) or s.ALL:
                n = s.lex.size(a)
                if o + n > c: r = sp; n = 0        # the place looked at is inside this character
                else: r = s.feed(sp, a, o, n, ex)
                if r is not None: groups.setdefault((r, n), set()).add(a)
            for (r, n), B in groups.items():
                if not n: done.append((sp, qq.put(o, frozenset(B)), ex, new, o)); continue
                front.append((o + n, r, qq.put(o, frozenset(B)), (ex + rep(B))[-40:], new or (r[1][0] == 'att' and sp[1][0] != 'att' and sp[1][0] != 'attc')))
        outs = []
        for sp, qq, ex, new, c in done:
            n = st.copy()
            s.marks = {v: k for k, v in zip(('name', 'val', 'end'), sp[5:8]) if isinstance(v, int)}; s.stale = new
            s.shift(n, c)
            s.marks = {}; s.stale = False
            mv = tuple(v if not isinstance(v, int) else v - c if v - c >= -s.u else 'mk' for v in sp[5:8])
            n.q = Q(sp[:5] + mv, INF, INF, tuple((o - c, v) for o, v in qq.chars), ex)
            outs.append(n)
        return outs


class AttHooks(TokHooks):
    tkf = None

    def on_bin(s, ai, op, a, b, w, sg):
        if op in ('Eq', 'Ne'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[:1] == ('mk',) and is_F(y): return int(op == 'Ne')
        return TokHooks.on_bin(s, ai, op, a, b, w, sg)

    def on_call(s, ai, st, fn, callee, term, fid):
        if callee.short in ('call_mut', 'call', 'call_once') and not callee.local and len(term[4]) == 2: return s.report(ai, st, fn, term, fid)
        return TokHooks.on_call(s, ai, st, fn, callee, term, fid)

    def place(s, V):
        if V is None or len(V) != 1: return None
        a = next(iter(V))
        if isinstance(a, tuple) and a[0] == 'mk': return a
        return 0 if a == F else a[2] if isinstance(a, tuple) and a[0] == 'po' and a[1] == F else None

    def report(s, ai, st0, fn, term, fid):
        out = []
        arg = term[4][1]
        for st in ai.rebase(st0):
            q = st.q; sp = q.spec; ex = q.ex
            src, _ = ai.resolve(st, fn, fid, arg[1], term[1])
            b0, pa = src[0]
            g = lambda f: s.place(next((st.read(b0, pa + pre + (f,)) for pre in (('0',), ()) if st.read(b0, pa + pre + (f,)) is not None), None))
            nm = next((st.read(b0, pa + pre + ('normalized',)) for pre in (('0',), ()) if st.read(b0, pa + pre + ('normalized',)) is not None), None)
            if sp[0] != 'T' or sp[5] is None or sp[2]:
                ai.viol('twice', 'something is reported where there is no attribute left to report (after %s)' % ex); continue
            _, base, rp, norm, last, name, val, end = sp
            A = ai.here(q)
            if not A and base[0] != 'end': continue           # no well-formed tag
            want = lambda m, k: ('mk', k) if m == 'mk' else m
            if base[0] == 'av':
                if not all(isinstance(a, int) and chr(a) == base[1] for a in A): ai.viol('early', 'an attribute is reported before its value ends (after %s)' % ex); continue
                end = 0; norm = norm and last != 1
            elif base[0] not in ('ave', 'avew', 'sol', 'end'): ai.viol('early', 'an attribute is reported before its value ends (after %s)' % ex); continue
            for f, m, k, what in (('name', name, 'name', 'name begins'), ('valuePtr', val, 'val', 'value begins'), ('valueEnd', end, 'end', 'value ends')):
                if g(f) != want(m, k): ai.viol(f, 'an attribute is reported whose %s somewhere else than in the tag (after %s)' % (what, ex))
            if nm is None or not nm <= {0, 1}: ai.viol('undecided:normalized', 'the normalized flag is not tracked (after %s)' % ex)
            elif 1 in nm and not norm: ai.viol('normalized', 'a value that changes under normalisation is reported as normalised (after %s)' % ex)
            s.reports += 1
            dl, _ = ai.resolve(st, fn, fid, term[5], term[1])
            for e in (0, 1, 8):
                y = st.copy()
                y.q = Q(sp[:2] + (1,) + sp[3:] if not e else ('X', e), INF, INF, q.chars, ex)
                for b, p in dl: y.write(b, p, None); y._d(b)[p + ('#',)] = frozenset((e,))
                out.append((y, 'done'))
        return out


def attributes(prog, fn, unit, ns):
    h = AttHooks(prog); h.reports = 0
    h.btval = {k: int(v) for k, v in prog.enum_discr(prog.find_adt('ByteType')).items()}
    ai = AttAI(prog, Lex(unit, ns, 'content'), h, 0)
    st = State()
    st.q = Q(T(('C',)), INF, INF, ((0, frozenset((ord('<'),))),), '')
    st.write(('L', 0, 1), (), frozenset((('sym', ('arg', 1)),)))
    sl = frozenset((('sl', F, N),))
    k = prog.tk(fn.locals[2])
    st.write(('L', 0, 2), (), None)
    if k[0] == 'adt': st._d(('L', 0, 2))[(k[4][0][2][0][0],)] = sl
    else: st.write(('L', 0, 2), (), sl)
    st.write(('L', 0, 3), (), frozenset((('sym', ('callback',)),)))
    for r, _ in ai.exec(fn, st, 0):
        ai.nret += 1
        V = r.read(('L', 0, 0), ('#',)); q = r.q; sp = q.spec
        if sp[0] == 'X':
            if V != frozenset((sp[1],)): ai.viol('error', 'the error of the callback is not handed on')
            continue
        if V != frozenset((0,)): ai.viol('result', 'an error is returned although the callback gave none (after %s)' % q.ex)
        b = sp[1][0]
        if b in ('sol', 'end'): continue
        A = ai.here(q)
        if not A: continue
        if b not in ENDS or not all(a in (ord('/'), ord('>')) for a in A):
            ai.viol('stops', 'stops before the end of the tag (after %s)' % q.ex)
        elif not sp[2]: ai.viol('unreported', 'the last attribute of a tag is not reported (after %s)' % q.ex)
    return ai
