"""Counting lines and columns: the counter of each encoding against the rule, for inputs of any length.

The same exploration as for the scanners; the machine running alongside counts (a line feed, a carriage return or both together start
a line, every other character takes one column). Both counts are taken relative to the machine's at every merge, so that the states are finitely many."""
from tok import *
from absint import *

PO = ('S', ('sym', ('position',)))
LINE, COL = ('sym', ('line',)), ('sym', ('column',))
STALE = ('sym', ('stale',))


class PosLex(Lex):
    def __init__(s, unit): Lex.__init__(s, unit, 0, 'content'); s.start = ('P', 0, 0, 0, 0)

    def step(s, sp, a):
        _, cr, dl, reset, dc = sp
        t = s.bt(a)
        if t == 'LF': return ('P', 0, dl, reset, dc) if cr else ('P', 0, dl + 1, 1, 0)
        if t == 'CR': return ('P', 1, dl + 1, 1, 0)
        return ('P', 0, dl, reset, dc + 1)


class PosAI(TokAI):
    """every place that ever held a count (the position itself, locals it was copied to) is kept relative to the machine's count;
    a copy that lags by more than two is no count any more"""
    frames, cols, maxstates = {}, set(), 10_000

    def exec(s, fn, st0, fid):
        old = s.frames
        s.frames = {f: x for f, x in old.items() if f < fid}; s.frames[fid] = fn.id
        r = TokAI.exec(s, fn, st0, fid)
        s.frames = old
        return r

    def col(s, b, key):
        """a place, told apart from the same frame number in another call"""
        if b == PO: return (b, key)
        return b[0] == 'L' and b[1] in s.frames and (s.frames[b[1]], b, key)

    def rebase(s, st):
        out = TokAI.rebase(s, st)
        for y in out:
            _, cr, dl, reset, dc = y.q.spec
            sync = False
            for b in list(y.mem):
                new = {}
                for key, V in y.mem[b].items():
                    if not V or len(V) != 1: continue
                    a = next(iter(V))
                    if isinstance(a, int):
                        if not reset or s.col(b, key) not in s.cols: continue
                        k = to_signed(a, 64) - dc
                        new[key] = lin_mk(COL, k) if -3 < k < 3 else STALE
                        sync |= new[key] != STALE
                        continue
                    base, k = (a, 0) if a in (LINE, COL) else lin_parts(a) or (None, 0)
                    if base == LINE: new[key] = lin_mk(LINE, k - dl) if -3 < k - dl < 3 else STALE
                    elif base == COL:
                        s.cols.add(s.col(b, key))
                        new[key] = STALE if reset or not -3 < k - dc < 3 else lin_mk(COL, k - dc)
                        sync |= new[key] != STALE
                    elif base == STALE: new[key] = STALE
                if new:
                    d = y._d(b)
                    for key, a in new.items(): d[key] = frozenset((a,))
            q = y.q
            y.q = Q(('P', cr, 0) + ((1, min(dc, 8)) if reset and not sync else (0, 0)), q.lo, q.hi, q.chars, q.ex)
        return out


def finals(ai, sp, o, q, ex=''):
    """the machine's counts at the end of every input consistent with the state"""
    if q.hi - o < ai.u: yield sp, ex; return
    if o >= q.lo: raise Mismatch('the count ends although input may be left (after %s)' % (q.ex + ex))
    A = q.get(o) or ai.ALL
    groups = {}
    for a in A:
        n = ai.lex.size(a)
        if o + n > q.hi: continue
        groups.setdefault((ai.lex.step(sp, a), n), []).append(a)
    for (r, n), B in sorted(groups.items(), key=str): yield from finals(ai, r, o + n, q, ex + rep(B))


def count(prog, fn, unit, parity=0):
    lex = PosLex(unit)
    h = TokHooks(prog, True)
    h.btval = {k: int(v) for k, v in prog.enum_discr(prog.find_adt('ByteType')).items()}
    ai = PosAI(prog, lex, h, parity); ai.cols = set()
    st = State()
    st.q = Q(lex.start, 0, INF, (), '')
    st.write(('L', 0, 1), (), frozenset((('sym', ('arg', 1)),)))
    sl = frozenset((('sl', F, lin_mk(N, parity)),))
    k = prog.tk(fn.locals[2])
    st.write(('L', 0, 2), (), None)
    if k[0] == 'adt': st._d(('L', 0, 2))[(k[4][0][2][0][0],)] = sl
    else: st.write(('L', 0, 2), (), sl)
    st.write(('L', 0, 3), (), frozenset((('&', PO, ()),)))
    ai.lkey, ai.ckey = ('lineNumber',), ('columnNumber',)
    st._d(PO)[ai.lkey] = frozenset((LINE,)); st._d(PO)[ai.ckey] = frozenset((COL,))
    rets = ai.exec(fn, st, 0)
    for r, _ in rets:
        ai.nret += 1
        q = r.q
        try:
            for sp, ex in finals(ai, q.spec, 0, q):
                _, cr, dl, reset, dc = sp
                L, C = r.read(PO, ai.lkey), r.read(PO, ai.ckey)
                wl = lin_mk(LINE, dl) if dl else LINE
                wc = dc if reset else lin_mk(COL, dc) if dc else COL
                if L != frozenset((wl,)): ai.viol('lines', 'after `%s` the line is %s, expected %s (relative to what is right before)' % (q.ex + ex, say(L), say([wl]))); break
                if C != frozenset((wc,)): ai.viol('columns', 'after `%s` the column is %s, expected %s (relative to what is right before)' % (q.ex + ex, say(C), say([wc]))); break
        except Mismatch as e:
            ai.viol('early', str(e))
    return ai


def say(V):
    r = []
    for a in V or ['?']:
        if isinstance(a, tuple):
            b, k = lin_parts(a) if lin_parts(a) else (a, 0)
            r.append('%s%+d' % (b[1][0] if isinstance(b, tuple) and b[0] == 'sym' else b, k))
        else: r.append(str(to_signed(a, 64)) if isinstance(a, int) else str(a))
    return '/'.join(r)
