"""Character references and predefined entities: the number of a reference of any length, the entity a name of any length stands for.

The exploration is the one of the tokenisers. For numbers, the machine running alongside reads the reference (&#digits; or &#xdigits;) and keeps
the number as an expression over R, the number at the last merge; every place that follows the number is rewritten to R with it, so that the
argument is by induction over the digits: each step must give 10R+d or 16R+d, and R must be known to be below 0x110000 before the next one."""
from tok import *
from tok_spec import Lex

R = ('sym', ('R',)); R10 = ('sym', ('R', 10)); R16 = ('sym', ('R', 16))
STALE = ('sym', ('stale',)); UNBOUNDED = ('sym', ('unbounded',))
LIMIT = 0x110000
TOP = 40
DIG = {ord(c): i for i, c in enumerate('0123456789')}
HEX = {ord(c): int(c, 16) for c in '0123456789abcdefABCDEF'}


def has_R(a): return isinstance(a, tuple) and bool(a) and (a[0] == 'sym' and isinstance(a[1], tuple) and a[1][:1] == ('R',) or any(has_R(x) for x in a if isinstance(x, tuple)))


def is_chk(a): return isinstance(a, tuple) and a[0] == 'sym' and isinstance(a[1], tuple) and a[1][0] == 'CHK'


def times(n, k, d):
    """k*n+d"""
    if isinstance(n, int): return n * k + d
    if n == R: return lin_mk(R10 if k == 10 else R16, d) if d else (R10 if k == 10 else R16)
    return None


def feed(sp, a):
    """(phase, number, known to be in range, expression known to be in range); None for what no reference has here"""
    ph, n, ok, bx = sp
    if ph == 'amp': return ('hash', n, ok, bx) if a == ord('&') else None
    if ph == 'hash': return ('first', n, ok, bx) if a == ord('#') else None
    if ph == 'first' and a == ord('x'): return ('xfirst', n, ok, bx)
    k = 10 if ph in ('first', 'dec') and a in DIG else 16 if ph in ('xfirst', 'hex') and a in HEX else 0
    if k:
        m = times(n, k, HEX[a]) if ok else UNBOUNDED
        return ('dec' if k == 10 else 'hex', m, isinstance(m, int) or m == bx, bx)
    if ph in ('dec', 'hex') and a == ord(';'): return ('end', n, ok, bx)
    return None


class NumAI(TokAI):
    """learn: numbers up to 0x10f as they are, to find the places that follow the number; afterwards those places are kept relative to it"""
    frames, maxstates = {}, 30_000

    def exec(s, fn, st0, fid):
        old = s.frames
        s.frames = {f: x for f, x in old.items() if f < fid}; s.frames[fid] = fn.id
        r = TokAI.exec(s, fn, st0, fid)
        s.frames = old
        return r

    def advance(s, st, c):
        if st.q.spec[0] == 'over':
            n = st.copy(); s.shift(n, c); n.q = Q(st.q.spec, INF, INF, (), st.q.ex)
            return [n]
        front = [(0, st.q.spec, st.q)]; outs = []
        while front:
            o, sp, q = front.pop()
            if o >= c:
                n = st.copy(); s.shift(n, c)
                n.q = Q(sp, INF, INF, tuple((x - c, v) for x, v in q.chars), q.ex)
                outs.append(n); continue
            if sp[0] == 'end': s.viol('late', 'goes on behind the end of the reference (after %s)' % q.ex); continue
            groups = {}
            for a in q.get(o) or s.ALL:
                r = feed(sp, a)
                if r is None or s.learn and r[1] > TOP: continue
                groups.setdefault(r, set()).add(a)
            for r, B in groups.items():
                z = q.put(o, frozenset(B)); front.append((o + s.u, r, Q(z.spec, z.lo, z.hi, z.chars, (q.ex + rep(B))[-40:])))
        return outs

    def rebase(s, st):
        res = []
        for y in TokAI.rebase(s, st):
            if y.q.spec[0] == 'over': res.append(y); continue
            ph, n, ok, bx = y.q.spec
            if n == UNBOUNDED: s.viol('unbounded', 'the next digit is taken in although the number may already be out of range (after %s)' % y.q.ex); continue
            if not s.here(y.q): continue
            old = path(y.q, n, s.u); new = path(y.q, R, s.u, 1); ch_ = []
            for b in list(y.mem):
                if b[0] != 'L' or b[1] not in s.frames: continue
                ch = {}
                for k, V in y.mem[b].items():
                    if not V or len(V) != 1: continue
                    a = next(iter(V)); c = (s.frames[b[1]], b, k)
                    if s.learn:
                        if isinstance(a, int): s.cols.setdefault(c, set()).add((a, a in old))
                    elif is_chk(a):
                        if has_R(a) or a[1][1] in old: ch[k] = ('sym', ('CHK', new[old.index(a[1][1])] if a[1][1] in old else STALE))
                    elif (c in s.cols or has_R(a)) and a in old: ch[k] = new[old.index(a)]
                    elif has_R(a) and a[0] in ('sym', 'lin'): ch[k] = STALE
                if ch:
                    ch_.append(list(ch.values()))
                    d = y._d(b)
                    for k, a in ch.items(): d[k] = frozenset((a,))
            if not s.learn and (n == R or not isinstance(n, int) or any(x == new[i] for c in ch_ for x in c for i in range(len(new)))): y.q = Q((ph, R, ok, new[old.index(bx)] if bx in old else R if ok else None), y.q.lo, y.q.hi, y.q.chars, y.q.ex)
            res.append(y)
        return res

    def here(s, q): return q.spec[0] in ('end', 'over') or {a for a in q.get(0) or s.ALL if feed(q.spec, a) is not None}


class NumHooks(TokHooks):
    def m_byte_to_ascii(s, ai, st, fn, callee, term, fid):
        o = s.at(ai, st, fn, s.arg(ai, st, fn, fid, term, 1), ai.u, term[1], 'byte_to_ascii')
        if o is None: return []
        r = []
        for a in st.q.get(o) or ai.ALL:
            if o == 0 and st.q.spec[0] != 'over' and feed(st.q.spec, a) is None: continue
            c = st.copy()
            if s.narrow(ai, c, o, frozenset((a,))): r.append((c, frozenset((mask(s.value(ai, 'asc', a), 8),))))
        return r

    def on_call(s, ai, st, fn, callee, term, fid):
        if callee.local and callee.short == 'checkCharRefNumber' and len(term[4]) == 1:
            V = s.arg(ai, st, fn, fid, term, 0)
            if V and len(V) == 1:
                s.calls += 1
                return [(st, frozenset((('sym', ('CHK', next(iter(V)))),)))]
        return TokHooks.on_call(s, ai, st, fn, callee, term, fid)

    def on_bin(s, ai, op, a, b, w, sg):
        for x, y in ((a, b), (b, a)):
            if op == 'Mul' and x == R and y in (10, 16): return (R10 if y == 10 else R16)
            if op in ('BitOr', 'BitXor') and x == R16 and isinstance(y, int) and 0 <= y < 16: return lin_mk(R16, y) if y else R16
        if op == 'Shl' and a == R and b == 4: return R16
        return TokHooks.on_bin(s, ai, op, a, b, w, sg)

    def on_refine_op(s, ai, st, op, x, y, truth):
        if isinstance(x, int) and has_R(y): x, y = y, x; op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        if has_R(x) and isinstance(y, int) and op in ('Lt', 'Le', 'Gt', 'Ge'):
            q = st.q; sp = q.spec
            y = to_signed(y, 32)
            if not truth: op = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}[op]
            if op in ('Gt', 'Le'): y += 1; op = {'Gt': 'Ge', 'Le': 'Lt'}[op]
            if y <= 0: return op == 'Ge'
            if sp[0] == 'over': return True
            for e in path(q, sp[1], ai.u) + [sp[3]]:
                b, d = (e, 0) if e == x else lin_parts(e) or (None, 0) if isinstance(e, tuple) else (None, 0)
                if b == x and y + d == LIMIT: break
            else: ai.viol('limit', 'something else than the number written is compared, or not with 110000 (after %s)' % q.ex); return True
            if e == R and sp[2] or e == sp[3]: return op == 'Lt'
            if op == 'Ge': st.q = Q(('over',), q.lo, q.hi, q.chars, q.ex)
            else: st.q = Q((sp[0], sp[1], sp[2] or e == sp[1], e), q.lo, q.hi, q.chars, q.ex)
            return True
        return TokHooks.on_refine_op(s, ai, st, op, x, y, truth)


def path(q, n, u, ok=None):
    """the number n read so far, and with the next characters known to follow"""
    sp = (q.spec[0], n, q.spec[2] if ok is None else 1, q.spec[3]); r = [n]; o = 0
    while q.get(o) and len(q.get(o)) == 1:
        sp = feed((sp[0], sp[1], 1, sp[3]), next(iter(q.get(o))))
        if sp is None or sp[0] == 'end': break
        if sp[1] is None: break
        r.append(sp[1]); o += u
    return r


def start(fn, prog, ai, sp, ln, chars=()):
    st = State()
    st.q = Q(sp, INF, INF, chars, '')
    st.write(('L', 0, 1), (), frozenset((('sym', ('arg', 1)),)))
    sl = frozenset((('sl', F, ln),))
    k = prog.tk(fn.locals[2])
    st.write(('L', 0, 2), (), None)
    if k[0] == 'adt': st._d(('L', 0, 2))[(k[4][0][2][0][0],)] = sl
    else: st.write(('L', 0, 2), (), sl)
    return st


def numbers(prog, fn, unit):
    """(evaluator, number of returns); the evaluator's viols tell what is wrong"""
    cols = {}
    for learn in (1, 0):
        h = NumHooks(prog); h.calls = 0
        h.btval = {k: int(v) for k, v in prog.enum_discr(prog.find_adt('ByteType')).items()}
        ai = NumAI(prog, Lex(unit, 0, 'content'), h, 0); ai.learn = learn; ai.cols = cols
        done = set()
        for r, _ in ai.exec(fn, start(fn, prog, ai, ('amp', 0, True, 0), N), 0):
            V = r.read(('L', 0, 0), ()); q = r.q
            v = next(iter(V)) if V and len(V) == 1 else None
            if q.spec[0] == 'over':
                ai.nret += 1
                if v is None or not isinstance(v, int) or to_signed(v, 32) != -1: ai.viol('over', 'a number beyond 10FFFF does not give -1 (after %s)' % q.ex)
                continue
            front = [(q.spec, 0, q.ex)]
            while front:
                sp, o, ex = front.pop()
                if sp[0] == 'end':
                    ai.nret += 1; done.add(sp[1])
                    if v != ('sym', ('CHK', sp[1])): ai.viol('number', 'the result is not the number written (after %s)' % ex)
                    continue
                A = {a for a in q.get(o) or ai.ALL if feed(sp, a) is not None}
                if q.get(o) is None and A != {ord(';')}: ai.viol('early', 'the result is given before the reference ends (after %s)' % ex); continue
                for a in A: front.append((feed(sp, a), o + ai.u, ex + show(a)))
        if ai.viols: break
        if learn:
            if not set(range(TOP)) <= done: ai.viol('reach', 'numbers below 40 do not all arrive')
            cols = {c for c, x in cols.items() if all(n for a, n in x) and len(x) > 3}
            if ai.viols: break
        elif R not in done: ai.viol('reach', 'no number arrives')
    return ai


# ---- predefined entities
NAMES = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}


class NameAI(TokAI):
    def rebase(s, st): st.alias = {}; st.tag = {}; return [st]
    def key(s, st): return TokAI.key(s, st)


def names(prog, fn, unit, n):
    """every name of n characters of one code unit each"""
    h = TokHooks(prog)
    h.btval = {k: int(v) for k, v in prog.enum_discr(prog.find_adt('ByteType')).items()}
    ai = NameAI(prog, Lex(unit, 0, 'content'), h, 0)
    ai.ALL = frozenset(a for a in ai.ALL if ai.lex.size(a) == unit)
    for r, _ in ai.exec(fn, start(fn, prog, ai, ('name',), n * unit), 0):
        ai.nret += 1
        V = r.read(('L', 0, 0), ())
        v = next(iter(V)) if V and len(V) == 1 else None
        sets = [r.q.get(i * unit) or ai.ALL for i in range(n)]
        fit = [w for w in NAMES if len(w) == n and all(ord(c) in A for c, A in zip(w, sets))]
        one = all(len(A) == 1 for A in sets)
        if not isinstance(v, int): ai.viol('undecided', 'the result for names of %d characters is not tracked' % n)
        elif v == 0:
            if fit: ai.viol('missed', '&%s; is not recognised' % fit[0])
        elif not fit or not one: ai.viol('wrong', 'the name %s counts as %s' % (''.join(rep(A) for A in sets), chr(v) if 0 < v < 0x110000 else v))
        elif chr(v) != NAMES[fit[0]]: ai.viol('value', '&%s; stands for %s' % (fit[0], chr(v) if 0 < v < 0x110000 else v))
    return ai
