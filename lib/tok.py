"""Monitor-based abstract interpretation of the scanners.

The input is an unbounded sequence of characters whose classes are found out lazily (sets of atoms per
offset); its remaining length N is an interval.  At every control-flow merge the state is rebased to the
furthest live pointer into the input; the characters passed are fed to the grammar machine; states are
explored until no new canonical state appears.  At every return the token and the next position are
compared with what the machine decides for every input consistent with the state."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
from absint import *
import tok_spec
from tok_spec import Lex, D

F = ('ip', 'F')
N = ('sym', ('N',))
FAR = 10 ** 6
INF = 10 ** 9
NEXT = ('S', ('sym', ('next',)))


class Q:
    """spec: machine state or ('D', tok, pos, lim, need, alt); chars: {offset: frozenset}; lo..hi bounds of N"""
    __slots__ = ('spec', 'lo', 'hi', 'chars', 'ex')
    def __init__(s, spec, lo, hi, chars, ex): s.spec = spec; s.lo = lo; s.hi = hi; s.chars = chars; s.ex = ex
    def key(s): return (s.spec, s.lo, s.hi, s.chars)
    def get(s, o):
        for k, v in s.chars:
            if k == o: return v
        return None
    def put(s, o, v):
        d = dict(s.chars); d[o] = v
        return Q(s.spec, s.lo, s.hi, tuple(sorted(d.items())), s.ex)
    def rng(s, lo, hi): return Q(s.spec, lo, hi, s.chars, s.ex)


def show(a):
    if isinstance(a, int): return chr(a) if 32 < a < 127 else '\\x%02x' % a
    if isinstance(a, tuple): return '<%s:%s>' % a
    return '<%s>' % a


def rep(A):
    """a readable representative of a set of atoms"""
    return show(min(A, key=lambda a: (not isinstance(a, int), not (isinstance(a, int) and 96 < a < 123), not (isinstance(a, int) and 32 < a < 127), str(a))))


def is_F(x): return isinstance(x, tuple) and (x == F or (x[0] == 'po' and x[1] == F))


def live_in(fn):
    """block -> locals whose content may still be read (address-taken ones always)"""
    if fn.id in LIVE: return LIVE[fn.id]
    r = fn.rpo
    taken = set()
    use = {}; dfn = {}
    def op_uses(o, u):
        if o[0] in ('c', 'm'): pl_uses(o[1], u)
    def pl_uses(pl, u):
        u.append(pl[0])
        for e in pl[1:]:
            if isinstance(e, list) and e[0] == 'i': u.append(e[1])
    def rv_uses(rv, u):
        k = rv[0]
        if k == 'use': op_uses(rv[1], u)
        elif k == 'agg':
            for o in rv[2]: op_uses(o, u)
        elif k in ('ref', 'addr'):
            pl_uses(rv[1], u)
            if '*' not in rv[1][1:]: taken.add(rv[1][0])
        elif k in ('bin', 'cbin'): op_uses(rv[2], u); op_uses(rv[3], u)
        elif k == 'discr': pl_uses(rv[1], u)
        else:
            for x in rv[1:]:
                if isinstance(x, list) and x and x[0] in ('c', 'm'): op_uses(x, u)
                elif isinstance(x, list) and x and isinstance(x[0], int) and k not in ('cast', 'repeat'): pl_uses(x, u)
    for b in r:
        stmts, t = fn.blocks[b]
        u = set(); d = set()
        def add(us):
            for x in us:
                if x not in d: u.add(x)
        for x in stmts:
            if x[0] == '=':
                us = []; rv_uses(x[3], us)
                if len(x[2]) > 1: pl_uses(x[2], us)
                add(us)
                if len(x[2]) == 1: d.add(x[2][0])
            elif x[0] == 'sd':
                us = []; pl_uses(x[2], us); add(us)
        us = []
        if t[0] == 'switch': op_uses(t[2], us)
        elif t[0] == 'assert': op_uses(t[2], us)
        elif t[0] == 'drop': pl_uses(t[2], us)
        elif t[0] == 'call':
            if isinstance(t[3], list): op_uses(t[3], us) if t[3] and t[3][0] in ('c', 'm') else None
            for o in t[4]: op_uses(o, us)
            if len(t[5]) > 1: pl_uses(t[5], us)
        elif t[0] == 'return': us = [0]
        add(us)
        use[b] = u; dfn[b] = d
    # destination of a call is defined on the edge
    live = {b: set(use[b]) for b in r}
    order = sorted(r, key=lambda b: -r[b])
    ch = True
    while ch:
        ch = False
        for b in order:
            o = set()
            for n in fn.succs(b):
                if n in live: o |= live[n]
            t = fn.blocks[b][1]
            if t[0] == 'call' and len(t[5]) == 1: o.discard(t[5][0])
            nl = use[b] | (o - dfn[b])
            if nl != live[b]: live[b] = nl; ch = True
    LIVE[fn.id] = (live, taken)
    return LIVE[fn.id]


LIVE = {}


def preds(fn):
    if fn._preds is None:
        d = {}
        for b in fn.rpo:
            for n in fn.succs(b): d[n] = d.get(n, 0) + 1
        fn._preds = d
    return fn._preds


class TokAI(AI):
    maxstates = 150_000

    def __init__(s, prog, lex, hooks, parity=0):
        AI.__init__(s, prog, hooks, budget=3_000_000)
        s.lex = lex; s.u = lex.unit; s.parity = parity
        s.ALL = frozenset(tok_spec.alphabet(lex.unit, lex.ns))
        s.LIMIT = 4 * lex.unit
        s.memo = {}
        s.viols = {}
        s.nret = 0; s.nstates = 0

    def viol(s, kind, msg):
        s.viols.setdefault(kind, msg)

    # ---- canonical states
    def shift_atom(s, a, k):
        if not isinstance(a, tuple) or not a: return a
        if a == F or (a[0] == 'po' and a[1] == F):
            o = (0 if a == F else a[2])
            if isinstance(o, int):
                o -= k
                if o < -s.LIMIT: o = -FAR
                return padd(F, o)
            b, c = lin_parts(o)
            if b == N: return padd(F, lin_mk(N, s.clampN(c)))    # N_old + c - k = N_new + c
            return a
        if a == N: return lin_mk(N, s.clampN(k))
        if a[0] == 'lin' and a[1] == N: return lin_mk(N, s.clampN(a[2] + k))
        if a[0] == 'op' and len(a) == 4:
            x, y = a[2], a[3]
            if x == N and isinstance(y, int): return ('op', a[1], x, y - k)
            if y == N and isinstance(x, int): return ('op', a[1], x - k, y)
        if a[0] == 'sym' and isinstance(a[1], tuple) and a[1][0] in ('bt', 'asc'): return ('sym', (a[1][0], a[1][1] - k))
        return tuple(s.shift_atom(x, k) if isinstance(x, tuple) else x for x in a)

    def clampN(s, c):
        return FAR if c > s.LIMIT else c

    def shift(s, st, k):
        for base in list(st.mem):
            d = st.mem[base]
            n = {}
            ch = False
            for p, V in d.items():
                if V:
                    W = frozenset(s.shift_atom(a, k) for a in V)
                    if W != V: ch = True
                    n[p] = W
                else: n[p] = V
            if ch: st.mem[base] = n; st._own.add(base)

    def pointers(s, st):
        """offsets of all pointers into the input held in memory"""
        r = []
        def walk(a):
            if isinstance(a, tuple) and a:
                if a == F: r.append(0)
                elif a[0] == 'po' and a[1] == F:
                    if isinstance(a[2], int): r.append(a[2])
                elif a[0] == 'sym' and isinstance(a[1], tuple) and a[1][0] in ('bt', 'asc'): r.append(a[1][1])
                else:
                    for x in a: walk(x)
        for b, d in st.mem.items():
            if b == NEXT: continue
            for V in d.values():
                if V:
                    for a in V: walk(a)
        return r

    def kill_dead(s, st, fn, fid, b):
        live, taken = live_in(fn)
        s.keep(st, fid, live.get(b, ()))
        st.alias = {}

    def keep(s, st, fid, L):
        """drop the locals of a frame that are neither live nor pointed to"""
        cand = {x for x in st.mem if x[0] == 'L' and x[1] == fid and x[2] not in L}
        if not cand: return
        todo = [b for b in st.mem if b not in cand]
        def walk(a):
            if isinstance(a, tuple) and a:
                if a[0] == '&' and a[1] in cand: cand.discard(a[1]); todo.append(a[1])
                for x in a: walk(x)
        while todo and cand:
            for V in st.mem[todo.pop()].values():
                if V:
                    for a in V: walk(a)
        for b in cand: del st.mem[b]

    def canon(s, st, fn, fid, b):
        """-> list of canonical states (the spec monitor may fork)"""
        s.kill_dead(st, fn, fid, b)
        return s.rebase(st)

    def rebase(s, st):
        st.alias = {}; st.tag = {}
        ps = s.pointers(st)
        c = max(ps) if ps else 0
        q = st.q
        if c > q.lo: c = max([p for p in ps if p <= q.lo] or [0])
        outs = [st]
        if c > 0: outs = s.advance(st, c)
        res = []
        for x in outs:
            lim = min([p for p in s.pointers(x) if p >= -s.LIMIT] + [0])
            for y in s.settle(x):
                y.q = Q(y.q.spec, y.q.lo, y.q.hi, tuple((o, v) for o, v in y.q.chars if o >= lim), y.q.ex)
                res.append(y)
        return res

    def settle(s, st):
        """stored classes of characters already passed become values (one state per value)"""
        todo = [st]; out = []
        while todo:
            x = todo.pop()
            hit = None
            for b, d in x.mem.items():
                for p, V in d.items():
                    if V and len(V) == 1:
                        a = next(iter(V))
                        if isinstance(a, tuple) and a[0] == 'sym' and isinstance(a[1], tuple) and a[1][0] in ('bt', 'asc') and a[1][1] < 0:
                            hit = (b, p, a); break
                if hit: break
            if not hit: out.append(x); continue
            b, p, a = hit
            A = x.q.get(a[1][1])
            if A is None: A = s.ALL
            vals = {}
            for c in A: vals.setdefault(s.h.value(s, a[1][0], c), set()).add(c)
            for v, B in vals.items():
                y = x.copy() if len(vals) > 1 else x
                y._d(b)[p] = frozenset((v,))
                if y.q.get(a[1][1]) is not None: y.q = y.q.put(a[1][1], frozenset(B))
                todo.append(y)
        return out

    def advance(s, st, c):
        """feed the characters at 0..c to the machine, move the base"""
        q = st.q
        front = [(0, q.spec, q, q.ex)]
        done = []
        while front:
            o, sp, qq, ex = front.pop()
            if o >= c:
                if o > c: s.viol('boundary', 'the scanner stops inside a character (after %s)' % ex)
                else: done.append((sp, qq, ex))
                continue
            A = qq.get(o) or s.ALL
            groups = {}
            for a in A:
                n = s.lex.size(a)
                if o + n > max(qq.lo, c): continue
                r = sp if sp[0] == 'D' else s.lift(s.lex.step(sp, a), o, n)
                if r is not None: groups.setdefault((r, n), set()).add(a)
            for (r, n), B in groups.items():
                front.append((o + n, r, qq.put(o, frozenset(B)), (ex + rep(B))[-40:]))
        outs = []
        for sp, qq, ex in done:
            n = st.copy()
            s.shift(n, c)
            if sp[0] == 'D':
                pos = sp[2]
                if pos is not None:
                    pos -= c
                    if pos < -12 * s.u:
                        s.viol('late:%s' % sp[1], 'the scanner goes on although the token is decided (%s) after %s' % (sp[1], ex)); continue
                sp = ('D', sp[1], pos, max(sp[3] - c, 0))
            lo = max(qq.lo - c, 0); hi = qq.hi - c if qq.hi < INF else INF
            n.q = Q(sp, lo, hi, tuple((o - c, v) for o, v in qq.chars), ex)
            outs.append(n)
        return outs

    def lift(s, r, o, n):
        """decision of the machine at offset o -> absolute"""
        if isinstance(r, D):
            pos = None if r.pos is None else (o + n if r.after else o - r.pos * s.u)
            return ('D', r.tok, pos, o + r.need * s.u if r.need else 0)
        return r

    def key(s, st):
        return (st.q.key(), frozenset((b, p, V) for b, d in st.mem.items() if b != NEXT or d for p, V in d.items()),
                frozenset(st.eqs.items()), frozenset(st.neq.items()))

    # ---- execution
    def exec(s, fn, st0, fid):
        if fid > 60: raise Budget('depth')
        res = []
        seenr = set()
        for st in s.rebase(st0):
            k = (fn.id, fid, s.key(st))
            r = s.memo.get(k)
            if r is None:
                s.memo[k] = []            # recursion: no results yet
                s.stack.append((fn, None))
                r = s.explore(fn, st, fid)
                s.stack.pop()
                s.memo[k] = r
            for x, kx in r:
                if kx not in seenr:
                    seenr.add(kx)
                    res.append((x.copy(), fid))
        return res

    def explore(s, fn, st0, fid):
        pr = preds(fn)
        seen = set()
        work = [(0, st0)]
        rets = {}
        while work:
            b, st = work.pop()
            s.steps += 1
            if s.steps > s.budget: raise Budget('budget in %s' % fn.name)
            if pr.get(b, 0) > 1:
                outs = []
                for c in s.canon(st, fn, fid, b):
                    k = (b, s.key(c))
                    if k in seen: continue
                    seen.add(k); s.nstates += 1
                    if s.nstates > s.maxstates: raise Budget('states')
                    outs.append(c)
            else: outs = [st]
            for c in outs:
                for nb, ns in s.block(fn, c, fid, b):
                    if nb is None:
                        live_ret(ns, fid)
                        for x in s.rebase(ns):
                            rets.setdefault(s.key(x), x)
                    else: work.append((nb, ns))
        return [(x, k) for k, x in rets.items()]

    def inline(s, fn, st, fid, b, t, callee):
        nf = fid + 1
        s.inlined.add(callee.id)
        s.pass_args(fn, st, fid, t, callee, nf)
        # moved-out and dead locals of the caller
        live, taken = live_in(fn)
        if t[6] is not None:
            L = live.get(t[6], set()) | {t[5][0]}
            for e in t[5][1:]:
                if isinstance(e, list) and e[0] == 'i': L.add(e[1])
            s.keep(st, fid, L)
        outs = []
        for r, _ in s.exec(callee, st, nf):
            dl, weak = s.resolve(r, fn, fid, t[5], t[1])
            if dl:
                for d in dl:
                    r.copy_tree(('L', nf, 0), (), d[0], d[1], weak)
                    s.h.on_write(s, r, fn, d[0], d[1], 'op', t[1])
            r.drop_frame(nf)
            if t[6] is not None: outs += s.goto(fn, r, fid, b, t[6])
        return outs

    def switch(s, fn, st, fid, b, t):
        """switch on the class or the ASCII value of a character: one successor per target"""
        V = s.scalar(st, fn, fid, t[2])
        if V is not None and len(V) == 1:
            a = next(iter(V))
            if isinstance(a, tuple) and a[0] == 'sym' and isinstance(a[1], tuple) and a[1][0] in ('bt', 'asc'):
                o = a[1][1]
                A = st.q.get(o) or s.ALL
                w = s.p.int_width(t[5]) or 8
                tg = {}
                ex = {mask(int(v), w): d for v, d in t[3]}
                for x in A:
                    v = s.h.value(s, a[1][0], x)
                    tg.setdefault(ex.get(mask(v, w), t[4]), set()).add(x)
                res = []
                for d, B in tg.items():
                    n = st.copy()
                    if not s.h.narrow(s, n, o, frozenset(B)): continue
                    res += s.goto(fn, n, fid, b, d)
                return res
        return AI.switch(s, fn, st, fid, b, t)


def live_ret(st, fid):
    for base in [x for x in st.mem if x[0] == 'L' and x[1] == fid and x[2] != 0]: del st.mem[base]


class TokHooks(Hooks):
    def __init__(s, prog, whole=False, top=None):
        s.p = prog
        s.whole = whole
        s.bt = None
        s.raw = 0

    def value(s, ai, kind, x):
        if kind == 'bt': return s.btval[ai.lex.bt(x)]
        return x if isinstance(x, int) else 0x80

    def narrow(s, ai, st, o, B):
        if not B: return False
        q = st.q.put(o, B)
        n = min(ai.lex.size(a) for a in B)
        st.q = q
        if s.whole and o + n > q.lo: return s.bound(ai, st, o + n, q.hi)
        return True

    def bound(s, ai, st, lo, hi):
        q = st.q
        lo = max(lo, q.lo); hi = min(hi, q.hi)
        if ai.u == 2:
            lo += lo % 2
            if hi < INF: hi -= hi % 2
        if lo > hi: return False
        st.q = q.rng(lo, hi)
        return True

    def off(s, ai, st, V):
        """offset of a pointer argument"""
        if V is None or len(V) != 1: return None
        a = next(iter(V))
        if a == F: return 0
        if isinstance(a, tuple) and a[0] == 'sl': a = a[1]
        if a == F: return 0
        if isinstance(a, tuple) and a[0] == 'po' and a[1] == F and isinstance(a[2], int): return a[2]
        return None

    def at(s, ai, st, fn, V, need, line, what):
        """the character at a pointer: its offset, after checking that it is there"""
        o = s.off(ai, st, V)
        if o is None or o <= -ai.LIMIT * 2:
            ai.viol('undecided:%s:%s' % (fn.short, what), 'pointer %s of %s not tracked' % (sorted(V, key=str) if V else V, what))
            return None
        if o >= 0 and o + need > st.q.lo:
            ai.viol('overread:%s' % fn.short, '%s reads %d bytes at +%d of an input that may end before (after %s)' % (what, need, o, st.q.ex))
            return None
        # character boundary
        if o > 0 and st.q.get(o) is None:
            pos = 0
            while pos < o:
                A = st.q.get(pos)
                if A is None: A = ai.ALL
                ns = {ai.lex.size(a) for a in A}
                if len(ns) != 1: pos = None; break
                pos += next(iter(ns))
            if pos != o:
                ai.viol('boundary:%s' % fn.short, '%s reads at +%d, which may not be a character boundary (after %s)' % (what, o, st.q.ex))
                return None
        if o < 0 and st.q.get(o) is None:
            ai.viol('reread:%s' % fn.short, '%s re-reads a position that is not known to be a character boundary' % what)
            return None
        return o

    def on_call(s, ai, st, fn, callee, term, fid):
        sh = callee.short
        if sh in METHODS and callee.kind != 'intrinsic' and 'lib::xmltok' in callee.defn:
            return getattr(s, 'm_' + sh)(ai, st, fn, callee, term, fid)
        return None

    def arg(s, ai, st, fn, fid, term, i): return ai.scalar(st, fn, fid, term[4][i], term[1])

    def m_byte_type(s, ai, st, fn, callee, term, fid):
        o = s.at(ai, st, fn, s.arg(ai, st, fn, fid, term, 1), ai.u, term[1], 'byte_type')
        if o is None: return []
        dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
        for b, pa in dl:
            st.write(b, pa, None); st._d(b)[pa + ('#',)] = frozenset((('sym', ('bt', o)),))
        return [(st, 'done')]

    def m_byte_to_ascii(s, ai, st, fn, callee, term, fid):
        o = s.at(ai, st, fn, s.arg(ai, st, fn, fid, term, 1), ai.u, term[1], 'byte_to_ascii')
        if o is None: return []
        return [(st, frozenset((('sym', ('asc', o)),)))]

    def pred(s, ai, st, o, f):
        A = st.q.get(o) or ai.ALL
        y = frozenset(a for a in A if f(a)); n = A - y
        r = []
        if y:
            c = st.copy()
            if s.narrow(ai, c, o, y): r.append((c, frozenset((1,))))
        if n:
            c = st.copy()
            if s.narrow(ai, c, o, n): r.append((c, frozenset((0,))))
        return r

    def m_char_matches(s, ai, st, fn, callee, term, fid):
        o = s.at(ai, st, fn, s.arg(ai, st, fn, fid, term, 1), ai.u, term[1], 'char_matches')
        C = s.arg(ai, st, fn, fid, term, 2)
        if o is None: return []
        if C is None or not all(isinstance(c, int) for c in C):
            ai.viol('undecided:%s' % fn.short, 'character compared with an unknown value'); return []
        r = []
        for c in C: r += s.pred(ai, st, o, lambda a: a == c)
        return r

    def multi(s, ai, st, fn, term, fid, f, what):
        n = s.arg(ai, st, fn, fid, term, 2)
        n = next(iter(n)) if n is not None and len(n) == 1 else None
        if not isinstance(n, int):
            ai.viol('undecided:%s' % fn.short, '%s with an unknown length' % what); return []
        o = s.at(ai, st, fn, s.arg(ai, st, fn, fid, term, 1), n, term[1], what)
        if o is None: return []
        A = st.q.get(o) or ai.ALL
        bad = [a for a in A if ai.lex.size(a) != n or not isinstance(a, tuple)]
        if bad:
            ai.viol('length:%s' % fn.short, '%s with length %d for a character that may be %s' % (what, n, show(bad[0]))); return []
        return s.pred(ai, st, o, f)

    def m_is_name_char(s, ai, st, fn, callee, term, fid): return s.multi(ai, st, fn, term, fid, lambda a: a[1] in 'sc', 'is_name_char')
    def m_is_nmstrt_char(s, ai, st, fn, callee, term, fid): return s.multi(ai, st, fn, term, fid, lambda a: a[1] == 's', 'is_nmstrt_char')
    def m_is_invalid_char(s, ai, st, fn, callee, term, fid): return s.multi(ai, st, fn, term, fid, lambda a: a[1] == 'x', 'is_invalid_char')

    def minb(s, ai, st, fn, term, fid, k, what):
        o = s.at(ai, st, fn, s.arg(ai, st, fn, fid, term, 1), ai.u, term[1], what)
        if o is None: return []
        A = st.q.get(o) or ai.ALL
        # only specified for characters of class NONASCII; anything goes for others
        r = []
        na = frozenset(a for a in A if isinstance(a, tuple) and a[0] == 'n')
        if na:
            c = st.copy()
            if s.narrow(ai, c, o, na): r += s.pred(ai, c, o, lambda a: a[1] in k)
        if A - na:
            for v in (0, 1):
                c = st.copy()
                if s.narrow(ai, c, o, A - na): r.append((c, frozenset((v,))))
        return r
    def m_is_name_char_minbpc(s, ai, st, fn, callee, term, fid): return s.minb(ai, st, fn, term, fid, 'sc', 'is_name_char_minbpc')
    def m_is_nmstrt_char_minbpc(s, ai, st, fn, callee, term, fid): return s.minb(ai, st, fn, term, fid, 's', 'is_nmstrt_char_minbpc')

    def on_deref(s, ai, st, fn, V, line):
        if V and any(is_F(a) for a in V): ai.viol('raw:%s' % fn.short, 'the input is read directly, not through the encoding')

    def on_panic(s, ai, st, fn, term, why):
        if why == 'assert?': return
        ai.viol('panic:%s' % fn.short, 'may panic (%s) after %s' % (why, st.q.ex))

    def on_bin(s, ai, op, a, b, w, sg):
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if y == 0: return 0
                p = lin_parts(x)
                if p and p[0] == N and isinstance(y, int):
                    if y == mask(-1, w): return x
                    if ai.u == 2 and y == 1: return p[1] & 1
                    if ai.u == 2 and y == mask(~1, w): return lin_mk(N, p[1] - (p[1] & 1))
        if op == 'Rem':
            p = lin_parts(a)
            if b == 1: return 0
            if p and p[0] == N and ai.u == 2 and b == 2: return p[1] & 1
        return None

    def on_refine(s, ai, st, a, v):
        st.eqs.pop(a, None)
        if a == N: return s.bound(ai, st, v, v)
        if isinstance(a[1], tuple) and a[1][0] in ('bt', 'asc'):
            o = a[1][1]; A = st.q.get(o) or ai.ALL
            return s.narrow(ai, st, o, frozenset(x for x in A if mask(s.value(ai, a[1][0], x), 8) == mask(v, 8)))
        st.eqs[a] = v
        return True

    def on_refine_ne(s, ai, st, a, v):
        if a == N:
            q = st.q
            if v == q.lo: return s.bound(ai, st, v + 1, INF)
            if v == q.hi: return s.bound(ai, st, 0, v - 1)
            return True
        if isinstance(a[1], tuple) and a[1][0] in ('bt', 'asc'):
            o = a[1][1]; A = st.q.get(o) or ai.ALL
            return s.narrow(ai, st, o, frozenset(x for x in A if mask(s.value(ai, a[1][0], x), 8) != mask(v, 8)))
        return None

    def on_refine_op(s, ai, st, op, x, y, truth):
        if y == N and isinstance(x, int):
            x, y = y, x; op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        if x == N and isinstance(y, int):
            if not truth: op = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}[op]
            if op == 'Lt': return s.bound(ai, st, 0, y - 1)
            if op == 'Le': return s.bound(ai, st, 0, y)
            if op == 'Gt': return s.bound(ai, st, y + 1, INF)
            if op == 'Ge': return s.bound(ai, st, y, INF)
        if isinstance(x, tuple) and x[0] == 'sym' and isinstance(x[1], tuple) and x[1][0] in ('asc', 'bt') and isinstance(y, int):
            o = x[1][1]; A = st.q.get(o) or ai.ALL
            if op == 'BitAnd': return s.narrow(ai, st, o, frozenset(a for a in A if bool(s.value(ai, x[1][0], a) & y & 0xff) == bool(truth)))
            if op not in CMP: return True
            B = frozenset(a for a in A if CMP[op](to_signed(s.value(ai, x[1][0], a), 8), to_signed(y, 8)) == bool(truth))
            return s.narrow(ai, st, o, B)
        return True


METHODS = {'byte_type', 'byte_to_ascii', 'char_matches', 'is_name_char', 'is_nmstrt_char', 'is_invalid_char', 'is_name_char_minbpc', 'is_nmstrt_char_minbpc'}


class Mismatch(Exception): pass


def possible(ai, sp, o, q, depth=0, ex=''):
    """generate (token, pos, example) for every input consistent with the state"""
    lex, u = ai.lex, ai.u
    if sp[0] == 'D':
        need = sp[3]
        if need and q.lo < need:
            yield ('PARTIAL', None, ex)
            if q.hi < need: return
        yield (sp[1], sp[2], ex)
        return
    if depth > 12: raise Mismatch('the token is decided before the grammar can tell (after %s)' % ex)
    if q.lo <= o <= q.hi:
        r = ai.lift(lex.eof(sp) if not (ai.parity and sp == lex.start) else tok_spec.PART, o, 0)
        yield (r[1], r[2], ex + '<end>')
    if q.hi <= o: return
    A = q.get(o) or ai.ALL
    groups = {}
    for a in A:
        n = lex.size(a)
        if n > u:
            pn = [m for m in range(o + u, o + n, u) if q.lo <= m <= q.hi]
            if pn and not ai.h.whole:
                r = ai.lift(lex.part(sp, a), o, n)
                if r[3]:
                    for m in pn: groups.setdefault((r, n, m), []).append(a)
                else: groups.setdefault((r, n, 'part'), []).append(a)
        r = lex.step(sp, a)
        if o + n <= q.hi and r is not None:
            groups.setdefault((ai.lift(r, o, n), n, None), []).append(a)
    for (r, n, part), B in sorted(groups.items(), key=str):
        if part == 'part':
            yield (r[1], r[2], ex + rep(B) + '<cut>')
        elif part is not None:
            yield from possible(ai, r, o + n, q.rng(part, part), depth + 1, ex + rep(B) + '<cut>')
        else:
            yield from possible(ai, r, o + n, q.rng(max(q.lo, o + n), q.hi), depth + 1, ex + rep(B))


def analyse(prog, fn, lex, parity=0, whole=False):
    h = TokHooks(prog, whole)
    bt = prog.find_adt('ByteType')
    h.btval = {k: int(v) for k, v in prog.enum_discr(bt).items()}
    tk = {int(v): k for k, v in prog.enum_discr(prog.find_adt('XML_TOK')).items()}
    ai = TokAI(prog, lex, h, parity)
    st = State()
    st.q = Q(lex.start, 0, INF, (), '')
    st.write(('L', 0, 1), (), frozenset((('sym', ('arg', 1)),)))
    ln = lin_mk(N, parity)
    sl = frozenset((('sl', F, ln),))
    # the buffer argument: a one-field wrapper of a slice, or the slice
    t = fn.locals[2]
    k = prog.tk(t)
    st.write(('L', 0, 2), (), None)
    if k[0] == 'adt': st._d(('L', 0, 2))[(k[4][0][2][0][0],)] = sl
    else: st.write(('L', 0, 2), (), sl)
    st.write(('L', 0, 3), (), frozenset((('&', NEXT, ()),)))
    st.write(NEXT, (), frozenset((('ip', ('unset',)),)))
    rets = ai.exec(fn, st, 0)
    out = {}
    for r, _ in rets:
        T = r.read(('L', 0, 0), ('#',))
        names = [tk.get(to_signed(a, 128), tk.get(to_signed(a, 8), '?')) if isinstance(a, int) else '?' for a in (T or ['?'])]
        nx = r.read(NEXT, ())
        nxt = None
        if nx is not None and len(nx) == 1:
            a = next(iter(nx))
            if isinstance(a, tuple) and a[0] == 'po' and a[1] == F and not isinstance(a[2], int) and r.q.lo == r.q.hi:
                b, k = lin_parts(a[2])
                if b == N: a = padd(F, r.q.lo + k)
            nxt = 0 if a == F else a[2] if isinstance(a, tuple) and a[0] == 'po' and a[1] == F and isinstance(a[2], int) else 'unset' if a == ('ip', ('unset',)) else '?'
        ai.nret += 1
        try:
            for tok, pos, ex in possible(ai, r.q.spec, 0, r.q):
                full = r.q.ex + ex
                if names != [tok]:
                    ai.viol('token:%s' % tok, 'for input `%s` the token is %s, the grammar gives %s' % (full, '/'.join(names), tok)); break
                if pos is not None and pos != nxt:
                    ai.viol('next:%s' % tok, 'for input `%s` the next position of %s is %s, the grammar gives %s (relative to the last position looked at)' % (full, tok, nxt, pos)); break
        except Mismatch as e:
            ai.viol('early:%s' % '/'.join(names), 'token %s after `%s`: %s' % ('/'.join(names), r.q.ex, e))
    return ai, rets
