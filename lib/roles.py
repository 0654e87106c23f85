"""Extracts the prolog state machine: for every reachable state and every token (and, for
name tokens, every keyword the code distinguishes) the reported role and the next state."""
from mir import *
from absint import *

LEVELS = 3      # nesting depth explored for groups / conditional sections


class RoleMachine:
    def __init__(s, prog):
        s.p = prog
        s.tokT = prog.find_adt('XML_TOK'); s.roleT = prog.find_adt('XML_ROLE'); s.stT = prog.find_adt('prolog_state')
        if None in (s.tokT, s.roleT, s.stT): raise AnchorError('prolog state / token / role types')
        s.tok = prog.enum_discr(s.tokT)
        s.role_name = {v: k for k, v in prog.enum_discr(s.roleT).items()}
        s.names = [f[0] for f in prog.fields(s.stT)]
        s.trans = {}
        s.cache = {}
        s.problems = []
        s.fns = set()

    class H(Hooks):
        def __init__(h, m, name):
            h.m = m; h.name = name; h.tested = []; h.bad = []
        def on_call(h, ai, st, fn, callee, term, fid):
            if callee is None: return None
            if callee.kind == 'virtual' or callee.short in ('nameMatchesAscii', 'minBytesPerChar'):
                if callee.short == 'minBytesPerChar':
                    return [(st, frozenset((1,)))]
                if callee.short == 'nameMatchesAscii':
                    kw = h.m.bytes_of(ai, st, fn, fid, term[4][2])
                    off = h.m.buf_start(ai, st, fn, fid, term[4][1])
                    h.tested.append((kw, off))
                    return [(st, frozenset((int(h.name is not None and h.name == kw),)))]
                h.bad.append('call of %s' % callee.short)
            return None
        def on_panic(h, ai, st, fn, t, why):
            if why in ('diverge', 'assert'): h.bad.append('panic in %s' % fn.short)

    def bytes_of(s, ai, st, fn, fid, op):
        V = ai.scalar(st, fn, fid, op)
        if V is None or len(V) != 1: return '?'
        a = next(iter(V))
        if not (isinstance(a, tuple) and a[0] == 'sl' and a[1][0] == 'a' and isinstance(a[2], int)): return '?'
        b = s.p.alloc_bytes(a[1][1])
        if b is None: return '?'
        return b[a[1][2]:a[1][2] + a[2]].decode('latin1')

    def buf_start(s, ai, st, fn, fid, op):
        """offset of a buffer argument from the start of the token"""
        locs, w = ai.resolve(st, fn, fid, op[1])
        if not locs: return '?'
        V = ai.leaf(st, locs[0][0], locs[0][1], s.p.op_ty(fn, op))
        offs = set()
        for a in V or ():
            if isinstance(a, tuple) and a[0] == 'sl':
                p = po_parts(a[1])
                if p and p[0] == ('ip', 'tok') and isinstance(p[1], int): offs.add(p[1]); continue
            offs.add('?')
        return offs.pop() if len(offs) == 1 else '?'

    def initial(s, name):
        f = s.p.one(name)
        ai = AI(s.p, s.H(s, None))
        rs = ai.run(f)
        if len(rs) != 1: raise AnchorError(name + ' has %d outcomes' % len(rs))
        return s.read_state(rs[0][0], ('S', ('sym', ('arg', 1))), None)

    def read_state(s, st, base, old):
        out = []
        for n in s.names:
            V = st.read(base, (n,))
            D = st.read(base, (n, '#'))
            if n == 'handler':
                V = st.read(base, (n, 'v:Some', '0'))
            elif n == 'role_none':
                V = D
            if V is not None and len(V) == 1:
                a = next(iter(V))
                if isinstance(a, int): a &= 0xffffffff if n != 'role_none' else (1 << 128) - 1
                out.append(a)
            else:
                out.append(None if V is None else tuple(sorted(V, key=str)))
        return tuple(out)

    def step(s, state, tokname, kw):
        """-> (role, next state, tested keywords, problems)"""
        k = (state, tokname, kw)
        if k in s.cache: return s.cache[k]
        h = s.H(s, kw)
        ai = AI(s.p, h, budget=200000); ai.paths = True
        d = dict(zip(s.names, state))
        hid = d['handler']
        if not (isinstance(hid, tuple) and hid[0] == 'fn'):
            raise AnchorError('prolog state handler is not a known function: %s' % (state,))
        f = s.p.fns[hid[1]]
        B = ('S', ('sym', ('arg', 1)))
        def setup(ai, st, fn):
            for n, v in d.items():
                if n == 'handler':
                    st._d(B)[('handler', '#')] = frozenset((1,))
                    st._d(B)[('handler', 'v:Some', '0')] = frozenset((v,))
                elif n == 'role_none':
                    st._d(B)[(n, '#')] = frozenset((v,)) if v is not None else None
                else:
                    st._d(B)[(n,)] = frozenset((v,)) if v is not None else None
            st.write(('L', 0, 2), (), None)
            st._d(('L', 0, 2))[('#',)] = frozenset((mask(s.tok[tokname], 128),))
            st.write(('L', 0, 3), (), None)
            st._d(('L', 0, 3))[(s.p.fields(f.locals[3])[0][0],)] = frozenset((('sl', ('ip', 'tok'), 64),))
        rs = ai.run(f, setup)
        s.fns.add(f.short)
        roles = set(); nxt = set()
        for st, fid in rs:
            R = st.read(('L', 0, 0), ('#',))
            roles.add(None if R is None or len(R) != 1 else next(iter(R)))
            nxt.add(s.read_state(st, B, state))
        bad = list(h.bad)
        if len(roles) != 1 or len(nxt) != 1:
            bad.append('not a single outcome: %d roles, %d states' % (len(roles), len(nxt)))
            r = (None, None, h.tested, bad)
        else:
            r = (s.role_name.get(roles.pop(), '?'), nxt.pop(), h.tested, bad)
        s.cache[k] = r
        return r

    def outcomes(s, state, tokname):
        """{kw or None: (role, next, bad)} and the tested keywords with their offsets"""
        role, nx, tested, bad = s.step(state, tokname, None)
        out = {None: (role, nx, bad)}
        for kw, off in tested:
            r2, n2, t2, b2 = s.step(state, tokname, kw)
            out[kw] = (r2, n2, b2)
        return out, tested
