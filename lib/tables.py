"""Summaries of code that walks over and fills the tables of declarations.

A loop over a table (or a vector) is taken with no element and with `limit` arbitrary ones; a copy of a string is the symbol
('copy', s); a lookup of s yields ('entry', table, s); what is inserted is an object of its own whose fields can be read at the end."""
from summ import *


def one(V):
    return next(iter(V)) if V is not None and len(V) == 1 else None


class Tables:
    def __init__(s, limits=None, missing=False, extra=None, solo=False):
        s.solo = solo        # at most one table has elements: elements of different tables do not interact
        s.limits = limits or {}; s.missing = missing; s.extra = extra

    def loc_name(s, a):
        if isinstance(a, tuple) and a[0] == '&':
            n = [x for x in a[2] if isinstance(x, str) and x not in ('value', '0', 'pointer')]
            return n[-1] if n else None
        return None

    def dest(s, ai, st, fn, fid, term):
        dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
        return dl or []

    def arg(s, ai, st, fn, fid, o, path=()):
        """scalar at path inside an argument passed by value"""
        if o[0] == 'k': return ai.scalar(st, fn, fid, o)
        dl, weak = ai.resolve(st, fn, fid, o[1])
        if dl and len(dl) == 1: return st.read(dl[0][0], dl[0][1] + path)
        return None

    def option(s, ai, st, fn, fid, term, V, some, none=('#', 0)):
        for d in s.dest(ai, st, fn, fid, term):
            st.write(d[0], d[1], None)
            st._d(d[0])[d[1] + ('#',)] = frozenset((int(some),))
            if some: st._d(d[0])[d[1] + ('v:Some', '0')] = V
        return (st, 'done')

    def count(s, st, *key):
        return sum(1 for e in (st.q or ()) if e[:len(key)] == key)

    def __call__(s, h, ai, st, fn, callee, term, fid):
        if s.extra:
            r = s.extra(h, ai, st, fn, callee, term, fid)
            if r is not None: return r
        n = callee.short; nm = callee.name
        A = None
        def args():
            return h.args(ai, st, fn, fid, term)
        if n in ('copy_c_string', 'copy_c_string_n') and 'StringPool' in nm:
            A = args()
            src = one(A[1]); k = ('copy', src) if n == 'copy_c_string' else ('copyn', src, one(A[2]))
            t = st.copy()
            h.ev(t, ('fail', n)); h.ev(st, ('copied', one(A[0]), k))
            sym = ('sym', k)
            st.neq[sym] = frozenset((0,))
            return [s.option(ai, st, fn, fid, term, frozenset((('sl', sym, ('sym', ('len', k))),)), True), s.option(ai, t, fn, fid, term, None, False)]
        if n == 'append_char' and 'StringPool' in nm:
            A = args()
            t = st.copy(); h.ev(t, ('fail', n))
            h.ev(st, ('append', one(A[0]), one(A[1])))
            return [(st, frozenset((1,))), (t, frozenset((0,)))]
        if n in ('values', 'values_mut', 'iter') and 'HashMap' in nm or n in ('into_iter', 'iter') and ('Vec' in nm or 'slice' in nm) and term[4]:
            a = one(ai.scalar(st, fn, fid, term[4][0]))
            a = s.slice_of(a)
            if a is None: return None
            for d in s.dest(ai, st, fn, fid, term):
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#src',)] = frozenset((a,))
                st._d(d[0])[d[1] + ('#n',)] = frozenset((0,))
                st._d(d[0])[d[1] + ('#kind',)] = frozenset((1 if 'HashMap' in nm else 0,))
            return [(st, 'done')]
        if n == 'next' and term[4]:
            a = one(ai.scalar(st, fn, fid, term[4][0]))
            if isinstance(a, tuple) and a[0] == '&' and (a[2] + ('#src',)) in st.mem.get(a[1], {}):
                m = st.mem[a[1]]
                src = one(m[a[2] + ('#src',)]); i = one(m[a[2] + ('#n',)]) or 0
                name = s.loc_name(src) or str(src)
                lim = s.limits.get(name, 1)
                total = s.count(st, 'elem', name)
                out = []
                others = s.solo and one(m[a[2] + ('#kind',)]) == 1 and any(e[0] == 'elem' and e[4] and e[1] != name for e in (st.q or ()))
                if i < lim and total < lim and not others:
                    t = st.copy()
                    t._d(a[1])[a[2] + ('#n',)] = frozenset((i + 1,))
                    h.ev(t, ('elem', name, total, src, one(m[a[2] + ('#kind',)])))
                    O = ('sym', ('old', name, total)); t.neq[O] = frozenset((0,))
                    if one(m[a[2] + ('#kind',)]) == 1:
                        cell = ('S', ('sym', ('cell', name, total)))
                        t._d(cell)[('0', 'pointer', 'pointer')] = frozenset((O,))
                        out.append(s.option(ai, t, fn, fid, term, frozenset((('&', cell, ()),)), True))
                    else: out.append(s.option(ai, t, fn, fid, term, frozenset((O,)), True))
                h.ev(st, ('end', name))
                out.append(s.option(ai, st, fn, fid, term, None, False))
                return out
        if n == 'from' and 'HashKey' in nm:
            V = s.arg(ai, st, fn, fid, term[4][0]) if ai.p.tk(ai.p.op_ty(fn, term[4][0]))[0] in ('ptr', 'ref') else s.arg(ai, st, fn, fid, term[4][0], ('0',))
            k = one(V)
            for d in s.dest(ai, st, fn, fid, term):
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('0',)] = frozenset((('sl', k, None),)) if k is not None else None
            return [(st, 'done')]
        if n in ('get', 'get_mut') and 'HashMap' in nm:
            A = args()
            m = one(A[0]); kp = one(A[1])
            K = None
            if isinstance(kp, tuple) and kp[0] == '&':
                K = one(st.read(kp[1], kp[2] + ('0',)))
                K = K[1] if isinstance(K, tuple) and K[0] == 'sl' else K
            name = s.loc_name(m)
            h.ev(st, ('lookup', m, K))
            fresh = isinstance(K, tuple) and K[0] == 'sym' and K[1][0] in ('copy', 'copyn') or isinstance(K, tuple) and K[0] == 'po' and 'copy' in str(K)[:30]
            E = ('sym', ('entry', name, K)); cell = ('S', ('sym', ('cell', 'entry', name, K)))
            out = []
            if not fresh or s.missing:
                t = st.copy() if s.missing else st
                t.neq[E] = frozenset((0,))
                t._d(cell)[('0', 'pointer', 'pointer')] = frozenset((E,))
                h.ev(t, ('found', m, K))
                out.append(s.option(ai, t, fn, fid, term, frozenset((('&', cell, ()),)), True))
            if fresh or s.missing:
                h.ev(st, ('missing', m, K))
                out.append(s.option(ai, st, fn, fid, term, None, False))
            return out
        if n == 'try_reserve':
            t = st.copy(); h.ev(t, ('fail', n))
            for x, v in ((st, 0), (t, 1)):
                for d in s.dest(ai, x, fn, fid, term):
                    x.write(d[0], d[1], None); x._d(d[0])[d[1] + ('#',)] = frozenset((v,))
            return [(st, 'done'), (t, 'done')]
        if n in ('try_new', 'new') and 'boxed' in nm and term[5] and term[4] and term[4][0][0] != 'k':
            t = st.copy() if n == 'try_new' else None
            dl, weak = ai.resolve(st, fn, fid, term[4][0][1])
            i = s.count(st, 'box')
            O = ('sym', ('newobj', i)); st.neq[O] = frozenset((0,))
            for d in dl[:1]: st.copy_tree(d[0], d[1], ('S', O), ())
            h.ev(st, ('box', i))
            ok = ('v:Ok', '0') if n == 'try_new' else ()
            for d in s.dest(ai, st, fn, fid, term):
                st.write(d[0], d[1], None)
                if ok: st._d(d[0])[d[1] + ('#',)] = frozenset((0,))
                st._d(d[0])[d[1] + ok + ('0', 'pointer', 'pointer')] = frozenset((O,))
            out = [(st, 'done')]
            if t is not None:
                h.ev(t, ('fail', 'try_new'))
                for d in s.dest(ai, t, fn, fid, term):
                    t.write(d[0], d[1], None); t._d(d[0])[d[1] + ('#',)] = frozenset((1,))
                out.append((t, 'done'))
            return out
        if n == 'zeroed' and nm.startswith(('std::mem::', 'core::mem::')):
            def zero(t, b, path):
                k = ai.p.tk(t)
                if k[0] in ('ptr', 'int', 'uint', 'bool'): st._d(b)[path] = frozenset((0,))
                elif k[0] == 'adt' and k[2] == 'struct':
                    for f2, x in ai.p.fields(t): zero(x, b, path + (f2,))
                elif k[0] == 'adt' and k[2] == 'enum': st._d(b)[path + ('#',)] = frozenset((0,))
            for d in s.dest(ai, st, fn, fid, term):
                st.write(d[0], d[1], None); zero(ai.p.place_ty(fn, term[5]), d[0], d[1])
            return [(st, 'done')]
        if n == 'entry' and 'HashMap' in nm:
            m = one(ai.scalar(st, fn, fid, term[4][0]))
            K = one(s.arg(ai, st, fn, fid, term[4][1], ('0',)))
            h.ev(st, ('entry', m, K[1] if isinstance(K, tuple) and K[0] == 'sl' else K))
            e = {v: int(k) for v, k in ai.p.enum_discr(ai.p.place_ty(fn, term[5])).items()}
            for d in s.dest(ai, st, fn, fid, term):
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((e['Vacant'],))
            return [(st, 'done')]
        if n == 'insert' and ('VacantEntry' in nm or 'HashMap' in nm):
            bx = term[4][-1]
            b = one(s.arg(ai, st, fn, fid, bx, ('0', 'pointer', 'pointer')))
            if 'HashMap' in nm and 'VacantEntry' not in nm:
                m = one(ai.scalar(st, fn, fid, term[4][0]))
                K = one(s.arg(ai, st, fn, fid, term[4][1], ('0',)))
                K = K[1] if isinstance(K, tuple) and K[0] == 'sl' else K
            else:
                e = [e for e in (st.q or ()) if e[0] == 'entry']
                m, K = e[-1][1:3] if e else (None, None)
            h.ev(st, ('insert', m, K, b))
            if 'VacantEntry' not in nm: return [s.option(ai, st, fn, fid, term, None, False)]
            cell = ('S', ('sym', ('cell', 'ins', s.count(st, 'insert'))))
            st._d(cell)[('0', 'pointer', 'pointer')] = frozenset((b,)) if b is not None else None
            return [(st, frozenset((('&', cell, ()),)))]
        if n == 'push' and 'Vec' in nm:
            v = one(ai.scalar(st, fn, fid, term[4][0]))
            tree = None
            if term[4][1][0] != 'k':
                dl, weak = ai.resolve(st, fn, fid, term[4][1][1])
                if dl and len(dl) == 1:
                    d = dl[0]; tree = tuple(sorted(((k[len(d[1]):], x) for k, x in st.mem.get(d[0], {}).items() if k[:len(d[1])] == d[1]), key=str))
            h.ev(st, ('push', v, tree))
            return [(st, None)]
        return None

    def slice_of(s, a):
        if isinstance(a, tuple):
            if a[0] == '&': return a
            if a[0] == 'sl': return s.slice_of(a[1]) or a[1]
            if a[0] == 'sym': return a
        return None
