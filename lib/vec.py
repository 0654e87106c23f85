"""Exact evaluation of loop-free (or constant-bounded) code over one character of input.

The abstract value of a scalar is a function from the unknown input bytes to numbers, held as a numpy
array with one axis per input byte (or other free variable); the path condition is a product of boolean
arrays.  Branches split the condition; nothing is joined.  Memory tables are constants of the program."""
import numpy as np
from absint import *

P64 = np.int64


class Over(Exception): pass


class Cond:
    """path condition: conjunction of boolean arrays over disjoint sets of axes"""
    __slots__ = ('f',)
    def __init__(s, f=()): s.f = f          # tuple of (axes frozenset, array)
    def add(s, arr):
        ax = frozenset(i for i, n in enumerate(arr.shape) if n > 1)
        if not ax:
            return s if bool(arr.reshape(-1)[0]) else None
        keep = []
        for a, x in s.f:
            if a & ax: arr = arr & x; ax = ax | a
            else: keep.append((a, x))
        if not arr.any(): return None
        if arr.all() and False: return Cond(tuple(keep))
        return Cond(tuple(keep) + ((ax, arr),))
    def over(s, ax):
        """the factors that matter to an array over axes ax"""
        m = None
        for a, x in s.f:
            if a & ax: m = x if m is None else m & x
        return m
    def full(s, nd):
        m = np.ones((1,) * nd, bool)
        for a, x in s.f: m = m & x
        return m


class VecAI(AI):
    """vars: list of (values array) one per axis"""
    def __init__(s, prog, axes, hooks=None, budget=400000):
        AI.__init__(s, prog, hooks or Hooks(), budget=budget)
        s.paths = True
        s.nd = len(axes)
        s.arr = []
        s.viols = {}
        s.axes = []
        for i, v in enumerate(axes):
            sh = [1] * s.nd; sh[i] = len(v)
            s.axes.append(np.array(v, dtype=P64).reshape(sh))
        s.regions = {}      # region name -> (element bytes, length or None, reader)
        s.cur = None

    def viol(s, k, m): s.viols.setdefault(k, m)

    # ---- atoms
    def mk(s, arr, w=64, cond=None):
        """atom for an array (pattern of width w), a plain number when constant on the path"""
        arr = np.asarray(arr)
        if arr.dtype != P64: arr = arr.astype(P64)
        if w < 64: arr = arr & ((1 << w) - 1)
        while arr.ndim < s.nd: arr = arr[None]
        ax = frozenset(i for i, n in enumerate(arr.shape) if n > 1)
        c = cond if cond is not None else (s.cur.q if s.cur is not None else None)
        v = arr
        if c is not None and ax:
            m = c.over(ax)
            if m is not None:
                v = np.broadcast_to(arr, np.broadcast_shapes(arr.shape, m.shape))[np.broadcast_to(m, np.broadcast_shapes(arr.shape, m.shape))]
        if v.size and (v.min() == v.max()):
            return mask(int(v.reshape(-1)[0]), 64) if w >= 64 else int(v.reshape(-1)[0])
        s.arr.append(arr)
        return ('v', len(s.arr) - 1, w)

    def val(s, a, w, sg):
        """numbers of an atom seen as a w-bit (signed) integer"""
        if isinstance(a, int): return np.array(to_signed(a, w) if sg or w == 64 else mask(a, w), dtype=P64).reshape((1,) * s.nd)
        if isinstance(a, tuple) and a[0] == 'v':
            x = s.arr[a[1]]
            if w < 64:
                x = x & ((1 << w) - 1)
                if sg: x = np.where(x >> (w - 1) != 0, x - (1 << w), x)
            return x
        return None

    def isv(s, a): return isinstance(a, tuple) and a and a[0] == 'v'

    def bin1(s, op, a, b, w, sg):
        if not (s.isv(a) or s.isv(b)): return AI.bin1(s, op, a, b, w, sg)
        x, y = s.val(a, w, sg), s.val(b, w, sg)
        if x is None or y is None: return None
        if op in CMP: return s.mk(CMP[op](x, y), 1)
        if op in ('Add', 'AddUnchecked'): return s.mk(x + y, w)
        if op in ('Sub', 'SubUnchecked'): return s.mk(x - y, w)
        if op in ('Mul', 'MulUnchecked'): return s.mk(x * y, w)
        if op == 'BitAnd': return s.mk(x & y, w)
        if op == 'BitOr': return s.mk(x | y, w)
        if op == 'BitXor': return s.mk(x ^ y, w)
        if op in ('Shl', 'ShlUnchecked'): return s.mk(x << (y & (w - 1)), w)
        if op in ('Shr', 'ShrUnchecked'): return s.mk(x >> (y & (w - 1)), w)
        if op == 'Div' and (y > 0).all() and not (x < 0).any(): return s.mk(x // y, w)
        if op == 'Rem' and (y > 0).all() and not (x < 0).any(): return s.mk(x % y, w)
        return None

    def rvalue(s, st, fn, fid, place, rv, line):
        s.cur = st
        if rv[0] == 'cbin':
            A = s.scalar(st, fn, fid, rv[2], line); B = s.scalar(st, fn, fid, rv[3], line)
            t = s.p.op_ty(fn, rv[2])
            if A is not None and B is not None and len(A) == 1 == len(B):
                a, b = next(iter(A)), next(iter(B))
                if s.isv(a) or s.isv(b):
                    w = s.p.int_width(t); sg = s.p.is_signed(t)
                    x, y = s.val(a, w, sg), s.val(b, w, sg)
                    r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y}.get(rv[1])
                    if x is not None and y is not None and r and w < 64:
                        r = r()
                        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
                        o = (r < lo) | (r > hi)
                        dsts, weak = s.resolve(st, fn, fid, place, line)
                        if dsts:
                            for d, pa in dsts:
                                st.write(d, pa, None, weak)
                                st._d(d)[pa + ('0',)] = frozenset((s.mk(r, w),))
                                st._d(d)[pa + ('1',)] = frozenset((s.mk(o, 1),))
                            return
        if rv[0] == 'un' and rv[1] in ('Not', 'Neg'):
            A = s.scalar(st, fn, fid, rv[2], line)
            if A is not None and len(A) == 1 and s.isv(next(iter(A))):
                a = next(iter(A))
                t = s.p.op_ty(fn, rv[2])
                w = s.p.int_width(t) or 64
                if s.p.tk(t) == ['int', 'bool']: r = s.mk(1 - s.val(a, 1, False), 1)
                elif rv[1] == 'Not': r = s.mk(~s.val(a, w, False), w)
                else: r = s.mk(-s.val(a, w, True), w)
                s.write_place(st, fn, fid, place, frozenset((r,)), line)
                return
        return AI.rvalue(s, st, fn, fid, place, rv, line)

    def cast(s, st, fn, fid, rv, line):
        if rv[1] == 'IntToInt':
            t0 = s.p.op_ty(fn, rv[2])
            A = s.disc(st, fn, fid, rv[2]) if s.p.tk(t0)[0] == 'adt' else s.scalar(st, fn, fid, rv[2], line)
            if A is not None and len(A) == 1 and s.isv(next(iter(A))):
                w0 = s.p.int_width(t0) or 64; sg = s.p.is_signed(t0) if s.p.int_width(t0) else True
                return frozenset((s.mk(s.val(next(iter(A)), w0, sg), s.p.int_width(rv[3]) or 64),))
        return AI.cast(s, st, fn, fid, rv, line)

    # ---- branches
    def narrow(s, st, arr):
        q = st.q.add(arr)
        if q is None: return None
        n = st.copy(); n.q = q
        return n

    def block(s, fn, st, fid, b):
        s.cur = st
        return AI.block(s, fn, st, fid, b)

    def switch(s, fn, st, fid, b, t):
        V = s.scalar(st, fn, fid, t[2])
        if V is not None and len(V) == 1:
            a = next(iter(V))
            if s.isv(a):
                w = s.p.int_width(t[5]) or 64
                if s.p.tk(t[5]) == ['int', 'bool']: w = 1
                x = s.val(a, w, False)
                tg = {}
                rest = np.ones(x.shape, bool)
                for v, d in t[3]:
                    m = x == (mask(int(v), w) if w < 64 else to_signed(int(v), 64))
                    rest &= ~m
                    tg[d] = tg[d] | m if d in tg else m
                tg[t[4]] = tg[t[4]] | rest if t[4] in tg else rest
                res = []
                for d, m in tg.items():
                    n = s.narrow(st, m)
                    if n is not None: res += s.goto(fn, n, fid, b, d)
                return res
        return AI.switch(s, fn, st, fid, b, t)

    def term(s, fn, st, fid, b, t):
        if t[0] == 'assert':
            V = s.scalar(st, fn, fid, t[2])
            if V is not None and len(V) == 1 and s.isv(next(iter(V))):
                x = s.val(next(iter(V)), 1, False)
                bad = s.narrow(st, x != int(bool(t[3])))
                if bad is not None:
                    s.cur = bad
                    s.h.on_panic(s, bad, fn, t, 'assert')
                st = s.narrow(st, x == int(bool(t[3])))
                if st is None: return []
                return s.goto(fn, st, fid, b, t[5])
        return AI.term(s, fn, st, fid, b, t)

    # ---- memory
    def resolve(s, st, fn, fid, place, line=None):
        r = AI.resolve(s, st, fn, fid, place, line)
        if r[0] is not None and any(b[0] == 'S' and isinstance(b[1], tuple) and b[1][0] == 'po' and isinstance(b[1][1], tuple) and b[1][1][0] == '&' for b, _ in r[0]):
            z = s.p.tsize(s.p.place_ty(fn, place))
            r = [s.rebase(b, pa, z) for b, pa in r[0]], r[1]
        # symbolic index: keep it in the path
        if r[0] is not None and any(isinstance(e, list) and e[0] == 'i' for e in place[1:]):
            ixs = []
            for e in place[1:]:
                if isinstance(e, list) and e[0] == 'i':
                    V = st.read(('L', fid, e[1]), ())
                    ixs.append(next(iter(V)) if V is not None and len(V) == 1 and s.isv(next(iter(V))) else None)
            out = []
            for b, pa in r[0]:
                pa = list(pa); k = 0
                # the last len(ixs) index components belong to this place
                pos = [i for i, e in enumerate(pa) if isinstance(e, tuple) and e[0] == 'i']
                for ix, i in zip(reversed(ixs), reversed(pos)):
                    if ix is not None and pa[i] == ('i', None): pa[i] = ('i', ix)
                out.append((b, tuple(pa)))
            if all(('i', None) not in pa for _, pa in out): return out, len(out) > 1
            return out, r[1]
        return r

    def rebase(s, b, pa, z):
        """element k of (pointer into an array, advanced): element of that array"""
        if b[0] != 'S' or not (isinstance(b[1], tuple) and b[1][0] == 'po'): return b, pa
        x, off = b[1][1], b[1][2]
        if not (isinstance(x, tuple) and x[0] == '&' and isinstance(off, int)) or not z or off % z: return b, pa
        k = off // z
        pp = x[2]
        if pp and isinstance(pp[-1], tuple) and pp[-1][0] == 'i' and isinstance(pp[-1][1], int) and not (pa and isinstance(pa[0], tuple) and pa[0][0] == 'i'):
            return x[1], pp[:-1] + (('i', pp[-1][1] + k),) + pa
        if pa and isinstance(pa[0], tuple) and pa[0][0] == 'i':
            if isinstance(pa[0][1], int): return x[1], pp + (('i', to_signed(pa[0][1], 64) + k),) + pa[1:]
            return b, pa
        return x[1], pp + (('i', k),) + pa

    def gather(s, bs, offs, n):
        """little-endian n-byte numbers at byte offsets (array)"""
        o = offs
        ok = (o >= 0) & (o + n <= len(bs))
        o = np.where(ok, o, 0)
        tb = np.frombuffer(bytes(bs), dtype=np.uint8).astype(P64)
        r = np.zeros(o.shape, P64)
        for i in range(n): r |= tb[np.minimum(o + i, len(bs) - 1)] << (8 * i)
        return r, ok

    def offset_of(s, pa, sizes):
        """byte offset (array) of a path of constant offsets and indices; sizes: element size per index"""
        off = np.zeros((1,) * s.nd, P64); k = 0
        for e in pa:
            if isinstance(e, tuple) and e[0] == 'off': off = off + e[1]
            elif isinstance(e, tuple) and e[0] == 'i' and e[1] is not None:
                if k >= len(sizes): return None
                off = off + s.val(e[1], 64, True) * sizes[k]; k += 1
            else: return None
        return off

    def const_mem(s, st, fn, place, locs, disc=False):
        p = s.p
        t = p.place_ty(fn, place)
        z = p.tsize(t)
        nidx = max(sum(1 for e in pa if isinstance(e, tuple) and e[0] == 'i') for _, pa in locs)
        sizes = [z] * nidx if nidx == 1 else None
        if nidx > 1:
            # nested arrays: sizes from the types along the place
            return None
        out = set()
        for b, pa in locs:
            if b[0] != 'A': return None
            off = s.offset_of(pa, sizes or [])
            if off is None: return None
            e = p.allocs[b[1]]
            if e[0] == 'static':
                sst = p.static_by_name.get(e[1])
                if sst is None or sst['mut']: return None
            bs = p.alloc_bytes(b[1])
            if bs is None: return None
            r, ok = s.gather(bs, off, z)
            bad = s.narrow(st, ~ok)
            if bad is not None: s.viol('table:%s' % fn.short, 'reads a constant table out of range'); return None
            if disc: r = s.discr_map(t, r, z)
            out.add(s.mk(r, 64 if disc else z * 8))
        return frozenset(out)

    def discr_map(s, t, r, z):
        u = np.unique(r)
        m = {int(x): mask(s.enum_norm(t, int(x), z), 64) for x in u}
        o = np.zeros(r.shape, P64)
        for x, y in m.items(): o = np.where(r == x, to_signed(y, 64), o)
        return o

    def place_const_read(s, fn, place, locs):
        if any(isinstance(e, tuple) and e[0] == 'i' and s.isv(e[1]) for _, pa in locs for e in pa):
            t = s.p.place_ty(fn, place)
            if s.p.int_width(t) is None: return None
            return s.const_mem(s.cur, fn, place, locs)
        return AI.place_const_read(s, fn, place, locs)

    def const_discr(s, fn, place, locs):
        if any(isinstance(e, tuple) and e[0] == 'i' and s.isv(e[1]) for _, pa in locs for e in pa):
            return s.const_mem(s.cur, fn, place, locs, True)
        return AI.const_discr(s, fn, place, locs)

    def const_val(s, fn, op, st, dst):
        t = op[1]
        if s.p.tk(t)[0] == 'array':
            bs = s.p.const_bytes(op)
            if bs is not None and not op[3]:
                st.write(dst[0], dst[1], frozenset((('ca', bytes(bs), t),)))
                return
        return AI.const_val(s, fn, op, st, dst)

    def assign_op(s, st, fn, fid, dsts, weak, op, line):
        # element of a constant array held in a local, enum element of a constant table
        if op[0] in ('c', 'm') and op[1][1:] and not weak and len(dsts) == 1:
            srcs, w2 = s.resolve(st, fn, fid, op[1], line)
            if srcs and len(srcs) == 1:
                t = s.p.place_ty(fn, op[1])
                b, pa = srcs[0]
                if s.norm_loc(b, pa):
                    V = s.read_locs(st, srcs)
                    st.write(dsts[0][0], dsts[0][1], V)
                    return
                if any(isinstance(e, tuple) and e[0] == 'i' for e in pa):
                    d = s.p.tk(t)[0] == 'adt'
                    V = None
                    if b[0] == 'A': 
                        if d: V = s.const_mem(st, fn, op[1], srcs, True) if s.p.tk(t)[2] == 'enum' else None
                        else: V = s.place_const_read(fn, op[1], srcs)
                    else: V = s.read_elem(st, b, pa, t)
                    if V is not None and V != 'no':
                        db, dp = dsts[0]
                        if d: st.write(db, dp, None); st._d(db)[dp + ('#',)] = V
                        else: st.write(db, dp, V)
                        return
        return AI.assign_op(s, st, fn, fid, dsts, weak, op, line)

    def read_elem(s, st, b, pa, t):
        """(b, pa) with pa ending in an index: element of a constant array value or of a region"""
        if not isinstance(pa[-1], tuple) or pa[-1][0] != 'i' or pa[-1][1] is None: return None
        V = st.read(b, pa[:-1])
        z = s.p.tsize(t)
        if V is not None and len(V) == 1 and isinstance(next(iter(V)), tuple) and next(iter(V))[0] == 'ca':
            bs = next(iter(V))[1]
            d = st.mem.get(b, {})
            if any(k[:len(pa) - 1] == pa[:-1] and len(k) >= len(pa) for k in d): return None    # partly overwritten
            r, ok = s.gather(bs, s.val(pa[-1][1], 64, True) * z, z)
            if s.narrow(st, ~ok) is not None: return None
            if s.p.tk(t)[0] == 'adt': return frozenset((s.mk(s.discr_map(t, r, z), 64),))
            return frozenset((s.mk(r, z * 8),))
        return None

    # ---- regions: ('ip', name) pointers to arrays of elements
    def region(s, name, esz, n, get=None): s.regions[name] = (esz, n, get)

    def norm_loc(s, b, pa):
        """('S', pointer into a region), path -> (region, element index atom/int) or None"""
        if b[0] != 'S': return None
        x = b[1]; off = 0
        if isinstance(x, tuple) and x[0] == 'po': x, off = x[1], x[2]
        if not (isinstance(x, tuple) and x[0] == 'ip' and x[1] in s.regions): return None
        esz = s.regions[x[1]][0]
        rest = []
        idx = None
        for e in pa:
            if isinstance(e, tuple) and e[0] == 'i' and idx is None and e[1] is not None: idx = e[1]
            else: rest.append(e)
        if rest and rest != ['#'] or not isinstance(off, int) or off % esz: return None
        if idx is None: return x[1], off // esz
        if isinstance(idx, int): return x[1], to_signed(idx, 64) + off // esz
        if off: return x[1], s.mk(s.val(idx, 64, True) + off // esz, 64)
        return x[1], idx

    def read_locs(s, st, locs):
        if len(locs) == 1:
            b, pa = locs[0]
            nl = s.norm_loc(b, pa)
            if nl:
                name, i = nl
                esz, n, get = s.regions[name]
                if isinstance(i, int) and n is not None and not 0 <= i < n:
                    s.viol('overread:%s' % name, 'reads element %d of %s, which has %d' % (i, name, n)); return None
                k = ('R', name)
                if isinstance(i, int):
                    d = st.mem.get(k)
                    if d and (i,) in d: return d[(i,)]
                return get(s, st, i) if get else None
            if pa and isinstance(pa[-1], tuple) and pa[-1][0] == 'i' and b[0] != 'A':
                V = st.read(b, pa[:-1])
                if V is not None and len(V) == 1:
                    a = next(iter(V))
                    if isinstance(a, tuple) and a[0] == 'ca' and not (pa in (st.mem.get(b) or {})):
                        return s.read_elem(st, b, pa, s.p.tk(a[2])[1])
        return AI.read_locs(s, st, locs)

    def at(s, ptr, i, z=None):
        """place of element i of an array pointed to"""
        if ptr[0] == '&': return ptr[1], ptr[2] + (('i', i),)
        if ptr[0] == 'a': return ('A', ptr[1]), ((('off', ptr[2]),) if ptr[2] else ()) + (('i', i),)
        return s.rebase(('S', ptr), (('i', i),), z)

    def read_at(s, st, ptr, i, z=None):
        b, pa = s.at(ptr, i, z)
        if b[0] == 'A':
            off = (ptr[2] or 0) + i
            bs = s.p.alloc_bytes(b[1])
            return frozenset((bs[off],)) if bs is not None and off < len(bs) else None
        return s.read_locs(st, [(b, pa)])

    def wr(s, st, b, pa, V):
        nl = s.norm_loc(b, pa)
        if not nl: return False
        name, i = nl
        esz, n, get = s.regions[name]
        if not isinstance(i, int): s.viol('undecided:write', 'writes to an unknown place of %s' % name); return True
        if n is not None and not 0 <= i < n: s.viol('overwrite:%s' % name, 'writes element %d of %s, which has %d' % (i, name, n))
        st._d(('R', name))[(i,)] = V
        return True


class VecHooks(Hooks):
    def on_write(s, ai, st, fn, base, path, V, line):
        if base[0] == 'S':
            if V in ('op', 'agg'): V = AI.read_locs(ai, st, [(base, path)])
            ai.wr(st, base, path, V)

    def on_panic(s, ai, st, fn, term, why):
        if why == 'assert?': return
        ai.viol('panic:%s' % fn.short, 'may panic (%s) at line %s' % (why, term[1]))

    def on_call(s, ai, st, fn, callee, term, fid):
        if callee.short == 'copy_from_slice' and not callee.local:
            D = ai.scalar(st, fn, fid, term[4][0]); S = ai.scalar(st, fn, fid, term[4][1])
            for V in (D, S):
                if V is None or len(V) != 1 or next(iter(V))[0] != 'sl' : 
                    ai.viol('undecided:copy', 'copy between unknown places'); return []
            d, sr = next(iter(D)), next(iter(S))
            if d[2] != sr[2]:
                ai.viol('panic:copy', 'copies between slices of different lengths'); return []
            if not isinstance(d[2], int): ai.viol('undecided:copy', 'copy of unknown length'); return []
            vals = []
            t = ai.p.pointee(ai.p.op_ty(fn, term[4][0])); z = ai.p.tsize(ai.p.tk(t)[1]) if t is not None and ai.p.tk(t)[0] in ('slice', 'array') else 1
            for i in range(d[2]): vals.append(ai.read_at(st, sr[1], i, z))
            for i, v in enumerate(vals):
                b, pa = ai.at(d[1], i, z)
                if not ai.wr(st, b, pa, v): st.write(b, pa, v)
            return [(st, UNIT)]
        return None
