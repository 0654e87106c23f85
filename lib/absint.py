"""Partitioned constant propagation over monomorphic MIR, with inlining.

The abstract value of a scalar is a finite set of atoms (constants, functions,
addresses, symbols for "the unknown value this place held", comparisons of those)
or TOP (None).  States are joined at control-flow merges, except that states with a
different automaton state `q` (maintained by the hooks of a rule) or a different
already-decided return value are kept apart.  Loops are iterated to a fixpoint.
"""
from mir import Prog, Fn, WIDTH, AnchorError

TOP = None
LIM = 24
UNIT = frozenset()


def mask(v, w):
    return v & ((1 << w) - 1)


def to_signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def symdepth(k):
    d = 0
    while isinstance(k, tuple):
        n = None
        for x in k:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                n = x; break
        if n is None:
            break
        k = n; d += 1
        if d > 40: break
    return d


def mentions(atom, key):
    if atom == key: return True
    if isinstance(atom, tuple):
        for x in atom:
            if isinstance(x, tuple) and mentions(x, key): return True
    return False


class State:
    __slots__ = ('mem', 'eqs', 'neq', 'alias', 'tag', 'q', '_own')

    def __init__(s):
        s.mem = {}      # base -> {path: V}
        s.eqs = {}      # sym atom -> int
        s.neq = {}      # sym atom -> frozenset
        s.alias = {}    # (base,path) -> (base,path)
        s.tag = {}      # base -> havoc tag
        s.q = None
        s._own = set()

    def copy(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.eqs = dict(s.eqs); n.neq = dict(s.neq)
        n.alias = dict(s.alias); n.tag = dict(s.tag); n.q = s.q
        n._own = set(); s._own = set()
        return n

    def norm(s, a):
        if isinstance(a, tuple):
            if a[0] == 'sym':
                return s.eqs.get(a, a)
        return a

    def normV(s, V):
        if V is None: return None
        if s.eqs:
            for a in V:
                if a in s.eqs:
                    return frozenset(s.eqs.get(x, x) for x in V)
        return V

    # --- reading
    def read(s, base, path):
        d = s.mem.get(base)
        if d is not None:
            V = d.get(path, 0)
            if V != 0 or path in d:
                return s.normV(V)
            for i in range(len(path) - 1, -1, -1):
                pre = path[:i]
                if pre in d:
                    V = d[pre]
                    if V is None or not V: return None
                    r = set()
                    for a in V:
                        if isinstance(a, tuple) and a[0] == 'sym':
                            k = ('sym', ('fld', a[1], path[i:]))
                            if symdepth(k) > 10: return None
                            r.add(k)
                        else:
                            return None
                    return s.normV(frozenset(r))
        if base[0] == 'S':
            k = ('sym', ('ld', base, path, s.tag.get(base, s.tag.get('*'))))
            if symdepth(k) > 10: return None
            return s.normV(frozenset((k,)))
        return None

    # --- writing
    def _d(s, base):
        d = s.mem.get(base)
        if d is None:
            d = {}; s.mem[base] = d; s._own.add(base)
        elif base not in s._own:
            d = dict(d); s.mem[base] = d; s._own.add(base)
        return d

    def kill_alias(s, base, path):
        if s.alias:
            n = len(path)
            for k, v in list(s.alias.items()):
                if (k[0] == base and k[1][:n] == path) or (v[0] == base and (v[1][:n] == path or path[:len(v[1])] == v[1])):
                    del s.alias[k]

    def forget(s, base, path):
        """subtree becomes unspecified (will read as TOP / fresh)"""
        d = s.mem.get(base)
        if d:
            n = len(path)
            ks = [k for k in d if k[:n] == path]
            if ks:
                d = s._d(base)
                for k in ks: del d[k]

    def write(s, base, path, V, weak=False):
        s.kill_alias(base, path)
        if ('i', None) in path:
            # an element at an unknown index: no element known so far is known any more
            n = path.index(('i', None))
            d = s.mem.get(base)
            ks = [k for k in d if len(k) > n and k[:n] == path[:n] and isinstance(k[n], tuple) and k[n][0] == 'i' and k[n][1] is not None] if d else ()
            for k in ks: s._d(base)[k] = None
        if weak:
            old = s.read(base, path)
            V = joinV(old, V)
        else:
            s.forget(base, path)
        s._d(base)[path] = V

    def copy_tree(s, sb, sp, db, dp, weak=False):
        """dest := src (all leaves)"""
        n = len(sp)
        d = s.mem.get(sb)
        leaves = [(k[n:], v) for k, v in d.items() if k[:n] == sp] if d else []
        rootV = s.read(sb, sp) if not any(k == () for k, _ in leaves) else None
        have_root = any(k == () for k, _ in leaves)
        s.kill_alias(db, dp)
        if weak:
            if leaves and not have_root:
                for k, v in leaves:
                    s._d(db)[dp + k] = joinV(s.read(db, dp + k), v)
            else:
                s.forget(db, dp)
                s._d(db)[dp] = None
            return
        if not leaves:
            s.forget(db, dp)
            s._d(db)[dp] = rootV
            return
        s.forget(db, dp)
        D = s._d(db)
        if not have_root:
            # unlisted fields of a symbolic aggregate stay derivable
            if sb[0] == 'S' or rootV is not None:
                D[dp] = rootV
        for k, v in leaves:
            D[dp + k] = v

    def fresh(s, key):
        """symbols built on `key` are new values from here on"""
        for m in (s.eqs, s.neq):
            for a in [a for a in m if mentions(a, key)]:
                del m[a]

    def drop_frame(s, fid):
        for b in [b for b in s.mem if b[0] == 'L' and b[1] >= fid]:
            del s.mem[b]
        if s.alias:
            for k in [k for k in s.alias if (k[0][0] == 'L' and k[0][1] >= fid) or (s.alias[k][0][0] == 'L' and s.alias[k][0][1] >= fid)]:
                del s.alias[k]

    def same(s, o):
        return s.mem == o.mem and s.eqs == o.eqs and s.neq == o.neq and s.alias == o.alias and s.tag == o.tag


def s_norm(st, V):
    return st.normV(V)


def joinV(a, b):
    if a is None or b is None: return None
    if a == b: return a
    r = a | b
    if len(r) > LIM: return None
    return r


def join(a, b, tag):
    """join of b into a; returns (state, changed)"""
    if a is b: return a, False
    n = State(); n.q = a.q
    for base in set(a.mem) | set(b.mem):
        da = a.mem.get(base); db = b.mem.get(base)
        if da is db:
            n.mem[base] = da; continue
        if base[0] == 'L' and (da is None or db is None):
            # local set on one side only: dead or uninitialised on the other
            continue
        out = {}
        for p in set(da or ()) | set(db or ()):
            if base[0] == 'L':
                # a leaf missing on one side with no known ancestor: unspecified there
                pass
            va = a.read(base, p); vb = b.read(base, p)
            # equality bindings differ between the sides: keep constants
            out[p] = joinV(va, vb)
        n.mem[base] = out
        n._own.add(base)
    for k, v in a.eqs.items():
        if b.eqs.get(k) == v: n.eqs[k] = v
    for k, v in a.neq.items():
        w = b.neq.get(k)
        if w is None and k in b.eqs:
            w = v if b.eqs[k] not in v else frozenset(x for x in v if x != b.eqs[k])
        if w is not None:
            x = v & w
            if x: n.neq[k] = x
    for k, v in b.neq.items():
        if k not in n.neq and k in a.eqs and k not in a.neq:
            x = frozenset(y for y in v if y != a.eqs[k])
            if x: n.neq[k] = x
    for k, v in a.alias.items():
        if b.alias.get(k) == v: n.alias[k] = v
    for k in set(a.tag) | set(b.tag):
        ta = a.tag.get(k, a.tag.get('*')); tb = b.tag.get(k, b.tag.get('*'))
        n.tag[k] = ta if ta == tb else ('j',) + tag
    return n, not n.same(a)


def padd(a, n):
    """pointer atom a + n bytes (n int or linear atom)"""
    if n == 0: return a
    if isinstance(a, tuple):
        # P + ((E - P) + k) = E + k
        q = lin_parts(n) if isinstance(n, tuple) else None
        if q and q[0] and q[0][0] == 'pd':
            po = po_parts(a)
            if po and po[0] == q[0][2] and isinstance(po[1], int): return padd(q[0][1], po[1] + q[1])
            return None
        if a[0] == 'a' and isinstance(n, int): return ('a', a[1], a[2] + n)
        if a[0] == 'po':
            o = lin_add(a[2], n)
            if o is None: return None
            return a[1] if o == 0 else ('po', a[1], o)
        if a[0] in ('sym', 'ip', '&', 'a'): return ('po', a, n)
    return None


def const_at(pa, n):
    """a place n bytes into a place of constant memory"""
    if not pa: return (('off', n),) if n else ()
    if len(pa) == 1 and isinstance(pa[0], tuple) and pa[0][0] == 'off': return (('off', pa[0][1] + n),)
    return None


def lin_parts(x):
    if isinstance(x, int): return (None, x)
    if isinstance(x, tuple):
        if x[0] == 'lin': return (x[1], x[2])
        if x[0] == 'sym' or x[0] == 'len' or x[0] == 'pd': return (x, 0)
    return None


def lin_mk(b, k):
    if b is None: return k
    return b if k == 0 else ('lin', b, k)


def lin_add(x, y, sign=1):
    p, q = lin_parts(x), lin_parts(y)
    if p is None or q is None: return None
    if q[0] is None: return lin_mk(p[0], p[1] + sign * q[1])
    if sign == 1:
        if p[0] is None: return lin_mk(q[0], p[1] + q[1])
        return None
    if p[0] == q[0]: return p[1] - q[1]
    return None


def po_parts(x):
    if isinstance(x, tuple):
        if x[0] == 'po': return x[1], x[2]
        if x[0] in ('ip', 'a', '&', 'sym'): return x, 0
    return None


CMP = {'Lt': lambda x, y: x < y, 'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'Ge': lambda x, y: x >= y,
       'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y}


def lin_bin(op, a, b, w):
    if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked'):
        sign = 1 if op.startswith('Add') else -1
        ispo = lambda x: isinstance(x, tuple) and x[0] in ('po', 'ip')
        if ispo(a) and ispo(b) and sign == -1:
            (x, o1), (y, o2) = po_parts(a), po_parts(b)
            if x == y:
                r = lin_add(o1, o2, -1)
                return mask(r, w) if isinstance(r, int) else r
            return None
        if ispo(a):
            n = b
            if isinstance(n, int): n = to_signed(n, w)
            if sign == -1:
                if b == po_parts(a)[0]: return mask(a[2], w) if isinstance(a[2], int) else a[2]
                if not isinstance(n, int): return None
                n = -n
            return padd(a, n)
        if any(isinstance(x, tuple) and x[0] in ('lin', 'sym', 'len', 'pd') for x in (a, b)) and symdepth(a) < 8 and symdepth(b) < 8:
            x = to_signed(a, w) if isinstance(a, int) else a
            y = to_signed(b, w) if isinstance(b, int) else b
            r = lin_add(x, y, sign)
            if isinstance(r, int): return mask(r, w)
            return r
        return None
    if op in CMP:
        if isinstance(a, tuple) and isinstance(b, tuple) and (a[0] in ('po', 'ip') or b[0] in ('po', 'ip')):
            pa, pb = po_parts(a), po_parts(b)
            if pa and pb and pa[0] == pb[0]:
                x, y = pa[1], pb[1]
                if isinstance(x, int) and isinstance(y, int): return int(CMP[op](x, y))
                # offset against a symbolic end: x op sym+k
                px, py = lin_parts(x), lin_parts(y)
                if px and py and px[0] == py[0]: return int(CMP[op](px[1], py[1]))
                if px and py:
                    if px[0] is None: return ('op', op, px[1] - py[1], py[0])
                    if py[0] is None: return ('op', op, px[0], py[1] - px[1])
            return None
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] in ('lin', 'len', 'sym') and b[0] in ('lin', 'len', 'sym') and (a[0] != 'sym' or b[0] != 'sym'):
            px, py = lin_parts(a), lin_parts(b)
            if px[0] == py[0]: return int(CMP[op](px[1], py[1]))
            return None
        # lin against a constant: move the constant over
        if isinstance(a, tuple) and a[0] == 'lin' and isinstance(b, int): return ('op', op, a[1], to_signed(b, w) - a[2])
        if isinstance(b, tuple) and b[0] == 'lin' and isinstance(a, int): return ('op', op, to_signed(a, w) - b[2], b[1])
        if (isinstance(a, tuple) and a[0] == 'len' and isinstance(b, int)) or (isinstance(b, tuple) and b[0] == 'len' and isinstance(a, int)):
            return ('op', op, to_signed(a, w) if isinstance(a, int) else a, to_signed(b, w) if isinstance(b, int) else b)
    return None


class Budget(Exception):
    pass


class Hooks:
    """Rule interface.  All methods may modify st (incl. st.q)."""
    fuzzy = False       # note branches on unknown conditions
    apart = ()          # symbolic bases known to be different objects
    flat = False      # an element of a byte slice is the cell a pointer to it would reach
    def on_call(self, ai, st, fn, callee, term, fid):
        """callee: Fn or None (indirect).  Return None for the default treatment,
        or a list of (state, retV or None-for-TOP) outcomes."""
        return None
    def on_indirect(self, ai, st, fn, V, term, fid):
        return None
    def want_inline(self, callee):
        return True
    def on_write(self, ai, st, fn, base, path, V, line):
        pass
    def on_deref(self, ai, st, fn, V, line):
        pass
    def on_panic(self, ai, st, fn, term, why):
        pass
    def on_edge(self, ai, st, fn, src, dst, fid):
        """return False to cut the edge"""
        return True
    def on_return(self, ai, st, fn, fid):
        pass
    def on_bin(self, ai, op, a, b, w, sg):
        return None
    def on_widen(self, ai, st, tag): pass

    def fold_events(self, old, new):
        return new


class AI:
    def __init__(s, prog, hooks=None, max_depth=24, budget=3_000_000, inline_blocks=4000, foreign_blocks=60):
        s.p = prog
        s.h = hooks or Hooks()
        s.max_depth = max_depth
        s.steps = 0
        s.budget = budget
        s.stack = []
        s.inline_blocks = inline_blocks
        s.foreign_blocks = foreign_blocks
        s.partition_ret = True
        s.paths = False
        s.nowiden = ()
        s.tick = 0
        s.inlined = set()
        s.havoced = {}
        s.blocks_seen = set()

    # ---------- places
    def resolve(s, st, fn, fid, place, line=None):
        """-> (list of (base, path), weak) ; None when the place is behind an unknown pointer"""
        p = s.p
        locs = [(('L', fid, place[0]), ())]
        t = fn.locals[place[0]]
        var = None
        weak = False
        for e in place[1:]:
            if e == '*':
                out = []
                V0 = set()
                top = False
                for b, pa in locs:
                    V = s.read_ptr(st, b, pa, t)
                    if V is None: top = True; break
                    V0 |= V
                if top:
                    s.h.on_deref(s, st, fn, None, line)
                    return None, True
                s.h.on_deref(s, st, fn, frozenset(V0), line)
                for a in V0:
                    if isinstance(a, tuple):
                        if a[0] == '&': out.append((a[1], a[2]))
                        elif a[0] == 'sym': out.append((('S', a), ()))
                        elif a[0] == 'a': out.append((('A', a[1]), (('off', a[2]),) if a[2] else ()))
                        elif a[0] == 'sl':
                            x = a[1]
                            if x[0] == 'a': out.append((('A', x[1]), (('off', x[2]),) if x[2] else ()))
                            elif x[0] == '&': out.append((x[1], x[2]))
                            else: out.append((('S', x), ()))
                        elif a[0] in ('po', 'ip'): out.append((('S', a), ()))
                        else: return None, True
                    else:
                        continue  # null or integer address
                if not out: return None, True
                locs = out
                if len(locs) > 1: weak = True
                t = p.pointee(t)
                var = None
            elif e[0] == 'f':
                k = p.types[t][0] if t is not None else None
                if k and k[0] == 'adt':
                    vs = k[4]
                    vi = var if var is not None else 0
                    name = vs[vi][2][e[1]][0] if vi < len(vs) and e[1] < len(vs[vi][2]) else str(e[1])
                else:
                    name = str(e[1])
                offs = k[5] if k and k[0] == 'adt' and k[2] == 'struct' else k[2] if k and k[0] == 'tuple' and len(k) > 2 else None
                locs = [(b, pa + (name,) if not offs or b[0] != 'A' or const_at(pa, 0) is None else const_at(pa, offs[e[1]])) for b, pa in locs]
                t = e[2]; var = None
            elif e[0] == 'd':
                k = p.types[t][0]
                nm = k[4][e[1]][0] if k[0] == 'adt' else str(e[1])
                locs = [(b, pa + ('v:' + nm,)) for b, pa in locs]
                var = e[1]
            elif e[0] == 'i':
                V = st.read(('L', fid, e[1]), ())
                ix = None
                if V is not None and len(V) == 1:
                    a = next(iter(V))
                    if isinstance(a, int): ix = a
                if ix is None: weak = True
                t = p.types[t][0][1]; var = None
                wide = ix is not None and p.tk(t)[0] in ('adt', 'tuple', 'array') and p.tsize(t) or None
                if s.h.flat and ix is not None and p.int_width(t) == 8 and all(b[0] == 'S' and pa == () for b, pa in locs): locs = [(('S', padd(b[1], ix)), ()) for b, pa in locs]
                else: locs = [(b, pa + (('i', ix),) if not wide or b[0] != 'A' or const_at(pa, 0) is None else const_at(pa, ix * wide)) for b, pa in locs]
            elif e[0] == 'ci':
                ix = e[1] if not e[3] else None
                if e[3]: weak = True
                t = p.types[t][0][1]; var = None
                wide = ix is not None and p.tk(t)[0] in ('adt', 'tuple', 'array') and p.tsize(t) or None
                if s.h.flat and ix is not None and p.int_width(t) == 8 and all(b[0] == 'S' and pa == () for b, pa in locs): locs = [(('S', padd(b[1], ix)), ()) for b, pa in locs]
                else: locs = [(b, pa + (('i', ix),) if not wide or b[0] != 'A' or const_at(pa, 0) is None else const_at(pa, ix * wide)) for b, pa in locs]
            elif e[0] == 'ss':
                weak = True
                locs = [(b, pa + (('ss',),)) for b, pa in locs]
            else:
                pass
        return locs, weak

    def read_ptr(s, st, b, pa, t):
        """pointer value stored at (b,pa); looks through wrapper structs (Box, NonNull, Unique)"""
        V = st.read(b, pa)
        if V is not None: return V
        return None

    def read_locs(s, st, locs):
        r = frozenset()
        first = True
        for b, pa in locs:
            if b[0] == 'A': V = s.read_const(b, pa)
            else: V = st.read(b, pa)
            if V is None: return None
            r = V if first else joinV(r, V)
            first = False
            if r is None: return None
        return r

    def read_const(s, base, path):
        return None

    def alloc_len(s, a):
        bs = s.p.alloc_bytes(a)
        return len(bs) if bs is not None else None

    def int_enum(s, t):
        """size of the payload of an enum of integers with an explicit tag in front of it"""
        k = s.p.tk(t); z = s.p.tsize(t)
        if k[0] != 'adt' or k[2] != 'enum' or z is None: return None
        w = 0
        for v in k[4]:
            if len(v[2]) > 1: return None
            for f in v[2]:
                i = s.p.int_width(f[1])
                if i is None:
                    if s.p.tsize(f[1]) != 0: return None
                elif s.p.tk(f[1])[0] in ('int', 'uint'): w = max(w, i // 8)
                else: return None
        return w if w and z == 2 * w else None

    def place_const_read(s, fn, place, locs):
        """value of a scalar inside constant memory, when the offset is known"""
        p = s.p
        t = p.place_ty(fn, place)
        w = p.int_width(t) if t is not None else None
        out = set()
        for b, pa in locs:
            if b[0] != 'A': return 'no'
        for b, pa in locs:
            off = 0
            # only arrays/slices of scalars and plain scalars
            for e in pa:
                if isinstance(e, tuple) and e[0] == 'off': off += e[1]
                elif isinstance(e, tuple) and e[0] == 'i' and e[1] is not None: off += e[1] * (p.tsize(t) or 0)
                elif isinstance(e, str) and e[:2] == 'v:' and w is not None and e in ('v:Ok', 'v:Some', 'v:Err') and s.alloc_len(b[1]) == w // 4: off += w // 8
                elif e == '0' and w is not None and s.alloc_len(b[1]) == w // 4: pass
                else: return None
            e = p.allocs[b[1]]
            if e[0] == 'mem':
                bs = p.alloc_bytes(b[1])
                ptrs = {o: a for o, a in e[2]}
            elif e[0] == 'static':
                sst = p.static_by_name.get(e[1])
                if sst is None or sst['mut']: return None
                bs = p.alloc_bytes(b[1]); ptrs = {o: a for o, a in sst['init'][1]}
            else:
                return None
            if bs is None: return None
            if w is not None:
                n = w // 8
                if off + n > len(bs): return None
                out.add(int.from_bytes(bs[off:off + n], 'little'))
            elif p.tk(t)[0] in ('ref', 'ptr') and off in ptrs:
                o2 = int.from_bytes(bs[off:off + 8], 'little')
                at = ('a', ptrs[off], o2)
                if s.is_unsized_elem(t): at = ('sl', at, int.from_bytes(bs[off + 8:off + 16], 'little'))
                out.add(at)
            else:
                return None
        return frozenset(out)

    # ---------- operands
    def const_val(s, fn, op, st, dst):
        """assign constant operand to dst loc"""
        p = s.p
        b, pa = dst
        V = s.const_scalar(op)
        t = op[1]
        k = p.types[t][0]
        if V == 'agg':
            st.write(b, pa, None)
            bs = p.const_bytes(op)
            if bs is not None and not op[3]: s.decode(st, b, pa, t, bs, 0)
            return
        if k[0] == 'adt' and k[2] == 'enum' and V is not None:
            st.write(b, pa, None)
            st._d(b)[pa + ('#',)] = V
            return
        st.write(b, pa, V)

    def decode(s, st, b, pa, t, bs, off):
        p = s.p
        k = p.types[t][0]
        sz = p.tsize(t)
        if sz is None: return
        if k[0] == 'int' or k[0] in ('ptr', 'ref'):
            if off + sz <= len(bs): st._d(b)[pa] = frozenset((int.from_bytes(bs[off:off + sz], 'little'),))
        elif k[0] == 'array' and k[2] <= 64 and (p.int_width(k[1]) or 0) >= 8:
            n = p.int_width(k[1]) // 8
            for i in range(k[2]):
                if off + n * (i + 1) <= len(bs): st._d(b)[pa + (('i', i),)] = frozenset((int.from_bytes(bs[off + n * i:off + n * i + n], 'little'),))
        elif k[0] == 'adt' and k[2] == 'struct' and k[5]:
            for i, f in enumerate(k[4][0][2]):
                s.decode(st, b, pa + (f[0],), f[1], bs, off + k[5][i])
        elif k[0] == 'adt' and k[2] == 'enum' and all(not v[2] for v in k[4]) and sz and off + sz <= len(bs):
            v = int.from_bytes(bs[off:off + sz], 'little')
            st._d(b)[pa + ('#',)] = frozenset((s.enum_norm(t, v, sz),))

    def enum_norm(s, t, v, sz):
        """memory bytes of a C-like enum -> discriminant bits as Discriminant() yields them"""
        k = s.p.types[t][0]
        sv = to_signed(v, sz * 8)
        ds = {int(x[1]) for x in k[4]}
        # discriminants are dumped as unsigned u128 bit patterns of the discriminant type
        for d in ds:
            if mask(d, sz * 8) == mask(v, sz * 8): return d
        return v

    def const_scalar(s, op):
        p = s.p
        k = p.types[op[1]][0]
        if k[0] == 'fndef':
            return frozenset((('fn', k[1]),)) if k[1] is not None else None
        if k[0] == 'closure':
            return UNIT
        if op[2] is None: return None
        if op[2] == '' and not op[3]:
            return UNIT
        if op[3]:
            if len(op[3]) == 1 and op[3][0][0] == 0 and k[0] in ('ptr', 'ref', 'fnptr'):
                al = p.allocs[op[3][0][1]]
                off = int.from_bytes(bytes.fromhex(op[2][:16].replace('xx', '00')), 'little')
                if al[0] == 'fn': return frozenset((('fn', al[1]),))
                at = ('a', op[3][0][1], off)
                if len(op[2]) == 32 and k[0] in ('ptr', 'ref') and s.p.tk(k[1])[0] in ('slice', 'str'):
                    return frozenset((('sl', at, int.from_bytes(bytes.fromhex(op[2][16:32]), 'little')),))
                return frozenset((at,))
            return None
        bs = p.const_bytes(op)
        if bs is None: return None
        if k[0] in ('int', 'ptr', 'ref', 'fnptr'):
            return frozenset((int.from_bytes(bs, 'little'),))
        if k[0] == 'adt':
            if k[2] == 'enum' and all(not v[2] for v in k[4]):
                return frozenset((s.enum_norm(op[1], int.from_bytes(bs, 'little'), len(bs)),))
            return 'agg'
        return 'agg'

    def scalar(s, st, fn, fid, op, line=None):
        """value of an operand used as a scalar"""
        if op[0] == 'k':
            V = s.const_scalar(op)
            return None if V == 'agg' else V
        if op[0] == 'rc': return frozenset((0,))
        locs, weak = s.resolve(st, fn, fid, op[1], line)
        if locs is None: return None
        if any(b[0] == 'A' for b, _ in locs):
            V = s.place_const_read(fn, op[1], locs)
            return None if V == 'no' else V
        return s.read_locs(st, locs)

    def disc(s, st, fn, fid, op):
        """discriminant of an enum-typed operand"""
        if op[0] == 'k':
            V = s.const_scalar(op)
            return None if V == 'agg' else V
        locs, weak = s.resolve(st, fn, fid, op[1])
        if locs is None: return None
        return s.read_locs(st, [(b, pa + ('#',)) for b, pa in locs])

    def field(s, st, fn, fid, op, *names):
        if op[0] == 'k': return None
        locs, weak = s.resolve(st, fn, fid, op[1])
        if locs is None: return None
        return s.read_locs(st, [(b, pa + tuple(names)) for b, pa in locs])

    # ---------- assignment
    def assign_op(s, st, fn, fid, dsts, weak, op, line):
        if op[0] == 'k':
            if len(dsts) == 1 and not weak:
                s.const_val(fn, op, st, dsts[0])
            else:
                for d in dsts:
                    t = State(); 
                    V = s.const_scalar(op)
                    if V == 'agg': V = None
                    k = s.p.types[op[1]][0]
                    if k[0] == 'adt' and k[2] == 'enum' and V is not None:
                        st.write(d[0], d[1] + ('#',), V, True)
                    else:
                        st.write(d[0], d[1], V, True)
            return
        if op[0] == 'rc':
            for d in dsts: st.write(d[0], d[1], frozenset((0,)), weak)
            return
        srcs, w2 = s.resolve(st, fn, fid, op[1], line)
        if srcs is None:
            for d in dsts: st.write(d[0], d[1], None, weak)
            return
        if any(b[0] == 'A' for b, _ in srcs):
            V = s.place_const_read(fn, op[1], srcs)
            if V == 'no': V = None
            for d in dsts: st.write(d[0], d[1], V, weak)
            return
        if len(srcs) == 1:
            sb, sp = srcs[0]
            for d in dsts:
                if d == (sb, sp): continue
                st.copy_tree(sb, sp, d[0], d[1], weak)
            if len(dsts) == 1 and not weak and not w2:
                d = dsts[0]
                if d[0][0] == 'L':
                    st.alias[d] = (sb, sp)
        else:
            # several possible sources: join leaf by leaf
            leaves = set()
            for sb, sp in srcs:
                dd = st.mem.get(sb) or {}
                leaves |= {k[len(sp):] for k in dd if k[:len(sp)] == sp}
            leaves.add(())
            vals = {}
            for l in leaves:
                vals[l] = s.read_locs(st, [(sb, sp + l) for sb, sp in srcs])
            for d in dsts:
                if weak:
                    for l, v in vals.items():
                        if l == () and len(vals) > 1: continue
                        st.write(d[0], d[1] + l, v, True)
                else:
                    st.forget(d[0], d[1]); st.kill_alias(d[0], d[1])
                    D = st._d(d[0])
                    for l, v in vals.items():
                        if l == () and len(vals) > 1 and v is None: continue
                        D[d[1] + l] = v

    def write_place(s, st, fn, fid, place, V, line):
        locs, weak = s.resolve(st, fn, fid, place, line)
        if locs is None: return
        for b, pa in locs:
            s.h.on_write(s, st, fn, b, pa, V, line)
            st.write(b, pa, V, weak)

    def binop(s, op, A, B, t, signed_w):
        """A,B value sets; t operand type id"""
        p = s.p
        w = p.int_width(t) if t is not None else 64
        if w is None: w = 64
        sg = p.is_signed(t) if t is not None else False
        if A is None or B is None: return None
        if len(A) * len(B) > 64: return None
        out = set()
        for a in A:
            for b in B:
                r = s.bin1(op, a, b, w, sg)
                if r is None: return None
                out.add(r)
        if len(out) > LIM: return None
        return frozenset(out)

    def bin1(s, op, a, b, w, sg):
        ia, ib = isinstance(a, int), isinstance(b, int)
        if ia and ib:
            x, y = (to_signed(a, w), to_signed(b, w)) if sg else (mask(a, w), mask(b, w))
            if op == 'Eq': return int(mask(a, w) == mask(b, w))
            if op == 'Ne': return int(mask(a, w) != mask(b, w))
            if op == 'Lt': return int(x < y)
            if op == 'Le': return int(x <= y)
            if op == 'Gt': return int(x > y)
            if op == 'Ge': return int(x >= y)
            if op in ('Add', 'AddUnchecked'): return mask(x + y, w)
            if op in ('Sub', 'SubUnchecked'): return mask(x - y, w)
            if op in ('Mul', 'MulUnchecked'): return mask(x * y, w)
            if op == 'BitAnd': return mask(a & b, w)
            if op == 'BitOr': return mask(a | b, w)
            if op == 'BitXor': return mask(a ^ b, w)
            if op in ('Shl', 'ShlUnchecked'): return mask(x << (y % w), w) if y >= 0 else None
            if op in ('Shr', 'ShrUnchecked'): return mask(x >> (y % w), w) if y >= 0 else None
            if op == 'Div' and y: return mask(int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1), w)
            if op == 'Rem' and y: return mask((abs(x) % abs(y)) * (1 if x >= 0 else -1), w)
            return None
        if op in ('Eq', 'Ne'):
            if a == b: return int(op == 'Eq')
            # addresses and functions are never null
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[0] in ('&', 'fn', 'a', 'po', 'ip', 'sl') and y == 0:
                    return int(op == 'Ne')
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == '&' and b[0] == '&':
                if a[1] == b[1] and any(isinstance(x, str) and isinstance(y, str) and x != y and x[:1] not in 'v#' and y[:1] not in 'v#' for x, y in zip(a[2], b[2])): return int(op == 'Ne')
                if a[1] != b[1] and a[1] in s.h.apart and b[1] in s.h.apart: return int(op == 'Ne')
                return int(op == 'Ne') if a != b and a[1][0] == 'L' and b[1][0] == 'L' else None
            if isinstance(a, tuple) and a[0] == 'fn' and isinstance(b, tuple) and b[0] == 'fn':
                return int((a == b) == (op == 'Eq'))
        if ib and op in ('Div', 'Mul', 'MulUnchecked') and b == 1: return a
        if ia and op in ('Mul', 'MulUnchecked') and a == 1: return b
        r = lin_bin(op, a, b, w)
        if r is not None: return r
        r = s.h.on_bin(s, op, a, b, w, sg)
        if r is not None: return r
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'BitAnd', 'Sub', 'Add'):
            if all(isinstance(x, int) or (isinstance(x, tuple) and x[0] in ('sym', 'op', 'lin') and (x[0] == 'sym' or symdepth(x) < 3)) for x in (a, b)):
                return ('op', op, a, b)
        return None

    def rvalue(s, st, fn, fid, place, rv, line):
        p = s.p
        k = rv[0]
        dsts, weak = s.resolve(st, fn, fid, place, line)
        if k == 'use':
            if dsts is None: return
            s.assign_op(st, fn, fid, dsts, weak, rv[1], line)
            for d in dsts:
                s.h.on_write(s, st, fn, d[0], d[1], 'op', line)
            return
        if dsts is None: return
        if k == 'agg':
            ak = rv[1]
            if weak or len(dsts) != 1:
                for d in dsts:
                    st.write(d[0], d[1], None, False)
                    s.h.on_write(s, st, fn, d[0], d[1], None, line)
                return
            b, pa = dsts[0]
            # operands may read the destination: evaluate into a temporary
            tmp = ('T', fid)
            st.forget(tmp, ())
            names = []
            if ak[0] == 'adt':
                kk = p.types[ak[1]][0]
                vs = kk[4][ak[2]]
                pre = ()
                if kk[2] == 'enum':
                    pre = ('v:' + vs[0],)
                for i, o in enumerate(rv[2]):
                    fi = ak[3] if ak[3] is not None else i
                    names.append(pre + (vs[2][fi][0],))
                if kk[2] == 'enum':
                    st._d(tmp)[('#',)] = frozenset((mask(int(vs[1]), 128),))
            elif ak[0] == 'array':
                names = [(('i', i),) for i in range(len(rv[2]))]
            elif ak[0] == 'rawptr':
                V = s.scalar(st, fn, fid, rv[2][0])
                if len(rv[2]) > 1 and V is not None and s.is_unsized_elem(ak[1]):
                    M = s.scalar(st, fn, fid, rv[2][1])
                    M = [None] if M is None else sorted(M, key=repr)
                    if len(V) * len(M) <= LIM:
                        V = frozenset(('sl', a, m) if not (isinstance(a, tuple) and a[0] == 'sl') else a for a in V for m in M)
                    else: V = None
                st.write(b, pa, V)
                s.h.on_write(s, st, fn, b, pa, V, line)
                return
            else:
                names = [(str(i),) for i in range(len(rv[2]))]
            for nm, o in zip(names, rv[2]):
                s.assign_op(st, fn, fid, [(tmp, nm)], False, o, line)
            for kk2 in [x for x in st.alias if x[0] == tmp]: del st.alias[kk2]
            d = st.mem.get(tmp) or {}
            st.kill_alias(b, pa)
            st.forget(b, pa)
            D = st._d(b)
            if not d: D[pa] = UNIT
            for kk2, v in d.items(): D[pa + kk2] = v
            st.mem.pop(tmp, None)
            s.h.on_write(s, st, fn, b, pa, 'agg', line)
            return
        V = None
        if k in ('ref', 'addr'):
            locs, w = s.resolve(st, fn, fid, rv[1], line)
            if locs is not None:
                # reborrow of a whole pointee: keep the pointer itself (so that symbols stay symbols)
                pl = rv[1]
                if pl[-1] == '*' :
                    inner, _ = s.resolve(st, fn, fid, pl[:-1], line)
                    V = s.read_locs(st, inner) if inner is not None else None
                    if any(b[0] == 'A' for b, _ in (inner or [])): V = frozenset(('&', b, pa) for b, pa in locs)
                else:
                    V = frozenset(('a', b[1], pa[0][1] if pa else 0) if b[0] == 'A' and (not pa or (len(pa) == 1 and pa[0][0] == 'off')) else b[1] if s.h.flat and b[0] == 'S' and pa == () else ('&', b, pa) for b, pa in locs)
                if V is not None and len(V) > LIM: V = None
        elif k in ('bin', 'cbin'):
            A = s.scalar(st, fn, fid, rv[2], line); B = s.scalar(st, fn, fid, rv[3], line)
            t = p.op_ty(fn, rv[2])
            op = rv[1]
            if op == 'Offset':
                V = s.ptr_offset(A, B, p.pointee(t), p.op_ty(fn, rv[3]))
            else:
                V = s.binop(op, A, B, t, None)
            if k == 'cbin':
                for b, pa in dsts:
                    st.write(b, pa, None, weak)
                    if not weak:
                        st._d(b)[pa + ('0',)] = V
                        st._d(b)[pa + ('1',)] = frozenset((0,))
                return
        elif k == 'un' and rv[1] == 'PtrMetadata':
            A = s.scalar(st, fn, fid, rv[2], line)
            if A is not None:
                V = set()
                for a in A:
                    m = None
                    if isinstance(a, tuple) and a[0] == 'sl': m = a[2]
                    elif isinstance(a, tuple) and a[0] == 'sym' and symdepth(a) < 9: m = ('sym', ('meta', a[1]))
                    if m is None: V = None; break
                    V.add(m)
                if V is not None: V = s_norm(st, frozenset(V))
        elif k == 'un':
            A = s.scalar(st, fn, fid, rv[2], line)
            t = p.op_ty(fn, rv[2])
            if A is not None:
                w = p.int_width(t) or 64
                o = set()
                for a in A:
                    if rv[1] == 'Not':
                        if p.tk(t) == ['int', 'bool'] or p.types[t][0][1:] == ['bool']:
                            if isinstance(a, int): o.add(1 - (a & 1))
                            elif isinstance(a, tuple) and a[0] == 'op' and a[1] in NEG: o.add(('op', NEG[a[1]], a[2], a[3]))
                            elif isinstance(a, tuple) and a[0] == 'sym': o.add(('op', 'Eq', a, 0))
                            else: o = None; break
                        elif isinstance(a, int): o.add(mask(~a, w))
                        else: o = None; break
                    elif rv[1] == 'Neg' and isinstance(a, int): o.add(mask(-a, w))
                    else: o = None; break
                V = frozenset(o) if o is not None else None
        elif k == 'cast':
            V = s.cast(st, fn, fid, rv, line)
            if V == 'copy':
                s.assign_op(st, fn, fid, dsts, weak, rv[2], line)
                return
        elif k == 'discr':
            locs, w = s.resolve(st, fn, fid, rv[1], line)
            if locs is not None:
                if any(b[0] == 'A' for b, _ in locs):
                    V = s.const_discr(fn, rv[1], locs)
                else:
                    V = s.read_locs(st, [(b, pa + ('#',)) for b, pa in locs])
                if len(locs) == 1 and not w and len(dsts) == 1 and dsts[0][0][0] == 'L':
                    st.write(dsts[0][0], dsts[0][1], V)
                    st.alias[dsts[0]] = (locs[0][0], locs[0][1] + ('#',))
                    return
        elif k == 'repeat':
            V = None
            if not weak and len(dsts) == 1:
                b, pa = dsts[0]
                st.write(b, pa, None)
                return
        for b, pa in dsts:
            s.h.on_write(s, st, fn, b, pa, V, line)
            st.write(b, pa, V, weak)

    def const_off(s, pa, sz):
        off = 0
        for e in pa:
            if isinstance(e, tuple) and e[0] == 'off': off += e[1]
            elif isinstance(e, tuple) and e[0] == 'i' and e[1] is not None and sz: off += e[1] * sz
            else: return None
        return off

    def const_discr(s, fn, place, locs):
        t = s.p.place_ty(fn, place)
        k = s.p.tk(t)
        z = s.p.tsize(t)
        if k[0] != 'adt' or k[2] != 'enum' or z is None: return None
        if any(v[2] for v in k[4]):
            w = s.int_enum(t)
            if w is None or len(locs) != 1 or locs[0][0][0] != 'A' or s.const_off(locs[0][1], z) != 0: return None
            bs = s.p.alloc_bytes(locs[0][0][1])
            return frozenset((bs[0],)) if bs is not None and len(bs) == z else None
        out = set()
        for b, pa in locs:
            if b[0] != 'A': return None
            off = s.const_off(pa, z)
            e = s.p.allocs[b[1]]
            if e[0] == 'static':
                sst = s.p.static_by_name.get(e[1])
                if sst is None or sst['mut']: return None
            bs = s.p.alloc_bytes(b[1])
            if bs is None or off is None or off + z > len(bs): return None
            out.add(mask(s.enum_norm(t, int.from_bytes(bs[off:off + z], 'little'), z), 128))
        return frozenset(out)

    def ptr_offset(s, A, B, elem_t, off_t):
        if A is None or B is None: return None
        sz = s.p.tsize(elem_t) if elem_t is not None else None
        out = set()
        for a in A:
            for b in B:
                if b == 0: out.add(a)
                else:
                    n = None
                    if isinstance(b, int) and sz is not None: n = to_signed(b, 64) * sz
                    elif sz == 1 and isinstance(b, tuple) and b[0] in ('lin', 'len', 'sym', 'pd'): n = b
                    r = padd(a, n) if n is not None else None
                    if r is None: return None
                    out.add(r)
        return frozenset(out)

    def cast(s, st, fn, fid, rv, line):
        p = s.p
        kind, op, t = rv[1], rv[2], rv[3]
        if rv[4] is not None and ('Reify' in kind or 'ClosureFn' in kind):
            return frozenset((('fn', rv[4]),))
        st_t = p.op_ty(fn, op)
        if kind in ('IntToInt',):
            A = s.scalar(st, fn, fid, op, line)
            if A is None: return None
            sw = p.int_width(st_t)
            sg = p.is_signed(st_t) if sw else False
            tw = p.int_width(t)
            if sw is None:
                # C-like enum cast
                if p.tk(st_t)[0] == 'adt': 
                    A = s.disc(st, fn, fid, op)
                    if A is None: return None
                sw = 64; sg = True
            out = set()
            for a in A:
                if isinstance(a, int):
                    v = to_signed(a, sw) if sg else mask(a, sw)
                    out.add(mask(v, tw or 64))
                elif isinstance(a, tuple) and a[0] in ('sym', 'op', 'lin', 'len') and (tw or 64) >= (sw or 64):
                    out.add(a)
                elif isinstance(a, tuple) and (a[0] == 'pd' or a[0] == 'lin' and a[1][0] == 'pd') and (tw or 64) >= 32:
                    out.add(a)      # a length of input: input shorter than 2^31
                elif isinstance(a, tuple) and a[0] == 'sym':
                    out.add(('sym', ('trunc', a[1], tw)))
                elif isinstance(a, tuple) and a[0] == 'lin':
                    out.add(('sym', ('trunc', a, tw)))
                else: return None
            return frozenset(out)
        if kind == 'Transmute' or kind == 'BoxDerefTransmute' or kind == 'Subtype':
            k1, k2 = p.tk(st_t)[0], p.tk(t)[0]
            if k1 in ('ptr', 'ref', 'int', 'fnptr') and k2 in ('ptr', 'ref', 'int', 'fnptr'):
                return s.scalar(st, fn, fid, op, line)
            if k1 == 'adt' and k2 in ('ptr', 'ref', 'fnptr') and op[0] != 'k':
                locs, w = s.resolve(st, fn, fid, op[1], line)
                if locs is None: return None
                r = None
                for b, pa in locs:
                    r2 = s.leaf(st, b, pa, st_t)
                    if r2 is None: return None
                    r = r2 if r is None else joinV(r, r2)
                    if r is None: return None
                return r
            if k1 == k2 == 'adt' and st_t == t: return 'copy'
            if k1 == 'int' and k2 == 'adt': 
                # integer to C-like enum
                kk = p.tk(t)
                if kk[2] == 'enum' and all(not v[2] for v in kk[4]):
                    return None
            return None
        if p.tk(t)[0] in ('ptr', 'ref', 'fnptr') or kind.startswith('Pointer') or 'Ptr' in kind:
            if p.tk(st_t)[0] == 'adt': return 'copy'
            A = s.scalar(st, fn, fid, op, line)
            if A is None: return None
            su, du = p.pointee(st_t), p.pointee(t)
            if su is not None and du is not None:
                sk, dk = p.tk(su), p.tk(du)
                if sk[0] == 'array' and dk[0] == 'slice':
                    try: n = int(sk[2])
                    except Exception: n = None
                    return frozenset(('sl', a, n) if isinstance(a, tuple) and a[0] != 'sl' else a for a in A)
                if sk[0] in ('slice', 'str') and dk[0] not in ('slice', 'str'):
                    return frozenset(a[1] if isinstance(a, tuple) and a[0] == 'sl' else a for a in A)
            return A
        if kind in ('PointerExposeAddress', 'PointerExposeProvenance', 'PtrToInt'):
            return s.scalar(st, fn, fid, op, line)
        return None

    def is_unsized_elem(s, t):
        k = s.p.tk(t)
        if k[0] in ('ref', 'ptr'): k = s.p.tk(k[1])
        return k[0] in ('slice', 'str')

    def leaf(s, st, b, pa, t):
        """the single scalar inside nested single-field structs"""
        p = s.p
        for _ in range(6):
            k = p.tk(t)
            if k[0] == 'adt' and k[2] == 'struct':
                fs = [f for f in k[4][0][2] if (p.tsize(f[1]) or 0) > 0]
                if len(fs) < 1: return None
                pa = pa + (fs[0][0],); t = fs[0][1]
            elif k[0] == 'adt' and k[2] == 'enum' and k[4] and any(v[0] == 'Some' for v in k[4]):
                d = st.read(b, pa + ('#',))
                if d is not None and d == frozenset((0,)): return frozenset((0,))
                v = [v for v in k[4] if v[0] == 'Some'][0]
                t = v[2][0][1]; pa = pa + ('v:Some', v[2][0][0])
            else:
                break
        return st.read(b, pa)

    # ---------- execution
    def run(s, fn, setup=None, q=None):
        """analyse fn from an initial state; returns list of (state, fid) at its returns"""
        st = State(); st.q = q
        fid = 0
        for i in range(1, fn.argc + 1):
            st.write(('L', fid, i), (), frozenset((('sym', ('arg', i)),)))
        if setup: setup(s, st, fn)
        s.stack = []
        return s.exec(fn, st, fid)

    def retkey(s, st, fn, fid):
        d = st.mem.get(('L', fid, 0))
        if not d: return None
        r = []
        for p in sorted(d, key=repr):
            if len(p) > 4: continue
            V = st.normV(d[p])
            if V is not None and len(V) == 1 and len(r) < 4:
                a = next(iter(V))
                if isinstance(a, int) and (not p or p[-1] == '#'): r.append((p, a))
        return tuple(r)

    def exec(s, fn, st0, fid):
        if fid > 200: raise Budget('depth')
        if s.paths and (fn.local or s.paths is True or fn.name.startswith(('std::option::', 'std::result::', 'core::option::', 'core::result::', '<std::option::Option', '<std::result::Result')) and not fn.loop_heads):
            return s.exec_paths(fn, st0, fid)
        s.stack.append((fn, None))
        rpo = fn.rpo
        import heapq
        states = {}   # block -> {key: state}
        work = []
        inwork = set()
        def add(b, st):
            key = (st.q, s.retkey(st, fn, fid) if s.partition_ret else None)
            d = states.setdefault(b, {})
            o = d.get(key)
            if o is None:
                if len(d) > 40:
                    key = (st.q, '*')
                    o = d.get(key)
                if o is None:
                    d[key] = st
                    ch = True
            if o is not None:
                n, ch = join(o, st, (fn.id, b))
                if ch: d[key] = n
            if ch:
                if (b, key) not in inwork:
                    inwork.add((b, key))
                    s.tick += 1; heapq.heappush(work, (rpo[b], s.tick, b, key))
        add(0, st0)
        rets = {}
        cnt = {}
        while work:
            _, _, b, key = heapq.heappop(work)
            inwork.discard((b, key))
            st = states[b][key].copy()
            s.steps += 1
            cnt[b] = cnt.get(b, 0) + 1
            if cnt[b] > 400: raise Budget('no fixpoint in %s' % fn.name)
            if s.steps > s.budget: raise Budget('budget in %s' % fn.name)
            s.blocks_seen.add((fn.id, b))
            for nb, ns in s.block(fn, st, fid, b):
                if nb is None:
                    k2 = (ns.q, s.retkey(ns, fn, fid))
                    if k2 in rets:
                        rets[k2], _ = join(rets[k2], ns, (fn.id, 'ret'))
                    else:
                        rets[k2] = ns
                else:
                    add(nb, ns)
        s.stack.pop()
        return [(r, fid) for r in rets.values()]

    def exec_paths(s, fn, st0, fid):
        """path-sensitive execution: no joins (for code whose loops are bounded by constants);
        with paths == 'widen' a loop head seen again on the same path is widened until stable"""
        s.stack.append((fn, None))
        widen = s.paths == 'widen'
        heads = fn.loop_heads if widen else ()
        work = [(0, st0, None)]
        rets = []
        while work:
            b, st, hist = work.pop()
            s.steps += 1
            if s.steps > s.budget: raise Budget('budget in %s' % fn.name)
            s.blocks_seen.add((fn.id, b))
            if b in heads and (fn.id, b) not in s.nowiden:
                h = (hist or {}).get(b)
                if h is not None:
                    ev0, old = h
                    q = st.q
                    st = s.widen(old, st, (fn.id, b))
                    st.q = s.h.fold_events(old.q, q)
                    s.h.on_widen(s, st, (fn.id, b))
                    if st.q == old.q and st.same(old): continue
                    hist = dict(hist); hist[b] = (ev0, st.copy())
                else:
                    hist = dict(hist or {}); hist[b] = (st.q, st.copy())
            for nb, ns in s.block(fn, st, fid, b):
                if nb is None: rets.append((ns, fid))
                else: work.append((nb, ns, hist))
        s.stack.pop()
        return rets

    def widen(s, old, new, tag):
        n, _ = join(old, new, tag)
        s.widened = []
        for base, d in n.mem.items():
            o = old.mem.get(base)
            if o is d or o is None: continue
            for p, v in list(d.items()):
                if v is not None and old.read(base, p) != v:
                    n._d(base)[p] = None
                    s.widened.append((base, p))
        return n

    def block(s, fn, st, fid, b):
        stmts, term = fn.blocks[b]
        for x in stmts:
            k = x[0]
            if k == '=':
                s.rvalue(st, fn, fid, x[2], x[3], x[1])
            elif k == 'sd':
                locs, weak = s.resolve(st, fn, fid, x[2], x[1])
                if locs:
                    t = s.p.place_ty(fn, x[2])
                    kk = s.p.tk(t)
                    d = frozenset((mask(int(kk[4][x[3]][1]), 128),)) if kk[0] == 'adt' else None
                    for bb, pa in locs: st.write(bb, pa + ('#',), d, weak)
            elif k == 'dead':
                base = ('L', fid, x[2])
                if base in st.mem:
                    del st.mem[base]
                    st._own.discard(base)
                if st.alias: st.kill_alias(base, ())
        return s.term(fn, st, fid, b, term)

    def goto(s, fn, st, fid, b, t):
        if s.h.on_edge(s, st, fn, b, t, fid) is False: return []
        return [(t, st)]

    def term(s, fn, st, fid, b, t):
        k = t[0]
        if k == 'goto':
            return s.goto(fn, st, fid, b, t[2])
        if k == 'return':
            s.h.on_return(s, st, fn, fid)
            return [(None, st)]
        if k == 'switch':
            return s.switch(fn, st, fid, b, t)
        if k == 'drop':
            return s.do_drop(fn, st, fid, b, t)
        if k == 'assert':
            V = s.scalar(st, fn, fid, t[2])
            if V is not None and len(V) == 1 and isinstance(next(iter(V)), int) and bool(next(iter(V))) != t[3]:
                # definitely fails -- unless modelled imprecisely (overflow flags are 0)
                s.h.on_panic(s, st, fn, t, 'assert')
                return []
            s.h.on_panic(s, st, fn, t, 'assert?')
            return s.goto(fn, st, fid, b, t[5])
        if k == 'call':
            return s.do_call(fn, st, fid, b, t)
        if k in ('unreachable', 'resume', 'abort', 'asm'):
            return []
        return []

    def do_drop(s, fn, st, fid, b, t):
        outs = s.h_drop(fn, st, fid, t)
        r = []
        for o in outs:
            r += s.goto(fn, o, fid, b, t[3])
        return r

    def h_drop(s, fn, st, fid, t):
        f = getattr(s.h, 'on_drop', None)
        if f:
            o = f(s, st, fn, t, fid)
            if o is not None: return o
        return [st]

    def refine_atom(s, st, a, v, eq=True):
        """assume atom a == v (or != v).  False if impossible"""
        if isinstance(a, int): return (a == v) == eq
        if isinstance(a, tuple):
            if a[0] in ('fn', '&', 'a', 'po', 'ip', 'sl'):
                return (not eq) if v == 0 else True
            if a[0] == 'sym':
                if a in st.eqs: return (st.eqs[a] == v) == eq
                if eq:
                    if v in st.neq.get(a, ()): return False
                    st.eqs[a] = v
                    f = getattr(s.h, 'on_refine', None)
                    if f: return f(s, st, a, v)
                else:
                    f = getattr(s.h, 'on_refine_ne', None)
                    if f:
                        r = f(s, st, a, v)
                        if r is not None: return r
                    st.neq[a] = st.neq.get(a, frozenset()) | {v}
                return True
            if a[0] == 'op':
                truth = v if eq else (1 - v if v in (0, 1) else None)
                if truth is None: return True
                return s.refine_op(st, a, truth)
        return True

    def refine_op(s, st, a, truth):
        op, x, y = a[1], st.norm(a[2]), st.norm(a[3])
        if op in ('Eq', 'Ne'):
            want_eq = (op == 'Eq') == bool(truth)
            if isinstance(y, int) : return s.refine_atom(st, x, y, want_eq)
            if isinstance(x, int) : return s.refine_atom(st, y, x, want_eq)
            f = getattr(s.h, 'on_refine_eq', None)
            if f: return f(s, st, x, y, want_eq)
            return True
        if isinstance(x, int) and isinstance(y, int):
            r = s.bin1(op, x, y, 64, True)
            return r is None or bool(r) == bool(truth)
        f = getattr(s.h, 'on_refine_op', None)
        if f: return f(s, st, op, x, y, truth)
        return True

    def atom_may_eq(s, st, a, v):
        if isinstance(a, int): return a == v
        if isinstance(a, tuple):
            if a[0] in ('fn', '&', 'a', 'po', 'ip', 'sl'): return v != 0
            if a in st.eqs: return st.eqs[a] == v
            if a[0] == 'sym': return v not in st.neq.get(a, ())
            if a[0] == 'op':
                c = st.copy()
                return s.refine_atom(c, a, v)
        return True

    def switch(s, fn, st, fid, b, t):
        op = t[2]
        V = s.scalar(st, fn, fid, op)
        w = s.p.int_width(t[5])
        vals = [(int(v), tgt) for v, tgt in t[3]]
        isbool = s.p.tk(t[5]) == ['int', 'bool']
        out = []
        loc = None
        if op[0] in ('c', 'm'):
            locs, weak = s.resolve(st, fn, fid, op[1])
            if locs and len(locs) == 1 and not weak: loc = locs[0]
        if w and V is not None:
            V = frozenset(mask(a, w) if isinstance(a, int) else a for a in V)
        for v, tgt in vals:
            n = s.assume(st, V, loc, v, True, w)
            if n is not None: out.append((tgt, n))
        # otherwise
        n = st
        ex = [v for v, _ in vals]
        if isbool and len(ex) == 1:
            n = s.assume(st, V, loc, 1 - ex[0], True, w)
        else:
            n = s.assume_not(st, V, loc, ex, w)
        if n is not None: out.append((t[4], n))
        if s.h.fuzzy and len(out) > 1:
            # a branch on something that is not expressed as a condition
            for tgt, n in out:
                if n.eqs == st.eqs and n.neq == st.neq: n.eqs[('fuzzy', fn.name, b)] = tgt
        res = []
        for tgt, n in out:
            res += s.goto(fn, n, fid, b, tgt)
        return res

    def assume(s, st, V, loc, v, eq, w):
        if V is None:
            n = st.copy()
            if loc: s.bind(n, loc, frozenset((v,)), w)
            return n
        keep = []
        for a in V:
            aa = mask(a, w) if isinstance(a, int) and w else a
            if s.atom_may_eq(st, aa, v): keep.append(a)
        if not keep: return None
        n = st.copy()
        if len(keep) == 1 and not isinstance(keep[0], int):
            if not s.refine_atom(n, keep[0], v): return None
        if loc:
            newV = frozenset((v,)) if not any(isinstance(a, tuple) and a[0] in ('fn', '&', 'a') for a in keep) else frozenset(keep)
            s.bind(n, loc, newV, w)
        return n

    def assume_not(s, st, V, loc, ex, w):
        if V is None: return st.copy()
        keep = []
        for a in V:
            if isinstance(a, int):
                if (mask(a, w) if w else a) not in ex: keep.append(a)
            elif isinstance(a, tuple) and a in st.eqs:
                if st.eqs[a] not in ex: keep.append(a)
            else: keep.append(a)
        if not keep: return None
        n = st.copy()
        if len(keep) == 1 and isinstance(keep[0], tuple):
            for v in ex:
                if not s.refine_atom(n, keep[0], v, False): return None
        if loc: s.bind(n, loc, frozenset(keep), w)
        return n

    def bind(s, n, loc, V, w):
        al = n.alias.get(loc)
        b, pa = loc
        if b[0] == 'L':
            n._d(b)[pa] = V
            seen = 0
            while al is not None and seen < 4:
                cur = n.read(al[0], al[1])
                if al[0][0] in ('L', 'S') :
                    n._d(al[0])[al[1]] = V if (cur is None or len(V) <= len(cur)) else cur
                al = n.alias.get(al); seen += 1

    # ---------- calls
    def do_call(s, fn, st, fid, b, t):
        callee = s.p.fns[t[2]] if isinstance(t[2], int) else None
        s.stack[-1] = (fn, t[1])
        if callee is None:
            V = s.scalar(st, fn, fid, t[3])
            r = s.h.on_indirect(s, st, fn, V, t, fid)
            if r is None and V is not None and all(isinstance(a, tuple) and a[0] == 'fn' for a in V) and V:
                outs = []
                for a in sorted(V):
                    outs += s.call_fn(fn, st.copy(), fid, b, t, s.p.fns[a[1]])
                return outs
            if r is None:
                s.havoc_call(st, fn, fid, t, None)
                r = [(st, None)]
            return s.finish(fn, fid, b, t, r)
        return s.call_fn(fn, st, fid, b, t, callee)

    def finish(s, fn, fid, b, t, outcomes):
        res = []
        for st, V in outcomes:
            if t[6] is None: continue
            if V != 'done':
                s.write_place(st, fn, fid, t[5], V, t[1])
            res += s.goto(fn, st, fid, b, t[6])
        return res

    def call_fn(s, fn, st, fid, b, t, callee):
        r = s.h.on_call(s, st, fn, callee, t, fid)
        if r is not None:
            return s.finish(fn, fid, b, t, r)
        r = s.model(st, fn, callee, t, fid)
        if r is not None:
            return s.finish(fn, fid, b, t, r)
        if t[6] is None:
            # diverging call
            s.h.on_panic(s, st, fn, t, 'diverge')
            return []
        if callee.blocks is not None and s.may_inline(callee):
            return s.inline(fn, st, fid, b, t, callee)
        s.havoced[callee.name] = s.havoced.get(callee.name, 0) + 1
        s.havoc_call(st, fn, fid, t, callee)
        return s.finish(fn, fid, b, t, [(st, None)])

    def may_inline(s, callee):
        if len(s.stack) > s.max_depth: return False
        if sum(1 for f, _ in s.stack if f is callee) >= 1: return False
        n = len(callee.blocks)
        if not callee.local and not callee.name.startswith('<') and n > s.foreign_blocks: return False
        if not callee.local and n > s.foreign_blocks: return False
        if n > s.inline_blocks: return False
        return s.h.want_inline(callee)

    def inline(s, fn, st, fid, b, t, callee):
        nf = fid + 1
        s.inlined.add(callee.id)
        s.pass_args(fn, st, fid, t, callee, nf)
        rs = s.exec(callee, st, nf)
        outs = []
        for r, _ in rs:
            dl, weak = s.resolve(r, fn, fid, t[5], t[1])
            if dl:
                for d in dl:
                    r.copy_tree(('L', nf, 0), (), d[0], d[1], weak)
                    s.h.on_write(s, r, fn, d[0], d[1], 'op', t[1])
            r.drop_frame(nf)
            if t[6] is not None:
                outs += s.goto(fn, r, fid, b, t[6])
        return outs

    def pass_args(s, fn, st, fid, t, callee, nf):
        args = t[4]
        is_clo = '{closure#' in callee.short and callee.kind != 'shim'
        if is_clo and len(args) == 2:
            at = s.p.op_ty(fn, args[1])
            if at is not None and s.p.tk(at)[0] == 'tuple':
                s.assign_op(st, fn, fid, [(('L', nf, 1), ())], False, args[0], t[1])
                n = len(s.p.tk(at)[1])
                if args[1][0] != 'k':
                    locs, _ = s.resolve(st, fn, fid, args[1][1])
                    for i in range(n):
                        if locs and len(locs) == 1:
                            st.copy_tree(locs[0][0], locs[0][1] + (str(i),), ('L', nf, 2 + i), ())
                        else:
                            st.write(('L', nf, 2 + i), (), None)
                else:
                    for i in range(n): st.write(('L', nf, 2 + i), (), None)
                return
        for i, a in enumerate(args):
            s.assign_op(st, fn, fid, [(('L', nf, i + 1), ())], False, a, t[1])

    def havoc_call(s, st, fn, fid, t, callee):
        """unknown effects through pointer arguments"""
        site = ('h', fn.id, t[1], callee.id if callee else -1)
        for a in t[4]:
            if a[0] == 'k': continue
            ty = s.p.op_ty(fn, a)
            k = s.p.tk(ty)
            if k[0] in ('ref', 'ptr') and k[2]:
                V = s.scalar(st, fn, fid, a)
                if V is None: continue
                for x in V:
                    if isinstance(x, tuple) and x[0] == '&' and x[1][0] == 'L':
                        st.forget(x[1], x[2]); st.kill_alias(x[1], x[2])
                        st._d(x[1])[x[2]] = None
                    elif isinstance(x, tuple) and x[0] == '&':
                        s.havoc_fields(st, callee, x[1], x[2], site)
                    elif isinstance(x, tuple) and x[0] == 'sym':
                        s.havoc_fields(st, callee, ('S', x), (), site)

    def havoc_fields(s, st, callee, base, path, site):
        mods = s.mods(callee) if callee is not None else None
        d = st.mem.get(base)
        if mods is None and path:
            # a part of the object: only that part is unknown afterwards
            st.forget(base, path); st.kill_alias(base, path)
            st._d(base)[path] = None
            return
        if mods is None:
            st.forget(base, path); st.kill_alias(base, path)
            st.tag[base] = site; st.fresh(base)
            return
        # forget entries that mention a field the callee may write
        if d:
            ks = [k for k in d if any(isinstance(e, str) and e in mods for e in k)]
            for k in ks:
                st.kill_alias(base, k)
                st._d(base)[k] = None

    _mods = None
    def mods(s, callee):
        """names of the fields a function may write (transitively), or None"""
        return None

    # ---------- models of a few library functions
    def model(s, st, fn, callee, t, fid):
        n = callee.defn
        sh = callee.short
        if callee.kind == 'intrinsic':
            return s.intrinsic(st, fn, callee, t, fid)
        if callee.local: return None
        a = t[4]
        if sh == 'is_null' and len(a) == 1:
            V = s.scalar(st, fn, fid, a[0], t[1])
            return [(st, s.binop('Eq', V, frozenset((0,)), None, None))]
        if sh == 'as_ptr' and len(a) == 1 and callee.blocks is None and 'str' in n:
            V = s.scalar(st, fn, fid, a[0], t[1])
            if V is not None and all(isinstance(x, tuple) and x[0] == 'sl' for x in V):
                return [(st, frozenset(x[1] for x in V))]
        if sh in ('null', 'null_mut') and not a:
            return [(st, frozenset((0,)))]
        if sh in ('offset', 'add', 'sub', 'wrapping_offset', 'wrapping_add', 'wrapping_sub') and len(a) == 2 and s.p.tk(s.p.op_ty(fn, a[0]))[0] == 'ptr':
            A = s.scalar(st, fn, fid, a[0], t[1]); B = s.scalar(st, fn, fid, a[1])
            if sh in ('sub', 'wrapping_sub') and B is not None:
                B = frozenset(mask(-x, 64) if isinstance(x, int) else x for x in B)
            return [(st, s.ptr_offset(A, B, s.p.pointee(s.p.op_ty(fn, a[0])), None))]
        if sh == 'cast' and len(a) == 1 and s.p.tk(s.p.op_ty(fn, a[0]))[0] == 'ptr':
            return [(st, s.scalar(st, fn, fid, a[0]))]
        if 'slice' in callee.name and sh in ('new', 'iter', 'iter_mut', 'into_iter', 'next', 'next_back'):
            r = s.model_iter(st, fn, callee, t, fid)
            if r is not None: return r
        if sh in ('borrow', 'borrow_mut') and 'RefCell' in n or ('RefCell' in callee.name and sh in ('borrow', 'borrow_mut')):
            return s.model_borrow(st, fn, callee, t, fid)
        return None

    def model_iter(s, st, fn, callee, t, fid):
        """walking over a short array of known length"""
        sh = callee.short
        if len(t[4]) != 1: return None
        V = s.scalar(st, fn, fid, t[4][0], t[1])
        if V is None or len(V) != 1: return None
        a = next(iter(V))
        dl, weak = s.resolve(st, fn, fid, t[5], t[1])
        if not dl or weak: return None
        if sh not in ('next', 'next_back'):
            if not (isinstance(a, tuple) and a[0] == 'sl' and isinstance(a[2], int) and a[2] <= 16 and isinstance(a[1], tuple) and a[1][0] in ('&', 'a')): return None
            sz = s.p.tsize(s.p.pointee(s.p.op_ty(fn, t[4][0])))
            if a[1][0] == 'a':
                k = s.p.tk(s.p.pointee(s.p.op_ty(fn, t[4][0])))
                sz = s.p.tsize(k[1]) if k[0] == 'slice' else None
                if sz is None: return None
            for b, pa in dl:
                st.write(b, pa, None)
                d = st._d(b)
                d[pa + ('#it',)] = frozenset((a,)); d[pa + ('#sz',)] = frozenset((sz or 0,))
                d[pa + ('#ix',)] = frozenset((0,)); d[pa + ('#en',)] = frozenset((a[2],))
            return [(st, 'done')]
        if not (isinstance(a, tuple) and a[0] == '&'): return None
        m = st.mem.get(a[1], {})
        if a[2] + ('#it',) not in m: return None
        f = {}
        for k in ('#it', '#sz', '#ix', '#en'):
            W = m.get(a[2] + (k,))
            if W is None or len(W) != 1: return None
            f[k] = next(iter(W))
        some = f['#ix'] < f['#en']
        P = None
        if some:
            i = f['#ix'] if sh == 'next' else f['#en'] - 1
            d = st._d(a[1])
            if sh == 'next': d[a[2] + ('#ix',)] = frozenset((i + 1,))
            else: d[a[2] + ('#en',)] = frozenset((i,))
            x = f['#it'][1]
            P = frozenset((('&', x[1], x[2] + (('i', i),)) if x[0] == '&' else ('a', x[1], x[2] + i * f['#sz']),))
        for b, pa in dl:
            st.write(b, pa, None)
            st._d(b)[pa + ('#',)] = frozenset((int(some),))
            if some: st._d(b)[pa + ('v:Some', '0')] = P
        return [(st, 'done')]

    def model_borrow(s, st, fn, callee, t, fid):
        """RefCell::borrow(_mut): a guard whose value points into the cell"""
        V = s.scalar(st, fn, fid, t[4][0], t[1])
        dl, weak = s.resolve(st, fn, fid, t[5], t[1])
        if not dl: return [(st, 'done')]
        P = None
        if V is not None:
            P = set()
            for x in V:
                if isinstance(x, tuple) and x[0] == '&': P.add(('&', x[1], x[2] + ('value', 'value')))
                elif isinstance(x, tuple) and x[0] == 'sym': P.add(('&', ('S', x), ('value', 'value')))
            P = frozenset(P) if P else None
        for b, pa in dl:
            st.write(b, pa, None)
            st._d(b)[pa + ('value', 'pointer')] = P
        return [(st, 'done')]

    def intrinsic(s, st, fn, callee, t, fid):
        sh = callee.short
        a = t[4]
        if sh == 'discriminant_value':
            V = s.scalar(st, fn, fid, a[0])
            if V is None: return [(st, None)]
            r = None
            for x in V:
                if isinstance(x, tuple) and x[0] == '&': W = st.read(x[1], x[2] + ('#',))
                elif isinstance(x, tuple) and x[0] == 'sym': W = st.read(('S', x), ('#',))
                elif isinstance(x, tuple) and x[0] == 'a': W = s.const_enum(fn, a[0], x)
                else: W = None
                if W is None: return [(st, None)]
                r = W if r is None else joinV(r, W)
                if r is None: break
            return [(st, r)]
        if sh in ('size_of', 'min_align_of', 'align_of', 'needs_drop'):
            if callee.args:
                z = s.p.tsize(callee.args[0])
                if sh == 'size_of' and z is not None: return [(st, frozenset((z,)))]
            return [(st, None)]
        if sh in ('likely', 'unlikely', 'black_box'):
            return [(st, s.scalar(st, fn, fid, a[0]))]
        if sh in ('assert_inhabited', 'assume', 'assert_zero_valid', 'cold_path'):
            return [(st, UNIT)]
        if sh in ('offset', 'arith_offset'):
            A = s.scalar(st, fn, fid, a[0], t[1]); B = s.scalar(st, fn, fid, a[1])
            return [(st, s.ptr_offset(A, B, s.p.pointee(s.p.op_ty(fn, a[0])), None))]
        if sh in ('transmute',):
            if callee.blocks is None:
                return [(st, s.scalar(st, fn, fid, a[0]))]
        if sh in ('abort',): return []
        if sh in ('wrapping_add', 'wrapping_sub', 'unchecked_add', 'unchecked_sub', 'unchecked_mul', 'wrapping_mul'):
            op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[sh.split('_')[1]]
            ty = s.p.op_ty(fn, a[0])
            return [(st, s.binop(op, s.scalar(st, fn, fid, a[0]), s.scalar(st, fn, fid, a[1]), ty, None))]
        if sh == 'three_way_compare': return [(st, None)]
        if callee.blocks is not None: return None
        if t[6] is None: return []
        s.havoc_call(st, fn, fid, t, callee)
        return [(st, None)]

    def const_enum(s, fn, op, x):
        t = s.p.op_ty(fn, op)
        pt = s.p.pointee(t)
        bs = s.p.alloc_bytes(x[1])
        z = s.p.tsize(pt)
        if bs is None or z is None: return None
        k = s.p.tk(pt)
        if k[0] == 'adt' and k[2] == 'enum' and all(not v[2] for v in k[4]):
            return frozenset((s.enum_norm(pt, int.from_bytes(bs[x[2]:x[2] + z], 'little'), z),))
        return None


NEG = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le'}
