"""Program model over the facts dumped by the rustc driver."""
import re
import facts as _facts

SIGNED = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
UNSIGNED = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'bool': 8, 'char': 32}
WIDTH = dict(SIGNED); WIDTH.update(UNSIGNED)


class Fn:
    __slots__ = ('id', 'name', 'defn', 'sym', 'kind', 'vidx', 'local', 'file', 'line', 'args', 'sig',
                 'argc', 'locals', 'names', 'spread', 'blocks', 'short', 'prog', '_preds', '_rpo', '_callees', 'generic_args', '_heads')

    def __init__(s, d, prog):
        s.prog = prog
        s.id = d['id']; s.name = d['name']; s.defn = d['def']; s.sym = d['sym']; s.kind = d['kind']
        s.vidx = d.get('vidx'); s.local = d['local']; s.file = d['file']; s.line = d['line']
        s.args = d['args']; s.sig = d.get('sig')
        s.argc = d.get('argc', 0); s.locals = d.get('locals'); s.names = d.get('names', [])
        s.spread = d.get('spread'); s.blocks = d.get('blocks')
        s.short = short_name(s.defn)
        s._preds = None; s._rpo = None; s._callees = None

    def __repr__(s):
        return '<fn %d %s>' % (s.id, s.name)

    def succs(s, b):
        t = s.blocks[b][1]
        k = t[0]
        if k == 'goto': return [t[2]]
        if k == 'switch': return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop': return [t[3]]
        if k == 'call': return [t[6]] if t[6] is not None else []
        if k == 'assert': return [t[5]]
        return []

    @property
    def rpo(s):
        """reverse post-order number of each reachable block"""
        if s._rpo is None:
            seen = set(); order = []
            st = [(0, iter(s.succs(0)))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for n in it:
                    if n not in seen:
                        seen.add(n); st.append((n, iter(s.succs(n)))); break
                else:
                    order.append(b); st.pop()
            order.reverse()
            s._rpo = {b: i for i, b in enumerate(order)}
        return s._rpo

    @property
    def loop_heads(s):
        if getattr(s, '_heads', None) is None:
            r = s.rpo
            s._heads = frozenset(t for b in r for t in s.succs(b) if t in r and r[t] <= r[b])
        return s._heads

    def where(s, line=None):
        return '%s:%s in %s' % (s.file, line if line is not None else s.line, s.short)


def short_name(n):
    """the last path component (plus ::{closure#k})"""
    m = re.search(r'((?:[A-Za-z0-9_]+)(?:::\{closure#\d+\})*)$', n)
    return m.group(1) if m else n


class Prog:
    def __init__(s, kind='lib', features=()):
        d = _facts.load(kind, features)
        s.kind = kind
        s.types = d['types']
        s.allocs = d['allocs']
        s.vtables = d['vtables']
        s.statics = d['statics']
        s.static_by_name = {x['name']: x for x in s.statics}
        s.fns = [Fn(f, s) for f in d['fns']]
        s.items = d['items']
        s.adts = d['adts']
        s.generic = d['generic']
        s._tn = [t[2] for t in s.types]
        s._adtcache = {}
        s.by_short = {}
        for f in s.fns:
            s.by_short.setdefault(f.short, []).append(f)

    # ---- types
    def tk(s, t): return s.types[t][0]
    def tsize(s, t): return s.types[t][1]
    def tname(s, t): return s.types[t][2]
    def pointee(s, t):
        k = s.types[t][0]
        if k[0] in ('ref', 'ptr'): return k[1]
        if k[0] == 'adt' and k[1].endswith('::Box') or (k[0] == 'adt' and k[1] == 'alloc::boxed::Box'): return k[3][0]
        return None
    def adt(s, t):
        k = s.types[t][0]
        return k if k[0] == 'adt' else None
    def adt_name(s, t):
        k = s.types[t][0]
        return k[1] if k[0] == 'adt' else None
    def fields(s, t, variant=0):
        k = s.types[t][0]
        if k[0] == 'adt' and k[4]: return k[4][variant][2]
        return []
    def field_name(s, t, i, variant=0):
        f = s.fields(t, variant)
        return f[i][0] if i < len(f) else str(i)
    def find_adt(s, suffix):
        for i, t in enumerate(s.types):
            if t[0][0] == 'adt' and (t[0][1] == suffix or t[0][1].endswith('::' + suffix)):
                return i
        return None
    def find_adts(s, suffix):
        return [i for i, t in enumerate(s.types)
                if t[0][0] == 'adt' and (t[0][1] == suffix or t[0][1].endswith('::' + suffix))]
    def enum_discr(s, t):
        """variant name -> discriminant (as written, signed)"""
        k = s.types[t][0]
        return {v[0]: int(v[1]) for v in k[4]}
    def int_width(s, t):
        k = s.types[t][0]
        if k[0] == 'int': return WIDTH[k[1]]
        return None
    def is_signed(s, t):
        k = s.types[t][0]
        return k[0] == 'int' and k[1] in SIGNED

    # ---- functions
    def fn_named(s, short, local=True):
        return [f for f in s.by_short.get(short, []) if (f.local or not local)]
    def one(s, short):
        l = [f for f in s.fn_named(short) if f.blocks is not None]
        if len(l) != 1:
            raise AnchorError('expected exactly one function named %s, found %d' % (short, len(l)))
        return l[0]
    def exported(s):
        """no_mangle functions: symbol == last path component"""
        return [f for f in s.fns if f.local and f.blocks is not None and f.sym == f.short and f.kind == 'item']

    def place_ty(s, fn, place):
        t = fn.locals[place[0]]
        var = 0
        for e in place[1:]:
            if e == '*':
                t = s.pointee(t)
                var = 0
            elif e[0] == 'f':
                t = e[2]; var = 0
            elif e[0] in ('i', 'ci'):
                t = s.types[t][0][1]
            elif e[0] == 'ss':
                k = s.types[t][0]
                t = t
            elif e[0] == 'd':
                var = e[1]
            if t is None: return None
        return t
    def op_ty(s, fn, op):
        if op[0] in ('c', 'm'): return s.place_ty(fn, op[1])
        if op[0] == 'k': return op[1]
        return None

    def callee(s, term):
        """Fn of a direct call, or None"""
        c = term[2]
        return s.fns[c] if isinstance(c, int) else None

    def const_bytes(s, op):
        h = op[2]
        if h is None or 'x' in h or h.startswith('big'): return None
        return bytes.fromhex(h)

    def const_int(s, op):
        if op[0] != 'k' or op[3]: return None
        b = s.const_bytes(op)
        if not b: return None
        k = s.types[op[1]][0]
        if k[0] in ('int',) or (k[0] in ('ptr',) and len(b) == 8) or (k[0] == 'adt' and k[2] == 'enum' and all(not v[2] for v in k[4])):
            return int.from_bytes(b, 'little')
        return None

    def alloc_bytes(s, a):
        e = s.allocs[a]
        if e[0] == 'mem':
            h = e[1]
            if h.startswith('big'): return None
            return bytes.fromhex(h.replace('xx', '00'))
        if e[0] == 'static':
            st = s.static_by_name.get(e[1])
            if st and st['init'][0] is not None: return bytes.fromhex(st['init'][0].replace('xx', '00'))
        return None


class AnchorError(Exception):
    """The analysed program lacks something the rule is anchored on."""
