"""Behaviour of one step of a function as a decision tree, compared path by path.

A specification is a Python function spec(g): g(name) asks for the value of a named condition (a handler
set or not, the result a callee reported, a field of an entity ...), the result is the observable outcome.
For every path the analysis finds, the outcome must be the one the specification gives for every value of
the conditions the path leaves open; and every outcome of the specification must be found on some path."""
from step import *


def pos(a):
    q = po_parts(a)
    if q and q[0] in POS and isinstance(q[1], int):
        n = {START: 's', END: 'e', BEND: 'b', MID: 'm', CEND: 'c', SKIP: 'k', TEXT: 't'}[q[0]]
        return n if q[1] == 0 else '%s%+d' % (n, q[1])
    return None


def rng(p, n):
    """[p, p+n) as text"""
    q = padd(p, n) if n != 0 else p
    a, b = pos(p), pos(q) if q is not None else None
    return '%s..%s' % (a, b) if a and b else None


class G:
    """conditions of one path; enumerates the open ones"""
    def __init__(s, look, domain, fixed):
        s.look = look; s.domain = domain; s.pre = fixed; s.asked = []

    def __call__(s, name):
        for n, v in s.asked:
            if n == name: return v
        c = s.look(name)
        if c is None: c = s.domain(name)
        c = tuple(c)
        i = len(s.asked)
        if i < len(s.pre): v = s.pre[i][1]
        else: v = c[0]
        s.opts = getattr(s, 'opts', []); s.opts.append((name, c))
        s.asked.append((name, v))
        return v


def outcomes(spec, look, domain):
    """all outcomes of the specification compatible with what is known"""
    out = {}
    work = [()]
    while work:
        pre = work.pop()
        g = G(look, domain, pre)
        o = spec(g)
        out.setdefault(o, tuple(g.asked))
        for i in range(len(pre), len(g.asked)):
            for v in g.opts[i][1][1:]:
                work.append(tuple(g.asked[:i]) + ((g.asked[i][0], v),))
    return out


POOL = {'store_c_string', 'append', 'append_char', 'append_c_string', 'copy_c_string', 'copy_c_string_n', 'finish_string', 'finish_string_cells', 'current_start',
        'clear_current', 'clear', 'current_slice', 'current_mut_slice', 'is_empty', 'replace_last_char', 'backtrack', 'get_last_char'}
POOLNAMES = ('pool', 'entityValuePool', 'm_tempPool', 'm_temp2Pool')


from step import CMP


REFS = ('predefinedEntityName', 'charRefNumber')


class CHooks(IterHooks):
    fuzzy = True
    tlen = None         # length of the name of the innermost open element

    def on_bin(s, ai, op, a, b, w, sg):
        if s.tlen is not None and op in CMP:
            x, y = [s.tlen if isinstance(v, tuple) and v[0] == 'sym' and v[1][0] in ('ld', 'fld') and v[1][2] and v[1][2][-1] == 'rawNameLength' else v for v in (a, b)]
            if isinstance(x, int) and isinstance(y, int): return int(CMP[op](x, y))
        return IterHooks.on_bin(s, ai, op, a, b, w, sg)

    # choices: {callee short: [(label, value)]}; value: int, frozenset, or ('#', int) for an enum result
    def __init__(s, p, tok, choices, quiet=(), mbpc=1, lookups=None, conv=0, **kw):
        IterHooks.__init__(s, p, tok, opaque=choices.keys(), **kw)
        s.choices = choices; s.quiet = set(quiet); s.mbpc = mbpc
        s.lookups = lookups or {}
        s.conv = conv
        s.cres = {k: to_signed(int(v), 64) for k, v in p.enum_discr(p.find_adt('XML_Convert_Result')).items()}

    def choose(s, ai, st, fn, fid, term, name, ch):
        k = 0
        while ('choice', name, k) in st.eqs: k += 1
        out = []
        for i, (lab, v) in enumerate(ch):
            t = st.copy() if i < len(ch) - 1 else st
            t.eqs[('choice', name, k)] = lab
            if isinstance(v, tuple) and v and v[0] == '#':
                dl, weak = ai.resolve(t, fn, fid, term[5], term[1])
                for d in dl or []:
                    t.write(d[0], d[1], None); t._d(d[0])[d[1] + ('#',)] = frozenset((v[1],))
                out.append((t, 'done'))
            else:
                if v is not None and not isinstance(v, frozenset): v = frozenset((v,))
                out.append((t, v))
        return out

    def on_call(s, ai, st, fn, callee, term, fid):
        n = callee.short
        if n in ('minBytesPerChar', 'MINBPC'): return [(st, frozenset((s.mbpc,)))]
        if n in ('isUtf8', 'isUtf16') and len(term[4]) == 1: return [(st, frozenset((int(not s.conv),)))]
        if n in ('utf8Convert', 'utf16Convert', 'xmlConvert', 'XmlUtf8Convert', 'XmlUtf16Convert') and len(term[4]) == 3:
            return s.convert(ai, st, fn, term, fid)
        if n == 'skipS' and len(term[4]) == 2:
            s.ev(st, ('call', n, s.args(ai, st, fn, fid, term), s.snap(ai, st)))
            return [(st, frozenset((SKIP,)))]
        if n in ('doCdataSection', 'doIgnoreSection') and n not in s.loops and n in s.choices: return s.cdata(ai, st, fn, callee, term, fid)
        if n in POOL and 'StringPool' in callee.name:
            r = s.pool(ai, st, fn, n, term, fid)
            if r is not None: return r
        if n in ('as_slice', 'as_mut_slice') and 'bumpalo' in callee.name:
            P = st.mem.get(('X', 'pool'), {}).get('cur')
            if P is not None: return [(st, frozenset((('sl', ('sym', ('str', P, s.gen(st, P), s.cur(st, P))), None),)))]
        ch = s.choices.get(n)
        if ch is not None and n not in s.loops:
            if s.more:
                r = s.more(s, ai, st, fn, callee, term, fid)
                if r is not None: return r
            if n in REFS and not s.reftext(n, s.args(ai, st, fn, fid, term)): s.ev(st, ('call', n, s.args(ai, st, fn, fid, term), s.snap(ai, st)))
            if n not in s.quiet:
                A = s.args(ai, st, fn, fid, term)
                s.ev(st, ('call', n, A, s.snap(ai, st)))
                s.forget_fields(st, s.mods.of(callee) if callee.blocks is not None else ())
                s.api_havoc(ai, st, ('h', n, term[1]))
                for a, t in zip(SummHooks.args(s, ai, st, fn, fid, term), term[4]):
                    if a is not None and len(a) == 1:
                        y = next(iter(a))
                        if isinstance(y, tuple) and y[0] == '&' and y[1][0] == 'L' and t[0] != 'k':
                            k = s.p.tk(s.p.op_ty(fn, t))
                            if k[0] in ('ref', 'ptr') and k[2]: st.write(y[1], y[2], None)
            return s.choose(ai, st, fn, fid, term, n, ch)
        if n == 'try_new' and 'Box' in callee.name and term[5]:
            return s.newbox(ai, st, fn, term, fid)
        # a lookup in one of the tables of declarations
        if s.lookups and n in ('get', 'get_mut') and 'HashMap' in callee.name:
            return s.lookup(ai, st, fn, callee, term, fid)
        return IterHooks.on_call(s, ai, st, fn, callee, term, fid)

    def reftext(s, n, A):
        """is what is looked at the text of the reference itself?"""
        try: (_, V), = A[1][1]; (_, q, l), = V
        except (ValueError, TypeError, IndexError): return False
        whole = ('pd', ('sym', ('tokend',)), START)
        if n == 'charRefNumber': return q == START and l in (whole, ('pd', ('sym', ('bufend',)), START))
        return (q, l) in ((START, whole), (('po', START, s.mbpc), ('lin', whole, -2 * s.mbpc)))

    def lookup(s, ai, st, fn, callee, term, fid):
        """a lookup in one of the tables of declarations: found / not found"""
        A = s.args(ai, st, fn, fid, term)
        kind = None
        if A[0] is not None and isinstance(A[0], frozenset) and len(A[0]) == 1:
            a = next(iter(A[0]))
            if isinstance(a, tuple):
                names = [x for x in (a[2] if a[0] == '&' else ()) if x in s.lookups]
                if names: kind = names[-1]
                elif isinstance(a, tuple):
                    names = [x for x in s.lookups if repr(x) in repr(a)]
                    if names: kind = names[-1]
        if kind is None: return None
        if kind in s.keyed:
            K = A[1]
            if isinstance(K, tuple) and K[0] == 'to': K = dict(K[2]).get(('0',))
            s.ev(st, ('call', 'lookup', (frozenset((('name', kind),)), K), s.snap(ai, st)))
        k = 0
        while ('choice', kind, k) in st.eqs: k += 1
        dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
        out = []
        ent = ('sym', ('found', kind, k)); cell = ('S', ('sym', ('cell', kind, k)))
        for lab in ('none', 'some'):
            t = st.copy() if lab == 'none' else st
            t.eqs[('choice', kind, k)] = lab
            for d in dl or []:
                t.write(d[0], d[1], None)
                t._d(d[0])[d[1] + ('#',)] = frozenset((int(lab == 'some'),))
                if lab == 'some':
                    t._d(d[0])[d[1] + ('v:Some', '0')] = frozenset((('&', cell, ()),))
                    t._d(cell)[('0', 'pointer', 'pointer')] = frozenset((ent,))
                    t.neq[ent] = frozenset((0,))
            out.append((t, 'done'))
        return out

    # -- the string pools -------------------------------------------------------------------------------------
    # the unfinished string of a pool and the finished ones are the pieces they were put together from;
    # a pool that is cleared starts a new generation
    def cur(s, st, P):
        v = st.mem.get(('X', 'pool'), {}).get(('cur', P), frozenset(((),)))
        return next(iter(v)) if v is not None and len(v) == 1 else None

    def gen(s, st, P):
        v = st.mem.get(('X', 'pool'), {}).get(('gen', P), frozenset((0,)))
        return next(iter(v)) if v is not None and len(v) == 1 else None

    def put(s, st, P, what, v):
        st._d(('X', 'pool'))[(what, P)] = frozenset((v,))

    def addp(s, st, P, *x):
        c = s.cur(st, P)
        st._d(('X', 'pool'))[('cur', P)] = None if c is None or len(c) > 24 else frozenset((c + x,))

    def pool(s, ai, st, fn, n, term, fid):
        A = SummHooks.args(s, ai, st, fn, fid, term)
        a = next(iter(A[0])) if A[0] and len(A[0]) == 1 else None
        P = None
        if isinstance(a, tuple):
            w = [x for x in POOLNAMES if repr(x) in repr(a)]
            if a[0] == '&': w = [x for x in a[2] if x in POOLNAMES][-1:] or w
            if w: P = w[-1]
            if P == 'pool' and 'm_dtd' not in repr(a) and 'ret' in repr(a): P = None
        if P is None: return None
        one = lambda i: next(iter(A[i])) if i < len(A) and A[i] and len(A[i]) == 1 else None
        def mem(ok):
            # an allocation may fail
            k = 0
            while ('choice', 'mem', k) in st.eqs: k += 1
            t = st.copy(); t.eqs[('choice', 'mem', k)] = 'fail'
            st.eqs[('choice', 'mem', k)] = 'ok'
            ok(st)
            return [(t, frozenset((0,))), (st, frozenset((1,)))]
        if n in ('store_c_string', 'append'):
            B = IterHooks.args(s, ai, st, fn, fid, term)[2]
            if isinstance(B, tuple) and B[0] == 'rec': B = dict(B[1]).get(('0',))
            b = next(iter(B)) if isinstance(B, frozenset) and len(B) == 1 else None
            x = ('r', b[1], b[2]) if isinstance(b, tuple) and b[0] == 'sl' else ('?',)
            return mem(lambda t: s.addp(t, P, x, ('z',)) if n == 'store_c_string' else s.addp(t, P, x))
        if n == 'append_char':
            c = one(1)
            return mem(lambda t: s.addp(t, P, ('z',) if c == 0 else ('c', c)))
        if n == 'append_c_string': return mem(lambda t: s.addp(t, P, ('s', one(1))))
        if n in ('copy_c_string', 'copy_c_string_n'):
            k = 0
            while ('choice', 'mem', k) in st.eqs: k += 1
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            out = []
            for lab in ('fail', 'ok'):
                t = st.copy() if lab == 'fail' else st
                t.eqs[('choice', 'mem', k)] = lab
                for d in dl or []:
                    t.write(d[0], d[1], None); t._d(d[0])[d[1] + ('#',)] = frozenset((int(lab == 'ok'),))
                    if lab == 'ok':
                        c = (s.cur(t, P) or ()) + ((('s', one(1)), ('z',)) if n == 'copy_c_string' else (('n', one(1), one(2)),))
                        t._d(d[0])[d[1] + ('v:Some', '0')] = frozenset((('sl', ('sym', ('str', P, s.gen(t, P), c)), None),))
                        s.put(t, P, 'cur', ())
                out.append((t, 'done'))
            return out
        if n in ('finish_string', 'finish_string_cells'):
            y = ('sym', ('str', P, s.gen(st, P), s.cur(st, P)))
            st.neq[y] = frozenset((0,))
            s.put(st, P, 'cur', ())
            return [(st, frozenset((('sl', y, None),)))]
        if n == 'current_start':
            y = ('sym', ('str', P, s.gen(st, P), s.cur(st, P)))
            st.neq[y] = frozenset((0,))
            return [(st, frozenset((y,)))]
        if n == 'clear_current':
            s.put(st, P, 'cur', ()); return [(st, None)]
        if n == 'clear':
            s.put(st, P, 'cur', ()); g = s.gen(st, P)
            s.put(st, P, 'gen', None if g is None else g + 1); return [(st, None)]
        if n in ('current_slice', 'current_mut_slice'):
            st._d(('X', 'pool'))['cur'] = P
            return None
        if n == 'is_empty':
            c = s.cur(st, P)
            return [(st, frozenset((int(not c),)) if c is not None else None)]
        if n == 'get_last_char':
            c = s.cur(st, P)
            return [(st, frozenset((c[-1][1],)) if c and c[-1][0] == 'c' else None)]
        if n in ('replace_last_char', 'backtrack'):
            c = s.cur(st, P)
            if c: s.put(st, P, 'cur', (c[:-1] if c[-1][0] in 'cz' else c + (('chop',),)) + ((('c', one(1)),) if n != 'backtrack' else ()))
            return [(st, None)]
        return None

    def newbox(s, ai, st, fn, term, fid):
        """allocation of a record: fails, or a record of its own"""
        dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
        s.n += 1
        out = []
        for lab in ('fail', 'ok'):
            t = st.copy() if lab == 'fail' else st
            for d in dl or []:
                t.write(d[0], d[1], None)
                t._d(d[0])[d[1] + ('#',)] = frozenset((int(lab == 'fail'),))
                if lab == 'ok': t._d(d[0])[d[1] + ('v:Ok', '0', '0', 'pointer', 'pointer')] = frozenset((('sym', ('box', s.n)),))
            out.append((t, 'done'))
        return out

    pieces = ('one', 'two')
    keyed = ()

    def convert(s, ai, st, fn, term, fid):
        """conversion into the fixed buffer: everything fits, or the data is converted in two pieces"""
        A = SummHooks.args(s, ai, st, fn, fid, term)
        F = next(iter(A[1])) if A[1] and len(A[1]) == 1 else None
        T = next(iter(A[2])) if A[2] and len(A[2]) == 1 else None
        if not (isinstance(F, tuple) and F[0] == '&' and isinstance(T, tuple) and T[0] == '&'):
            return None
        fv, tv = st.read(F[1], F[2] + ('0',)), st.read(T[1], T[2] + ('0',))
        if not fv or len(fv) != 1: return None
        f, t = next(iter(fv)), next(iter(tv)) if tv and len(tv) == 1 else None
        if not (isinstance(f, tuple) and f[0] == 'sl'): return None
        P = f[1]; Q = padd(P, f[2]) if f[2] != 0 else P
        D = t[1] if isinstance(t, tuple) and t[0] == 'sl' else t
        if P not in (START, MID): s.ev(st, ('call', 'convert', (fv,), s.snap(ai, st)))
        out = []
        for lab in (s.pieces if P == START else ('one',)):
            x = st.copy() if lab != s.pieces[-1] and P == START else st
            if P == START: x.eqs[('choice', 'pieces', 0)] = lab
            R = MID if lab == 'two' else Q
            x.write(F[1], F[2] + ('0',), frozenset((('sl', R, lin_add(('pd', po_parts(Q)[0], R), po_parts(Q)[1]) if R != Q else 0),)))
            n = ('sym', ('conv', P, R))
            D2 = padd(D, n) if D is not None else None
            if D2 is None: x.write(T[1], T[2] + ('0',), None)
            else: x.write(T[1], T[2] + ('0',), frozenset((('sl', D2, None),)))
            dl, weak = ai.resolve(x, fn, fid, term[5], term[1])
            for d in dl or []:
                x.write(d[0], d[1], None)
                x._d(d[0])[d[1] + ('#',)] = frozenset((s.cres['OUTPUT_EXHAUSTED' if lab == 'two' else 'COMPLETED'],))
            out.append((x, 'done'))
        return out

    def cdata(s, ai, st, fn, callee, term, fid):
        """a CDATA section within content: an error, the section ends at a later position, or its end has not been seen"""
        A = s.args(ai, st, fn, fid, term)
        R = SummHooks.args(s, ai, st, fn, fid, term)
        F = next(iter(R[2])) if R[2] and len(R[2]) == 1 else None
        if not (isinstance(F, tuple) and F[0] == '&'): return None
        b = st.read(F[1], F[2] + ('v:Some', '0', '0'))
        s.ev(st, ('call', callee.short, (A[0], A[1], b) + A[3:], s.snap(ai, st)))
        s.forget_fields(st, s.mods.of(callee))
        s.api_havoc(ai, st, ('h', callee.short, term[1]))
        out = []
        for lab in ('err', 'more', 'closed'):
            x = st.copy() if lab != 'closed' else st
            x.eqs[('choice', callee.short, 0)] = lab
            x.write(F[1], F[2], None)
            x._d(F[1])[F[2] + ('#',)] = frozenset((int(lab == 'closed'),))
            if lab == 'closed': x._d(F[1])[F[2] + ('v:Some', '0', '0')] = frozenset((('sl', CEND, ('pd', BEND, CEND)),))
            dl, weak = ai.resolve(x, fn, fid, term[5], term[1])
            for d in dl or []:
                x.write(d[0], d[1], None); x._d(d[0])[d[1] + ('#',)] = frozenset((8 if lab == 'err' else 0,))
            out.append((x, 'done'))
        return out

    def snap(s, ai, st):
        r = [st.read(PB, (f,)) for f in ('m_eventPtr', 'm_eventEndPtr')]
        return tuple(r) + (st.read(PB, STP), s.internal(st), tuple((P, s.gen(st, P)) for P in POOLNAMES),
                           next((st.read(('S', ('sym', ('found', k, 0))), ('open',)) for k in s.lookups if st.eqs.get(('choice', k, 0)) == 'some'), None),
                           st.read(DB, ('value', 'paramEntityRead', 'value')))

    def internal(s, st):
        b = st.read(PB, ('m_openInternalEntities',))
        if not b or len(b) != 1: return None
        B = ('S', next(iter(b)))
        return (st.read(B, ('internalEventPtr',)), st.read(B, ('internalEventEndPtr',)))


GENS = None         # generation of each pool at the moment of the event


def val(a, names=None):
    """a value as text"""
    if isinstance(a, int): return str(to_signed(a, 64) if a >> 63 else to_signed(a, 32) if a >> 31 and a < 1 << 32 else a)
    p_ = pos(a)
    if p_: return p_
    if isinstance(a, tuple):
        if a[0] == 'pd': return '%s-%s' % (pos(a[1]), pos(a[2]))
        if a[0] == 'name': return a[1]
        if a[0] == 'lin': return '%s%+d' % (val(a[1]), a[2])
        if a[0] == 'sl' and isinstance(a[1], tuple) and a[1][0] == 'a' and PROG is not None: return static_text(a[1])
        if a[0] == 'sl': return (rng(a[1], a[2]) if a[2] is not None else None) or ('%s*%s' % (val(a[1]), val(a[2])) if isinstance(a[1], tuple) and a[1][0] == 'sym' and a[1][1][0] in ('fld', 'ld') and a[2] is not None else None) or (val(a[1]) if isinstance(a[1], tuple) and a[1][0] == 'sym' and a[1][1][0] == 'str' else '?')
        if a[0] == 'sym':
            k = a[1]
            if k[0] == 'str': return text(k[3]) if GENS is None or GENS.get(k[1]) == k[2] else 'a string no longer valid'
            if k[0] == 'arg': return 'arg%d' % k[1]
            if k[0] == 'trunc' and k[2] >= 32 and k[1][0] in ('plen', 'lin'): return val(k[1] if k[1][0] == 'lin' else ('sym', k[1]))
            if k[0] == 'plen': return 'length of ' + text(k[1])
            if k[0] == 'made': return 'made.' + k[1]
            if k[0] == 'part': return 'part'
            if k[0] in ('entity', 'oie', 'inner', 'tok2', 'tokend2', 'box'): return k[0]
            if k[0] == 'found': return 'found.%s' % k[1]
            if k[0] == 'ld': return dotted('' if k[1] == PB else base_name(k[1]), k[2])
            if k[0] == 'fld': return dotted(val(('sym', k[1])), k[2])
            if k[0] == 'after': return str(k[1])
            if k[0] == 'hnd': return k[1]
            if k[0] == 'pure': return k[1]
            if k[0] == 'ret': return 'ret.' + k[1]
        if a[0] == 'a' and PROG is not None: return static_text(a)
        if a[0] == '&' and a[1][0] == 'S': return '&' + dotted(base_name(a[1]), a[2])
    return '?'


PROG = None


def const_bytes(a):
    """the bytes of a constant of the program, from where a points"""
    al = PROG.allocs[a[1]]
    if al[0] != 'mem' or not isinstance(a[2], int): return None
    return bytes.fromhex(al[1].replace('__', '00'))[a[2]:]


def static_text(a):
    """a constant string of the program"""
    b = const_bytes(a)
    if b is None: return '?'
    return '<%s>' % b.split(b'\0')[0].decode('latin-1') if 0 in b else '<%s|' % b.decode('latin-1')


def text(c):
    """a string put together in a pool; |: not terminated"""
    if c is None: return '?'
    r = []
    for x in c:
        if x[0] == 'r': r.append(rng(x[1], x[2]) if x[1] is not None and x[2] is not None and rng(x[1], x[2]) else '%s*%s' % (val(x[1]), val(x[2])))
        elif x[0] == 'c': r.append(chr(x[1] & 255) if isinstance(x[1], int) and x[1] & 255 > 32 else "'%s'" % val(x[1]))
        elif x[0] == 's': r.append('copy(%s)' % val(x[1]))
        elif x[0] == 'n': r.append('copy(%s,%s)' % (val(x[1]), val(x[2])))
        elif x[0] == 'z': r.append('0')
        elif x[0] == 'v': r.append(x[1])
        elif x[0] == 'chop': r.append('<-')
        else: r.append('?')
    if r and r[-1] == '0': return '<%s>' % ' '.join(r[:-1])
    return '<%s|' % ' '.join(r)


def dotted(b, path):
    return '.'.join([b] * bool(b) + [str(x) for x in path if x not in ('value', '0', 'pointer', '#', 'v:Some', 'inner', 'ptr')])


def base_name(b):
    if b == PB: return 'P'
    if b[0] == 'S': return val(b[1])
    return '?'


def vals(V):
    if V is None: return '?'
    if isinstance(V, frozenset): return '|'.join(sorted(val(a) for a in V))
    if V[0] == '#': return vals(V[1])
    if V[0] == 'rec': 
        d = dict(V[1])
        if set(d) == {('0',)}: return vals(d[('0',)])
        return '{%s}' % ','.join('%s=%s' % ('.'.join(map(str, k)), vals(x)) for k, x in V[1])
    if V[0] == 'to':
        d = dict(V[2])
        if any(k and isinstance(k[0], str) and k[0] not in ('0', '#') for k in d):
            return '{%s}' % ','.join('%s=%s' % ('.'.join(map(str, k)), vals(d[k])) for k in sorted(d, key=str))
        return '[%s]' % ','.join(vals(d[k]) for k in sorted(d, key=str) if k and k[0][0] == 'i')
    return '?'


def data_arg(P, N):
    """(pointer, length) as the text they cover"""
    if N and isinstance(N, frozenset) and len(N) == 1:
        n = next(iter(N))
        if isinstance(n, tuple) and n[0] == 'sym' and n[1][0] == 'trunc': n = ('sym', n[1][1])
        if isinstance(n, tuple) and n[0] == 'sym' and n[1][0] == 'conv':
            b = vals(P)
            return '%sconv(%s..%s)' % ('' if 'm_dataBuf' in b or b == '?' else b + '*', pos(n[1][1]), pos(n[1][2]))
    if P is not None and isinstance(P, frozenset) and len(P) == 1 and N and len(N) == 1:
        n = next(iter(N))
        r = rng(next(iter(P)), n)
        if r: return r
        p, n = next(iter(P)), next(iter(N))
        if isinstance(p, tuple) and p[0] == 'a' and isinstance(n, int) and PROG is not None and n <= 8:
            b = const_bytes(p)
            if b is not None and len(b) >= n: return '[%s]*%d' % (','.join(str(x) for x in b[:n]), n)
    if isinstance(P, tuple) and P[0] == 'to':
        n = next(iter(N)) if N and isinstance(N, frozenset) and len(N) == 1 else None
        d = dict(P[2])
        if isinstance(n, int) and n <= 8 and all(k and k[0][0] == 'i' for k in d): P = P[:2] + (tuple(sorted(P[2], key=str)[:n]),)
        return vals(P) + ('' if N is None else '*' + vals(N))
    return '%s*%s' % (vals(P), vals(N))


NAMELEN = 3         # the length given to the name at hand


class Conds:
    """what a path knows: choices made, fields tested"""
    def __init__(s, st):
        s.choice = {}; s.field = {}
        for k, v in st.eqs.items():
            if k[0] == 'choice': s.choice[(k[1], k[2])] = v
            else: s.note(k, v)
        for k, v in st.neq.items():
            if 0 in v: s.note(k, 1, True)
            elif k[0] == 'sym' and k[1][0] in ('ld', 'fld') and NAMELEN in v: s.note(k, 'other')
            elif 1 in v and k[0] == 'sym' and k[1][0] == 'fld' and k[1][2] == ('#',): s.note(k, 0)

    def note(s, k, v, ne=False):
        if k[0] != 'sym': return
        k = k[1]; n = None
        if k[0] == 'hnd' : return
        if k[0] == 'fld' and k[1][0] == 'hnd': n = k[1][1]
        elif k[0] == 'after': n = 'after:' + str(k[1])
        elif k[0] == 'ld': n = [x for x in k[2] if isinstance(x, str) and x not in ('value', '#', '0', 'pointer')]
        elif k[0] == 'fld': n = [x for x in k[2] if isinstance(x, str) and x not in ('value', '#', '0', 'pointer')]
        if n == [] and k[0] == 'fld' and k[1][0] == 'ld': n = [x for x in k[1][2] if isinstance(x, str) and x not in ('value', '#', '0', 'pointer')]
        if isinstance(n, list): n = n[-1] if n else None
        if n: s.field[n] = bool(v) if ne else v
