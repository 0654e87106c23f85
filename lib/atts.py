"""A start tag in a given situation (attributes written, declared, bindings in force), run symbolically and compared with what is demanded."""
from strs import *
from tables import Tables

ERRNO = {'DUPLICATE_ATTRIBUTE': 8, 'UNBOUND_PREFIX': 27, 'REFUSED': 40}
SELF = ('sym', ('arg', 1)); TAG = ('sym', ('arg', 4)); LIST = ('sym', ('arg', 5)); SB = ('S', SELF)
SEP = ord('|')
OPENS = [('sym', ('open element', k)) for k in range(4)]; OLDPOS = ('sym', ('position before',))


def pre(n): return n.split(':')[0] if ':' in n else None


class Sc:
    """one situation: the attributes written in the tag, those declared for the element type, bindings in force"""
    def __init__(s, atts=(), defaults=(), element='e', ns=True, triplets=False, sep=SEP, idatt=None, bound=(), raw=(), missing=False, refuse=None, internal=False, elsewhere=(), room=True):
        s.atts = list(atts); s.defaults = list(defaults); s.element = element; s.ns = ns; s.triplets = triplets; s.sep = sep
        s.idatt = idatt; s.bound = dict(bound); s.raw = set(raw); s.missing = missing; s.refuse = refuse; s.internal = internal; s.elsewhere = set(elsewhere); s.room = room
        s.names = list(dict.fromkeys(s.atts + [d[0] for d in s.defaults] + ([idatt] if idatt else [])))

    def decl(s, n): return s.ns and (n == 'xmlns' or n.startswith('xmlns:'))

    def prefix(s, n):
        """the prefix an attribute name has or declares"""
        if not s.ns: return None
        if n == 'xmlns': return ''
        if n.startswith('xmlns:'): return n[6:]
        return pre(n)

    def __str__(s):
        a = ' '.join(s.atts); d = ' '.join('%s%s%s' % (n, '' if c else ' (tokens)', '' if v else ' (no value)') for n, c, v in s.defaults)
        w = []
        if d: w.append('declared ' + d)
        if s.idatt: w.append('with ID attribute ' + s.idatt)
        if s.bound: w.append('where ' + ' '.join('%s is %s' % (k or 'the default', v) for k, v in sorted(s.bound.items())))
        if not s.ns: w.append('without namespaces')
        if s.triplets: w.append('with triplets')
        if not s.sep: w.append('without separator')
        if s.missing: w.append('of an element type not seen before')
        if s.refuse: w.append('with %s refused' % s.refuse)
        if s.internal: w.append('in an entity')
        return '<%s%s> %s' % (s.element, ' ' + a if a else '', ', '.join(w))


def open_name(sc, k):
    return ('sym', ('uri', pre(sc.element) or '', 0)) if k in (0, 2) else ('sym', ('name of an open element', k))


def nid(n): return ('sym', ('attribute', n))
def nstr(n): return ('sym', ('typed name', n))
DP = (('S', ('sym', ('fld', ('ld', ('S', SELF), ('m_dtd', 'ptr'), None), ('pointer',)))), ('value', 'defaultPrefix', 'value'))
def pfx(n): return ('sym', ('prefix', n)) if n else ('&',) + DP
def pset(st, n, f, v):
    b, pa = (('S', pfx(n)), ()) if n else DP
    st._d(b)[pa + (f,)] = frozenset((v,))


def value_of_default(n): return ('sym', ('default value', n))


class Oracle:
    """what the property demands for a situation"""
    def __init__(s, sc):
        s.error = None; s.out = []; s.count = s.index = None; s.binds = []; s.eventpos = None
        seen = []
        uri = dict(sc.bound)
        def bind(n, val):
            pf = sc.prefix(n)
            s.binds.append((pf, n))
            u = 'U' + n if val != '' else ''
            uri[pf] = None if (u == '' and pf == '') else u
        for i, n in enumerate(sc.atts):
            if n in seen: s.error = 'DUPLICATE_ATTRIBUTE'; s.eventpos = i; return
            seen.append(n)
            if sc.decl(n):
                bind(n, 'U')
                if sc.refuse == n: s.error = 'REFUSED'; return
            else: s.out.append((n, ('specified', i)))
        s.count = 2 * len(s.out)
        s.index = -1
        for k, (n, _) in enumerate(s.out):
            if n == sc.idatt: s.index = 2 * k
        for n, c, v in sc.defaults:
            if n in seen or not v: continue
            seen.append(n)
            if sc.decl(n):
                bind(n, 'U')
                if sc.refuse == n: s.error = 'REFUSED'; return
            else: s.out.append((n, ('default', n)))
        names = []; full = set()
        for n, v in s.out:
            if sc.ns and pre(n) is not None:
                u = uri.get(pre(n))
                if u is None: s.error = 'UNBOUND_PREFIX'; return
                x = u + (chr(sc.sep) if sc.sep else '') + n.split(':')[1]
                if x in full: s.error = 'DUPLICATE_ATTRIBUTE'; return
                full.add(x)
                if sc.triplets: x += chr(sc.sep) + pre(n)
                names.append((x, v))
            else: names.append((n, v))
        s.out = names
        s.tag = None
        if sc.ns:
            pf = pre(sc.element) or ''
            u = uri.get(pf)
            if u is None:
                if pf: s.error = 'UNBOUND_PREFIX'; return
            else:
                local = sc.element.split(':')[-1]
                u += chr(sc.sep) if sc.sep else ''
                t = u + local
                pl = 0
                if sc.triplets and pf: t += chr(sc.sep) + pf; pl = len(pf) + 1
                s.tag = (t, len(u), pf, pl, local)


def type_of_value(sc, n):
    """True: CDATA"""
    for d, c, v in sc.defaults:
        if d == n: return c
    return True


OWN = ('attribute', 'typed name', 'default value', 'binding', 'uri', 'prefix', 'prefix name', 'tag name', 'element type', 'open element', 'name of an open element', 'str', 'new', 'att name', 'value', 'value end')


def storage_eq(ai, st, x, y, want):
    """things of their own lie at addresses of their own"""
    def own(a):
        if isinstance(a, tuple) and a[0] == 'po': a = a[1]
        return a if isinstance(a, tuple) and a[0] == 'sym' and isinstance(a[1], tuple) and a[1][0] in OWN else None
    a, b = own(x), own(y)
    if a is not None and b is not None and a != b or x == 0 and b is not None or y == 0 and a is not None: return not want
    return remember_eq(ai, st, x, y, want)


def run_atts(p, sc, fn, clo):
    """clo: the body run for each attribute"""
    et = ('sym', ('element type',)); tn = ('sym', ('tag name',))
    def binding_name(u): return [ord(c) for c in u] + ([sc.sep] if sc.sep else [])

    def new_binding(st, pf, u, k, attid, nxt):
        b = ('sym', ('binding', pf, k)); us = ('sym', ('uri', pf, k))
        st.neq[b] = frozenset((0,))
        d = st._d(('S', b))
        put(st, us, binding_name(u))
        for f, v in (('prefix', pfx(pf)), ('uri', us), ('uriLen', len(binding_name(u))), ('attId', attid), ('nextTagBinding', nxt), ('uriAlloc', room(pf, u))): d[(f,)] = frozenset((v,))
        return b

    def room(pf, u):
        local = sc.element.split(':')[-1]; n = len(binding_name(u)) + len(local) + 1 + (len(pf) + 1 if sc.triplets and pf else 0)
        return n if sc.room else n - 1

    def setup(ai, st, f):
        for q in (SELF, TAG, LIST, et): st.neq[q] = frozenset((0,))
        st.eqs[('sym', ('fld', ('arg', 2), ('#',)))] = int(sc.internal)
        d = st._d(SB)
        d[('m_eventPtr',)] = frozenset((OLDPOS,))
        for k, v in (('m_ns', int(sc.ns)), ('m_ns_triplets', int(sc.triplets)), ('m_namespaceSeparator', sc.sep), ('m_idAttIndex', 77), ('m_nSpecifiedAtts', 78)): d[(k,)] = frozenset((v,))
        for v in ('m_atts', 'typed_atts'): d[(v, '#len')] = frozenset((2,))      # left over from an earlier tag
        st._d(('S', TAG))[('str_0',)] = frozenset((tn,))
        put(st, tn, [ord(c) for c in sc.element] + [0])
        st._d(('S', LIST))[()] = frozenset((0,))
        e = st._d(('S', et))
        e[('name',)] = frozenset((tn,)); e[('prefix',)] = frozenset((pfx(pre(sc.element)) if sc.ns and pre(sc.element) and not sc.missing else 0,))
        e[('idAtt',)] = frozenset((nid(sc.idatt) if sc.idatt and not sc.missing else 0,))
        e[('defaultAtts', '#len')] = frozenset((len(sc.defaults),))
        for k, (n, c, v) in enumerate(sc.defaults):
            w = (('i', k),)
            e[('defaultAtts',) + w + ('id',)] = frozenset((nid(n),)); e[('defaultAtts',) + w + ('isCdata',)] = frozenset((int(c),))
            e[('defaultAtts',) + w + ('value',)] = frozenset((value_of_default(n) if v else 0,))
            if v:
                st.neq[value_of_default(n)] = frozenset((0,))
                put(st, value_of_default(n), [ord(c) for c in 'U' + n] + [0])
        for n in sc.names:
            a = st._d(('S', nid(n))); st.neq[nid(n)] = frozenset((0,))
            a[('name', '0')] = frozenset((nstr(n),)); put(st, nstr(n), [0] + [ord(c) for c in n] + [0])
            pf = sc.prefix(n)
            a[('prefix',)] = frozenset((pfx(pf) if pf is not None else 0,)); a[('xmlns',)] = frozenset((int(sc.decl(n)),))
            a[('maybeTokenized',)] = frozenset((int(n in sc.elsewhere or any(x == n and not c for x, c, v in sc.defaults)),))
        for pf in {'', 'p', 'q'} | set(sc.bound):
            if pf:
                st.neq[pfx(pf)] = frozenset((0,))
                nm = ('sym', ('prefix name', pf)); pset(st, pf, 'name', nm); put(st, nm, [ord(c) for c in pf] + [0])
            else: pset(st, pf, 'name', 0)
            u = sc.bound.get(pf)
            pset(st, pf, 'binding', new_binding(st, pf, u, 0, ('sym', ('outer attribute',)), 0) if u is not None else 0)
        # elements are open, the names of some were built in the binding of the element's prefix
        d[('m_tagStack', '#')] = frozenset((1,))
        d[('m_tagStack', 'v:Some', '0', '0', 'pointer', 'pointer')] = frozenset((OPENS[0],))
        for k, T in enumerate(OPENS):
            st.neq[T] = frozenset((0,)); e = st._d(('S', T))
            e[('name', 'str_0')] = frozenset((open_name(sc, k),))
            e[('parent', '#')] = frozenset((int(k + 1 < len(OPENS)),))
            if k + 1 < len(OPENS): e[('parent', 'v:Some', '0', '0', 'pointer', 'pointer')] = frozenset((OPENS[k + 1],))

    def given(st, ai, fn, fid, term):
        i = sum(1 for e in st.q or () if e[0] == 'attribute') - 1
        n = sc.atts[i]
        b = tree(ai, st, fn, fid, term[4][2])
        ai.h.ev(st, ('raw', i, b))
        if sc.decl(n): return [ord(c) for c in 'U' + n]
        return [('sym', ('raw value', i))]

    def tree(ai, st, fn, fid, op):
        if op[0] == 'k': return None
        dl, weak = ai.resolve(st, fn, fid, op[1])
        if not dl or len(dl) != 1: return None
        b, pa = dl[0]
        return tuple(sorted(((k[len(pa):], only(V)) for k, V in st.mem.get(b, {}).items() if k[:len(pa)] == pa), key=str))

    pools = Pools(given=given)
    vecs = Vecs()
    strs = Strs(fail=False)
    T = Tables(missing=True)

    def hook(h, ai, st, f, callee, term, fid):
        n, nm = callee.short, callee.name
        if n == 'getAtts':
            env = ai.scalar(st, f, fid, term[4][-1])
            h.ev(st, ('tag text', tree(ai, st, f, fid, term[4][1])))
            live = [st]; done = []
            for i in range(len(sc.atts)):
                nxt = []
                for t in live:
                    h.ev(t, ('attribute', i))
                    nf = fid + 1
                    t._d(('L', nf, 1))[()] = env
                    for k, v in (('name', ('sym', ('att name', i))), ('valuePtr', ('sym', ('value', i))), ('valueEnd', ('sym', ('value end', i))), ('normalized', int(i in sc.raw))):
                        t._d(('L', nf, 2))[(k,)] = frozenset((v,))
                    for r, _ in ai.exec(clo, t, nf):
                        R = r.read(('L', nf, 0), ('#',))
                        whole = r.read(('L', nf, 0), ())
                        r.drop_frame(nf)
                        if one_int(R) == 0: nxt.append(r)
                        else: done.append((r, R, whole))
                live = nxt
            out = []
            for r, R, whole in [(t, frozenset((0,)), None) for t in live] + done:
                for d in ai.resolve(r, f, fid, term[5], term[1])[0] or []:
                    r.write(d[0], d[1], whole if R is None else None)
                    if R is not None: r._d(d[0])[d[1] + ('#',)] = R
                out.append((r, 'done'))
            return out
        if n in ('array', 'from_size_align') and 'Layout' in nm: h.ev(st, ('layout', only(h.args(ai, st, f, fid, term)[0]))); return None
        if n == 'encoding' and 'XML_ParserStruct' in nm: return [(st, frozenset((('sym', ('encoding',)),)))]
        if n == 'nameLength':
            a = only(h.args(ai, st, f, fid, term)[1])
            return [(st, frozenset((40 + a[1][1] if isinstance(a, tuple) and a[1][0] == 'att name' else 30,)))]
        if n == 'getAttributeId':
            i = sum(1 for e in st.q or () if e[0] == 'attribute') - 1
            h.ev(st, ('name of', i, tree(ai, st, f, fid, term[4][2])))
            return [(st, frozenset((nid(sc.atts[i]),)))]
        if n == 'storeAttributeValue':
            i = sum(1 for e in st.q or () if e[0] == 'attribute') - 1
            A = h.args(ai, st, f, fid, term)
            h.ev(st, ('normalize', i, A[2], tree(ai, st, f, fid, term[4][3])))
            a = only(A[4])
            if a is None: return None
            m = sc.atts[i]
            pools.set(st, a, pools.chars(st, a) + ([ord(c) for c in 'U' + m] if sc.decl(m) else [('sym', ('normalized value', i))]) + [0])
            return result(h, ai, st, f, fid, term, 0)
        if n == 'addBinding':
            A = h.args(ai, st, f, fid, term)
            k = sum(1 for e in st.q or () if e[0] == 'bind')
            pf = next((x for x in {'', 'p', 'q'} | set(sc.bound) if only(A[1]) == pfx(x) or x == '' and isinstance(only(A[1]), tuple) and only(A[1])[0] in ('&', 'sym') and 'default' in str(only(A[1]))), None)
            txt = cstr(st, only(A[3])) if only(A[3]) is not None else None
            h.ev(st, ('bind', pf, only(A[2]), text(txt), only(A[4])))
            if pf is None or txt is None: return result(h, ai, st, f, fid, term, 99)
            m = next((x for x in sc.names if nid(x) == only(A[2])), None)
            if sc.refuse == m: return result(h, ai, st, f, fid, term, 40)
            b = new_binding(st, pf, ''.join(map(chr, txt)), k + 1, only(A[2]), only(st.read(('S', LIST), ())))
            pset(st, pf, 'binding', b if pf or txt else 0)
            st._d(('S', LIST))[()] = frozenset((b,))
            return result(h, ai, st, f, fid, term, 0)
        if n == 'setElementTypePrefix':
            E = only(h.args(ai, st, f, fid, term)[1])
            h.ev(st, ('split', E))
            if isinstance(E, tuple): st._d(('S', E))[('prefix',)] = frozenset((pfx(pre(sc.element)) if pre(sc.element) else 0,))
            return [(st, frozenset((1,)))]
        if n in ('get', 'get_mut') and ('HashMap' in nm or 'hash_map' in nm):
            kp = only(h.args(ai, st, f, fid, term)[1]); m = only(h.args(ai, st, f, fid, term)[0])
            K = only(st.read(kp[1], kp[2] + ('0',))) if isinstance(kp, tuple) and kp[0] == '&' else None
            s = cstr(st, K[1]) if isinstance(K, tuple) and K[0] == 'sl' else None
            if s is None: return None
            s = ''.join(chr(c) if isinstance(c, int) else '?' for c in s)
            tbl = str(m)
            E = nid(s) if 'attributeIds' in tbl and s in sc.names else et if 'elementTypes' in tbl and s == sc.element and not sc.missing else None
            if E is not None:
                c = ('S', ('sym', ('cell', E))); st._d(c)[('0', 'pointer', 'pointer')] = frozenset((E,))
                return [T.option(ai, st, f, fid, term, frozenset((('&', c, ()),)), True)]
            return [T.option(ai, st, f, fid, term, None, False)]
        if 'HashSet' in nm and n in ('contains', 'insert', 'clear', 'try_reserve', 'reserve'):
            a = only(ai.scalar(st, f, fid, term[4][0]))
            cur = next(iter(st.mem.get(('NS', a), {}).get((), frozenset(((),)))))
            if n == 'clear': st._d(('NS', a))[()] = frozenset(((),)); return [(st, None)]
            if n in ('contains', 'insert'):
                if n == 'contains':
                    kp = only(ai.scalar(st, f, fid, term[4][1]))
                    K = only(st.read(kp[1], kp[2] + ('0',))) if isinstance(kp, tuple) and kp[0] == '&' else None
                else:
                    dl, weak = ai.resolve(st, f, fid, term[4][1][1]); K = only(st.read(dl[0][0], dl[0][1] + ('0',))) if dl and len(dl) == 1 else None
                if not (isinstance(K, tuple) and K[0] == 'sl' and isinstance(K[2], int)): return None
                s = tuple(only(st.read(*cell_path(K[1], k))) for k in range(K[2]))
                if None in s: return None
                if n == 'contains': return [(st, frozenset((int(s in cur),)))]
                st._d(('NS', a))[()] = frozenset(((cur if s in cur else cur + (s,)),)); return [(st, frozenset((int(s not in cur),)))]
            for d in ai.resolve(st, f, fid, term[5], term[1])[0] or []:
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((0,))
            return [(st, 'done')]
        if n in ('entry', 'insert') and ('HashMap' in nm or 'VacantEntry' in nm) or n in ('try_new', 'new') and 'boxed' in nm or n == 'try_reserve' and 'HashMap' in nm:
            if n == 'try_reserve' or n == 'try_new': pass
            return T(h, ai, st, f, callee, term, fid)
        return None

    def result(h, ai, st, f, fid, term, v):
        for d in ai.resolve(st, f, fid, term[5], term[1])[0] or []:
            st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((v,))
        return [(st, 'done')]

    h = SummHooks(None, cb=chain(hook, pools, vecs, search, strs, strlen_key))
    h.flat = True
    h.on_refine_eq = storage_eq
    h.on_refine_op = remember_op

    def on_write(ai, st, fn, base, path, V, line): pass
    h.on_write = on_write
    return summarise(p, fn, h, setup, widen=False, budget=600000)


def closure_body(p, fn):
    """the code run for each attribute: the closure of fn that takes an attribute of the tokenizer"""
    out = []
    for f in p.fns:
        if f.kind == 'item' and f.blocks and '{closure#' in f.short and f.argc == 2 and f.name.startswith(fn.name + '::'):
            k = p.tk(f.locals[2])
            if k[0] == 'adt' and k[1].endswith('xmltok::Attribute'): out.append(f)
    return out




def span(b):
    """(start, length) of a piece of input handed to a function"""
    if not b: return None
    for k, v in b:
        if isinstance(v, tuple) and v[0] == 'sl': return v[1], v[2]
    return None


def compare(sc, x, ob):
    """one way through a start tag against what is demanded; ob(ok, key, msg)"""
    o = Oracle(sc); st = x.st
    if any(e[0] == 'fail' for e in x.ev):
        ob(one_int(x.ret('#')) == 1, 'memory', 'an allocation fails and the result is not that memory is exhausted'); return
    r = one_int(x.ret('#')) if x.ret('#') is not None else None
    want = ERRNO[o.error] if o.error else 0
    if r is not None and r >= 1 << 31: r = None
    ob(r == want, 'result', 'the result is error %s, not %s' % (r, want))
    if r != want: return
    ob([e[1] for e in x.ev if e[0] == 'tag text'] == [(((), ('sym', ('arg', 3))),)], 'tag', 'the attributes are not read from the tag (%s)' % ([e[1] for e in x.ev if e[0] == 'tag text'],))
    binds = [e[1:] for e in x.ev if e[0] == 'bind']
    dem = [(pf, nid(n), 'U' + n, LIST) for pf, n in o.binds]
    ob(binds == dem, 'declarations', 'the declarations processed are %s instead of %s' % ([(b[0], b[2]) for b in binds], [(b[0], b[2]) for b in dem]))
    pos = only(st.read(SB, ('m_eventPtr',)))
    if o.eventpos is not None and not sc.internal: ob(pos == ('sym', ('att name', o.eventpos)), 'position', 'the duplicate is not reported at its name')
    elif o.error != 'DUPLICATE_ATTRIBUTE': ob(pos == OLDPOS, 'position', 'the position of the event changes')
    elif sc.internal: ob(pos == OLDPOS, 'position', 'the position of the event moves into the text of an entity')
    # each attribute of the tag: name looked up, value normalized by its declared type
    reached = [e[1] for e in x.ev if e[0] == 'attribute']
    names = {e[1]: span(e[2]) for e in x.ev if e[0] == 'name of'}
    norms = {e[1]: (only(e[2]), span(e[3])) for e in x.ev if e[0] == 'normalize'}
    raws = {e[1]: span(e[2]) for e in x.ev if e[0] == 'raw'}
    for i in reached:
        n = sc.atts[i]
        a = ('sym', ('att name', i)); v = ('sym', ('value', i)); ve = ('sym', ('value end', i))
        ob(i in names and names[i] == (a, 40 + i), 'name', 'the name of attribute %d is taken from %s' % (i, names.get(i)))
        if o.error and o.eventpos == i: continue
        if i in sc.raw: ob(i in raws and raws[i] == (v, ('op', 'Sub', ve, v)) and i not in norms, 'value', 'the value of %s is taken from %s' % (n, raws.get(i)))
        else: ob(i in norms and norms[i] == (int(type_of_value(sc, n)), (v, ('op', 'Sub', ve, v))), 'normalization', 'the value of %s is normalized as %s from %s' % (n, norms.get(i, (None,))[0], norms.get(i, (0, None))[1]))
    if o.error: return
    # the list handed to the start handler
    L = one_int(st.mem[SB].get(('m_atts', '#len')))
    got = []
    for k in range(L or 0):
        N = only(st.read(SB, ('m_atts', ('i', k), 'name'))); V = only(st.read(SB, ('m_atts', ('i', k), 'value')))
        got.append((N, V))
    ob(bool(got) and got[-1] == (0, 0), 'end', 'the list of attributes is not ended by a null pointer')
    if got and got[-1][0] == 0: got.pop()
    nm = []
    for N, V in got:
        c = cstr(st, N) if N is not None else None
        if isinstance(V, tuple) and V[:1] == ('sym',) and V[1][0] == 'default value': w = ('default', V[1][1])
        else:
            d = cstr(st, V) if V is not None else None
            w = None
            if d is not None and len(d) == 1 and isinstance(d[0], tuple) and d[0][1][0] in ('normalized value', 'raw value'): w = ('specified', d[0][1][1])
        nm.append((text(c), w))
    ob([a for a, _ in nm] == [a for a, _ in o.out], 'names', 'the attributes reported are %s instead of %s' % ([a for a, _ in nm], [a for a, _ in o.out]))
    ob([w for _, w in nm] == [w for _, w in o.out], 'values', 'the values reported are those of %s instead of %s' % ([w for _, w in nm], [w for _, w in o.out]))
    c = only(st.read(SB, ('m_nSpecifiedAtts',)))
    ob(c == o.count, 'count', 'the number of specified attributes is given as %s instead of %s' % (c, o.count))
    c = only(st.read(SB, ('m_idAttIndex',)))
    if not (sc.idatt and sc.decl(sc.idatt)): ob(isinstance(c, int) and (c + (1 << 31)) % (1 << 32) - (1 << 31) == o.index, 'id', 'the ID attribute is said to be at %s instead of %s' % (c, o.index))
    for n in sc.names: ob(only(st.read(('S', nstr(n)), ())) == 0, 'marks', 'the mark of %s is left for the next tag' % n)
    split = [e for e in x.ev if e[0] == 'split']
    ob(len(split) == int(sc.ns and sc.missing), 'element', 'the name of an element type %s' % ('seen for the first time is not split' if sc.missing else 'is split again'))
    # the name of the element
    tb = ('S', TAG); P = only(st.read(tb, ('str_0',))); W = st.mem.get(tb, {})
    if o.tag is None:
        ob(P == ('sym', ('tag name',)), 'element', 'the name of the element is changed')
        ob(('localPart',) not in W or only(W[('localPart',)]) == 0, 'element', 'a local part is recorded for an element in no namespace')
    else:
        t, ul, pf, pl, local = o.tag
        c = cstr(st, P) if P is not None else None
        ob(text(c) == t, 'element', 'the element is reported as %s instead of %s' % (text(c), t))
        c = only(st.read(tb, ('localPart',))); c = cstr(st, c) if c is not None and c != 0 else None
        ob(text(c) == local, 'element parts', 'the local part recorded is %s instead of %s' % (text(c), local))
        ob(only(st.read(tb, ('uriLen',))) == ul, 'element parts', 'the length of the namespace name is recorded as %s instead of %d' % (only(st.read(tb, ('uriLen',))), ul))
        ob(only(st.read(tb, ('prefixLen',))) == pl, 'element parts', 'the length of the prefix is recorded as %s instead of %d' % (only(st.read(tb, ('prefixLen',))), pl))
        c = only(st.read(tb, ('prefix',)))
        c = '' if c == 0 else text(cstr(st, c)) if c is not None else None
        ob(c == pf, 'element parts', 'the prefix recorded is %s instead of %s' % (c, pf))
        B = only(st.read(*((('S', pfx(pf)), ('binding',)) if pf else (DP[0], DP[1] + ('binding',)))))
        U = only(st.read(('S', B), ('uri',))) if isinstance(B, tuple) else None; A = only(st.read(('S', B), ('uriAlloc',))) if isinstance(B, tuple) else None
        moved = [e for e in x.ev if e[0] == 'alloc']; freed = [e[1] for e in x.ev if e[0] == 'free']; lay = [e[1] for e in x.ev if e[0] == 'layout']
        ob(U == P, 'buffer', 'the name of the element is not the one kept with the binding')
        old = next((q for q in st.neq if isinstance(q, tuple) and q[:1] == ('sym',) and q[1][:2] == ('uri', pf)), None)
        if moved and P == moved[0][1]:
            ob(len(lay) == 1 and isinstance(lay[0], int) and lay[0] >= len(t) + 1 and A == lay[0], 'buffer', 'room for %s characters is recorded as %s, %d are used' % (lay, A, len(t) + 1))
            ob(len(freed) == 1 and isinstance(freed[0], tuple) and freed[0][1][:2] == ('uri', pf), 'buffer', 'the old buffer is not released')
            for k, T in enumerate(OPENS):
                on = only(st.read(('S', T), ('name', 'str_0'))); was = open_name(sc, k)
                ob(on == (P if freed == [was] else was), 'buffer', 'an open element keeps a name that was released' if freed == [was] else 'the name of another open element is changed')
        else: ob(isinstance(A, int) and A >= len(t) + 1 and not freed, 'buffer', 'the name of the element does not fit its buffer')


def run_scenarios(ctx, p, scs, tag):
    from par import par
    fn = p.one('storeAtts')
    clo = closure_body(p, fn)
    ctx.floor('bodies run for each attribute of a tag%s' % tag, len(clo), 1)
    if len(clo) != 1: ctx.ob(False, 'tag:body%s' % tag, fn.where(), 'what is done for each attribute of a tag is not one piece of code'); return
    ctx.seen(fn, clo[0])

    def one(sc):
        def ob(ok, key, msg): ctx.ob(ok, 'tag:%s%s' % (key, tag), fn.where(), '%s: %s' % (sc, msg))
        try: paths, ai = run_atts(p, sc, fn, clo[0])
        except Budget: ob(False, 'bound', 'too many ways through'); return
        n = 0
        for x in paths:
            if not feasible(x.st): continue
            n += 1
            compare(sc, x, ob)
        ob(n > 0, 'result', 'no way through')
    per = 6
    par(ctx, [(lambda part=scs[i::8]: [one(s) for s in part]) for i in range(8)])
