"""Namespace declarations are checked, bound, reported and undone; names are split at their prefix."""
from strs import *
from tables import Tables
import atts
from atts import Sc

ASSUMPTIONS = ['the parser, prefix and attribute handed to the functions are valid objects', 'allocation either fails or gives an object of its own',
               'containers of the standard library behave as documented']
XMLURI = b'http://www.w3.org/XML/1998/namespace'
XMLNSURI = b'http://www.w3.org/2000/xmlns/'
ERR = {'NONE': 0, 'NO_MEMORY': 1, 'DUPLICATE_ATTRIBUTE': 8, 'UNBOUND_PREFIX': 27, 'UNDECLARING_PREFIX': 28, 'RESERVED_PREFIX_XML': 38, 'RESERVED_PREFIX_XMLNS': 39, 'RESERVED_NAMESPACE_URI': 40}
NAME = {v: k for k, v in ERR.items()}


def is_default(a):
    return isinstance(a, tuple) and 'defaultPrefix' in str(a)


def bytes_sym(text, name, *at):
    """text with the characters at the given places replaced by arbitrary other characters"""
    cs = list(text)
    for k in at: cs[k] = char(name, k)
    return cs


class UriCase:
    def __init__(s, name, chars, kind, neq=()):
        s.name = name; s.chars = chars; s.kind = kind; s.neq = dict(neq)


def uri_cases(dense):
    out = [UriCase('the xml namespace', list(XMLURI), 'xml'), UriCase('the xmlns namespace', list(XMLNSURI), 'xmlns'), UriCase('an empty name', [], 'empty')]
    for nm, C in (('xml', XMLURI), ('xmlns', XMLNSURI)):
        for k in range(len(C)):
            if not dense and k not in (0, 1, 17, 18, len(C) // 2, len(C) - 2, len(C) - 1): continue
            c = char('u', k)
            out.append(UriCase('the %s namespace with another character %d' % (nm, k), list(C[:k]) + [c] + list(C[k + 1:]), 'other', {c: C[k]}))
            if k: out.append(UriCase('the first %d characters of the %s namespace' % (k, nm), list(C[:k]), 'other'))
        out.append(UriCase('the %s namespace with a character behind it' % nm, list(C) + [char('u', 99)], 'other', {char('u', 99): 0}))
    a, b = char('u', 0), char('u', 1)
    out.append(UriCase('a one-character name', [a], 'other', {a: 0}))
    out.append(UriCase('any other name', [a, b] + [char('u', k) for k in range(2, 5)], 'other', dict([(a, ord('h'))] + [(char('u', k), 0) for k in range(1, 5)])))
    out.append(UriCase('a long name', [a] + [char('u', k) for k in range(1, 45)], 'other', dict([(a, ord('h'))] + [(char('u', k), 0) for k in range(1, 45)])))
    return out


def prefix_cases():
    out = [('xml', list(b'xml'), {}), ('xmlns', list(b'xmlns'), {})]
    for k in range(5):
        c = char('p', k)
        out.append(('xmlns with another character %d' % k, list(b'xmlns'[:k]) + [c] + list(b'xmlns'[k + 1:]), {c: b'xmlns'[k]}))
        if k < 3: out.append(('xml with another character %d' % k, list(b'xml'[:k]) + [c] + list(b'xml'[k + 1:]), {c: b'xml'[k]}))
    for k in (1, 2, 4): out.append(('the first %d characters of xmlns' % k, list(b'xmlns'[:k]), {}))
    c = char('p', 9)
    out.append(('xml and another character', list(b'xml') + [c], {c: ord('n')}))
    out.append(('xmln and another character', list(b'xmln') + [c], {c: ord('s')}))
    out.append(('xmlns and another character', list(b'xmlns') + [c], {c: 0}))
    return out


PARSER, PFX, ATT, URI, LIST = [('sym', ('arg', i)) for i in range(1, 6)]
OLDB = ('sym', ('old binding',)); OLDL = ('sym', ('old list',)); FREEB = ('sym', ('free binding',)); FREEN = ('sym', ('next free binding',))


def expected(pname, u):
    if pname is not None:
        if u.kind == 'empty': return 'UNDECLARING_PREFIX'
        if pname == 'xmlns': return 'RESERVED_PREFIX_XMLNS'
        if pname == 'xml': return 'NONE' if u.kind == 'xml' else 'RESERVED_PREFIX_XML'
    if u.kind in ('xml', 'xmlns'): return 'RESERVED_NAMESPACE_URI'
    return 'NONE'


def run_binding(p, fn, pname, pchars, pneq, u, full):
    def setup(ai, st, f):
        for q in (PARSER, PFX, URI, LIST): st.neq[q] = frozenset((0,))
        for c, x in list(pneq.items()) + list(u.neq.items()): st.neq[c] = frozenset((0, x))
        put(st, URI, u.chars + [0])
        N = ('sym', ('prefix name',))
        if pchars is None: st._d(('S', PFX))[('name',)] = frozenset((0,))
        else:
            st._d(('S', PFX))[('name',)] = frozenset((N,))
            put(st, N, pchars + [0])
        st._d(('S', PFX))[('binding',)] = frozenset((OLDB,))
        st._d(('S', LIST))[()] = frozenset((OLDL,))
        if full:
            FB = ('S', FREEB)
            st._d(('S', PARSER))[('m_freeBindingList',)] = frozenset((FREEB,))
            st._d(FB)[('nextTagBinding',)] = frozenset((FREEN,))
        else:
            st._d(('S', PARSER))[('m_freeBindingList',)] = frozenset((0,))
    h = SummHooks(None, cb=Strs(fail=full))

    def on_bin(ai, op, a, b, w, sg):
        if op in ('Eq', 'Ne') and is_default(a) != is_default(b) and PFX in (a, b):
            return int((op == 'Eq') == (pchars is None))
        return None
    h.on_bin = on_bin
    h.on_refine_op = remember_op
    return summarise(p, fn, h, setup, widen=False, budget=400000)


def check_binding(ctx, p, tag):
    fn = p.one('addBinding')
    ctx.seen(fn)
    prefixes = [(None, None, {})] + prefix_cases() + [('a', [char('p', 0)], {char('p', 0): ord('x')}), ('ab', [char('p', 0), char('p', 1)], {char('p', 0): ord('x'), char('p', 1): 0})]
    runs = good = refused = 0
    for pn, pc, pneq in prefixes:
        main = pn in (None, 'xml', 'a')
        for u in uri_cases(ctx.thorough or pn is None):
            if not main and u.kind == 'other' and u.name not in ('any other name', 'the xml namespace with another character 35', 'the xmlns namespace with another character 28'): continue
            full = main and u.name in ('any other name', 'a one-character name', 'an empty name', 'the xml namespace') or pn == 'xmlns' and u.kind == 'xml'
            paths, ai = run_binding(p, fn, pn, pc, pneq, u, full)
            runs += 1
            want = expected(pn if pn in (None, 'xml', 'xmlns') else 'other', u)
            what = 'binding %s to %s' % ('the default namespace' if pn is None else 'the prefix ' + pn, u.name)
            group = '%s:%s' % ('default' if pn is None else pn if pn in ('xml', 'xmlns') else 'prefix', u.kind)
            def ob(ok, key, msg): ctx.ob(ok, 'declaration:%s:%s%s' % (key, group, tag), fn.where(), what + ': ' + msg)
            ob(bool(paths), 'result', 'no way through')
            for x in paths:
                if not feasible(x.st): continue
                r = one_int(x.ret('#'))
                if any(e[0] == 'nomem' for e in x.ev):
                    ob(r == ERR['NO_MEMORY'], 'memory', 'an allocation fails and the result is %s' % NAME.get(r, r))
                elif want != 'NONE' or r != 0:
                    ob(r == ERR[want], 'result', 'the result is %s, specified %s' % (NAME.get(r, r), want))
                if r != 0:
                    refused += 1
                    ob(x.st.read(('S', PFX), ('binding',)) == frozenset((OLDB,)) and x.st.read(('S', LIST), ()) == frozenset((OLDL,)) and not any(e[0] == 'icall' for e in x.ev),
                       'refusal', 'a refused declaration has an effect')
                    continue
                good += 1
                check_bound(ob, x, pn, u)
    ctx.floor('declarations examined%s' % tag, runs, 100)
    ctx.floor('paths binding a prefix%s' % tag, good, 60)
    ctx.floor('paths refusing a declaration%s' % tag, refused, 100)


def check_bound(ob, x, pn, u):
    st = x.st
    B = only(st.read(('S', LIST), ()))
    if not (isinstance(B, tuple) and B != OLDL): ob(False, 'list', 'the binding is not entered in the list of the element'); return
    BO = ('S', B)
    get = lambda *f: st.read(BO, f)
    is_ = lambda V, a: V == frozenset((a,))
    reused = B == FREEB
    if reused: ob(is_(st.read(('S', PARSER), ('m_freeBindingList',)), FREEN), 'free list', 'a binding taken from the free list stays in it')
    ob(is_(get('prefix'), PFX), 'prefix', 'the binding is for prefix %s' % show(get('prefix')))
    ob(is_(get('attId'), st.norm(ATT)), 'attribute', 'the binding names attribute %s' % show(get('attId')))
    ob(is_(get('prevPrefixBinding'), OLDB), 'outer binding', 'the binding of the enclosing element kept is %s' % show(get('prevPrefixBinding')))
    ob(is_(get('nextTagBinding'), OLDL), 'list', 'the earlier bindings of the element are lost')
    undeclared = pn is None and u.kind == 'empty'
    ob(is_(st.read(('S', PFX), ('binding',)), 0 if undeclared else B), 'in force', 'the binding in force afterwards is %s' % show(st.read(('S', PFX), ('binding',))))
    # the stored name
    sep = next((a for e in [0] for a in [('sym', ('ld', ('S', PARSER), ('m_namespaceSeparator',), None))]))
    has = st.norm(sep)
    nosep = has == 0
    known = nosep or 0 in st.neq.get(sep, ())
    ob(known, 'separator', 'the stored name does not depend on whether there is a separator')
    want = u.chars + ([] if nosep else [sep])
    U = only(get('uri'))
    got = [only(st.read(*cell_path(U, k))) for k in range(len(want))] if U is not None else None
    ob(got is not None and [st.norm(g) if g is not None else None for g in got] == [st.norm(w) for w in want], 'name', 'the stored namespace name is %s, specified %s' % (got and text([g for g in got]), text(want)))
    ob(is_(get('uriLen'), len(want)), 'length', 'the stored length is %s, specified %d' % (show(get('uriLen')), len(want)))
    alloc = get('uriAlloc')
    n = one_int(alloc)
    if n is None and reused and alloc is not None and len(want):
        room = ('ld', BO, ('uriAlloc',), None)
        n = len(want) if enough(st, ('sym', room), len(want)) else None
    ob(n is not None and n >= len(want) or not want, 'room', 'the room recorded for the name is %s for %d characters' % (show(alloc), len(want)))
    calls = [e for e in x.ev if e[0] == 'icall']
    announced = st.norm(ATT) != 0 and (0 in st.neq.get(ATT, ()))
    hs = [c for c in calls if any('m_startNamespaceDeclHandler' in str(a) for a in (c[1] or ()))]
    ob(len(hs) == len(calls) and len(calls) <= 1, 'report', 'something other than the namespace handler is called, or it twice')
    handler = has_handler(st, 'm_startNamespaceDeclHandler')
    if calls:
        ob(announced, 'report', 'a binding not declared by an element is reported')
        A = calls[0][2]
        ob(len(A) == 3 and (A[1] == st.read(('S', PFX), ('name',))), 'report', 'the handler is told of prefix %s' % show(A[1] if len(A) > 1 else None))
        ob(len(A) == 3 and A[2] == frozenset((0 if undeclared else URI,)), 'report', 'the handler is told of namespace %s' % show(A[2] if len(A) > 2 else None))
        ob(len(A) == 3 and A[0] is not None and all('m_handlerArg' in str(a) for a in A[0]), 'report', 'the handler gets %s as its argument' % show(A[0]))
    else:
        ob(not announced or handler is False, 'report', 'a declaration is not reported')


def enough(st, room, n):
    """does the path know that room >= n?"""
    for k, v in st.eqs.items():
        if not (isinstance(k, tuple) and k[0] == 'cmp'): continue
        op, x, y = k[1:]
        if not v: op = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}[op]
        if isinstance(y, int): x, y, op = y, x, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}[op]
        if y == room and isinstance(x, int) and (op == 'Le' and x >= n or op == 'Lt' and x >= n - 1): return True
    return False


def has_handler(st, field):
    """True/False where the path knows whether the handler is set"""
    return known(st, ('ld', ('S', PARSER), ('m_handlers', field, '#'), None))


def show(V):
    if V is None: return 'something unknown'
    return ' or '.join(str(a)[:80] for a in sorted(V, key=str)) or 'nothing'


COLON = ord(':')


def names():
    """(name, characters, symbols with what they are not)"""
    out = []
    for pat in ('a', 'ab', 'abc', 'a:b', 'ab:c', 'abc:d', ':a', 'a:', 'a:b:c', 'a::b', ':', 'ab:cd:e'):
        cs = [COLON if c == ':' else char('n', k) for k, c in enumerate(pat)]
        out.append((pat, cs, {c: {COLON, ord('x')} if c == char('n', 0) else {COLON} for c in cs if isinstance(c, tuple)}))
    return out


def attribute_names():
    out = names()
    X = b'xmlns'
    out.append(('xmlns', list(X), {}))
    for tail in ('a', 'ab', '', 'a:b', ':a'):
        cs = [COLON if c == ':' else char('n', k) for k, c in enumerate(tail)]
        out.append(('xmlns:' + tail, list(X) + [COLON] + cs, {c: {COLON} for c in cs if isinstance(c, tuple)}))
    for k in range(5):
        c = char('n', 10 + k)
        for tail in ('', ':a'):
            cs = [COLON if y == ':' else char('n', j) for j, y in enumerate(tail)]
            neq = {y: {COLON} for y in cs if isinstance(y, tuple)}; neq[c] = {COLON, X[k]}
            out.append(('xmlns with another character %d%s' % (k, tail), list(X[:k]) + [c] + list(X[k + 1:]) + cs, neq))
        if k:
            out.append(('xmlns'[:k] + ':a', list(X[:k]) + [COLON, char('n', 0)], {char('n', 0): {COLON}}))
            out.append(('xmlns'[:k], list(X[:k]), {}))
    c = char('n', 20)
    out.append(('xmlns and a character', list(X) + [c], {c: {COLON}}))
    out.append(('xmlns and a character:a', list(X) + [c, COLON, char('n', 0)], {c: {COLON}, char('n', 0): {COLON}}))
    return out


def table_of(ptr): 
    if isinstance(ptr, tuple) and ptr[0] == '&':
        n = [x for x in ptr[2] if isinstance(x, str) and x not in ('value', '0', 'pointer')]
        return n[-1] if n else None


def name_hook(fail, given=None):
    T = Tables(missing=True)
    return chain(Pools(fail=fail, given=given), Strs(fail=fail), strlen_key, T)


def lookups(x):
    """what was looked up and how it ended: [(table, text, found, object, new)]"""
    out = []; key = {}
    for e in x.ev:
        if e[0] == 'key': key[e[1]] = e[2]
        elif e[0] in ('found', 'missing'):
            out.append([table_of(e[1]), key.get(e[2]), e[0] == 'found', ('sym', ('entry', table_of(e[1]), e[2])) if e[0] == 'found' else None, e[2]])
        elif e[0] == 'insert':
            for l in out[::-1]:
                if l[0] == table_of(e[1]) and not l[2]: l[3] = e[3]; break
    return out


def failed(x): return any(e[0] in ('nomem', 'fail') for e in x.ev)


def norm_chars(x, cs): return None if cs is None else [x.st.norm(c) for c in cs]


def prefix_of(x, l, ob, keep):
    """a prefix looked up under a text: found, or entered under a copy of its own of that text"""
    E = l[3]
    if l[2]: return E
    if E is None: return None
    nm = only(x.st.read(('S', E), ('name',)))
    ob(nm is not None and norm_chars(x, cstr(x.st, nm)) == norm_chars(x, l[1]), 'new prefix', 'a new prefix is entered under %s but named %s' % (text(l[1]), text(cstr(x.st, nm) if nm is not None else None)))
    ob(keep(nm), 'kept name', 'the name of a new prefix is not kept in the pool')
    ob(only(x.st.read(('S', E), ('binding',))) == 0, 'new prefix', 'a new prefix has a binding')
    return E


def kept(x):
    """names that lie in finished strings"""
    cur = {}; ok = set()
    for e in x.ev:
        if e[0] == 'current': cur.setdefault(e[1], []).append(e[2])
        elif e[0] == 'finish':
            ok.add(e[2]); ok |= set(cur.pop(e[1], []))
        elif e[0] == 'clear': cur.pop(e[1], None)
    def test(nm):
        base = nm[1] if isinstance(nm, tuple) and nm[0] == 'po' else nm
        return base in ok or isinstance(base, tuple) and base[0] == 'sym' and base[1][0] == 'element name'
    return test


def check_element_prefix(ctx, p, tag):
    fn = p.one('setElementTypePrefix')
    ctx.seen(fn)
    ET = ('sym', ('arg', 2)); N = ('sym', ('element name',)); n = 0
    for nm, cs, neq in names():
        def setup(ai, st, f):
            for q in (('sym', ('arg', 1)), ET): st.neq[q] = frozenset((0,))
            for c, x in neq.items(): st.neq[c] = frozenset({0} | x)
            st._d(('S', ET))[('name',)] = frozenset((N,)); put(st, N, cs + [0])
            st._d(('S', ET))[('prefix',)] = frozenset((0,))
        h = SummHooks(None, cb=name_hook(nm in ('ab:c', 'a:b')))
        h.flat = True
        h.on_refine_eq = remember_eq
        paths, ai = summarise(p, fn, h, setup, widen=False)
        def ob(ok, key, msg): ctx.ob(ok, 'element prefix:%s%s' % (key, tag), fn.where(), 'element name like %s: %s' % (nm, msg))
        ob(bool(paths), 'result', 'no way through')
        for x in paths:
            if not feasible(x.st): continue
            r = one_int(x.ret())
            if failed(x):
                ob(r == 0, 'memory', 'an allocation fails and the result is %s' % r); continue
            n += 1
            ob(r not in (None, 0), 'result', 'the result is a failure')
            got = x.st.read(('S', ET), ('prefix',))
            L = lookups(x)
            if COLON in cs:
                pre = cs[:cs.index(COLON)]
                L = [l for l in L if l[0] == 'prefixes']
                ob(len(L) == 1 and norm_chars(x, L[0][1]) == norm_chars(x, pre), 'lookup', 'the prefix looked up is %s, specified %s' % (text(L[0][1]) if L else 'nothing', text(pre)))
                if len(L) == 1: ob(got == frozenset((prefix_of(x, L[0], ob, kept(x)),)), 'prefix', 'the element type gets prefix %s' % show(got))
            else: ob(got == frozenset((0,)) and not L, 'prefix', 'an element type without a prefix gets %s' % show(got))
            left(ob, x)
    ctx.floor('paths splitting element names%s' % tag, n, 10)


def left(ob, x):
    """nothing unfinished stays in a pool"""
    for b, d in x.st.mem.items():
        if b[0] == 'PC' and ('c',) in d: ob(next(iter(d[('c',)])) == ('t',), 'pool', 'characters are left in the pool for the next string')


def check_attribute_id(ctx, p, tag):
    fn = p.one('getAttributeId')
    ctx.seen(fn)
    SELF = ('sym', ('arg', 1)); n = m = 0
    for ns in (1, 0):
        for nm, cs, neq in attribute_names() if ns else [z for z in attribute_names() if z[0] in ('a', 'a:b', 'xmlns', 'xmlns:a')]:
            def setup(ai, st, f):
                st.neq[SELF] = frozenset((0,))
                for c, x in neq.items(): st.neq[c] = frozenset({0} | x)
                st._d(('S', SELF))[('m_ns',)] = frozenset((ns,))
            h = SummHooks(None, cb=name_hook(nm in ('a:b', 'xmlns:a'), lambda *a: list(cs)))
            h.flat = True
            h.on_refine_eq = remember_eq
            paths, ai = summarise(p, fn, h, setup, widen=False)
            what = 'an attribute name like %s%s' % (nm, '' if ns else ' without namespace processing')
            def ob(ok, key, msg): ctx.ob(ok, 'attribute name:%s%s' % (key, tag), fn.where(), what + ': ' + msg)
            ob(bool(paths), 'result', 'no way through')
            for x in paths:
                if not feasible(x.st): continue
                R = only(x.ret())
                if failed(x):
                    ob(R == 0, 'memory', 'an allocation fails and the result is %s' % show(x.ret())); continue
                n += 1
                L = lookups(x)
                A = [l for l in L if l[0] == 'attributeIds']; P = [l for l in L if l[0] == 'prefixes']
                ob(len(A) == 1 and norm_chars(x, A[0][1]) == norm_chars(x, cs), 'lookup', 'the attribute looked up is %s' % (text(A[0][1]) if A else 'nothing'))
                if len(A) != 1: continue
                ob(R == A[0][3], 'result', 'the result is %s' % show(x.ret()))
                left(ob, x)
                if A[0][2]:
                    ob(not P, 'known', 'the prefix of a known attribute is looked for again'); continue
                m += 1
                if A[0][3] is None: continue
                I = ('S', A[0][3]); get = lambda *f: x.st.read(I, f)
                tn = only(get('name', '0'))
                full = [only(x.st.read(*cell_path(tn, k))) for k in range(len(cs) + 2)] if tn is not None else None
                ob(full is not None and [x.st.norm(c) for c in full] == [0] + norm_chars(x, cs) + [0], 'name', 'the name of a new attribute is %s' % (text(full) if full else None))
                ob(kept(x)(tn), 'name', 'the name of a new attribute is not kept in the pool')
                for f in ('maybeTokenized',): ob(get(f) == frozenset((0,)), 'new', 'a new attribute has %s %s' % (f, show(get(f))))
                xm = ns and cs[:5] == list(b'xmlns') and (len(cs) == 5 or cs[5] == COLON)
                ob(get('xmlns') == frozenset((int(xm),)), 'declaration', '%s regarded as a namespace declaration: %s' % ('not' if xm else '', show(get('xmlns'))))
                pf = only(get('prefix'))
                if xm and len(cs) == 5: ob(is_default(pf) and not P, 'prefix', 'the declaration of the default namespace has prefix %s' % show(get('prefix')))
                elif ns and COLON in cs:
                    pre = cs[6:] if xm else cs[:cs.index(COLON)]
                    ob(len(P) == 1 and norm_chars(x, P[0][1]) == norm_chars(x, pre), 'prefix', 'the prefix looked up is %s, specified %s' % (text(P[0][1]) if P else 'nothing', text(pre)))
                    if len(P) == 1: ob(pf is not None and pf == prefix_of(x, P[0], ob, kept(x)), 'prefix', 'the attribute gets prefix %s' % show(get('prefix')))
                else: ob(pf == 0 and not P, 'prefix', 'an attribute without a prefix gets %s' % show(get('prefix')))
    ctx.floor('paths looking up attribute names%s' % tag, n, 60)
    ctx.floor('paths entering attribute names%s' % tag, m, 40)


def check_free(ctx, p, tag):
    fn = p.one('freeBindings')
    ctx.seen(fn)
    SELF = ('sym', ('arg', 1)); n = 0
    B = [('sym', ('binding', k)) for k in range(3)]; X = [('sym', ('prefix of', k)) for k in range(3)]; O = [('sym', ('outer', k)) for k in range(3)]; NM = [('sym', ('name of', k)) for k in range(3)]
    F = ('sym', ('free list',))
    for cnt in range(4):
        for same in (False, True):
            if same and cnt < 2: continue
            def setup(ai, st, f):
                st.neq[SELF] = frozenset((0,))
                st._d(('S', SELF))[('m_freeBindingList',)] = frozenset((F,))
                st._d(('L', 0, 2))[()] = frozenset((B[0] if cnt else 0,))
                for k in range(cnt):
                    j = 0 if same else k
                    st.neq[B[k]] = st.neq[X[k]] = frozenset((0,))
                    b = st._d(('S', B[k]))
                    b[('prefix',)] = frozenset((X[j],)); b[('prevPrefixBinding',)] = frozenset((O[k],)); b[('nextTagBinding',)] = frozenset((B[k + 1] if k + 1 < cnt else 0,))
                    st._d(('S', X[j]))[('name',)] = frozenset((NM[j],)); st._d(('S', X[j]))[('binding',)] = frozenset((B[0 if same else k],))
            h = SummHooks(None, cb=Strs(fail=False))
            paths, ai = summarise(p, fn, h, setup, widen=False)
            what = '%d bindings%s: ' % (cnt, ' of one prefix' if same else '')
            def ob(ok, key, msg): ctx.ob(ok, 'end:%s%s' % (key, tag), fn.where(), what + msg)
            ob(bool(paths), 'result', 'no way through')
            for x in paths:
                if not feasible(x.st): continue
                n += 1
                set_ = known(x.st, ('ld', ('S', SELF), ('m_handlers', 'm_endNamespaceDeclHandler', '#'), None))
                calls = [e for e in x.ev if e[0] == 'icall']
                ob(all(any('m_endNamespaceDeclHandler' in str(a) for a in e[1] or ()) for e in calls), 'report', 'another handler is called')
                if cnt and set_ is not False: ob([e[2][-1] for e in calls] == [frozenset((NM[0 if same else k],)) for k in range(cnt)], 'report', 'the ends reported are %s' % [show(e[2][-1]) for e in calls])
                else: ob(not calls, 'report', 'an end is reported without a declaration')
                for e in calls: ob(len(e[2]) == 2 and e[2][0] is not None and all('m_handlerArg' in str(a) for a in e[2][0]), 'report', 'the handler gets %s as its argument' % show(e[2][0]))
                seen = set()
                for k in range(cnt):
                    j = 0 if same else k
                    want = O[cnt - 1] if same else O[k]
                    ob(x.st.read(('S', X[j]), ('binding',)) == frozenset((want,)), 'restored', 'the binding in force afterwards is %s' % show(x.st.read(('S', X[j]), ('binding',))))
                c = only(x.st.read(('S', SELF), ('m_freeBindingList',)))
                while c in B and c not in seen:
                    seen.add(c); c = only(x.st.read(('S', c), ('nextTagBinding',)))
                ob(c == F and seen == set(B[:cnt]), 'free list', 'the bindings do not all go to the free list (%d of %d)' % (len(seen), cnt))
    ctx.floor('paths ending declarations%s' % tag, n, 6)


SEPC = ord('|')


def scenarios():
    S = []
    P = dict(p='P'); PQ = dict(p='P', q='Q'); SAME = dict(p='P', q='P'); D = {'': 'D'}; DP = {'': 'D', 'p': 'P'}
    for tr in (False, True):
        for sep in (SEPC, 0):
            k = dict(triplets=tr, sep=sep)
            if tr and not sep: continue     # what triplets are without a separator is not defined
            # attributes
            S += [Sc(['p:a'], bound=P, **k), Sc(['p:a', 'p:b'], bound=P, **k), Sc(['p:a', 'q:a'], bound=PQ, **k), Sc(['p:a', 'q:a'], bound=SAME, **k), Sc(['p:a', 'q:b'], bound=SAME, **k), Sc(['p:a', 'b', 'q:a'], bound=SAME, **k),
                  Sc(['a', 'p:a'], bound=P, **k), Sc(['a', 'p:a'], bound=DP, **k), Sc(['p:a'], **k), Sc(['a', 'p:a', 'q:a'], bound=P, **k), Sc(['p:a'], bound=D, **k), Sc(['a'], bound=D, **k), Sc(['q:a', 'p:a', 'p:b', 'q:b'], bound=PQ, **k),
                  Sc(['p:abc', 'abc', 'q:ab'], bound=PQ, **k)]
            # from the declarations of the element type
            S += [Sc([], [('p:a', True, True)], bound=P, **k), Sc(['q:a'], [('p:a', True, True)], bound=SAME, **k), Sc(['q:a'], [('p:a', True, True)], bound=PQ, **k), Sc(['a'], [('p:a', True, True)], **k), Sc(['p:a'], [('p:a', True, True), ('p:b', True, True)], bound=P, **k),
                  Sc([], [('xmlns:p', True, True), ('p:a', True, True)], **k), Sc(['p:a'], [('xmlns:p', True, True)], **k), Sc(['xmlns:p', 'p:a'], [('xmlns:p', True, True)], **k), Sc([], [('xmlns', True, True), ('xmlns:p', True, False)], element='e', **k),
                  Sc(['p:a'], [('xmlns:q', True, True), ('q:a', True, True)], bound=P, **k), Sc(['a'], [('b', True, True), ('xmlns', False, True)], **k)]
            # declarations in the tag, before and after what uses them
            S += [Sc(['xmlns:p', 'p:a'], **k), Sc(['p:a', 'xmlns:p'], **k), Sc(['p:a', 'xmlns:p'], bound=P, **k), Sc(['xmlns:p', 'xmlns:q', 'p:a', 'q:a'], **k), Sc(['xmlns'], **k), Sc(['xmlns', 'a'], bound=D, **k), Sc(['xmlns', 'xmlns:p', 'p:a', 'a'], element='p:e', **k),
                  Sc(['xmlns:p', 'a', 'xmlns:p'], **k), Sc(['xmlns', 'xmlns'], **k), Sc(['xmlns:p'], raw={0}, element='p:e', **k), Sc(['xmlns:q', 'p:a'], **k)]
            # declarations that are refused
            S += [Sc(['xmlns:p', 'p:a'], refuse='xmlns:p', **k), Sc(['xmlns'], refuse='xmlns', element='e', **k), Sc(['a', 'xmlns:p', 'xmlns:q'], refuse='xmlns:q', **k), Sc(['a'], [('xmlns:p', True, True)], refuse='xmlns:p', **k),
                  Sc(['xmlns:p', 'xmlns:p'], refuse='xmlns:p', **k)]
            # elements
            for el in ('e', 'p:e', 'p:elem'):
                for b in ({}, P, D, DP, PQ):
                    for room in (True, False):
                        if room and el == 'p:elem': continue
                        S.append(Sc(['a'], element=el, bound=b, room=room, **k))
                S += [Sc(['xmlns:p'], element=el, **k), Sc(['xmlns'], element=el, **k), Sc(['xmlns'], element=el, bound=D, room=False, **k), Sc(['xmlns:p', 'p:a'], element=el, bound=P, room=False, **k), Sc([], element=el, missing=True, bound=P, **k),
                      Sc(['a'], element=el, missing=True, bound=DP, **k), Sc(['p:a'], element=el, bound=P, **k), Sc(['p:a', 'q:a'], element=el, bound=SAME, **k)]
    # without namespace processing names are left alone
    for el in ('e', 'p:e'):
        S += [Sc(['xmlns:p', 'p:a', 'xmlns', 'q:a'], element=el, ns=False), Sc(['p:a'], [('xmlns:p', True, True), ('q:a', False, True)], element=el, ns=False, bound=DP)]
    return S


class Everything:
    def __contains__(s, x): return True
    def __or__(s, x): return s


def check_leave(ctx, p, tag):
    """the end of an element (end tag, empty-element tag, refused start tag) ends the declarations made by its start tag"""
    import steps, contract
    from steps import Eng, CHooks, PB, PA, POS, STP, QUIET, CALLS, set_handlers, step, LEN, START, settle
    from runs import args_content
    E = Eng(p)
    fn = p.one('doContent')
    ctx.seen(fn)
    n = 0
    B = [('sym', ('binding', k)) for k in range(2)]; X = [('sym', ('prefix of', k)) for k in range(2)]; O = [('sym', ('outer', k)) for k in range(2)]; NM = [('sym', ('name of', k)) for k in range(2)]
    F = ('sym', ('free list',)); TAGP = ('sym', ('the open element',)); NAMEB, LOCAL, PREF = (('sym', (q,)) for q in ('name of the open element', 'its local part', 'its prefix'))

    class H(CHooks):
        def on_call(s, ai, st, f, callee, term, fid):
            if callee.short == 'storeAtts':
                a = only(ai.scalar(st, f, fid, term[4][-1]))
                s.ev(st, ('bound in', a))
                out = CHooks.on_call(s, ai, st, f, callee, term, fid)
                for t, _ in out:
                    if isinstance(a, tuple) and a[0] == '&':
                        t.kill_alias(a[1], a[2]); t._d(a[1])[a[2]] = frozenset((B[0] if s.cnt else 0,))
                    t._d(PB)[('m_freeBindingList',)] = frozenset((F,))
                return out
            return CHooks.on_call(s, ai, st, f, callee, term, fid)

    for tok in ('END_TAG', 'EMPTY_ELEMENT_NO_ATTS', 'EMPTY_ELEMENT_WITH_ATTS', 'START_TAG_NO_ATTS', 'START_TAG_WITH_ATTS'):
        for cnt, triplets in ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1)) if tok == 'END_TAG' else ((0, 0), (1, 0), (2, 0)):
            sc = dict(conv=0, internal=0, more=0, stl=0, lvl=2, mbpc=1, tlen=3)
            ch = dict(QUIET); q = set(ch) - {'getContext'}; ch.update(CALLS)
            h = H(p, mask(E.tok[tok], 64), ch, quiet=q, mbpc=1, conv=0, lookups=dict.fromkeys(('generalEntities', 'paramEntities')), loops=('xmlTok',))
            h.keyed = ('generalEntities', 'paramEntities'); h.tlen = 3; h.cnt = cnt

            h.flat = True

            def su(ai, st, f):
                st.neq[PA] = frozenset((0,))
                for x in POS: st.neq[x] = frozenset((0,))
                set_handlers(st, E.slots, None)
                st.write(PB, STP, frozenset((1,)))
                args_content(sc)(st)
                st._d(PB)[('m_freeBindingList',)] = frozenset((F,))
                for k in range(cnt):
                    st.neq[B[k]] = st.neq[X[k]] = frozenset((0,))
                    b = st._d(('S', B[k]))
                    b[('prefix',)] = frozenset((X[k],)); b[('prevPrefixBinding',)] = frozenset((O[k],)); b[('nextTagBinding',)] = frozenset((B[k + 1] if k + 1 < cnt else 0,))
                    st._d(('S', X[k]))[('name',)] = frozenset((NM[k],)); st._d(('S', X[k]))[('binding',)] = frozenset((B[k],))
                if tok == 'END_TAG':
                    st.neq[TAGP] = frozenset((0,))
                    d = st._d(PB); d[('m_tagStack', '#')] = frozenset((1,)); d[('m_tagStack', 'v:Some', '0', '0', 'pointer', 'pointer')] = frozenset((TAGP,))
                    st._d(('S', TAGP))[('bindings',)] = frozenset((B[0] if cnt else 0,)); st._d(('S', TAGP))[('rawNameLength',)] = frozenset((3,))
                    st._d(('S', TAGP))[('parent', '#')] = frozenset((0,))
                    g = st._d(('S', TAGP))
                    for k, v in (('str_0', NAMEB), ('localPart', LOCAL if cnt < 2 else 0), ('uriLen', 3), ('prefix', PREF if cnt else 0)): g[('name', k)] = frozenset((v,))
                    put(st, NAMEB, [ord(c) for c in 'Ur|'] + [ord('X')] * 3 + [0]); put(st, LOCAL, [ord('l'), ord('o'), 0]); put(st, PREF, [ord('p'), ord('r'), 0])
                    for k, v in (('m_ns', 1), ('m_namespaceSeparator', SEPC)): d[(k,)] = frozenset((v,))
                    st._d(PB)[('m_ns_triplets',)] = frozenset((triplets,))
            ai = AI(p, h, budget=100000)
            ai.paths = 'widen'; ai.nowiden = Everything()
            paths = [Path(st, fid, ai, fn) for st, fid in ai.run(fn, su)]
            outs = [(st, ev, x.ret('#')) for x in paths for st, ev in settle(ai, x.st, x.ev)] + [(c, ev, None) for st, A in h.again for c, ev in settle(ai, st, st.q)]

            def ob(ok, key, msg): ctx.ob(ok, 'leave:%s:%s%s' % (tok, key, tag), fn.where(), '%s with %d declarations: %s' % (tok, cnt, msg))
            ob(bool(outs), 'result', 'no way through')
            for st, ev, r in outs:
                n += 1
                r = one_int(r) if r is not None else None
                called = [e for e in ev if e[0] == 'bound in']
                ends = [e for e in ev if 'm_endNamespaceDeclHandler' in str(e)[:120]]
                failed = st.eqs.get(('choice', 'storeAtts', 0)) == 'err'
                left = [st.read(('S', X[k]), ('binding',)) == frozenset((B[k],)) for k in range(cnt)]
                if tok.startswith('START'):
                    # the declarations stay in force and are kept with the element
                    if not called: continue
                    ob(all(left) and not ends, 'kept', 'the declarations do not stay in force')
                    if failed: continue
                    T = only(st.read(PB, ('m_tagStack', 'v:Some', '0', '0', 'pointer', 'pointer')))
                    if T is None: continue
                    ob(only(st.read(('S', T), ('bindings',))) == (B[0] if cnt else 0), 'kept', 'the declarations are not kept with the element: %s' % show(st.read(('S', T), ('bindings',))))
                    continue
                mismatch = tok == 'END_TAG' and st.eqs.get(('choice', 'memcmp', 0)) == 'differ'
                nomem = tok != 'END_TAG' and not called
                if mismatch or nomem: continue
                ob(all(only(st.read(('S', X[k]), ('binding',))) == O[k] for k in range(cnt)), 'restored', 'the declarations stay in force')
                unset = any(v == 0 for k, v in st.eqs.items() if isinstance(k, tuple) and k[:1] == ('sym',) and k[1][0] == 'fld' and 'm_endNamespaceDeclHandler' in k[1][1])
                if not unset and cnt: ob(len(ends) == cnt, 'report', '%d ends are reported' % len(ends))
                c = only(st.read(PB, ('m_freeBindingList',))); seen = set()
                while c in B and c not in seen:
                    seen.add(c); c = only(st.read(('S', c), ('nextTagBinding',)))
                ob(c == F and seen == set(B[:cnt]), 'free list', 'the bindings do not all go to the free list (%d of %d)' % (len(seen), cnt))
                if tok == 'END_TAG':
                    want = 'Ur|XXX' if cnt == 2 else 'Ur|lo' + ('|pr' if triplets and cnt else '')
                    es = [e for e in ev if e[0] == 'H' and e[1] == 'm_endElementHandler']
                    if es: ob(text(cstr(st, NAMEB)) == want and len(es[0][2]) == 2 and es[0][2][1] == frozenset((NAMEB,)), 'name', 'the name given to the end handler is %s instead of %s' % (text(cstr(st, NAMEB)), want))
                # the end of the element comes first
                el = [i for i, e in enumerate(ev) if 'm_endElementHandler' in str(e)[:120]]; en = [i for i, e in enumerate(ev) if e in ends]
                if el and en: ob(max(el) < min(en), 'order', 'the end of a declaration is reported before the end of the element')
    ctx.floor('ways to leave an element%s' % tag, n, 20)


def check(ctx):
    for feats in ([(), ('mozilla',)] if ctx.thorough else [()]):
        tag = ''.join(':' + f for f in feats)
        check_binding(ctx, ctx.prog('lib', feats), tag)
        check_element_prefix(ctx, ctx.prog('lib', feats), tag)
        check_attribute_id(ctx, ctx.prog('lib', feats), tag)
        check_free(ctx, ctx.prog('lib', feats), tag)
        check_leave(ctx, ctx.prog('lib', feats), tag)
        if not feats: atts.run_scenarios(ctx, ctx.prog('lib', feats), scenarios(), tag)
