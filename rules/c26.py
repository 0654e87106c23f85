"""The attributes of a start tag: which are reported, in what order, under which names, with what counts."""
from atts import *
from par import par
import c12, c25, tokatts, stepcheck
from absint import Budget

ASSUMPTIONS = ['a character is classified by the encoding primitives as its code point demands (separate property)', 'names of different declarations are different strings and lie in storage of their own',
               'containers of the standard library behave as documented']


def scenarios():
    S = []
    for ns in (True, False):
        k = dict(ns=ns)
        S += [Sc([], **k), Sc(['a'], **k), Sc(['a', 'b', 'c'], **k), Sc(['a', 'a'], **k), Sc(['a', 'b', 'a'], **k), Sc(['b', 'a', 'a'], internal=True, **k), Sc(['a', 'b', 'c', 'b', 'c'], **k)]
        S += [Sc(['a', 'b'], raw={0}, **k), Sc(['a', 'b'], raw={1}, **k), Sc(['a', 'b'], raw={0, 1}, internal=True, **k)]
        # defaults
        S += [Sc([], [('d', True, True)], **k), Sc(['d'], [('d', True, True)], **k), Sc(['a'], [('d', True, True), ('e', False, True)], **k), Sc(['e', 'a'], [('d', True, True), ('e', False, True)], **k),
              Sc(['a', 'd'], [('d', True, True), ('e', True, False), ('f', True, True)], **k), Sc(['a'], [('d', False, False)], **k), Sc(['d', 'a'], [('d', False, False)], **k),
              Sc(['a'], [('d', False, False), ('d', False, True)], **k), Sc(['d', 'd'], [('d', True, True)], **k), Sc(['a'], [('d', True, True), ('d', True, True)], **k)]
        # types: declared here, elsewhere, twice
        S += [Sc(['a', 'b'], [('a', False, False)], **k), Sc(['a', 'b'], [('a', False, True), ('b', True, True)], **k), Sc(['a'], elsewhere={'a'}, **k), Sc(['a', 'b'], [('b', False, False)], elsewhere={'a'}, **k),
              Sc(['a'], [('a', True, False), ('a', False, False)], **k), Sc(['a'], [('a', False, False), ('a', True, False)], **k), Sc(['a', 'b'], [('a', True, True)], elsewhere={'a', 'b'}, **k)]
        # ID attribute
        S += [Sc(['a'], idatt='a', **k), Sc(['b', 'c', 'a'], idatt='a', **k), Sc(['b'], idatt='a', **k), Sc(['b'], [('a', False, True)], idatt='a', **k), Sc(['b', 'a'], [('a', False, False), ('c', True, True)], idatt='a', **k),
              Sc([], [('a', False, True)], idatt='a', **k)]
        S += [Sc(['a', 'b'], missing=True, **k), Sc([], missing=True, **k), Sc(['a', 'a'], missing=True, **k)]
        # names with a colon, declarations among the attributes
        S += [Sc(['p:a', 'b', 'xmlns:p'], idatt='b', **k), Sc(['xmlns:p', 'b', 'p:a'], idatt='b', **k), Sc(['xmlns', 'a', 'xmlns:p', 'b'], [('d', True, True), ('xmlns:q', True, True), ('e', True, True)], idatt='b', **k),
              Sc(['xmlns', 'a'], [('p:a', True, True), ('q:b', True, True)], bound={'p': 'P', 'q': 'Q'}, **k), Sc(['p:a', 'p:a'], bound={'p': 'P'}, **k), Sc(['xmlns', 'a', 'xmlns'], **k),
              Sc(['xmlns:p', 'p:a'], [('p:a', False, True)], raw={0}, idatt='p:a', **k), Sc(['p:b', 'a', 'p:a'], bound={'p': 'P'}, idatt='p:a', **k), Sc(['a', 'p:b', 'p:a', 'b'], [('c', True, True)], bound={'p': 'P'}, triplets=True, idatt='b', **k)]
    return S


def effective(ds):
    """the declarations that count: the first of each attribute"""
    out = {}
    for n, c, v in ds: out.setdefault(n, (c, v))
    return out


def check_define(ctx, p, tag):
    """declaring an attribute: the first declaration counts"""
    fn = p.one('defineAttribute')
    ctx.seen(fn)
    E, A, B, V = (('sym', (q,)) for q in ('element type', 'attribute declared', 'another attribute', 'value declared'))
    n = 0
    for old in ([], [(B, 1, 0)], [(A, 1, 0)], [(A, 0, V)], [(B, 0, V), (A, 1, V)], [(A, 0, 0), (B, 1, V)], [(B, 0, 0), (B, 1, 0)]):
        for cdata in (0, 1):
            for isid in (0, 1):
                for val in (0, ('sym', ('new value',))):
                    for idatt in (0, B):
                        for xmlns in (0, 1):
                            def setup(ai, st, f):
                                for q in (E, A, B, V, ('sym', ('new value',))): st.neq[q] = frozenset((0,))
                                for k, q in enumerate((E, A, cdata, isid, val)): st._d(('L', 0, k + 1))[()] = frozenset((q,))
                                e = st._d(('S', E)); e[('idAtt',)] = frozenset((idatt,)); e[('defaultAtts', '#len')] = frozenset((len(old),))
                                for k, (i, c, v) in enumerate(old):
                                    for f2, q in (('id', i), ('isCdata', c), ('value', v)): e[('defaultAtts', ('i', k), f2)] = frozenset((q,))
                                st._d(('S', A))[('xmlns',)] = frozenset((xmlns,)); st._d(('S', A))[('maybeTokenized',)] = frozenset((0,))
                            h = SummHooks(None, cb=chain(Vecs(fail=True), search))
                            h.flat = True

                            def eq(ai, st, x, y, want):
                                if {x, y} == {A, B}: return not want
                                return remember_eq(ai, st, x, y, want)
                            h.on_refine_eq = eq
                            paths, ai = summarise(p, fn, h, setup, widen=False)
                            what = 'declaring %s%s attribute %s with %s declarations before: ' % ('a CDATA' if cdata else 'a tokenized', ' ID' if isid else '', 'with a default' if val else 'without a default', len(old))
                            def ob(ok, key, msg): ctx.ob(ok, 'define:%s%s' % (key, tag), fn.where(), what + msg)
                            ob(bool(paths), 'result', 'no way through')
                            for x in paths:
                                n += 1
                                r = one_int(x.ret()) if x.ret() is not None else one_int(x.ret('#'))
                                e = ('S', E)
                                L = one_int(x.st.mem[e].get(('defaultAtts', '#len')))
                                now = [tuple(only(x.st.read(e, ('defaultAtts', ('i', k), f2))) for f2 in ('id', 'isCdata', 'value')) for k in range(L or 0)]
                                idn = only(x.st.read(e, ('idAtt',)))
                                if any(q[0] == 'nomem' for q in x.ev):
                                    ob(r == 0, 'memory', 'an allocation failure is not reported'); continue
                                ob(r == 1, 'result', 'the result is %s' % r)
                                first = not any(i == A for i, _, _ in old)
                                want = effective(old + [(A, cdata, val)])
                                ob(effective(now) == want and [q[0] for q in now if q[0] is not None][:len(old)] == [q[0] for q in old], 'first',
                                   'the declarations in force are %s instead of %s' % (effective(now), want))
                                if first: ob(idn == (A if isid and not idatt and not xmlns else idatt), 'id', 'the ID attribute of the element type is %s' % (idn,))
                                else: ob(idn == idatt or isid and not idatt and not val, 'id', 'a repeated declaration changes the ID attribute')
                                if first and not cdata: ob(only(x.st.read(('S', A), ('maybeTokenized',))) == 1, 'kind', 'it is not recorded that values of the attribute may have to be normalized as tokens')
                                ob(only(x.st.read(('S', A), ('xmlns',))) == xmlns, 'kind', 'the attribute is changed')
    ctx.floor('paths declaring attributes%s' % tag, n, 200)


def check_stored(ctx, p):
    """a value that has to be normalised: scanned into the pool, a trailing space dropped unless the type is CDATA, terminated"""
    fn = p.one('storeAttributeValue')
    ctx.seen(fn)
    pool = ('P', 'pool'); cells = ('&', pool, ())
    n = 0
    for cdata in (0, 1):
        for text in ([], [32], [97], [97, 32], [32, 97], [32, 32], [97, 32, 32], [97, 0x10]):
            for err in (0, 1, 4, 11):
                def setup(ai, st, f):
                    for k, q in enumerate((('sym', ('parser',)), None, cdata, None, cells)):
                        if q is not None: st._d(('L', 0, k + 1))[()] = frozenset((q,))
                    st._d(('L', 0, 2))[('#',)] = frozenset((('sym', ('kind of encoding',)),))
                    st._d(('L', 0, 4))[('0',)] = frozenset((('sl', ('sym', ('text',)), ('sym', ('length',))),))

                P = Pools(fail=True)

                def scan(h, ai, st, fn_, callee, term, fid):
                    if callee.short != 'appendAttributeValue': return None
                    A = h.args(ai, st, fn_, fid, term)
                    b = ai.resolve(st, fn_, fid, term[4][3][1], term[1])[0][0] if term[4][3][0] in 'cm' else None
                    src = only(st.read(b[0], b[1] + ('0',))) if b else None
                    h.ev(st, ('scan', only(A[0]), only(A[2]), src, only(A[4])))
                    a = only(A[4])
                    P.set(st, a, P.chars(st, a) + text)
                    d = ai.resolve(st, fn_, fid, term[5], term[1])[0][0]
                    st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((err,))
                    return [(st, 'done')]
                h = SummHooks(None, cb=chain(scan, P))
                paths, ai = summarise(p, fn, h, setup, widen=False)
                what = 'storing a %s value that reads %s after scanning%s: ' % ('CDATA' if cdata else 'tokenized', [chr(c) for c in text], ', error %d' % err if err else '')
                def ob(ok, key, msg): ctx.ob(ok, 'stored:' + key, fn.where(), what + msg)
                ob(bool(paths), 'result', 'no way through')
                for x in paths:
                    n += 1
                    r = one_int(x.ret('#')) if x.ret('#') is not None else one_int(x.ret())
                    sc = [e for e in x.ev if e[0] == 'scan']
                    ob(sc == [('scan', ('sym', ('parser',)), cdata, ('sl', ('sym', ('text',)), ('sym', ('length',))), cells)], 'scan', 'the text is not scanned once as given, but %s' % (sc,))
                    if err: ob(r == err, 'result', 'the result is %s' % r); continue
                    if any(e[0] == 'nomem' for e in x.ev): ob(r == 1, 'memory', 'an allocation failure gives %s' % r); continue
                    want = (text[:-1] if not cdata and text[-1:] == [32] else text) + [0]
                    ob(r == 0, 'result', 'the result is %s' % r)
                    ob(P.chars(x.st, cells) == want, 'text', 'stored as %s' % (P.chars(x.st, cells),))
    ctx.floor('paths storing values', n, 50)


def check_tags(ctx, p):
    """picking the attributes out of the text of the tag"""
    groups = {}; n = 0
    for f in p.fns:
        if f.short != 'getAtts' or f.blocks is None or not f.local or f.argc != 3 or 'dyn ' in f.name.split(' as ')[0]: continue
        sig, prim, fns = c12.closure(p, f)
        if not any(c.short == 'byte_type' for c in prim): continue       # forwarding encodings (detection) have no scanner of their own
        u = c12.unit(p, prim)
        if not ctx.ob(u in (1, 2), 'unit:%s' % f.name.split('::')[-2], f.where(), 'undecided: code unit size %s' % u): continue
        ctx.seen(*fns); n += 1
        groups.setdefault((u, sig), []).append(f)
    ctx.floor('instances of getAtts', n, 7)

    def job(f, u, ns):
        def run():
            try: ai = tokatts.attributes(p, f, u, ns); v = dict(ai.viols); st = ai.nstates; rep = ai.h.reports
            except Budget as e: v = {'undecided': 'not decided: %s' % e}; st = rep = 0
            ctx.obligations += st; ctx.discharged += max(0, st - len(v))
            ctx.ob(rep > 0 or bool(v), 'tag:%d:reports' % u, f.where(), 'no attribute is ever reported')
            for k, m in v.items(): ctx.viol('tag:%d:%s' % (u, k), f.where(), m)
            ctx.stats['states of tag scanner %d %d %s' % (u, ns, f.name[-60:])] = st
        return run
    par(ctx, [job(f, u, ns) for (u, sig), fs in groups.items() for f in (fs if ctx.thorough else fs[:1]) for ns in (0, 1)])


def check(ctx):
    ctx.rule('The scanner that picks the attributes out of a start tag is explored for tags of any length next to the grammar of start tags: every call-back must name exactly the places of '
             'the next attribute and must not call a value normalised that is not.')
    ctx.rule('Values that need it are scanned (all paths of the value scanner per token against spec/value_spec.py), lose a trailing space unless CDATA, and are terminated.')
    ctx.rule('A start tag is run symbolically in %d situations that differ in the attributes written, declared and inherited; on every path the list of names and values, the counts, the marks, the lookups and '
             'the kind of normalization are compared with what the situation demands.' % len(scenarios()))
    for feats in [()]:
        p = ctx.prog('lib', feats)
        check_tags(ctx, p)
        check_stored(ctx, p)
        c25.check_functions(ctx, p)
        v = stepcheck.run_values(ctx, ('attval',), lambda name, what: True)
        ctx.floor('value scanner paths', v, 300)
        run_scenarios(ctx, p, scenarios(), '')
        check_define(ctx, p, '')
