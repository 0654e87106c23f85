"""What a parser for an external entity takes over from its parent."""
from summ import *
from tables import Tables
from c19 import NP, NB, HANDLERS, FRESH, MODES, H, hook as fresh_hook, show, norm, fields_of, enc

ASSUMPTIONS = ['the parent handle is valid or null; containers of the standard library behave as documented']
OLD = ('sym', ('fld', ('arg', 1), ('v:Some', '0')))
OB = ('S', OLD)
CTX = ('sym', ('arg', 2))
NOT_TAKEN = ['startDoctypeDecl', 'endDoctypeDecl']
TAKEN = [('m_%sHandler' % n) for n in HANDLERS if n not in NOT_TAKEN] + ['m_unknownEncodingHandler']
COPIED = [(H, n) for n in TAKEN] + [('m_userData',), ('m_declElementType',), ('m_defaultExpandInternalEntities',), ('m_ns_triplets',), ('m_paramEntityParsing',),
                                    ('m_prologState', 'inEntityValue')]
OWN = {('m_processor', '#'), ('m_processor', 'v:Some', '0'), ('m_prologState', 'handler', '#'), ('m_prologState', 'documentEntity'), ('is_child_parser',), ('m_isParamEntity',),
       (H, 'm_handlerArg'), (H, 'm_externalEntityRefHandlerArg')} | {(H, 'm_%sHandler' % n, '#') for n in HANDLERS if n not in NOT_TAKEN}


def is_old(V, f, x=None):
    return V is not None and len(V) == 1 and all(isinstance(a, tuple) and a[0] == 'sym' and a[1][0] == 'ld' and a[1][1] == OB and a[1][2] == f for a in V)


def same(x, f):
    """field f of the child has the value of the parent's"""
    for g in (f, f + ('#',)):
        V = x.st.read(NB, g); W = x.st.read(OB, g)
        if V is not None and V == W and len(V) == 1: return True
        if is_old(V, g) or is_old(V, f): return True
    # copied by cases
    whole = ('ld', OB, f, None)
    D = x.st.read(NB, f + ('#',))
    if D is not None and len(D) == 1:
        d = next(iter(D))
        if d in (x.st.norm(('sym', ('fld', whole, ('#',)))), x.st.norm(('sym', ('ld', OB, f + ('#',), None)))):
            if d == 0: return True
            P = x.st.read(NB, f + ('v:Some', '0'))
            return P is not None and P <= frozenset((('sym', ('fld', whole, ('v:Some', '0'))), ('sym', ('ld', OB, f + ('v:Some', '0'), None)))) and bool(P)
    return False


def source(x, base, f, seen=0):
    """the symbols a pointer-like field (an Rc) was made from"""
    out = set()
    for pa, V in x.st.mem.get(base, {}).items():
        if pa[:len(f)] == f and V: out |= {str(a) for a in V}
    return out


def check_parser(ctx, p, tag):
    fn = p.one('XML_ExternalEntityParserCreate')
    base_cb = fresh_hook(p)

    def cb(h, ai, st, f, callee, term, fid):
        if callee.short == 'clone' and 'Rc' in callee.name and 'DTD' in callee.name:
            A = h.args(ai, st, f, fid, term)
            h.ev(st, ('share', A[0]))
            return [(st, frozenset((('sym', ('shared',)),)))]
        if callee.short == 'try_clone' and 'DTD' in callee.name:
            return h.opaque_call(ai, st, f, 'copy declarations', term, fid, havoc=False)
        if callee.short in ('try_new', 'new') and 'Rc' in callee.name and 'DTD' in callee.name:
            return h.opaque_call(ai, st, f, 'Rc::new', term, fid, havoc=False)
        if callee.short == 'setContext':
            A = h.args(ai, st, f, fid, term)
            out = []
            for v in (0, 1):
                t = st.copy(); h.ev(t, ('context', A, v)); out.append((t, frozenset((v,))))
            return out
        return base_cb(h, ai, st, f, callee, term, fid)
    h = SummHooks(None, opaque={'copy_c_string'}, cb=cb)
    h.on_refine_eq = remember_eq
    paths, ai = summarise(p, fn, h, None, budget=400000)
    ctx.seen(fn)
    good = [x for x in paths if x.ret() == frozenset((NP,))]
    bad = [x for x in paths if x.ret() != frozenset((NP,))]
    ctx.ob(all(x.ret() == frozenset((0,)) for x in bad), 'child:result' + tag, fn.where(), 'something other than the new parser or null is returned')
    for x in bad:
        refused = [e for e in x.ev if e[0] == 'context']
        ctx.ob(all(e[2] == 0 for e in refused), 'child:null' + tag, fn.where(), 'null is returned although the context was accepted')
    ini = p.one('XmlPrologStateInitExternalEntity')
    PS = ('sym', ('arg', 1))
    ip, _ = summarise(p, ini, SummHooks(None), lambda ai, st, f: st.neq.__setitem__(PS, frozenset((0,))))
    ext = {(x.st.read(('S', PS), ('handler', 'v:Some', '0')), x.st.read(('S', PS), ('documentEntity',)), x.st.read(('S', PS), ('includeLevel',))) for x in ip}
    known = fields_of(p)
    kinds = set()
    for x in good:
        nonnull = 0 in x.st.neq.get(CTX, ())
        isnull = x.st.norm(CTX) == 0 or not nonnull
        kinds.add(nonnull)
        what = 'general' if nonnull else 'parameter'
        def ob(ok, key, msg): ctx.ob(ok, 'child:%s:%s%s' % (what, key, tag), fn.where(), msg)
        for f in COPIED:
            if f not in known: continue
            ob(same(x, f), f[-1], 'the parser of a %s entity has %s for %s, not what its parent has' % (what, show(x.st.read(NB, f)), '.'.join(f)))
        for f, want in FRESH.items():
            core = f[:f.index('#')] if '#' in f else f[:f.index('v:Some')] if 'v:Some' in f else f
            if f in OWN or core in COPIED or core not in known or core == ('m_positionIdx',) or core == ('m_prologState', 'includeLevel'): continue
            V = norm(p, x.st.read(NB, f), NP)
            ob(V == frozenset((want,)), core[-1], 'the parser of a %s entity starts with %s for %s, specified %s' % (what, show(V), '.'.join(core), want))
        ob(x.st.read(NB, ('is_child_parser',)) == frozenset((1,)), 'child', 'the new parser is not marked as a child')
        # namespaces
        ns = x.st.read(NB, ('m_ns',)); old = x.st.read(OB, ('m_ns',))
        ob(ns is not None and (ns == old or is_old(ns, ('m_ns',))), 'namespaces', 'namespace processing is %s in the child and %s in the parent' % (show(ns), show(old)))
        if ns == frozenset((1,)):
            V = x.st.read(NB, ('m_namespaceSeparator',))
            ob(same(x, ('m_namespaceSeparator',)), 'separator', 'the separator is %s, not the parent\'s' % show(V))
        # handler arguments
        A = x.st.read(NB, (H, 'm_handlerArg'))
        U = ('sym', ('ld', OB, ('m_userData',), None)); HA = ('sym', ('ld', OB, (H, 'm_handlerArg'), None))
        eq = known_eq(x, U, HA)
        if eq is None: ob(False, 'handler argument', 'the handler argument does not depend on whether the parent passes its user data')
        else:
            ok = (A is not None and A <= frozenset((U, HA)) and bool(A)) if eq else A == frozenset((NP,))
            ob(ok, 'handler argument', 'the parent passes %s to its handlers and the child %s' % ('its user data' if eq else 'itself', show(A)))
        E = x.st.read(NB, (H, 'm_externalEntityRefHandlerArg'))
        EA = ('sym', ('ld', OB, (H, 'm_externalEntityRefHandlerArg'), None))
        eq = known_eq(x, EA, OLD)
        if eq is None: ob(False, 'reference argument', 'the external entity reference argument does not depend on whether the parent passes itself')
        else: ob(E == frozenset((NP,)) if eq else E == frozenset((EA,)), 'reference argument', 'the parent passes %s to its external entity reference handler and the child %s' % ('itself' if eq else 'the argument set', show(E)))
        # declarations
        ctxs = [e for e in x.ev if e[0] == 'context']
        shared = [e for e in x.ev if e[0] == 'share']
        copies = [e for e in x.ev if e[0] == 'call' and e[1] == 'copy declarations']
        S = source(x, NB, ('m_dtd',))
        if nonnull:
            ob(len(copies) == 1 and any('Rc::new' in s for s in S), 'declarations', 'the declarations are not a copy of the parent\'s (%s)' % ', '.join(sorted(S))[:200])
            ob(len(ctxs) == 1 and ctxs[0][1][0] == frozenset((NP,)) and ctxs[0][1][1] == frozenset((CTX,)) and ctxs[0][2] == 1, 'context', 'the context string is not applied to the new parser')
            proc, doc = 'externalEntityInitProcessor', 1
        else:
            ob(len(shared) == 1 and not copies and any('shared' in s for s in S), 'declarations', 'the parser of a parameter entity does not share the declarations (%s)' % ', '.join(sorted(S))[:200])
            ob(not ctxs, 'context', 'a context is applied to the parser of a parameter entity')
            proc, doc = 'externalParEntInitProcessor', 0
            hd = (x.st.read(NB, ('m_prologState', 'handler', 'v:Some', '0')), x.st.read(NB, ('m_prologState', 'documentEntity')), x.st.read(NB, ('m_prologState', 'includeLevel')))
            ob(len(ext) == 1 and hd in ext and None not in hd, 'grammar', 'the parser of a parameter entity does not start in the grammar state of an external subset')
        for e in copies + shared:
            A0 = e[2][0] if e[0] == 'call' else e[1]
            okp = A0 is not None and all(isinstance(a, tuple) and (a == ('&', OB, ('m_dtd',)) or "'m_dtd'" in str(a)) and str(OLD) in str(a) for a in A0)
            ob(okp, 'declarations', 'the declarations come from %s, not from the parent' % show(A0))
        P = norm(p, x.st.read(NB, ('m_processor', 'v:Some', '0')), NP)
        ob(P == frozenset((proc,)), 'processor', 'the parser of a %s entity starts with %s' % (what, show(P)))
        ob(norm(p, x.st.read(NB, ('m_prologState', 'documentEntity')), NP) == frozenset((doc,)), 'document', 'the parser of a %s entity regards its input as the document entity: %s' % (what, show(x.st.read(NB, ('m_prologState', 'documentEntity')))))
        ob(x.st.read(NB, ('m_isParamEntity',)) == frozenset((1 - doc,)), 'parameter entity', 'the parser of a %s entity has m_isParamEntity %s' % (what, show(x.st.read(NB, ('m_isParamEntity',)))))
        enc(ctx, p, x, fn, NB, 3, 'child:' + what, tag)
        # the parent is only read
        w = [e for e in x.ev if e[0] == 'w' and e[1] == OB]
        ob(not w, 'parent', 'creating a child changes %s of the parent' % ', '.join('.'.join(map(str, e[2])) for e in w))
    ctx.ob(kinds == {True, False}, 'child:kinds' + tag, fn.where(), 'a parser is not made for both a context and no context')
    ctx.floor('paths creating a child parser%s' % tag, len(good), 4)


def old(name, i, *f):
    return ('sym', ('ld', ('S', ('sym', ('old', name, i))), f, None))


def copy_of(a): return ('sym', ('copy', a))


def check_copy(ctx, p, tag):
    """the copy of the declarations a general entity's parser works with"""
    fs = [f for f in p.fns if f.short == 'try_clone' and f.blocks and f.name.endswith('DTD::try_clone')]
    ctx.ob(len(fs) == 1, 'copy:function' + tag, 'src/lib/xmlparse.rs', 'the function copying the declarations was not found')
    if len(fs) != 1: return
    fn = fs[0]

    def extra(h, ai, st, f, callee, term, fid):
        if callee.short == 'try_new' and 'StringPool' in callee.name:
            return h.opaque_call(ai, st, f, 'newpool', term, fid, havoc=False)
        if callee.short == 'clone' and 'Rc' in callee.name:
            h.ev(st, ('share', h.args(ai, st, f, fid, term)[0]))
            return [(st, frozenset((('sym', ('shared',)),)))]
    h = SummHooks(None, cb=Tables(limits={'generalEntities': 2, 'paramEntities': 2}, extra=extra, solo=True))
    h.on_refine_eq = remember_eq
    h.on_bin = same_address
    S = ('sym', ('arg', 1)); SB = ('S', S)
    paths, ai = summarise(p, fn, h, lambda ai, st, f: st.neq.__setitem__(S, frozenset((0,))), budget=1500000, widen=False)
    ctx.seen(fn)
    good = [x for x in paths if x.ret('#') == frozenset((0,))]
    bad = [x for x in paths if x.ret('#') != frozenset((0,))]
    def ob(ok, key, msg): ctx.ob(ok, 'copy:%s%s' % (key, tag), fn.where(), msg)
    for x in bad: ob(any(e[0] == 'fail' or e[0] == 'call' and e[1] == 'newpool' for e in x.ev) and x.ret('#') == frozenset((1,)), 'failure', 'copying fails although nothing did')
    for x in good: ob(not any(e[0] == 'fail' for e in x.ev), 'swallowed', 'copying goes on after %s failed' % ', '.join(e[1] for e in x.ev if e[0] == 'fail'))
    seen = {}
    RB, RP = ('L', 0, 0), ('v:Ok', '0')
    for x in good:
        st = x.st
        for f in ('keepProcessing', 'hasParamEntityRefs', 'standalone', 'paramEntityRead', 'in_eldecl', 'contentStringLen'):
            V = next((W for W in (st.read(RB, RP + (f,) + g) for g in (('value', 'value'), ('value',), ())) if W), None)
            ok = V is not None and all(isinstance(a, tuple) and a[0] == 'sym' and "'%s'" % f in str(a) and str(SB) in str(a) for a in V)
            ob(ok, f, '%s of the copy is %s, not that of the original' % (f, show(V)))
        for f in ('name', 'binding'):
            V = next((W for W in (st.read(RB, RP + ('defaultPrefix',) + g + (f,)) for g in (('value', 'value'), ('value',), ())) if W), None)
            ob(V == frozenset((0,)), 'default prefix', 'the default namespace of the copy has %s %s' % (f, show(V)))
        elems = [e for e in x.ev if e[0] == 'elem' and e[4]]
        ends = {e[1] for e in x.ev if e[0] == 'end'}
        for t in ('prefixes', 'attributeIds', 'elementTypes', 'generalEntities', 'paramEntities'):
            ob(t in ends, t, 'the table %s is not copied' % t)
        for k, e in enumerate(elems):
            t, i = e[1], e[2]
            seen[t] = max(seen.get(t, 0), i + 1)
            def bad(what, got): ob(False, '%s.%s' % (t, what), '%s of a copied entry of %s is %s' % (what, t, got))
            # the events of this element
            lo = x.ev.index(e); hi = x.ev.index(elems[k + 1]) if k + 1 < len(elems) else len(x.ev)
            seg = x.ev[lo:hi]
            key = copy_of(('po', old(t, i, 'name', '0'), 1) if t == 'attributeIds' else old(t, i, 'name'))
            ins = [y for y in seg if y[0] == 'insert']
            if len(ins) != 1 or ins[0][2] != key or ins[0][3] is None:
                bad('entry', 'not entered under the name of the original: %s' % [y[2] for y in ins]); continue
            dst = ins[0][1]
            ok = isinstance(dst, tuple) and dst[0] == '&' and dst[1][0] != 'S' and [c for c in dst[2] if c != 'value'][-1] == t
            if not ok: bad('table', 'entered into %s' % (dst,)); continue
            if t == 'attributeIds':
                app = [y for y in seg if y[0] in ('append', 'copied')]
                ob(bool(app) and app[0][0] == 'append' and app[0][2] == 0 and [y[0] for y in app].count('append') == 1, 'attributeIds.type character', 'the name of a copied attribute is not preceded by the type character')
            N = ins[0][3]; NO = ('S', N)
            def fld(*f):
                V = st.read(NO, f)
                return V
            def expect(what, V, want):
                ob(V is not None and bool(V) and V <= frozenset(want), '%s.%s' % (t, what), '%s of a copied entry of %s is %s, specified %s' % (what, t, show(V), ' or '.join(map(str, want))))
            nm = fld('name', '0') if t == 'attributeIds' else fld('name')
            expect('name', nm, [key])
            def ref(what, V, ptr, table, keyf):
                if st.norm(ptr) == 0: expect(what, V, [0])
                elif 0 in st.neq.get(ptr, ()):
                    kk = ('sym', ('ld', ('S', ptr), ('name',), None))
                    kk2 = ('sym', ('fld', ('ld', ('S', ptr), ('name',), None), ('0',)))
                    kk3 = ('sym', ('ld', ('S', ptr), ('name', '0'), None))
                    expect(what, V, [('sym', ('entry', table, q)) for q in (kk, kk2, kk3)])
                else: expect(what, V, ['a value depending on whether the original has one'])
            if t == 'prefixes': expect('binding', fld('binding'), [0])
            if t == 'attributeIds':
                expect('maybeTokenized', fld('maybeTokenized'), [old(t, i, 'maybeTokenized')])
                ptr = old(t, i, 'prefix')
                dp = ('&', SB, ('defaultPrefix',))
                isdef = st.eqs.get(('eq', frozenset((ptr, dp))))
                if isdef:
                    V = fld('prefix')
                    ok = V is not None and len(V) == 1 and all(isinstance(a, tuple) and a[0] == '&' and a[1][0] != 'S' and a[2][-1:] == ('defaultPrefix',) for a in V)
                    ob(ok, 'attributeIds.default prefix', 'an attribute of the default prefix has %s in the copy' % show(V))
                elif st.norm(ptr) != 0 and isdef is None: ob(False, 'attributeIds.default prefix', 'the default prefix is not distinguished')
                else: ref('prefix', fld('prefix'), ptr, 'prefixes', 0)
                expect('xmlns', fld('xmlns'), [old(t, i, 'xmlns')] + ([0] if st.norm(ptr) == 0 else []))
            if t == 'elementTypes':
                ref('idAtt', fld('idAtt'), old(t, i, 'idAtt'), 'attributeIds', 0)
                ref('prefix', fld('prefix'), old(t, i, 'prefix'), 'prefixes', 0)
                atts = [y for y in seg if y[0] == 'elem' and not y[4]]
                push = [y for y in seg if y[0] == 'push']
                ob(any(y[0] == 'end' and y[1] == 'defaultAtts' for y in seg), 'defaultAtts', 'the default attributes of an element type are not walked over')
                ob(len(atts) == len(push), 'defaultAtts', '%d default attributes of an element type become %d' % (len(atts), len(push)))
                for y, z in zip(atts, push):
                    seen['defaultAtts'] = 1
                    o = ('sym', ('old', 'defaultAtts', y[2]))
                    ob(y[3] == ('&', ('S', ('sym', ('old', t, i))), ('defaultAtts',)) and z[1] == ('&', NO, ('defaultAtts',)), 'defaultAtts.owner', 'default attributes of one element type are added to another')
                    tree = dict(z[2] or ())
                    ref('default attribute', tree.get(('id',)), ('sym', ('ld', ('S', o), ('id',), None)), 'attributeIds', 0) if 0 in st.neq.get(('sym', ('ld', ('S', o), ('id',), None)), ()) else expect('default attribute', tree.get(('id',)), [
                        ('sym', ('entry', 'attributeIds', q)) for q in (('sym', ('fld', ('ld', ('S', ('sym', ('ld', ('S', o), ('id',), None))), ('name',), None), ('0',))), ('sym', ('ld', ('S', ('sym', ('ld', ('S', o), ('id',), None))), ('name', '0'), None)))])
                    expect('default attribute type', tree.get(('isCdata',)), [('sym', ('ld', ('S', o), ('isCdata',), None))])
                    v = ('sym', ('ld', ('S', o), ('value',), None))
                    expect('default value', tree.get(('value',)), [0] if st.norm(v) == 0 else [copy_of(v)])
            if t in ('generalEntities', 'paramEntities'):
                def s_copy(f, also=()):
                    a = old(t, i, f)
                    want = [0] if st.norm(a) == 0 else [copy_of(a)] + list(also)
                    expect(f, fld(f), want)
                ext = 0 in st.neq.get(old(t, i, 'systemId'), ())
                s_copy('systemId'); s_copy('notation')
                for f in ('is_param', 'is_internal'): expect(f, fld(f), [old(t, i, f)])
                if ext:
                    s_copy('publicId')
                    b = old(t, i, 'base')
                    also = [copy_of(old(t, j, 'base')) for j in range(i) if st.eqs.get(('eq', frozenset((b, old(t, j, 'base')))))]
                    s_copy('base', also)
                else:
                    expect('textPtr', fld('textPtr'), [('sym', ('copyn', old(t, i, 'textPtr'), old(t, i, 'textLen')))])
                    expect('textLen', fld('textLen'), [old(t, i, 'textLen')])
                expect('open', fld('open'), [0])
    for t in ('prefixes', 'attributeIds', 'elementTypes', 'generalEntities', 'paramEntities', 'defaultAtts'):
        ob(seen.get(t, 0) >= 1, t, 'no entry of the table %s is copied' % t)
    ctx.floor('paths copying declarations%s' % tag, len(good), 15)


def known_eq(x, a, b):
    """does this path know that a == b (True), a != b (False) or nothing (None)?"""
    if x.st.norm(a) == x.st.norm(b): return True
    return x.st.eqs.get(('eq', frozenset((a, b))))


def same_address(ai, op, a, b, w, sg):
    if op in ('Eq', 'Ne') and {a[0] if isinstance(a, tuple) else 0, b[0] if isinstance(b, tuple) else 0} == {'sym', '&'}: return ('op', op, a, b)
    return None


def check(ctx):
    ctx.rule('The creation of a parser for an external entity is summarised path by path over a symbolic parent: every field of the child is compared with the parent\'s '
             '(handlers, user data, modes), with the table of an unused parser, or with what the kind of entity demands (declarations copied or shared, context, first processing step, grammar state).')
    for feats in ([(), ('mozilla',)] if ctx.thorough else [()]):
        tag = ''.join(':' + f for f in feats)
        check_parser(ctx, ctx.prog('lib', feats), tag)
        check_copy(ctx, ctx.prog('lib', feats), tag)
