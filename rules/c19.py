"""A reset parser is a new parser; what creation and reset leave in the parser and its declarations."""
from summ import *

ASSUMPTIONS = ['the parser is not reset from inside one of its own callbacks', 'clearing a container of the standard library or a string pool empties it']
PA = ('sym', ('arg', 1))
PB = ('S', PA)
NP = ('sym', ('newparser',))
NB = ('S', NP)
DT = ('sym', ('dtd',))
DB = ('S', DT)
OPAQUE = {'copy_c_string', 'clear', 'moveToFreeBindingList'}
KEEP = ['m_unknownEncodingHandler', 'm_unknownEncodingHandlerData']
HANDLERS = ['attlistDecl', 'characterData', 'comment', 'default', 'elementDecl', 'endCdataSection', 'endDoctypeDecl', 'endElement', 'endNamespaceDecl',
            'entityDecl', 'externalEntityRef', 'notationDecl', 'notStandalone', 'processingInstruction', 'skippedEntity', 'startCdataSection',
            'startDoctypeDecl', 'startElement', 'startNamespaceDecl', 'unparsedEntityDecl', 'xmlDecl']
H = 'm_handlers'
# every observable field of a parser nobody has used yet ('self': the parser's own address)
FRESH = {('m_userData',): 0, (H, 'm_handlerArg'): 0, (H, 'm_externalEntityRefHandlerArg'): 'self',
         (H, 'm_unknownEncoding', '#'): 0, (H, 'm_unknownEncodingData'): 0, (H, 'm_unknownEncodingRelease', '#'): 0,
         ('m_bufferStart',): 0, ('m_bufferEnd',): 0, ('m_parseEndByteIndex',): 0, ('m_parseEndIdx',): 0,
         ('m_processor', '#'): 1, ('m_processor', 'v:Some', '0'): 'prologInitProcessor', ('m_prologState', 'handler', '#'): 1,
         ('m_prologState', 'documentEntity'): 1, ('m_prologState', 'includeLevel'): 0, ('m_prologState', 'inEntityValue'): 0,
         ('m_errorCode', '#'): 0, ('m_eventPtr',): 0, ('m_eventEndPtr',): 0, ('m_positionIdx', '#'): 1, ('m_positionIdx', 'v:Some', '0'): 0,
         ('m_position', 'lineNumber'): 0, ('m_position', 'columnNumber'): 0,
         ('m_openInternalEntities',): 0, ('m_defaultExpandInternalEntities',): 1, ('m_tagLevel',): 0, ('m_tagStack', '#'): 0,
         ('m_inheritedBindings',): 0, ('m_nSpecifiedAtts',): 0, ('m_curBase',): 0, ('m_initEncoding', '#'): 1,
         ('is_child_parser',): 0, ('m_parsingStatus', 'parsing', '#'): 0, ('m_isParamEntity',): 0, ('m_useForeignDTD',): 0,
         ('m_paramEntityParsing', '#'): 0}
for n in ('m_declEntity', 'm_doctypeName', 'm_doctypeSysid', 'm_doctypePubid', 'm_declAttributeType', 'm_declNotationName', 'm_declNotationPublicId',
          'm_declElementType', 'm_declAttributeId', 'm_declAttributeIsCdata', 'm_declAttributeIsId'): FRESH[(n,)] = 0
for n in HANDLERS: FRESH[(H, 'm_%sHandler' % n, '#')] = 0
MODES = ['m_ns', 'm_ns_triplets', 'm_namespaceSeparator']
CONTAINERS = {'pool': 'the string pool', 'entityValuePool': 'the entity value pool', 'generalEntities': 'the general entities', 'paramEntities': 'the parameter entities',
              'elementTypes': 'the element types', 'attributeIds': 'the attribute names', 'prefixes': 'the prefixes', 'scaffold': 'the content model scaffold', 'index': 'the content model stack'}
FLAGS = {('paramEntityRead', 'value'): 0, ('in_eldecl', 'value'): 0, ('contentStringLen', 'value'): 0, ('keepProcessing', 'value'): 1, ('hasParamEntityRefs', 'value'): 0,
         ('standalone', 'value'): 0, ('defaultPrefix', 'value', 'name'): 0, ('defaultPrefix', 'value', 'binding'): 0}


def tname_of(p, t):
    k = p.tk(t)
    while k[0] in ('ptr', 'ref'): k = p.tk(k[1])
    return p.tname(t)


def hook(p):
    size = p.tsize(p.find_adt('Position')) if hasattr(p, 'tsize') else 16

    def cb(h, ai, st, fn, callee, term, fid):
        sh = callee.short
        if sh == 'get_mut' and 'Rc' in callee.name:
            past = [e for e in (st.q or ()) if e[0] in ('getmut', 'newdtd')]
            out = []
            for v in ((1,) if past and (past[-1][0] == 'newdtd' or past[-1][1] == 1) else (0, 1) if not past else (0,)):
                t = st.copy()
                locs, _ = ai.resolve(t, fn, fid, term[5])
                for b, pa in locs:
                    t.write(b, pa, None)
                    t._d(b)[pa + ('#',)] = frozenset((v,))
                    if v: t._d(b)[pa + ('v:Some', '0')] = frozenset((DT,))
                h.ev(t, ('getmut', v))
                out.append((t, 'done'))
            return out
        if sh in ('try_new', 'new', 'default') and len(term[4]) == 0 and 'DTD' in p.tname(callee.locals[0] if callee.locals else 0) and 'DTDTables' not in p.tname(callee.locals[0]) and 'DTDScaffold' not in p.tname(callee.locals[0]):
            r = h.opaque_call(ai, st, fn, 'DTD::new', term, fid, havoc=False)
            h.ev(st, ('newdtd',))
            return r
        if sh in ('try_new', 'new') and 'boxed' in callee.name and term[4] and 'XML_ParserStruct' in callee.name:
            out = []
            a = term[4][0]
            src, _ = ai.resolve(st, fn, fid, a[1]) if a[0] != 'k' else ([], 0)
            for ok in ((1, 0) if sh == 'try_new' else (1,)):
                t = st.copy()
                locs, _ = ai.resolve(t, fn, fid, term[5])
                b, pa = locs[0]
                t.write(b, pa, None)
                if sh == 'try_new': t._d(b)[pa + ('#',)] = frozenset((1 - ok,))
                if ok:
                    for sb, sp in src[:1]: t.copy_tree(sb, sp, NB, ())
                    t.neq[NP] = frozenset((0,))
                    t._d(b)[pa + ((('v:Ok', '0') if sh == 'try_new' else ())) + ('0', 'pointer', 'pointer')] = frozenset((NP,))
                out.append((t, 'done'))
            return out
        if sh in ('memset', 'write_bytes', 'rmemset') and len(term[4]) == 3:
            A = h.args(ai, st, fn, fid, term)
            if A[0] and len(A[0]) == 1 and A[1] == frozenset((0,)):
                a = next(iter(A[0]))
                if a[0] == '&' and a[2] == ('m_position',) and A[2] in (frozenset((size,)), frozenset((1,)) if sh == 'write_bytes' else None):
                    st.write(a[1], a[2], None)
                    for f in ('lineNumber', 'columnNumber'): st._d(a[1])[a[2] + (f,)] = frozenset((0,))
                    return [(st, frozenset((a,)))]
        return None
    return cb


def show(V):
    if V is None: return 'unknown'
    return '{%s}' % ', '.join(sorted(x[1] if isinstance(x, tuple) and x[0] == 'fnname' else str(x) for x in V))


def norm(p, V, self):
    if V is None: return None
    return frozenset('self' if a == self else p.fns[a[1]].short if isinstance(a, tuple) and a[0] == 'fn' else a for a in V)


def fields_of(p):
    def walk(t, path):
        k = p.tk(t)
        if k[0] == 'adt' and k[2] == 'struct':
            for f, ft in k[4][0][2]: yield from walk(ft, path + (f,))
        yield path
    return set(walk(p.find_adt('XML_ParserStruct'), ()))


def fresh_ob(ctx, p, what, fn, paths, base, self, skip=()):
    known = fields_of(p)
    n = 0
    for f, want in sorted(FRESH.items(), key=str):
        core = f[:f.index('#')] if '#' in f else f[:f.index('v:Some')] if 'v:Some' in f else f
        if core not in known or f[:2] in skip: continue
        n += 1
        bad = None
        for x in paths:
            V = norm(p, x.st.read(base, f), self)
            if V != frozenset((want,)):
                if f[0] == 'm_positionIdx' and norm(p, x.st.read(base, ('m_positionIdx', '#')), self) == frozenset((0,)): continue
                bad = V
                break
        else: continue
        ctx.ob(False, '%s:%s' % (what, '.'.join(c for c in core)), fn.where(), 'after %s the field %s is %s; a parser nobody has used has %s' % (what, '.'.join(core), show(bad), want))
    ctx.ob(bool(paths), '%s:fields' % what, fn.where(), 'no successful path was found')
    for x in paths:
        V = x.st.read(base, ('m_encoding',))
        ok = V is not None and all(a[0] == '&' and a[1] == base and a[2][:1] == ('m_initEncoding',) for a in V if isinstance(a, tuple)) and not any(isinstance(a, int) for a in V)
        ctx.ob(ok, '%s:detection' % what, fn.where(), 'after %s the encoding is %s instead of the parser\'s own detecting encoding' % (what, show(V)))
        W = x.st.read(base, ('m_initEncoding', 'v:Some', '0', 'encPtr'))
        ctx.ob(W == frozenset((('&', base, ('m_encoding',)),)), '%s:detection' % what, fn.where(), 'the detecting encoding after %s stores its finding at %s' % (what, show(W)))
    ctx.floor('fields specified for %s' % what, n, 30)
    return n


def check_create(ctx, p, tag):
    fn = p.one('XML_ParserCreate_MM')
    h = SummHooks(None, opaque=OPAQUE, cb=hook(p))
    paths, ai = summarise(p, fn, h, None, budget=200000)
    good = [x for x in paths if x.ret() == frozenset((NP,))]
    ctx.seen(fn)
    ctx.ob(all(x.ret() in (frozenset((NP,)), frozenset((0,))) for x in paths), 'create:result' + tag, fn.where(), 'creation returns something other than the new parser or null')
    fresh_ob(ctx, p, 'create' + tag, fn, good, NB, NP)
    for x in good:
        sep = ('sym', ('arg', 3))
        given = 0 in x.st.neq.get(sep, ())
        ns = x.st.read(NB, ('m_ns',))
        ctx.ob(ns == frozenset((1 if given else 0,)), 'create:namespaces' + tag, fn.where(), 'with%s a separator argument namespace processing is %s' % ('' if given else 'out', show(ns)))
        ctx.ob(x.st.read(NB, ('m_ns_triplets',)) == frozenset((0,)), 'create:triplets' + tag, fn.where(), 'a new parser returns triplets')
        if given:
            V = x.st.read(NB, ('m_namespaceSeparator',))
            ctx.ob(V is not None and all(isinstance(a, tuple) and a[0] == 'sym' and a[1][0] == 'ld' and a[1][1] == ('S', sep) and not a[1][2] for a in V), 'create:separator' + tag, fn.where(), 'the separator is %s, not the character given' % show(V))
        enc(ctx, p, x, fn, NB, 1, 'create', tag)
    return good


def enc(ctx, p, x, fn, base, argno, what, tag):
    """the protocol encoding is a copy of the name given, or none"""
    V = x.st.read(base, ('m_protocolEncodingName',))
    arg = ('sym', ('arg', argno))
    calls = [e for e in x.ev if e[0] == 'call' and e[1] == 'copy_c_string']
    if 0 in x.st.neq.get(arg, ()):
        ok = V is not None and all(isinstance(a, tuple) and a[0] == 'sym' and a[1][0] == 'ret' and a[1][1] == 'copy_c_string' for a in V) and any(c[2][-1] == frozenset((arg,)) for c in calls)
    else:
        ok = V == frozenset((0,))
    ctx.ob(ok, '%s:encoding name%s' % (what, tag), fn.where(), 'the encoding name is %s when one was %sgiven' % (show(V), '' if 0 in x.st.neq.get(arg, ()) else 'not '))


def check_reset(ctx, p, tag):
    fn = p.one('XML_ParserReset')
    for child in (1, 0):
        h = SummHooks(None, opaque=OPAQUE, cb=hook(p))

        def setup(ai, st, f):
            st.neq[PA] = frozenset((0,))
            st.write(PB, ('is_child_parser',), frozenset((child,)))
        paths, ai = summarise(p, fn, h, setup, budget=200000)
        ctx.seen(fn)
        if child:
            ok = bool(paths) and all(x.ret('#') in (None,) and x.ret() == frozenset((0,)) and not x.ev for x in paths)
            ctx.ob(ok, 'reset:child' + tag, fn.where(), 'resetting the parser of an external entity must return false and change nothing; outcomes: %s' % '; '.join(
                '%s after %d effects' % (show(x.ret()), len(x.ev)) for x in paths))
            continue
        good = [x for x in paths if x.ret() == frozenset((1,))]
        fail = [x for x in paths if x.ret() != frozenset((1,))]
        for x in fail:
            alloc = any(e[0] == 'newdtd' for e in x.ev)
            ctx.ob(x.ret() == frozenset((0,)) and alloc, 'reset:refused' + tag, fn.where(), 'resetting a parser that is not a child returns %s without an allocation having failed' % show(x.ret()))
        fresh_ob(ctx, p, 'reset' + tag, fn, good, PB, PA)
        panics = [x for x in h.panics if x[2] in ('diverge', 'assert') and x[3] and [e for e in x[3] if e[0] in ('getmut', 'newdtd')][-1:] == [('getmut', 0)]]
        ctx.ob(not panics, 'reset:shared declarations' + tag, fn.where(), 'the parser panics in %s when the parser of an external parameter entity still shares the declarations' % ', '.join(sorted({x[0] for x in panics})))
        for x in good:
            for k in KEEP:
                V = x.st.read(PB, (H, k))
                W = x.st.read(PB, (H, k, 'v:Some', '0')) if k.endswith('Handler') else V
                ok = any(V2 is not None and all(isinstance(a, tuple) and a[0] == 'sym' and 'ld' in str(a) and "'%s'" % k in str(a) for a in V2) for V2 in (V, W))
                ctx.ob(ok, 'reset:keeps %s%s' % (k, tag), fn.where(), 'after a reset %s is %s instead of its value before' % (k, show(V)))
            for k in MODES:
                V = x.st.read(PB, (k,))
                w = [e for e in x.ev if e[0] == 'w' and e[1] == PB and e[2] == (k,)]
                ok = not w or (V is not None and all(isinstance(a, tuple) and a[0] == 'sym' and a[1][0] == 'ld' and a[1][1] == PB and a[1][2] == (k,) for a in V))
                ctx.ob(ok, 'reset:keeps %s%s' % (k, tag), fn.where(), 'a reset sets %s to %s' % (k, show(V)))
            enc(ctx, p, x, fn, PB, 2, 'reset', tag)
            # the declarations
            if any(e[0] == 'newdtd' for e in x.ev):
                ok = any(e[0] == 'w' and e[1] == PB and e[2][:1] == ('m_dtd',) for e in x.ev) or x.st.read(PB, ('m_dtd', 'ptr')) is not None
                ctx.ob(ok, 'reset:new declarations' + tag, fn.where(), 'new declarations are made but not installed')
                continue
            cleared = set()
            for e in x.ev:
                if e[0] == 'call' and e[1] == 'clear' and e[2] and e[2][0]:
                    for a in e[2][0]:
                        if isinstance(a, tuple) and a[0] == '&' and a[1] != PB:
                            names = [c for c in a[2] if c not in ('value',)]
                            if names: cleared.add(names[-1])
                if e[0] == 'w' and e[1] == DB: cleared.add([c for c in e[2] if c not in ('value', '#')][-1])
                if e[0] == 'w' and e[1] == DB and [c for c in e[2] if c != 'value'] == ['tables']: cleared |= {'generalEntities', 'paramEntities', 'elementTypes', 'attributeIds', 'prefixes'}
            for c, txt in CONTAINERS.items():
                ctx.ob(c in cleared, 'reset:clears %s%s' % (c, tag), fn.where(), '%s of the previous document survive the reset' % txt)
            for f, want in FLAGS.items():
                V = x.st.read(DB, f)
                ctx.ob(V == frozenset((want,)), 'reset:declarations.%s%s' % ('.'.join(c for c in f if c != 'value'), tag), fn.where(), 'after a reset %s of the declarations is %s, specified %s' % ('.'.join(f), show(V), want))
        # new parser and reset parser agree on what is not a constant of the table
        ctx.good = good


def check(ctx):
    ctx.rule('Creation and reset are summarised path by path over a symbolic parser. Every observable field must have the value the table of an unused parser gives; '
             'reset keeps the namespace modes and the unknown-encoding handler with its data, empties every container and flag of the declarations, '
             'handles declarations still shared with the parser of a parameter entity, and does nothing but return false on the parser of an external entity.')
    for feats in ([(), ('mozilla',)] if ctx.thorough else [()]):
        tag = ''.join(':' + f for f in feats)
        p = ctx.prog('lib', feats)
        new = check_create(ctx, p, tag)
        check_reset(ctx, p, tag)
        fn = p.one('XML_ParserReset')
        for f in (('m_prologState', 'handler', 'v:Some', '0'),):
            A = {norm(p, x.st.read(NB, f), NP) for x in new}
            B = {norm(p, x.st.read(PB, f), PA) for x in ctx.good}
            ctx.ob(len(A) == 1 and A == B and None not in A, 'reset:%s%s' % ('.'.join(f[:2]), tag), fn.where(), '%s is %s in a new parser and %s after a reset' % ('.'.join(f[:2]), [show(a) for a in A], [show(b) for b in B]))
