"""Handler registration, handler argument and user data."""
from summ import *
from c02 import PA, PB, run, writes, retval, show

ASSUMPTIONS = ['handlers are C function pointers; a null pointer is an unset handler']
# setter -> number of handler arguments
SETTERS = {
 'XML_SetElementHandler': 2, 'XML_SetStartElementHandler': 1, 'XML_SetEndElementHandler': 1, 'XML_SetCharacterDataHandler': 1,
 'XML_SetProcessingInstructionHandler': 1, 'XML_SetCommentHandler': 1, 'XML_SetCdataSectionHandler': 2, 'XML_SetStartCdataSectionHandler': 1,
 'XML_SetEndCdataSectionHandler': 1, 'XML_SetDefaultHandler': 1, 'XML_SetDefaultHandlerExpand': 1, 'XML_SetDoctypeDeclHandler': 2,
 'XML_SetStartDoctypeDeclHandler': 1, 'XML_SetEndDoctypeDeclHandler': 1, 'XML_SetUnparsedEntityDeclHandler': 1, 'XML_SetNotationDeclHandler': 1,
 'XML_SetNamespaceDeclHandler': 2, 'XML_SetStartNamespaceDeclHandler': 1, 'XML_SetEndNamespaceDeclHandler': 1, 'XML_SetNotStandaloneHandler': 1,
 'XML_SetExternalEntityRefHandler': 1, 'XML_SetSkippedEntityHandler': 1, 'XML_SetUnknownEncodingHandler': 1, 'XML_SetElementDeclHandler': 1,
 'XML_SetAttlistDeclHandler': 1, 'XML_SetEntityDeclHandler': 1, 'XML_SetXmlDeclHandler': 1,
}
PAIRS = {'XML_SetElementHandler': ('XML_SetStartElementHandler', 'XML_SetEndElementHandler'),
         'XML_SetCdataSectionHandler': ('XML_SetStartCdataSectionHandler', 'XML_SetEndCdataSectionHandler'),
         'XML_SetDoctypeDeclHandler': ('XML_SetStartDoctypeDeclHandler', 'XML_SetEndDoctypeDeclHandler'),
         'XML_SetNamespaceDeclHandler': ('XML_SetStartNamespaceDeclHandler', 'XML_SetEndNamespaceDeclHandler')}
DEFAULTS = {'XML_SetDefaultHandler': 0, 'XML_SetDefaultHandlerExpand': 1}


def slots(p):
    """setter -> list of (path, 'arg k' or constant), in write order; None when the outcome differs between paths"""
    out = {}
    for name in SETTERS:
        fn, paths, h = run(p, name, None)
        alts = set()
        rows = []
        for x in paths:
            w = []
            for f, v in writes(x):
                vv = None
                if f and f[-1] == '#' and v == frozenset((1,)): v = x.st.read(PB, f[:-1])      # a handler known to be set
                if v is not None and len(v) == 1:
                    a = next(iter(v))
                    if isinstance(a, int): vv = a
                    elif a[0] == 'sym' and a[1][0] == 'arg': vv = ('arg', a[1][1])
                w.append((tuple(e for e in f if e != '#'), vv))
            rows.append((x, w))
        args = {f: v for _, w in rows for f, v in w if isinstance(v, tuple)}
        for x, w in rows:
            # no handler stored where there is none to store: still the argument
            w = [(f, args[f] if v == 0 and f in args and x.st.eqs.get(('sym', ('fld', args[f], ('#',)))) == 0 else v) for f, v in w]
            alts.add(tuple(w))
        out[name] = (fn, alts)
    return out


def slot_map(p):
    """handler slot (last field name) -> canonical setter"""
    m = {}
    for name, (fn, alts) in slots(p).items():
        if name in PAIRS or len(alts) != 1: continue
        for f, v in next(iter(alts)):
            if v == ('arg', 2): m[f[-1]] = name
    return m


def check(ctx):
    ctx.rule('For every handler setter all paths are enumerated: it stores its argument, unchanged, in exactly its own slot (no two kinds of handler share one), and writes '
             'nothing else; the two default-handler setters also set the expansion flag. For every function that calls through a handler slot, the first '
             'argument is the registered handler argument and the others are its own arguments in order. User data, parser-as-argument, external-entity '
             'argument and base are stored and read back as documented.')
    for feats in ([(), ('mozilla',), ('unicode',)] if ctx.thorough else [()]):
        conf(ctx, ctx.prog('lib', feats), ''.join(':' + f for f in feats))


def conf(ctx, p, sfx):
    S = slots(p)
    own = {}
    for name, (fn, alts) in S.items():
        ctx.seen(fn)
        k = SETTERS[name]
        if not ctx.ob(len(alts) == 1, 'setter:%s%s' % (name, sfx), fn.where(), 'the effect depends on more than its arguments: %d different outcomes' % len(alts)): continue
        w = dict(next(iter(alts)))
        hs = {v[1]: f for f, v in w.items() if isinstance(v, tuple)}
        rest = {f: v for f, v in w.items() if not isinstance(v, tuple)}
        want = set(range(2, 2 + k)) | ({3} if name == 'XML_SetUnknownEncodingHandler' else set())
        ctx.ob(set(hs) == want and len([v for v in w.values() if isinstance(v, tuple)]) == len(want), 'stores:%s%s' % (name, sfx), fn.where(),
               'handler arguments stored: %s, expected each of arguments %s exactly once' % (sorted(hs), sorted(want)))
        if name in DEFAULTS:
            ctx.ob(list(rest.values()) == [DEFAULTS[name]], 'expand:%s%s' % (name, sfx), fn.where(), 'the internal-entity expansion flag becomes %s, documented %d' % (list(rest.values()), DEFAULTS[name]))
        else:
            ctx.ob(not rest, 'extra:%s%s' % (name, sfx), fn.where(), 'also changes %s' % sorted(rest))
        own[name] = hs
    for name, (a, b) in PAIRS.items():
        if name in own and a in own and b in own:
            ctx.ob(own[name].get(2) == own[a].get(2) and own[name].get(3) == own[b].get(2), 'pair:%s%s' % (name, sfx), S[name][0].where(),
                   'the combined setter and the single setters do not agree')
    seen = {}
    for name, hs in own.items():
        if name in PAIRS or name == 'XML_SetDefaultHandlerExpand': continue
        f = hs.get(2)
        ctx.ob(f not in seen, 'distinct:%s%s' % (name, sfx), S[name][0].where(), 'shares its slot with %s' % seen.get(f))
        seen[f] = name
    if 'XML_SetDefaultHandler' in own and 'XML_SetDefaultHandlerExpand' in own:
        ctx.ob(own['XML_SetDefaultHandler'].get(2) == own['XML_SetDefaultHandlerExpand'].get(2), 'default-slot' + sfx, S['XML_SetDefaultHandler'][0].where(), 'two default handlers')
    ctx.floor('handler slots' + sfx, len(seen), 22)
    # the registered argument
    fn, paths, h = run(p, 'XML_UseParserAsHandlerArg', None)
    ws = {tuple(writes(x)) for x in paths}
    argf = None
    ok = len(ws) == 1 and len(next(iter(ws))) == 1 and next(iter(ws))[0][1] == frozenset((PA,))
    if ctx.ob(ok, 'parser-arg' + sfx, fn.where(), 'does not make the parser the handler argument: %s' % ws): argf = next(iter(ws))[0][0]
    unk = own.get('XML_SetUnknownEncodingHandler', {}).get(3)
    # external entity argument
    eargf = None
    for val, want, lab in ((('ip', 'x'), ('ip', 'x'), 'set'), (0, PA, 'null')):
        fn, paths, h = run(p, 'XML_SetExternalEntityRefHandlerArg', None, (val,))
        ws = {tuple(writes(x)) for x in paths}
        ok = len(ws) == 1 and len(next(iter(ws))) == 1 and next(iter(ws))[0][1] == frozenset((want,))
        if ctx.ob(ok, 'ext-arg:%s%s' % (lab, sfx), fn.where(), 'stores %s' % ws): eargf = next(iter(ws))[0][0]
    # user data
    t = p.find_adt('XML_ParserStruct')
    lay = p.tk(t)
    fs = [f[0] for f in lay[4][0][2]]
    off0 = [fs[i] for i, o in enumerate(lay[5]) if o == 0 and (p.tsize(lay[4][0][2][i][1]) or 0) > 0]
    fn, paths, h = run(p, 'XML_SetUserData', None)
    ok = bool(paths)
    both = 0
    for x in paths:
        w = {f: v for f, v in writes(x)}
        if set(w) - {argf, (off0[0],) if off0 else None}: ok = False
        if w.get((off0[0],) if off0 else None) != frozenset((('sym', ('arg', 2)),)): ok = False
        if argf in w:
            both += 1
            if w[argf] != frozenset((('sym', ('arg', 2)),)): ok = False
    ctx.ob(ok and both and both < len(paths), 'userdata' + sfx, fn.where(), 'the user data is not stored where XML_GetUserData reads it (first word), or the handler argument is not kept in step exactly when it was the user data')
    UD = (off0[0],) if off0 else ('?',)
    for eq, A, B in ((True, ('ip', 'u'), ('ip', 'u')), (False, ('ip', 'u'), 0)):
        fn, paths, h = run(p, 'XML_SetUserData', None, (('ip', 'new'),), {UD: A, argf: B} if argf else {})
        bad = [x for x in paths if (argf in {f for f, v in writes(x)}) != eq]
        ctx.ob(paths and not bad, 'userdata:%s%s' % ('same' if eq else 'parser', sfx), fn.where(), 'the handler argument %s' % ('does not follow the user data' if eq else 'is overwritten although the parser was selected as argument'))
    # forwarding functions
    slot_of = {f[-1]: n for f, n in seen.items() if f}
    nf = 0
    covered = set()
    for f in p.fns:
        if not f.local or f.blocks is None or not f.argc: continue
        if 'CXmlHandlers' not in p.tname(f.locals[1]) or p.tk(f.locals[1])[0] != 'ref': continue
        if '{closure' in f.short: continue
        if f.short == 'clone' or f.short == 'handleUnknownEncoding': continue
        h = SummHooks([PB])
        h.havoc = lambda ai, st, site: None
        try: paths, ai = summarise(p, f, h, budget=20000)
        except Budget: continue
        for x in paths:
            for e in x.ev:
                if e[0] != 'icall' or e[1] is None: continue
                a = next(iter(e[1]))
                s = slot_name(a)
                if s not in slot_of: continue
                nf += 1
                covered.add(s)
                ctx.seen(f)
                args = e[2]
                setter = slot_of[s]
                src = unk if setter == 'XML_SetUnknownEncodingHandler' else eargf if setter == 'XML_SetExternalEntityRefHandler' else argf
                a0 = args[0]
                got = None
                if isinstance(a0, frozenset) and len(a0) == 1: got = slot_name(next(iter(a0)))
                ctx.ob(src is not None and got == src[-1], 'first-arg:%s%s' % (setter[7:], sfx), f.where(), 'the handler is called with %s as its first argument instead of the registered one' % (got or a0,))
                order = []
                bad = None
                for i, v in enumerate(args[1:]):
                    if v is None: continue
                    if isinstance(v, tuple): v = v[1]
                    ks = {k for a in v for k in argno(a)}
                    if len(ks) != 1: bad = 'argument %d is not one of the event\'s own' % (i + 2)
                    else: order.append(min(ks))
                if order != sorted(order) : bad = 'event arguments are permuted'
                if len(args) - 1 == f.argc - 1 and order != list(range(2, f.argc + 1)) and None not in args: bad = bad or 'event arguments are dropped or repeated'
                ctx.ob(bad is None, 'args:%s%s' % (setter[7:], sfx), f.where(), bad)
    ctx.floor('calls through handler slots' + sfx, nf, 22)
    for s, n in slot_of.items():
        ctx.ob(s in covered, 'called:%s%s' % (n[7:], sfx), S[n][0].where(), 'no function calls the handler stored by %s' % n)
    # base
    fn, paths, h = run(p, 'XML_GetBase', None)
    vs = {x.ret() for x in paths}
    fn2, p2, h2 = run(p, 'XML_SetBase', None, (0,))
    w2 = {tuple(writes(x)) for x in p2}
    basef = None
    ok = len(w2) == 1 and len(next(iter(w2))) == 1 and next(iter(w2))[0][1] == frozenset((0,)) and all(retval(p, x) == 1 for x in p2)
    if ctx.ob(ok, 'base-null' + sfx, fn2.where(), 'clearing the base: %s' % w2): basef = next(iter(w2))[0][0]
    ok = len(vs) == 1 and basef and slot_name(next(iter(next(iter(vs)) or [None]))) == basef[-1]
    ctx.ob(ok, 'base-get' + sfx, fn.where(), 'XML_GetBase does not return what XML_SetBase stores')
    for nm, lab in (('XML_GetSpecifiedAttributeCount', 'count'), ('XML_GetIdAttributeIndex', 'id')):
        fn, paths, h = run(p, nm, None)
        ctx.ob(paths and all(not x.ev and x.ret() is not None and len(x.ret()) == 1 and slot_name(next(iter(x.ret()))) for x in paths), '%s%s' % (nm, sfx), fn.where(), 'is not a plain read of the parser')


def slot_name(a):
    """field a value was loaded from"""
    if not isinstance(a, tuple): return None
    if a[0] == 'sym': a = a[1]
    if a[0] == 'ld': return next((e for e in reversed(a[2]) if isinstance(e, str) and not e.startswith('v:') and e not in ('0', '#')), None)
    if a[0] == 'fld':
        r = slot_name(a[1])
        return r
    return None


def argno(a):
    out = set()
    if isinstance(a, tuple):
        if a and a[0] == 'arg' and len(a) == 2: return {a[1]}
        for x in a:
            if isinstance(x, tuple): out |= argno(x)
    return out
