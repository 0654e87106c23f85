"""API entry points against the parsing state."""
from summ import *

ASSUMPTIONS = ['the handle is valid (null handles are C01); allocation behaviour is not considered here']
PA = ('sym', ('arg', 1))
PB = ('S', PA)
ST = ('m_parsingStatus', 'parsing', '#')
ERR = ('m_errorCode', '#')


def errs(p): return p.enum_discr(p.find_adt('XML_Error'))
def states(p): return p.enum_discr(p.find_adt('XML_Parsing'))


def run(p, name, status, args=(), extra=None, opaque=('setContext',), budget=400000):
    fn = p.one(name)
    h = SummHooks([PB], opaque=set(opaque))

    def setup(ai, st, fn):
        st.neq[PA] = frozenset((0,))
        if status is not None: st.write(PB, ST, frozenset((status,)))
        for i, a in enumerate(args):
            if a is not None: st.write(('L', 0, i + 2), (), frozenset((a,)))
        for k, v in (extra or {}).items(): st.write(PB, k, frozenset((v,)))
    paths, ai = summarise(p, fn, h, setup, budget=budget)
    return fn, paths, h


def retval(p, path):
    k = p.tk(path.fn.locals[0])
    if k[0] == 'tuple' and not k[1]: return 'unit'
    r = path.ret('#')
    if r is None: r = path.ret()
    v = one_int(r)
    return v if v is not None else (tuple(sorted(map(str, r))) if r is not None else None)


def show(e):
    if e[0] == 'w': return 'write %s=%s' % ('.'.join(str(x) for x in e[2] if x != '#'), None if e[3] is None else sorted(map(str, e[3])))
    if e[0] == 'call': return 'call ' + e[1]
    if e[0] == 'icall': return 'indirect call'
    return str(e)


def writes(path):
    r = []
    for e in path.ev:
        if e[0] == 'w': r.append((e[2], e[3]))
        elif e[0] == 'loop':
            for x in e[1]: r.append((x[2], x[3]) if x[0] == 'w' else (('<' + show(x) + '>',), None))
        else: r.append((('<' + show(e) + '>',), None))
    return r


def exact(ctx, p, key, name, status, args, want, extra=None, allow_unchanged=True):
    """want: set of (ret, frozenset of (field path, value)) the outcomes must be equal to"""
    fn, paths, h = run(p, name, status, args, extra)
    ctx.seen(fn)
    got = set()
    for x in paths:
        last = {}
        for f, v in writes(x):
            last[f] = one_int(v) if one_int(v) is not None else (None if v is None else tuple(sorted(map(str, v))))
        # rewriting the current value is no effect
        if status is not None and last.get(ST) == status: last.pop(ST)
        got.add((retval(p, x), frozenset(last.items())))
    ok = bool(paths) and got == set(want)
    ctx.ob(ok, key, fn.where(), 'outcomes are %s, specified %s' % (
        '; '.join('returns %s with %s' % (r, ', '.join('%s=%s' % ('.'.join(map(str, f)), v) for f, v in sorted(w, key=str)) or 'no effect') for r, w in sorted(got, key=str)) or 'none (does not return)',
        '; '.join('returns %s with %s' % (r, ', '.join('%s=%s' % ('.'.join(map(str, f)), v) for f, v in sorted(w, key=str)) or 'no effect') for r, w in sorted(want, key=str))))
    bad = [x for x in h.panics if x[2] in ('assert', 'diverge')]
    return paths


def check(ctx):
    ctx.rule('Every exported entry point whose behaviour depends on the parsing state is analysed once per state (initialised, parsing, finished, suspended) '
             'and per class of its integer arguments (negative, zero, positive): every path is enumerated and its result, error code and set of '
             'parser fields written must be exactly those specified; a refused call may write nothing but the error code and calls no processor.')
    for feats in ([(), ('mozilla',)] if ctx.thorough else [()]):
        one_conf(ctx, ctx.prog('lib', feats), ''.join(':' + f for f in feats))


def one_conf(ctx, p, sfx):
    E, S = errs(p), states(p)
    I, PG, FI, SU = S['INITIALIZED'], S['PARSING'], S['FINISHED'], S['SUSPENDED']
    fs = lambda **k: frozenset(k.items())
    err = lambda n: frozenset(((ERR, E[n]),))
    none = frozenset()
    n = 0

    def ex(key, *a, **k):
        nonlocal n
        n += 1
        return exact(ctx, p, key + sfx, *a, **k)
    NN = ('ip', 'buffer')     # some non-null pointer
    for sn, s in S.items():
        # bad arguments: refused in every state
        ex('Parse:neg:' + sn, 'XML_Parse', s, (None, NEGS, None), {(0, err('INVALID_ARGUMENT'))})
        ex('Parse:null:' + sn, 'XML_Parse', s, (0, POSS, None), {(0, err('INVALID_ARGUMENT'))})
        ex('ParseBuffer:neg:' + sn, 'XML_ParseBuffer', s, (NEGS, None), {(0, err('INVALID_ARGUMENT'))})
        ex('GetBuffer:neg:' + sn, 'XML_GetBuffer', s, (NEGS,), {(0, err('NO_MEMORY'))})
    for sn, en in (('SUSPENDED', 'SUSPENDED'), ('FINISHED', 'FINISHED')):
        s = S[sn]
        for lab, ln in (('pos', POSS), ('zero', 0)):
            ex('Parse:%s:%s' % (lab, sn), 'XML_Parse', s, (NN, ln, None), {(0, err(en))})
            ex('ParseBuffer:%s:%s' % (lab, sn), 'XML_ParseBuffer', s, (ln, None), {(0, err(en))})
            ex('GetBuffer:%s:%s' % (lab, sn), 'XML_GetBuffer', s, (ln,), {(0, err(en))})
        ex('Parse:nullzero:%s' % sn, 'XML_Parse', s, (0, 0, None), {(0, err(en))})
    # accepted: the processor runs exactly once, with the state PARSING
    for sn in ('INITIALIZED', 'PARSING'):
        s = S[sn]
        for fname, args, lab in (('XML_Parse', (NN, POSS, None), 'pos'), ('XML_Parse', (0, 0, 1), 'final'),
                                 ('XML_ParseBuffer', (POSS, None), 'pos'), ('XML_ParseBuffer', (0, None), 'zero')):
            fn, paths, h = run(p, fname, s, args)
            n += 1
            runs = 0
            bad = []
            for x in paths:
                k = [i for i, e in enumerate(x.ev) if e[0] == 'icall']
                inloop = [e for e in x.ev if e[0] == 'loop' and any(y[0] == 'icall' for y in e[1])]
                if inloop or len(k) > 1: bad.append('the input is processed more than once on a path')
                elif len(k) == 1:
                    runs += 1
                    cur = s
                    for e in x.ev[:k[0]]:
                        if e[0] == 'w' and e[2] == ST: cur = one_int(e[3])
                        if e[0] == 'call': cur = None if cur != PG else cur
                    if cur != PG: bad.append('the input is processed while the state is not PARSING')
                else:
                    # refused: only for lack of memory
                    v = retval(p, x)
                    er = [one_int(w) for f, w in writes(x) if f == ERR]
                    if v != 0 or er[-1:] != [E['NO_MEMORY']]: bad.append('a path returns %s without processing the input (error %s)' % (v, er[-1:]))
            ctx.ob(runs > 0 and not bad, '%s:%s:%s%s' % (fname[4:], lab, sn, sfx), fn.where(), '; '.join(sorted(set(bad))) or 'the input is never processed')
        # a zero-length, non-final chunk is accepted without effect
        fn, paths, h = run(p, 'XML_Parse', s, (0, 0, 0))
        n += 1
        bad = [x for x in paths if any(e[0] == 'icall' for e in x.ev)]
        vs = {retval(p, x) for x in paths}
        ctx.ob(not bad and vs <= {0, 1} and 1 in vs, 'Parse:empty:%s%s' % (sn, sfx), fn.where(), 'an empty non-final chunk: returns %s%s' % (sorted(map(str, vs)), ', processes input' if bad else ''))
        fn, paths, h = run(p, 'XML_GetBuffer', s, (POSS,))
        n += 1
        bad = []
        oks = 0
        for x in paths:
            v = retval(p, x)
            er = [one_int(w) for f, w in writes(x) if f == ERR]
            if v == 0:
                if er[-1:] != [E['NO_MEMORY']]: bad.append('null with error %s' % er[-1:])
            else:
                oks += 1
                if er: bad.append('a buffer together with error %s' % er)
            for f, w in writes(x):
                if f == ST: bad.append('changes the parsing state')
                if f[0][0] == '<': bad.append('calls out')
        ctx.ob(oks and not bad, 'GetBuffer:pos:%s%s' % (sn, sfx), fn.where(), '; '.join(sorted(set(bad))) or 'never returns a buffer')
    # stop
    st = lambda v: frozenset(((ST, v),))
    PE = {('m_isParamEntity',): None}
    for r in (0, 1):
        for pe in (0, 1):
            x = {('m_isParamEntity',): pe}
            lab = '%s:%s' % ('suspend' if r else 'abort', 'pe' if pe else 'doc')
            for sn in ('INITIALIZED', 'PARSING'):
                want = {(0, err('SUSPEND_PE'))} if r and pe else {(1, st(SU if r else FI))}
                ex('Stop:%s:%s' % (lab, sn), 'XML_StopParser', S[sn], (r,), want, x)
            ex('Stop:%s:SUSPENDED' % lab, 'XML_StopParser', SU, (r,), {(0, err('SUSPENDED'))} if r else {(1, st(FI))}, x)
            ex('Stop:%s:FINISHED' % lab, 'XML_StopParser', FI, (r,), {(0, err('FINISHED'))}, x)
    # resume
    for sn in ('INITIALIZED', 'PARSING', 'FINISHED'):
        ex('Resume:' + sn, 'XML_ResumeParser', S[sn], (), {(0, err('NOT_SUSPENDED'))})
    fn, paths, h = run(p, 'XML_ResumeParser', SU)
    n += 1
    bad = []
    for x in paths:
        k = [i for i, e in enumerate(x.ev) if e[0] == 'icall']
        if len(k) != 1: bad.append('processes the pending input %d times' % len(k)); continue
        cur = SU
        for e in x.ev[:k[0]]:
            if e[0] == 'w' and e[2] == ST: cur = one_int(e[3])
        if cur != PG: bad.append('the state is not PARSING while input is processed')
    ctx.ob(paths and not bad, 'Resume:SUSPENDED' + sfx, fn.where(), '; '.join(sorted(set(bad))))
    # configuration that is frozen while a parse is under way
    BUSY, IDLE = ('PARSING', 'SUSPENDED'), ('INITIALIZED', 'FINISHED')
    for sn in BUSY:
        ex('SetEncoding:' + sn, 'XML_SetEncoding', S[sn], (None,), {(0, none)})
        ex('UseForeignDTD:' + sn, 'XML_UseForeignDTD', S[sn], (None,), {(E['CANT_CHANGE_FEATURE_ONCE_PARSING'], none)})
        ex('SetReturnNSTriplet:' + sn, 'XML_SetReturnNSTriplet', S[sn], (None,), {('unit', none)})
        ex('SetParamEntityParsing:' + sn, 'XML_SetParamEntityParsing', S[sn], (None,), {(0, none)})
    pe = p.enum_discr(p.find_adt('XML_ParamEntityParsing'))
    for sn in IDLE:
        for b in (0, 1):
            ex('UseForeignDTD:%d:%s' % (b, sn), 'XML_UseForeignDTD', S[sn], (b,), {(0, frozenset(((('m_useForeignDTD',), b),)))})
            ex('SetReturnNSTriplet:%d:%s' % (b, sn), 'XML_SetReturnNSTriplet', S[sn], (b,), {('unit', frozenset(((('m_ns_triplets',), b),)))})
        fn, paths, h = run(p, 'XML_SetParamEntityParsing', S[sn])
        ctx.ob(paths and all(retval(p, x) == 1 and [f[0] for f, w in writes(x)] == ['m_paramEntityParsing'] and all(w is not None and all(mentions(a, ('arg', 2)) for a in w) for f, w in writes(x)) for x in paths),
               'SetParamEntityParsing:' + sn + sfx, fn.where(), 'the setting is not stored')
        fn, paths, h = run(p, 'XML_SetEncoding', S[sn])
        ok = [x for x in paths if retval(p, x) == 1]
        ctx.ob(ok and all(any(f[0] == 'm_protocolEncodingName' for f, w in writes(x)) for x in ok), 'SetEncoding:' + sn + sfx, fn.where(), 'accepted without storing the encoding name')
        ctx.ob(all({f[0] for f, w in writes(x)} <= {'m_protocolEncodingName'} for x in paths), 'SetEncoding:frame:' + sn + sfx, fn.where(), 'changes something other than the encoding name')
        n += 4
    ctx.floor('entry point x state cases' + sfx, n, 70)
