"""The functions between the parse calls and the token loops: choice of the next processing function, opening
and closing of internal entities, text declarations at the start of external entities."""
from steps import *
import steps

ENT = ('sym', ('entity',))
OIE = ('sym', ('oie',))
INNER = ('sym', ('inner',))
TOK2 = ('sym', ('tok2',))
NEXT2 = ('sym', ('tokend2',))
EB, OB = ('S', ENT), ('S', OIE)
IN2 = ('sym', ('text2',))        # start of the text of the entity when only a part is left


def proc_of(p, st):
    for pa in (('m_processor', 'v:Some', '0'), ('m_processor',)):
        Y = st.read(PB, pa)
        if Y is not None and len(Y) == 1:
            a = next(iter(Y))
            if isinstance(a, tuple) and a[0] == 'fn': return p.fns[a[1]].short
    return 'same' if Y is None or any(isinstance(a, tuple) and a[0] == 'sym' and a[1][0] == 'ld' for a in Y) else '?'


class GOutcome(Outcome):
    def event(s, e):
        r = Outcome.event(s, e)
        if e[0] == 'call' and len(e[3]) > 8 and ('Processor' in e[1] or e[1] in ('doContent', 'doProlog')):
            return (r[0], r[1] + ('proc=' + e[3][7], 'lvl=' + vals(e[3][8])), r[2], r[3])
        return r


class GHooks(CHooks):
    """choices as in CHooks; the scanner is a choice of tokens, doContent and doProlog also say how far they got"""
    toks = (); more_seen = 0; want = ()

    def on_bin(s, ai, op, a, b, w, sg):
        if op in ('Eq', 'Ne') and a != b:
            if INNER in (a, b): return int(op == 'Ne')
            if {a, b} == {END, BEND}: return int((op == 'Eq') == bool(s.atend))
        return CHooks.on_bin(s, ai, op, a, b, w, sg)

    def out(s, st, a, v):
        if isinstance(a, tuple) and a[0] == '&': st.write(a[1], a[2], frozenset((v,)))
        elif isinstance(a, tuple) and a[0] == 'sym': st.write(('S', a), (), frozenset((v,)))

    def on_call(s, ai, st, fn, callee, term, fid):
        n = callee.short
        if n == 'xmlTok':
            A = s.args(ai, st, fn, fid, term)
            R = SummHooks.args(s, ai, st, fn, fid, term)
            k = sum(1 for e in st.eqs if e[:2] == ('choice', 'xmlTok'))
            if k >= len(s.toks): s.again.append((st, A)); return []
            s.ev(st, ('call', n, A, s.snap(ai, st)))
            out = []
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            ts = s.toks[k]
            for i, t in enumerate(ts):
                x = st.copy() if i < len(ts) - 1 else st
                x.eqs[('choice', 'xmlTok', k)] = t
                for a in R[3] or (): s.out(x, a, (END, NEXT2)[k])
                for d in dl or []:
                    x.write(d[0], d[1], None)
                    x._d(d[0])[d[1] + ('#',)] = frozenset((mask(s.tokv[t], 64),))
                out.append((x, 'done'))
            return out
        if n in ('alloc', 'alloc_zeroed') and callee.name.startswith(('alloc::alloc', 'std::alloc')):
            k = 0
            while ('choice', 'mem', k) in st.eqs: k += 1
            t = st.copy(); t.eqs[('choice', 'mem', k)] = 'fail'; st.eqs[('choice', 'mem', k)] = 'ok'
            s.n += 1
            b = ('sym', ('box', s.n)); st.neq[b] = frozenset((0,))
            return [(t, frozenset((0,))), (st, frozenset((b,)))]
        if n in ('doContent', 'doProlog') and n in s.choices:
            A = s.args(ai, st, fn, fid, term)
            R = SummHooks.args(s, ai, st, fn, fid, term)
            np = R[4] if n == 'doContent' else R[5]
            old = st.read(PB, ('m_openInternalEntities',))
            s.ev(st, ('call', n, A + (s.fields(st),), s.snap(ai, st)))
            s.forget_fields(st, s.mods.of(callee))
            s.api_havoc(ai, st, ('h', n, term[1]))
            out = []
            labs = ('err',) + (('all', 'part') + (('part+', 'all+') if s.nested else ()) if s.nested is not None else ('ok',))
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            for i, lab in enumerate(labs):
                x = st.copy() if i < len(labs) - 1 else st
                x.eqs[('choice', n, 0)] = lab
                for d in dl or []:
                    x.write(d[0], d[1], None); x._d(d[0])[d[1] + ('#',)] = frozenset((ERRC if lab == 'err' else 0,))
                x._d(PB)[('m_openInternalEntities',)] = frozenset((INNER,)) if lab[-1] == '+' else old
                if lab[:3] == 'all':
                    for a in np or (): s.out(x, a, BEND)
                elif lab[:4] == 'part':
                    for a in np or (): s.out(x, a, END)
                out.append((x, 'done'))
            return out
        return CHooks.on_call(s, ai, st, fn, callee, term, fid)

    nested = None; atend = 0

    def snap(s, ai, st):
        return CHooks.snap(s, ai, st) + (proc_of(s.p, st), st.read(PB, ('m_tagLevel',)))

    def fields(s, st):
        d = {}
        b = st.read(PB, ('m_openInternalEntities',))
        o = next(iter(b)) if b and len(b) == 1 else None
        d['entity.open'] = st.read(EB, ('open',)); d['entity.processed'] = st.read(EB, ('processed',))
        if o is not None:
            for f in ('next', 'entity', 'startTagLevel', 'betweenDecl', 'internalEventPtr', 'internalEventEndPtr'): d['top.' + f] = st.read(('S', o), (f,))
        return ('rec', tuple(sorted(((k,), v) for k, v in d.items())))


class GEng(Eng):
    def glue(s, fname, setup, choices, toks=(), nested=None, nextarg=3, quiet=(), atend=0):
        fn = s.p.one(fname)
        ch = dict(choices)
        h = GHooks(s.p, 0, ch, quiet=set(quiet), loops=('xmlTok',))
        h.toks = toks; h.tokv = s.tok; h.nested = nested; h.atend = atend

        def su(ai, st, f):
            st.neq[PA] = frozenset((0,))
            for x in POS | {ENT, OIE, INNER, NEXT2}: st.neq[x] = frozenset((0,))
            set_handlers(st, s.slots, None)
            st.write(PB, STP, frozenset((1,)))
            setup(st)
        paths, ai = step(s.p, fn, h, su)
        s.fns |= {s.p.fns[f].short for f, _ in ai.blocks_seen if s.p.fns[f].local}
        out = [GOutcome(s, st, ev, {}, nextarg, None, None) for x in paths for st, ev in settle(ai, x.st, x.ev)]
        out += [GOutcome(s, c, ev, {}, nextarg, None, A) for st, A in h.again for c, ev in settle(ai, st, st.q)]
        for o in out:
            o.x['proc'] = proc_of(s.p, o.st)
            o.x['open'] = vals(o.st.read(EB, ('open',))); o.x['processed'] = vals(o.st.read(EB, ('processed',)))
            o.x['stack'] = vals(o.st.read(PB, ('m_openInternalEntities',)))
            o.x['free'] = vals(o.st.read(PB, ('m_freeInternalEntities',)))
        s.npaths += len(out)
        return out


def buf(st, i, a=START, n=LEN):
    st.write(('L', 0, i), (), None); st._d(('L', 0, i))[('0',)] = frozenset((('sl', a, n),))

import glue_spec as GS
PROC = ('contentProcessor', 'externalEntityContentProcessor', 'prologProcessor', 'internalEntityProcessor', 'entityValueInitProcessor', 'entityValueProcessor',
        'externalParEntProcessor', 'externalEntityInitProcessor2', 'externalEntityInitProcessor3')
CH = {k: ERR for k in PROC + ('initializeEncoding', 'processXmlDecl', 'storeEntityValue')}
CH.update({'doContent': 0, 'doProlog': 0, 'storeRawNames': TF, 'doCdataSection': 0, 'doIgnoreSection': 0})
GTOK = ('BOM', 'PARTIAL', 'PARTIAL_CHAR', 'INVALID', 'NONE', 'XML_DECL', 'COMMENT', 'INSTANCE_START', 'DECL_OPEN', 'PROLOG_S')
FINS = [dict(fin=0), dict(fin=1)]
ENDS = [dict(fin=f, atend=a) for f in (0, 1) for a in (0, 1)]
GLUE = {
    'contentProcessor': (GS.content_processor('0'), FINS), 'externalEntityContentProcessor': (GS.content_processor('1'), FINS),
    'externalEntityInitProcessor': (GS.with_encoding('externalEntityInitProcessor2'), FINS[:1]), 'prologInitProcessor': (GS.with_encoding('prologProcessor'), FINS[:1]),
    'externalEntityInitProcessor2': (GS.ext_init2, ENDS), 'externalEntityInitProcessor3': (GS.ext_init3, ENDS),
    'cdataSectionProcessor': (GS.section('doCdataSection', lambda g: 'externalEntityContentProcessor' if g('is_child_parser') else 'contentProcessor'), FINS),
    'ignoreSectionProcessor': (GS.section('doIgnoreSection', lambda g: 'prologProcessor'), FINS),
    'externalParEntInitProcessor': (GS.pe_init, [dict(fin=0, inval=0), dict(fin=0, inval=1)]),
    'externalParEntProcessor': (GS.pe, ENDS), 'entityValueInitProcessor': (GS.value(True), ENDS), 'entityValueProcessor': (GS.value(False), ENDS),
    'prologProcessor': (GS.prolog, FINS),
    'processInternalEntity': (GS.open_entity, [dict(param=0, between='arg3'), dict(param=1, between='arg3')]),
    'internalEntityProcessor': (GS.resume_entity, [dict(param=p, fin=0, top=t) for p, t in ((0, 1), (1, 1), (0, 0))]),
}


def glue_setup(name, sc):
    def su(st):
        if name == 'processInternalEntity':
            st.write(('L', 0, 2), (), frozenset((ENT,)))
            st.write(EB, ('textPtr',), frozenset((START,))); st.write(EB, ('textLen',), frozenset((LEN,)))
            st._d(EB)[('is_param',)] = frozenset((sc['param'],)); return
        if name == 'internalEntityProcessor':
            buf(st, 2, MID, ('pd', CEND, MID))
            st._d(EB)[('textPtr',)] = frozenset((TEXT,)); st._d(EB)[('textLen',)] = frozenset((('pd', BEND, TEXT),))
            st._d(EB)[('processed',)] = frozenset((('pd', START, TEXT),))
            st._d(EB)[('is_param',)] = frozenset((sc['param'],)); st._d(EB)[('open',)] = frozenset((1,))
            st._d(OB)[('entity',)] = frozenset((ENT,))
        else: buf(st, 2)
        st._d(PB)[('m_parsingStatus', 'finalBuffer')] = frozenset((sc['fin'],))
        if 'inval' in sc: st._d(PB)[('m_prologState', 'inEntityValue')] = frozenset((sc['inval'],))
        if 'top' in sc: st._d(PB)[('m_openInternalEntities',)] = frozenset((OIE if sc['top'] else 0,))
    return su


def gdomain(name):
    d = {'choice:xmlTok': GTOK, 'choice:storeRawNames': ('ok', 'fail'), 'choice:doIgnoreSection': ('err', 'more', 'closed')}
    if name in d: return d[name]
    if name.startswith('choice:') and name[7:] in CH and CH[name[7:]] is ERR: return ('ok', 'err')
    import content_spec
    return content_spec.domain(name)


def glue_one(ctx, E, name, sc, aspect=ALL):
    spec, scs = GLUE[name]
    sc = dict(sc, tokn={t: val(mask(E.tok[t], 64)) for t in GTOK})
    c = dict(CH)
    nested = True if 'param' in sc else None
    toks = (GTOK,)
    if name == 'externalParEntProcessor': toks = (GTOK, ('COMMENT',))
    if 'param' in sc: toks = (('COMMENT',),) if sc['param'] else ()
    outs = E.glue(name, glue_setup(name, sc), c, toks=toks, nested=nested, atend=sc.get('atend', 0))
    dom = lambda n: ('err', 'all', 'part', 'all+', 'part+') if nested and n in ('choice:doContent', 'choice:doProlog') else ('err', 'ok') if n in ('choice:doContent', 'choice:doProlog') else ('COMMENT',) if nested and n == 'choice:xmlTok' else gdomain(n)
    key = '%s:%s' % (name, ','.join('%s%s' % (k, v) for k, v in sc.items() if k != 'tokn'))
    # (an inner entity stays open only when processing is suspended)
    dead = lambda o: nested and any(v[-1] == '+' for k, v in o.c.choice.items() if k[0] in ('doContent', 'doProlog')) and o.look('status') != ('susp',)
    check(ctx, key, outs, spec(sc), dom, aspect=aspect, ignore=lambda o: dead(o), where=E.p.one(name).where())
    return outs
