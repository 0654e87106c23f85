"""What is done with an XML or text declaration once it has been read.

Every combination of what the declaration says, of the encoding given from outside, of the encoding in use and of the handlers is one
situation; all paths of the function are compared with what is specified for it."""
from step import *
from par import par

BUF, BLEN = ('sym', ('declstart',)), ('sym', ('decllen',))
CUR, ONE, WIDE = ('sym', ('encoding in use',)), ('sym', ('8-bit encoding',)), ('sym', ('16-bit encoding',))
NAME, NLEN, VER, VLEN = ('sym', ('encoding name',)), ('sym', ('name length',)), ('sym', ('version',)), ('sym', ('version length',))
PROTO, UD = ('sym', ('given encoding',)), ('sym', ('user data',))
STR = {'name': ('sym', ('stored', 'name')), 'version': ('sym', ('stored', 'version'))}
KNOWN = {'same': CUR, 'one': ONE, 'wide': WIDE}
F = lambda *a: frozenset(a)


def single(V):
    return next(iter(V)) if V is not None and len(V) == 1 else None


class DeclHooks(SummHooks):
    def __init__(s, p, sc):
        SummHooks.__init__(s, [PB]); s.p = p; s.sc = sc; s.viols = {}
        s.err = {k: int(v) for k, v in p.enum_discr(p.find_adt('XML_Error')).items()}

    def whole(s, ai, st, fn, fid, a, line):
        """the bytes a buffer argument covers"""
        if a[0] == 'k': return None
        src, _ = ai.resolve(st, fn, fid, a[1], line)
        if not src: return None
        b, pa = src[0]
        return single(st.read(b, pa + ('0',)) or st.read(b, pa))

    def on_call(s, ai, st, fn, callee, term, fid):
        n, sc = callee.short, s.sc
        if n in ('XmlParseXmlDecl', 'XmlParseXmlDeclNS', 'doParseXmlDecl'):
            A = s.args(ai, st, fn, fid, term)
            if n == 'doParseXmlDecl': s.viols['scan'] = 'the scanner of declarations is entered in another way'; return []
            s.ev(st, ('scan', n.endswith('NS'), single(A[0]), single(A[1]), s.whole(ai, st, fn, fid, term[4][2], term[1])))
            if not sc['ok']: return [(st, F(0))]
            outs = [single(x) for x in A[4:8]]
            if any(not (isinstance(o, tuple) and o[0] == '&') for o in outs): s.viols['scan'] = 'the places for what the declaration says are not known'; return []
            def put(o, sub, V):
                st.write(o[1], o[2], None)
                for k, v in V.items(): st._d(o[1])[o[2] + k] = F(v)
            if sc['version']: put(outs[0], (), {('#',): 1, ('v:Some', '0', '0'): ('sl', VER, VLEN)})
            if sc['enc'] != 'none': st.write(outs[1][1], outs[1][2], F(NAME))
            if sc['enc'] in KNOWN: put(outs[2], (), {('#',): 1, ('v:Some', '0'): KNOWN[sc['enc']]})
            if sc['standalone'] != -1: st.write(outs[3][1], outs[3][2], F(sc['standalone']))
            return [(st, F(1))]
        if n == 'minBytesPerChar':
            a = single(s.args(ai, st, fn, fid, term)[0])
            r = {CUR: sc['width'], ONE: 1, WIDE: 2}.get(a)
            if r is None: s.viols['width'] = 'the width of an unknown encoding is used'; return []
            return [(st, F(r))]
        if n == 'nameLength':
            A = s.args(ai, st, fn, fid, term)
            if single(A[0]) != CUR or single(A[1]) != NAME: s.viols['length'] = 'the length of something that is not the encoding name is used'; return []
            return [(st, F(NLEN))]
        if n == 'store_c_string':
            A = s.args(ai, st, fn, fid, term)
            w = {('sl', NAME, NLEN): 'name', ('sl', VER, VLEN): 'version'}.get(s.whole(ai, st, fn, fid, term[4][2], term[1]))
            if w is None or single(A[1]) != CUR: s.viols['store'] = 'something other than the version or the encoding name is stored'; return []
            bad = st.copy(); s.ev(bad, ('full',)); s.ev(st, ('store', w, str(A[0])))
            return [(st, F(1)), (bad, F(0))]
        if n == 'finish_string':
            k = [e for e in st.q or () if e[0] in ('store', 'finish')]
            if not k or k[-1][0] != 'store': s.viols['store'] = 'a string is finished that was not stored'; return []
            s.ev(st, ('finish', k[-1][1]))
            return [(st, F(('sl', STR[k[-1][1]], ('sym', ('length of', k[-1][1])))))]
        if n in ('clear', 'clear_current') and 'tring' in callee.name:
            s.ev(st, ('clear',)); return [(st, 'done')]
        if n == 'reportDefault':
            s.ev(st, ('default', s.whole(ai, st, fn, fid, term[4][2], term[1]))); return [(st, 'done')]
        if n == 'handleUnknownEncoding':
            A = s.args(ai, st, fn, fid, term)
            s.ev(st, ('unknown', single(A[1]), single(A[2]), A[3]))
            dl, _ = ai.resolve(st, fn, fid, term[5], term[1])
            for b, pa in dl or []: st.write(b, pa, None); st._d(b)[pa + ('#',)] = F(s.err[sc['unknown']])
            return [(st, 'done')]
        return SummHooks.on_call(s, ai, st, fn, callee, term, fid)

    def on_indirect(s, ai, st, fn, V, term, fid):
        if V is not None and V and all(isinstance(a, tuple) and a[0] == 'fn' for a in V): return None
        s.ev(st, ('handler', str(single(V)), tuple(single(a) for a in s.args(ai, st, fn, fid, term))))
        return [(st, F(('sym', ('iret', fn.id, term[1]))))]

    def on_bin(s, ai, op, a, b, w, sg):
        E = (CUR, ONE, WIDE, PROTO, NAME) + tuple(STR.values())
        if op in ('Eq', 'Ne') and (a in E and (b in E or b == 0) or b in E and a == 0): return int((a == b) == (op == 'Eq'))
        return SummHooks.on_bin(s, ai, op, a, b, w, sg)


def situations():
    for g in (0, 1): yield dict(gen=g, ok=0, ns=g, standalone=-1, version=0, enc='none', width=1, proto=0, xd=1, dh=1, pe=1, unknown='NONE')
    from itertools import product
    for g, sa, pe, v, (xd, dh), e, wd, pr, ns in product((0, 1), (-1, 0, 1), (0, 1, 2), (0, 1), ((0, 0), (0, 1), (1, 1), (1, 0)), ('none', 'same', 'one', 'wide', 'unknown'), (1, 2), (0, 1), (0, 1)):
        if ns != (sa + v + pe) % 2 and (sa != -1 or pe != 1): continue
        for u in (('NONE', 'UNKNOWN_ENCODING', 'NO_MEMORY') if e == 'unknown' and not pr else ('NONE',)):
            yield dict(gen=g, ok=1, ns=ns, standalone=sa, version=v, enc=e, width=wd, proto=pr, xd=xd, dh=dh, pe=pe, unknown=u)


def say(sc):
    r = ['text declaration' if sc['gen'] else 'XML declaration']
    if not sc['ok']: return r[0] + ', malformed'
    r.append({'none': 'no encoding', 'same': 'the encoding in use', 'one': 'a known 8-bit encoding', 'wide': 'another 16-bit encoding', 'unknown': 'an unknown encoding'}[sc['enc']])
    r.append('read in %d-byte units' % sc['width'])
    if sc['standalone'] >= 0: r.append('standalone=%s' % ('yes' if sc['standalone'] else 'no'))
    if sc['proto']: r.append('encoding given from outside')
    r.append({0: 'no handlers', 1: 'default handler', 2: 'declaration handler', 3: 'both handlers'}[sc['dh'] + 2 * sc['xd']])
    return ', '.join(r)


def one(ctx, p, f, sc):
    where = f.where(); key = ':'.join('%s%s' % kv for kv in sorted(sc.items()))
    h = DeclHooks(p, sc)

    def su(ai, st, f):
        st.neq[PA] = F(0)
        for x in (CUR, ONE, WIDE, NAME, PROTO, UD, VER, BUF) + tuple(STR.values()): st.neq[x] = F(0)
        st.write(('L', 0, 2), (), F(sc['gen']))
        st.write(('L', 0, 3), (), None); st._d(('L', 0, 3))[('0',)] = F(('sl', BUF, BLEN))
        d = st._d(PB)
        d[('m_encoding',)] = F(CUR); d[('m_ns',)] = F(sc['ns']); d[('m_protocolEncodingName',)] = F(PROTO if sc['proto'] else 0)
        d[(H, 'm_xmlDeclHandler', '#')] = F(sc['xd']); d[(H, 'm_defaultHandler', '#')] = F(sc['dh']); d[(H, 'm_handlerArg')] = F(UD)
        d[('m_paramEntityParsing', '#')] = F(sc['pe'])
    paths, ai = summarise(p, f, h, su)
    for k, m in h.viols.items(): ctx.viol('%s:%s' % (key, k), where, '%s (%s)' % (m, say(sc)))
    def bad(k, m): ctx.viol('%s:%s' % (key, k), where, '%s: %s' % (say(sc), m))
    ctx.obligations += 1; n0 = len(ctx.violations)
    if not paths: bad('none', 'no path returns')
    names = {v: k for k, v in h.err.items()}
    for x in paths:
        ev = list(x.ev)
        R = names.get(single(x.ret('#')), '?')
        scan = ('scan', bool(sc['ns']), sc['gen'], CUR, ('sl', BUF, BLEN))
        scans = [e for e in ev if e[0] == 'scan']
        if scans != [scan]: bad('scan', 'the declaration is not read once, whole, in the encoding in use'); continue
        full = any(e[0] == 'full' for e in ev)
        hand = [e for e in ev if e[0] == 'handler']; dfl = [e for e in ev if e[0] == 'default']; unk = [e for e in ev if e[0] == 'unknown']
        enc = single(x.st.read(PB, ('m_encoding',)))
        pe = single(x.st.read(PB, ('m_paramEntityParsing', '#')))
        sa = [V for k, V in x.st.mem.get(DB, {}).items() if 'standalone' in k and V is not None and V != F()]
        sa = any(V == F(1) for V in sa)
        at = single(x.st.read(PB, ('m_eventPtr',)))
        writes = [e for e in ev if e[0] == 'w' and e[2][:1] == ('m_eventPtr',)]
        at = NAME if at == NAME and writes else 'moved' if writes else None
        if not sc['ok']:
            if R != ('TEXT_DECL' if sc['gen'] else 'XML_DECL'): bad('error', 'the result is %s' % R)
            if hand or dfl or unk or sa or enc != CUR: bad('effect', 'a malformed declaration has effects')
            continue
        yes = not sc['gen'] and sc['standalone'] == 1
        if sa != yes: bad('standalone', 'the document is %staken to be standalone' % ('' if sa else 'not '))
        if pe != (0 if yes and sc['pe'] == 1 else sc['pe']): bad('parameter entities', 'the reading of parameter entities becomes %s' % pe)
        if full:
            if R != 'NO_MEMORY': bad('memory', 'a failed allocation gives %s' % R)
            continue
        want = ('UNKNOWN' if sc['enc'] == 'unknown' else 'NONE' if sc['enc'] == 'none' else 'SWITCH') if not sc['proto'] else 'NONE'
        if want == 'SWITCH':
            k = KNOWN[sc['enc']]; wd = {CUR: sc['width'], ONE: 1, WIDE: 2}[k]
            if wd != sc['width'] or wd == 2 and k != CUR: want = 'CONFLICT'
        # reports
        if sc['xd']:
            a = (UD, STR['version'] if sc['version'] else 0, STR['name'] if sc['enc'] != 'none' else 0, sc['standalone'])
            g = [tuple(to_signed(y, 32) if i == 3 and isinstance(y, int) else y for i, y in enumerate(e[2])) for e in hand]
            if g != [a]: bad('handler', 'the declaration handler is called with %s' % (str(g)[:160],))
            elif 'm_xmlDeclHandler' not in hand[0][1]: bad('handler', 'another handler is called')
            if dfl: bad('default', 'the default handler is called as well')
        else:
            if hand: bad('handler', 'a handler is called that is not set')
            if dfl != ([('default', ('sl', BUF, BLEN))] if sc['dh'] else []): bad('default', 'the text of the declaration is not given to the default handler once')
        live = set()
        for e in ev:
            if e[0] == 'finish': live.add(STR[e[1]])
            if e[0] == 'clear': live = set()
            used = {y for y in e[2] if y in STR.values()} if e[0] == 'handler' else {e[1]} if e[0] == 'unknown' else set()
            if not used <= live: bad('cleared', 'a string is used that has been given up')
        # the encoding
        if want == 'UNKNOWN':
            if len(unk) != 1 or unk[0][1] != STR['name'] or unk[0][2] != sc['ns'] or unk[0][3] != F(('&', PB, ('m_encoding',))): bad('unknown', 'the unknown encoding is not asked for by its name')
            elif hand and ev.index(unk[0]) < ev.index(hand[0]): bad('order', 'the unknown encoding is asked for before the declaration is reported')
            if R != sc['unknown']: bad('result', 'the result is %s, not that of the search for the encoding' % R)
            if at != (NAME if sc['unknown'] == 'UNKNOWN_ENCODING' else None): bad('place', 'the place of the error is wrong')
            continue
        if unk: bad('unknown', 'the unknown encoding handler is asked')
        if want == 'CONFLICT':
            if R != 'INCORRECT_ENCODING': bad('result', 'the result is %s' % R)
            if at != NAME: bad('place', 'the place of the error is not the encoding name')
            continue
        if R != 'NONE': bad('result', 'the result is %s' % R)
        if at is not None: bad('place', 'the event position is changed')
        if enc != (KNOWN[sc['enc']] if want == 'SWITCH' else CUR): bad('encoding', 'the document goes on in %s' % (enc[1][0] if isinstance(enc, tuple) else enc))
    if len(ctx.violations) == n0: ctx.discharged += 1
    return len(paths)


def check(ctx, p):
    f = p.one('processXmlDecl'); ctx.seen(f)
    S = list(situations())

    def job(k):
        n = 0
        for sc in S[k::16]: n += one(ctx, p, f, sc)
        ctx.stats['decl paths %d' % k] = n
    par(ctx, [lambda k=k: job(k) for k in range(16)])
    n = sum(ctx.stats.pop('decl paths %d' % k, 0) for k in range(16))
    ctx.stats['situations'] = len(S); ctx.stats['paths'] = n
    ctx.floor('paths', n, 2000)


# the search for an encoding that is not known
EMPTY, NONEMPTY, MENC = 'no function', 'function', ('S', ('sym', ('arg', 4)))
CONV, REL, DATA, HDATA = ('sym', ('convert',)), ('sym', ('release',)), ('sym', ('data',)), ('sym', ('handler data',))


class AskHooks(SummHooks):
    def __init__(s, p, sc):
        SummHooks.__init__(s, None); s.p = p; s.sc = sc; s.viols = {}

    def ref(s, ai, st, fn, fid, a, line):
        V = single(ai.scalar(st, fn, fid, a))
        return (V[1], V[2]) if isinstance(V, tuple) and V[0] == '&' else None

    def on_indirect(s, ai, st, fn, V, term, fid):
        if V is not None and V and all(isinstance(a, tuple) and a[0] == 'fn' for a in V): return None
        A = [single(a) for a in s.args(ai, st, fn, fid, term)]
        v = single(V)
        if v == REL or 'release' in str(v):
            s.ev(st, ('release', A[0])); return [(st, 'done')]
        if 'm_unknownEncodingHandler' not in str(v): s.viols['call'] = 'something other than the handler or its release function is called'; return []
        r = s.ref(ai, st, fn, fid, term[4][2], term[1])
        if r is None: s.viols['call'] = 'the handler does not get the place for its answer'; return []
        b, pa = r
        d = st._d(b); names = s.names
        blank = all(single(st.read(b, pa + names[k] + ('#',))) == 0 for k in ('convert', 'release')) and single(st.read(b, pa + names['data'])) == 0
        s.ev(st, ('ask', A[0], A[1], blank))
        for k, x in (('convert', CONV), ('release', REL)):
            st.write(b, pa + names[k], None)
            d = st._d(b); d[pa + names[k] + ('#',)] = F(s.sc[k])
            if s.sc[k]: d[pa + names[k] + ('v:Some', '0')] = F(x)
        st.write(b, pa + names['data'], F(DATA))
        return [(st, F(s.sc['answer']))]

    def on_call(s, ai, st, fn, callee, term, fid):
        n, sc = callee.short, s.sc
        if n == 'initialize' and 'UnknownEncoding' in callee.name:
            A = s.args(ai, st, fn, fid, term)
            s.ev(st, ('initialize', single(A[3]), single(A[4])))
            return [(st, F(sc['usable']))]
        if n == 'new' and 'UnknownEncoding' in callee.name: return [(st, F(('sym', ('fresh',))))]
        if n == 'try_new':
            bad = st.copy(); s.ev(bad, ('full',))
            dl, _ = ai.resolve(st, fn, fid, term[5], term[1])
            for x, r in ((st, 0), (bad, 1)):
                for b, pa in dl or []: x.write(b, pa, None); x._d(b)[pa + ('#',)] = F(r)
            for b, pa in dl or []: st._d(b)[pa + ('v:Ok', '0')] = F(BOX)
            return [(st, 'done'), (bad, 'done')]
        return SummHooks.on_call(s, ai, st, fn, callee, term, fid)


BOX = ('sym', ('the new encoding',))


def ask(ctx, p):
    f = p.one('handleUnknownEncoding'); ctx.seen(f)
    from itertools import product
    err = {int(v): k for k, v in p.enum_discr(p.find_adt('XML_Error')).items()}
    n = 0
    for hd, ans, us, cv, rl in product((0, 1), (0, 1, 7), (0, 1), (0, 1), (0, 1)):
        if not hd and (ans or us or cv or rl): continue
        sc = dict(answer=ans, usable=us, convert=cv, release=rl)
        h = AskHooks(p, sc)
        h.names = {x: (x,) for x in ('map', 'convert', 'release', 'data')}

        def su(ai, st, f):
            for x in (PA, ('sym', ('arg', 4)), REL, CONV, BOX, DATA): st.neq[x] = F(0)
            d = st._d(PB); d[('m_unknownEncodingHandler', '#')] = F(hd); d[('m_unknownEncodingHandlerData',)] = F(HDATA)
            st.write(('L', 0, 2), (), F(NAME))
            st.write(('L', 0, 3), (), F(1)); st._d(MENC)[()] = F(CUR)
        paths, ai = summarise(p, f, h, su)
        key = 'unknown:%d%d%d%d%d' % (hd, ans, us, cv, rl); where = f.where()
        def ob(ok, k, m): ctx.ob(ok, key + ':' + k, where, 'handler %s, %s, %s: %s' % ('set' if hd else 'not set', 'encoding answered' if ans else 'no encoding answered', 'usable' if us else 'not usable', m))
        for k, m in h.viols.items(): ob(False, k, m)
        ob(bool(paths), 'none', 'no path returns')
        for x in paths:
            n += 1
            ev = list(x.ev); R = err.get(single(x.ret('#')), '?')
            ev = [e for e in ev if e[0] != 'w']
            asked = [e for e in ev if e[0] == 'ask']
            full = any(e[0] == 'full' for e in ev)
            rel = [e for e in ev if e[0] == 'release']
            if not hd: ob(not asked and R == 'UNKNOWN_ENCODING', 'unset', 'the result is %s' % R); continue
            ob(len(asked) == 1 and asked[0][1:4] == (HDATA, NAME, True), 'ask', 'the handler is not asked once, with its argument, the name and an empty answer')
            good = ans and us
            ok = good and not full
            ob(R == ('NONE' if ok else 'NO_MEMORY' if good else 'UNKNOWN_ENCODING'), 'result', 'the result is %s' % R)
            ob(rel == ([('release', DATA)] if rl and not ok else []), 'release', 'the release function is called %s' % ('with %s' % (rel,) if rel else 'never'))
            if ok:
                ob(single(x.st.read(PB, ('m_unknownEncodingData',))) == DATA and single(x.st.read(PB, ('m_unknownEncodingRelease', '#'))) == rl, 'kept', 'the data and the release function are not kept')
                ob(single(x.st.read(MENC, ())) not in (CUR, None), 'used', 'the new encoding is not used')
            else: ob(single(x.st.read(MENC, ())) == CUR, 'unused', 'the encoding in use is changed')
            ini = [e for e in ev if e[0] == 'initialize']
            ob(ini == ([('initialize', DATA, 1)] if ans else []), 'initialize', 'the answer is not taken as given')
    ctx.stats['paths of the search'] = n
    ctx.floor('paths of the search', n, 10)


# before the first byte
class BeginHooks(SummHooks):
    def __init__(s, p, sc):
        SummHooks.__init__(s, [PB]); s.p = p; s.sc = sc; s.viols = {}
        s.err = {k: int(v) for k, v in p.enum_discr(p.find_adt('XML_Error')).items()}

    def on_call(s, ai, st, fn, callee, term, fid):
        n = callee.short
        if n in ('new', 'new_ns') and 'InitEncoding' in callee.name:
            A = s.args(ai, st, fn, fid, term)
            s.ev(st, ('detect', n == 'new_ns', A[0], single(A[1])))
            dl, _ = ai.resolve(st, fn, fid, term[5], term[1])
            for b, pa in dl or []:
                st.write(b, pa, None); st._d(b)[pa + ('#',)] = F(s.sc['known'])
                if s.sc['known']: st._d(b)[pa + ('v:Some', '0', 'encoding_index')] = F(('sym', ('detector',)))
            return [(st, 'done')]
        if n == 'handleUnknownEncoding':
            A = s.args(ai, st, fn, fid, term)
            s.ev(st, ('unknown', single(A[1]), single(A[2]), A[3]))
            dl, _ = ai.resolve(st, fn, fid, term[5], term[1])
            for b, pa in dl or []: st.write(b, pa, None); st._d(b)[pa + ('#',)] = F(s.err[s.sc['unknown']])
            return [(st, 'done')]
        return SummHooks.on_call(s, ai, st, fn, callee, term, fid)


def begin(ctx, p):
    f = p.one('initializeEncoding'); ctx.seen(f)
    for known, ns, proto, u in ((1, 0, 0, 'NONE'), (1, 1, 0, 'NONE'), (1, 0, 1, 'NONE'), (1, 1, 1, 'NONE'), (0, 0, 1, 'NONE'), (0, 1, 1, 'NONE'), (0, 0, 1, 'UNKNOWN_ENCODING'), (0, 1, 1, 'NO_MEMORY')):
        h = BeginHooks(p, dict(known=known, unknown=u))

        def su(ai, st, f):
            for x in (PA, CUR, PROTO): st.neq[x] = F(0)
            d = st._d(PB); d[('m_ns',)] = F(ns); d[('m_protocolEncodingName',)] = F(PROTO if proto else 0); d[('m_encoding',)] = F(CUR); d[('m_initEncoding', '#')] = F(0)
        paths, ai = summarise(p, f, h, su)
        key = 'begin:%d%d%d%s' % (known, ns, proto, u); where = f.where()
        def ob(ok, k, m): ctx.ob(ok, key + ':' + k, where, 'encoding %s: %s' % (('given' if proto else 'not given') + ('' if known else ', not known'), m))
        ob(bool(paths), 'none', 'no path returns')
        names = {v: k for k, v in h.err.items()}
        for x in paths:
            ev = [e for e in x.ev if e[0] != 'w']; R = names.get(single(x.ret('#')), '?')
            det = [e for e in ev if e[0] == 'detect']; unk = [e for e in ev if e[0] == 'unknown']
            ob(det == [('detect', bool(ns), F(('&', PB, ('m_encoding',))), PROTO if proto else 0)], 'detector', 'the detector is not set up once, for the encoding given and the parser\'s own encoding')
            if known:
                e = single(x.st.read(PB, ('m_encoding',)))
                ob(not unk and R == 'NONE', 'result', 'the result is %s' % R)
                ob(isinstance(e, tuple) and e[0] == '&' and e[1] == PB and e[2][:1] == ('m_initEncoding',) and single(x.st.read(PB, ('m_initEncoding', '#'))) == 1
                   and single(x.st.read(PB, ('m_initEncoding', 'v:Some', '0', 'encoding_index'))) == ('sym', ('detector',)), 'used', 'the detector is not what the first bytes are read with')
            else:
                ob(unk == [('unknown', PROTO, ns, F(('&', PB, ('m_encoding',))))], 'unknown', 'the encoding given is not asked for by its name')
                ob(R == u, 'result', 'the result is %s, not that of the search' % R)
