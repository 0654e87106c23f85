"""Runs one step of the content, CDATA, ignored-section, epilog ... functions for a given token and scenario and
gives the outcome of every path in a comparable form."""
import contract
from contract import *
import contract

TF = [('ok', 1), ('fail', 0)]
ERRC = 8        # an arbitrary error code reported by a callee
ERR = [('ok', ('#', 0)), ('err', ('#', ERRC))]
VOID = [('', None)]
QUIET = {'getContext': TF, 'predefinedEntityName': [('no', 0), ('yes', 60)],
         'charRefNumber': [('bad', mask(-1, 32)), ('a', 65), ('b', 0xe9), ('c', 0x20ac), ('d', 0x1f600)],
         'nameLength': [('', NAMELEN)]}
QUIET['keylen'] = [('', 9)]
CALLS = {'storeAtts': ERR, 'processInternalEntity': ERR, 'doCdataSection': ERR, 'normalizeLines': VOID, 'memcmp': [('same', 0), ('differ', 1)], 'epilogProcessor': ERR}
STAT = {0: 'go', 1: 'go', 2: 'fin', 3: 'susp'}


OPENS = {'getContext': 1, 'm_externalEntityRefHandler': 4, 'appendAttributeValue': 5, 'storeEntityValue': 3}        # events that depend on the entity being open


class Eng:
    def __init__(s, p):
        s.p = p; contract.PROG = p
        s.tok = {k: to_signed(int(v), 64) for k, v in p.enum_discr(p.find_adt('XML_TOK')).items()}
        s.err = {to_signed(int(v), 64): k for k, v in p.enum_discr(p.find_adt('XML_Error')).items()}
        s.slots = handler_slots(p)
        s.fns = set(); s.npaths = 0

    Hooks = CHooks

    def run(s, fname, tok, sc, setup, calls=None, quiet=None, nextarg=None, sbarg=None, loops=('xmlTok',), lookups=('generalEntities', 'paramEntities'), own=False):
        fn = s.p.one(fname)
        ch = dict(QUIET if quiet is None else quiet); q = set(ch) - {'getContext'}
        ch.update(CALLS if calls is None else calls)
        if not own: ch.pop(fname, None)
        tv = mask(s.tok[tok], 64) if isinstance(tok, str) else tok
        h = s.Hooks(s.p, tv, ch, quiet=q, mbpc=sc.get('mbpc', 1), conv=sc.get('conv', 0), lookups=dict.fromkeys(lookups), loops=loops)
        h.keyed = lookups
        h.tlen = sc.get('tlen')
        if 'pieces' in sc: h.pieces = sc['pieces']

        def su(ai, st, f):
            st.neq[PA] = frozenset((0,))
            for x in POS: st.neq[x] = frozenset((0,))
            set_handlers(st, s.slots, None)
            st.write(PB, STP, frozenset((1,)))
            if sc.get('internal'):
                oie = ('sym', ('ld', PB, ('m_openInternalEntities',), None))
                st._d(PB)[('m_openInternalEntities',)] = frozenset((oie,))
                st.neq[oie] = frozenset((0,))
            setup(st)
        paths, ai = step(s.p, fn, h, su)
        s.fns |= {s.p.fns[f].short for f, _ in ai.blocks_seen if s.p.fns[f].local}
        out = [Outcome(s, st, ev, sc, nextarg, sbarg, None) for x in paths for st, ev in settle(ai, x.st, x.ev)]
        out += [Outcome(s, c, ev, sc, nextarg, sbarg, A) for st, A in h.again for c, ev in settle(ai, st, st.q)]
        s.npaths += len(out)
        return out


def settle(ai, st, ev, n=0):
    """a truth value that is stored or passed on without a branch counts as a branch: both cases are looked at"""
    a = next((v for v in stored(st, ev) if isinstance(v, tuple) and v[0] == 'op' and v[1] in ('Eq', 'Ne')), None) if n < 6 else None
    if a is None: return [(st, ev)]
    out = []
    for t in (1, 0):
        c = st.copy()
        if not ai.refine_op(c, a, t): continue
        m = lambda V: frozenset(t if v == a else v for v in V) if isinstance(V, frozenset) and a in V else V
        for b in list(c.mem):
            if b[0] == 'S' and any(isinstance(V, frozenset) and a in V for V in c.mem[b].values()):
                d = c._d(b)
                for q, V in list(d.items()): d[q] = m(V)
        e = tuple((x[:2] + (tuple(m(V) for V in x[2]),) + x[3:]) if len(x) > 2 and isinstance(x[2], tuple) else x for x in ev)
        out += settle(ai, c, e, n + 1)
    return out


def stored(st, ev):
    for b, d in st.mem.items():
        if b[0] == 'S':
            for V in d.values():
                if isinstance(V, frozenset) and len(V) == 1: yield next(iter(V))
    for x in ev:
        if len(x) > 2 and isinstance(x[2], tuple):
            for V in x[2]:
                if isinstance(V, frozenset) and len(V) == 1: yield next(iter(V))


def at(st, base, path=()):
    return st.read(base, path)


class Outcome:
    def __init__(s, eng, st, q, sc, nextarg, sbarg, again):
        s.st = st; s.q = q or (); s.eng = eng; s.c = Conds(st); s.sc = sc
        s.ev = []
        for e in s.q:
            if e[0] in ('H', 'call'): s.ev.append(s.event(e))
            elif e[0] == 'loop':
                g = sorted({x[1] for x in e[1] if x[0] in ('H', 'call')})
                if g: s.ev.append(('*' + '+'.join(g), None, None))
        x = {}
        if again is not None:
            x['ret'] = 'again'
            x['buf'] = vals(again[2]) if len(again) > 2 else '?'
        else:
            V = st.read(('L', 0, 0), ('#',))
            if V is None: V = st.read(('L', 0, 0), ())
            x['ret'] = '|'.join(sorted(eng.err.get(v, str(v)) if isinstance(v, int) else val(v) for v in V)) if V is not None else '?'
            if nextarg is not None: x['next'] = s.deref(nextarg)
        I = sc.get('internal')
        x['ev'] = s.evptr(0, I); x['end'] = s.evptr(1, I)
        x['lvl'] = vals(st.read(PB, ('m_tagLevel',)))
        x['proc'] = s.proc()
        x['top'] = s.top()
        if sbarg is not None:
            d = st.read(('X', 'sb'), ('#',))
            x['sb'] = '-' if d == frozenset((0,)) else vals(st.read(('X', 'sb'), ('v:Some', '0', '0')))
        x['inval'] = vals(st.read(PB, ('m_prologState', 'inEntityValue')))
        for n in ('keepProcessing', 'paramEntityRead', 'hasParamEntityRefs'): x[n] = vals(st.read(DB, ('value', n, 'value')))
        for k in ('generalEntities', 'paramEntities'):
            if st.eqs.get(('choice', k, 0)) == 'some': x['fopen'] = vals(st.read(('S', ('sym', ('found', k, 0))), ('open',)))
        if sc.get('pool'):
            contract.GENS = None
            x['pool'] = text(CHooks.cur(None, st, sc['pool']))
        if again is not None: x['lit'] = '%s,%s' % (vals(again[0]), vals(again[1]))
        s.x = x

    def deref(s, n):
        V = s.st.read(('L', 0, n), ())
        V = s.st.read(('S', ('sym', ('arg', n))), ()) if V is None or True else V
        r = vals(V)
        return 'unset' if r.startswith('arg') else r

    def evptr(s, i, internal):
        if not internal: return vals(s.st.read(PB, (('m_eventPtr', 'm_eventEndPtr')[i],)))
        B = ('S', ('sym', ('ld', PB, ('m_openInternalEntities',), None)))
        return vals(s.st.read(B, (('internalEventPtr', 'internalEventEndPtr')[i],)))

    def proc(s):
        V = s.st.read(PB, ('m_processor', 'v:Some', '0'))
        d = s.st.read(PB, ('m_processor', '#'))
        W = s.st.read(PB, ('m_processor',))
        for Y in (V, W):
            if Y is not None and len(Y) == 1:
                a = next(iter(Y))
                if isinstance(a, tuple) and a[0] == 'fn': return s.eng.p.fns[a[1]].short
        return 'same' if W is None or any(isinstance(a, tuple) and a[0] == 'sym' for a in W) else '?'

    def top(s):
        """the innermost open element: where its name starts, the length of the name, what encloses it"""
        V = s.st.read(PB, ('m_tagStack', 'v:Some', '0', '0', 'pointer', 'pointer'))
        if V is None or len(V) != 1: return 'same' if V is None and s.st.read(PB, ('m_tagStack',)) is None and ('m_tagStack',) not in s.st.mem.get(PB, {}) else '?'
        b = ('S', next(iter(V)))
        p = s.st.read(b, ('parent', 'v:Some', '0', '0', 'pointer', 'pointer'))
        return '%s:%s,%s,%s' % (val(b[1]), vals(s.st.read(b, ('rawName',))), vals(s.st.read(b, ('rawNameLength',))), vals(p))

    def event(s, e):
        A = e[2]
        I = s.sc.get('internal')
        sn = e[3]
        pp = (vals(sn[0]), vals(sn[1])) if not I else tuple(vals(v) for v in (sn[3] or (None, None)))
        contract.GENS = dict(sn[4]) if len(sn) > 4 else None
        if e[0] == 'H':
            if e[1] in ('m_characterDataHandler', 'm_defaultHandler'): a = (data_arg(A[1], A[2]),)
            else: a = tuple(vals(x) for x in A[1:])
        else: a = tuple(vals(x) for x in A)
        if e[1] in OPENS: a = a[:OPENS[e[1]]] + ('open=' + vals(sn[5]), 'read=' + vals(sn[6]))
        contract.GENS = None
        return (e[1], a, pp, sn[2])

    # conditions of the path by name
    def look(s, name):
        if name == 'status':
            V = s.st.read(PB, STP)
            for e in s.ev:
                if 'Processor' in e[0]: V = e[3]; break
            return status_of(s.st, V)
        if name.startswith('choice:'):
            vs = [v for k, v in s.c.choice.items() if k[0] == name[7:]]
            v = 'fail' if 'fail' in vs else s.c.choice.get((name[7:], 0))
            return None if v is None else (v,)
        if name.startswith('iret:'):
            v = s.c.choice.get((name, 0))
            return None if v is None else (v,)
        v = s.c.field.get(name)
        return None if v is None else (v,)


def status_of(st, V):
    if V is None: return None
    r = set()
    for a in V:
        if isinstance(a, int): r.add(STAT.get(a, 'go'))
        elif a in st.eqs: r.add(STAT.get(st.eqs[a], 'go'))
        else:
            n = st.neq.get(a, ())
            r |= {STAT[i] for i in (1, 2, 3) if i not in n}
    return tuple(sorted(r)) or None


def same_arg(spec, got):
    if spec is None or got == spec: return True
    if isinstance(spec, str) and spec[:1] == '~': return spec[1:] in got
    if isinstance(spec, (tuple, list, set)): return any(same_arg(x, got) for x in spec)
    return got in ('?',)


def match(spec, o, aspect):
    """the outcome of the path against (events, exit) of the specification"""
    evs, ex = spec
    got = o.ev
    i = 0
    seen = []
    for e in evs:
        opt = e[0][0] in '*?'
        if i < len(got) and got[i][0] == (e[0][1:] if e[0][0] == '?' else e[0]):
            if e[0][0] != '*':
                if aspect(e[0], 'args') and e[1] is not None:
                    if len(e[1]) > len(got[i][1]): return 'event %s has %d arguments' % (e[0], len(got[i][1]))
                    for k, (a, b) in enumerate(zip(e[1], got[i][1])):
                        if not same_arg(a, b): return '%s is given %s, expected %s' % (e[0], b, a)
                if aspect(e[0], 'at') and e[2] is not None:
                    for a, b in zip(e[2], got[i][2]):
                        if not same_arg(a, b): return '%s is called with event position %s..%s, expected %s..%s' % (e[0], got[i][2][0], got[i][2][1], e[2][0], e[2][1])
            i += 1
        elif opt: continue
        else:
            if aspect(e[0], 'present'): return 'expected %s, got %s' % (show(evs), show(got))
    if i < len(got) and aspect(got[i][0], 'present'): return 'expected %s, got %s' % (show(evs) or 'no event', show(got))
    for k, v in ex.items():
        if v is None or not aspect('exit', k): continue
        if not same_arg(v, o.x.get(k, '?')): return '%s is %s, expected %s' % (EXN.get(k, k), o.x.get(k), v)
    return None


EXN = {'ret': 'the result', 'next': 'the position to continue from', 'ev': 'the event position', 'buf': 'the remaining input', 'end': 'the event end',
       'lvl': 'the element depth', 'proc': 'the next processing function', 'sb': 'the position after the section'}


def show(evs):
    return ' '.join('%s%s' % (e[0][2:] if e[0].startswith('m_') else e[0], '(%s)' % ','.join(str(a) for a in e[1]) if e[1] else '') for e in evs)


import os
FZ = os.environ.get('FZ')
ALL = lambda name, what: True


def check(ctx, key, outs, spec, domain, aspect=ALL, ignore=lambda o: False, where=''):
    """every path agrees with the specification, and every outcome of the specification is found"""
    need = {o: a for o, a in outcomes(lambda g: freeze(spec(g)), lambda n: None, domain).items()}
    hit = set()
    names = set()
    for o in outs: names |= {n for n in ('choice:' + k[0] for k in o.c.choice)} | set(o.c.field)
    seen = {}
    for o in outs:
        for k, v in o.st.eqs.items():
            if k[0] == 'fuzzy': seen.setdefault(k, set()).add(v)
    live = {k for k, v in seen.items() if len(v) > 1}       # (the other branch is not a panic)
    if FZ: print(live)
    for o in outs:
        if ignore(o): continue
        if any(v == 'fail' for v in o.c.choice.values()):
            # an allocation failed: the out-of-memory error is reported
            if aspect('exit', 'nomem'): ctx.ob(o.x['ret'] == 'NO_MEMORY', '%s:nomem' % key, where, 'an allocation fails and the result is %s' % o.x['ret'])
            continue
        opts = outcomes(lambda g: freeze(spec(g)), o.look, domain)
        fails = []; ok = []
        for sp, asked in opts.items():
            m = match(thaw(sp), o, aspect)
            if m is None: ok.append(sp)
            else: fails.append((m, asked, sp))
        hit |= set(ok)
        # conditions that no path of this scenario tests do not count as open on a path that tests something we cannot read
        unread = set() if not any(k in live for k in o.st.eqs) else {n for _, a, _ in fails for n, v in a if o.look(n) is None and n not in names and n != 'status'}
        if fails and not (ok and unread and all(any(n in unread for n, v in a) for _, a, _ in fails)):
            m, asked, sp = fails[0]
            cond = ','.join('%s=%s' % (n.replace('choice:', ''), v) for n, v in asked)
            ctx.ob(False, '%s:%s' % (key, cond), where, m)
        else:
            ctx.ob(True, '%s:%s' % (key, show(o.ev) + '=>' + o.x['ret']), where)
    for sp, asked in need.items():
        if sp not in hit and dict(sp[1]).get('ret') != 'NO_MEMORY':
            cond = ','.join('%s=%s' % (n.replace('choice:', ''), v) for n, v in asked)
            ctx.ob(False, '%s:%s:missing' % (key, cond), where, 'no path gives %s => %s' % (show(thaw(sp)[0]) or 'no event', dict(thaw(sp)[1])))
    return hit


def freeze(sp):
    evs, ex = sp
    return (tuple(tuple(e) + ((),) * (3 - len(e)) if len(e) < 3 else tuple(e) for e in evs), tuple(sorted(ex.items(), key=str)))


def thaw(sp):
    return sp[0], dict(sp[1])
