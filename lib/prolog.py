"""Contract runs of the processing of the prolog and of declarations: one token in a given role."""
from steps import *
import contract

CALLS = {'processXmlDecl': ERR, 'getElementType': 0, 'getAttributeId': 0, 'defineAttribute': TF, 'storeAttributeValue': ERR, 'storeEntityValue': ERR, 'build_model': 0,
         'processInternalEntity': ERR, 'contentProcessor': ERR, 'isPublicId': 0, 'normalizePublicId': VOID, 'doIgnoreSection': 0, 'normalizeLines': VOID}
PQUIET = {'predefinedEntityName': [('no', 0), ('yes', 60)], 'keylen': [('', 9)], 'nameLength': [('', NAMELEN)]}
SCF = ('S', ('sym', ('scaffold',)))
TOPG, NEWP = ('sym', ('made', 'top')), ('sym', ('made', 'part'))
PARTW = ('type_0', 'quant', 'name', 'firstchild', 'lastchild', 'childcnt', 'nextsib')
WATCH = [(n, PB, (n,)) for n in ('m_doctypeName', 'm_doctypeSysid', 'm_doctypePubid', 'm_useForeignDTD', 'm_declEntity', 'm_declElementType', 'm_declAttributeId', 'm_declAttributeIsCdata',
                                 'm_declAttributeIsId', 'm_declAttributeType', 'm_declNotationName', 'm_declNotationPublicId', 'm_groupSize')]
DTDW = ('keepProcessing', 'hasParamEntityRefs', 'standalone', 'paramEntityRead', 'in_eldecl', 'contentStringLen')
ENTW = ('name', 'textPtr', 'textLen', 'systemId', 'base', 'publicId', 'notation', 'open', 'is_param', 'is_internal')


LEVEL = ('sym', ('ld', PB, ('m_prologState', 'level'), None))
ROOM = ('sym', ('ld', PB, ('m_groupSize',), None))
FULL = ('sym', ('full',)); TWICE = ('sym', ('twice',))
FLIP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}


class PHooks(CHooks):
    roles = ()

    def on_bin(s, ai, op, a, b, w, sg):
        # how deep the groups are nested, against the room there is
        if op in CMP and {a, b} == {LEVEL, ROOM}:
            if a == ROOM: op = FLIP[op]
            if op in ('Ge', 'Lt'): return FULL if op == 'Ge' else ('op', 'Eq', FULL, 0)
        if op in ('Mul', 'MulUnchecked') and {a, b} == {ROOM, 2} or op == 'Add' and a == b == ROOM or op == 'Shl' and (a, b) == (ROOM, 1): return TWICE
        if (op, a, b) in (('Div', TWICE, 2), ('Shr', TWICE, 1)): return ROOM
        return CHooks.on_bin(s, ai, op, a, b, w, sg)

    def on_call(s, ai, st, fn, callee, term, fid):
        n = callee.short
        if n in ('getElementType', 'getAttributeId', 'build_model') and n in s.choices:
            s.ev(st, ('call', n, s.args(ai, st, fn, fid, term), s.snap(ai, st)))
            y = ('sym', ('made', n))
            t = st.copy(); t.eqs[('choice', n, 0)] = 'fail'
            st.eqs[('choice', n, 0)] = 'ok'; st.neq[y] = frozenset((0,))
            return [(t, frozenset((0,))), (st, frozenset((y,)))]
        if n in ('normalizePublicId', 'defineAttribute', 'storeAttributeValue') and n in s.choices:
            # no handler is called
            s.ev(st, ('call', n, s.args(ai, st, fn, fid, term), s.snap(ai, st)))
            if n == 'storeAttributeValue': s.put(st, 'pool', 'cur', (('v', 'value'),))
            return s.choose(ai, st, fn, fid, term, n, s.choices[n])
        if n == 'storeEntityValue' and n in s.choices:
            for f in ('paramEntityRead', 'keepProcessing', 'hasParamEntityRefs'):
                pa = ('value', f, 'value'); s.n += 1
                st.forget(DB, pa); st.kill_alias(DB, pa)
                st._d(DB)[pa] = frozenset((('sym', ('after', f, s.n)),))
            s.put(st, 'entityValuePool', 'cur', (('v', 'value'),))
            s.ev(st, ('call', n, s.args(ai, st, fn, fid, term), s.snap(ai, st)))
            s.api_havoc(ai, st, ('h', n, term[1]))
            r = s.choose(ai, st, fn, fid, term, n, s.choices[n])
            for t, _ in r:
                if t.eqs.get(('choice', n, 0)) == 'err':        # (the place of the error is reported by it)
                    o = t.read(PB, ('m_openInternalEntities',))
                    for b in [('S', x) for x in o or () if isinstance(x, tuple)]: t.write(b, ('internalEventPtr',), None)
                    t.write(PB, ('m_eventPtr',), None)
            return r
        if n == 'isPublicId' and n in s.choices:
            s.ev(st, ('call', n, s.args(ai, st, fn, fid, term), s.snap(ai, st)))
            R = SummHooks.args(s, ai, st, fn, fid, term)
            t = st.copy(); t.eqs[('choice', n, 0)] = 'no'; st.eqs[('choice', n, 0)] = 'yes'
            for a in R[-1] or ():
                if isinstance(a, tuple) and a[0] == '&': t.write(a[1], a[2], frozenset((MID,)))
                elif isinstance(a, tuple) and a[0] == 'sym': t.write(('S', a), (), frozenset((MID,)))
            return [(t, frozenset((0,))), (st, frozenset((1,)))]
        if n == 'doIgnoreSection' and n in s.choices and n not in s.loops: return s.cdata(ai, st, fn, callee, term, fid)
        r = s.scaffold(ai, st, fn, callee, term, fid)
        if r is not None: return r
        if n in ('alloc', 'realloc') and callee.name.startswith(('alloc::alloc', 'std::alloc')):
            k = 0
            while ('choice', 'mem', k) in st.eqs: k += 1
            t = st.copy(); t.eqs[('choice', 'mem', k)] = 'fail'; st.eqs[('choice', 'mem', k)] = 'ok'
            s.n += 1
            b = ('sym', ('box', s.n)); st.neq[b] = frozenset((0,))
            # what is asked for
            A = SummHooks.args(s, ai, st, fn, fid, term)
            sz = A[-1] if n == 'realloc' else None
            if n == 'alloc' and term[4][0][0] != 'k':
                dl, weak = ai.resolve(st, fn, fid, term[4][0][1])
                if dl and len(dl) == 1:
                    for q, x in st.mem.get(dl[0][0], {}).items():
                        if q[:len(dl[0][1])] == dl[0][1] and 'size' in q: sz = x
            st._d(('S', b))[('allocated',)] = sz
            return [(t, frozenset((0,))), (st, frozenset((b,)))]
        if n == 'zeroed' and callee.name.startswith(('std::mem::', 'core::mem::')):
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            t = s.p.place_ty(fn, term[5])
            if s.p.tk(t)[0] == 'adt' and not weak:
                for d in dl or []:
                    st.write(d[0], d[1], None)
                    for f, x in s.p.fields(t):
                        if s.p.tk(x)[0] in ('ptr', 'int', 'uint', 'bool'): st._d(d[0])[d[1] + (f,)] = frozenset((0,))
                return [(st, 'done')]
        if n == 'array' and callee.name.endswith(('Layout::array::<i8>', 'Layout::array::<u8>')):
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            A = SummHooks.args(s, ai, st, fn, fid, term)
            for d in dl or []:
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((0,))
                st._d(d[0])[d[1] + ('v:Ok', '0', 'size')] = A[0]
            return [(st, 'done')]
        if n == 'try_reserve':
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            k = 0
            while ('choice', 'mem', k) in st.eqs: k += 1
            out = []
            for lab in ('fail', 'ok'):
                t = st.copy() if lab == 'fail' else st
                t.eqs[('choice', 'mem', k)] = lab
                for d in dl or []:
                    t.write(d[0], d[1], None); t._d(d[0])[d[1] + ('#',)] = frozenset((int(lab == 'fail'),))
                out.append((t, 'done'))
            return out
        if n == 'entry' and 'HashMap' in callee.name:
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            e = {v: int(k) for v, k in s.p.enum_discr(s.p.place_ty(fn, term[5])).items()}
            for d in dl or []:
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((e['Vacant'],))
            return [(st, 'done')]
        if n == 'insert' and 'VacantEntry' in callee.name:
            A = SummHooks.args(s, ai, st, fn, fid, term)
            b = None
            if term[4][1][0] != 'k':
                dl, weak = ai.resolve(st, fn, fid, term[4][1][1])
                if dl and len(dl) == 1:
                    for k, x in st.mem.get(dl[0][0], {}).items():
                        if k[:len(dl[0][1])] == dl[0][1] and 'pointer' in k: b = x
            cell = ('S', ('sym', ('cell', 'new', 0)))
            st._d(cell)[('0', 'pointer', 'pointer')] = b
            return [(st, frozenset((('&', cell, ()),)))]
        if n == 'len' and 'StringPool' in callee.name:
            return [(st, frozenset((('sym', ('plen', s.cur(st, 'entityValuePool'))),)))]
        if n == 'try_new' and 'Box' in callee.name and term[5]:
            src = None
            if term[4][0][0] != 'k':
                dl, weak = ai.resolve(st, fn, fid, term[4][0][1])
                if dl and len(dl) == 1: src = {k[len(dl[0][1]):]: x for k, x in st.mem.get(dl[0][0], {}).items() if k[:len(dl[0][1])] == dl[0][1]}
            r = s.newbox(ai, st, fn, term, fid)
            b = ('S', ('sym', ('box', s.n)))
            k = 0
            while ('choice', 'mem', k) in st.eqs: k += 1
            for (t, _), lab in zip(r, ('fail', 'ok')):
                t.eqs[('choice', 'mem', k)] = lab
                if lab == 'ok' and src:
                    for q, x in src.items(): t._d(b)[q] = x
                t.neq[b[1]] = frozenset((0,))
            return r
        return CHooks.on_call(s, ai, st, fn, callee, term, fid)

    def scaffold(s, ai, st, fn, callee, term, fid):
        """the groups of an element declaration: the parts in a list, the open groups on a stack"""
        n = callee.short
        if n in ('deref', 'deref_mut') and 'DTDScaffold' in callee.name and 'Ref' in callee.name and 'Rc<' not in callee.name: return [(st, frozenset((('&', SCF, ()),)))]
        if 'Vec' not in callee.name and 'slice' not in callee.name or not term[4]: return None
        A = SummHooks.args(s, ai, st, fn, fid, term)
        a = next(iter(A[0])) if A[0] and len(A[0]) == 1 else None
        if not isinstance(a, tuple): return None
        if a[0] == 'sl' and a[1] == ('sym', ('open groups',)) and n == 'last': which = 'index'
        elif a[0] == '&' and a[1] == SCF and a[2]: which = a[2][0]
        else: return None
        def some(v):
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            for d in dl or []:
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((1,)); st._d(d[0])[d[1] + ('v:Some', '0')] = v
            return [(st, 'done')]
        if which == 'index':
            if n in ('deref', 'as_slice'): return [(st, frozenset((('sl', ('sym', ('open groups',)), None),)))]
            if n == 'last':
                st._d(('S', ('sym', ('top cell',))))[()] = frozenset((TOPG,))
                return some(frozenset((('&', ('S', ('sym', ('top cell',))), ()),)))
            if n == 'pop':
                s.ev(st, ('call', 'close group', (), s.snap(ai, st))); return some(frozenset((TOPG,)))
            if n == 'push':
                s.ev(st, ('call', 'open group', (A[1],), s.snap(ai, st))); return [(st, None)]
            if n == 'is_empty': return s.choose(ai, st, fn, fid, term, 'is_empty', [('no', 0), ('yes', 1)])
        if n == 'clear':
            s.ev(st, ('call', 'clear ' + which, (), s.snap(ai, st))); return [(st, None)]
        if which == 'scaffold':
            if n == 'len': return [(st, frozenset((NEWP,)))]
            if n == 'push':
                s.ev(st, ('call', 'new part', (), s.snap(ai, st)))
                for f in PARTW: st._d(('S', ('sym', ('part', NEWP))))[(f,) + (('#',) if f in ('type_0', 'quant') else ())] = frozenset((0,))
                return [(st, None)]
            if n in ('index', 'index_mut') and A[1] and len(A[1]) == 1: return [(st, frozenset((('&', ('S', ('sym', ('part', next(iter(A[1]))))), ()),)))]
        return None

    def on_indirect(s, ai, st, fn, V, term, fid):
        if V is not None and len(V) == 1 and 'm_prologState' in repr(next(iter(V))):
            s.ev(st, ('call', 'role', s.args(ai, st, fn, fid, term), s.snap(ai, st)))
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            out = []
            for i, r in enumerate(s.roles):
                t = st.copy() if i < len(s.roles) - 1 else st
                t.eqs[('choice', 'role', 0)] = r
                for d in dl or []:
                    t.write(d[0], d[1], None); t._d(d[0])[d[1] + ('#',)] = frozenset((s.rolev[r],))
                out.append((t, 'done'))
            return out
        return CHooks.on_indirect(s, ai, st, fn, V, term, fid)


class POutcome(Outcome):
    def __init__(s, eng, st, q, sc, nextarg, sbarg, again):
        Outcome.__init__(s, eng, st, q, sc, nextarg, sbarg, again)
        for n, b, p in WATCH: s.x[n] = s.chg(n, n, st.read(b, p))
        for n in DTDW: s.x[n] = s.chg(n, 'm_dtd.' + n, st.read(DB, ('value', n, 'value')))
        V = st.read(PB, ('m_declEntity',))
        if V and len(V) == 1 and 0 not in V:
            b = ('S', next(iter(V)))
            for n in ENTW: s.x['e.' + n] = s.chg(n, val(b[1]) + '.' + n, st.read(b, (n,)))
        elif V == frozenset((0,)):
            for n in ENTW: s.x['e.' + n] = 'same'

        for k, b in (('n', NEWP), ('t', TOPG)):
            d = st.mem.get(('S', ('sym', ('part', b))), {})
            for f in PARTW:
                q = (f, '#') if f in ('type_0', 'quant') else (f,)
                v = vals(d[q]) if q in d else vals(d[(f,)]) if (f,) in d else 'same'
                s.x[k + '.' + f] = 'same' if v == 'part.' + f else v
        L = st.mem.get(('S', ('sym', ('part', ('sym', ('ld', ('S', ('sym', ('part', TOPG))), ('lastchild',), None))))), {})
        s.x['l.nextsib'] = vals(L[('nextsib',)]) if ('nextsib',) in L else 'same'
        s.x['conn'] = 'same'; s.x['model'] = '-'
        gs = s.x['m_groupSize']; ini = st.read(PB, ('m_groupSize',))
        s.x['groups'] = 'unknown'
        full = st.eqs.get(FULL)
        con = st.read(PB, ('m_groupConnector',))
        got = [st.mem.get(('S', x), {}).get(('allocated',)) for x in con or () if isinstance(x, tuple)]
        asked = len(got) == 1 and got[0] == ini
        if full == 0 and gs == 'same': s.x['groups'] = 'room'
        if full == 1 and ini == frozenset((32,)) and asked and st.eqs.get(ROOM) == 0: s.x['groups'] = 'first'
        if full == 1 and ini == frozenset((TWICE,)) and asked: s.x['groups'] = 'doubled'
        for b, d in st.mem.items():
            q = po_parts(b[1]) if b[0] == 'S' else None
            if q and 'level' in repr(q[1]) and () in d: s.x['conn'] = vals(d[()]); s.x['conn at'] = '%s' % repr(b)
        for e in s.q:
            if e[0] == 'H' and e[1] == 'm_elementDeclHandler' and e[2][2] and len(e[2][2]) == 1:
                b = ('S', next(iter(e[2][2])))
                s.x['model'] = ','.join(vals(st.read(b, p)) for p in (('type_0', '#'), ('quant', '#'), ('name',), ('numchildren',), ('children',)))

    def look(s, name):
        if name[:5] == 'type[':
            i = int(name[5])
            for k, v in s.st.eqs.items():
                if k[0] == 'sym' and 'm_declAttributeType' in repr(k) and k[1][0] in ('ld', 'fld') and i == idx(k): return (chr(v & 0xff) if v & 0xff in (40, 78, 79) else 'other',)
            for k, v in s.st.neq.items():
                if k[0] == 'sym' and 'm_declAttributeType' in repr(k) and k[1][0] in ('ld', 'fld') and i == idx(k):
                    r = tuple(c for c in (('(', 'N') if i == 0 else ('O',)) if ord(c) not in v) + ('other',)
                    return r
            return None
        if name in ('conn', 't.type'):
            for tab in (s.st.eqs, s.st.neq):
                for k, v in tab.items():
                    if k[0] != 'sym' or k[1][0] not in ('ld', 'fld'): continue
                    if name == 'conn' and k[1][0] == 'ld' and k[1][1][0] == 'S' and 'm_groupConnector' in repr(k[1][1]) and k[1][2] == ():
                        return ({0: '0', 44: ',', 124: '|'}.get(v, 'other'),) if tab is s.st.eqs else tuple(n for c, n in ((0, '0'), (44, ','), (124, '|')) if c not in v) + ('other',)
                    if name == 't.type' and 'type_0' in repr(k) and 'part' in repr(k):
                        return ('mixed' if v == 3 else 'other',) if tab is s.st.eqs else ('other',) if 3 in v else None
            return None
        return Outcome.look(s, name)

    def chg(s, n, ini, V):
        r = vals(V)
        if r == ini: return 'same'
        if n == 'keepProcessing' and s.c.choice.get(('role', 0), '').endswith('PARAM_ENTITY_REF') and (r == 'm_dtd.standalone' or r in ('0', '1') and 'standalone' in s.c.field and bool(s.c.field['standalone']) == (r == '1')): return 'standalone'
        if r in ('0', '1') and n in s.c.field and bool(s.c.field[n]) == (r == '1'): return 'same=' + r
        return r


class PEng(Eng):
    Hooks = PHooks

    def __init__(s, p):
        Eng.__init__(s, p)
        s.role = {k: int(v) for k, v in p.enum_discr(p.find_adt('XML_ROLE')).items()}

    def prolog(s, tok, roles, sc):
        fn = s.p.one('doProlog'); contract.PROG = s.p
        ch = dict(PQUIET); q = set(ch); ch.update(CALLS)
        h = PHooks(s.p, mask(s.tok[tok], 64), ch, quiet=q, mbpc=sc.get('mbpc', 1), conv=sc.get('conv', 0), lookups=dict.fromkeys(('generalEntities', 'paramEntities')), loops=('xmlTok',))
        h.keyed = ('generalEntities', 'paramEntities'); h.roles = roles; h.rolev = {r: mask(s.role[r], 32) for r in roles}

        def su(ai, st, f):
            st.neq[PA] = frozenset((0,))
            for x in POS: st.neq[x] = frozenset((0,))
            set_handlers(st, s.slots, None)
            st.write(PB, STP, frozenset((1,)))
            if sc.get('internal'):
                oie = ('sym', ('ld', PB, ('m_openInternalEntities',), None))
                st._d(PB)[('m_openInternalEntities',)] = frozenset((oie,))
                st.neq[oie] = frozenset((0,))
            st._d(('X', 'tok'))[()] = frozenset((1,))
            if roles[0].endswith('ATTRIBUTE_VALUE'): st._d(('X', 'pool'))[('cur', 'm_tempPool')] = frozenset(((('v', 'listed'),),))
            st.write(('L', 0, 2), (), None); st._d(('L', 0, 2))[('#',)] = frozenset((sc.get('internal', 0),))
            st.write(('L', 0, 3), (), None); st._d(('L', 0, 3))[('0',)] = frozenset((('sl', START, LEN),))
            st.write(('L', 0, 4), (), None); st._d(('L', 0, 4))[('#',)] = frozenset((mask(s.tok[tok], 64),))
            st.write(('L', 0, 5), (), frozenset((END,)))
            st.write(('L', 0, 7), (), frozenset((sc.get('more', 0),)))
            st.write(('L', 0, 8), (), frozenset((sc.get('close', 1),)))
        paths, ai = step(s.p, fn, h, su)
        s.fns |= {s.p.fns[f].short for f, _ in ai.blocks_seen if s.p.fns[f].local}
        out = [POutcome(s, st, ev, sc, 6, None, None) for x in paths for st, ev in settle(ai, x.st, x.ev)]
        out += [POutcome(s, c, ev, sc, 6, None, A) for st, A in h.again for c, ev in settle(ai, st, st.q)]
        s.npaths += len(out)
        return out


import decl_spec as DS


def idx(k):
    """which character of the text at m_declAttributeType"""
    k = k[1]
    if k[0] != 'ld' or k[1][0] != 'S' or k[2] not in ((), ('i0',)): return None
    b, o = po_parts(k[1][1])
    return o if b == ('sym', ('ld', PB, ('m_declAttributeType',), None)) else None


def pgrid(deep):
    out = []
    for role, tok in DS.roles():
        for conv, mbpc, internal in ((0, 1, 0), (1, 2, 0), (0, 1, 1)) + (((1, 1, 0), (1, 1, 1)) if deep else ()):
            for close in ((0, 1) if role == 'DOCTYPE_CLOSE' else (1,)):
                out.append((role, tok, dict(conv=conv, mbpc=mbpc, internal=internal, more=0, close=close)))
    for tok in DS.ENDS:
        for conv, mbpc, internal, more in ((0, 1, 0, 0), (0, 1, 0, 1), (1, 2, 0, 0), (0, 1, 1, 0)):
            out.append((None, tok, dict(conv=conv, mbpc=mbpc, internal=internal, more=more, close=1)))
    return out


def pone(ctx, E, role, tok, sc, aspect=ALL):
    roles = (role,) if role else ('ERROR', 'NONE') if tok == 'NONE' else ('NONE',)
    outs = E.prolog(tok, roles, sc)
    if role:
        key = 'declarations:%s:%s:%s' % (role, tok, ','.join('%s%s' % x for x in sc.items() if x[0] != 'more'))
        sp = DS.spec_of(tok, role, sc, val(mask(E.tok[tok], 64)))
    else:
        key = 'declarations:%s:%s' % (tok, ','.join('%s%s' % x for x in sc.items()))
        sp = DS.incomplete(tok, sc, val(mask(E.tok[DS.ENDS[tok] or tok], 64)))
    check(ctx, key, outs, sp, DS.domain, aspect=aspect, ignore=lambda o: o.x['ret'] == 'NO_MEMORY' and not any(v == 'fail' for v in o.c.choice.values()), where=E.p.one('doProlog').where())
    return outs
