"""What happens for each token of the prolog and of a declaration, by the role of the token: events, what is
remembered for the declaration, what is entered for the entity, and where processing goes on."""
from content_spec import dflt, pi, comment, err, DF
import content_spec

SAME = ('same', 'same=0', 'same=1')
ONE, ZERO = ('1', 'same=1'), ('0', 'same=0')
P_ = ('m_doctypeName', 'm_doctypeSysid', 'm_doctypePubid', 'm_useForeignDTD', 'm_declEntity', 'm_declElementType', 'm_declAttributeId', 'm_declAttributeIsCdata',
      'm_declAttributeIsId', 'm_declAttributeType', 'm_declNotationName', 'm_declNotationPublicId')
D_ = ('keepProcessing', 'hasParamEntityRefs', 'standalone', 'paramEntityRead', 'in_eldecl', 'contentStringLen')
E_ = ('name', 'textPtr', 'textLen', 'systemId', 'base', 'publicId', 'notation', 'open', 'is_param', 'is_internal')
AT = ('s', 'e')
PARTS = tuple('%s.%s' % (a, b) for a in 'nt' for b in ('type_0', 'quant', 'name', 'firstchild', 'lastchild', 'childcnt', 'nextsib')) + ('l.nextsib',)
DECL = ('s', 's')       # a declaration event has no extent
STILL = {'isPublicId', 'normalizePublicId', 'getElementType', 'getAttributeId', 'defineAttribute', 'storeAttributeValue', 'lookup', 'build_model', 'role', 'skipS', 'normalizeLines', 'clear scaffold', 'clear index', 'new part', 'open group', 'close group'}
STR = lambda m: '<s+%d..e-%d>' % (m, m)
NAME = '<s..e>'


def keep(**x):
    d = {n: SAME for n in P_ + D_}
    d.update({'e.' + n: SAME for n in E_})
    d.update({n: 'same' for n in PARTS}); d['conn'] = 'same'; d['model'] = '-'
    for k, v in x.items(): d[k.replace('e_', 'e.') if k.startswith('e_') else k] = v
    return d


def noent(d):
    """the fields of the declared entity are not looked at"""
    for n in E_: d['e.' + n] = None
    return d


def loose(d):
    """another parser or processing function may have changed the declarations"""
    for n in P_ + D_ + PARTS + ('conn',): d[n] = None
    return noent(d)


def dtd_read(d):
    """the application may have read an external entity with a parser that shares the declarations"""
    for n in ('keepProcessing', 'hasParamEntityRefs', 'paramEntityRead'): d[n] = None
    return d


def spec_of(tok, role, sc, tokn):
    m = sc['mbpc']
    R = [('role', (None, tokn, 's..e', None), None)]

    def done(g, evs, d, default=True, end='e', lit=None):
        if default: evs = evs + dflt(g, sc, end=None)
        st = g('status') if any(e[0][0] != '?' and e[0] not in STILL for e in evs) else 'go'
        if st == 'susp': return R + evs, dict(d, ret='NONE', next='e')
        if st == 'fin': return R + evs, dict(d, ret='ABORTED')
        return R + evs, dict(d, ret='again', buf='e..b', lit=lit)

    def fail(code, evs, d, ev='s'):
        return R + list(evs), dict(d, ret=code, ev=ev)

    def insert(g, table, key):
        return [('lookup', (table, key), None)], g('choice:' + table) == 'some'

    def not_standalone(g, evs):
        if g('standalone') or not g('m_notStandaloneHandler'): return False
        evs.append(('m_notStandaloneHandler', (), AT))
        return not g('iret:m_notStandaloneHandler')

    def foreign(g, evs, d, sysid):
        """the external subset, or one the application provides"""
        d['hasParamEntityRefs'] = ONE
        if not g('m_paramEntityParsing') or not g('m_externalEntityRefHandler'): return None
        e, found = insert(g, 'paramEntities', '<#>')
        E = 'found.paramEntities' if found else None
        evs += e
        base = 'm_curBase' if g('m_useForeignDTD') else E + '.base' if E else '0'
        evs.append(('m_externalEntityRefHandler', ('0', base, E + '.systemId' if E else '0', E + '.publicId' if E else '0', None, 'read=0'), AT))
        dtd_read(d)
        if not g('iret:m_externalEntityRefHandler'): return 'EXTERNAL_ENTITY_HANDLING'
        if g('after:paramEntityRead'):
            if not_standalone(g, evs): return 'NOT_STANDALONE'
        elif not sysid(): d['hasParamEntityRefs'] = SAME
        return None

    def attlist(g, attval, required):
        t = 'm_declAttributeType'
        if not g('m_attlistDeclHandler') or not g(t): return None
        d = {}
        c0 = g('type[0]')
        listed = c0 == '(' or c0 == 'N' and g('type[1]') == 'O'
        ty = '<listed )>' if listed else 'm_declAttributeType'
        return [('m_attlistDeclHandler', ('m_declElementType.name', None, ty, attval, str(int(required))), DECL)], dict(m_declAttributeType=None)

    def entity_id(g, d, evs, field):
        """the public or system identifier of the entity being declared"""
        if g('keepProcessing') and d.get('m_declEntity') != '0' and (d.get('m_declEntity') != SAME or g('m_declEntity')):
            if field == 'publicId': evs.append(('normalizePublicId', (STR(m),), None))
            d['e.' + field] = STR(m)
            if field == 'systemId': d['e.base'] = 'm_curBase'
            return True
        return False

    def reference(g, name):
        d = keep(hasParamEntityRefs=ONE)
        noent(d)
        if not g('m_paramEntityParsing'):
            evs = []
            d['keepProcessing'] = 'standalone'
            if not_standalone(g, evs): return fail('NOT_STANDALONE', evs, d)
            return done(g, evs, d)
        evs, found = insert(g, 'paramEntities', STR(m))
        if g('documentEntity') and g('standalone') and not sc['internal'] and not g('m_openInternalEntities'):
            # WFC: Entity Declared
            if not found: return fail('UNDEFINED_ENTITY', evs, d)
            if not g('is_internal'): return fail('ENTITY_DECLARED_IN_PE', evs, d)
        elif not found:
            d['keepProcessing'] = 'standalone'
            if role == 'PARAM_ENTITY_REF' and g('m_skippedEntityHandler'):
                return done(g, evs + [('m_skippedEntityHandler', (STR(m), '1'), AT)], d, False)
            return done(g, evs, d)
        E = 'found.paramEntities'
        if g('open'): return fail('RECURSIVE_ENTITY_REF', evs, d)
        if g('textPtr'):
            evs = evs + [('processInternalEntity', (None, E, str(int(role == 'PARAM_ENTITY_REF'))), None)]
            loose(d)
            if g('choice:processInternalEntity') == 'err': return R + evs, dict(d, ret='DUPLICATE_ATTRIBUTE')
            return done(g, evs, d, False)
        if not g('m_externalEntityRefHandler'):
            d['keepProcessing'] = 'standalone'
            return done(g, evs, d)
        evs = evs + [('m_externalEntityRefHandler', (None, E + '.base', E + '.systemId', E + '.publicId', 'open=1', 'read=0'), AT)]
        dtd_read(d); d['fopen'] = '0'
        if not g('iret:m_externalEntityRefHandler'): return fail('EXTERNAL_ENTITY_HANDLING', evs, d)
        if g('after:paramEntityRead'):
            if not_standalone(g, evs): return fail('NOT_STANDALONE', evs, d)
        else: d['keepProcessing'] = 'standalone'
        return done(g, evs, d, False)

    def spec(g):
        if role in ('XML_DECL', 'TEXT_DECL'):
            evs = [('processXmlDecl', (None, str(int(role == 'TEXT_DECL')), 's..e'), None)]
            d = loose(keep())
            if g('choice:processXmlDecl') == 'err': return R + evs, dict(d, ret='DUPLICATE_ATTRIBUTE')
            return done(g, evs, d, False, lit='m_encoding,0')
        if role == 'DOCTYPE_NAME':
            if g('m_startDoctypeDeclHandler'): return done(g, [], keep(m_doctypeName=NAME, m_doctypePubid='0', m_doctypeSysid='0'), False)
            return done(g, [], keep(m_doctypeSysid='0'))
        if role == 'DOCTYPE_INTERNAL_SUBSET':
            if not g('m_startDoctypeDeclHandler'): return done(g, [], keep())
            return done(g, [('m_startDoctypeDeclHandler', ('m_doctypeName', 'm_doctypeSysid', 'm_doctypePubid', '1'), AT)], keep(m_doctypeName='0'), False)
        if role == 'DOCTYPE_PUBLIC_ID':
            evs, found = insert(g, 'paramEntities', '<#>')
            d = keep(m_useForeignDTD=ZERO, hasParamEntityRefs=ONE, m_declEntity='found.paramEntities' if found else 'box')
            if not found: new(d, '<#>')
            evs.append(('isPublicId', (None, 's..e', None), None))
            if g('choice:isPublicId') == 'no': return fail('PUBLICID', evs, d, ev='m')
            h = g('m_startDoctypeDeclHandler')
            if h:
                evs.append(('normalizePublicId', (STR(m),), None))
                d['m_doctypePubid'] = STR(m)
            entity_id(g, d, evs, 'publicId')
            return done(g, evs, d, not h)
        if role == 'ENTITY_PUBLIC_ID':
            evs = [('isPublicId', (None, 's..e', None), None)]
            d = keep()
            if g('choice:isPublicId') == 'no': return fail('PUBLICID', evs, d, ev='m')
            q = entity_id(g, d, evs, 'publicId') and g('m_entityDeclHandler')
            return done(g, evs, d, not q)
        if role == 'DOCTYPE_SYSTEM_ID':
            evs = []
            d = keep(m_useForeignDTD=ZERO, hasParamEntityRefs=ONE)
            h = g('m_startDoctypeDeclHandler')
            d['m_doctypeSysid'] = STR(m) if h else '<#>'
            if not g('standalone') and not g('m_paramEntityParsing') and not_standalone(g, evs): return fail('NOT_STANDALONE', evs, d)
            if not g('m_declEntity'):
                e, found = insert(g, 'paramEntities', '<#>')
                evs += e
                d['m_declEntity'] = 'found.paramEntities' if found else 'box'
                if not found: new(d, '<#>')
                d['e.publicId'] = '0'
            entity_id(g, d, evs, 'systemId')
            return done(g, evs, d, not h)
        if role == 'ENTITY_SYSTEM_ID':
            evs = []; d = keep()
            q = entity_id(g, d, evs, 'systemId') and g('m_entityDeclHandler')
            return done(g, evs, d, not q)
        if role == 'DOCTYPE_CLOSE':
            if not sc['close']: return fail('INVALID_TOKEN', [], keep())
            evs = []; d = keep(); default = True
            if g('m_doctypeName'):
                if g('m_startDoctypeDeclHandler'): evs.append(('m_startDoctypeDeclHandler', ('m_doctypeName', 'm_doctypeSysid', 'm_doctypePubid', '0'), AT))
                default = False
            # (the names of the document type declaration are no longer used)
            for n in ('m_doctypeName', 'm_doctypeSysid', 'm_doctypePubid'): d[n] = None
            noent(d)
            if g('m_doctypeSysid') or g('m_useForeignDTD'):
                e = foreign(g, evs, d, lambda: g('m_doctypeSysid'))
                if e: return fail(e, evs, dict(d, m_useForeignDTD=SAME))
                d['m_useForeignDTD'] = ZERO
            if g('m_endDoctypeDeclHandler'):
                evs.append(('m_endDoctypeDeclHandler', (), AT)); default = False
            return done(g, evs, d, default)
        if role == 'INSTANCE_START':
            evs = []; d = noent(keep())
            if g('m_useForeignDTD'):
                e = foreign(g, evs, d, lambda: False)
                if e: return fail(e, evs, d)
            evs.append(('contentProcessor', (None, 's..b', None), None))
            r = g('choice:contentProcessor')
            return R + evs, dict(loose(keep()), ret='NONE' if r == 'ok' else 'DUPLICATE_ATTRIBUTE')
        if role == 'ATTLIST_ELEMENT_NAME':
            evs = [('getElementType', (None, None, 's..e'), None)]
            d = keep(m_declElementType='made.getElementType')
            return done(g, evs, d, not (g('keepProcessing') and g('m_attlistDeclHandler')))
        if role == 'ATTRIBUTE_NAME':
            evs = [('getAttributeId', (None, None, 's..e'), None)]
            d = keep(m_declAttributeId='made.getAttributeId', m_declAttributeIsCdata=ZERO, m_declAttributeType='0', m_declAttributeIsId=ZERO)
            return done(g, evs, d, not (g('keepProcessing') and g('m_attlistDeclHandler')))
        if role.startswith('ATTRIBUTE_TYPE_'):
            t = role[15:]
            d = keep(m_declAttributeType='<%s>' % ' '.join(t))
            d['m_declAttributeType'] = '<%s>' % t
            if t == 'CDATA': d['m_declAttributeIsCdata'] = ONE
            if t == 'ID': d['m_declAttributeIsId'] = ONE
            return done(g, [], d, not (g('keepProcessing') and g('m_attlistDeclHandler')))
        if role in ('ATTRIBUTE_ENUM_VALUE', 'ATTRIBUTE_NOTATION_VALUE'):
            if not (g('keepProcessing') and g('m_attlistDeclHandler')): return done(g, [], keep())
            pre = '|' if g('m_declAttributeType') else '(' if role == 'ATTRIBUTE_ENUM_VALUE' else 'NOTATION('
            return done(g, [], keep(m_declAttributeType='<copy(<%s>) s..e|' % pre), False)
        if role in ('IMPLIED_ATTRIBUTE_VALUE', 'REQUIRED_ATTRIBUTE_VALUE', 'DEFAULT_ATTRIBUTE_VALUE', 'FIXED_ATTRIBUTE_VALUE'):
            if not g('keepProcessing'): return done(g, [], keep())
            evs = []; val = '0'; d = keep()
            has = role in ('DEFAULT_ATTRIBUTE_VALUE', 'FIXED_ATTRIBUTE_VALUE')
            if has:
                evs.append(('storeAttributeValue', (None, None, 'm_declAttributeIsCdata', 's+%d..e-%d' % (m, m), None), None))
                if g('choice:storeAttributeValue') == 'err': return fail('DUPLICATE_ATTRIBUTE', evs, d)
                val = '<value|'
            evs.append(('defineAttribute', ('m_declElementType', 'm_declAttributeId', 'm_declAttributeIsCdata', '0' if has else 'm_declAttributeIsId', val), None))
            a = attlist(g, val, role in ('REQUIRED_ATTRIBUTE_VALUE', 'FIXED_ATTRIBUTE_VALUE'))
            if a: return done(g, evs + a[0], dict(d, **a[1]), False)
            return done(g, evs, d)
        if role == 'ENTITY_VALUE':
            if not g('keepProcessing'): return done(g, [], keep())
            evs = [('storeEntityValue', (None, None, 's+%d..e-%d' % (m, m)), None)]
            d = dtd_read(keep()); default = True
            bad = g('choice:storeEntityValue') == 'err'
            if g('m_declEntity'):
                d['e.textPtr'] = '<value|'; d['e.textLen'] = 'length of <value|'
                if g('m_entityDeclHandler'):
                    evs.append(('m_entityDeclHandler', ('m_declEntity.name', 'm_declEntity.is_param', '<value|', 'length of <value|', 'm_curBase', '0', '0', '0'), (None, 's') if bad else DECL))
                    default = False
            if bad: return fail('DUPLICATE_ATTRIBUTE', evs, d, None)
            return done(g, evs, d, default)
        if role == 'ENTITY_COMPLETE':
            if g('keepProcessing') and g('m_declEntity') and g('m_entityDeclHandler'):
                E = 'm_declEntity.'
                return done(g, [('m_entityDeclHandler', (E + 'name', E + 'is_param', '0', '0', E + 'base', E + 'systemId', E + 'publicId', '0'), DECL)], keep(), False)
            return done(g, [], keep())
        if role == 'ENTITY_NOTATION_NAME':
            if not (g('keepProcessing') and g('m_declEntity')): return done(g, [], keep())
            E = 'm_declEntity.'
            d = keep(e_notation=NAME)
            if g('m_unparsedEntityDeclHandler'): return done(g, [('m_unparsedEntityDeclHandler', (E + 'name', E + 'base', E + 'systemId', E + 'publicId', NAME), DECL)], d, False)
            if g('m_entityDeclHandler'): return done(g, [('m_entityDeclHandler', (E + 'name', '0', '0', '0', E + 'base', E + 'systemId', E + 'publicId', NAME), DECL)], d, False)
            return done(g, [], d)
        if role in ('GENERAL_ENTITY_NAME', 'PARAM_ENTITY_NAME'):
            param = role == 'PARAM_ENTITY_NAME'
            if not param and g('choice:predefinedEntityName') == 'yes': return done(g, [], keep(m_declEntity='0'))
            if not g('keepProcessing'): return done(g, [], keep(m_declEntity='0'))
            evs, found = insert(g, 'paramEntities' if param else 'generalEntities', NAME)
            if found: return done(g, evs, keep(m_declEntity='0'))       # the first declaration is binding
            d = new(keep(m_declEntity='box'), NAME)
            d['e.is_param'] = str(int(param))
            d['e.is_internal'] = '0' if sc['internal'] or g('is_child_parser') or g('m_openInternalEntities') else '1'
            return done(g, evs, d, not g('m_entityDeclHandler'))
        if role == 'NOTATION_NAME':
            d = keep(m_declNotationPublicId='0', m_declNotationName='0')
            if g('m_notationDeclHandler'): return done(g, [], dict(d, m_declNotationName=NAME), False)
            return done(g, [], d)
        if role == 'NOTATION_PUBLIC_ID':
            evs = [('isPublicId', (None, 's..e', None), None)]
            if g('choice:isPublicId') == 'no': return fail('PUBLICID', evs, keep(), ev='m')
            if g('m_declNotationName'): return done(g, evs + [('normalizePublicId', (STR(m),), None)], keep(m_declNotationPublicId=STR(m)), False)
            return done(g, evs, keep())
        if role == 'NOTATION_SYSTEM_ID':
            if g('m_declNotationName') and g('m_notationDeclHandler'):
                return done(g, [('m_notationDeclHandler', ('m_declNotationName', 'm_curBase', STR(m), 'm_declNotationPublicId'), DECL)], keep(), False)
            return done(g, [], keep())
        if role == 'NOTATION_NO_SYSTEM_ID':
            if g('m_declNotationPublicId') and g('m_notationDeclHandler'):
                return done(g, [('m_notationDeclHandler', ('m_declNotationName', 'm_curBase', '0', 'm_declNotationPublicId'), DECL)], keep(), False)
            return done(g, [], keep())
        if role == 'ERROR':
            return fail({'PARAM_ENTITY_REF': 'PARAM_ENTITY_REF', 'XML_DECL': 'MISPLACED_XML_PI'}.get(tok, 'SYNTAX'), [], keep())
        if role == 'IGNORE_SECT':
            evs = dflt(g, sc) + [('doIgnoreSection', (None, None, 'e..b'), None)]
            r = g('choice:doIgnoreSection')
            d = loose(keep())
            if r == 'err': return R + evs, dict(d, ret='DUPLICATE_ATTRIBUTE')
            if r == 'more': return R + evs, dict(d, ret='NONE', proc='ignoreSectionProcessor')
            st = g('status')
            if st == 'susp': return R + evs, dict(d, ret='NONE', next='c')
            if st == 'fin': return R + evs, dict(d, ret='ABORTED')
            return R + evs, dict(d, ret='again', buf='c..b')
        if role in ('PARAM_ENTITY_REF', 'INNER_PARAM_ENTITY_REF'): return reference(g, STR(m))
        if role in ('PI', 'COMMENT'):
            h = 'm_processingInstructionHandler' if role == 'PI' else 'm_commentHandler'
            if g(h): return done(g, (pi if role == 'PI' else comment)(sc), keep(), False)
            return done(g, [], keep())
        if role == 'ELEMENT_NAME':
            if not g('m_elementDeclHandler'): return done(g, [], keep())
            return done(g, [('getElementType', (None, None, 's..e'), None), ('clear scaffold', (), None), ('clear index', (), None)], keep(m_declElementType='made.getElementType', in_eldecl=ONE), False)
        if role in ('CONTENT_ANY', 'CONTENT_EMPTY'):
            if not g('in_eldecl'): return done(g, [], keep())
            if not g('m_elementDeclHandler'): return done(g, [], keep(in_eldecl='0'))
            return done(g, [('m_elementDeclHandler', ('m_declElementType.name', 'box'), DECL)], keep(in_eldecl='0', model='%s,0,0,0,0' % TYPE[role[8:]]), False)
        if role == 'CONTENT_PCDATA':
            if not g('in_eldecl'): return done(g, [], keep())
            return done(g, [], keep(**{'t.type_0': TYPE['MIXED']}), not g('m_elementDeclHandler'))
        if role == 'GROUP_OPEN':
            d = keep(conn='0', groups=('room', 'first', 'doubled'))
            if not g('in_eldecl'): return done(g, [], d)
            d.update(part(g, TYPE['SEQ']))
            return done(g, [('new part', (), None), ('open group', ('made.part',), None)], d, not g('m_elementDeclHandler'))
        if role == 'GROUP_SEQUENCE':
            if g('conn') == '|': return fail('SYNTAX', [], keep())
            return done(g, [], keep(conn='44'), not (g('in_eldecl') and g('m_elementDeclHandler')))
        if role == 'GROUP_CHOICE':
            if g('conn') == ',': return fail('SYNTAX', [], keep())
            if g('in_eldecl') and g('conn') == '0' and g('t.type') != 'mixed':
                return done(g, [], keep(**{'conn': '124', 't.type_0': TYPE['CHOICE']}), not g('m_elementDeclHandler'))
            return done(g, [], keep(conn='124'))
        if role.startswith('CONTENT_ELEMENT'):
            if not g('in_eldecl'): return done(g, [], keep())
            q = role[16:] or 'NONE'
            d = keep(contentStringLen=None)
            d.update(part(g, TYPE['NAME'], QUANT[q], 'made.getElementType.name'))
            return done(g, [('getElementType', (None, None, 's..e' if q == 'NONE' else 's..e-%d' % m), None), ('new part', (), None)], d, not g('m_elementDeclHandler'))
        if role.startswith('GROUP_CLOSE'):
            if not g('in_eldecl'): return done(g, [], keep())
            d = keep(**{'t.quant': QUANT[role[12:] or 'NONE']})
            h = g('m_elementDeclHandler')
            evs = [('close group', (), None)]
            if g('choice:is_empty') == 'yes':
                d.update(in_eldecl='0', contentStringLen='0', model=None)
                if h: evs += [('build_model', None, None), ('m_elementDeclHandler', ('m_declElementType.name', 'made.build_model'), DECL)]
            return done(g, evs, d, not h)
        if role == 'NONE': return done(g, [], keep(), tok != 'BOM')
        if role in QUIETED:
            k, h = QUIETED[role]
            return done(g, [], keep(), not ((not k or g('keepProcessing')) and g(h)))
        raise KeyError(role)
    return spec


TYPE = dict(EMPTY='1', ANY='2', MIXED='3', NAME='4', CHOICE='5', SEQ='6')
QUANT = dict(NONE='0', OPT='1', REP='2', PLUS='3')


def part(g, ty, quant='0', name='0'):
    """a new part of a content model, the last of the innermost open group"""
    d = {'n.type_0': ty, 'n.quant': quant, 'n.name': name, 'n.firstchild': '0', 'n.lastchild': '0', 'n.childcnt': '0', 'n.nextsib': '0'}
    if g('choice:is_empty') == 'yes': return d
    if g('lastchild'): d['l.nextsib'] = 'made.part'
    if g('childcnt'): d['t.childcnt'] = 'part.childcnt+1'
    else: d.update({'t.firstchild': 'made.part', 't.childcnt': ('1', 'part.childcnt+1')})
    d['t.lastchild'] = 'made.part'
    return d


def new(d, name):
    """a new entry: everything empty but the name"""
    for n in E_: d['e.' + n] = '0'
    d['e.name'] = name
    return d


QUIETED = {'DOCTYPE_NONE': (0, 'm_startDoctypeDeclHandler'), 'ENTITY_NONE': (1, 'm_entityDeclHandler'), 'NOTATION_NONE': (0, 'm_notationDeclHandler'),
           'ATTLIST_NONE': (1, 'm_attlistDeclHandler'), 'ELEMENT_NONE': (0, 'm_elementDeclHandler')}
TOKS = {'XML_DECL': 'XML_DECL', 'TEXT_DECL': 'XML_DECL', 'DOCTYPE_NAME': 'NAME', 'DOCTYPE_INTERNAL_SUBSET': 'OPEN_BRACKET', 'DOCTYPE_CLOSE': 'DECL_CLOSE', 'INSTANCE_START': 'INSTANCE_START',
        'ENTITY_COMPLETE': 'DECL_CLOSE', 'PI': 'PI', 'COMMENT': 'COMMENT', 'IGNORE_SECT': 'COND_SECT_OPEN', 'PARAM_ENTITY_REF': 'PARAM_ENTITY_REF', 'INNER_PARAM_ENTITY_REF': 'PARAM_ENTITY_REF'}
for r in ('DOCTYPE_PUBLIC_ID', 'ENTITY_PUBLIC_ID', 'DOCTYPE_SYSTEM_ID', 'ENTITY_SYSTEM_ID', 'DEFAULT_ATTRIBUTE_VALUE', 'FIXED_ATTRIBUTE_VALUE', 'ENTITY_VALUE', 'NOTATION_PUBLIC_ID', 'NOTATION_SYSTEM_ID'): TOKS[r] = 'LITERAL'
for r in QUIETED: TOKS[r] = 'DECL_CLOSE'
ROLES = list(dict.fromkeys(list(TOKS) + ['ATTLIST_ELEMENT_NAME', 'ATTRIBUTE_NAME'] + ['ATTRIBUTE_TYPE_' + t for t in ('CDATA', 'ID', 'IDREF', 'IDREFS', 'ENTITY', 'ENTITIES', 'NMTOKEN', 'NMTOKENS')] +
                         ['ATTRIBUTE_ENUM_VALUE', 'ATTRIBUTE_NOTATION_VALUE', 'IMPLIED_ATTRIBUTE_VALUE', 'REQUIRED_ATTRIBUTE_VALUE', 'ENTITY_NOTATION_NAME', 'GENERAL_ENTITY_NAME', 'PARAM_ENTITY_NAME',
                          'NOTATION_NAME', 'NOTATION_NO_SYSTEM_ID', 'ELEMENT_NAME', 'CONTENT_ANY', 'CONTENT_EMPTY', 'CONTENT_PCDATA', 'GROUP_OPEN', 'GROUP_SEQUENCE', 'GROUP_CHOICE'] +
                         [a + b for a in ('CONTENT_ELEMENT', 'GROUP_CLOSE') for b in ('', '_OPT', '_REP', '_PLUS')]))


def roles():
    """(role, token) pairs"""
    out = [(r, TOKS.get(r, 'NAME')) for r in ROLES]
    out += [('ERROR', t) for t in ('PARAM_ENTITY_REF', 'XML_DECL', 'NAME', 'DECL_CLOSE')] + [('NONE', 'BOM'), ('NONE', 'PROLOG_S')]
    return out


def domain(name):
    d = {'choice:' + n: ('ok', 'err') for n in ('processXmlDecl', 'storeAttributeValue', 'storeEntityValue', 'processInternalEntity', 'contentProcessor')}
    d.update({'choice:isPublicId': ('no', 'yes'), 'choice:doIgnoreSection': ('err', 'more', 'closed'), 'type[0]': ('(', 'N', 'other'), 'type[1]': ('O', 'other'),
              'choice:is_empty': ('no', 'yes'), 'choice:role': ('ERROR', 'NONE'), 'conn': ('0', ',', '|', 'other'), 't.type': ('mixed', 'other')})
    return d[name] if name in d else content_spec.domain(name)


def incomplete(tok, sc, tokn):
    """the input ends, or is malformed, where a token of the prolog begins"""
    def spec(g):
        if tok == 'INVALID': return [], dict(keep(), ret='INVALID_TOKEN', ev='e')
        if sc['more']: return [], dict(keep(), ret='NONE', next='s', ev='s')
        if tok == 'PARTIAL': return [], dict(keep(), ret='UNCLOSED_TOKEN', ev='s')
        if tok == 'PARTIAL_CHAR': return [], dict(keep(), ret='PARTIAL_CHAR', ev='s')
        if tok == 'NONE':
            if sc['internal'] and not g('betweenDecl'): return [], dict(keep(), ret='NONE', next='s')
            if not sc['internal'] and not g('m_isParamEntity'): return [], dict(keep(), ret='NO_ELEMENTS', ev='s')
            R = [('role', (None, tokn, None, None), None)]
            # a parameter entity referenced between declarations has complete declarations
            if g('choice:role') == 'ERROR': return R, dict(keep(), ret='INCOMPLETE_PE', ev='s')
            return R, dict(keep(), ret='NONE', next='s')
        # the token may be complete: it ends with the input
        evs = dflt(g, sc, 's', 'b' if tok != 'PROLOG_S_NEG' else 'e')
        if tok != 'PROLOG_S_NEG': evs = [(a, b, None) for a, b, _ in evs]
        R = [('role', (None, tokn, 's..e' if tok == 'PROLOG_S_NEG' else 's..b', None), None)]
        st = g('status') if evs else 'go'
        at = 'e' if tok == 'PROLOG_S_NEG' else 'b'
        if st == 'susp': return R + evs, dict(keep(), ret='NONE', next=at)
        if st == 'fin': return R + evs, dict(keep(), ret='ABORTED')
        return R + evs, dict(keep(), ret='again', buf='e..b' if tok == 'PROLOG_S_NEG' else ('b..b', None))
    return spec


ENDS = {'INVALID': None, 'PARTIAL': None, 'PARTIAL_CHAR': None, 'NONE': 'NONE', 'PROLOG_S_NEG': 'PROLOG_S', 'NAME_NEG': 'NAME', 'PREFIXED_NAME_NEG': 'PREFIXED_NAME', 'NMTOKEN_NEG': 'NMTOKEN',
        'POUND_NAME_NEG': 'POUND_NAME', 'CLOSE_PAREN_NEG': 'CLOSE_PAREN', 'CLOSE_BRACKET_NEG': 'CLOSE_BRACKET', 'LITERAL_NEG': 'LITERAL'}
