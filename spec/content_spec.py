"""What happens for each token of element content, of a CDATA section, of an ignored section and after the
document element: the events with the data and the positions reported for them, and where processing goes on.

Positions: s first byte of the token, e the byte after it, b end of the input, m a place inside the token
(converted data delivered in two pieces), c the place after a CDATA section."""

NAMELEN = 3         # the length given to the name at hand
CD, DF = 'm_characterDataHandler', 'm_defaultHandler'


def pieces(g, name, sc, lo, hi, end=None, two=True, endfix=None):
    """delivery of input text to a handler"""
    end = end or hi
    if not sc['conv']: return [(name, ('%s..%s' % (lo, hi),), (lo, end))]
    if two and g('choice:pieces') == 'two':
        return [(name, ('conv(%s..m)' % lo,), (lo, endfix or 'm')), (name, ('conv(m..%s)' % hi,), ('m', endfix or hi))]
    return [(name, ('conv(%s..%s)' % (lo, hi),), (lo, end))]


def dflt(g, sc, lo='s', hi='e', end=None, two=True):
    return pieces(g, DF, sc, lo, hi, end, two) if g(DF) else []


def quiet(evs):
    return any(e[0][0] != '?' for e in evs)


def tail(g, evs, proc=None, **x):
    """after a token: stop, suspend, or the next token"""
    st = g('status') if quiet(evs) else 'go'      # only a handler can change it
    if st == 'susp': return evs, dict(ret='NONE', next='e', ev='e', proc=proc, **x)
    if st == 'fin': return evs, dict(ret='ABORTED', **x)
    return evs, dict(ret='again', buf='e..b', ev='e', **x)


def err(code, evs=(), ev='s', **x):
    return list(evs), dict(ret=code, ev=ev, **x)


def more(sc, code, evs=()):
    """incomplete at the end of the input"""
    if sc['more']: return list(evs), dict(ret='NONE', next='s', ev='s')
    return err(code, evs)


def pi(sc):
    m = sc['mbpc']
    t, d = '<s+%d..s+%d>' % (2 * m, 2 * m + NAMELEN), '<k..e-%d>' % (2 * m)
    return [('skipS', (None, 's+%d' % (2 * m + NAMELEN)), None), ('normalizeLines', (d,), None), ('m_processingInstructionHandler', (t, d), ('s', 'e'))]


def comment(sc):
    d = '<s+%d..e-%d>' % (4 * sc['mbpc'], 3 * sc['mbpc'])
    return [('normalizeLines', (d,), None), ('m_commentHandler', (d,), ('s', 'e'))]


def content(tok, sc):
    def chars(g, data):
        if g(CD): return [(CD, (data,), ('s', 'e'))]
        return dflt(g, sc)

    def same_level(evs, **x):
        """end of the input of an entity (or of the document)"""
        if sc['stl'] == 0: return evs, dict(ret='NO_ELEMENTS', **x)
        if sc['lvl'] != sc['stl']: return evs, dict(ret='ASYNC_ENTITY', **x)
        return evs, dict(ret='NONE', next='b')

    def ended(g, evs):
        """an element has ended"""
        x = dict(top='~m_tagStack.parent:') if tok == 'END_TAG' else {}
        if sc['lvl'] - (tok == 'END_TAG') == 0:
            st = g('status') if quiet(evs) else 'go'
            lv = str(sc['lvl'] - (tok == 'END_TAG'))
            if st == 'fin': return tail(g, evs, lvl=lv, **x)
            if st == 'susp': return tail(g, evs, proc='epilogProcessor', lvl=lv, **x)
            r = g('choice:epilogProcessor')
            return evs + [('epilogProcessor', (None, 'e..b', None), None)], dict(ret='NONE' if r == 'ok' else 'DUPLICATE_ATTRIBUTE', lvl=lv)
        return tail(g, evs, proc='same', lvl=str(sc['lvl'] - (tok == 'END_TAG')), **x)

    def entity(g, name, found):
        if not g('hasParamEntityRefs') or g('standalone'):
            # WFC: Entity Declared
            if not found: return err('UNDEFINED_ENTITY')
            if not g('is_internal'): return err('ENTITY_DECLARED_IN_PE')
        elif not found:
            if g('m_skippedEntityHandler'): return tail(g, [('m_skippedEntityHandler', (name, '0'), ('s', 'e'))])
            return tail(g, dflt(g, sc))
        if g('open'): return err('RECURSIVE_ENTITY_REF')
        if g('notation'): return err('BINARY_ENTITY_REF')
        E = 'found.generalEntities'
        if g('textPtr'):
            if not g('m_defaultExpandInternalEntities'):
                if g('m_skippedEntityHandler'): return tail(g, [('m_skippedEntityHandler', (E + '.name', '0'), ('s', 'e'))])
                return tail(g, dflt(g, sc))
            evs = [('processInternalEntity', (None, E, '0'), None)]
            if g('choice:processInternalEntity') == 'err': return evs, dict(ret='DUPLICATE_ATTRIBUTE')
            return tail(g, evs)
        if g('m_externalEntityRefHandler'):
            evs = [('getContext', (None, 'open=1'), None),       # the context given to the handler includes the entity
                   ('m_externalEntityRefHandler', (None, E + '.base', E + '.systemId', E + '.publicId'), ('s', 'e'))]
            if not g('iret:m_externalEntityRefHandler'): return evs, dict(ret='EXTERNAL_ENTITY_HANDLING', ev='s')
            return tail(g, evs, fopen='0')
        return tail(g, dflt(g, sc))

    def spec(g):
        if tok == 'TRAILING_CR':
            if sc['more']: return [], dict(ret='NONE', next='s', ev='s')
            evs = [(CD, ('[10]*1',), ('s', 'b'))] if g(CD) else dflt(g, sc, 's', 'b', 'b')
            return same_level(evs)
        if tok == 'TRAILING_RSQB':
            if sc['more']: return [], dict(ret='NONE', next='s', ev='s')
            if g(CD): evs = pieces(g, CD, sc, 's', 'b', 'e', two=False)
            else: evs = dflt(g, sc, 's', 'b', 'b' if sc['conv'] else 'e', two=False)
            return same_level(evs, ev='b')
        if tok == 'NONE':
            if sc['more']: return [], dict(ret='NONE', next='s', ev='s')
            if sc['stl'] == 0: return err('NO_ELEMENTS')
            if sc['lvl'] != sc['stl']: return err('ASYNC_ENTITY')
            return [], dict(ret='NONE', next='s', ev='s')
        if tok == 'INVALID': return err('INVALID_TOKEN', ev='e')
        if tok == 'PARTIAL': return more(sc, 'UNCLOSED_TOKEN')
        if tok == 'PARTIAL_CHAR': return more(sc, 'PARTIAL_CHAR')
        if tok == 'XML_DECL': return err('MISPLACED_XML_PI')
        if tok == 'CHAR_REF':
            r = g('choice:charRefNumber')
            if r == 'bad': return err('BAD_CHAR_REF')
            return tail(g, chars(g, {'a': '[65]*1', 'b': '[195,169]*2', 'c': '[226,130,172]*3', 'd': '[240,159,152,128]*4'}[r]))
        if tok == 'DATA_NEWLINE': return tail(g, chars(g, '[10]*1'))
        if tok == 'DATA_CHARS':
            return tail(g, pieces(g, CD, sc, 's', 'e') if g(CD) else dflt(g, sc))
        if tok == 'PI':
            if not g('m_processingInstructionHandler'): return tail(g, dflt(g, sc))
            return tail(g, pi(sc))
        if tok == 'COMMENT':
            if not g('m_commentHandler'): return tail(g, dflt(g, sc))
            return tail(g, comment(sc))
        if tok == 'CDATA_SECT_OPEN':
            if g('m_startCdataSectionHandler'): evs = [('m_startCdataSectionHandler', (), ('s', 'e'))]
            else: evs = dflt(g, sc)
            evs = evs + [('doCdataSection', (None, str(sc['internal']), 'e..b', None, str(sc['more'])), None)]
            r = g('choice:doCdataSection')
            if r == 'err': return evs, dict(ret='DUPLICATE_ATTRIBUTE')
            if r == 'more': return evs, dict(ret='NONE', proc='cdataSectionProcessor')
            st = g('status')
            if st == 'susp': return evs, dict(ret='NONE', next='c', ev='c', proc='same')
            if st == 'fin': return evs, dict(ret='ABORTED')
            return evs, dict(ret='again', buf='c..b', ev='c')
        if tok in ('START_TAG_NO_ATTS', 'START_TAG_WITH_ATTS'):
            m = sc['mbpc']
            evs = [('convert', ('s+%d..s+%d' % (m, m + NAMELEN),), None), ('storeAtts', (None, str(sc['internal']), 's..b'), None)]
            if g('choice:storeAtts') == 'err': return err('DUPLICATE_ATTRIBUTE', evs)
            if g('m_startElementHandler'): evs.append(('m_startElementHandler', (None, '~m_atts'), ('s', 'e')))
            else: evs += dflt(g, sc)
            return tail(g, evs, lvl=str(sc['lvl'] + 1), top='~:s+%d,%d,m_tagStack' % (m, NAMELEN))
        if tok in ('EMPTY_ELEMENT_NO_ATTS', 'EMPTY_ELEMENT_WITH_ATTS'):
            m = sc['mbpc']
            evs = [('storeAtts', (None, str(sc['internal']), 's..b', '~str_0=<s+%d..s+%d>' % (m, m + NAMELEN)), None)]
            ns = [('*m_endNamespaceDeclHandler', None, None)]
            if g('choice:storeAtts') == 'err': return err('DUPLICATE_ATTRIBUTE', evs + ns)
            st, en = g('m_startElementHandler'), g('m_endElementHandler')
            if st: evs.append(('m_startElementHandler', (None, '~m_atts'), ('s', 'e')))
            if en: evs.append(('m_endElementHandler', (), ('e' if st else 's', 'e')))
            if not st and not en: evs += dflt(g, sc)
            return ended(g, evs + ns)
        if tok == 'END_TAG':
            if sc['lvl'] == sc['stl']: return err('ASYNC_ENTITY')
            cmp = [('?memcmp', ('m_tagStack.rawName', 's+%d' % (2 * sc['mbpc']), '3') if sc['tlen'] == 3 else None, None)]
            if sc['tlen'] != 3 or g('choice:memcmp') == 'differ': return err('TAG_MISMATCH', cmp, ev='s+%d' % (2 * sc['mbpc']))
            if g('m_endElementHandler'): evs = [('m_endElementHandler', ('m_tagStack.name.str_0',), ('s', 'e'))]
            else: evs = dflt(g, sc)
            return ended(g, cmp + evs + [('*m_endNamespaceDeclHandler', None, None)])
        if tok == 'ENTITY_REF':
            if g('choice:predefinedEntityName') == 'yes': return tail(g, chars(g, '[60]*1'))
            found = g('choice:generalEntities') == 'some'
            name = '<s+%d..e-%d>' % (sc['mbpc'], sc['mbpc'])
            look = [('lookup', ('generalEntities', name), None)]
            r = entity(g, name, found)
            return look + list(r[0]), r[1]
        raise KeyError(tok)
    return spec


CONTENT = ['TRAILING_CR', 'TRAILING_RSQB', 'NONE', 'INVALID', 'PARTIAL', 'PARTIAL_CHAR', 'XML_DECL', 'CHAR_REF', 'DATA_NEWLINE', 'DATA_CHARS', 'PI',
           'COMMENT', 'CDATA_SECT_OPEN', 'START_TAG_NO_ATTS', 'START_TAG_WITH_ATTS', 'EMPTY_ELEMENT_NO_ATTS', 'EMPTY_ELEMENT_WITH_ATTS', 'END_TAG',
           'ENTITY_REF']


def cdata(tok, sc):
    def spec(g):
        if tok == 'CDATA_SECT_CLOSE':
            if g('m_endCdataSectionHandler'): evs = [('m_endCdataSectionHandler', (), ('s', 'e'))]
            else: evs = dflt(g, sc)
            return evs, dict(ret='ABORTED' if evs and g('status') == 'fin' else 'NONE', next='e', sb='e..b')
        if tok == 'DATA_NEWLINE':
            return tail(g, [(CD, ('[10]*1',), ('s', 'e'))] if g(CD) else dflt(g, sc), sb='-')
        if tok == 'DATA_CHARS':
            return tail(g, pieces(g, CD, sc, 's', 'e', endfix=('m', 'e')) if g(CD) else dflt(g, sc), sb='-')
        if tok == 'INVALID': return err('INVALID_TOKEN', ev='e')
        if tok == 'PARTIAL_CHAR': c = 'PARTIAL_CHAR'
        elif tok in ('PARTIAL', 'NONE'): c = 'UNCLOSED_CDATA_SECTION'
        else: raise KeyError(tok)
        evs, x = more(sc, c)
        return evs, dict(x, sb='-')
    return spec


CDATA = ['CDATA_SECT_CLOSE', 'DATA_NEWLINE', 'DATA_CHARS', 'INVALID', 'PARTIAL_CHAR', 'PARTIAL', 'NONE']


def ignore(tok, sc):
    def spec(g):
        if tok == 'IGNORE_SECT':
            evs = dflt(g, sc)
            return evs, dict(ret='ABORTED' if evs and g('status') == 'fin' else 'NONE', next='e', sb='e..b')
        if tok == 'INVALID': return err('INVALID_TOKEN', ev='e')
        if tok == 'PARTIAL_CHAR': c = 'PARTIAL_CHAR'
        elif tok in ('PARTIAL', 'NONE'): c = 'SYNTAX'
        else: raise KeyError(tok)
        evs, x = more(sc, c)
        return evs, dict(x, sb='-')
    return spec


IGNORE = ['IGNORE_SECT', 'INVALID', 'PARTIAL_CHAR', 'PARTIAL', 'NONE']


def epilog(tok, sc):
    def spec(g):
        if tok == 'PROLOG_S_NEG':
            evs = dflt(g, sc)
            if evs and g('status') == 'fin': return evs, dict(ret='ABORTED')
            return evs, dict(ret='NONE', next='e')
        if tok == 'NONE': return [], dict(ret='NONE', next='s', ev='s')
        if tok == 'PROLOG_S': return tail(g, dflt(g, sc), proc='epilogProcessor')
        if tok in ('PI', 'COMMENT'):
            h = 'm_processingInstructionHandler' if tok == 'PI' else 'm_commentHandler'
            if not g(h): return tail(g, dflt(g, sc), proc='epilogProcessor')
            return tail(g, (pi if tok == 'PI' else comment)(sc), proc='epilogProcessor')
        if tok == 'INVALID': return err('INVALID_TOKEN', ev='e')
        if tok == 'PARTIAL': return more(sc, 'UNCLOSED_TOKEN')
        if tok == 'PARTIAL_CHAR': return more(sc, 'PARTIAL_CHAR')
        return err('JUNK_AFTER_DOC_ELEMENT')
    return spec


EPILOG = ['PROLOG_S_NEG', 'NONE', 'PROLOG_S', 'PI', 'COMMENT', 'INVALID', 'PARTIAL', 'PARTIAL_CHAR', 'XML_DECL', 'DECL_OPEN', 'NAME', 'INSTANCE_START',
          'PERCENT', 'LITERAL', 'OR', 'OPEN_BRACKET', 'DECL_CLOSE']


def domain(name):
    d = {'status': ('go', 'susp', 'fin'), 'choice:charRefNumber': ('bad', 'a', 'b', 'c', 'd'), 'choice:pieces': ('one', 'two'),
         'choice:mem': ('ok', 'fail'), 'choice:getContext': ('ok', 'fail'), 'choice:doCdataSection': ('err', 'more', 'closed'),
         'choice:storeAtts': ('ok', 'err'), 'choice:processInternalEntity': ('ok', 'err'), 'choice:epilogProcessor': ('ok', 'err'),
         'choice:predefinedEntityName': ('no', 'yes'), 'choice:memcmp': ('same', 'differ'),
         'choice:generalEntities': ('none', 'some'), 'choice:paramEntities': ('none', 'some')}
    return d.get(name, (True, False))
