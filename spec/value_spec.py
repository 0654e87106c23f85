"""What becomes of each token of an attribute value and of an entity value.

Positions: s first byte of the token, e the byte after it, b end of the value.  pool: the text built so far."""

ERR = 'DUPLICATE_ATTRIBUTE'      # the arbitrary error a nested call reports in the analysis


def piece(y): return y if isinstance(y, str) else chr(y) if y > 32 else "'%d'" % y


BYTES = {'a': [65], 'b': [0xc3, 0xa9], 'c': [0xe2, 0x82, 0xac], 'd': [0xf0, 0x9f, 0x98, 0x80], 'sp': [32]}


def attval(tok, sc):
    m = sc['mbpc']
    cd, last = sc['cdata'], sc['last']
    trim = not cd and last in ('', ' ')      # no leading space, one space between

    def put(*x):
        return '<%s|' % ' '.join(piece(y) for y in ([ord(last)] if last else []) + list(x))

    def nxt(evs, *x, at='e'): return evs, dict(ret='again', buf='%s..b' % at, pool=put(*x), lit=('m_internalEncoding' if sc['enci'] else 'm_encoding') + ',0', ev='m_eventPtr')

    def err(code, evs=(), ev='s'): return list(evs), dict(ret=code, ev='m_eventPtr' if sc['enci'] or ev is None else ev)

    def spec(g):
        if tok == 'NONE': return [], dict(ret='NONE', pool=put(), ev='m_eventPtr')
        if tok == 'INVALID': return err('INVALID_TOKEN', ev='e')
        if tok == 'PARTIAL': return err('INVALID_TOKEN')
        if tok == 'PARTIAL_CHAR': return err('UNEXPECTED_STATE')
        if tok == 'CHAR_REF':
            r = g('choice:charRefNumber')
            if r == 'bad': return err('BAD_CHAR_REF')
            if r == 'sp' and trim: return nxt([])
            return nxt([], *BYTES[r])
        if tok == 'DATA_CHARS': return nxt([], 's..e')
        if tok in ('TRAILING_CR', 'ATTRIBUTE_VALUE_S', 'DATA_NEWLINE'):
            return nxt([], *([] if trim else [32]), at='s+%d' % m if tok == 'TRAILING_CR' else 'e')
        if tok == 'ENTITY_REF':
            if g('choice:predefinedEntityName') == 'yes': return nxt([], 60)
            evs = [('lookup', ('generalEntities', '<s+%d..e-%d>' % (m, m)), None)]
            found = g('choice:generalEntities') == 'some'
            if sc['pool'] == 'pool':
                must = g('documentEntity') and (not g('m_openInternalEntities') if g('standalone') else not g('hasParamEntityRefs'))
            else: must = not g('hasParamEntityRefs') or g('standalone')
            if must:
                if not found: return err('UNDEFINED_ENTITY', evs, ev=None)
                if not g('is_internal'): return err('ENTITY_DECLARED_IN_PE', evs, ev=None)
            elif not found: return nxt(evs)
            if g('open'): return err('RECURSIVE_ENTITY_REF', evs)
            if g('notation'): return err('BINARY_ENTITY_REF', evs)
            if not g('textPtr'): return err('ATTRIBUTE_EXTERNAL_ENTITY_REF', evs)
            E = 'found.generalEntities.'
            evs.append(('appendAttributeValue', (None, '1', str(cd), E + 'textPtr*' + E + 'textLen', '~pool' if sc['pool'] == 'pool' else '~m_tempPool', 'open=1'), None))
            if g('choice:appendAttributeValue') == 'err': return evs, dict(ret=ERR, fopen='0')
            r = nxt(evs)
            return r[0], dict(r[1], fopen='0', pool=None, ev=None)
        raise KeyError(tok)
    return spec


ATTVAL = ['NONE', 'INVALID', 'PARTIAL', 'PARTIAL_CHAR', 'CHAR_REF', 'DATA_CHARS', 'TRAILING_CR', 'ATTRIBUTE_VALUE_S', 'DATA_NEWLINE', 'ENTITY_REF']


def entval(tok, sc):
    m = sc['mbpc']

    def put(*x): return '<%s|' % ' '.join(piece(y) for y in x)

    # (while the value is scanned the parser is inside an entity value; the former state comes back at the end)
    def nxt(evs, *x, at='e', **k): return evs, dict(dict(ret='again', buf='%s..b' % at, pool=put(*x), inval='1', ev='m_eventPtr', lit=('m_internalEncoding' if sc['enci'] else 'm_encoding') + ',1'), **k)

    def end(evs, code='NONE', ev='m_eventPtr', **k): return list(evs), dict(ret=code, ev=('m_eventPtr' if sc['enci'] else ev) if ev else None, inval='m_prologState.inEntityValue', **k)

    def spec(g):
        if tok == 'NONE': return end([])
        if tok == 'INVALID': return end([], 'INVALID_TOKEN', 'e')
        if tok == 'PARTIAL': return end([], 'INVALID_TOKEN', 's')
        if tok == 'PARTIAL_CHAR': return end([], 'UNEXPECTED_STATE', 's')
        if tok in ('ENTITY_REF', 'DATA_CHARS'): return nxt([], 's..e')
        if tok in ('TRAILING_CR', 'DATA_NEWLINE'): return nxt([], 10, at='s+%d' % m if tok == 'TRAILING_CR' else 'e')
        if tok == 'CHAR_REF':
            r = g('choice:charRefNumber')
            if r == 'bad': return end([], 'BAD_CHAR_REF', 's')
            return nxt([], *BYTES[r])
        if tok == 'PARAM_ENTITY_REF':
            if not sc['enci'] and not g('m_isParamEntity'): return end([], 'PARAM_ENTITY_REF', 's')
            evs = [('lookup', ('paramEntities', '<s+%d..e-%d>' % (m, m)), None)]
            if g('choice:paramEntities') == 'none': return end(evs, keepProcessing='m_dtd.standalone')
            if g('open'): return end(evs, 'RECURSIVE_ENTITY_REF', 's')
            E = 'found.paramEntities.'
            if g('systemId'):
                if not g('m_externalEntityRefHandler'): return nxt(evs, keepProcessing='m_dtd.standalone')
                evs.append(('m_externalEntityRefHandler', ('0', E + 'base', E + 'systemId', E + 'publicId', 'open=1', 'read=0'), None))
                if not g('iret:m_externalEntityRefHandler'): return end(evs, 'EXTERNAL_ENTITY_HANDLING', None, fopen='0')
                r = nxt(evs, fopen='0')
                return r[0], dict(r[1], keepProcessing='keepProcessing' if g('after:paramEntityRead') else 'm_dtd.standalone', ev=None, inval=None, pool=None)
            evs.append(('storeEntityValue', (None, '1', E + 'textPtr*' + E + 'textLen', 'open=1'), None))
            if g('choice:storeEntityValue') == 'err': return end(evs, ERR, None, fopen='0')
            r = nxt(evs, fopen='0')
            return r[0], dict(r[1], ev=None, pool=None, inval=None)     # (the inner value leaves it as found)
        raise KeyError(tok)
    return spec


ENTVAL = ['NONE', 'INVALID', 'PARTIAL', 'PARTIAL_CHAR', 'ENTITY_REF', 'DATA_CHARS', 'TRAILING_CR', 'DATA_NEWLINE', 'CHAR_REF', 'PARAM_ENTITY_REF']
