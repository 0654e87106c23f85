"""What the processing functions do before, between and after the token loops.

Positions: s start of the data, e end of the first token, b end of the data; tokend2 end of the second token."""

ERR = 'DUPLICATE_ATTRIBUTE'      # the arbitrary error a callee reports in the analysis
CONTENT, PROLOG = '1', '0'       # scanner states


def call(g, evs, name, *args, proc=None, lvl=None, **x):
    """the step ends with what the called function reports"""
    e = [(name, args + (None,) * (name != 'doProlog') + (('proc=' + proc) if proc else None, ('lvl=' + lvl) if lvl else None), None)]
    r = g('choice:' + name)
    return evs + e, dict(ret=ERR if r == 'err' else 'NONE', **x)


def err(code, evs=(), **x): return list(evs), dict(ret=code, **x)


def wait(at='s', evs=(), **x): return list(evs), dict(ret='NONE', next=at, **x)


def content_processor(level):
    def make(sc):
        def spec(g):
            evs = [('doContent', (None, level, '0', 's..b', None, str(1 - sc['fin'])), None)]
            if g('choice:doContent') == 'err': return err(ERR, evs)
            evs.append(('storeRawNames', (), None))
            if g('choice:storeRawNames') == 'fail': return err('NO_MEMORY', evs)
            return evs, dict(ret='NONE')
        return spec
    return make


def with_encoding(then, **kw):
    """the encoding is set up first"""
    def make(sc):
        def spec(g):
            evs = [('initializeEncoding', (), None)]
            if g('choice:initializeEncoding') == 'err': return err(ERR, evs)
            return call(g, evs, then, None, 's..b', proc=then)
        return spec
    return make


def ext_init2(sc):
    """start of an external general entity: a byte order mark is skipped, an incomplete start waits for more"""
    def spec(g):
        t = g('choice:xmlTok')
        evs = [('xmlTok', ('~m_encoding', CONTENT, 's..b'), None)]
        if t == 'BOM':
            if sc['atend'] and not sc['fin']: return wait('e', evs, proc='same')
            return call(g, evs, 'externalEntityInitProcessor3', None, 'e..b', proc='externalEntityInitProcessor3')
        if t in ('PARTIAL', 'PARTIAL_CHAR'):
            if not sc['fin']: return wait('s', evs, proc='same')
            return err('UNCLOSED_TOKEN' if t == 'PARTIAL' else 'PARTIAL_CHAR', evs, ev='s')
        return call(g, evs, 'externalEntityInitProcessor3', None, 's..b', proc='externalEntityInitProcessor3')
    return spec


def ext_init3(sc):
    """text declaration of an external general entity, then its content, one level down"""
    def spec(g):
        t = g('choice:xmlTok')
        evs = [('xmlTok', ('~m_encoding', CONTENT, 's..b'), None)]
        at = 's'
        if t == 'XML_DECL':
            evs.append(('processXmlDecl', (None, '1', 's..e'), ('s', 'e')))
            if g('choice:processXmlDecl') == 'err': return err(ERR, evs)
            st = g('status')
            if st == 'susp': return wait('e', evs)
            if st == 'fin': return err('ABORTED', evs)
            at = 'e'
        elif t in ('PARTIAL', 'PARTIAL_CHAR'):
            if not sc['fin']: return wait('s', evs, proc='same')
            return err('UNCLOSED_TOKEN' if t == 'PARTIAL' else 'PARTIAL_CHAR', evs, ev='s')
        return call(g, evs, 'externalEntityContentProcessor', None, at + '..b', proc='externalEntityContentProcessor', lvl='1')
    return spec


def section(do, after):
    def make(sc):
        def spec(g):
            evs = [(do, (None, '0', 's..b', None, str(1 - sc['fin'])), None)]
            r = g('choice:' + do)
            if r == 'err': return err(ERR, evs)
            if r == 'more': return evs, dict(ret='NONE')
            n = after(g)
            return call(g, evs, n, None, 'c..b', proc=n)
        return spec
    return make


def pe_init(sc):
    """start of an external parameter entity (or the external subset)"""
    def spec(g):
        evs = [('initializeEncoding', (), None)]
        if g('choice:initializeEncoding') == 'err': return err(ERR, evs)
        n = 'entityValueInitProcessor' if sc['inval'] else 'externalParEntProcessor'
        return call(g, evs, n, None, 's..b', proc=n, read='1')
    return spec


def low(t, sc, evs, cont):
    """end of the data or of what can be scanned"""
    if t == 'INVALID': return err('INVALID_TOKEN', evs)
    if not sc['fin']: return wait('s', evs, proc='same')
    if t == 'PARTIAL': return err('UNCLOSED_TOKEN', evs)
    if t == 'PARTIAL_CHAR': return err('PARTIAL_CHAR', evs)
    return cont()


LOW = ('INVALID', 'PARTIAL', 'PARTIAL_CHAR', 'NONE')


def pe(sc):
    """an external parameter entity: a byte order mark is skipped, then declarations"""
    def spec(g):
        t = g('choice:xmlTok')
        evs = [('xmlTok', ('~m_encoding', PROLOG, 's..b'), None)]
        def go(at, t, nxt):
            e = evs + ([('xmlTok', ('~m_encoding', PROLOG, 'e..b'), None)] if at == 'e' else [])
            return call(g, e, 'doProlog', None, '0', at + '..b', t, nxt, None, str(1 - sc['fin']), '1', None, proc='prologProcessor')
        if t in LOW: return low(t, sc, evs, lambda: go('s', sc['tokn'][t], 'e'))
        if t == 'BOM': return go('e', sc['tokn']['COMMENT'], 'tokend2')
        return go('s', sc['tokn'][t], 'e')
    return spec


def value(init):
    """an external entity inside an entity value: tokens are passed over until the end, then the text is stored"""
    def make(sc):
        def spec(g):
            t = g('choice:xmlTok')
            evs = [('xmlTok', ('~m_encoding', PROLOG, 's..b'), None)]
            if t in LOW:
                def store():
                    r = g('choice:storeEntityValue')
                    return evs + [('storeEntityValue', (None, '0', 's..b'), None)], dict(ret=ERR if r == 'err' else 'NONE')
                return low(t, sc, evs, store)
            if init and t == 'XML_DECL':
                evs.append(('processXmlDecl', (None, '0', 's..e'), ('s', 'e')))
                if g('choice:processXmlDecl') == 'err': return err(ERR, evs)
                if g('status') == 'fin': return err('ABORTED', evs)
                return call(g, evs, 'entityValueProcessor', None, 'e..b', proc='entityValueProcessor')
            if init and t == 'BOM' and sc['atend'] and not sc['fin']: return wait('e', evs, proc='same')
            if init and t == 'INSTANCE_START': return err('SYNTAX', evs)
            return evs, dict(ret='again', buf='e..b', **(dict(ev='e') if init else {}))
        return spec
    return make


def prolog(sc):
    '''the internal subset and what precedes it'''
    def spec(g):
        t = g('choice:xmlTok')
        evs = [('xmlTok', ('~m_encoding', PROLOG, 's..b'), None)]
        return call(g, evs, 'doProlog', None, '0', 's..b', sc['tokn'][t], 'e', None, str(1 - sc['fin']), '1', None)
    return spec


def open_entity(sc):
    """reference to an internal entity: its text is processed; when that is suspended the entity stays open"""
    def spec(g):
        if g('m_freeInternalEntities'): rec = 'm_freeInternalEntities'
        elif g('choice:mem') == 'fail': return err('NO_MEMORY')
        else: rec = 'box'
        st = '{entity.open=1,entity.processed=0,top.betweenDecl=%s,top.entity=entity,top.internalEventEndPtr=0,top.internalEventPtr=0,top.next=m_openInternalEntities,top.startTagLevel=m_tagLevel}' % sc['between']
        if sc['param']:
            t = g('choice:xmlTok')
            evs = [('xmlTok', ('~m_internalEncoding', PROLOG, 's..b'), None), ('doProlog', (None, '1', 's..b', sc['tokn'][t], 'e', None, '0', '0', st), None)]
            r = g('choice:doProlog')
        else:
            evs = [('doContent', (None, 'm_tagLevel', '1', 's..b', None, '0', st), None)]
            r = g('choice:doContent')
        if r == 'err': return err(ERR, evs)
        susp = g('status') == 'susp'
        if r != 'all' and susp: return evs, dict(ret='NONE', open='1', processed='b-s' if r == 'all+' else 'e-s', proc='internalEntityProcessor', stack=rec if r == 'part' else None)
        return evs, dict(ret='NONE', open='0', stack='m_openInternalEntities', proc='same')
    return spec


def resume_entity(sc):
    """an internal entity that was left open: the rest of its text, then what contains the reference to it"""
    def spec(g):
        if not sc['top']: return err('UNEXPECTED_STATE')
        if sc['param']:
            t = g('choice:xmlTok')
            evs = [('xmlTok', ('~m_internalEncoding', PROLOG, 's..b'), None), ('doProlog', (None, '1', 's..b', sc['tokn'][t], 'e', None, '0', '1'), None)]
            r = g('choice:doProlog')
        else:
            evs = [('doContent', (None, 'oie.startTagLevel', '1', 's..b', None, '0'), None)]
            r = g('choice:doContent')
        if r == 'err': return err(ERR, evs)
        susp = g('status') == 'susp'
        if r != 'all' and susp: return evs, dict(ret='NONE', open='1', processed='e-t' if r != 'all+' else 'b-t')
        outer = g('next')
        if outer: n = 'internalEntityProcessor'
        elif sc['param']: n = 'prologProcessor'
        else: n = 'externalEntityContentProcessor' if g('is_child_parser') else 'contentProcessor'
        if susp: return evs, dict(ret='NONE', next='m', open='0', proc=n)
        return call(g, evs, n, None, 'm..c', proc=n, open=None)
    return spec
