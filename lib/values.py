"""Contract runs of the scanners of attribute and entity values."""
from steps import *
import value_spec as VS
import content_spec

VCALLS = {'appendAttributeValue': ERR, 'storeEntityValue': ERR}
VQUIET = dict(QUIET, charRefNumber=QUIET['charRefNumber'] + [('sp', 32)])
LASTS = {'': (), ' ': (('c', 32),), 'A': (('c', 65),)}


class VEng(Eng):
    def value(s, kind, tok, sc):
        def setup(st):
            b = ('L', 0, 4 if kind == 'attval' else 3)
            st.write(('L', 0, 2), (), None); st._d(('L', 0, 2))[('#',)] = frozenset((sc['enci'],))
            st.write(b, (), None); st._d(b)[('0',)] = frozenset((('sl', START, LEN),))
            if kind == 'attval':
                st.write(('L', 0, 3), (), frozenset((sc['cdata'],)))
                st.write(('L', 0, 5), (), frozenset((('&', PB, ('m_tempPool',)) if sc['pool'] != 'pool' else ('&', DB, ('value', 'pool')),)))
                st._d(('X', 'pool'))[('cur', sc['pool'])] = frozenset((LASTS[sc['last']],))
        return s.run('appendAttributeValue' if kind == 'attval' else 'storeEntityValue', tok, sc, setup, calls={k: v for k, v in VCALLS.items()}, quiet=VQUIET, loops=('xmlLiteralTok',), own=True)


def vgrid(kind):
    if kind == 'attval':
        return [(t, dict(cdata=c, enci=i, pool=pl, last=l, mbpc=m)) for t in VS.ATTVAL for c in (0, 1) for i in (0, 1) for pl in ('m_tempPool', 'pool') for l in LASTS for m in ((1, 2) if not i else (1,))
                if t in ('CHAR_REF', 'TRAILING_CR', 'ATTRIBUTE_VALUE_S', 'DATA_NEWLINE') or l == 'A']
    return [(t, dict(enci=i, pool='entityValuePool', mbpc=m)) for t in VS.ENTVAL for i in (0, 1) for m in ((1, 2) if not i else (1,))]


def vdomain(n):
    if n == 'choice:charRefNumber': return ('bad', 'a', 'b', 'c', 'd', 'sp')
    if n in ('choice:appendAttributeValue', 'choice:storeEntityValue'): return ('ok', 'err')
    return content_spec.domain(n)


def vone(ctx, E, kind, tok, sc, aspect=ALL):
    outs = E.value(kind, tok, sc)
    key = '%s:%s:%s' % (kind, tok, ','.join('%s=%s' % x for x in sc.items()))
    check(ctx, key, outs, getattr(VS, kind)(tok, sc), vdomain, aspect=aspect, where=E.p.one('appendAttributeValue' if kind == 'attval' else 'storeEntityValue').where())
    return outs
