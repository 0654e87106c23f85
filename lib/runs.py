"""The step runs of the token-driven functions: scenario grid, set-up and comparison with the specification."""
from steps import *
import content_spec as S

NOMEM = lambda o: o.x['ret'] == 'NO_MEMORY' and not any(v == 'fail' for v in o.c.choice.values())


def grid(kind, deep):
    """(token, scenario) pairs"""
    out = []
    if kind == 'content':
        for tok in S.CONTENT:
            for conv in (0, 1):
                for mbpc in ((1, 2) if conv else (1,)):
                    for internal in (0, 1):
                        for more in ((0,) if internal else (0, 1)):
                            for stl, lvl in (((0, 1), (0, 2), (0, 0), (1, 1), (1, 2)) if not internal else ((0, 1), (1, 1), (1, 2)) if not deep else ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2))):
                                if not deep and (mbpc == 2 and (internal or stl)): continue
                                if lvl == 0 and tok.startswith('EMPTY') and False: continue
                                for tlen in ((3, 2, 4) if deep or (lvl == 1 and not more) else (3,)) if tok == 'END_TAG' else (None,):
                                    sc = dict(conv=conv, internal=internal, more=more, stl=stl, lvl=lvl, mbpc=mbpc)
                                    if tlen: sc['tlen'] = tlen      # length of the name of the open element (that of the end tag is 3)
                                    out.append((tok, sc))
    else:
        for tok in dict(cdata=S.CDATA, ignore=S.IGNORE, epilog=S.EPILOG)[kind]:
            for conv in (0, 1):
                for mbpc in ((1, 2) if conv else (1,)):
                    for internal in ((0, 1) if kind != 'epilog' else (0,)):
                        for more in ((0,) if internal else (0, 1)):
                            out.append((tok, dict(conv=conv, internal=internal, more=more, mbpc=mbpc)))
    return out


def args_content(sc):
    def setup(st):
        st.write(('L', 0, 2), (), frozenset((sc['stl'],))); st.write(PB, ('m_tagLevel',), frozenset((sc['lvl'],)))
        st.write(('L', 0, 3), (), None); st._d(('L', 0, 3))[('#',)] = frozenset((sc['internal'],))
        st.write(('L', 0, 4), (), None); st._d(('L', 0, 4))[('0',)] = frozenset((('sl', START, LEN),))
        st.write(('L', 0, 6), (), frozenset((sc['more'],)))
    return setup


def args_section(sc):
    def setup(st):
        st.write(('L', 0, 2), (), None); st._d(('L', 0, 2))[('#',)] = frozenset((sc['internal'],))
        st.write(('L', 0, 3), (), frozenset((('&', ('X', 'sb'), ()),)))
        d = st._d(('X', 'sb')); d[('#',)] = frozenset((1,)); d[('v:Some', '0', '0')] = frozenset((('sl', START, LEN),))
        st.write(('L', 0, 5), (), frozenset((sc['more'],)))
    return setup


def args_epilog(sc):
    def setup(st):
        st.write(('L', 0, 2), (), None); st._d(('L', 0, 2))[('0',)] = frozenset((('sl', START, LEN),))
        st._d(PB)[('m_parsingStatus', 'finalBuffer')] = frozenset((1 - sc['more'],))
    return setup


KINDS = dict(content=('doContent', args_content, dict(nextarg=5)), cdata=('doCdataSection', args_section, dict(nextarg=4, sbarg=3)),
             ignore=('doIgnoreSection', args_section, dict(nextarg=4, sbarg=3)), epilog=('epilogProcessor', args_epilog, dict(nextarg=3)))
SPECS = dict(content=S.content, cdata=S.cdata, ignore=S.ignore, epilog=S.epilog)


def one(ctx, E, kind, tok, sc, aspect=ALL):
    fname, setup, kw = KINDS[kind]
    sc = dict(sc)
    if tok == 'TRAILING_RSQB': sc['pieces'] = ('one',)
    loops = dict(content=('xmlTok',), cdata=('xmlTok',), ignore=('xmlTok',), epilog=('xmlTok',))[kind]
    outs = E.run(fname, tok, sc, setup(sc), loops=loops, **kw)
    key = '%s:%s:%s' % (kind, tok, ','.join('%s%s' % (k, v) for k, v in sc.items() if k != 'pieces'))
    check(ctx, key, outs, SPECS[kind](tok, sc), S.domain, aspect=aspect, ignore=NOMEM, where=E.p.one(fname).where())
    return outs
