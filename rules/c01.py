"""Every exported entry point taking a parser handle, analysed with a null handle."""
from mir import *
from absint import *

RET = {
 'XML_ParserReset': 0, 'XML_SetEncoding': ('#', 0), 'XML_ExternalEntityParserCreate': 0,
 'XML_UseForeignDTD': ('#', 41), 'XML_SetBase': ('#', 0), 'XML_GetBase': 0,
 'XML_GetSpecifiedAttributeCount': 0xffffffff, 'XML_GetIdAttributeIndex': 0xffffffff,
 'XML_SetParamEntityParsing': 0, 'XML_SetHashSalt': 0, 'XML_Parse': ('#', 0), 'XML_ParseBuffer': ('#', 0),
 'XML_GetBuffer': 0, 'XML_StopParser': ('#', 0), 'XML_ResumeParser': ('#', 0), 'XML_GetErrorCode': 41,
 'XML_GetCurrentByteIndex': 0xffffffffffffffff, 'XML_GetCurrentByteCount': 0, 'XML_GetInputContext': 0,
 'XML_GetCurrentLineNumber': 0, 'XML_GetCurrentColumnNumber': 0, 'XML_MemMalloc': 0, 'XML_MemRealloc': 0,
 'XML_GetAttributeInfo': 0,
}
# handle-free entry points
NOHANDLE = {'XML_ParserCreate', 'XML_ParserCreateNS', 'XML_ParserCreate_MM', 'XML_ErrorString', 'XML_ExpatVersion',
            'XML_ExpatVersionInfo', 'XML_GetFeatureList', 'XmlPrologStateInit', 'XmlPrologStateInitExternalEntity'}
ASSUMPTIONS = ['the only handle values considered here are null ones; other arguments are arbitrary']


class H(Hooks):
    def __init__(s): s.bad = []
    def on_deref(s, ai, st, fn, V, line):
        if V is not None and 0 in V: s.bad.append((fn.short, line, 'null dereference'))
    def on_panic(s, ai, st, fn, t, why):
        if why in ('diverge', 'assert'): s.bad.append((fn.short, t[1], 'panic'))
    def on_write(s, ai, st, fn, base, path, V, line):
        if base[0] != 'L' and base[0] != 'T': s.bad.append((fn.short, line, 'write outside the call frame'))
    def on_indirect(s, ai, st, fn, V, term, fid):
        s.bad.append((fn.short, term[1], 'indirect call'))
        return [(st, None)]


def handle_arg(p, f):
    for i in range(1, f.argc + 1):
        if 'XML_ParserStruct' in p.tname(f.locals[i]) and p.tk(f.locals[i])[0] in ('ptr', 'ref', 'adt'):
            return i
    return None


def check(ctx):
    ctx.rule('For each exported function with a parser-handle parameter, constant propagation with the handle bound to null '
             'enumerates every reachable path: none dereferences null, panics, calls through a pointer or writes outside its frame, '
             'and every return carries the documented neutral value.')
    confs = [()] if not ctx.thorough else [(), ('unicode',), ('mozilla',)]
    for feats in confs:
        p = ctx.prog('lib', feats)
        n = 0
        for f in p.exported():
            if f.short in NOHANDLE or f.short.startswith('MOZ_'): continue
            i = handle_arg(p, f)
            if i is None:
                continue
            n += 1
            ctx.seen(f)
            t = f.locals[i]
            opt = p.tk(t)[0] == 'adt'
            h = H(); ai = AI(p, h, budget=400000)

            def setup(ai, st, fn):
                if opt:
                    st.write(('L', 0, i), (), None)
                    st.write(('L', 0, i), ('#',), frozenset((0,)))
                else:
                    st.write(('L', 0, i), (), frozenset((0,)))
            key = 'null:' + f.short + (''.join(':' + x for x in feats))
            if p.tk(t)[0] == 'ref':
                ctx.ob(False, key, f.where(), 'the handle parameter is a reference: a null handle is undefined behaviour')
                continue
            try:
                r = ai.run(f, setup)
            except Budget as e:
                ctx.ob(False, key, f.where(), 'not decided: a null handle is not rejected before deep processing (%s)' % e)
                continue
            ctx.ob(not h.bad, key, f.where(), 'with a null handle: %s' % sorted(set(h.bad), key=str)[:4])
            vals = set()
            for st, _ in r:
                V = st.read(('L', 0, 0), ())
                D = st.read(('L', 0, 0), ('#',))
                vals.add(('#', tuple(sorted(D, key=str))) if D is not None else ('v', None if V is None else tuple(sorted(V, key=str))))
            want = RET.get(f.short)
            rt = p.tk(f.locals[0])
            if want is None:
                if rt[0] == 'tuple' and not rt[1]:
                    ctx.ob(bool(r), key + ':returns', f.where(), 'does not return')
                else:
                    # an entry point added later: any constant result is accepted
                    ctx.ob(len(vals) == 1, key + ':returns', f.where(), 'no single neutral result: %s' % vals)
            else:
                w = ('#', (want[1],)) if isinstance(want, tuple) else ('v', (want,))
                got = {(a, tuple(x & 0xffffffffffffffff if isinstance(x, int) else x for x in b) if b else b) for a, b in vals}
                ctx.ob(got == {w}, key + ':returns', f.where(), 'with a null handle returns %s, documented %s' % (sorted(got, key=str), w))
        ctx.floor('entry points with a handle' + ''.join(feats), n, 55)
