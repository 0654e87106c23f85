"""Binary interface: exported functions, signatures, layouts, code values, texts."""
import json, os
from summ import *

ASSUMPTIONS = ['x86-64 System V: integers of the same size and signedness class are passed alike; a Rust bool is compatible with XML_Bool (one byte, values 0 and 1)']
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'abi.json')
ERRORS = '''NONE NO_MEMORY SYNTAX NO_ELEMENTS INVALID_TOKEN UNCLOSED_TOKEN PARTIAL_CHAR TAG_MISMATCH DUPLICATE_ATTRIBUTE JUNK_AFTER_DOC_ELEMENT PARAM_ENTITY_REF
UNDEFINED_ENTITY RECURSIVE_ENTITY_REF ASYNC_ENTITY BAD_CHAR_REF BINARY_ENTITY_REF ATTRIBUTE_EXTERNAL_ENTITY_REF MISPLACED_XML_PI UNKNOWN_ENCODING INCORRECT_ENCODING
UNCLOSED_CDATA_SECTION EXTERNAL_ENTITY_HANDLING NOT_STANDALONE UNEXPECTED_STATE ENTITY_DECLARED_IN_PE FEATURE_REQUIRES_XML_DTD CANT_CHANGE_FEATURE_ONCE_PARSING UNBOUND_PREFIX
UNDECLARING_PREFIX INCOMPLETE_PE XML_DECL TEXT_DECL PUBLICID SUSPENDED NOT_SUSPENDED ABORTED FINISHED SUSPEND_PE RESERVED_PREFIX_XML RESERVED_PREFIX_XMLNS
RESERVED_NAMESPACE_URI INVALID_ARGUMENT'''.split()
ENUMS = {'XML_Error': ERRORS, 'XML_Status': ['ERROR', 'OK', 'SUSPENDED'], 'XML_Parsing': ['INITIALIZED', 'PARSING', 'FINISHED', 'SUSPENDED'],
         'XML_ParamEntityParsing': ['NEVER', 'UNLESS_STANDALONE', 'ALWAYS'], 'XML_Content_Quant': ['NONE', 'OPT', 'REP', 'PLUS'],
         'XML_Content_Type': [None, 'EMPTY', 'ANY', 'MIXED', 'NAME', 'CHOICE', 'SEQ'],
         'XML_FeatureEnum': ['END', 'UNICODE', 'UNICODE_WCHAR_T', 'DTD', 'CONTEXT_BYTES', 'MIN_SIZE', 'SIZEOF_XML_CHAR', 'SIZEOF_XML_LCHAR', 'NS', 'LARGE_SIZE', 'ATTR_INFO']}
LAYOUT = {'XML_cp': (32, [(0, 'e'), (4, 'e'), (8, 'p'), (16, 'u4'), (24, 'p')]),
          'XML_Memory_Handling_Suite': (24, [(0, 'f(U8)p'), (8, 'f(p,U8)p'), (16, 'f(p)v')]),
          'XML_Encoding': (1048, [(0, 'a256i4'), (1024, 'p'), (1032, 'f(p,p)i4'), (1040, 'f(p)v')]),
          'XML_ParsingStatus': (8, [(0, 'e'), (4, 'u1')]),
          'XML_Expat_Version': (12, [(0, 'i4'), (4, 'i4'), (8, 'i4')]),
          'XML_Feature': (24, [(0, 'e'), (8, 'p'), (16, 'I8')])}
ORDER = {'XML_Expat_Version': ['major', 'minor', 'micro'], 'XML_ParsingStatus': ['parsing', 'finalBuffer'], 'XML_Feature': ['feature', 'name', 'value'],
         'XML_cp': ['type_0', 'quant', 'name', 'numchildren', 'children'], 'XML_Memory_Handling_Suite': ['malloc_fcn', 'realloc_fcn', 'free_fcn'],
         'XML_Encoding': ['map', 'data', 'convert', 'release']}
BIG = ('sym', ('big',))     # any code beyond the last documented one
TEXT = [None, 'out of memory', 'syntax error', 'no element found', 'not well-formed (invalid token)', 'unclosed token', 'partial character', 'mismatched tag', 'duplicate attribute',
        'junk after document element', 'illegal parameter entity reference', 'undefined entity', 'recursive entity reference', 'asynchronous entity', 'reference to invalid character number',
        'reference to binary entity', 'reference to external entity in attribute', 'XML or text declaration not at start of entity', 'unknown encoding',
        'encoding specified in XML declaration is incorrect', 'unclosed CDATA section', 'error in processing external entity reference', 'document is not standalone',
        'unexpected parser state - please send a bug report', 'entity declared in parameter entity', 'requested feature requires XML_DTD support in Expat',
        'cannot change setting once parsing has begun', 'unbound prefix', 'must not undeclare prefix', 'incomplete markup in parameter entity', 'XML declaration not well-formed',
        'text declaration not well-formed', 'illegal character(s) in public id', 'parser suspended', 'parser not suspended', 'parsing aborted', 'parsing finished',
        'cannot suspend in external parameter entity', 'reserved prefix (xml) must not be undeclared or bound to another namespace name',
        'reserved prefix (xmlns) must not be declared or undeclared', 'prefix must not be bound to one of the reserved namespace names', 'invalid argument']


def cls(p, t, char):
    k = p.tk(t)
    if k[0] == 'tuple' and not k[1]: return 'v'
    if k[0] in ('ptr', 'ref'):
        return 'p' if p.tk(k[1])[0] not in ('slice', 'str', 'dyn') else 'fat'
    if k[0] == 'fnptr':
        return ('f(%s)%s' % (','.join(cls(p, a, char) for a in k[2]), cls(p, k[3], char))) if str(k[1]).startswith('C') and not k[4] else 'f!abi'
    if k[0] == 'int':
        n = p.tsize(t)
        if k[1] == 'bool': return 'u1'
        return ('i' if p.is_signed(t) else 'u') + str(n) if n < 8 else ('I8' if p.is_signed(t) else 'U8')
    if k[0] == 'bool': return 'u1'
    if k[0] == 'array': return 'a%s%s' % (k[2], cls(p, k[1], char))
    if k[0] == 'adt':
        if k[1].endswith('option::Option'): 
            i = k[4][1][2][0][1]
            return cls(p, i, char) if p.tsize(t) in (8, None) and p.tk(i)[0] in ('fnptr', 'ref') else 'option'
        if k[2] == 'enum': return 'e' if p.tsize(t) == 4 else 'e%s' % p.tsize(t)
        if k[1].endswith('boxed::Box'): return 'p'
        return 's' if 'is_c: true' in str(k[6]) else 's!rust'
    return k[0]


def same(a, b):
    """a: ours, b: the C interface"""
    if a == b: return True
    if b == 'e': return a in ('u4', 'i4', 'e')
    if a == 'e' and b == 'u4': return True
    if a.startswith('f(') and b.startswith('f('):
        x, y = a[2:].rsplit(')', 1), b[2:].rsplit(')', 1)
        xa, ya = x[0].split(','), y[0].split(',')
        return len(xa) == len(ya) and all(same(i, j) for i, j in zip(xa, ya)) and same(x[1], y[1])
    return False


def text_at(p, V, width):
    if V is None or len(V) != 1: return '?'
    a = next(iter(V))
    if a == 0: return None
    if not isinstance(a, tuple) or a[0] != 'a': return '?'
    bs = p.alloc_bytes(a[1])
    if bs is None: return '?'
    off = a[2]
    out = ''
    while True:
        if off + width > len(bs): return '?unterminated'
        c = int.from_bytes(bs[off:off + width], 'little'); off += width
        if c == 0: return out
        out += chr(c)


def check(ctx):
    ctx.rule('Every function of the C header (expat 2.2.9) is exported unmangled with the C calling convention and parameter/result classes of the header; public structs are C-laid-out with '
             'the header\'s offsets; public enums have the header\'s values. The error text of every 32-bit code, the version and the feature list are evaluated by '
             'abstract interpretation of the functions and compared with the documented ones.')
    for feats in ([(), ('unicode',)] if ctx.thorough else [()]):
        conf(ctx, ctx.prog('lib', feats), ''.join(':' + f for f in feats), 2 if feats else 1)


def conf(ctx, p, sfx, cw):
    spec = json.load(open(SPEC))
    exp = {}
    for f in p.exported(): exp.setdefault(f.short, []).append(f)
    char = 'i1' if cw == 1 else 'u2'
    n = 0
    for name, (args, ret) in sorted(spec.items()):
        fs = exp.get(name, [])
        if not ctx.ob(len(fs) == 1, 'export:%s%s' % (name, sfx), name, 'not exported under its C name'): continue
        f = fs[0]; ctx.seen(f); n += 1
        ctx.ob(str(f.sig[0]).startswith('C') and not f.sig[3], 'abi:%s%s' % (name, sfx), f.where(), 'calling convention %s' % f.sig[0])
        got = [cls(p, t, char) for t in f.sig[1]]
        if ctx.ob(len(got) == len(args), 'arity:%s%s' % (name, sfx), f.where(), '%d parameters, the header has %d' % (len(got), len(args))):
            for i, (g, w) in enumerate(zip(got, args)):
                w = char if w == 'c' else w
                ctx.ob(same(g, w), 'sig:%s:arg%d%s' % (name, i + 1, sfx), f.where(), 'parameter %d has class %s, in the header %s' % (i + 1, g, w))
        ctx.ob(same(cls(p, f.sig[2], char), ret), 'sig:%s:ret%s' % (name, sfx), f.where(), 'result class %s, in the header %s' % (cls(p, f.sig[2], char), ret))
    ctx.floor('exported functions' + sfx, n, 30)
    for e, names in ENUMS.items():
        ts = p.find_adts(e)
        if not ctx.ob(bool(ts), 'enum:%s%s' % (e, sfx), e, 'not found'): continue
        d = p.enum_discr(ts[0])
        want = {x: i for i, x in enumerate(names) if x}
        for x, v in want.items():
            if x in d or e != 'XML_FeatureEnum':
                ctx.ob(d.get(x) == v, 'value:%s:%s%s' % (e, x, sfx), e, 'has value %s, in the header %d' % (d.get(x), v))
        ctx.ob(not set(d) - set(want), 'values:%s%s' % (e, sfx), e, 'extra values %s' % sorted(set(d) - set(want)))
        ctx.ob(p.tsize(ts[0]) == 4, 'size:%s%s' % (e, sfx), e, 'is %s bytes wide' % p.tsize(ts[0]))
    for s, (size, want) in LAYOUT.items():
        ts = p.find_adts(s)
        if not ctx.ob(bool(ts), 'struct:%s%s' % (s, sfx), s, 'not found'): continue
        t = ts[0]; k = p.tk(t)
        ctx.ob(p.tsize(t) == size, 'size:%s%s' % (s, sfx), s, 'is %s bytes, in the header %d' % (p.tsize(t), size))
        offs = k[5]
        if offs is None or len(offs) != len(k[4][0][2]):
            ctx.ob(False, 'layout:%s%s' % (s, sfx), s, 'undecided: no layout'); continue
        got = sorted(zip(offs, [(cls(p, f[1], char), f[0]) for f in k[4][0][2]]))
        ctx.ob(len(got) == len(want) and all(g[0] == w[0] and same(g[1][0], w[1]) for g, w in zip(got, want)), 'layout:%s%s' % (s, sfx), s,
               'fields %s, in the header %s' % ([(g[0], g[1][0]) for g in got], want))
        nm = [g[1][1] for g in got]
        if set(nm) == set(ORDER[s]): ctx.ob(nm == ORDER[s], 'order:%s%s' % (s, sfx), s, 'field order %s' % nm)

    class H(SummHooks):
        def on_bin(s, ai, op, a, b, w, sg):
            for x, y, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op))):
                if x == BIG and isinstance(y, int) and y < len(TEXT):
                    return {'Lt': 0, 'Le': 0, 'Gt': 1, 'Ge': 1, 'Eq': 0, 'Ne': 1}.get(o)
            return None

    def ev(name, args):
        fn = p.one(name)
        ctx.seen(fn)
        def setup(ai, st, fn):
            for i, a in enumerate(args): st.write(('L', 0, i + 1), (), frozenset((a,)))
        paths, ai = summarise(p, fn, H([]), setup)
        return fn, paths
    lw = 1
    t = p.find_adt('XML_Error')
    for c, want in list(enumerate(TEXT)) + [(42, None), (43, None), (255, None), (65536, None), (0xffffffff, None), (BIG, None)]:
        fn, paths = ev('XML_ErrorString', (c,))
        got = {text_at(p, x.ret(), lw) for x in paths}
        ctx.ob(got == {want}, 'text:%s%s' % (c if c != BIG else 'other', sfx), fn.where(), 'error %s is described as %s, documented %r' % (c if c != BIG else '42 and above', sorted(map(repr, got)), want))
    fn, paths = ev('XML_ExpatVersion', ())
    got = {text_at(p, x.ret(), lw) for x in paths}
    ctx.ob(got == {'expat_2.2.9'}, 'version' + sfx, fn.where(), 'version string %s' % sorted(map(repr, got)))
    fn, paths = ev('XML_ExpatVersionInfo', ())
    got = {tuple(one_int(x.ret(f)) for f in ('major', 'minor', 'micro')) for x in paths}
    ctx.ob(got == {(2, 2, 9)}, 'versioninfo' + sfx, fn.where(), 'version numbers %s' % sorted(got, key=str))
    fn, paths = ev('XML_GetFeatureList', ())
    V = {x.ret() for x in paths}
    rows = []
    ok = False
    if len(V) == 1:
        a = next(iter(next(iter(V)) or [None]))
        if isinstance(a, tuple) and a[0] == 'a':
            al = p.allocs[a[1]]; bs = p.alloc_bytes(a[1])
            rel = dict(al[2]) if al[0] == 'mem' else {}
            o = a[2]
            while bs is not None and o + 24 <= len(bs):
                f = int.from_bytes(bs[o:o + 4], 'little'); v = int.from_bytes(bs[o + 16:o + 24], 'little')
                nm = text_at(p, frozenset((('a', rel[o + 8], 0),)), lw) if o + 8 in rel else None
                rows.append((f, nm, v))
                if f == 0: ok = True; break
                o += 24
    want = {(6, 'sizeof(XML_Char)', cw), (7, 'sizeof(XML_LChar)', lw), (3, 'XML_DTD', 0), (4, 'XML_CONTEXT_BYTES', 1024), (8, 'XML_NS', 0)}
    if cw == 2: want.add((1, 'XML_UNICODE', 0))
    ctx.ob(ok and set(rows[:-1]) == want and len(rows) == len(want) + 1 and rows[-1] == (0, None, 0), 'features' + sfx, fn.where(), 'feature list %s' % rows)
