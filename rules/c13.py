"""Character decoding, classification and conversion of every encoding, exactly, over all characters."""
import re, os, sys
try:
    import numpy as np
except ImportError:
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)
from mir import *
from absint import *
import vec
from vec import VecAI, VecHooks, Cond
from tok_spec import ASCII_BT
import xml_names
from par import par

ASSUMPTIONS = ['the conversion callback of an unknown encoding returns the same value for the same bytes',
               'UTF-16 output from UTF-16 input is checked for complete characters and sufficient room only (there Expat copies the units)',
               'conversion loops carry nothing but their positions from one character to the next (inputs of one and of two characters are analysed)']
BAD = ('NONXML', 'MALFORM', 'TRAIL')
B = ('ip', 'B')


def table(rs, n=0x10000):
    t = np.zeros(n, bool)
    for a, b, st in rs: t[a:b + 1:st] = True
    return t
START = table(xml_names.START)
NAMEC = table(xml_names.CHAR) | START
# Expat's Latin-1 table and name bitmaps treat these three as letters (as in ISO 8859-1), XML 1.0 appendix B does not list them


def valid_cp(c):
    return ((c == 9) | (c == 10) | (c == 13) | ((c >= 0x20) & (c <= 0xd7ff)) | ((c >= 0xe000) & (c <= 0xfffd)) | ((c >= 0x10000) & (c <= 0x10ffff)))


class Enc:
    def __init__(s, name):
        m = re.search(r'(Utf8|Latin1|Ascii|Little2|Big2)EncodingImpl<(?:[\w:]*::)?(\w+)>', name)
        s.kind = m.group(1) if m else None
        s.ns = bool(m) and m.group(2).endswith('NS')
        s.id = '%s%s%s' % ('Internal' if m and 'Internal' in m.group(2) else '', s.kind, 'NS' if s.ns else '') if m else None
        s.internal = bool(m) and 'Internal' in m.group(2)
        s.unit = 2 if s.kind in ('Little2', 'Big2') else 1


def where_box(cond, box):
    """the condition restricted to a box (one boolean vector per axis): a point, or None"""
    pt = [None] * len(box)
    for i, b in enumerate(box):
        if not b.any(): return None
    used = set()
    for ax, arr in cond.f:
        a = arr
        for i in ax:
            sh = [1] * len(box); sh[i] = len(box[i])
            a = a & box[i].reshape(sh)
            used.add(i)
        if not a.any(): return None
        ix = np.unravel_index(int(np.argmax(a)), a.shape)
        for i in ax: pt[i] = int(ix[i])
    for i in range(len(box)):
        if pt[i] is None: pt[i] = int(np.argmax(box[i]))
    return pt


class Run:
    """one abstract run of a function over a set of inputs"""
    def __init__(s, p, fn, axes, setup, budget=400000):
        s.ai = VecAI(p, axes, VecHooks(), budget=budget)
        st = State(); st.q = Cond()
        s.ai.cur = st
        setup(s.ai, st)
        s.rets = []
        try:
            for r, _ in s.ai.exec(fn, st, 0): s.rets.append(r)
        except Budget as e:
            s.ai.viol('undecided', 'not decided: %s' % e)

    def scal(s, V, st, w=64, sg=False):
        if V is None or len(V) != 1: return None
        s.ai.cur = st
        return s.ai.val(next(iter(V)), w, sg)


def input_region(ai, st, name, n, esz=1):
    """region whose element i is axis i"""
    def get(ai, st, i):
        if not isinstance(i, int) or i < 0 or i >= n: return None
        ai.cur = st
        return frozenset((ai.mk(ai.axes[i], 8 * esz),))
    ai.region(name, esz, n, get)


def self_arg(st): st.write(('L', 0, 1), (), frozenset((('sym', ('arg', 1)),)))


def slice_arg(p, fn, ai, st, i, ptr, n, by_ref):
    """argument i: a one-field wrapper of a slice (by value or behind a reference)"""
    t = fn.locals[i]
    base = ('L', 0, i); path = ()
    if by_ref:
        o = ('S', ('sym', ('buf', i)))
        st.write(base, (), frozenset((('&', o, ()),)))
        base = o; t = p.pointee(t)
    k = p.tk(t)
    V = frozenset((('sl', ptr, n),))
    if k[0] == 'adt':
        st.write(base, (), None); st._d(base)[(k[4][0][2][0][0],)] = V
        return base, (k[4][0][2][0][0],)
    st.write(base, (), V)
    return base, ()


def disc_arr(run, st, V, names):
    """enum value -> array of discriminants"""
    return run.scal(V, st, 64, True)


def byte_names(axes, pt): return ' '.join('%02x' % int(np.asarray(axes[i]).reshape(-1)[x]) for i, x in enumerate(pt))


class Checker:
    def __init__(s, ctx, p):
        s.ctx = ctx; s.p = p
        bt = p.find_adt('ByteType')
        s.bt = {to_signed(int(v), 64): k for k, v in p.enum_discr(bt).items()}
        s.btv = {k: v for v, k in s.bt.items()}
        s.cr = {k: to_signed(int(v), 64) for k, v in p.enum_discr(p.find_adt('XML_Convert_Result')).items()}

    def fns(s, short):
        """{encoding: (representative function, enc)} of a primitive"""
        r = []
        for f in s.p.fns:
            if f.short == short and f.blocks is not None and f.local and 'XmlEncodingImpl>' in f.name:
                r.append((f, Enc(f.name)))
        return r

    def over(s, run, what, f):
        for k, m in run.ai.viols.items(): s.ctx.viol('%s:%s' % (what, k), f.where(), m)
        ok = bool(run.rets)
        s.ctx.ob(ok or bool(run.ai.viols), '%s:returns' % what, f.where(), 'no outcome found')
        return ok

    def compare(s, run, what, f, ret, good, axes, msg, w=64, sg=True):
        """at every return: ret(st) -> value array; good(value) -> array of bools over the axes"""
        nd = len(axes)
        total = None
        for st in run.rets:
            v = ret(st)
            if v is None:
                s.ctx.viol('%s:undecided' % what, f.where(), 'undecided: result not tracked'); return
            s.ctx.obligations += 1
            bad = ~good(v) & st.q.full(nd)
            if bad.any():
                bad = np.broadcast_to(bad, np.broadcast_shapes(bad.shape, tuple(1 for _ in axes)))
                pt = np.unravel_index(int(np.argmax(bad)), bad.shape)
                vv = np.broadcast_to(v, bad.shape)[pt] if v.size > 1 else v.reshape(-1)[0]
                s.ctx.viol(what, f.where(), 'for %s: %s' % (byte_names([np.asarray(a) for a in axes], pt), msg(int(vv)))); 
            else: s.ctx.discharged += 1

    # ---------- one-unit classes
    def one(s, short, f, e, axes, extra=None):
        def setup(ai, st):
            self_arg(st)
            input_region(ai, st, 'B', e.unit)
            st.write(('L', 0, 2), (), frozenset((B,)))
            if extra: extra(ai, st)
        return Run(s.p, f, axes, setup)

    def cp(s, e, A):
        """code unit value from the byte axes"""
        if e.unit == 1: return A[0]
        return (A[0] << 8 | A[1]) if e.kind == 'Big2' else (A[1] << 8 | A[0])

    def allbytes(s, e): return [np.arange(256)] * e.unit

    def sparse(s, e, axes):
        n = len(axes); r = []
        for i, v in enumerate(axes):
            sh = [1] * n; sh[i] = len(v); r.append(np.asarray(v, dtype=np.int64).reshape(sh))
        return r

    def classes(s):
        ctx = s.ctx; n = 0
        bts = s.fns('byte_type'); nm = {f.name.rsplit('::', 1)[0]: f for f, e in s.fns('is_name_char_minbpc')}; ns = {f.name.rsplit('::', 1)[0]: f for f, e in s.fns('is_nmstrt_char_minbpc')}
        for f, e in bts:
            if e.kind is None: continue
            n += 1; ctx.seen(f)
            ax = s.allbytes(e); A = s.sparse(e, ax); c = s.cp(e, A)
            what = 'class:%s' % e.id
            preds = {}
            for k, d in (('name', nm), ('start', ns)):
                g = d.get(f.name.rsplit('::', 1)[0])
                if g is None: ctx.viol('%s:anchor' % what, f.where(), 'undecided: no name test found'); continue
                r = s.one(k, g, e, ax)
                if not s.over(r, what + ':' + k, g): continue
                tot = np.zeros(tuple(256 for _ in ax), bool)
                for st in r.rets:
                    v = r.scal(st.read(('L', 0, 0), ()), st, 1)
                    if v is None: ctx.viol(what + ':undecided', g.where(), 'undecided: name test result not tracked'); continue
                    tot |= np.broadcast_to((v != 0) & st.q.full(len(ax)), tot.shape)
                preds[k] = tot
                ctx.seen(g)
            if len(preds) < 2: continue
            run = s.one('bt', f, e, ax)
            if not s.over(run, what, f): continue
            exp = s.expected(e, c, preds)
            s.compare(run, what, f, lambda st: run.scal(st.read(('L', 0, 0), ('#',)), st), lambda v: s.member(exp, v), ax,
                      lambda v: 'class %s, which is not the class of this character' % s.bt.get(v, v))
        ctx.floor('encodings classified', n, 13)

    def member(s, exp, v):
        r = np.zeros((1,) * v.ndim, bool)
        for name, m in exp.items():
            if name in s.btv: r = r | ((v == s.btv[name]) & m)
        return r

    def expected(s, e, c, preds):
        """{class name: array: acceptable for this character}"""
        sh = c.shape
        exp = {k: np.zeros(sh, bool) for k in s.btv}
        asc = c < 128
        for a in range(128):
            b = ASCII_BT[a]
            if b == 'COLON' and not e.ns: b = 'NMSTRT'
            if b == 'CR' and e.internal: b = 'S'      # entity text has its line ends normalised already; a carriage return in it is a character
            m = c == a
            if b == 'NONXML':
                for k in BAD: exp[k] |= m
            else: exp[b] |= m
        cc = np.minimum(c, 0xffff)
        st, nc = START[cc], NAMEC[cc]
        lat = np.isin(c, [0xaa, 0xb5, 0xba]) & True
        if e.kind in ('Utf8', 'Ascii'):
            hi = ~asc
            if e.kind == 'Utf8':
                exp['LEAD2'] |= (c >= 0xc0) & (c <= 0xdf)
                exp['LEAD3'] |= (c >= 0xe0) & (c <= 0xef)
                exp['LEAD4'] |= (c >= 0xf0) & (c <= 0xf4)
                for k in BAD: exp[k] |= hi & ((c < 0xc2) | (c > 0xf4))
            else:
                for k in BAD: exp[k] |= hi
            return exp
        hi = ~asc
        if e.unit == 2:
            exp['LEAD4'] |= (c >= 0xd800) & (c <= 0xdbff)
            for k in BAD: exp[k] |= ((c >= 0xdc00) & (c <= 0xdfff)) | (c >= 0xfffe)
            hi = hi & ~((c >= 0xd800) & (c <= 0xdfff)) & (c < 0xfffe)
        exp['NMSTRT'] |= hi & (st | lat)
        exp['NAME'] |= hi & nc & ~st & ~lat
        exp['OTHER'] |= hi & ~nc & ~lat
        exp['NONASCII'] |= hi & (preds['start'] == st) & (preds['name'] == nc)
        return exp

    # ---------- ASCII values
    def ascii(s):
        n = 0
        for f, e in s.fns('byte_to_ascii'):
            ax = s.allbytes(e); c = s.cp(e, s.sparse(e, ax)) if e.kind else s.sparse(e, ax)[0]
            n += 1; s.ctx.seen(f)
            what = 'ascii:%s' % (e.id or 'Unknown')
            run = s.one('asc', f, e, ax)
            if not s.over(run, what, f): continue
            s.compare(run, what, f, lambda st: run.scal(st.read(('L', 0, 0), ()), st, 8), lambda v: np.where(c < 128, v == c, v >= 128), ax, lambda v: 'taken for the ASCII character %02x' % v)
        for f, e in s.fns('char_matches'):
            ax = s.allbytes(e) + [np.arange(1, 128)]
            A = s.sparse(e, ax); c = s.cp(e, A) if e.kind else A[0]
            n += 1; s.ctx.seen(f)
            what = 'match:%s' % (e.id or 'Unknown')
            run = s.one('cm', f, e, ax, lambda ai, st: st.write(('L', 0, 3), (), frozenset((ai.mk(ai.axes[-1], 8),))))
            if not s.over(run, what, f): continue
            s.compare(run, what, f, lambda st: run.scal(st.read(('L', 0, 0), ()), st, 1), lambda v: (v != 0) == (c == A[-1]), ax, lambda v: 'comparison with the character in the last column gives %d' % v)
        s.ctx.floor('ASCII primitives', n, 28)

    # ---------- UTF-8 sequences
    LEADS = {2: np.arange(0xc0, 0xe0), 3: np.arange(0xe0, 0xf0), 4: np.arange(0xf0, 0xf5)}

    def boxes(s, n):
        """(valid boxes, invalid boxes) of n-byte sequences with an n-byte lead"""
        L = s.LEADS[n]; T = np.arange(256)
        tr = (T >= 0x80) & (T <= 0xbf); al = np.ones(256, bool)
        groups = []
        if n == 2:
            groups.append(((L >= 0xc2), [tr]))
            good = [[L >= 0xc2, tr]]; bad = [[L < 0xc2, al], [L >= 0xc2, ~tr]]
            return good, bad
        if n == 3:
            g = [(L == 0xe0, (T >= 0xa0) & (T <= 0xbf)), (L == 0xed, (T >= 0x80) & (T <= 0x9f)), ((L != 0xe0) & (L != 0xed) & (L != 0xef), tr)]
            good = []; bad = []
            for l, r in g:
                good.append([l, r, tr]); bad += [[l, ~r, al], [l, r, ~tr]]
            ef = L == 0xef; bf = T == 0xbf; top = tr & (T <= 0xbd)
            good += [[ef, tr & ~bf, tr], [ef, bf, top]]
            bad += [[ef, ~tr, al], [ef, tr & ~bf, ~tr], [ef, bf, ~top]]
            return good, bad
        g = [(L == 0xf0, (T >= 0x90) & (T <= 0xbf)), (L == 0xf4, (T >= 0x80) & (T <= 0x8f)), ((L > 0xf0) & (L < 0xf4), tr)]
        good = []; bad = []
        for l, r in g:
            good.append([l, r, tr, tr]); bad += [[l, ~r, al, al], [l, r, ~tr, al], [l, r, tr, ~tr]]
        return good, bad

    def sequences(s):
        ctx = s.ctx; done = {}; cnt = 0
        for short in ('is_invalid_char', 'is_name_char', 'is_nmstrt_char'):
            for f, e in s.fns(short):
                if e.kind == 'Utf8': done.setdefault((short, f.defn, f.line, len(f.blocks)), (f, e))
        for (short, _, _, _), (f, e) in done.items():
            ctx.seen(f)
            for n in (2, 3, 4):
                cnt += 1
                what = 'utf8:%s:%d' % (short, n)
                ax = [s.LEADS[n]] + [np.arange(256)] * (n - 1)
                if short != 'is_invalid_char':
                    ax = [s.LEADS[n]] + [np.arange(0x80, 0xc0)] * (n - 1)
                def setup(ai, st):
                    self_arg(st); input_region(ai, st, 'B', n)
                    st.write(('L', 0, 2), (), frozenset((B,))); st.write(('L', 0, 3), (), frozenset((n,)))
                run = Run(s.p, f, ax, setup)
                if not s.over(run, what, f): continue
                if short == 'is_invalid_char':
                    good, bad = s.boxes(n)
                    for st in run.rets:
                        v = run.scal(st.read(('L', 0, 0), ()), st, 1)
                        if v is None: ctx.viol(what + ':undecided', f.where(), 'undecided: result not tracked'); continue
                        # split a non-constant result
                        parts = [(st.q, int(v.reshape(-1)[0]))] if v.size == 1 else [(q, k) for k in (0, 1) for q in [st.q.add(v == k)] if q is not None]
                        for q, k in parts:
                            for bx in (good if k else bad):
                                ctx.obligations += 1
                                pt = where_box(q, bx)
                                if pt is not None: ctx.viol(what, f.where(), 'the byte sequence %s is %s' % (byte_names(ax, pt), 'rejected although it is well-formed' if k else 'accepted although it is malformed'))
                                else: ctx.discharged += 1
                else:
                    A = s.sparse(e, ax)
                    if n == 4:
                        s.compare(run, what, f, lambda st: run.scal(st.read(('L', 0, 0), ()), st, 1), lambda v: v == 0, ax, lambda v: 'taken for a name character')
                        continue
                    c = (A[0] & 0x1f) << 6 | (A[1] & 0x3f) if n == 2 else (A[0] & 15) << 12 | (A[1] & 0x3f) << 6 | (A[2] & 0x3f)
                    tb = START if short == 'is_nmstrt_char' else NAMEC
                    ok = (c >= (0x80 if n == 2 else 0x800)) & valid_cp(c)
                    s.compare(run, what, f, lambda st: run.scal(st.read(('L', 0, 0), ()), st, 1), lambda v: ((v != 0) == tb[c]) | ~ok, ax,
                              lambda v: 'taken for a character that %s names' % ('may start' if short == 'is_nmstrt_char' and v else 'may stand in' if v else 'may not start' if short == 'is_nmstrt_char' else 'may not stand in'))
        ctx.floor('UTF-8 sequence tests', cnt, 9)


    # ---------- conversions
    def kinds(s, e, to):
        """kinds of characters: (name, per byte the values it takes, code point from the bytes, output length)"""
        R = lambda a, b: np.arange(a, b + 1)
        TR = R(0x80, 0xbf)
        if e.kind == 'Utf8':
            k = [('1', [R(0, 0x7f)], lambda b: b[0]), ('2', [R(0xc2, 0xdf), TR], lambda b: (b[0] & 31) << 6 | b[1] & 63),
                 ('3', [R(0xe0, 0xef), TR, TR], lambda b: (b[0] & 15) << 12 | (b[1] & 63) << 6 | b[2] & 63),
                 ('4', [np.array([0xf0]), R(0x90, 0xbf), TR, TR], lambda b: (b[0] & 7) << 18 | (b[1] & 63) << 12 | (b[2] & 63) << 6 | b[3] & 63),
                 ('4b', [R(0xf1, 0xf4), TR, TR, TR], lambda b: (b[0] & 7) << 18 | (b[1] & 63) << 12 | (b[2] & 63) << 6 | b[3] & 63)]
        elif e.kind == 'Ascii': k = [('1', [R(0, 0x7f)], lambda b: b[0])]
        elif e.kind == 'Latin1': k = [('1', [R(0, 0x7f)], lambda b: b[0]), ('2', [R(0x80, 0xff)], lambda b: b[0])]
        else:
            big = e.kind == 'Big2'
            o = (lambda h, l: [h, l]) if big else (lambda h, l: [l, h])
            u = (lambda b, i=0: b[i] << 8 | b[i + 1]) if big else (lambda b, i=0: b[i + 1] << 8 | b[i])
            hi3 = np.array([x for x in range(8, 256) if not 0xd8 <= x <= 0xdf])
            k = [('1', o(np.array([0]), R(0, 0x7f)), u), ('2', o(np.array([0]), R(0x80, 0xff)), u), ('2b', o(R(1, 7), R(0, 255)), u), ('3', o(hi3, R(0, 255)), u),
                 ('4', o(R(0xd8, 0xdb), R(0, 255)) + o(R(0xdc, 0xdf), R(0, 255)), lambda b: 0x10000 + ((u(b) & 0x3ff) << 10 | u(b, 2) & 0x3ff))]
        return [(n, v, c, int(n[0]) if to == 8 else (2 if n[0] == '4' else 1)) for n, v, c in k]

    @staticmethod
    def utf8(c, n):
        if n == 1: return [c]
        if n == 2: return [c >> 6 | 0xc0, c & 63 | 0x80]
        if n == 3: return [c >> 12 | 0xe0, c >> 6 & 63 | 0x80, c & 63 | 0x80]
        return [c >> 18 | 0xf0, c >> 12 & 63 | 0x80, c >> 6 & 63 | 0x80, c & 63 | 0x80]

    @staticmethod
    def utf16(c, n):
        if n == 1: return [c]
        return [0xd800 + (c - 0x10000 >> 10), 0xdc00 + (c - 0x10000 & 0x3ff)]

    def conversions(s):
        ctx = s.ctx; seen = set(); jobs = []
        for short, to in (('utf8Convert', 8), ('utf16Convert', 16)):
            for f, e in s.fns(short):
                if e.kind is None: continue
                k = (f.defn, f.line, len(f.blocks), e.kind)
                if k in seen and not ctx.thorough: continue       # one generic body per encoding, whatever its table
                seen.add(k); ctx.seen(f)
                jobs.append(lambda f=f, e=e, to=to: s.conv_enc(f, e, to))
        par(ctx, jobs)
        ctx.floor('conversion functions', len(jobs), 9)

    def conv_enc(s, f, e, to):
                ctx = s.ctx; cnt = 0
                ks = s.kinds(e, to)
                small = [(n, [v if len(v) < 3 else np.unique([v[0], v[len(v) // 2], v[-1]]) for v in vs], c, o) for n, vs, c, o in ks]
                for a in ks:
                    for cap in range(0, a[3] + 2):
                        for cut in range(0, len(a[1])): cnt += s.convert(f, e, to, [a], cap, cut)
                for a in small:
                    for b in small:
                        tot = a[3] + b[3]
                        for cap in range(0, tot + 1):
                            for cut in (range(0, len(b[1])) if cap in (a[3], tot) else (0,)): cnt += s.convert(f, e, to, [a, b], cap, cut)
                ctx.floor('conversion cases %s %d' % (e.kind, to), cnt, 6)

    def convert(s, f, e, to, chars, cap, cut):
        """one conversion: characters, capacity of the output, bytes missing at the end of the input"""
        if e.unit == 2 and to == 16 and (cap < sum(c[3] for c in chars) or cut and chars[-1][0] == '4'): return 0     # see ASSUMPTIONS
        ctx = s.ctx; p = s.p
        axes = [v for c in chars for v in c[1]]
        n = len(axes) - cut
        A = s.sparse(e, axes)
        esz = to // 8
        def setup(ai, st):
            self_arg(st)
            input_region(ai, st, 'B', n)
            ai.region('T', esz, cap)
            ai.fb = slice_arg(p, f, ai, st, 2, B, n, True)
            ai.tb = slice_arg(p, f, ai, st, 3, ('ip', 'T'), cap, True)
        run = Run(p, f, axes, setup)
        what = 'convert%d:%s' % (to, e.kind)
        if not s.over(run, what, f): return 1
        # expected
        pos = 0; out = []; why = None
        for i, c in enumerate(chars):
            L = len(c[1])
            avail = min(L, n - pos)
            fits = len(out) + c[3] <= cap
            if avail < L:
                why = {'INPUT_INCOMPLETE'}
                if not fits: why.add('OUTPUT_EXHAUSTED')
                if avail == 0: why = {'COMPLETED'}
                elif e.unit == 2 and avail % 2: why.add('COMPLETED' if avail < 2 else 'INPUT_INCOMPLETE')
                break
            if not fits: why = {'OUTPUT_EXHAUSTED'}; break
            cp = c[2](A[pos:pos + L])
            out += s.utf8(cp, c[3]) if to == 8 else s.utf16(cp, c[3])
            pos += L
        if why is None: why = {'COMPLETED'}
        if why == {'OUTPUT_EXHAUSTED'} and cut: why = {'OUTPUT_EXHAUSTED', 'INPUT_INCOMPLETE'}
        desc = '%s character%s of kind %s, %d bytes of them present, room for %d' % (len(chars), 's' if len(chars) > 1 else '', '+'.join(c[0] for c in chars), n, cap)
        okv = {s.cr[w] for w in why if w in s.cr}
        for st in run.rets:
            ctx.obligations += 1
            ok = True
            v = run.scal(st.read(('L', 0, 0), ('#',)), st, 64, True)
            if v is None or v.size != 1 or int(v.reshape(-1)[0]) not in okv:
                ok = False; ctx.viol(what + ':result', f.where(), '%s: the result is %s, not %s' % (desc, 'unknown' if v is None else {x: y for y, x in s.cr.items()}.get(int(v.reshape(-1)[0])), '/'.join(sorted(why))))
            for (b, pa), name, want, z in ((run.ai.fb, 'B', pos, 1), (run.ai.tb, 'T', len(out), esz)):
                V = st.read(b, pa); got = None
                if V is not None and len(V) == 1:
                    a = next(iter(V))
                    if isinstance(a, tuple) and a[0] == 'sl':
                        if a[1] == ('ip', name): got = 0
                        elif isinstance(a[1], tuple) and a[1][0] == 'po' and a[1][1] == ('ip', name) and isinstance(a[1][2], int): got = a[1][2] // z
                if got != want:
                    ok = False; ctx.viol(what + (':consumed' if name == 'B' else ':produced'), f.where(), '%s: %s %s elements, expected %d' % (desc, 'consumes' if name == 'B' else 'produces', got, want))
            R = st.mem.get(('R', 'T'), {})
            for i, w in enumerate(out):
                v = run.scal(R.get((i,)), st, to)
                if v is None: ok = False; ctx.viol(what + ':undecided', f.where(), '%s: output element %d not tracked' % (desc, i)); continue
                bad = (v != w) & st.q.full(len(axes))
                if bad.any():
                    ok = False; pt = np.unravel_index(int(np.argmax(bad)), bad.shape)
                    ctx.viol(what + ':value', f.where(), '%s (%s): output element %d is wrong' % (desc, byte_names(axes, [min(x, len(axes[j]) - 1) for j, x in enumerate(pt)]), i))
            if ok: ctx.discharged += 1
        # all inputs must be answered
        return 1

    # ---------- code points
    def encoders(s):
        ctx = s.ctx
        c = np.concatenate([np.arange(-4, 0x110002), np.array([-0x80000000, 0x7fffffff, 0x200000, -1000])])
        for short, to in (('XmlUtf8Encode', 8), ('XmlUtf16Encode', 16)):
            f = s.p.one(short); ctx.seen(f)
            def setup(ai, st):
                st.write(('L', 0, 1), (), frozenset((ai.mk(ai.axes[0], 32),)))
                ai.region('T', to // 8, 4)
                st.write(('L', 0, 2), (), frozenset((('sl', ('ip', 'T'), 4),)))
            run = Run(s.p, f, [c], setup)
            what = 'encode%d' % to
            if not s.over(run, what, f): continue
            for st in run.rets:
                m = np.broadcast_to(st.q.full(1), c.shape)
                x = c[m]
                v = run.scal(st.read(('L', 0, 0), ()), st, 32, True)
                if v is None: ctx.viol(what + ':undecided', f.where(), 'undecided: result not tracked'); continue
                v = np.broadcast_to(v, c.shape)[m]
                want = np.where((x < 0) | (x > 0x10ffff), 0, np.where(x < 0x80, 1, np.where(x < 0x800, 2, np.where(x < 0x10000, 3, 4)))) if to == 8 else np.where((x < 0) | (x > 0x10ffff), 0, np.where(x < 0x10000, 1, 2))
                ctx.obligations += 1
                if (v != want).any():
                    ctx.viol(what + ':length', f.where(), 'code point %x: %d units' % (int(x[np.argmax(v != want)]), int(v[np.argmax(v != want)]))); continue
                ctx.discharged += 1
                for n in np.unique(want):
                    if n == 0: continue
                    y = x[want == n]
                    exp = s.utf8(y, int(n)) if to == 8 else s.utf16(y, int(n))
                    for i, wv in enumerate(exp):
                        ctx.obligations += 1
                        g = run.scal(st.mem.get(('R', 'T'), {}).get((i,)), st, to)
                        if g is None: ctx.viol(what + ':undecided', f.where(), 'undecided: unit %d not tracked' % i); continue
                        g = np.broadcast_to(g, c.shape)[m][want == n]
                        if (g != wv).any(): ctx.viol(what + ':value', f.where(), 'code point %x: unit %d is %x' % (int(y[np.argmax(g != wv)]), i, int(g[np.argmax(g != wv)])))
                        else: ctx.discharged += 1
        s.charref()

    def charref(s):
        ctx = s.ctx
        f = s.p.one('checkCharRefNumber'); ctx.seen(f)
        c2 = np.arange(0, 0x110000)
        run = Run(s.p, f, [c2], lambda ai, st: st.write(('L', 0, 1), (), frozenset((ai.mk(ai.axes[0], 32),))))
        if s.over(run, 'charref', f):
            s.compare(run, 'charref', f, lambda st: run.scal(st.read(('L', 0, 0), ()), st, 32, True), lambda v: v == np.where(valid_cp(c2), c2, -1), [c2], lambda v: 'a character reference to this code point gives %d' % v)

    # ---------- encodings described by the application
    UNK = ('S', ('sym', ('unknown',)))

    def run_unknown(s, entry, vals, ns, has_convert):
        """initialisation with every entry fixed but one, which takes the given values; [(state, array of accepted)] and the evaluator"""
        p = s.p; f = s.unk['initialize']
        ax = [np.asarray(vals)] + s.unk_axes
        ai = VecAI(p, ax, UnkHooks(s), budget=4000000)
        ai.conv_axis = None
        def get(ai, st, i):
            if not isinstance(i, int) or not 0 <= i < 256: return None
            if i == entry: return frozenset((ai.mk(ai.axes[0], 32),))
            return frozenset((i if i < 0x80 else mask(-1, 32),))
        ai.region('TAB', 4, 256, get)
        st = State(); st.q = Cond(); ai.cur = st
        nb = 0
        for i in range(1, f.argc + 1):
            t = f.locals[i]; k = p.tk(t)
            if k[0] == 'adt' and k[1].endswith('Option'):
                st.write(('L', 0, i), (), None); st._d(('L', 0, i))[('#',)] = frozenset((1 if has_convert else 0,)); continue
            if k == ['int', 'bool']: st.write(('L', 0, i), (), frozenset((int(ns),))); nb += 1
            elif k[0] == 'ref' and p.tk(k[1])[0] == 'adt': st.write(('L', 0, i), (), frozenset((('&', s.UNK, ()),)))
            elif k[0] in ('ptr', 'ref') and p.tk(k[1])[0] == 'int' and p.int_width(k[1]) == 32: st.write(('L', 0, i), (), frozenset((('ip', 'TAB'),)))
            elif k[0] in ('ptr', 'ref') and p.tk(k[1])[0] == 'slice': st.write(('L', 0, i), (), frozenset((('sl', ('ip', 'TAB'), 256),)))
            else: st.write(('L', 0, i), (), frozenset((('sym', ('arg', i)),)))
        try: r = [x for x, _ in ai.exec(f, st, 0)]
        except Budget as e:
            ai.viol('undecided', 'not decided: %s' % e); r = []
        return ai, r

    def scal(s, ai, V, st, w, sg=False):
        if V is None or len(V) != 1: return None
        ai.cur = st
        return ai.val(next(iter(V)), w, sg)

    def unknown(s):
        p = s.p; ctx = s.ctx
        s.unk = {}
        for k in ('byte_type', 'utf8Convert', 'utf16Convert', 'is_name_char', 'is_nmstrt_char', 'is_invalid_char'):
            fs = [f for f, e in s.fns(k) if e.kind is None and f.locals]
            if len(fs) != 1: ctx.viol('unknown:anchor:%s' % k, '', 'undecided: no single %s of an application-defined encoding' % k); return
            s.unk[k] = fs[0]; ctx.seen(fs[0])
        adt = p.pointee(s.unk['byte_type'].locals[1])
        ini = [f for f in p.fns if f.blocks is not None and f.local and f.argc >= 4 and p.pointee(f.locals[1]) == adt and p.tk(f.locals[0]) == ['int', 'bool']]
        if len(ini) != 1: ctx.viol('unknown:anchor:initialize', '', 'undecided: %d functions may set up an application-defined encoding' % len(ini)); return
        s.unk['initialize'] = ini[0]; ctx.seen(ini[0])
        full = np.concatenate([np.arange(-6, 0x10010), np.array([0x10ffff, 0x110000, 0x7fffffff, -0x80000000, 0x1f600])])
        s.unk_axes = []
        jobs = [('one', i, ns, True) for i, ns in ((0x24, 0), (0x41, 0), (0x3a, 1), (0x3a, 0), (0x20, 0), (0x5c, 0), (0x80, 0), (0xff, 1))] + [('one', 0xe4, 0, False)]
        if ctx.thorough: jobs += [('one', i, i & 1, True) for i in list(range(0, 128, 5)) + [0x85, 0xa0, 0xc3]]
        par(ctx, [lambda i=i, ns=ns, hc=hc: s.unknown_entry(i, full, ns, hc) for _, i, ns, hc in jobs] + [lambda n=n: s.unknown_multi(n) for n in (2, 3, 4)])
        ctx.floor('entries of application-defined encodings', len(jobs), 9)

    def unknown_entry(s, i, vals, ns, hc):
        ctx = s.ctx; f = s.unk['initialize']
        ai, rets = s.run_unknown(i, vals, ns, hc)
        what = 'unknown:entry'
        c = np.asarray(vals, dtype=np.int64)
        asc = np.array([ASCII_BT[a] if a < 128 else '' for a in range(128)])
        def cls(a):
            b = ASCII_BT[a]
            return 'NMSTRT' if b == 'COLON' and not (ns and a == 0x3a) else b
        free = np.array([ASCII_BT[a] in ('OTHER', 'NONXML') for a in range(128)])     # characters that need not stand for themselves
        ca = np.clip(c, 0, 127)
        ok = np.where(c < -4, False, np.where(c < -1, hc, np.where(c < 0x80, (c == -1) | free[ca] | (c == i), ~(valid_cp(c) & (c > 0xffff)))))
        if i < 128 and not free[i]: ok = ok & (c == i)
        big = c > 0x10ffff          # not code points at all: either answer
        tot = np.zeros(c.shape, bool)
        for st in rets:
            ctx.obligations += 1
            q = np.broadcast_to(st.q.full(1), c.shape)
            v = s.scal(ai, st.read(('L', 0, 0), ()), st, 1)
            if v is None or v.size != 1: ctx.viol(what + ':undecided', f.where(), 'undecided: result not tracked'); continue
            acc = bool(int(v.reshape(-1)[0])); tot |= q
            bad = q & (ok != acc) & ~big & ~(c == 0)
            if bad.any():
                ctx.viol(what + ':accept', f.where(), 'byte %02x standing for %d is %s' % (i, int(c[np.argmax(bad)]), 'accepted' if acc else 'refused')); continue
            ctx.discharged += 1
            if not acc: continue
            # class
            ai.region('B', 1, 1, lambda ai, st, k: frozenset((i,)) if k == 0 else None)
            g = s.unk['byte_type']
            s2 = st.copy()
            s2.write(('L', 1, 1), (), frozenset((('&', s.UNK, ()),))); s2.write(('L', 1, 2), (), frozenset((B,)))
            for r, _ in ai.exec(g, s2, 1):
                ctx.obligations += 1
                m = np.broadcast_to(r.q.full(1), c.shape); x = c[m]
                v = s.scal(ai, r.read(('L', 1, 0), ('#',)), r, 64, True)
                if v is None: ctx.viol(what + ':undecided', g.where(), 'undecided: class not tracked'); continue
                v = np.broadcast_to(v, c.shape)[m]
                good = np.zeros(x.shape, bool)
                isb = (v == s.btv['MALFORM']) | (v == s.btv['NONXML']) | (v == s.btv['TRAIL'])
                good |= (~valid_cp(x)) & ((x >= 0) | (x == -1)) & isb
                for k, nm in ((-2, 'LEAD2'), (-3, 'LEAD3'), (-4, 'LEAD4')): good |= (x == k) & (v == s.btv[nm])
                xa = np.clip(x, 0, 127)
                good |= (x >= 0) & (x < 128) & (v == np.array([s.btv[cls(a)] for a in range(128)])[xa])
                xc = np.clip(x, 0, 0xffff)
                hi = (x >= 128) & valid_cp(x)
                good |= hi & START[xc] & (v == s.btv['NMSTRT'])
                good |= hi & ~START[xc] & NAMEC[xc] & (v == s.btv['NAME'])
                good |= hi & ~NAMEC[xc] & ((v == s.btv['OTHER']) | (v == s.btv['NONASCII']))
                if (~good).any():
                    k = int(np.argmax(~good)); ctx.viol(what + ':class', g.where(), 'byte %02x standing for %s gets class %s' % (i, '%x' % x[k] if x[k] >= 0 else x[k], s.bt.get(int(v[k]))))
                else: ctx.discharged += 1
            s.unknown_convert(ai, st, i, c, what)
        ctx.ob(bool(tot.all()), what + ':total', f.where(), 'no outcome for some entries')
        for k, m in ai.viols.items(): ctx.viol('%s:%s' % (what, k), f.where(), m)

    def unknown_convert(s, ai, st, i, c, what):
        """conversion of the one-byte characters"""
        p = s.p; ctx = s.ctx
        val = valid_cp(c) & (c <= 0xffff) & (c >= 0)
        q = st.q.add(val)
        if q is None: return
        st = st.copy(); st.q = q
        for short, esz in (('utf8Convert', 1), ('utf16Convert', 2)):
            f = s.unk[short]
            for cap in range(0, 4):
                ai.region('B', 1, 1, lambda ai, st, k: frozenset((i,)) if k == 0 else None)
                ai.region('T', esz, cap)
                s2 = st.copy(); s2.mem.pop(('R', 'T'), None)
                s2.write(('L', 1, 1), (), frozenset((('&', s.UNK, ()),)))
                fb, tb = s.buf_args(f, ai, s2, 1, B, 1, cap)
                for r, _ in ai.exec(f, s2, 1):
                    m = np.broadcast_to(r.q.full(1), c.shape); x = c[m]
                    need = np.where(x < 0x80, 1, np.where(x < 0x800, 2, 3)) if esz == 1 else np.ones(x.shape, int)
                    s.unk_result(ai, r, f, what + ':%s' % short, x, m, need, cap, 1, fb, tb, esz)

    def buf_args(s, f, ai, st, fid, ptr, n, cap):
        out = []
        for i, base, pt, ln in ((2, ('S', ('sym', ('from',))), ptr, n), (3, ('S', ('sym', ('to',))), ('ip', 'T'), cap)):
            t = s.p.pointee(f.locals[i])
            k = s.p.tk(t)
            st.write(('L', fid, i), (), frozenset((('&', base, ()),)))
            V = frozenset((('sl', pt, ln),))
            pa = (k[4][0][2][0][0],) if k[0] == 'adt' else ()
            st.write(base, (), None); st._d(base)[pa] = V
            out.append((base, pa))
        return out

    def pos(s, st, b, pa, name, z):
        V = st.read(b, pa)
        if V is None or len(V) != 1: return None
        a = next(iter(V))
        if isinstance(a, tuple) and a[0] == 'sl':
            if a[1] == ('ip', name): return 0
            if isinstance(a[1], tuple) and a[1][0] == 'po' and a[1][1] == ('ip', name) and isinstance(a[1][2], int): return a[1][2] // z
        return None

    def unk_result(s, ai, r, f, what, x, m, need, cap, nb, fb, tb, esz):
        """one conversion of one character of nb bytes with code points x"""
        ctx = s.ctx
        ctx.obligations += 1
        ok = True
        for fits in (True, False):
            sel = (need <= cap) == fits
            if not sel.any(): continue
            v = s.scal(ai, r.read(('L', 1, 0), ('#',)), r, 64, True)
            want = 'COMPLETED' if fits else 'OUTPUT_EXHAUSTED'
            if v is None or v.size != 1 or int(v.reshape(-1)[0]) != s.cr[want]:
                ok = False; ctx.viol(what + ':result', f.where(), 'code point %x, room for %d: result is not %s' % (int(x[np.argmax(sel)]), cap, want))
            a = s.pos(r, *fb, 'B', 1); b = s.pos(r, *tb, 'T', esz)
            if a != (nb if fits else 0): ok = False; ctx.viol(what + ':consumed', f.where(), 'code point %x, room for %d: consumes %s bytes' % (int(x[np.argmax(sel)]), cap, a))
            if b is None or (np.where(sel, need if fits else 0, b) != b).any(): ok = False; ctx.viol(what + ':produced', f.where(), 'code point %x, room for %d: produces %s elements' % (int(x[np.argmax(sel)]), cap, b))
            if not fits: continue
            for n in np.unique(need[sel]):
                y = x[sel & (need == n)]
                exp = s.utf8(y, int(n)) if esz == 1 else [y]
                for i, w in enumerate(exp):
                    g = s.scal(ai, r.mem.get(('R', 'T'), {}).get((i,)), r, 8 * esz)
                    if g is None: ok = False; ctx.viol(what + ':undecided', f.where(), 'undecided: output not tracked'); continue
                    g = np.broadcast_to(g.reshape(-1), m.shape)[m][sel & (need == n)]
                    if (g != w).any(): ok = False; ctx.viol(what + ':value', f.where(), 'code point %x: output element %d is %x' % (int(y[np.argmax(g != w)]), i, int(g[np.argmax(g != w)])))
        if ok: ctx.discharged += 1

    def unknown_multi(s, n):
        """characters of n bytes, decoded by the application's function (whose result is the second axis)"""
        p = s.p; ctx = s.ctx; what = 'unknown:multi:%d' % n
        conv = np.concatenate([np.arange(-4, 0x10010), np.array([0x10ffff, 0x1f600, 0x7fffffff, -0x80000000])])
        s.unk_axes = [conv]
        ai, rets = s.run_unknown(0x81, [-n], 0, True)
        s.unk_axes = []
        ctx.floor('encodings with %d-byte characters' % n, len(rets), 1)
        c = conv
        good = valid_cp(c) & (c <= 0xffff) & (c >= 0)
        for st in rets:
            for k, m in ai.viols.items(): ctx.viol('%s:%s' % (what, k), s.unk['initialize'].where(), m)
            ai.region('B', 1, n, lambda ai, st, k: frozenset((0x81,)) if k == 0 else frozenset((('sym', ('byte', k)),)))
            for short, spec in (('is_invalid_char', ~good), ('is_name_char', NAMEC[np.clip(c, 0, 0xffff)]), ('is_nmstrt_char', START[np.clip(c, 0, 0xffff)])):
                g = s.unk[short]
                s2 = st.copy(); s2.write(('L', 1, 1), (), frozenset((('&', s.UNK, ()),))); s2.write(('L', 1, 2), (), frozenset((B,))); s2.write(('L', 1, 3), (), frozenset((n,)))
                for r, _ in ai.exec(g, s2, 1):
                    ctx.obligations += 1
                    m = np.broadcast_to(r.q.full(2), (1, len(c)))[0]
                    v = s.scal(ai, r.read(('L', 1, 0), ()), r, 1)
                    if v is None: ctx.viol('%s:%s:undecided' % (what, short), g.where(), 'undecided: result not tracked'); continue
                    v = np.broadcast_to(v, (1, len(c)))[0] != 0
                    bad = m & (v != spec) & (good | (short == 'is_invalid_char'))
                    if bad.any(): ctx.viol('%s:%s' % (what, short), g.where(), 'decoded code point %x: %s' % (int(c[np.argmax(bad)]), bool(v[np.argmax(bad)])))
                    else: ctx.discharged += 1
            q = st.q.add(good[None, :])
            for short, esz in (('utf8Convert', 1), ('utf16Convert', 2)):
                f = s.unk[short]
                for cap in range(0, 4):
                    ai.region('B', 1, n, lambda ai, st, k: frozenset((0x81,)) if k == 0 else frozenset((('sym', ('byte', k)),)))
                    ai.region('T', esz, cap)
                    s2 = st.copy(); s2.q = q; s2.mem.pop(('R', 'T'), None)
                    s2.write(('L', 1, 1), (), frozenset((('&', s.UNK, ()),)))
                    fb, tb = s.buf_args(f, ai, s2, 1, B, n, cap)
                    for r, _ in ai.exec(f, s2, 1):
                        m = np.broadcast_to(r.q.full(2), (1, len(c)))[0]; x = c[m]
                        need = np.where(x < 0x80, 1, np.where(x < 0x800, 2, 3)) if esz == 1 else np.ones(x.shape, int)
                        s.unk_result(ai, r, f, what + ':%s' % short, x, m, need, cap, n, fb, tb, esz)
            for k, m in ai.viols.items(): ctx.viol('%s:%s' % (what, k), s.unk['initialize'].where(), m)


class UnkHooks(VecHooks):
    def __init__(s, c): s.c = c
    def on_indirect(s, ai, st, fn, V, term, fid):
        if ai.nd < 2: return None
        ai.cur = st
        return [(st, frozenset((ai.mk(ai.axes[1], 32),)))]


def check(ctx):
    ctx.rule('The character primitives of every encoding are evaluated exactly over all their inputs (the abstract value of a scalar is a function of the input bytes); classes, name tests, validity and '
             'conversions are compared with the definitions of UTF-8, UTF-16, Latin-1, ASCII and the character classes of XML 1.0.')
    p = ctx.prog('lib', ())
    c = Checker(ctx, p)
    c.classes(); c.ascii(); c.sequences(); c.conversions(); c.encoders(); c.unknown()
