"""Finding out the encoding of a document: the first bytes, the encoding given from outside, and the names of encodings.

The detector is evaluated exactly over all values of the first three bytes (vec.py), for every length of the first piece, every encoding given
from outside and both kinds of entity; each outcome (the encoding chosen, the token, the place it goes on at) is compared with the table below."""
from vec import *
from par import par

B, T, NX = ('ip', 'B'), ('ip', 'ENCS'), ('S', ('sym', ('next',)))
SELF, CELL = ('S', ('sym', ('initenc',))), ('S', ('sym', ('chosen',)))
NAMES = ['ISO-8859-1', 'US-ASCII', 'UTF-8', 'UTF-16', 'UTF-16BE', 'UTF-16LE']
GIVEN = NAMES + [None]
LATIN, ASCII, UTF8, U16, BE, LE, NONE = range(7)


def want(given, content, n, b):
    """outcome -> the inputs it belongs to; outcome: (encoding chosen or None, token or 'scan', bytes taken)"""
    b0, b1, b2 = b
    one = lambda x: np.broadcast_to(x, np.broadcast_shapes(b0.shape, b1.shape, b2.shape))
    out = {}
    rest = one(np.ones((1, 1, 1), bool))

    def put(o, c):
        nonlocal rest
        c = one(c) & rest
        if c.any(): out[o] = out.get(o, False) | c; rest = rest & ~c
    T_ = np.ones((1, 1, 1), bool)
    if n == 0: put((None, 'NONE', 0), T_); return out
    scan = lambda e: (e, 'scan', 0)
    raw = content and given == LATIN        # bytes that look like a mark may be data
    if n == 1:
        if given in (U16, BE, LE): put((None, 'PARTIAL', 0), T_)
        if not raw: put((None, 'PARTIAL', 0), (b0 == 0xfe) | (b0 == 0xff) | (b0 == 0xef))
        put((None, 'PARTIAL', 0), (b0 == 0) | (b0 == 0x3c))
    else:
        if not raw:
            put((BE, 'BOM', 2), (b0 == 0xfe) & (b1 == 0xff))
            put((LE, 'BOM', 2), (b0 == 0xff) & (b1 == 0xfe))
        if not (content and given in (LATIN, U16, BE, LE)):
            m = (b0 == 0xef) & (b1 == 0xbb)
            if n == 2: put((None, 'PARTIAL', 0), m)
            else: put((UTF8, 'BOM', 3), m & (b2 == 0xbf))
        if not (content and given in (BE, U16)): put(scan(LE), (b0 == 0x3c) & (b1 == 0))
        if not (content and given == LE): put(scan(BE), b0 == 0)
        if not content: put(scan(LE), (b1 == 0) & (b0 != 0))
    put(scan(given), T_)
    return out


class DetHooks(VecHooks):
    def on_call(s, ai, st, fn, callee, term, fid):
        if callee.short in ('xmlTok', 'prologTok', 'contentTok') and 'InitEncoding' not in callee.name and (callee.kind == 'virtual' or callee.short == 'xmlTok'):
            A = [ai.scalar(st, fn, fid, a, term[1]) for a in term[4]]
            e = next(iter(A[0])) if A[0] and len(A[0]) == 1 else None
            e = e[1][1] if isinstance(e, tuple) and e[0] == 'sym' and e[1][0] == 'enc' else None
            if callee.short == 'xmlTok':
                src, _ = ai.resolve(st, fn, fid, term[4][1][1], term[1]) if term[4][1][0] != 'k' else (None, 0)
                V = st.read(src[0][0], src[0][1] + ('#',)) if src else A[1]
                how = s.states.get(next(iter(V))) if V and len(V) == 1 else None
                i = 2
            else: how = callee.short == 'contentTok'; i = 1
            src, _ = ai.resolve(st, fn, fid, term[4][i][1], term[1])
            V = st.read(src[0][0], src[0][1] + ('0',)) or st.read(*src[0])
            whole = V == frozenset((('sl', B, s.n),))
            dl, _ = ai.resolve(st, fn, fid, term[5], term[1])
            for b, p in dl: st.write(b, p, None); st._d(b)[p + ('#',)] = frozenset((('sym', ('scan', e, how, whole)),))
            return [(st, 'done')]
        return VecHooks.on_call(s, ai, st, fn, callee, term, fid)


def detect(ctx, p):
    f = p.one('initScan'); ctx.seen(f)
    ds = {k: int(v) for k, v in p.enum_discr(p.find_adt('XML_STATE')).items()}
    tk = {to_signed(int(v), 8): k for k, v in p.enum_discr(p.find_adt('XML_TOK')).items()}
    full = [np.arange(256), np.arange(256), np.arange(256), np.arange(256)]
    def case(given, content, n):
        if True:
            what = 'first:%s:%s:%d' % (GIVEN[given], ('prolog', 'content')[content], n)
            axes = [np.arange(256) if i < n else np.arange(1) for i in range(3)]      # the first bytes that exist
            h = DetHooks(); h.n = n; h.states = {v: k == 'CONTENT' for k, v in ds.items()}
            ai = VecAI(p, axes, h, budget=100000)
            st = State(); st.q = Cond(); ai.cur = st

            def get(ai, st, i):
                if not isinstance(i, int) or not 0 <= i < min(n, 3): return None
                ai.cur = st
                return frozenset((ai.mk(ai.axes[i], 8),))
            ai.region('B', 1, n, get)
            ai.region('ENCS', 16, 7, lambda ai, st, i: frozenset((('sym', ('enc', i)),)) if isinstance(i, int) else None)
            st.write(('L', 0, 1), (), frozenset((('&', SELF, ()),)))
            d = st._d(SELF)
            d[('encoding_index',)] = frozenset((given,)); d[('encoding_table',)] = frozenset((('sl', T, 7),)); d[('encPtr',)] = frozenset((('&', CELL, ()),))
            st.write(('L', 0, 2), (), None); st._d(('L', 0, 2))[('#',)] = frozenset((ds['CONTENT' if content else 'PROLOG'],))
            slice_arg(p, f, ai, st, 3, B, n)
            st.write(('L', 0, 4), (), frozenset((('&', NX, ()),)))
            st.write(NX, (), frozenset((('sym', ('unset',)),))); st.write(CELL, (), frozenset((('sym', ('enc', 'unset')),)))
            try: rets = [r for r, _ in ai.exec(f, st, 0)]
            except Budget as e: ctx.viol(what + ':undecided', f.where(), 'not decided: %s' % e); return
            for k, m in ai.viols.items(): ctx.viol('%s:%s' % (what, k), f.where(), m)
            exp = want(given, content, n, ai.axes)
            seen = set()
            for r in rets:
                V = r.read(('L', 0, 0), ('#',)); v = next(iter(V)) if V and len(V) == 1 else None
                C = r.read(CELL, ()); c = next(iter(C)) if C and len(C) == 1 else None
                c = {'unset': None}.get(c[1][1], c[1][1]) if isinstance(c, tuple) and c[0] == 'sym' and c[1][0] == 'enc' else '?'
                X = r.read(NX, ()); x = next(iter(X)) if X and len(X) == 1 else None
                took = 0 if x == ('sym', ('unset',)) or x == B else x[2] if isinstance(x, tuple) and x[0] == 'po' and x[1] == B else '?'
                if isinstance(v, tuple) and v[0] == 'sym' and v[1][0] == 'scan':
                    tok = 'scan' if v[1][1] == c and v[1][2] == bool(content) and v[1][3] else 'another scan'
                elif isinstance(v, int): tok = tk.get(to_signed(v, 8), v)
                else: tok = '?'
                m = np.broadcast_to(r.q.full(3), tuple(len(a) for a in axes))
                g = exp.get((c, tok, took))
                bad = m & ~(np.broadcast_to(g, m.shape) if g is not None else np.zeros(m.shape, bool))
                ctx.obligations += 1; ctx.stats['outcomes of ' + what] = ctx.stats.get('outcomes of ' + what, 0) + 1
                if bad.any():
                    pt = np.unravel_index(int(np.argmax(bad)), bad.shape)
                    w = [o for o, a in exp.items() if np.broadcast_to(a, m.shape)[pt]]
                    say = lambda o: '%s%s%s' % ({'scan': 'scanned as', 'BOM': 'a mark for', 'PARTIAL': 'not enough', 'NONE': 'nothing'}.get(o[1], str(o[1])), ' ' + str('no given encoding (UTF-8)' if o[0] == NONE else GIVEN[o[0]]) if isinstance(o[0], int) else '', ', %s bytes taken' % o[2] if o[2] else '')
                    ctx.viol(what, f.where(), 'first bytes %s: %s; expected %s' % (' '.join('%02x' % x for x in pt[:n]) or 'none', say((c, tok, took)), say(w[0]) if w else '?'))
                else: ctx.discharged += 1
                seen.add((c, tok, took))
            for o in exp: ctx.ob(o in seen or bool(ctx.violations), what + ':reached', f.where(), 'the outcome %s does not occur' % (o,))

    def job(given, content):
        for n in (0, 1, 2, 3, 4, 1000): case(given, content, n)
    par(ctx, [lambda g=g, c=c: job(g, c) for g in range(7) for c in (0, 1)])
    n_out = sum(ctx.stats.pop(k) for k in [k for k in ctx.stats if k.startswith('outcomes of first')])
    ctx.stats['outcomes of detection'] = n_out
    ctx.floor('outcomes of detection', n_out, 200)


def slice_arg(p, f, ai, st, i, ptr, n):
    k = p.tk(f.locals[i]); V = frozenset((('sl', ptr, n),))
    st.write(('L', 0, i), (), None)
    if k[0] == 'adt': st._d(('L', 0, i))[(k[4][0][2][0][0],)] = V
    else: st.write(('L', 0, i), (), V)


class NameAI(VecAI):
    """tables of pointers to constants: element by element"""
    def const_val(s, fn, op, st, dst):
        k = s.p.tk(op[1])
        if k[0] == 'array' and op[3] and s.p.tsize(k[1]) == 8:
            st.write(dst[0], dst[1], None)
            for o, a in op[3]: st._d(dst[0])[dst[1] + (('i', o // 8),)] = frozenset((('a', a, 0),))
            return
        return VecAI.const_val(s, fn, op, st, dst)

    def read_locs(s, st, locs):
        if len(locs) == 1:
            b, pa = locs[0]
            if pa and isinstance(pa[-1], tuple) and pa[-1][0] == 'i' and b[0] == 'L':
                V = st.mem.get(b, {}).get(pa)
                if V is not None: return V
        return VecAI.read_locs(s, st, locs)

    def assign_op(s, st, fn, fid, dsts, weak, op, line):
        if op[0] in ('c', 'm') and op[1][1:] and not weak and len(dsts) == 1:
            srcs, _ = s.resolve(st, fn, fid, op[1], line)
            if srcs and len(srcs) == 1:
                V = st.mem.get(srcs[0][0], {}).get(srcs[0][1])
                if V is not None and srcs[0][1] and isinstance(srcs[0][1][-1], tuple): st.write(dsts[0][0], dsts[0][1], V); return
        return VecAI.assign_op(s, st, fn, fid, dsts, weak, op, line)


class NameHooks(VecHooks):
    """comparisons of the name with a constant: both outcomes"""
    def __init__(s): s.cmp = {}

    def on_call(s, ai, st, fn, callee, term, fid):
        if len(term[4]) == 2 and callee.local and callee.short == s.short:
            V = [ai.scalar(st, fn, fid, a, term[1]) for a in term[4]]
            v = [next(iter(x)) if x and len(x) == 1 else None for x in V]
            if v[0] != ('ip', 'NAME') or not (isinstance(v[1], tuple) and v[1][0] == 'a'): ai.viol('compare', 'the name is not compared with a constant'); return []
            bs = ai.p.alloc_bytes(v[1][1])
            w = bytes(x for x in bs[v[1][2] or 0:]).split(b'\0')[0].decode('latin-1') if bs is not None and 0 in bs[v[1][2] or 0:] else None
            if w is None: ai.viol('compare', 'the name is compared with something unknown'); return []
            s.cmp[w] = v[1]
            out = []
            for r in (1, 0):
                if st.eqs.get(('is', w), r) != r: continue
                if r and any(k[0] == 'is' and x for k, x in st.eqs.items() if isinstance(k, tuple) and len(k) == 2 and k[1] != w): continue
                c = st.copy(); c.eqs[('is', w)] = r; out.append((c, frozenset((r,))))
            return out
        return VecHooks.on_call(s, ai, st, fn, callee, term, fid)


def one(V):
    return next(iter(V)) if V and len(V) == 1 else None


def names(ctx, p):
    """the encodings known by name: all strings"""
    f = p.one('getEncodingIndex'); g = p.one('streqci'); ctx.seen(f, g)
    h = NameHooks(); h.short = 'streqci'
    for null in (1, 0):
        ai = NameAI(p, [np.arange(1)], h, budget=100000)
        st = State(); st.q = Cond(); ai.cur = st
        st.write(('L', 0, 1), (), frozenset((0,)) if null else frozenset((('ip', 'NAME'),)))
        try: rets = [r for r, _ in ai.exec(f, st, 0)]
        except Budget as e: ctx.viol('names:undecided', f.where(), 'not decided: %s' % e); return
        for k, m in ai.viols.items(): ctx.viol('names:%s' % k, f.where(), m)
        got = set()
        for r in rets:
            v = one(r.read(('L', 0, 0), ())); ai.cur = r
            if isinstance(v, tuple) and v[0] == 'v':
                x = np.unique(ai.val(v, 32, True)); v = int(x[0]) if x.size == 1 else None
            if not isinstance(v, int): ctx.ob(False, 'names:undecided', f.where(), 'the index is not tracked'); continue
            v = to_signed(v, 32); got.add(v)
            if null: ctx.ob(v == NONE, 'names:null', f.where(), 'no name gives %d' % v); continue
            yes = [k[1] for k, x in r.eqs.items() if isinstance(k, tuple) and k[0] == 'is' and x]
            no = {k[1] for k, x in r.eqs.items() if isinstance(k, tuple) and k[0] == 'is' and not x}
            if yes: ctx.ob(yes[0] in NAMES and v == NAMES.index(yes[0]), 'names:%s' % yes[0], f.where(), 'the name %s gives encoding number %d' % (yes[0], v))
            else: ctx.ob(v == -1 and no == set(NAMES), 'names:unknown', f.where(), 'a name that is none of %s gives %d' % (', '.join(sorted(no)), v))
        if not null:
            for i in range(6): ctx.ob(i in got, 'names:%s' % NAMES[i], f.where(), '%s is not recognised' % NAMES[i])
    for w, ptr in sorted(h.cmp.items()): compare(ctx, p, g, w, ptr)


def compare(ctx, p, g, w, ptr):
    """the comparison with one name, for all strings"""
    L = len(w) + 1
    axes = [np.arange(-128, 128)] * L
    ai = VecAI(p, axes, VecHooks(), budget=200000)
    st = State(); st.q = Cond(); ai.cur = st

    def get(ai, st, i):
        if not isinstance(i, int) or not 0 <= i < L: return None
        ai.cur = st
        return frozenset((ai.mk(ai.axes[i] & 255, 8),))
    ai.region('NAME', 1, L, get)
    st.write(('L', 0, 1), (), frozenset((('ip', 'NAME'),))); st.write(('L', 0, 2), (), frozenset((ptr,)))
    try: rets = [r for r, _ in ai.exec(g, st, 0)]
    except Budget as e: ctx.viol('compare:undecided', g.where(), 'not decided: %s' % e); return
    for k, m in ai.viols.items(): ctx.viol('compare:%s:%s' % (w, k), g.where(), m)
    fold = [{ord(c.upper()), ord(c.lower())} for c in w] + [{0}]
    acc = [set() for _ in range(L)]; n = 0
    for r in rets:
        v = one(r.read(('L', 0, 0), ()))
        sets = []
        for j in range(L):
            m = r.q.over(frozenset((j,)))
            a = ai.axes[j].reshape(-1)
            if m is not None: a = a[np.asarray(m).any(axis=tuple(k for k in range(L) if k != j)).reshape(-1)] if m.shape[j] > 1 else a
            sets.append({int(x) for x in a})
        ok = v in (0, 1) or isinstance(v, int)
        if not ok: ctx.ob(False, 'compare:undecided', g.where(), 'the result is not tracked'); continue
        if v:
            n += 1
            ctx.ob(all(x <= y for x, y in zip(sets, fold)), 'compare:%s' % w, g.where(), 'another name counts as %s' % w)
            for x, y in zip(acc, sets): x |= y
        else: ctx.ob(not all(x & y for x, y in zip(sets, fold)), 'compare:%s' % w, g.where(), 'a spelling of %s is not recognised' % w)
    ctx.ob(acc == fold and n, 'compare:%s:all' % w, g.where(), 'not every spelling of %s is recognised' % w)


ORDER = ['Latin1', 'Ascii', 'Utf8', 'Big2', 'Big2', 'Little2', 'Utf8']


def tables(ctx, p):
    """what the indices stand for"""
    import re
    n = 0

    def relocs(k):
        r = k[3]
        if len(r) == 14: return r
        if len(r) == 1 and isinstance(r[0][1], int) and p.allocs[r[0][1]][0] == 'mem' and len(p.allocs[r[0][1]][2]) == 14: return p.allocs[r[0][1]][2]
        return None

    def consts(x):
        if isinstance(x, list):
            if x and x[0] == 'k' and len(x) == 4 and isinstance(x[3], list) and x[3]: yield x
            else:
                for y in x: yield from consts(y)
    for f in p.fns:
        if not f.local or f.blocks is None: continue
        for b in f.rpo:
            for k in consts([f.blocks[b][0], f.blocks[b][1]]):
                r = relocs(k)
                if r is None: continue
                kinds = []; tabs = set()
                for o, a in sorted(r):
                    if o % 16 != 8 or p.allocs[a][0] != 'vtable': continue
                    t = p.tk(p.allocs[a][1])
                    m = re.search(r'(\w+)EncodingImpl$', t[1]) if t[0] == 'adt' else None
                    kinds.append(m.group(1) if m else '?')
                    if m: tabs |= {p.tk(g)[1].split('::')[-1] for g in t[3] if p.tk(g)[0] == 'adt'}
                if not any(x != '?' for x in kinds): continue
                n += 1; ctx.seen(f)
                ctx.ob(kinds == ORDER, 'table:%s' % f.short, f.where(), 'the encodings by number are %s, expected %s' % (' '.join(kinds), ' '.join(ORDER)))
                ns = [x.endswith('NS') for x in tabs]
                ctx.ob(len(set(ns)) == 1 and not any('Internal' in x for x in tabs), 'table:%s:kind' % f.short, f.where(), 'the table mixes %s' % ', '.join(sorted(tabs)))
                if f.short.lower().endswith('ns'): ctx.ob(all(ns), 'table:%s:ns' % f.short, f.where(), 'with namespaces, the encodings that know colons are not used')
                elif f.short in ('new', 'findEncoding'): ctx.ob(not any(ns), 'table:%s:ns' % f.short, f.where(), 'without namespaces, the encodings that know colons are used')
    ctx.floor('tables of encodings', n, 2)
