"""One step of a token loop: every path from a given token to the next one (or to the return).

The scanner is replaced by "this token, ending at the symbolic position END"; the loop is cut where it asks
for the next token.  Calls through handler slots and of selected internal functions are the effects."""
from summ import *

# first byte of the token, the byte after it, the end of the data, and the end of what could be converted
START, END, BEND = ('sym', ('tokstart',)), ('sym', ('tokend',)), ('sym', ('bufend',))
# -1: before, 1: after (what is not listed is open)
ORDER = {}
LEN = ('pd', BEND, START)          # lengths are differences of positions
MID, CEND = ('sym', ('mid',)), ('sym', ('cdend',))
SKIP = ('sym', ('skipped',))       # after white space skipped inside the token
TEXT = ('sym', ('textstart',))     # start of the text of an entity
POS = {START, END, BEND, MID, CEND, SKIP, TEXT}
for i, x in enumerate((START, SKIP, MID, END)):
    for j, y in enumerate((START, SKIP, MID, END)): ORDER[(x, y)] = (i > j) - (i < j)
PA = ('sym', ('arg', 1))
PB = ('S', PA)
STP = ('m_parsingStatus', 'parsing', '#')
H = 'm_handlers'
DB = ('S', ('sym', ('fld', ('ld', PB, ('m_dtd', 'ptr'), None), ('pointer',))))      # the declarations
# what a handler may change by calling the library (setters, stop, defaultCurrent)
API = [('m_parsingStatus', 'parsing'), ('m_errorCode',), ('m_userData',), ('m_curBase',), ('m_defaultExpandInternalEntities',)]


def handler_name(a):
    """name of the handler slot an indirect call goes through"""
    s = str(a)
    import re
    m = re.findall(r"m_\w*Handler\b", s)
    return m[-1] if m else None


def flag_of(st, sym):
    if sym in st.eqs: return st.eqs[sym]
    if 0 in st.neq.get(sym, ()): return 1
    return None


class IterHooks(SummHooks):
    apart = (PB, DB)
    def __init__(s, p, tok, opaque=(), loops=('xmlTok',), own=(), handlers=None, more=None, pure=()):
        SummHooks.__init__(s, [PB], opaque=set(opaque))
        s.p = p; s.tok = tok; s.loops = set(loops); s.again = []
        s.pure = {'minBytesPerChar', 'nameLength', 'isUtf8', 'isUtf16', 'MINBPC'} | set(pure)
        s.handlers = handlers or {}
        s.more = more
        s.mods = Mods(p)
        s.slots = handler_slots(p)

    def pure_sym(s, name, args): return ('sym', ('pure', name) + tuple(tuple(sorted(map(str, a))) if a is not None and not isinstance(a, tuple) else None for a in args[1:]))

    def on_call(s, ai, st, fn, callee, term, fid):
        n = callee.short
        if n in s.loops:
            seen = st.mem.get(('X', 'tok'), {}).get(())
            A = s.args(ai, st, fn, fid, term)
            if seen:
                s.again.append((st, A)); return []
            st._d(('X', 'tok'))[()] = frozenset((1,))
            s.ev(st, ('tok', n, A))
            R = SummHooks.args(s, ai, st, fn, fid, term)
            if len(R) > 3 and R[3] is not None:
                for a in R[3]:
                    if isinstance(a, tuple) and a[0] == '&': st.write(a[1], a[2], frozenset((END,)))
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
            for d in dl or []:
                st.write(d[0], d[1], None); st._d(d[0])[d[1] + ('#',)] = frozenset((s.tok,))
            return [(st, 'done')]
        if s.more:
            r = s.more(s, ai, st, fn, callee, term, fid)
            if r is not None: return r
        if n in s.pure:
            return [(st, frozenset((s.pure_sym(n, s.args(ai, st, fn, fid, term)),)))]
        if n in s.opaque:
            A = s.args(ai, st, fn, fid, term)
            s.ev(st, ('call', n, A, s.snap(ai, st)))
            if n not in s.quiet:
                if callee.blocks is not None:
                    ai.havoc_call(st, fn, fid, term, callee) if False else None
                    s.forget_fields(st, s.mods.of(callee))
                s.api_havoc(ai, st, ('h', n, term[1]))
            dl, weak = ai.resolve(st, fn, fid, term[5], term[1]) if term[5] else (None, 0)
            t = s.p.place_ty(fn, term[5]) if term[5] else None
            if t is not None and s.p.tk(t)[0] == 'adt' and s.p.tk(t)[2] == 'enum':
                for d in dl or []:
                    st.write(d[0], d[1], None)
                    e = ('sym', ('ret', n, term[1]))
                    st._d(d[0])[d[1] + ('#',)] = frozenset((e,))
                return [(st, 'done')]
            return [(st, frozenset((('sym', ('ret', n, term[1])),)))]
        return None
    quiet = ()

    def forget_fields(s, st, fs):
        for f in sorted(fs):
            s.n += 1
            st.forget(PB, (f,)); st.kill_alias(PB, (f,))
            for k in list(st.mem.get(PB, {})):
                if k[:1] == (f,): st._d(PB).pop(k)
            st._d(PB)[(f,)] = frozenset((('sym', ('after', f, s.n)),))

    def args(s, ai, st, fn, fid, term):
        """like SummHooks.args, with records passed by value given as their leaves, and the first element
        of what a pointer to local memory points to"""
        r = []
        for a, V in zip(term[4], SummHooks.args(s, ai, st, fn, fid, term)):
            if V is None and a[0] != 'k':
                dl, weak = ai.resolve(st, fn, fid, a[1])
                if dl and len(dl) == 1:
                    b, pa = dl[0]
                    o = {k[len(pa):]: x for k, x in st.mem.get(b, {}).items() if k[:len(pa)] == pa and x is not None}
                    if o: V = ('rec', tuple(sorted(o.items(), key=str)))
            elif V is not None and isinstance(V, frozenset) and len(V) == 1:
                x = next(iter(V))
                if isinstance(x, tuple) and x[0] == '&' and x[1][0] == 'L':
                    o = {k[len(x[2]):]: y for k, y in st.mem.get(x[1], {}).items() if k[:len(x[2])] == x[2] and y is not None}
                    V = ('to', V, tuple(sorted(o.items(), key=str)[:8]))
            r.append(V)
        return tuple(r)

    def on_bin(s, ai, op, a, b, w, sg):
        if op in ('Sub', 'SubUnchecked'):
            x, y = po_parts(a), po_parts(b)
            if x and y and (x[0] in POS or y[0] in POS) and x[0] != y[0] and isinstance(x[1], int) and isinstance(y[1], int):
                d = ('pd', x[0], y[0])
                return lin_add(d, x[1] - y[1])
            if x and y and x[0] == y[0] and y[1] == 0: return x[1]
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            x, y = po_parts(a), po_parts(b)
            # order of the named positions: a step is about a token of at least one byte
            if x and y and x[0] in POS and y[0] in POS and x[1] == 0 and y[1] == 0:
                r = ORDER.get((x[0], y[0]))
                if r is not None: return int(CMP[op](r, 0))
        return SummHooks.on_bin(s, ai, op, a, b, w, sg)

    def on_widen(s, ai, st, tag):
        """what a handler called in the loop may have changed has one (unknown) value afterwards"""
        for pa in API:
            t = pa + ('#',) if pa in (('m_parsingStatus', 'parsing'), ('m_errorCode',)) else pa
            d = st.mem.get(PB, {})
            if t in d and d[t] is None or pa in d and d[pa] is None:
                y = ('sym', ('after', pa[-1], tag))
                st.eqs.pop(y, None); st.neq.pop(y, None)
                st.forget(PB, pa)
                for k in list(st.mem.get(PB, {})):
                    if k[:len(pa)] == pa: st._d(PB).pop(k)
                st._d(PB)[t] = frozenset((y,))

    def snap(s, ai, st):
        return tuple(st.read(PB, (f,)) for f in ('m_eventPtr', 'm_eventEndPtr'))

    def on_indirect(s, ai, st, fn, V, term, fid):
        if V is not None and V and all(isinstance(a, tuple) and a[0] == 'fn' for a in V): return None
        h = None
        if V is not None and len(V) == 1: h = handler_name(next(iter(V)))
        s.ev(st, ('H', h or '?', s.args(ai, st, fn, fid, term), s.snap(ai, st)))
        s.api_havoc(ai, st, ('hi', fn.id, term[1]))
        t = s.p.tk(s.p.place_ty(fn, term[5])) if term[5] else None
        if h == 'm_externalEntityRefHandler':
            # the application may read the entity with a parser that shares the declarations
            for f in ('paramEntityRead', 'keepProcessing', 'hasParamEntityRefs'):
                pa = ('value', f, 'value'); s.n += 1
                st.forget(DB, pa); st.kill_alias(DB, pa)
                st._d(DB)[pa] = frozenset((('sym', ('after', f, s.n)),))
        if h and t and t[0] in ('int', 'uint') and ('choice', 'iret:' + h, 0) not in st.eqs:
            x = st.copy()
            x.eqs[('choice', 'iret:' + h, 0)] = False; st.eqs[('choice', 'iret:' + h, 0)] = True
            return [(x, frozenset((0,))), (st, frozenset((1,)))]
        return [(st, frozenset((('sym', ('iret', h, term[1])),)))]

    def api_havoc(s, ai, st, site):
        for pa in API:
            s.n += 1
            st.forget(PB, pa); st.kill_alias(PB, pa)
            for k in list(st.mem.get(PB, {})):
                if k[:len(pa)] == pa: st._d(PB).pop(k)
            if pa == (H,): set_handlers(st, s.slots, None, s.n)
            else:
                t = pa + ('#',) if pa in (('m_parsingStatus', 'parsing'), ('m_errorCode',)) else pa
                st._d(PB)[t] = frozenset((('sym', ('after', pa[-1], s.n)),))


def set_handlers(st, slots, cfg, n=0):
    """cfg: {slot: set?} or None (unknown)"""
    for hn in slots:
        k = ('hnd', hn, n)
        st._d(PB)[(H, hn)] = frozenset((('sym', k),))
        d = ('sym', ('fld', k, ('#',)))
        st.eqs.pop(d, None); st.neq.pop(d, None)
        if cfg is not None: st.eqs[d] = 1 if cfg.get(hn) else 0


def loop_heads_of(p, fn, names):
    """heads of the loops around a call of one of the functions"""
    succ = {i: [] for i in range(len(fn.blocks))}
    calls = []
    for i, (st, t) in enumerate(fn.blocks):
        succ[i] = [x for x in fn.succs(i)] if hasattr(fn, 'succs') else term_succs(t)
        if t[0] == 'call' and isinstance(t[2], int) and p.fns[t[2]].short in names: calls.append(i)
    pred = {i: [] for i in succ}
    for u, vs in succ.items():
        for v in vs: pred[v].append(u)
    out = set()
    for h in fn.loop_heads:
        reach = {0} if h != 0 else set()
        w = list(reach)
        while w:
            x = w.pop()
            for v in succ[x]:
                if v != h and v not in reach: reach.add(v); w.append(v)
        body = {h}; w = [u for u in pred[h] if u not in reach]
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w += pred[x]
        if any(c in body for c in calls): out.add((fn.id, h))
    return out


CONV = ('utf8Convert', 'utf16Convert', 'xmlConvert')


def converting(p):
    if not hasattr(p, '_converting'):
        p._converting = [g for g in p.fns if g.blocks is not None and g.local and g.loop_heads and
                         any(t[0] == 'call' and isinstance(t[2], int) and p.fns[t[2]].short in CONV for _, t in g.blocks)]
    return p._converting


def step(p, fn, hooks, setup, budget=400000):
    ai = AI(p, hooks, budget=budget)
    ai.paths = 'widen'
    # the loop around the scanner is cut at its second call, the loops around a conversion end by the model
    ai.nowiden = loop_heads_of(p, fn, hooks.loops)
    for g in converting(p): ai.nowiden |= loop_heads_of(p, g, CONV)
    r = ai.run(fn, setup)
    return [Path(st, fid, ai, fn) for st, fid in r], ai


class Mods:
    """names of the fields of the parser a function may write, transitively (calls resolved; handlers excluded)"""
    def __init__(s, p):
        s.p = p; s.pt = p.find_adt('XML_ParserStruct')
        s.own = {}; s.callees = {}; s.memo = {}

    def field(s, fn, place):
        t = fn.locals[place[0]]; var = None
        for e in place[1:]:
            if e == '*': t = s.p.pointee(t); var = None
            elif e[0] == 'f':
                if t == s.pt: return s.p.tk(t)[4][0][2][e[1]][0]
                t = e[2]; var = None
            elif e[0] == 'd': var = e[1]
            elif e[0] in ('i', 'ci'): t = s.p.tk(t)[1] if s.p.tk(t)[0] in ('array', 'slice') else None
            if t is None: return None
        return None

    def direct(s, fn):
        if fn.id in s.own: return
        w = set(); cs = set()
        for st, t in fn.blocks:
            for x in st:
                if x[0] in ('=', 'sd'):
                    f = s.field(fn, x[2])
                    if f: w.add(f)
                    if x[0] == '=' and x[3][0] in ('ref', 'addr'):
                        dt = s.p.place_ty(fn, x[2]); k = s.p.tk(dt) if dt is not None else None
                        if k and k[0] in ('ref', 'ptr') and k[2]:
                            f = s.field(fn, x[3][1])
                            if f: w.add(f)
            if t[0] == 'call':
                if t[5]:
                    f = s.field(fn, t[5])
                    if f: w.add(f)
                if isinstance(t[2], int):
                    c = s.p.fns[t[2]]
                    if c.blocks is not None: cs.add(c.id)
                    elif c.kind == 'virtual': cs |= {g.id for g in s.p.by_short.get(c.short, ()) if g.blocks is not None and g.local}
        s.own[fn.id] = w; s.callees[fn.id] = cs

    def of(s, fn):
        if fn.id in s.memo: return s.memo[fn.id]
        seen = set(); w = [fn.id]; r = set()
        while w:
            i = w.pop()
            if i in seen: continue
            seen.add(i)
            f = s.p.fns[i]
            if f.blocks is None: continue
            s.direct(f); r |= s.own[i]; w += s.callees[i]
        s.memo[fn.id] = r
        return r


def handler_slots(p):
    """fields of the handler record that hold a function of the application"""
    for i, t in enumerate(p.types):
        k = t[0]
        if k[0] == 'adt' and k[1].endswith('CXmlHandlers'):
            return [f[0] for f in k[4][0][2] if f[0].endswith('Handler')]
    return []
