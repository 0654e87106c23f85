"""No borrow of the parser's own data is held while the application's code runs."""
from mir import *

ASSUMPTIONS = ['the conversion function of an unknown encoding is no handler: it does not use the parser', 'run-time borrow flags exist only in core::cell (RefCell); everything else the parser shares is reached through raw pointers']
GUARDS = ('BorrowRef', 'BorrowRefMut')


def guards(p, t, memo):
    """how many run-time borrows a value of the type can hold (2 stands for more than one)"""
    if t in memo: return memo[t]
    memo[t] = 0
    k = p.tk(t); n = 0
    if k[0] == 'adt':
        if k[1].split('::')[-1] in GUARDS and 'cell' in k[1]: n = 1
        else: n = max([sum(guards(p, f[1], memo) for f in v[2]) for v in k[4]] or [0])
    elif k[0] == 'tuple':
        n = sum(guards(p, x, memo) for x in (k[1] if isinstance(k[1], (list, tuple)) else k[1:]) if isinstance(x, int))
    elif k[0] == 'closure':
        n = sum(guards(p, x, memo) for x in closure_fields(p, k) if isinstance(x, int))
    elif k[0] == 'array': n = 2 * guards(p, k[1], memo)
    memo[t] = min(n, 2)
    return memo[t]


def closure_fields(p, k):
    r = []
    for x in k[3:]:
        if isinstance(x, (list, tuple)): r += [y for y in x if isinstance(y, int)]
    return r


def callees(p, f, b):
    """functions the end of a block may enter; None: code of the application"""
    t = f.blocks[b][1]
    if t[0] == 'drop': return [p.fns[t[5]]] if len(t) > 5 and isinstance(t[5], int) else []
    if t[0] != 'call': return []
    if not isinstance(t[2], int): return [None]
    c = p.fns[t[2]]
    if c.kind != 'virtual': return [c]
    if c.short in ('call_mut', 'call', 'call_once'):
        return [g for g in p.fns if g.blocks is not None and g.local and '{closure#' in g.short]
    return [g for g in p.by_short.get(c.short, ()) if g.blocks is not None and g.kind != 'virtual']


def reaching(p, fns):
    """functions from which the application's code may be entered"""
    up = {}; hit = set()
    for f in fns:
        for b in f.rpo:
            for c in callees(p, f, b):
                if c is None:
                    if 'xmltok' not in f.defn: hit.add(f.id)
                else: up.setdefault(c.id, set()).add(f.id)
    todo = list(hit)
    while todo:
        for i in up.get(todo.pop(), ()):
            if i not in hit: hit.add(i); todo.append(i)
    return hit


class Origin:
    """which part of the parser or its declarations a reference leads to, by the fields passed on the way"""
    def __init__(s, p, fns):
        s.p = p; s.callers = {}; s.made = {}
        for f in fns:
            for b in f.rpo:
                stmts, t = f.blocks[b]
                for x in stmts:
                    if x[0] == '=' and x[3][0] == 'agg' and p.tk(p.place_ty(f, x[2]))[0] == 'closure': s.made.setdefault(p.place_ty(f, x[2]), []).append((f, x[3][2]))
                if t[0] == 'call' and isinstance(t[2], int): s.callers.setdefault(t[2], []).append((f, t[4]))
        s.defs = {}

    def of(s, f, l):
        d = s.defs.get(f.id)
        if d is None:
            d = s.defs[f.id] = {}
            for b in f.rpo:
                stmts, t = f.blocks[b]
                for x in stmts:
                    if x[0] == '=' and len(x[2]) == 1: d.setdefault(x[2][0], []).append(x[3])
                if t[0] == 'call' and len(t[5]) == 1: d.setdefault(t[5][0], []).append(('call', t))
        return d.get(l, [])

    def operand(s, f, op, seen=()):
        return s.place(f, op[1], seen) if op[0] in ('c', 'm') else {'?'}

    def place(s, f, pl, seen=()):
        p = s.p
        name = None; env = None
        for k in range(1, len(pl)):
            e = pl[k]
            if isinstance(e, list) and e[0] == 'f':
                kk = p.tk(p.place_ty(f, pl[:k]))
                if kk[0] == 'adt' and kk[1].startswith('rexpat') and 'string_pool' not in kk[1] and 'Rental' not in kk[1]: name = p.field_name(p.place_ty(f, pl[:k]), e[1])
                if kk[0] == 'closure' and env is None: env = (p.place_ty(f, pl[:k]), e[1])
        if name is not None and not name.isdigit(): return {name}
        key = (f.id, pl[0], env)
        if key in seen or len(seen) > 12: return {'?'}
        seen = seen + (key,)
        if env is not None:
            r = set()
            for g, ops in s.made.get(env[0], ()):
                if env[1] < len(ops): r |= s.operand(g, ops[env[1]], seen)
            return r or {'?'}
        l = pl[0]
        if 1 <= l <= f.argc:
            r = set()
            for g, ops in s.callers.get(f.id, ()):
                if l - 1 < len(ops): r |= s.operand(g, ops[l - 1], seen)
            return r or {'?'}
        r = set()
        for rv in s.of(f, l):
            if rv[0] == 'call':
                r |= s.operand(f, rv[1][4][0], seen) if rv[1][4] else {'?'}
            elif rv[0] in ('ref', 'addr'): r |= s.place(f, rv[1], seen)
            elif rv[0] == 'use': r |= s.operand(f, rv[1], seen)
            elif rv[0] == 'cast':
                for o in rv[1:]:
                    if isinstance(o, list) and o and o[0] in ('c', 'm'): r |= s.operand(f, o, seen)
            elif rv[0] == 'agg':
                for o in rv[2]: r |= s.operand(f, o, seen)
            else: r.add('?')
        return r or {'?'}


def held(p, f, G, origin):
    """block -> locals that may hold a borrow at its end before the terminator acts, and what they borrow"""
    L = {i for i, t in enumerate(f.locals) if G(t)}
    if not L: return {}
    at = {0: {i: frozenset(('?',)) for i in L if 1 <= i <= f.argc}}
    out = {}
    todo = [0]

    def moved(op, S):
        """the operand is taken out of its place"""
        if op[0] in ('c', 'm') and op[1][0] in L and G(p.op_ty(f, op)):
            i = op[1][0]
            was = S.get(i)
            if op[0] == 'm' and (len(op[1]) == 1 or G(f.locals[i]) == 1): S.pop(i, None)
            return was or frozenset()
        return frozenset()

    while todo:
        b = todo.pop()
        S = dict(at[b])
        stmts, t = f.blocks[b]
        for x in stmts:
            if x[0] == 'dead': S.pop(x[2], None)
            elif x[0] == '=':
                rv = x[3]; got = frozenset()
                ops = [rv[1]] if rv[0] == 'use' else rv[2] if rv[0] == 'agg' else [o for o in rv[1:] if isinstance(o, list) and o and o[0] in ('c', 'm')] if rv[0] == 'cast' else []
                for o in ops: got |= moved(o, S)
                if x[2][0] in L:
                    if got: S[x[2][0]] = S.get(x[2][0], frozenset()) | got if len(x[2]) > 1 else got
                    elif len(x[2]) == 1: S.pop(x[2][0], None)
        out[b] = dict(S)
        if t[0] == 'drop' and len(t[2]) == 1: S.pop(t[2][0], None)
        if t[0] == 'call':
            got = frozenset()
            for o in t[4]: got |= moved(o, S)
            if t[5][0] in L and '*' not in t[5][1:] and G(p.place_ty(f, t[5])):
                S[t[5][0]] = got or frozenset(origin.operand(f, t[4][0]) if t[4] else {'?'})
        for n in f.succs(b):
            o = at.get(n)
            m = dict(o or {})
            for i, v in S.items(): m[i] = m.get(i, frozenset()) | v
            if o is None or m != o: at[n] = m; todo.append(n)
    return out


# the parser's own scratch space: nothing a handler may call on the parser touches it (checked below)
SCRATCH = {'m_tempPool', 'm_temp2Pool'}
# not to be called for the parser whose handler is running
FORBIDDEN = {'XML_Parse', 'XML_ParseBuffer', 'XML_GetBuffer', 'XML_ResumeParser', 'XML_ParserFree', 'XML_ParserReset'}


def in_pool(f): return 'string_pool' in f.name.split('::<')[0].split('{closure')[0] or 'string_pool' in f.defn


def borrows(p, f, org):
    """(line, what is borrowed) for the places of a function that borrow something"""
    for b in f.rpo:
        t = f.blocks[b][1]
        if t[0] != 'call' or not isinstance(t[2], int) or not t[4]: continue
        c = p.fns[t[2]]
        if in_pool(c) and c.local and not in_pool(f) and 'StringPool' in c.name and p.tk(p.op_ty(f, t[4][0]))[0] in ('ref', 'ptr'): yield t, org.operand(f, t[4][0])
        elif c.short in ('borrow', 'borrow_mut', 'try_borrow', 'try_borrow_mut', 'replace', 'replace_with', 'swap', 'take') and 'RefCell' in c.name and not in_pool(f): yield t, org.operand(f, t[4][0])


def check(ctx):
    ctx.rule('In every function of the program (library and the standard library code it uses, monomorphic), the values that may hold a run-time borrow (a RefCell guard, alone or inside another value, '
             'moved or returned) are followed from where they arise to where they are dropped, and what they borrow by the fields that lead to it; at a call or drop from which a handler '
             'can be called, directly or through any chain of calls, closures and trait objects, no borrow may be held of anything that a function a handler may call on the parser borrows. The functions of the '
             'string pools count as holding their pool while the closure they are given runs. No guard is leaked (forget, leak).')
    confs = [(), ('unicode',), ('mozilla',)] if ctx.thorough else [()]
    for feats in confs:
        tag = ':' + feats[0] if feats else ''
        p = ctx.prog('lib', feats)
        fns = [f for f in p.fns if f.blocks is not None]
        hit = reaching(p, fns)
        memo = {}
        G = lambda t: guards(p, t, memo)
        org = Origin(p, fns)
        ng = nc = nh = np = 0
        for f in fns:
            if f.local: ctx.seen(f)
            if not in_pool(f):
                for t, who in borrows(p, f, org):
                    np += 1
                    if not in_pool(p.fns[t[2]]): continue
                    c = p.fns[t[2]]
                    if c.id in hit:
                        ctx.ob(who <= SCRATCH, 'pool:%s:%s%s' % (f.short, '+'.join(sorted(who)), tag), f.where(),
                               'line %s: %s runs a closure that can call a handler while %s is borrowed, which a function called by the handler may need' % (t[1], c.short, ', '.join(sorted(who))))
            H = held(p, f, G, org)
            if H: ng += 1
            if in_pool(f): continue
            for b in f.rpo:
                t = f.blocks[b][1]
                cs = callees(p, f, b)
                app = [c for c in cs if c is None or c.id in hit]
                if app and f.local: nc += 1
                if t[0] == 'call' and isinstance(t[2], int) and p.fns[t[2]].short in ('forget', 'leak') and any(o[0] in ('c', 'm') and G(p.op_ty(f, o)) for o in t[4]):
                    ctx.ob(False, 'leak:%s%s' % (f.short, tag), f.where(), 'a run-time borrow is made permanent'); continue
                if b not in H: continue
                S = dict(H[b])
                if t[0] == 'drop': S.pop(t[2][0], None)
                if t[0] == 'call':
                    for o in t[4]:
                        if o[0] == 'm' and len(o[1]) == 1: S.pop(o[1][0], None)
                if not S: continue
                nh += 1
                who = set().union(*S.values()) - SCRATCH
                c = next((c.short if c else 'a handler' for c in app), '')
                ctx.ob(not (who and app), 'held:%s:%s:%s%s' % (f.short, '+'.join(sorted(who)), c, tag), f.where(),
                       'line %s: the borrow of %s taken in this function is still held when %s is called, which can call a handler' % (t[1], ', '.join(sorted(who)), c))
        ctx.floor('functions with borrows' + tag, ng, 20)
        ctx.floor('calls that can reach a handler' + tag, nc, 60)
        ctx.floor('places with a borrow held' + tag, nh, 30)
        ctx.floor('borrows' + tag, np, 60)
        # the functions a handler may call do not need the scratch space of the parser
        api = [f for f in fns if f.local and f.kind == 'item' and f.sym == f.short and f.short.startswith('XML_') and f.short not in FORBIDDEN]
        for f in api:
            inner = [g for g in reach(p, f) if not in_pool(g)]
            for g in inner:
                for t, who in borrows(p, g, org):
                    if g is f or len(inner) < 200:
                        ctx.ob(not who & SCRATCH, 'scratch:%s%s' % (f.short, tag), g.where(), 'line %s: a handler that calls %s needs %s, which may be in use while it runs' % (t[1], f.short, ', '.join(sorted(who & SCRATCH))))
        ctx.floor('functions a handler may call' + tag, len(api), 50)


def reach(p, f):
    seen = {}; todo = [f]
    while todo:
        g = todo.pop()
        if g.id in seen or g.blocks is None: continue
        seen[g.id] = g
        if in_pool(g): continue
        for b in g.rpo: todo += [c for c in callees(p, g, b) if c is not None]
    return list(seen.values())
