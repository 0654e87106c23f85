"""Tokenisation: every scanning mode of every encoding against the lexical grammar."""
import multiprocessing, os
from mir import *
import tok
from tok_spec import Lex
from absint import Budget

ASSUMPTIONS = ['a character is classified by the encoding primitives (byte type, name tests, ASCII value) as its code point demands (separate property)',
               'ignored sections are nested at most three deep',
               'attribute and entity values handed to the value scanners end at character boundaries (they have been scanned before)']
MODES = [('content', 'contentTok'), ('prolog', 'prologTok'), ('cdata', 'cdataSectionTok'), ('attval', 'attributeValueTok'), ('entval', 'entityValueTok'), ('ignore', 'ignoreSectionTok')]
P = None


def closure(p, f):
    """definitions reachable from a scanner, without the encoding primitives"""
    seen = set(); todo = [f]; prim = set()
    while todo:
        g = todo.pop()
        if g.id in seen or g.blocks is None: continue
        seen.add(g.id)
        for b in g.rpo:
            t = g.blocks[b][1]
            if t[0] == 'call' and isinstance(t[2], int):
                c = p.fns[t[2]]
                if c.short in tok.METHODS or c.short in ('MINBPC', 'isUtf8', 'isUtf16'): prim.add(c)
                elif c.local: todo.append(c)
    return frozenset((p.fns[i].defn, p.fns[i].line, len(p.fns[i].blocks)) for i in seen if p.fns[i].local), prim, {p.fns[i] for i in seen if p.fns[i].local}


def unit(p, prim):
    v = set()
    for c in prim:
        if c.short != 'MINBPC': continue
        for r, _ in tok.AI(p).run(c):
            V = r.read(('L', 0, 0), ())
            v |= set(V) if V else {None}
    return next(iter(v)) if len(v) == 1 else None


def job(a):
    fid, mode, u, ns, par = a
    f = P.fns[fid]
    try:
        ai, r = tok.analyse(P, f, Lex(u, ns, mode), par, whole=mode in ('attval', 'entval'))
        return a, dict(ai.viols), len(r), ai.nstates, ai.steps
    except Budget as e:
        return a, {'undecided': 'not decided: %s' % e}, 0, 0, 0


def check(ctx):
    global P
    ctx.rule('Each scanner is executed abstractly on an input whose characters are unknown until it classifies them; a state machine of the XML 1.0 lexical grammar runs alongside. At every return '
             'the token and next position must be the ones the machine gives for every input consistent with the path, no byte beyond the input or inside a character is read, no panic is '
             'reachable. All encodings share one generic definition per scanner (checked), so one instance per code unit size and variant is analysed.')
    p = P = ctx.prog('lib', ())
    groups = {}
    for mode, name in MODES:
        fs = [f for f in p.fns if f.short == name and f.blocks is not None and f.local and f.argc == 3 and 'dyn ' not in f.name]
        n = 0
        for f in fs:
            sig, prim, fns = closure(p, f)
            if not any(c.short == 'byte_type' for c in prim): continue       # forwarding encodings (detection) have no scanner of their own
            u = unit(p, prim)
            if not ctx.ob(u in (1, 2), 'unit:%s' % f.name.split('::')[-2], f.where(), 'undecided: code unit size %s' % u): continue
            n += 1
            ctx.seen(*fns)
            groups.setdefault((mode, u, sig), []).append(f)
        ctx.floor('instances of ' + name, n, 7)
    jobs = []
    for (mode, u, sig), fs in groups.items():
        for f in (fs if ctx.thorough else fs[:1]):
            for ns in ((0, 1) if f is fs[0] else ((1,) if 'NS' in f.name else (0,))):
                for par in ((0, 1) if u == 2 else (0,)): jobs.append((f.id, mode, u, ns, par))
    jobs.sort(key=lambda j: ['content', 'prolog'].index(j[1]) if j[1] in ('content', 'prolog') else 9)
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as pool:
        res = pool.map(job, jobs, chunksize=1)
    tot = dict(returns=0, states=0, steps=0)
    for a, v, nr, ns_, st in res:
        f = p.fns[a[0]]
        tot['returns'] += nr; tot['states'] += ns_; tot['steps'] += st
        ctx.obligations += nr; ctx.discharged += max(0, nr - len(v))
        ctx.ob(nr > 0 or 'undecided' in v, 'returns:%s:%d' % (a[1], a[2]), f.where(), 'no outcome found')
        for k, m in v.items(): ctx.viol('%s:%d:%s' % (a[1], a[2], k), f.where(), m)
    ctx.stats.update(tot)
    ctx.stats['runs'] = len(res)
    ctx.floor('outcomes', tot['returns'], 1500)
