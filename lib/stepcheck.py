"""The contract runs of the token-driven functions as obligations of a rule."""
import sys
from runs import *
from par import par

ASSUMPTIONS = ['tokens and their ends are those of the scanner (separate property); a token covers at least one byte',
               'a callback may call the setters, XML_StopParser and XML_DefaultCurrent; it does not free or reset the parser',
               'the string pools, entity tables and tag records behave as their models in lib/contract.py (a finished string keeps its bytes until its pool is cleared)']


def run(ctx, kinds, aspect, deep=None, pick=lambda kind, tok, sc: True):
    sys.setrecursionlimit(100000)
    E = Eng(ctx.prog('lib', ()))
    deep = ctx.thorough if deep is None else deep
    jobs = {}
    for k in kinds:
        for tok, sc in grid(k, deep):
            if pick(k, tok, sc): jobs.setdefault((k, tok, sc.get('internal', 0)), []).append(sc)

    def job(k, tok, scs):
        for sc in scs: one(ctx, E, k, tok, sc, aspect)
        ctx.seen(*[f for f in E.p.fns if f.short in E.fns and f.local and f.blocks is not None])
        ctx.stats['paths of %s:%s:%d' % (k, tok, scs[0].get('internal', 0))] = E.npaths
    fs = [lambda k=k, t=t, x=x: job(k, t, x) for (k, t, i), x in sorted(jobs.items(), key=lambda j: -len(j[1]))]
    par(ctx, fs)
    n = sum(v for k, v in ctx.stats.items() if k.startswith('paths of'))
    for k in [k for k in ctx.stats if k.startswith('paths of')]: del ctx.stats[k]
    ctx.stats['token scenarios'] = ctx.stats.get('token scenarios', 0) + sum(map(len, jobs.values()))
    ctx.stats['token paths'] = ctx.stats.get('token paths', 0) + n
    return n


def run_glue(ctx, names, aspect):
    """the functions between the parse calls and the token loops"""
    import glue
    sys.setrecursionlimit(100000)
    E = glue.GEng(ctx.prog('lib', ()))
    names = list(glue.GLUE) if names is None else names

    def job(n):
        for sc in glue.GLUE[n][1]: glue.glue_one(ctx, E, n, sc, aspect)
        ctx.seen(*[f for f in E.p.fns if f.short in E.fns and f.local and f.blocks is not None])
        ctx.stats['glue paths of ' + n] = E.npaths
    par(ctx, [lambda n=n: job(n) for n in names])
    t = 0
    for n in names: t += ctx.stats.pop('glue paths of ' + n, 0)
    ctx.stats['entry function paths'] = ctx.stats.get('entry function paths', 0) + t
    return t


def run_values(ctx, kinds, aspect, pick=lambda kind, tok, sc: True):
    """the scanners of attribute values and entity values"""
    import values
    sys.setrecursionlimit(100000)
    E = values.VEng(ctx.prog('lib', ()))
    jobs = {}
    for k in kinds:
        for tok, sc in values.vgrid(k):
            if pick(k, tok, sc): jobs.setdefault((k, tok), []).append(sc)

    def job(k, tok, scs):
        for sc in scs: values.vone(ctx, E, k, tok, sc, aspect)
        ctx.seen(*[f for f in E.p.fns if f.short in E.fns and f.local and f.blocks is not None])
        ctx.stats['value paths of %s %s' % (k, tok)] = E.npaths
    par(ctx, [lambda k=k, t=t, x=x: job(k, t, x) for (k, t), x in sorted(jobs.items())])
    n = sum(ctx.stats.pop('value paths of %s %s' % j, 0) for j in jobs)
    ctx.stats['value scanner paths'] = ctx.stats.get('value scanner paths', 0) + n
    return n


def run_decls(ctx, aspect, deep=None, pick=lambda role, tok, sc: True):
    """the processing of the prolog and of declarations, one token in one role at a time"""
    import prolog
    sys.setrecursionlimit(100000)
    E = prolog.PEng(ctx.prog('lib', ()))
    jobs = {}
    for role, tok, sc in prolog.pgrid(ctx.thorough if deep is None else deep):
        if pick(role, tok, sc): jobs.setdefault((role, tok, sc['close'], sc['internal']), []).append(sc)

    def job(k, scs):
        for sc in scs: prolog.pone(ctx, E, k[0], k[1], sc, aspect)
        ctx.seen(*[f for f in E.p.fns if f.short in E.fns and f.local and f.blocks is not None])
        ctx.stats['declaration paths of %s' % (k,)] = E.npaths
    slow = ('DOCTYPE_CLOSE', 'DOCTYPE_SYSTEM_ID', 'PARAM_ENTITY_REF', 'INNER_PARAM_ENTITY_REF', 'GROUP_OPEN')
    par(ctx, [lambda k=k, x=x: job(k, x) for k, x in sorted(jobs.items(), key=lambda j: (j[0][0] not in slow, str(j[0])))])
    n = sum(ctx.stats.pop('declaration paths of %s' % (k,), 0) for k in jobs)
    ctx.stats['declaration scenarios'] = ctx.stats.get('declaration scenarios', 0) + sum(map(len, jobs.values()))
    ctx.stats['declaration paths'] = ctx.stats.get('declaration paths', 0) + n
    return n
