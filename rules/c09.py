"""Where the parser says it is."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import inputs, stepcheck, tokpos
from mir import *
from absint import Budget
import rules.c06 as c06, rules.c12 as c12

ASSUMPTIONS = c06.ASSUMPTIONS + stepcheck.ASSUMPTIONS + ['what is counted begins and ends at character boundaries']


def aspect(name, what):
    if name == 'exit': return what in ('ev', 'end')
    return what == 'at'


def check(ctx):
    sys.setrecursionlimit(100000)
    ctx.rule('(1) Counting: the line and column counter of every encoding is executed abstractly on inputs of unknown characters and length beside a machine that counts; at every return both agree. '
             '(2) Bookkeeping: on all paths of the parse calls the byte total, the end of the piece and the place lines are counted up to are the linear expressions demanded. '
             '(3) Queries: on all paths of the query functions the result is the linear expression of the event demanded and lines are counted exactly from where they were counted to up to the event. '
             '(4) Events: at every callback on every path of the token loops the event range is that of the token.')
    p = ctx.prog('lib', ())
    E = inputs.InEng(p)
    r = inputs.check_feed(E, 'pos') + inputs.check_getbuffer(E, 'pos') + inputs.check_queries(E)
    c06.report(ctx, E, r)
    ctx.floor('paths', E.npaths, 120); ctx.floor('obligations on positions', len(r), 1200)
    n = 0; done = {}
    for f in p.fns:
        if f.short != 'updatePosition' or f.blocks is None or not f.local or 'dyn ' in f.name: continue
        sig, prim, fns = c12.closure(p, f)
        if not any(c.short == 'byte_type' for c in prim):
            ctx.ob(False, 'count:%s' % f.name.split('::')[-2], f.where(), 'this counter does not look at the characters'); continue
        u = c12.unit(p, prim)
        name = f.name.split('::updatePosition')[0].split('::')[-1].strip('>')
        if not ctx.ob(u in (1, 2), 'unit:%s' % name, f.where(), 'undecided: code unit size %s' % u): continue
        ctx.seen(*fns); n += 1
        for par in ((0, 1) if u == 2 else (0,)):
            k = (sig, u, par)
            if k not in done:
                try: done[k] = tokpos.count(p, f, u, par).viols
                except Budget as e: done[k] = {'undecided': 'not decided: %s' % e}
            v = done[k]
            ctx.ob(not v, 'count:%s:%d' % (name, par), f.where(), '; '.join('%s: %s' % x for x in sorted(v.items())))
    ctx.floor('counters', n, 9)
    deep = ctx.thorough
    simple = (lambda k, tok, sc: True) if deep else (lambda k, tok, sc: not (sc.get('conv') and sc.get('mbpc', 1) == 1))
    t = stepcheck.run(ctx, ('content', 'cdata', 'ignore', 'epilog'), aspect, pick=simple)
    ctx.floor('token paths', t, 900)
    d = stepcheck.run_decls(ctx, aspect, deep=deep, pick=lambda role, tok, sc: deep or (sc['mbpc'] == 1 and not sc['conv']))
    ctx.floor('declaration paths', d, 2000)
