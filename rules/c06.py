"""The input is handed on completely and in order, however it is cut into calls."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
from mir import *
import inputs, stepcheck

ASSUMPTIONS = ['between calls, the input not yet consumed lies in the buffer from the recorded start to the recorded end (shown for every call, assumed at its start)',
               'the length given to XML_ParseBuffer is at most that asked for with XML_GetBuffer, as its contract demands',
               'a processing function leaves the position to continue from at a place inside the input it was given',
               'tokens and their ends are those of the scanner (separate property); a token covers at least one byte',
               'a growing vector gets exactly the capacity asked for']


def aspect(name, what):
    return name == 'exit' and what in ('ret', 'next', 'buf', 'sb')


def report(ctx, E, res):
    seen = {}
    for key, ok, msg in res:
        k = key
        if k in seen and (ok or not seen[k]): ctx.ob(True, '%s' % k, '', ''); continue
        seen[k] = ok
        f = key.split(':')[0]
        fn = next((g for g in E.p.fns if g.short == f and g.blocks is not None), None)
        ctx.ob(ok, k, fn.where() if fn else 'src/lib/xmlparse.rs', msg)
    ctx.seen(*[f for f in E.p.fns if f.short in E.fns and f.local and f.blocks is not None])


def check(ctx):
    sys.setrecursionlimit(100000)
    ctx.rule('All paths of XML_Parse, XML_ParseBuffer, XML_ResumeParser and XML_GetBuffer (with everything they call, up to the processing function) are enumerated on a buffer with symbolic '
             'start, end and size; the place of the unconsumed input is followed through every move, resize and store as a linear expression, and the range processed, the place given out '
             'and the recorded start and end are compared with it, by deciding linear implications from the conditions of the path. On all paths of one step of the token loops, and of the functions around them, '
             'the result and the position to continue from must be those of the specification.')
    E = inputs.InEng(ctx.prog('lib', ()))
    r = inputs.check_feed(E, 'bytes') + inputs.check_getbuffer(E, 'bytes')
    report(ctx, E, r)
    few = lambda k, tok, sc: ctx.thorough or not (sc.get('conv') and sc.get('mbpc', 1) == 1)
    t = stepcheck.run(ctx, ('content', 'cdata', 'ignore', 'epilog'), aspect, pick=few)
    g = stepcheck.run_glue(ctx, None, aspect)
    d = stepcheck.run_decls(ctx, aspect, deep=ctx.thorough, pick=lambda role, tok, sc: ctx.thorough or (sc['mbpc'] == 1 and not sc['conv']))
    ctx.floor('token paths', t, 900); ctx.floor('entry function paths', g, 150); ctx.floor('declaration paths', d, 2000)
    ctx.floor('paths', E.npaths, 120); ctx.floor('obligations on input ranges', len(r), 1500)
