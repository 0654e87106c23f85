"""Stopping and suspending from a callback, and resuming."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import stepcheck

ASSUMPTIONS = stepcheck.ASSUMPTIONS


def aspect(name, what):
    if name == 'exit': return what != 'nomem'
    if what == 'present': return True
    return what == 'args' and ('Processor' in name or name.startswith('do') or name in ('xmlTok', 'processInternalEntity'))


def check(ctx):
    ctx.rule('Every callback of a token may leave the parser going, suspended or stopped.  For every token and scenario, all paths of one step of the content, CDATA-section, '
             'ignored-section, epilog and prolog loops, and all paths of the functions that start, continue and end them (text declarations, internal entities, '
             'nested ones), must react as the specification says: the result, the position to continue from, the function to continue with, '
             'the stack of open entities and elements, and no further construct reported.')
    n = stepcheck.run(ctx, ('content', 'cdata', 'ignore', 'epilog'), aspect)
    g = stepcheck.run_glue(ctx, None, aspect)
    d = stepcheck.run_decls(ctx, aspect, deep=False, pick=lambda role, tok, sc: sc['mbpc'] == 1 and not sc['conv'])
    ctx.floor('declaration paths', d, 2000)
    ctx.floor('paths', n, 2500); ctx.floor('entry function paths', g, 150)
