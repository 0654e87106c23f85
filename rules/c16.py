"""What is reported and recorded for every part of every declaration."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import stepcheck

ASSUMPTIONS = stepcheck.ASSUMPTIONS + ['the role of a token in a declaration is that of the grammar (separate property)']
ALL = lambda name, what: True


def check(ctx):
    ctx.rule('For every token the prolog can get and every role it can have in a declaration, and every scenario (encoding converted or not, one or two bytes per character, '
             'document or internal entity), all paths of one step of the prolog loop are enumerated under every condition on the handlers set, the declaration so far, '
             'the table entries found and the result of each allocation; each path must make the handler calls, record the declaration data, return the result and leave the position that '
             'spec/decl_spec.py gives; every outcome of the specification must be reached.')
    n = stepcheck.run_decls(ctx, ALL)
    v = stepcheck.run_values(ctx, ('entval',), ALL)
    ctx.floor('declaration paths', n, 3500); ctx.floor('entity value paths', v, 60)
