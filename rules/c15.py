"""What the content functions report for every token."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import stepcheck, c25

ASSUMPTIONS = stepcheck.ASSUMPTIONS


def check(ctx):
    ctx.rule('For every token the content, CDATA-section, ignored-section and epilog functions can get, and every scenario (encoding converted or not, one or two bytes per character, '
             'document or internal entity, last chunk or not, element depth), all paths of one step of the token loop are enumerated; each path must make the calls '
             'that the specification in spec/content_spec.py gives for the conditions of the path, with the text of the token as argument, and leave the result, '
             'position, element stack and next processing function it gives; every outcome of the specification must be reached by a path.')
    ctx.rule('The functions that read character references and predefined names are decided for references of any length (induction over the digits).')
    c25.check_functions(ctx, ctx.prog('lib', ()))
    n = stepcheck.run(ctx, ('content', 'cdata', 'ignore', 'epilog'), lambda name, what: True)
    ctx.floor('paths', n, 2500)
