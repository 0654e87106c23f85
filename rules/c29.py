"""What an XML or text declaration does."""
import xmldecl

ASSUMPTIONS = ['what a declaration says is what the declaration scanner reports', 'the pool of temporary strings behaves as documented']


def check(ctx):
    ctx.rule('In every situation (what the declaration says, encoding given from outside, width of the encoding in use, handlers, reading of parameter entities), all paths of the processing of a declaration '
             'have exactly the reports, the standalone state, the encoding afterwards, the result and the place of the error that are specified.')
    ctx.rule('The search for an encoding that is not known: on all paths the handler is asked once, an answer that cannot be used is given back to its release function, an answer that can be used is taken into use and kept. '
             'Before the first byte the detector is set up for the encoding given, and an encoding given that is not known is searched for.')
    p = ctx.prog('lib', ())
    xmldecl.check(ctx, p)
    xmldecl.ask(ctx, p)
    xmldecl.begin(ctx, p)
