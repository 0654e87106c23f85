"""How the encoding of a document is found out."""
try: import numpy
except ImportError:
    import os, sys
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)
import detect

ASSUMPTIONS = ['the scanners of the encodings themselves are those of other properties', 'an encoding is told by its type (the types are those whose decoding is decided by another property)']


def check(ctx):
    ctx.rule('The detector is evaluated exactly over all values of the first three bytes, for pieces of 0, 1, 2, 3, 4 and many bytes, every encoding given from outside (none and the six known ones) and both kinds of entity: '
             'the encoding chosen, the token and the bytes taken must be those of the table of outcomes in lib/detect.py.')
    ctx.rule('The names of encodings: on all paths the name is compared with the six known names, in any order, and the number of the one that is equal is given; the comparison is evaluated exactly over all strings.')
    ctx.rule('The tables of encodings hold the types in the order of the numbers, all with or all without namespaces.')
    p = ctx.prog('lib', ())
    detect.detect(ctx, p)
    detect.names(ctx, p)
    detect.tables(ctx, p)
