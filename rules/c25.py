"""What references to characters stand for: numbers of any length, the five predefined names, and where they are used."""
import c12, c13, refs, stepcheck
from par import par
from absint import Budget

ASSUMPTIONS = ['a character is classified by the encoding primitives as its code point demands (separate property)', 'a reference reaches these functions only as the tokeniser lets it through (separate property)'] + stepcheck.ASSUMPTIONS
TOKENS = ('CHAR_REF', 'ENTITY_REF')


def functions(ctx, p, short):
    """the implementations of an encoding's function: {(unit, what it is made of): [function]}"""
    groups = {}; n = 0
    for f in p.fns:
        if f.short != short or f.blocks is None or not f.local or f.argc != 2 or 'dyn ' in f.name.split(' as ')[0]: continue
        sig, prim, fns = c12.closure(p, f)
        if not any(c.short in ('byte_to_ascii', 'char_matches') for c in prim): continue
        u = c12.unit(p, prim)
        if not ctx.ob(u in (1, 2), 'unit:%s' % f.name.split('::')[-2], f.where(), 'undecided: code unit size %s' % u): continue
        ctx.seen(*fns); n += 1
        groups.setdefault((u, sig), []).append(f)
    ctx.floor('instances of ' + short, n, 6)
    return [(f, u) for (u, sig), fs in groups.items() for f in (fs if ctx.thorough else fs[:1])]


def decide(ctx, what, f, go):
    try: ai = go(); v = dict(ai.viols); n = ai.nstates + ai.nret
    except Budget as e: v = {'undecided': 'not decided: %s' % e}; n = 1
    ctx.obligations += n; ctx.discharged += max(0, n - len(v))
    for k, m in v.items(): ctx.viol('%s:%s' % (what, k), f.where(), m)
    ctx.stats['states of %s %s' % (what, f.name[-50:])] = n


def check_functions(ctx, p):
    jobs = []
    for f, u in functions(ctx, p, 'charRefNumber'):
        jobs.append(lambda f=f, u=u: decide(ctx, 'number:%d' % u, f, lambda: refs.numbers(p, f, u)))
    for f, u in functions(ctx, p, 'predefinedEntityName'):
        for n in range(0, 25 if ctx.thorough else 9): jobs.append(lambda f=f, u=u, n=n: decide(ctx, 'name:%d:%d' % (u, n), f, lambda: refs.names(p, f, u, n)))
    jobs.append(lambda: c13.Checker(ctx, p).charref())
    par(ctx, jobs)


def check(ctx):
    ctx.rule('The functions that read the number of a character reference are explored for references of any length next to the definition: by induction over the digits the number is 10n+d or 16n+d at each step, '
             'is compared with 110000 before the next digit, gives -1 when it reaches it, and is handed to the test for XML characters at the end, which is evaluated for every number below 110000.')
    ctx.rule('The functions that recognise the predefined names give the right character for lt, gt, amp, quot and apos and nothing for every other name.')
    ctx.rule('In content, attribute values and entity values, all paths for a reference token pass the text of the reference to these functions, refuse the number -1, and report, append or store the character given.')
    p = ctx.prog('lib', ())
    check_functions(ctx, p)
    n = stepcheck.run(ctx, ('content',), lambda name, what: True, pick=lambda kind, tok, sc: tok in TOKENS)
    n += stepcheck.run_values(ctx, ('attval', 'entval'), lambda name, what: True, pick=lambda kind, tok, sc: tok in TOKENS) or 0
    ctx.floor('paths', n, 200)
