"""References to entities: what is refused, what is processed, open and closed entities."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import stepcheck

ASSUMPTIONS = stepcheck.ASSUMPTIONS
ALL = lambda name, what: True


def check(ctx):
    ctx.rule('All paths through the handling of a reference to an entity in content, in an attribute value, in an entity value and between and within declarations, and through the functions that open, suspend, resume and '
             'close an internal entity, are enumerated for every combination of what is known about the entity and the document; '
             'the checks, the error, the calls and the open state of the entity at each call and at the end must be those of spec/content_spec.py, spec/value_spec.py, spec/decl_spec.py and spec/glue_spec.py.')
    n = stepcheck.run(ctx, ('content',), ALL, pick=lambda k, tok, sc: tok == 'ENTITY_REF')
    v = stepcheck.run_values(ctx, ('attval', 'entval'), ALL)
    g = stepcheck.run_glue(ctx, ('processInternalEntity', 'internalEntityProcessor', 'contentProcessor', 'externalEntityContentProcessor'), ALL)
    d = stepcheck.run_decls(ctx, ALL, pick=lambda role, tok, sc: role in ('PARAM_ENTITY_REF', 'INNER_PARAM_ENTITY_REF'))
    ctx.floor('reference paths in declarations', d, 100)
    ctx.floor('reference paths', n, 500); ctx.floor('value paths', v, 600); ctx.floor('entity paths', g, 30)
