"""The prolog / DTD grammar machine, extracted from the code and compared with the grammar."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
from mir import *
from absint import *
from roles import RoleMachine
import prolog_spec

ASSUMPTIONS = ['group nesting is explored to depth 3 and conditional-section nesting to depth 2; the code '
               'compares those counters only with 0 and 1, so deeper levels behave like the deepest explored one']


def check(ctx):
    ctx.rule('The token -> (role, next state) machine of the DTD state handlers is extracted by abstract interpretation of every '
             'handler function reachable from the two initial states, for every token and every keyword the handlers compare with, and '
             'must be simulated step by step by the grammar table in spec/prolog_spec.py: same role, matching next state, '
             'keywords compared at the right place of the token, errors for everything the grammar does not allow, no panic.')
    p = ctx.prog('lib')
    m = RoleMachine(p)
    T = prolog_spec.load()
    ML, MD = (5, 4) if ctx.thorough else (3, 2)
    allkw = sorted({k for d in T.values() for _, k in d if k})
    names = m.names
    iL, iR, iI = names.index('level'), names.index('role_none'), names.index('includeLevel')
    iV = names.index('inEntityValue') if 'inEntityValue' in names else None
    SY = lambda n: ('sym', ('st', n))
    def erase(spec, c):
        """forget the variables the grammar says are dead in this state (falls back to the exact
        values when the code turns out to depend on them)"""
        c = list(c)
        if not spec[0].startswith('element.'): c[iL] = SY('level')
        if not spec[0].startswith('close.'): c[iR] = SY('role_none')
        if spec[1]: c[iI] = SY('includeLevel')
        if iV is not None: c[iV] = SY('iev')
        return tuple(c)
    nstates = 0; ntrans = 0
    for root, sp0 in (('XmlPrologStateInit', ('start', 1, 0, 0)), ('XmlPrologStateInitExternalEntity', ('extstart', 0, 0, 0))):
        c0 = m.initial(root)
        ctx.seen(root)
        todo = [(sp0, c0, c0)]
        done = set()
        while todo:
            sp, ex, _ = todo.pop()
            er = erase(sp, ex)
            if (sp, er) in done: continue
            done.add((sp, er)); nstates += 1
            where = p.fns[er[0][1]].short if isinstance(er[0], tuple) and isinstance(er[0][1], int) else str(er[0])
            for tok in m.tok:
                outs = None
                for c in (er, ex):
                    o, tested = m.outcomes(c, tok)
                    if not any(b for _, _, b in o.values()) and all(n is not None for _, n, _ in o.values()):
                        outs = (c, o, tested); break
                    last = (c, o, tested)
                if outs is None: outs = last
                c, o, tested = outs
                for kw, off in tested:
                    ctx.ob(off == prolog_spec.OFFSET.get(tok), 'keyword-offset:%s:%s:%s' % (sp[0], tok, kw), where,
                           'keyword %s is compared at offset %s of a %s token' % (kw, off, tok))
                kws = {None} | set(o) | {k for (t, k) in T.get(sp[0], {}) if t == tok}
                for kw in sorted(kws, key=str):
                    role, nx, bad = o.get(kw, o[None])
                    e = prolog_spec.expect(T, sp, tok, kw)
                    if e is None: continue
                    ntrans += 1
                    key = '%s:%s%s' % (sp[0], tok, ':' + kw if kw else '')
                    if bad or nx is None:
                        ctx.ob(False, 'transition:' + key, where, 'in state %s on token %s%s the handler does not produce one role and state: %s' % (sp[0], tok, ' ' + kw if kw else '', bad))
                        continue
                    ctx.ob(role == e[0], 'role:' + key, where,
                           'in state %s (%s) token %s%s is reported as %s, the grammar requires %s' % (sp[0], 'document' if sp[1] else 'external', tok, ' ' + kw if kw else '', role, e[0]))
                    if role != e[0]: continue
                    ns = e[1]
                    if ns[0] == 'error':
                        ns = ('error', sp[1], 0, 0)
                    if ns[2] > ML or ns[3] > MD: continue
                    # documentEntity must survive
                    nd = nx[names.index('documentEntity')]
                    ctx.ob(nd == c[names.index('documentEntity')], 'document-flag:' + key, where, 'the document/external flag changes')
                    todo.append((ns, nx, None))
            if len(ctx.violations) > 60: return
    ctx.seen(*m.fns)
    ctx.floor('prolog states', nstates, 120)
    ctx.floor('prolog transitions', ntrans, 5000)
