"""Outcome of a parse call; stickiness and propagation of errors."""
from summ import *
from c02 import PA, PB, ST, ERR, errs, states, run, retval, writes, show

ASSUMPTIONS = ['the state change made by a handler during a call is one of the four documented states', 'no handler frees or resets the parser it is called from']


def check(ctx):
    ctx.rule('(a) For every entry point that processes input, all paths after the input processor returned are enumerated: a processor error gives an error '
             'result, is stored as the error code and installs the processor that repeats it; success gives suspended / ok by the state left by the handlers, and '
             'the state becomes finished exactly after the final buffer. (b) For every function that returns an error code, each callee that may return one is '
             'given an arbitrary non-zero code: on no path does the function then return success.')
    for feats in ([(), ('mozilla',)] if ctx.thorough else [()]):
        p = ctx.prog('lib', feats)
        sfx = ''.join(':' + f for f in feats)
        outcomes(ctx, p, sfx)
        propagation(ctx, p, sfx)


def outcomes(ctx, p, sfx):
    E, S = errs(p), states(p)
    SU, FI, PG = S['SUSPENDED'], S['FINISHED'], S['PARSING']
    ep = p.one('errorProcessor')
    NN = ('ip', 'buffer')
    cases = []
    for f in (0, 1):
        cases += [('XML_ParseBuffer', PG, (POSS, f), f, {}), ('XML_ParseBuffer', PG, (0, f), f, {})]
        cases += [('XML_Parse', PG, (NN, POSS, f), f, {})]
        cases += [('XML_ResumeParser', SU, (), f, {})]
    cases += [('XML_Parse', PG, (0, 0, 1), 1, {})]
    n = 0
    for name, s, args, final, extra in cases:
        fn, paths, h = run(p, name, s, args, extra)
        ctx.seen(fn)
        lab = '%s:%s:%s%s' % (name[4:], 'zero' if len(args) > 1 and args[-2] == 0 else 'data', 'final' if final else 'more', sfx)
        seen = set()
        for x in paths:
            k = [i for i, e in enumerate(x.ev) if e[0] == 'icall']
            if len(k) != 1: continue
            post = x.ev[k[0] + 1:]
            tag = [a for a in list(x.st.eqs) + list(x.st.neq) if isinstance(a, tuple) and a[0] == 'sym' and a[1][0] == 'ld' and a[1][1] == PB and a[1][2] == ST and a[1][3] and a[1][3][0] == 'hi']
            E0 = [a for a in list(x.st.eqs) + list(x.st.neq) if isinstance(a, tuple) and a[0] == 'sym' and a[1][0] == 'fld' and a[1][1][0] == 'iret' and a[1][2] == ('#',)]
            err = None
            for a in E0:
                if x.st.eqs.get(a) == 0: err = False
                elif 0 in x.st.neq.get(a, ()) or x.st.eqs.get(a): err = True
            status = None
            for a in set(tag):
                if a in x.st.eqs: status = x.st.eqs[a]
            notst = set()
            for a in set(tag): notst |= set(x.st.neq.get(a, ()))
            if status is None:
                left = set(S.values()) - notst
            else: left = {status}
            wr = {}
            for e in post:
                if e[0] == 'w': wr[e[2]] = e[3]
                elif e[0] == 'loop':
                    for y in e[1]:
                        if y[0] == 'w': wr[y[2]] = None
            fb = final
            if name == 'XML_ResumeParser':
                # the final-buffer flag as left behind
                fa = [a for a in list(x.st.eqs) + list(x.st.neq) if isinstance(a, tuple) and a[0] == 'sym' and a[1][0] == 'ld' and a[1][1] == PB and a[1][2] == ('m_parsingStatus', 'finalBuffer')]
                fb = None
                for a in fa:
                    if a in x.st.eqs: fb = x.st.eqs[a]
                    elif 0 in x.st.neq.get(a, ()): fb = 1
                if fb is not None and fb != final: continue
            n += 1
            r = retval(p, x)
            ec = wr.get(('m_errorCode',)) or wr.get(ERR)
            stored = ec is not None and len(ec) == 1 and mentions(next(iter(ec)), None) is False and 'iret' in str(next(iter(ec))) or (one_int(x.st.read(PB, ERR)) == 0 and err is False)
            if err is None:
                ctx.ob(False, 'undecided:' + lab, fn.where(), 'a path does not distinguish success from failure of the processor'); continue
            if err:
                seen.add('err')
                pr = x.st.read(PB, ('m_processor', 'v:Some', '0'))
                prd = x.st.read(PB, ('m_processor', '#'))
                ctx.ob(r == 0, 'err-ret:' + lab, fn.where(), 'after a processing error the call returns %s instead of the error status' % (r,))
                ctx.ob(stored and ('m_errorCode', '#') not in [e[2] for e in post if e[0] == 'w'], 'err-code:' + lab, fn.where(), 'the error found by the processor is not the stored error code')
                ctx.ob(pr == frozenset((('fn', ep.id),)) and one_int(prd) == 1, 'err-sticky:' + lab, fn.where(), 'after a processing error the next call does not repeat it')
                ctx.ob(ST not in wr, 'err-state:' + lab, fn.where(), 'a processing error changes the parsing state to %s' % (wr.get(ST),))
                continue
            ctx.ob(stored, 'ok-code:' + lab, fn.where(), 'success leaves an error code behind')
            ctx.ob(('m_processor', '#') not in wr and ('m_processor',) not in wr, 'ok-proc:' + lab, fn.where(), 'success replaces the input processor')
            for v in left:
                if v == SU:
                    ctx.ob(r == 2, 'suspended:' + lab, fn.where(), 'a suspended parse returns %s instead of the suspended status' % (r,))
                    ctx.ob(ST not in wr, 'suspended-state:' + lab, fn.where(), 'the state of a suspended parse is changed')
                    seen.add('su')
                elif v == FI:
                    ctx.ob(r == 1 and (ST not in wr or one_int(wr[ST]) == FI), 'finished:' + lab, fn.where(), 'a finished parse returns %s' % (r,))
                elif v == PG:
                    if fb is None:
                        ctx.ob(False, 'final-undecided:' + lab, fn.where(), 'the result does not depend on whether the buffer is the final one'); continue
                    seen.add('ok')
                    ctx.ob(r == 1, 'ok:' + lab, fn.where(), 'successful parsing returns %s' % (r,))
                    if fb: ctx.ob(one_int(wr.get(ST)) == FI, 'final:' + lab, fn.where(), 'after the final buffer the state is not finished')
                    else: ctx.ob(ST not in wr, 'more:' + lab, fn.where(), 'the state becomes %s although more input is expected' % (wr.get(ST),))
        ctx.ob(seen >= ({'err', 'su', 'ok'}), 'outcomes:' + lab, fn.where(), 'outcomes analysed: %s' % sorted(seen))
        if name != 'XML_ResumeParser':
            for x in paths:
                k = [i for i, e in enumerate(x.ev) if e[0] == 'icall']
                if not k: continue
                w = None
                for e in x.ev[:k[0]]:
                    if e[0] == 'w' and e[2] == ('m_parsingStatus', 'finalBuffer'): w = e[3]
                ctx.ob(one_int(w) == final, 'finalBuffer:' + lab, fn.where(), 'the final-buffer flag is %s while processing' % (w,))
    # the processor that repeats the error
    h = SummHooks([PB])
    paths, ai = summarise(p, ep, h)
    ok = paths and all(not x.ev and x.ret('#') == frozenset((('sym', ('ld', PB, ERR, None)),)) or (x.ret() == frozenset((('sym', ('ld', PB, ('m_errorCode',), None)),)) and not x.ev) for x in paths)
    ctx.ob(ok, 'errorProcessor' + sfx, ep.where(), 'does not just return the stored error code')
    ctx.floor('post-processing paths' + sfx, n, 30)


def is_err_ty(p, t):
    return t is not None and (p.adt_name(t) or '').endswith('expat_h::XML_Error')


class PH(Hooks):
    def __init__(s, p, fn):
        s.p = p; s.fn = fn; s.sites = {}
        s.dropped = set()
    def src(s, ai, st, fn, term, fid, name):
        key = (name, term[1])
        s.sites[key] = fn
        dl, weak = ai.resolve(st, fn, fid, term[5], term[1])
        # the callee may change anything reachable through its arguments
        ai.havoc_call(st, fn, fid, term, None)
        out = []
        a = st.copy(); b = st
        for d in dl or []:
            a.write(d[0], d[1], None); a._d(d[0])[d[1] + ('#',)] = frozenset((0,))
            e = ('sym', ('err', name, term[1]))
            b.write(d[0], d[1], None); b._d(d[0])[d[1] + ('#',)] = frozenset((e,))
            b.neq[e] = frozenset((0,))
        b.q = ('err', name, term[1])
        return [(a, 'done'), (b, 'done')]
    def on_call(s, ai, st, fn, callee, term, fid):
        if term[5] is None: return None
        t = s.p.place_ty(fn, term[5])
        if is_err_ty(s.p, t) and (callee.kind == 'virtual' or callee.blocks is not None) and callee.short not in ('clone', 'from', 'into'):
            return s.src(ai, st, fn, term, fid, callee.short)
        return None
    def on_indirect(s, ai, st, fn, V, term, fid):
        if term[5] is not None and is_err_ty(s.p, s.p.place_ty(fn, term[5])):
            return s.src(ai, st, fn, term, fid, 'processor')
        return None
    def want_inline(s, callee):
        # only what may carry an error code in its result, and trivial wrappers
        return ('XML_Error' in s.p.tname(callee.locals[0])) or len(callee.blocks) <= 3


def propagation(ctx, p, sfx):
    n = 0
    for f in p.fns:
        if not f.local or f.blocks is None or not f.locals or not is_err_ty(p, f.locals[0]): continue
        if f.short.startswith('XML_') : continue
        h = PH(p, f)
        ai = AI(p, h, budget=600000)
        ai.partition_ret = False
        rs = ai.run(f)
        bad = {}
        for st, _ in rs:
            if st.q is None: continue
            V = st.read(('L', 0, 0), ('#',))
            ok = V is not None and all((a != 0) if isinstance(a, int) else (0 in st.neq.get(a, ())) for a in V)
            if not ok: bad.setdefault(st.q[1], st.q[2])
        names = {}
        for (nm, ln) in h.sites: names.setdefault(nm, ln)
        n += len(h.sites)
        ctx.seen(f)
        for nm, ln in sorted(names.items()):
            ctx.ob(nm not in bad, 'propagate:%s:%s%s' % (f.short, nm, sfx), f.where(bad.get(nm, ln)), 'an error returned by %s is dropped: the function can return success' % nm)
    ctx.floor('error-returning call sites' + sfx, n, 45)
