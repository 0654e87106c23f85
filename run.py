#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]

Decides one property from the current source of the repository (static analysis of the
resolved program; nothing of the repository is executed).  Exit 0: the property holds on
everything analysed.  Exit 1: a line `VIOLATION property=<id> replay=<file>`."""
import sys, os, json, time, importlib, re, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.path.insert(0, os.path.join(HERE, 'spec'))
sys.setrecursionlimit(100000)
import mir


class Ctx:
    def __init__(s, prop, tier):
        s.prop = prop; s.tier = tier
        s.violations = {}    # key -> message
        s.obligations = 0; s.discharged = 0
        s.rules = []         # rule descriptions
        s.samples = []
        s.stats = {}
        s.fns = set()
        s._p = {}

    @property
    def thorough(s): return s.tier == 'thorough'

    def prog(s, kind='lib', features=()):
        k = (kind, tuple(features))
        if k not in s._p: s._p[k] = mir.Prog(kind, features)
        return s._p[k]

    def rule(s, text):
        s.rules.append(text)

    def ob(s, ok, key, where='', msg=''):
        """one obligation"""
        s.obligations += 1
        if ok:
            s.discharged += 1
            if len(s.samples) < 40 and s.obligations % 7 == 1:
                s.samples.append('%s %s' % (key, where))
        else:
            s.viol(key, where, msg)
        return ok

    def viol(s, key, where='', msg=''):
        key = re.sub(r'\s+', '_', key)
        if key not in s.violations:
            s.violations[key] = '%s: %s' % (where, msg)

    def floor(s, what, n, least):
        """a rule that suddenly sees far less of the program than it should is not evidence"""
        s.stats[what] = n
        s.ob(n >= least, 'floor:' + what, 'whole program', 'only %d %s analysed, expected at least %d' % (n, what, least))

    def seen(s, *fns):
        for f in fns: s.fns.add(getattr(f, 'short', f))


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+)\s*(.*)', l)
            if m: out.append(m.groups())
    return out


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = 'quick'
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough') and '--tier' not in a: tier = os.environ['VERIF_TIER']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Ctx(prop, tier)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, prop + '.violation.txt')
    if os.path.exists(replay): os.unlink(replay)
    m = importlib.import_module(prop.lower())
    try:
        m.check(ctx)
    except mir.AnchorError as e:
        ctx.viol('anchor:' + str(e)[:120], 'whole program', 'a construct the property is anchored on is missing: %s' % e)
    except Exception as e:
        # an analysis that cannot be completed is not evidence that the property holds
        tb = traceback.extract_tb(e.__traceback__)[-1]
        traceback.print_exc()
        ctx.viol('undecided:%s:%s' % (type(e).__name__, tb.name), 'whole program', 'the analysis could not be completed: %r' % e)
    kf = [(k, d) for p, k, d in known() if p == prop]
    listed = {k for k, _ in kf}
    new = {k: v for k, v in ctx.violations.items() if k not in listed}
    for k, d in kf:
        if k in ctx.violations:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, k, d))
        else:
            print('note: listed finding no longer present: %s' % k)
    cov = {
        'explanation': 'Static decision over the compiler-resolved program of the current tree. ' + ' '.join(ctx.rules),
        'obligations': ctx.obligations, 'discharged': ctx.discharged,
        'functions_analysed': len(ctx.fns), 'functions_sample': sorted(ctx.fns)[:60],
        'rules': ctx.rules, 'samples': ctx.samples[:20], 'counts': ctx.stats,
        'known_findings': sorted(k for k in listed if k in ctx.violations),
    }
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
               'assumptions': getattr(m, 'ASSUMPTIONS', []),
               'wall_s': round(time.time() - t0, 2), 'violations': len(new)},
              open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions, %.1fs' % (prop, ctx.obligations, ctx.discharged, len(ctx.fns), time.time() - t0))
    if new:
        with open(replay, 'w') as f:
            for k, v in sorted(new.items()):
                f.write('%s\n    %s\n' % (k, v))
        for k, v in sorted(new.items())[:20]:
            print('  %s\n      %s' % (k, v[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
