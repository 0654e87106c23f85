"""Linear facts: normal forms of sums and a decision procedure for implications between linear (in)equalities."""
from fractions import Fraction


def aff(a, names=None):
    """(dict symbol -> coefficient, constant) of an atom of the interpreter, or None"""
    if isinstance(a, int):
        return ({}, a - (1 << 64) if a >> 63 else a)
    if isinstance(a, tuple):
        if a[0] == 'sym':
            k = a[1]
            if k[0] == 'aff': return (dict(k[1]), k[2])
            if k[0] == 'trunc' and k[2] is not None and k[2] >= 32: return aff(k[1] if isinstance(k[1][0], str) and k[1][0] == 'lin' else ('sym', k[1]))
            return ({a: 1}, 0)
        if a[0] == 'lin':
            x = aff(a[1])
            return None if x is None else (x[0], x[1] + a[2])
        if a[0] == 'op' and a[1] in ('Add', 'Sub'):
            x, y = aff(a[2]), aff(a[3])
            if x is None or y is None: return None
            return add(x, y, 1 if a[1] == 'Add' else -1)
        if a[0] in ('len', 'pd'): return ({a: 1}, 0)
    return None


def add(x, y, k=1):
    d = dict(x[0])
    for s, c in y[0].items():
        d[s] = d.get(s, 0) + k * c
        if d[s] == 0: del d[s]
    return (d, x[1] + k * y[1])


def atom(x):
    d, c = x
    if not d: return c & ((1 << 64) - 1)
    if len(d) == 1 and c == 0:
        s, k = next(iter(d.items()))
        if k == 1: return s
    return ('sym', ('aff', tuple(sorted(d.items(), key=repr)), c))


def implies(facts, goal):
    """facts, goal: (dict, const) meaning  sum + const >= 0  over the integers (decided over the rationals)"""
    rows = [(dict(d), c) for d, c in facts] + [({s: -k for s, k in goal[0].items()}, -goal[1] - 1)]
    return not feasible(rows)


def feasible(rows):
    rows = [({s: Fraction(k) for s, k in d.items() if k}, Fraction(c)) for d, c in rows]
    while True:
        if any(not d and c < 0 for d, c in rows): return False
        vs = {}
        for d, c in rows:
            for s, k in d.items():
                p, n = vs.get(s, (0, 0)); vs[s] = (p + (k > 0), n + (k < 0))
        if not vs: return True
        v = min(vs, key=lambda s: vs[s][0] * vs[s][1])
        pos = [r for r in rows if r[0].get(v, 0) > 0]; neg = [r for r in rows if r[0].get(v, 0) < 0]
        rest = [r for r in rows if not r[0].get(v, 0)]
        if len(pos) * len(neg) > 3000: return True
        for a in pos:
            for b in neg:
                x, y = -b[0][v], a[0][v]
                d = {}
                for s in set(a[0]) | set(b[0]):
                    k = x * a[0].get(s, 0) + y * b[0].get(s, 0)
                    if k and s != v: d[s] = k
                rest.append((d, x * a[1] + y * b[1]))
        seen = {}
        for d, c in rest:
            k = tuple(sorted(d.items(), key=repr))
            if k not in seen or seen[k][1] > c: seen[k] = (d, c)
        rows = list(seen.values())


def conds(eqs, neq):
    """the linear facts of a path"""
    out = []
    for k, v in eqs.items():
        if k[0] == 'cond':
            op, x, y = k[1:]
            x, y = aff(x), aff(y)
            if x is None or y is None: continue
            if not v: op = {'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le', 'Eq': 'Ne', 'Ne': 'Eq'}[op]
            if op in ('Ge', 'Eq'): out.append(add(x, y, -1))
            if op in ('Le', 'Eq'): out.append(add(y, x, -1))
            if op == 'Gt': e = add(x, y, -1); out.append((e[0], e[1] - 1))
            if op == 'Lt': e = add(y, x, -1); out.append((e[0], e[1] - 1))
        elif k[0] == 'sym' and isinstance(v, int):
            x = aff(k)
            if x is None: continue
            e = add(x, aff(v), -1); out.append(e); out.append(({s: -c for s, c in e[0].items()}, -e[1]))
    for k, vs in neq.items():
        # a length that is not zero is positive
        if k[0] == 'sym' and 0 in vs:
            x = aff(k)
            if x is not None: out.append(('nz', x))
    return out


def facts_of(eqs, neq, base):
    """with base: further facts (each >= 0), which also decide the sign of what is not zero"""
    cs = conds(eqs, neq)
    f = list(base) + [c for c in cs if c[0] != 'nz']
    for c in cs:
        if c[0] == 'nz':
            d, k = c[1]
            if implies(f, (d, k)): f.append((d, k - 1))
    return f


def show(x):
    if x is None: return '?'
    d, c = x
    r = ' '.join('%s%s' % ('+ ' if k == 1 else '- ' if k == -1 else '%+d*' % k, name(s)) for s, k in sorted(d.items(), key=repr))
    return (r + (' %+d' % c if c or not d else '')).lstrip('+ ')


def name(s):
    k = s[1] if s[0] == 'sym' else s
    if k[0] == 'ld': return '.'.join(str(x) for x in k[2] if x not in ('v:Some', '0'))
    return str(k[0] if len(k) == 1 else ' '.join(map(str, k)) if all(isinstance(x, (str, int)) for x in k) else k[0])
