"""No mutable process-wide state in the library."""
from mir import *

ASSUMPTIONS = ['the standard library and the allocator are themselves thread-safe',
               'user callbacks are outside the library']
CELLS = ('UnsafeCell', 'Cell', 'RefCell', 'OnceCell', 'OnceLock', 'LazyLock', 'LazyCell', 'Mutex', 'RwLock', 'Once', 'LocalKey', 'SyncUnsafeCell')
ENV = ('std::env::', 'std::process::', 'std::thread::', 'std::fs::', 'std::io::', 'std::sync::', 'std::time::', 'std::net::',
       'core::sync::', 'std::os::', 'std::panic::', 'core::cell::once', 'core::cell::lazy')
FOREIGN_OK = {'memset', 'memcpy', 'memcmp', 'memmove', 'malloc', 'realloc', 'free', 'calloc', 'strlen', 'memchr', 'strcmp', 'strncmp'}


def type_has_cell(p, t, seen):
    if t in seen: return None
    seen.add(t)
    k = p.tk(t)
    if k[0] == 'adt':
        n = k[1].split('::')[-1]
        if n in CELLS or n.startswith('Atomic'): return k[1]
        for v in k[4]:
            for f in v[2]:
                r = type_has_cell(p, f[1], seen)
                if r: return r
        return None
    for x in k[1:]:
        for y in (x if isinstance(x, list) else [x]):
            if isinstance(y, int) and not isinstance(y, bool) and k[0] in ('ref', 'ptr', 'slice', 'array', 'tuple') and 0 <= y < len(p.types):
                if k[0] == 'array' and y is not k[1]: continue
                r = type_has_cell(p, y, seen)
                if r: return r
    return None


def check(ctx):
    ctx.rule('Every static of the crate is immutable and its type (transitively, through references) contains no interior mutability; '
             'no function reads or writes a thread-local; no reachable function of the crate writes through the address of a static; '
             'the only foreign functions called are memory primitives and no call reaches environment, process, thread, file or clock state.')
    confs = [(), ('unicode',), ('mozilla',)] if ctx.thorough else [()]
    for feats in confs:
        p = ctx.prog('lib', feats)
        n = 0
        for s in p.statics:
            n += 1
            where = '%s:%s' % (s['file'], s['line'])
            ctx.ob(not s['mut'], 'static-mut:' + s['name'], where, 'mutable process-wide variable shared by all parsers')
            c = type_has_cell(p, s['ty'], set())
            ctx.ob(c is None, 'static-cell:' + s['name'], where, 'process-wide variable with interior mutability (%s)' % c)
        fns = [f for f in p.fns if f.local and f.blocks is not None and '/tests/' not in (f.file or '')]
        static_allocs = {i for i, a in enumerate(p.allocs) if a[0] == 'static'}
        for f in fns:
            ctx.seen(f)
            bad = []
            for b in f.blocks:
                for x in b[0]:
                    if x[0] != '=': continue
                    rv = x[3]
                    if rv[0] == 'tls': bad.append((x[1], 'thread-local variable'))
                    if rv[0] in ('ref', 'addr') and len(rv) > 2 and rv[2] is True:
                        pass
                t = b[1]
                if t[0] == 'call' and isinstance(t[2], int):
                    c = p.fns[t[2]]
                    if c.name.startswith(ENV): bad.append((t[1], 'call of ' + c.name))
                    if c.kind == 'intrinsic' and c.short.startswith('atomic_'): bad.append((t[1], 'atomic operation'))
                    if not c.local and c.blocks is None and '::libc::' in c.name or (c.blocks is None and c.local and c.kind == 'item'):
                        ctx.ob(c.short in FOREIGN_OK, 'foreign:%s:%s' % (f.short, c.short), f.where(t[1]), 'calls the foreign function %s' % c.short)
                    if 'LocalKey' in c.name: bad.append((t[1], 'thread-local access ' + c.name))
                # a static reached through a mutable pointer
                if t[0] == 'call' and not isinstance(t[2], int): pass
            # writes through constants that are addresses of statics
            for b in f.blocks:
                for x in b[0]:
                    if x[0] == '=' and x[3][0] in ('use', 'cast'):
                        op = x[3][1] if x[3][0] == 'use' else x[3][2]
                        if op[0] == 'k' and len(op) > 3 and op[3]:
                            for _, al in op[3]:
                                if al in static_allocs:
                                    tk = p.tk(op[1])
                                    if tk[0] == 'ptr' and len(tk) > 2 and tk[2]: bad.append((x[1], 'mutable pointer to a static'))
            ctx.ob(not bad, 'state:' + f.short, f.where(bad[0][0] if bad else None), '%s' % sorted(set(y for _, y in bad)))
        ctx.floor('statics' + ''.join(feats), n, 15)
        ctx.floor('functions' + ''.join(feats), len(fns), 600)
