"""Independent parts of a rule in forked processes; results are merged into the context."""
import os, sys, pickle, time, copy


class _Part:
    pass


def par(ctx, jobs, workers=None):
    """jobs: callables taking nothing that report through ctx"""
    workers = workers or min(8, os.cpu_count() or 1)
    if workers <= 1 or len(jobs) <= 1:
        for j in jobs: j()
        return
    todo = list(enumerate(jobs)); run = {}; res = {}
    sys.stdout.flush(); sys.stderr.flush()
    while todo or run:
        while todo and len(run) < workers:
            i, j = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                base = (set(ctx.violations), ctx.obligations, ctx.discharged, len(ctx.samples), set(ctx.fns), dict(ctx.stats))
                err = None
                try: j()
                except BaseException as e:
                    import traceback
                    err = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
                out = dict(v={k: m for k, m in ctx.violations.items() if k not in base[0]}, o=ctx.obligations - base[1], d=ctx.discharged - base[2],
                           s=ctx.samples[base[3]:], f=set(ctx.fns) - base[4], st={k: v for k, v in ctx.stats.items() if base[5].get(k) != v}, err=err)
                with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
                os._exit(0)
            os.close(w)
            run[r] = (i, pid)
        import select
        rs, _, _ = select.select(list(run), [], [])
        for r in rs:
            i, pid = run.pop(r)
            with os.fdopen(r, 'rb') as f: data = f.read()
            os.waitpid(pid, 0)
            res[i] = pickle.loads(data) if data else dict(v={}, o=0, d=0, s=[], f=set(), st={}, err='part %d ended without a result' % i)
    for i in sorted(res):
        x = res[i]
        for k, m in x['v'].items(): ctx.violations.setdefault(k, m)
        ctx.obligations += x['o']; ctx.discharged += x['d']
        for q in x['s']:
            if len(ctx.samples) < 40: ctx.samples.append(q)
        ctx.fns |= x['f']
        for k, v in x['st'].items():
            ctx.stats[k] = v
    errs = [res[i]['err'] for i in sorted(res) if res[i]['err']]
    if errs: raise RuntimeError(errs[0])
