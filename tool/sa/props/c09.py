"""Ownership of library-allocated memory."""
from props.sockcheck import *

EXPLAIN = """Ownership (typestate) analysis. Every function of the socket units that other code can reach is interpreted
abstractly with each allocation, system call and lower layer either succeeding or failing, and a ledger follows each
allocated block, receive buffer and OpenSSL object from acquisition to release. At each exit every live block must be
reachable from something alive (the object of a handle that is returned or was there before); no block is released twice,
used after its release, or released without having been allocated (caller-supplied memory). Creation functions leave
templates of the objects they build (which fields hold what, whether the memory belongs to the library); every method,
detach and close function is then analysed on each template, and closing must release exactly what the template owns.
Channels, bundles and the per-thread tables are analysed over creation followed by the closing of all their handles in
every order. Stacks of coroutines are the subject of C06 and C20."""
ASSUME = ['hclose() of a handle the function owns succeeds', 'the contracts used at calls into another unit are those checked on that unit',
          'a receive buffer is only allocated by the first dill_fd_recv']


def check(ctx):
    ctx.rule('mem-leak', 'what is allocated is released or remains reachable')
    ctx.rule('mem-double, mem-uaf, mem-stale', 'nothing is released twice or used after its release')
    ctx.rule('mem-foreign', 'only memory the library allocated is released')
    ctx.rule('mem-storage', 'no live handle refers to memory that is gone')
    ctx.rule('mem-rxinit', 'receive buffers are initialised before they are used')
    run(ctx, ['mem-'])
    jobs = []
    for c in ctx.configs:
        p = ctx.prog(c)
        for n in ('dill_chmake', 'dill_chmake_mem', 'dill_bundle', 'dill_bundle_mem'):
            jobs.append(driver.engine_job(c, p, ctx.func(p, n), lambda: Life(), tag='creations'))
        jobs += contexts(ctx, c, p)
    ctx.run_jobs(jobs)
    ctx.minimum('lifecycles', 6 * len(ctx.configs))
    ctx.minimum('closings', 8 * len(ctx.configs))
    ctx.viol = {k: v for k, v in ctx.viol.items() if v['rule'].startswith('mem-')}


def contexts(ctx, c, p):
    """per-thread tables: set up, used, torn down"""
    jobs = []
    for part, mid in (('pollset', []), ('handle', ['dill_hmake'])):
        init, term = ctx.func(p, 'dill_ctx_%s_init' % part), ctx.func(p, 'dill_ctx_%s_term' % part)
        a = ctxfld(p, part)
        then = [(ctx.func(p, m), [('s', 'newobj')]) for m in mid] + [(term, [a])]

        def mk(then=then, a=a):
            x = LifeCtx(then)
            x.arg = a
            return x
        jobs.append(driver.engine_job(c, p, init, mk, tag='thread tables', args={0: a}))
    return jobs


class LifeCtx(Life):
    def sub_run(self, eng, st, f, args):
        pol = InnerCtx(self)
        pol.sub, pol.prog, pol.fn, pol.tu = self.sub, eng.prog, f, f.tu
        pol.attach, pol.slotk = False, self.slotk
        return eng.run_in(st, f, args, pol)

    def start(self, eng, st, fn):
        SPolicy.start(self, eng, st, fn)
        st.facts[('s', 'newobj')] = NN


class InnerCtx(Inner):
    """handle functions are looked into"""
    c_dill_hmake = None

    def call(self, eng, st, ins, name, args, site):
        t = eng.prog.resolve(st.frames[-1].func.tu, ins['fn'][1]) if ins['fn'][0] == 'g' else None
        if name in ('dill_hmake',) and t is not None:
            return None
        return SPolicy.call(self, eng, st, ins, name, args, site)
