"""Error reporting discipline."""
from props.sockcheck import *

EXPLAIN = """Provenance analysis of errno. Every reachable function of the library's socket units and the constructors of
the kernel are interpreted abstractly; each system call, allocation or lower layer that may fail does so on one path,
where it leaves a symbolic error code in errno, while calls that succeed leave an unspecified value. At each exit that reports failure errno
must hold a nonzero constant chosen by the function or the symbol of the call that failed, in the state it had then:
a cleanup call that overwrites it, a value left by a call that succeeded, or 0 are violations. At each exit that reports
success no failing call may have been dropped, unless the path had tested its error code or the result is documented as
best effort."""
ASSUME = ['a failing system or library call sets errno to a value between 1 and 4095', 'errno after a call that succeeded is unspecified',
          'best effort by documentation: setsockopt, name lookups of happyeyeballs, probing of handle types when a listener is closed']


def check(ctx):
    ctx.rule('errno-unset, errno-zero', 'a reported failure has a nonzero cause in errno')
    ctx.rule('errno-lost', 'the cause is that of the failing call, not what cleanup left behind')
    ctx.rule('errno-range', 'methods documented to return 0 or -1 return nothing else')
    ctx.rule('dropped', 'a failing step is not reported as success')
    run(ctx, ['errno-', 'dropped'])
    jobs = []
    for c in ctx.configs:
        p = ctx.prog(c)
        for n in ('dill_chmake', 'dill_chmake_mem', 'dill_bundle', 'dill_bundle_mem', 'dill_prologue', 'dill_hmake', 'dill_hown',
                  'dill_hquery', 'dill_hclose', 'dill_chdone', 'dill_ctx_pollset_init', 'dill_allocstack'):
            jobs.append(driver.engine_job(c, p, ctx.func(p, n), Kern, tag='kernel functions'))
    ctx.run_jobs(jobs)
    partial(ctx)
    ctx.viol = {k: v for k, v in ctx.viol.items() if v['rule'].startswith(('errno-', 'dropped'))}


class Kern(SPolicy):
    """constructors of the kernel; the other kernel functions are looked into"""

    def c_dill_allocstack(self, eng, st, ins, args, site):
        s2 = st.copy()
        p = self.okret(eng, st, 'dill_allocstack', 'ok', site, 64, NN)
        eng.havoc_all(st, 'x')
        self.junk(eng, st, 'dill_allocstack', site)
        return [self.failed(eng, s2, ins, 'dill_allocstack', site, 0), (st, p)]

    def c_dill_trigger(self, eng, st, ins, args, site):
        eng.havoc_all(st, 'x')
        return [(st, None)]
