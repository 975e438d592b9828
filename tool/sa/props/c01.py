"""A coroutine being cancelled, or running inside a close callback, cannot block."""
from kernel import *
from driver import engine_job

EXPLAIN = """Path-sensitive abstract interpretation of every blocking kernel API function, once with each of the
two prohibition flags set (every path must return the failure value with errno ECANCELED before any store to
non-local memory, allocation, registration or suspension) and once with both clear (no path may report ECANCELED
before it suspended). Handle closing: at the call through the close slot the running coroutine's flag is 1 on every
path and at return the flag equals its value on entry. Coroutine closing: the victim's flag is 1 whenever it is
enqueued or the closer suspends. Creation: both flags are 0 when a coroutine first becomes runnable; main is zeroed."""

BLOCKING = ['dill_yield', 'dill_msleep', 'dill_fdin', 'dill_fdout', 'dill_chsend', 'dill_chrecv', 'dill_choose',
            'dill_bundle_wait', 'dill_prologue', 'dill_hmake']
MAKERS = ['dill_chmake', 'dill_chmake_mem', 'dill_bundle', 'dill_bundle_mem']
EFFECTS = {'dill_wait', 'dill_waitfor', 'dill_timer', 'dill_trigger', 'dill_pollset_in', 'dill_pollset_out', 'dill_pollset_poll',
           'dill_allocstack', 'dill_rbtree_insert', 'dill_hclose', 'malloc', 'calloc', 'realloc', 'free', 'dill_bundle', 'dill_bundle_mem'}


class Gate(KApi):
    """functions under the flag: everything that is not the flag test is an effect"""
    heap_fail = False

    def __init__(self, which, strict):
        self.which = which
        self.strict = strict

    def start(self, eng, st, fn):
        a = crbit(eng, st, CUR, 'no_blocking1')
        b = crbit(eng, st, CUR, 'no_blocking2')
        if self.which == 1:
            st.assume(mkeq(a, 1), True)
        elif self.which == 2:
            st.assume(mkeq(a, 0), True)
            st.assume(mkeq(b, 1), True)
        # arguments under which the call is otherwise acceptable
        for i, x in enumerate(fn.args):
            if x['ty'] == 'ptr':
                t = ('arg', i, x['name'], 64)
                st.facts[t] = (-INF, INF, frozenset((0,)))
                if eng.entry.name == 'dill_hmake':
                    for k in ('query', 'close'):
                        v = eng.load(st, fld(eng.prog, t, 'dill_hvfs', k), 64)
                        st.facts[v] = (-INF, INF, frozenset((0,)))

    def call(self, eng, st, ins, name, args, site):
        if name == 'dill_hmake' and not self.strict:
            eng.set_errno(st, ECANCELED)       # proved for dill_hmake itself
            return [(st, -1)]
        if self.strict and name in EFFECTS:
            eng.violate(st, ins, 'C01-effect-before-gate',
                        'reaches %s while blocking is prohibited (flag %d)' % (name, self.which))
            return []
        if name == 'dill_hquery' and self.strict:
            eng.violate(st, ins, 'C01-effect-before-gate', 'looks at its arguments before the cancellation check (flag %d)' % self.which)
            return []
        return KApi.call(self, eng, st, ins, name, args, site)

    def on_store(self, eng, st, addr, val, bits, ins):
        b = split(addr)[0]
        if self.strict and not (isinstance(b, tuple) and (b[0] == 'al' or b == ('g', 'errno'))):
            eng.violate(st, ins, 'C01-effect-before-gate', 'writes memory while blocking is prohibited (flag %d)' % self.which)

    def icall(self, eng, st, ins, fn, args, site):
        if self.strict:
            eng.violate(st, ins, 'C01-effect-before-gate', 'indirect call while blocking is prohibited (flag %d)' % self.which)
        return []

    def on_ret(self, eng, st, val, ins):
        self.sub.count('gated_paths')
        if st.const(val) != -1 or st.const(eng.errno(st)) != ECANCELED:
            eng.violate(st, ins, 'C01-gate', 'returns %s with errno %s instead of -1/ECANCELED while blocking is prohibited (flag %d)' %
                        (show(val), ename(eng.errno(st)), self.which))


class Clear(KApi):
    """flags clear: no spurious ECANCELED"""
    unroll = 8

    def start(self, eng, st, fn):
        for n in ('no_blocking1', 'no_blocking2'):
            st.assume(mkeq(crbit(eng, st, CUR, n), 0), True)

    def on_ret(self, eng, st, val, ins):
        self.sub.count('clear_paths')
        if not st.ps.get('waited') and st.const(eng.errno(st)) == ECANCELED:
            eng.violate(st, ins, 'C01-spurious', 'reports ECANCELED although the coroutine was not cancelled')


class Close(KPolicy):
    """dill_hclose: the flag is raised around the close callback and restored"""

    def start(self, eng, st, fn):
        st.ps['old'] = crbit(eng, st, CUR, 'no_blocking2')

    def icall(self, eng, st, ins, fnt, args, site):
        v = crbit(eng, st, CUR, 'no_blocking2')
        self.sub.count('close_callbacks')
        if st.const(v) != 1:
            eng.violate(st, ins, 'C01-close-flag', 'the close callback runs without the prohibition on blocking')
        st.ps['called'] = st.ps.get('called', 0) + 1
        eng.havoc_all(st, site)
        return [(st, 0)]

    def on_ret(self, eng, st, val, ins):
        v = crbit(eng, st, CUR, 'no_blocking2')
        old = st.ps['old']
        same = v == old or (st.const(v) is not None and st.const(v) == st.const(old)) or \
            (st.truth_of(mkeq(v, old)) is True)
        if not same:
            eng.violate(st, ins, 'C01-close-restore', 'the prohibition is not restored to its earlier value after the close')


class CrClose(KApi):
    """closing a coroutine: the victim may not block from the moment it can run again"""

    def victim(self, eng):
        return padd(('arg', 0, eng.entry.args[0]['name'], 64), -eng.prog.field('dill_cr', 'vfs')[0])

    def chk(self, eng, st, ins, what):
        self.sub.count('victim_resumptions')
        if st.const(crbit(eng, st, self.victim(eng), 'no_blocking1')) != 1:
            eng.violate(st, ins, 'C01-victim-flag', 'the coroutine being closed is %s while it may still block' % what)

    def on_store(self, eng, st, addr, val, bits, ins):
        if bits == 64 and val == padd(self.victim(eng), self.ready_off(eng)) and split(addr)[0][0] != 'al':
            self.chk(eng, st, ins, 'resumed')

    def icall(self, eng, st, ins, fnt, args, site):
        # cancelling one of the victim's registrations; leaves the coroutine itself alone
        return [(st, 0)]

    def on_wait(self, eng, st, ins, site):
        self.chk(eng, st, ins, 'waited for')

    def after_wait(self, eng, st, ins, tag, r):
        # nothing ever clears the flag again (rule C01-flag-cleared)
        st.assume(mkeq(crbit(eng, st, self.victim(eng), 'no_blocking1'), 1), True)


class Born(KApi):
    """a new coroutine starts with both flags clear"""

    def on_store(self, eng, st, addr, val, bits, ins):
        # ctx->r = cr
        if addr == ctxfld(eng.prog, 'cr', 'r') and val != CUR:
            st.ps['new'] = val

    def on_ret(self, eng, st, val, ins):
        n = st.ps.get('new')
        if n is None:
            return
        self.sub.count('new_coroutines')
        for b in ('no_blocking1', 'no_blocking2'):
            if st.const(crbit(eng, st, n, b)) != 0:
                eng.violate(st, ins, 'C01-born', 'a new coroutine starts with a prohibition flag not cleared (%s)' % ('close' if b[-1] == '1' else 'callback'))


class MainBorn(KApi):
    fix_cur = False

    def on_ret(self, eng, st, val, ins):
        base = ('arg', 0, eng.entry.args[0]['name'], 64)
        r = eng.load(st, fld(eng.prog, base, 'dill_ctx_cr', 'r'), 64)
        self.sub.count('new_coroutines')
        for b in ('no_blocking1', 'no_blocking2'):
            if st.const(crbit(eng, st, r, b)) != 0:
                eng.violate(st, ins, 'C01-born', 'the main coroutine starts with a prohibition flag not cleared')


def check(ctx):
    ctx.rule('C01-gate', 'with a prohibition flag set every path of a blocking function returns -1/ECANCELED')
    ctx.rule('C01-effect-before-gate', '... and has no effect before that')
    ctx.rule('C01-spurious', 'with both flags clear, ECANCELED is only reported after a suspension')
    ctx.rule('C01-close-flag', 'close callbacks run with the prohibition raised; restored after (C01-close-restore)')
    ctx.rule('C01-victim-flag', 'a coroutine being closed has its flag set whenever it can run')
    ctx.rule('C01-born', 'coroutines start with both flags clear')
    ctx.rule('C01-flag-cleared', 'the flag of a coroutine being closed is never cleared again')
    jobs = []
    for c in ctx.configs:
        p = ctx.prog(c)
        ctx.cur = c
        for f, ins, v in flag_stores(p, 'dill_cr', 'no_blocking1'):
            ctx.count('flag_stores')
            if v != '1' and not within(p, f.key, creators(p, 'dill_cr')):
                ctx.violation('C01-flag-cleared', f.name, 'may clear the prohibition on blocking of a coroutine being closed',
                              '%s:%s' % (f.file, ins.get('ln')))
        for n in BLOCKING:
            f = ctx.func(p, n)
            for w in (1, 2):
                jobs.append(engine_job(c, p, f, lambda w=w: Gate(w, True), 'gate_obligations'))
            if n == 'dill_choose':
                for k in (0, 1, 2):
                    jobs.append(engine_job(c, p, f, Clear, 'clear_obligations', args={1: k}))
            elif n != 'dill_hmake':
                jobs.append(engine_job(c, p, f, Clear, 'clear_obligations'))
        for n in MAKERS:
            for w in (1, 2):
                jobs.append(engine_job(c, p, ctx.func(p, n), lambda w=w: Gate(w, False), 'gate_obligations'))
        jobs.append(engine_job(c, p, ctx.func(p, 'dill_hclose'), Close))
        jobs.append(engine_job(c, p, p.funcs[hvfs_close(p, 'dill_prologue')], CrClose))
        jobs.append(engine_job(c, p, ctx.func(p, 'dill_prologue'), Born))
        jobs.append(engine_job(c, p, ctx.func(p, 'dill_ctx_cr_init'), MainBorn))
    ctx.run_jobs(jobs)
    n = len(ctx.configs)
    ctx.minimum('flag_stores', 2 * n)
    ctx.minimum('gated_paths', 28 * n)
    ctx.minimum('close_callbacks', n)
    ctx.minimum('victim_resumptions', 2 * n)
    ctx.minimum('new_coroutines', 2 * n)
