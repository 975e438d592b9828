"""Deadlines: every wait uses the deadline of the call it is made for, and expiry is reported as such."""
from sock import *
from kernel import *
from props.sockcheck import partial
from props import c04
import driver
from driver import engine_job

EXPLAIN = """Two layers. Kernel: each function that suspends the caller is interpreted; at the suspension the timers tree must
hold exactly one timer of the caller with exactly the caller's deadline if that is not negative and none if it is; the
path on which the timer fires must report ETIMEDOUT (sleeping: success); with deadline zero channel operations must not
suspend, and over channel shapes with a waiting partner or a terminated channel no path may report ETIMEDOUT. Sockets:
each public function and vtable method is interpreted; at every call to something that takes a deadline - library
function or vtable slot - the argument must be the caller's own deadline. Where the deadline travels through memory (the
OpenSSL callbacks), the cell the callback reads must hold the caller's deadline at every OpenSSL call that may wait."""
ASSUME = ['the deadline is the last parameter, of type int64_t', 'coroutines started by a function are bounded by the handle that owns them']

SSLWAIT = ('SSL_read', 'SSL_write', 'SSL_shutdown', 'SSL_connect', 'SSL_accept', 'SSL_do_handshake', 'SSL_read_ex', 'SSL_write_ex', 'SSL_peek')
WAITERS = ['dill_msleep', 'dill_fdin', 'dill_fdout', 'dill_chsend', 'dill_chrecv', 'dill_choose', 'dill_bundle_wait']


def takes_deadline(prog, tu, name):
    f = prog.resolve(tu, name)
    return f is not None and bool(f.ptypes) and len(f.ptypes) > 1 and f.ptypes[-1] == 'int64_t' and f


class Wait(KApi):
    def __init__(self, k=None):
        self.k = k

    def dl(self, eng):
        a = eng.entry.args
        return ('arg', len(a) - 1, a[-1]['name'], 64)

    def on_wait(self, eng, st, ins, site):
        d = self.dl(eng)
        lo, hi, ne = st.interval(d)
        tm = st.ps.get('tm', ())
        self.sub.count('suspensions')
        n = eng.entry.name
        if lo >= 0:
            if len(tm) != 1:
                eng.violate(st, ins, 'C03-arm', 'suspends with a deadline but %s' % ('without a timer' if not tm else 'with %d timers' % len(tm)))
            elif tm[0][1] != d:
                eng.violate(st, ins, 'C03-arm', 'the timer is armed for %s instead of the deadline' % show(tm[0][1]))
            elif not any(c[2] == ('g', self.timer_cancel_fn(eng)) for c in st.ps.get('cl', ())):
                eng.violate(st, ins, 'C03-arm', 'the timer is armed but the caller does not wait for it')
        elif hi < 0:
            if tm:
                eng.violate(st, ins, 'C03-arm', 'a timer is armed although the deadline is infinite')
        else:
            eng.violate(st, ins, 'C03-arm', 'suspends without having looked at the deadline')
        if n in ('dill_chsend', 'dill_chrecv', 'dill_choose') and lo <= 0 <= hi and 0 not in ne:
            eng.violate(st, ins, 'C03-zero', 'suspends although the deadline may be zero')

    def on_ret(self, eng, st, val, ins):
        w = st.ps.get('wlast')
        c, e = st.const(val), st.const(eng.errno(st))
        n = eng.entry.name
        if w is None:
            if c == -1 and e == ETIMEDOUT:
                d = st.interval(self.dl(eng))
                if d[0] > 0 or d[1] < 0 or 0 in d[2]:
                    eng.violate(st, ins, 'C03-early', 'fails with ETIMEDOUT at once although the deadline is not zero')
            return
        if w[0] != 'timer':
            return
        self.sub.count('expiries')
        if n == 'dill_msleep':
            if c != 0:
                eng.violate(st, ins, 'C03-expiry', 'sleeping until the deadline is not reported as success')
        elif c != -1 or e != ETIMEDOUT:
            eng.violate(st, ins, 'C03-expiry', 'expiry of the deadline is reported as %s with errno %s instead of ETIMEDOUT' % (show(val), ename(e)))


class Now(c04.Transfer):
    """channel shapes on which the operation can be decided at once, with any deadline including zero"""

    def on_ret(self, eng, st, val, ins):
        self.sub.count('immediate outcomes')
        if st.const(eng.errno(st)) == ETIMEDOUT and st.const(val) == -1:
            eng.violate(st, ins, 'C03-now', 'fails with ETIMEDOUT although it could complete at once')

    def on_wait(self, eng, st, ins, site):
        pass

    def fail(self, *a):
        pass

    def on_abort(self, eng, st, ins):
        pass


class Dead(SPolicy):
    def start(self, eng, st, fn):
        SPolicy.start(self, eng, st, fn)
        self.D = None
        if fn.ptypes and len(fn.ptypes) > 1 and fn.ptypes[-1] == 'int64_t' and fn.args and fn.args[-1]['ty'] == 'i64':
            self.D = st.frames[0].env[('a', len(fn.args) - 1)]
        self.cell = callback_cells(eng.prog)

    def judge(self, eng, st, ins, what, v):
        self.sub.count('deadlines judged')
        if self.D is None:
            if self.body or coroutine_body(eng.prog, self.fn):
                return
            if isinstance(v, tuple) and v[0] == 'ld':
                return                       # a callback: decided where the deadline is stored
            if v == 0:
                return
            if isinstance(v, int) and v < 0 and is_api(self.fn):
                eng.violate(st, ins, 'C03-unbounded', 'waits in %s without a time limit, but takes no deadline' % what)
            return
        if v != self.D:
            eng.violate(st, ins, 'C03-forward', '%s is called with deadline %s instead of the caller\'s' % (what, show(v)[:40]))

    body = False

    def abstract(self, eng, st):
        keep = []
        for k, (v, w) in st.mem.items():
            if v == self.D and self.D is not None:
                keep.append((k, (v, w)))
        envs = [(i, k) for i, fr in enumerate(st.frames) for k, v in fr.env.items() if v == self.D and self.D is not None]
        SPolicy.abstract(self, eng, st)
        for k, v in keep:
            if k in st.mem or self.cellkey(k):
                st.mem[k] = v
        for i, k in envs:
            if i < len(st.frames) and k in st.frames[i].env:
                st.frames[i].env[k] = self.D

    def cellkey(self, k):
        return any(k[1] == o for s, o in self.cell)

    def call(self, eng, st, ins, name, args, site):
        if not st.ps.get('child'):
            f = takes_deadline(eng.prog, st.frames[-1].func.tu, name)
            if f and (is_api(f) or f.hidden and not f.internal or self.split_out(eng.prog, f)) and len(args) == len(f.args):
                self.judge(eng, st, ins, name, args[-1])
            if name in SSLWAIT and self.D is not None:
                self.stored(eng, st, ins, name, args[0])
        return SPolicy.call(self, eng, st, ins, name, args, site)

    def stored(self, eng, st, ins, name, ssl):
        self.sub.count('stored deadlines judged')
        if ssl is None or isinstance(ssl, int):
            return
        cand = set()
        for (b, o, ix), (v, w) in st.mem.items():
            if v == ssl and not ix and isinstance(b, tuple) and b[0] != 'al':
                cand.add(b)
        if ssl[0] == 'ld':
            cand.add(split(ssl[1])[0])
        ok = False
        for b in cand:
            for s, o in self.cell:
                if eng.load(st, padd(b, o), 64) == self.D:
                    ok = True
        if not ok:
            eng.violate(st, ins, 'C03-stored', '%s may wait with a deadline that is not the caller\'s' % name)

    def icall(self, eng, st, ins, fnterm, args, site):
        f = st.frames[-1].func
        x = ins['fn']
        if x[0] == 'v' and len(args) == 4:
            l = f.insmap.get(x[1])
            if l is not None and l['op'] == 'load' and l['p'][0] == 'v':
                g = f.insmap.get(l['p'][1])
                if g is not None and g['op'] == 'getelementptr' and 'sock_vfs' in g['sty']:
                    self.judge(eng, st, ins, 'a socket method', args[-1])
        return SPolicy.icall(self, eng, st, ins, fnterm, args, site)


def callback_cells(prog):
    """(struct, offset) of object fields that are passed on as a deadline"""
    v = getattr(prog, '_dlcells', None)
    if v is None:
        v = set()
        for f in prog.funcs.values():
            for b in f.blocks or ():
                for i in b:
                    if i['op'] == 'call' and i['fn'][0] == 'g' and takes_deadline(prog, f.tu, i['fn'][1]) and i['args']:
                        a = i['args'][-1]
                        l = f.insmap.get(a[1]) if a[0] == 'v' else None
                        if l is not None and l['op'] == 'load' and l['p'][0] == 'v':
                            g = f.insmap.get(l['p'][1])
                            if g is not None and g['op'] == 'getelementptr' and g.get('off') is not None:
                                v.add((g['sty'], g['off']))
        prog._dlcells = v
    return v


def check(ctx):
    ctx.rule('C03-arm', 'a suspension has exactly one timer, for exactly the deadline, if and only if the deadline is not negative')
    ctx.rule('C03-expiry', 'expiry is reported as ETIMEDOUT, by sleeping as success')
    ctx.rule('C03-zero', 'channel operations with deadline zero never suspend')
    ctx.rule('C03-early', 'ETIMEDOUT without waiting only for deadline zero')
    ctx.rule('C03-now', 'an operation that can complete at once does, whatever the deadline')
    ctx.rule('C03-forward', 'nested waits get the caller\'s deadline')
    ctx.rule('C03-stored', 'waits made from callbacks get the caller\'s deadline')
    ctx.rule('C03-unbounded', 'functions without a deadline do not wait without a time limit')
    jobs = []
    for c in ctx.configs:
        p = ctx.prog(c)
        for n in WAITERS:
            f = ctx.func(p, n)
            if n == 'dill_choose':
                for k in (0, 1, 2):
                    jobs.append(engine_job(c, p, f, lambda k=k: Wait(k), 'waiters', args={1: k}))
            else:
                jobs.append(engine_job(c, p, f, Wait, 'waiters'))
        for n, op in (('dill_chsend', c04.SEND), ('dill_chrecv', c04.RECV)):
            for h in (100, 101):
                for waiting, done in nowshapes([(op, h)]):
                    def mk(op=op, h=h, waiting=waiting, done=done):
                        return Now([(op, h)], waiting, done, False)
                    jobs.append(engine_job(c, p, ctx.func(p, n), mk, args=mk().args()))
        for ops in ([(1, 100)], [(2, 101)], [(1, 100), (2, 200)]):
            for waiting, done in nowshapes(ops):
                def mk(ops=ops, waiting=waiting, done=done):
                    return Now(ops, waiting, done, True)
                jobs.append(engine_job(c, p, ctx.func(p, 'dill_choose'), mk, args=mk().args()))
    ctx.run_jobs(jobs)
    n = len(ctx.configs)
    ctx.minimum('suspensions', 12 * n)
    ctx.minimum('expiries', 6 * n)
    ctx.minimum('immediate outcomes', 15 * n)
    keep = dict(ctx.viol)
    ctx.viol.clear()
    configs = ['default'] if ctx.tier == 'quick' else [c for c in ctx.configs if c != 'nothreads']
    run_sockets(ctx, configs, mk=Dead)
    keep.update((k, v) for k, v in ctx.viol.items() if v['rule'].startswith('C03'))
    ctx.viol = keep
    partial(ctx)
    ctx.minimum('deadlines judged', 100 * len(configs))
    ctx.minimum('stored deadlines judged', 4 * len(configs))


def nowshapes(ops):
    for op, h in ops:
        partners, mine, d = c04.direction(op, h)
        yield {partners: 1}, set()
        yield {partners: 2}, set()
        yield {}, {d}
