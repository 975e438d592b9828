"""Suspension and resumption: every registration is withdrawn, every suspension ends exactly once."""
from kernel import *
from driver import engine_job

EXPLAIN = """Path-sensitive abstract interpretation of every function that suspends the caller. At each suspension:
identifiers of the registered clauses are distinct and non-negative, each clause is reachable from somewhere that
can wake it (channel list, descriptor record, bundle, timer tree), and abstractly running the cancel function of
every registered clause leaves no cell outside the caller's frame pointing to the caller's clause objects. No
path returns with a registration outstanding or with the caller left in the ready queue. The result of each way a
suspension can end (cancellation, deadline, event, event with error) is mapped to the documented return value and
errno. The resuming side (dill_trigger, coroutine close, coroutine end) is interpreted over a shape abstraction of
the clause list with 0 to 3 clauses with and without cancel functions: every cancel function is called once with its
own clause before the coroutine is made ready, it is made ready exactly once with the right id and error, and a
coroutine already made ready is not made ready again."""

WAITERS = ['dill_yield', 'dill_msleep', 'dill_fdin', 'dill_fdout', 'dill_chsend', 'dill_chrecv', 'dill_choose', 'dill_bundle_wait']


# events of these carry no error (C06 and C16 check the triggering side)
NOERR = ('dill_bundle_wait', 'dill_fdin', 'dill_fdout')


class Sim(KApi):
    """effect of a clause's cancel function"""
    heap_fail = False

    def icall(self, eng, st, ins, fnt, args, site):
        return [(st, 0)]


def withdraw(eng, st, cls):
    """states after running the cancel function of each clause"""
    states = [st]
    for cl, i, cancel in cls:
        nxt = []
        for s in states:
            if cancel == 0:
                nxt.append(s)
                continue
            if not (isinstance(cancel, tuple) and cancel[0] == 'g'):
                return None
            f = eng.prog.funcs.get(cancel[1])
            if f is None:
                return None
            nxt += [x for x, v in eng.run_in(s, f, [cl], pol=Sim())]
        states = nxt
    return states


class Waits(KApi):
    unroll = 8
    nclauses = None

    def __init__(self, k=None):
        self.nclauses = k

    def on_waitfor(self, eng, st, ins, rec):
        cl, i, cancel = rec
        self.sub.count('registrations')
        lo = st.interval(i)[0]
        if isinstance(i, int) and i < 0:
            eng.violate(st, ins, 'C02-id', 'registers a clause with a negative id')
        for (c2, i2, k2) in st.ps['cl'][:-1]:
            if i2 == i:
                eng.violate(st, ins, 'C02-id', 'registers two clauses under the same id, so the result cannot tell them apart')
            if c2 == cl:
                eng.violate(st, ins, 'C02-id', 'registers the same clause object twice')

    def on_wait(self, eng, st, ins, site):
        self.sub.count('suspensions')
        cls = st.ps.get('cl', ())
        tm = st.ps.get('tm', ())
        clhead = fld(eng.prog, CUR, 'dill_cr', 'clauses')
        closing = any(v == CUR and split(a)[0] != CUR and a != ctxfld(eng.prog, 'cr', 'r') for a, v, w in nonlocal_cells(st))
        forever = eng.entry.name == 'dill_msleep' or (eng.entry.name == 'dill_choose' and self.nclauses == 0)
        dl = ('arg', len(eng.entry.args) - 1, eng.entry.args[-1]['name'], 64) if eng.entry.args else 0
        if not cls and st.ps.get('enq') is None and not closing and not (forever and st.interval(dl)[1] < 0):
            eng.violate(st, ins, 'C02-lost', 'suspends with nothing registered that could resume it')
        bases = {split(cl)[0] for cl, i, c in cls}
        for cl, i, cancel in cls:
            b, lo, ix = split(cl)
            found = any(split(t)[0] == b for t, d in tm)
            for a, v, w in nonlocal_cells(st):
                vb, vo, vi = split(v)
                if vb == b and a != clhead and not (split(a)[0] in bases):
                    found = True
            if not found:
                eng.violate(st, ins, 'C02-unregistered', 'waits for a clause that nothing can reach to resume it')
        sims = withdraw(eng, st, cls)
        if sims is None:
            eng.violate(st, ins, 'C02-withdraw', 'the cancel function of a registered clause is not known')
            return
        for s in sims:
            self.sub.count('withdrawals')
            for a, v, w in nonlocal_cells(s):
                vb = split(v)[0]
                if isinstance(vb, tuple) and vb[0] == 'al' and vb in bases and a != clhead and not (split(a)[0] in bases):
                    eng.violate(st, ins, 'C02-withdraw', 'cancelling its clauses leaves %s pointing to a registration of the resumed coroutine' % place(eng.prog, a))
            if s.ps.get('tm', ()):
                eng.violate(st, ins, 'C02-withdraw', 'cancelling its clauses leaves a timer of the resumed coroutine armed')

    def on_ret(self, eng, st, val, ins):
        self.sub.count('returns')
        if st.ps.get('cl'):
            eng.violate(st, ins, 'C02-return-registered', 'returns while a registration of the caller is still in place')
        if st.ps.get('tm'):
            eng.violate(st, ins, 'C02-return-registered', 'returns while a timer of the caller is still armed')
        if st.ps.get('enq') is not None:
            eng.violate(st, ins, 'C02-return-queued', 'returns while the caller is in the ready queue')
        w = st.ps.get('wlast')
        if w is None:
            return
        tag, r = w
        n = eng.entry.name
        e = eng.errno(st)
        c = st.const(val)
        if tag == 'cancel' and not (c == -1 and st.const(e) == ECANCELED):
            eng.violate(st, ins, 'C02-result', 'a cancelled suspension is reported as %s with errno %s' % (show(val), ename(e)))
        elif tag == 'event-err' and n not in NOERR:
            good = val == r if n == 'dill_choose' else c == -1
            if not good or not (isinstance(e, tuple) and e[0] == 's' and e[1] == 'err' and e[2] == 'dill_wait'):
                eng.violate(st, ins, 'C02-result', 'an event that carries an error is reported as %s with errno %s' % (show(val), ename(e)))
        elif tag == 'event':
            good = val == r if n == 'dill_choose' else c == 0
            if not good:
                eng.violate(st, ins, 'C02-result', 'the event waited for is reported as %s with errno %s' % (show(val), ename(e)))
        elif tag == 'resumed' and n == 'dill_yield' and c != 0:
            eng.violate(st, ins, 'C02-result', 'yielding reports %s' % show(val))


def place(prog, a):
    b, o, ix = split(a)
    return show(a)[:60]


class WaitRet(KApi):
    """dill_wait: what the resumed coroutine sees"""

    def on_ret(self, eng, st, val, ins):
        if not st.ps.get('resumed'):
            return
        self.sub.count('resumptions')
        p = eng.prog
        head = fld(p, CUR, 'dill_cr', 'clauses')
        if eng.load(st, head, 64) != head:
            eng.violate(st, ins, 'C02-resume', 'the clause list of a resumed coroutine is not emptied')
        if eng.errno(st) != fread(eng, st, CUR, 'dill_cr', 'err'):
            eng.violate(st, ins, 'C02-resume', 'errno after a suspension is not the error it was resumed with')
        if val != fread(eng, st, CUR, 'dill_cr', 'id'):
            eng.violate(st, ins, 'C02-resume', 'the result of a suspension is not the id it was resumed with')


V = shape('V')


class Resumer(KApi):
    """shape-based check of the resuming side; mode: trigger | close | close-ready | epilogue | epilogue-ready"""
    concrete = True
    heap_fail = False

    def __init__(self, mode, n, nulls, queue):
        self.mode, self.n, self.nulls, self.nq = mode, n, nulls, queue

    def start(self, eng, st, fn):
        h = Heap(eng, st)
        p = eng.prog
        self.cls = [shape('c%d' % i) for i in range(self.n)]
        h.slist(h.addr(V, 'dill_cr', 'clauses'), [h.addr(c, 'dill_clause', 'item') for c in self.cls])
        for i, c in enumerate(self.cls):
            h.put(c, 'dill_clause', ('cr',), V)
            h.put(c, 'dill_clause', ('id',), 10 + i)
            h.put(c, 'dill_clause', ('cancel',), 0 if i in self.nulls else shape('cancel%d' % i))
        others = [h.addr(shape('R%d' % i), 'dill_cr', 'ready') for i in range(self.nq)]
        self.ready = h.addr(V, 'dill_cr', 'ready')
        inq = self.mode.endswith('-ready')
        h.qlist(ctxfld(p, 'cr', 'ready'), others + ([self.ready] if inq else []))
        if not inq:
            h.put(V, 'dill_cr', ('ready', 'next'), 0)
        self.expect = others + [self.ready]
        for b in ('no_blocking1', 'no_blocking2', 'done', 'mem'):
            h.put(V, 'dill_cr', (b,), 0)
        st.ps['calls'] = ()
        if self.mode.startswith('epilogue'):
            h.put(CUR, 'dill_cr', ('closer',), V)
            h.put(CUR, 'dill_cr', ('no_blocking1',), 1)
            h.put(CUR, 'dill_cr', ('clauses', 'next'), h.addr(CUR, 'dill_cr', 'clauses'))
        if self.mode.startswith('close'):
            h.put(V, 'dill_cr', ('closer',), 0)

    def icall(self, eng, st, ins, fnt, args, site):
        self.sub.count('cancel_calls')
        if walk_q(eng, st, ctxfld(eng.prog, 'cr', 'ready')) == self.expect and not self.mode.endswith('-ready'):
            eng.violate(st, ins, 'C02-order', 'a clause is cancelled after its coroutine was made ready')
        st.ps['calls'] = st.ps['calls'] + ((fnt, args[0]),)
        # the cancel function may reuse the clause object; links were read before or are re-read
        return [(st, 0)]

    def done(self, eng, st, ins):
        self.sub.count('resume_shapes')
        want = tuple(sorted(repr((shape('cancel%d' % i), c)) for i, c in enumerate(self.cls) if i not in self.nulls))
        if self.mode.endswith('-ready'):
            want = ()
        got = tuple(sorted(repr(x) for x in st.ps['calls']))
        if got != want:
            eng.violate(st, ins, 'C02-cancel-all', 'resuming a coroutine does not cancel each of its registrations exactly once')
        q = walk_q(eng, st, ctxfld(eng.prog, 'cr', 'ready'))
        if q != self.expect:
            eng.violate(st, ins, 'C02-enqueue', 'the resumed coroutine is not in the ready queue exactly once, at its end')
        if self.mode.endswith('-ready'):
            return
        i = fread(eng, st, V, 'dill_cr', 'id')
        e = fread(eng, st, V, 'dill_cr', 'err')
        if self.mode == 'trigger':
            wi, we = 10 + self.which, ('arg', 1, eng.entry.args[1]['name'], 32)
        else:
            wi, we = -1, (ECANCELED if self.mode == 'close' else 0)
        if i != wi:
            eng.violate(st, ins, 'C02-resume-id', 'the coroutine is resumed with id %s instead of %s' % (show(i), show(wi)))
        if e != we:
            eng.violate(st, ins, 'C02-resume-err', 'the coroutine is resumed with error %s instead of %s' % (ename(e), ename(we)))

    which = 0

    def c_dill_wait(self, eng, st, ins, args, site):
        self.done(eng, st, ins)
        return []

    def on_ret(self, eng, st, val, ins):
        if self.mode == 'trigger':
            self.done(eng, st, ins)
        else:
            eng.violate(st, ins, 'C02-closed-early', 'returns without waiting for the coroutine')

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C02-abort', 'the process is aborted when %s' %
                    {'trigger': 'a suspended coroutine is resumed', 'close': 'a suspended coroutine is closed',
                     'close-ready': 'a coroutine that is already ready is closed',
                     'epilogue': 'a coroutine that is being closed ends',
                     'epilogue-ready': 'a coroutine ends whose closer was already made ready'}[self.mode])


def check(ctx):
    ctx.rule('C02-id', 'clauses registered for one wait have distinct non-negative ids and distinct objects')
    ctx.rule('C02-lost', 'a coroutine suspends only with something that can resume it')
    ctx.rule('C02-unregistered', 'each clause is reachable from a structure that can trigger it')
    ctx.rule('C02-withdraw', 'running the cancel function of each clause removes every outside reference to the clauses')
    ctx.rule('C02-return-registered', 'no return with a clause or timer in place, or queued (C02-return-queued)')
    ctx.rule('C02-result', 'return value and errno tell how the suspension ended')
    ctx.rule('C02-resume', 'the resumed coroutine starts with an empty clause list and the id and error it was given')
    ctx.rule('C02-cancel-all', 'resuming cancels every clause once, before (C02-order) the coroutine is queued once (C02-enqueue)')
    ctx.rule('C02-abort', 'a coroutine already made ready is not resumed again')
    jobs = []
    for c in ctx.configs:
        p = ctx.prog(c)
        for n in WAITERS:
            f = ctx.func(p, n)
            if n == 'dill_choose':
                for k in (0, 1, 2):
                    jobs.append(engine_job(c, p, f, lambda k=k: Waits(k), 'waiters', args={1: k}))
            else:
                jobs.append(engine_job(c, p, f, Waits, 'waiters'))
        close = p.funcs[hvfs_close(p, 'dill_prologue')]
        jobs.append(engine_job(c, p, ctx.func(p, 'dill_wait'), WaitRet))
        for n, nulls in ((0, ()), (1, ()), (1, (0,)), (2, ()), (2, (0,)), (3, ()), (3, (1,)), (3, (2,))):
            for q in (0, 1):
                for k in range(n):
                    def mk(n=n, nulls=nulls, q=q, k=k):
                        r = Resumer('trigger', n, nulls, q)
                        r.which = k
                        return r
                    jobs.append(engine_job(c, p, ctx.func(p, 'dill_trigger'), mk, args={0: shape('c%d' % k)}))
                vf = padd(V, p.field('dill_cr', 'vfs')[0])
                jobs.append(engine_job(c, p, close, lambda n=n, nulls=nulls, q=q: Resumer('close', n, nulls, q), args={0: vf}))
                jobs.append(engine_job(c, p, ctx.func(p, 'dill_epilogue'), lambda n=n, nulls=nulls, q=q: Resumer('epilogue', n, nulls, q)))
                if n < 2 and not nulls:
                    jobs.append(engine_job(c, p, close, lambda n=n, nulls=nulls, q=q: Resumer('close-ready', n, nulls, q), args={0: vf}))
                    jobs.append(engine_job(c, p, ctx.func(p, 'dill_epilogue'), lambda n=n, nulls=nulls, q=q: Resumer('epilogue-ready', n, nulls, q)))
    ctx.run_jobs(jobs)
    n = len(ctx.configs)
    ctx.minimum('registrations', 12 * n)
    ctx.minimum('suspensions', 12 * n)
    ctx.minimum('withdrawals', 12 * n)
    ctx.minimum('resume_shapes', 60 * n)
    ctx.minimum('resumptions', n)
    # every function of the library that suspends was visited
    for c in ctx.configs:
        p = ctx.prog(c)
        for f in p.funcs.values():
            if any(g.name == 'dill_wait' for g in callees(p, f)) and f.key not in ctx.funcs and f.name not in ctx.funcs:
                ctx.violation('C02-lost', f.name, 'suspends the caller but is not reached from any blocking call analysed', f.file)
