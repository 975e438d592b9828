"""The scheduler."""
from kernel import *
from driver import engine_job
from props.c21 import Tree, T as _T

EXPLAIN = """Abstract interpretation of dill_wait, dill_yield, dill_trigger, dill_prologue and the coroutine clean-up over a shape abstraction of
the scheduler: ready queues with 0 to 3 coroutines, sets of 0 to 3 timers in a real timer tree (overdue, due exactly now,
due soon, due so far away that the distance does not fit an int), the last poll at various times in the past. Polling is
abstracted by its possible outcomes (interrupted, nothing, an event that makes a coroutine ready) with the time passing
meanwhile. At each poll the timeout, and at the switch to the next coroutine the queue, the timers fired and the coroutine
switched to, are compared with the property. Up to four polls per suspension are followed."""

NOW = 100000
INT_MAX = (1 << 31) - 1


def rd(i):
    return shape('ready%d' % i)


def tm(i):
    return shape('tmcl%d' % i)


def tw(i):
    return shape('sleeper%d' % i)


class Sched(KApi):
    concrete = True
    max_time = 30
    max_visits = 60
    heap_fail = False
    prims = {k: v for k, v in KApi.prims.items() if k not in ('dill_trigger', 'dill_rbtree_insert', 'dill_rbtree_erase')}

    def __init__(self, nready, timers=(), last=NOW, maxpoll=4):
        self.nready, self.timers, self.last, self.maxpoll = nready, timers, last, maxpoll

    def coroutine(self, h, x, clauses=()):
        h.put(x, 'dill_cr', ('ready', 'next'), 0)
        h.slist(h.addr(x, 'dill_cr', 'clauses'), list(clauses))
        for f in ('done', 'mem', 'no_blocking1', 'no_blocking2', 'closer'):
            h.put(x, 'dill_cr', (f,), 0)

    def start(self, eng, st, fn):
        p = eng.prog
        h = Heap(eng, st)
        self.coroutine(h, CUR)
        self.coroutine(h, shape('evt'))
        for i in range(self.nready):
            self.coroutine(h, rd(i))
        h.qlist(ctxfld(p, 'cr', 'ready'), [h.addr(rd(i), 'dill_cr', 'ready') for i in range(self.nready)])
        h.put(ctxfld(p, 'cr'), 'dill_ctx_cr', ('last_poll',), self.last)
        tree = ctxfld(p, 'cr', 'timers')
        self.tree = tree
        tr = Tree(p)
        ti = p.field('dill_tmclause', 'item')[0]
        # sentinel-only tree, then a right-leaning black/red shape of up to three nodes: middle black, outer red
        f = lambda *a: p.field(*a)[0]
        root, nil = padd(tree, f('dill_rbtree', 'root')), padd(tree, f('dill_rbtree', 'nil'))
        for s in (root, nil):
            for k in ('left', 'right', 'up'):
                tr.put(eng, st, s, k, nil)
            tr.put(eng, st, s, 'red', 0)
            tr.put(eng, st, s, 'val', 0)
        idx = sorted(range(len(self.timers)), key=lambda i: self.timers[i])
        items = [padd(tm(i), ti) for i in idx]
        for i in idx:
            x = padd(tm(i), ti)
            for k, v in (('left', nil), ('right', nil), ('up', nil), ('red', 1), ('val', self.timers[i])):
                tr.put(eng, st, x, k, v)
            self.coroutine(h, tw(i), [h.addr(tm(i), 'dill_tmclause', 'cl', 'item')])
            h.put(tm(i), 'dill_tmclause', ('cl', 'cr'), tw(i))
            h.put(tm(i), 'dill_tmclause', ('cl', 'id'), 50 + i)
            h.put(tm(i), 'dill_tmclause', ('cl', 'cancel'), ('g', self.timer_cancel_fn(eng)))
        n = len(items)
        if n:
            mid = 1 if n == 3 else 0
            top = items[mid]
            tr.put(eng, st, top, 'red', 0)
            tr.put(eng, st, top, 'up', root)
            tr.put(eng, st, root, 'left', top)
            for j, x in enumerate(items):
                if j != mid:
                    tr.put(eng, st, x, 'up', top)
                    tr.put(eng, st, top, 'left' if j < mid else 'right', x)
        st.ps.update(t=NOW, polls=0, evt=(), known=None)
        self.root, self.nil, self.tr, self.ti = root, nil, tr, ti

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C22-abort', 'an internal check fails')

    def queue(self, eng, st):
        off = eng.prog.field('dill_cr', 'ready')[0]
        w = walk_q(eng, st, ctxfld(eng.prog, 'cr', 'ready'))
        return None if w is None else [padd(x, -off) for x in w]

    def pending(self, eng, st):
        out = []

        def go(x, d=0):
            if x == self.nil or d > 20:
                return
            go(self.tr.get(eng, st, x, 'left'), d + 1)
            out.append(x)
            go(self.tr.get(eng, st, x, 'right'), d + 1)
        go(self.tr.get(eng, st, self.root, 'left'))
        return [padd(x, -self.ti) for x in out]

    # ---- time and polling
    def c_dill_now(self, eng, st, ins, args, site):
        st.ps['known'] = st.ps['t']
        return [(st, st.ps['t'])]

    c_dill_mnow = c_dill_now

    def c_dill_pollset_poll(self, eng, st, ins, args, site):
        self.sub.count('polls')
        q = self.queue(eng, st)
        pend = self.pending(eng, st)
        to = st.const(args[0])
        ps = st.ps
        if to is not None and to >= 1 << 31:
            to -= 1 << 32
        if q is None or to is None:
            eng.violate(st, ins, 'C22-sleep', 'the poll timeout or the ready queue is undetermined')
            return []
        if q and to != 0:
            eng.violate(st, ins, 'C22-sleep', 'the thread may sleep although a coroutine is ready')
        if not q:
            if not pend and to >= 0:
                eng.violate(st, ins, 'C22-sleep', 'the thread does not sleep indefinitely although there is nothing to wait for but events')
            if pend:
                left = min(self.timers[self.timer_index(x)] for x in pend) - ps['t']
                if to < 0 or to > max(left, 0):
                    eng.violate(st, ins, 'C22-sleep', 'the thread may sleep past the earliest timer')
                if left > 0 and to == 0:
                    eng.violate(st, ins, 'C22-sleep', 'the thread does not sleep although nothing is due')
        ps['polls'] += 1
        if ps['polls'] > self.maxpoll:
            return []
        outs = []

        def out(r, dt, ev=False):
            s = st.copy()
            s.ps['t'] += dt
            s.ps['last_t'] = s.ps['t']
            s.ps['evt'] = s.ps['evt'] + ((r, ev),)
            if ev:
                h = Heap(eng, s)
                off = h.addr(shape('evt'), 'dill_cr', 'ready')
                if shape('evt') not in q:
                    h.qlist(ctxfld(eng.prog, 'cr', 'ready'), [h.addr(x, 'dill_cr', 'ready') for x in q] + [off])
                    s.ps['woken'] = True
            if r < 0:
                eng.set_errno(s, EINTR)
            outs.append((s, r))
        d = 0 if to == 0 else 1
        out(-1, d)
        out(1, d, True)
        if to >= 0:
            out(0, to)
            if to > 0:
                out(0, to + 3)
                if to > 1:
                    out(0, to - 1)
        return outs

    def timer_index(self, x):
        for i in range(len(self.timers)):
            if x == tm(i):
                return i
        return 0

    def on_store(self, eng, st, addr, val, bits, ins):
        KApi.on_store(self, eng, st, addr, val, bits, ins)

    # ---- the switch
    def on_switch(self, eng, st, ins):
        self.sub.count('switches')
        p = eng.prog
        ps = st.ps
        r = eng.load(st, ctxfld(p, 'cr', 'r'), 64)
        q = self.queue(eng, st)
        if q is None:
            eng.violate(st, ins, 'C22-order', 'the ready queue is broken after taking a coroutine from it')
            return
        if st.const(fread(eng, st, r, 'dill_cr', 'ready', 'next')) != 0:
            eng.violate(st, ins, 'C22-order', 'the coroutine that runs still counts as being in the ready queue')
        full = [r] + q
        polled = ps['polls'] > 0
        if not polled:
            if ps['t'] >= self.last + 2000:
                eng.violate(st, ins, 'C22-poll', 'events and timers are not looked at although the last poll was %d ms ago' % (ps['t'] - self.last))
            if eng.load(st, ctxfld(p, 'cr', 'last_poll'), 64) != self.last:
                eng.violate(st, ins, 'C22-poll', 'the time of the last poll changes without a poll')
            fired = []
        else:
            lp = st.const(eng.load(st, ctxfld(p, 'cr', 'last_poll'), 64))
            if lp is None or lp > ps['t'] or lp < NOW:
                eng.violate(st, ins, 'C22-poll', 'the time of the last poll is recorded wrong')
            t = ps['t']
            fired = sorted((v, i) for i, v in enumerate(self.timers) if v <= t)
        pend = self.pending(eng, st)
        must = [tw(i) for v, i in fired]
        for i, v in enumerate(self.timers):
            inq = full.count(tw(i))
            if tm(i) in pend:
                if inq:
                    eng.violate(st, ins, 'C22-timers', 'a timer stays pending although its coroutine was woken')
                elif tw(i) in must:
                    eng.violate(st, ins, 'C22-timers', 'a timer that is due is not fired')
            else:
                if v > ps['t']:
                    eng.violate(st, ins, 'C22-timers', 'a timer is fired early')
                if inq != 1:
                    eng.violate(st, ins, 'C22-timers', 'firing a timer does not make its coroutine ready exactly once')
                elif st.const(fread(eng, st, tw(i), 'dill_cr', 'id')) != 50 + i or \
                        st.const(fread(eng, st, tw(i), 'dill_cr', 'err')) != ETIMEDOUT:
                    eng.violate(st, ins, 'C22-timers', 'firing a timer does not report expiry with the id of the wait')
        # order: those ready before, then the one an event woke, then timers by deadline
        want = [rd(i) for i in range(self.nready)] + ([shape('evt')] if ps.get('woken') else [])
        rest = [x for x in full if x not in must]
        if rest != want:
            eng.violate(st, ins, 'C22-order', 'coroutines do not become running in the order in which they became ready')
        tv = {tw(i): v for i, v in enumerate(self.timers)}
        got = [tv[x] for x in full if x in tv]
        if got != sorted(got):
            eng.violate(st, ins, 'C22-timers', 'timers are not fired in the order of their deadlines')
        before = [x for x in full[:full.index(must[0])] if x in want] if must and must[0] in full else want
        if before[:self.nready] != want[:self.nready]:
            eng.violate(st, ins, 'C22-order', 'a coroutine that became ready later overtakes one that was ready')

    def on_ret(self, eng, st, val, ins):
        self.sub.count('returns')
        if not st.ps.get('resumed'):
            eng.violate(st, ins, 'C22-order', 'suspending returns without switching')


class Resume(Sched):
    """the coroutine is switched to: id and error it was resumed with"""

    def start(self, eng, st, fn):
        Sched.start(self, eng, st, fn)
        h = Heap(eng, st)
        h.put(CUR, 'dill_cr', ('id',), 33)
        h.put(CUR, 'dill_cr', ('err',), 44)
        h.slist(h.addr(CUR, 'dill_cr', 'clauses'), [shape('it1'), shape('it2')])

    def setjmp(self, eng, st, ins, site):
        st.ps['resumed'] = True
        return [(st, 1)]

    def on_ret(self, eng, st, val, ins):
        self.sub.count('returns')
        if st.const(val) != 33 or st.const(eng.errno(st)) != 44:
            eng.violate(st, ins, 'C22-result', 'a resumed coroutine does not get the id and error it was resumed with')
        hd = fld(eng.prog, CUR, 'dill_cr', 'clauses')
        if eng.load(st, hd, 64) != hd:
            eng.violate(st, ins, 'C22-result', 'a resumed coroutine keeps registrations')


class Push(Sched):
    """operations that make a coroutine ready put it at the end of the queue, once"""

    def __init__(self, nready, who, id_, err, at):
        Sched.__init__(self, nready)
        self.who, self.id_, self.err, self.at = who, id_, err, at

    def start(self, eng, st, fn):
        Sched.start(self, eng, st, fn)
        h = Heap(eng, st)
        W, cl = shape('W'), shape('wcl')
        self.coroutine(h, W, [h.addr(cl, 'dill_clause', 'item')])
        h.put(cl, 'dill_clause', ('cr',), W)
        h.put(cl, 'dill_clause', ('id',), 9)
        h.put(cl, 'dill_clause', ('cancel',), 0)

    def c_dill_hquery(self, eng, st, ins, args, site):
        return [(st, shape('bndl'))]

    def c_dill_allocstack(self, eng, st, ins, args, site):
        eng.store(st, args[0], 65536, 64)
        return [(st, shape('STK'))]

    def done(self, eng, st, ins):
        self.sub.count('pushes')
        want = [rd(i) for i in range(self.nready)] + [self.who]
        if self.queue(eng, st) != want:
            eng.violate(st, ins, 'C22-order', 'a coroutine made ready is not put at the end of the ready queue exactly once')
        elif st.const(fread(eng, st, self.who, 'dill_cr', 'id')) != self.id_ or \
                fread(eng, st, self.who, 'dill_cr', 'err') != self.err and st.const(fread(eng, st, self.who, 'dill_cr', 'err')) != self.err:
            eng.violate(st, ins, 'C22-result', 'a coroutine is made ready with the wrong id or error')

    def c_dill_wait(self, eng, st, ins, args, site):
        if self.at == 'wait':
            self.done(eng, st, ins)
        return []

    def on_ret(self, eng, st, val, ins):
        if self.at == 'ret':
            self.done(eng, st, ins)
        else:
            eng.violate(st, ins, 'C22-order', 'yielding does not suspend')


def check(ctx):
    ctx.rule('C22-sleep', 'sleeps only when nothing is ready, never past the earliest timer, indefinitely only without timers')
    ctx.rule('C22-poll', 'polls at least once per two seconds even if coroutines are always ready')
    ctx.rule('C22-timers', 'all due timers fire at once, in order, none early, each waking its coroutine once')
    ctx.rule('C22-order', 'first ready, first run; each once')
    ctx.rule('C22-result', 'a coroutine is resumed with the id and error it was given')
    jobs = []
    N = NOW
    tsets = [(), (N - 5,), (N,), (N + 1,), (N + 7,), (N + 7, N - 5), (N, N - 5), (N + 3, N, N), (N + 9, N + 9), (N + 20, N + 4, N - 3),
             (N + (1 << 33) + 5,), (N + (1 << 31) + 5,), (N + INT_MAX + 1,), (N + (1 << 33) + 5, N + 2), (N + 5, N + 6)]
    for c in ctx.configs:
        p = ctx.prog(c)
        ctx.cur = c
        w = ctx.func(p, 'dill_wait')
        for nr in (0, 1, 2, 3):
            for ts in tsets:
                for last in (N, N - 500, N - 999, N - 2000, N - 5000):
                    if nr == 0 and last not in (N, N - 5000):
                        continue
                    jobs.append(engine_job(c, p, w, lambda nr=nr, ts=ts, last=last: Sched(nr, ts, last), 'scenarios'))
        jobs.append(engine_job(c, p, w, lambda: Resume(1), 'scenarios'))
        for nr in (0, 1, 2):
            jobs.append(engine_job(c, p, ctx.func(p, 'dill_yield'), lambda nr=nr: Push(nr, CUR, 0, 0, 'wait'), 'scenarios'))
            jobs.append(engine_job(c, p, ctx.func(p, 'dill_trigger'), lambda nr=nr: Push(nr, shape('W'), 9, 71, 'ret'), 'scenarios',
                                   args={0: shape('wcl'), 1: 71}))
    ctx.run_jobs(jobs)
    n = len(ctx.configs)
    for k, m in (('scenarios', 200), ('switches', 300), ('polls', 300), ('returns', 1), ('pushes', 6)):
        ctx.minimum(k, m * n)
