"""Ending a channel: done and close."""
from props.chanshape import *
from driver import engine_job

EXPLAIN = """Abstract interpretation of dill_chdone, of the close function of a channel end and of the channel constructors
over the shape abstraction of channels (each list of waiting senders and receivers of each direction has 0 to 2 members,
all done/closed/mem flags, both ends). Final heaps are compared with what the property prescribes: who was resumed with
EPIPE, which lists are empty, which flags changed, whether the memory was released (once, only if library-allocated, only
by the second close, and not touched afterwards). That sends and receives honour the done flag is part of C04."""


class Done(ChanShape):
    handles = {100: (CH, 0), 101: (CH, 1)}

    def __init__(self, h, waiting, done):
        ChanShape.__init__(self, waiting, done)
        self.h = h

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C05-abort', 'an internal check fails while a direction is marked done')

    def on_ret(self, eng, st, val, ins):
        self.sub.count('outcomes')
        p = eng.prog
        d = 1 - self.handles[self.h][1]
        got, res = self.lists(eng, st), self.resumed(eng, st)
        c, e = st.const(val), st.const(eng.errno(st))
        flags = {i: st.const(fread(eng, st, half(p, CH, i), 'dill_halfchan', 'done')) for i in (0, 1)}
        if (CH, d) in self.done:
            if not (c == -1 and e == EPIPE):
                eng.violate(st, ins, 'C05-again', 'marking a direction done twice is reported as %s/%s' % (show(val), ename(eng.errno(st))))
            if got != self.initial_lists() or res != []:
                eng.violate(st, ins, 'C05-again', 'a second done has an effect on waiting coroutines')
            return
        if c != 0:
            eng.violate(st, ins, 'C05-done', 'marking a direction done is reported as %s/%s' % (show(val), ename(eng.errno(st))))
            return
        if flags[d] != 1 or flags[1 - d] != int((CH, 1 - d) in self.done):
            eng.violate(st, ins, 'C05-done', 'done does not mark exactly its own direction')
        exp = self.initial_lists()
        want = []
        for l in ('in', 'out'):
            want += [(n, True, EPIPE) for n in exp[(CH, d, l)]]
            exp[(CH, d, l)] = []
        if got != exp:
            eng.violate(st, ins, 'C05-wake', 'done does not withdraw exactly those waiting in its own direction')
        if res is None or sorted((n, ok, st.const(x)) for n, ok, x in res) != sorted(want):
            eng.violate(st, ins, 'C05-wake', 'done does not resume everyone waiting in its direction, once, with EPIPE')


class Close(ChanShape):
    def __init__(self, which, waiting, closed, mem, done=()):
        ChanShape.__init__(self, waiting, done, closed, mem)
        self.which = which

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C05-abort', 'an internal check fails while a channel end is closed')

    def ev(self, eng, st, ins, kind, *data):
        if kind == 'free':
            st.ps['freed'] = st.ps.get('freed', ()) + (data[0],)

    def touch(self, eng, st, addr, ins):
        if st.ps.get('freed') and split(addr)[0] == CH:
            eng.violate(st, ins, 'C05-after-free', 'the channel is used after its memory was released')

    def on_load(self, eng, st, addr, val, bits, ins):
        self.touch(eng, st, addr, ins)

    def on_store(self, eng, st, addr, val, bits, ins):
        self.touch(eng, st, addr, ins)
        ChanShape.on_store(self, eng, st, addr, val, bits, ins)

    def on_ret(self, eng, st, val, ins):
        self.sub.count('outcomes')
        freed = st.ps.get('freed', ())
        got, res = self.lists(eng, st), self.resumed(eng, st)
        last = (CH, 1 - self.which) in self.closed
        if not last:
            if freed:
                eng.violate(st, ins, 'C05-free', 'the first close of a channel releases memory')
            if got != self.initial_lists() or res != []:
                eng.violate(st, ins, 'C05-first-close', 'closing the first end disturbs coroutines waiting on the channel')
            if st.const(fread(eng, st, half(eng.prog, CH, self.which), 'dill_halfchan', 'closed')) != 1 or \
                    st.const(fread(eng, st, half(eng.prog, CH, 1 - self.which), 'dill_halfchan', 'closed')) != 0:
                eng.violate(st, ins, 'C05-first-close', 'closing the first end does not record exactly that end as closed')
            return
        want = []
        exp = self.initial_lists()
        for k in exp:
            if k[0] == CH:
                want += [(n, True, EPIPE) for n in exp[k]]
                exp[k] = []
        if res is None or sorted((n, ok, st.const(x)) for n, ok, x in res) != sorted(want) or got != exp:
            eng.violate(st, ins, 'C05-wake', 'the second close does not resume every remaining waiter once with EPIPE')
        if self.mem:
            if freed:
                eng.violate(st, ins, 'C05-free', 'caller-supplied channel memory is released')
        elif freed != (CH,):
            eng.violate(st, ins, 'C05-free', 'the second close does not release the channel memory exactly once')


class Make(KApi):
    """constructors: initial state of both ends"""
    concrete = True

    def __init__(self, mem):
        self.mem = mem

    def on_ret(self, eng, st, val, ins):
        if st.const(val) != 0:
            return
        self.sub.count('channels_made')
        p = eng.prog
        made = st.ps.get('made', ())
        if len(made) != 2:
            eng.violate(st, ins, 'C05-make', 'a channel is created with %d handles' % len(made))
            return
        voff = p.field('dill_halfchan', 'vfs')[0]
        a, b = padd(made[0][0], -voff), padd(made[1][0], -voff)
        if b != padd(a, p.sizeof('dill_halfchan')):
            eng.violate(st, ins, 'C05-make', 'the two ends of a channel are not next to each other')
        for i, x in enumerate((a, b)):
            for f, v in (('index', i), ('done', 0), ('closed', 0), ('mem', self.mem)):
                if st.const(fread(eng, st, x, 'dill_halfchan', f)) != v:
                    eng.violate(st, ins, 'C05-make', 'end %d of a new channel has %s = %s' % (i, f, show(fread(eng, st, x, 'dill_halfchan', f))))
            for l in ('in', 'out'):
                if walk_list(eng, st, fld(p, x, 'dill_halfchan', l)) != []:
                    eng.violate(st, ins, 'C05-make', 'a new channel has a list of waiters that is not empty')
            out = eng.load(st, padd(('arg', self.outarg(eng), eng.entry.args[self.outarg(eng)]['name'], 64), 4 * i), 32)
            if out != made[i][1]:
                eng.violate(st, ins, 'C05-make', 'handle %d returned is not the handle of end %d' % (i, i))

    def outarg(self, eng):
        return len(eng.entry.args) - 1

    def after(self, eng, st, ins, name, args, tag, ret, site):
        KApi.after(self, eng, st, ins, name, args, tag, ret, site)
        if name == 'dill_hmake' and tag == 'ok':
            st.ps['made'] = st.ps.get('made', ()) + ((args[0], ret),)


def check(ctx):
    ctx.rule('C05-done', 'done marks its own direction only; again: EPIPE without effect (C05-again)')
    ctx.rule('C05-wake', 'everyone waiting in the direction is resumed once with EPIPE and withdrawn')
    ctx.rule('C05-first-close', 'the first close only records itself')
    ctx.rule('C05-free', 'the second close releases library memory once, caller memory never; no use after (C05-after-free)')
    ctx.rule('C05-make', 'both ends start open, not done, without waiters, adjacent, with the right owner of the memory')
    jobs = []
    for c in ctx.configs:
        p = ctx.prog(c)
        fd = ctx.func(p, 'dill_chdone')
        close = p.funcs[hvfs_close(p, 'dill_chmake')]
        for h in (100, 101):
            d = 1 - (h - 100)
            for a in (0, 1, 2):
                for b in (0, 1, 2):
                    for o in (0, 1):
                        for dn in ((), ((CH, d),), ((CH, 1 - d),)):
                            w = {(CH, d, 'in'): a, (CH, d, 'out'): b, (CH, 1 - d, 'in'): o, (CH, 1 - d, 'out'): o}
                            jobs.append(engine_job(c, p, fd, lambda h=h, w=w, dn=dn: Done(h, w, dn), 'scenarios', args={0: h}))
        for i in (0, 1):
            arg = padd(half(p, CH, i), p.field('dill_halfchan', 'vfs')[0])
            for cl in ((), ((CH, 1 - i),)):
                for mem in (0, 1):
                    for w in ((0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (2, 0, 0, 2), (0, 2, 1, 0), (2, 1, 1, 2)):
                        ww = dict(zip(((CH, 0, 'in'), (CH, 0, 'out'), (CH, 1, 'in'), (CH, 1, 'out')), w))
                        jobs.append(engine_job(c, p, close, lambda i=i, ww=ww, cl=cl, mem=mem: Close(i, ww, cl, mem), 'scenarios', args={0: arg}))
        jobs.append(engine_job(c, p, ctx.func(p, 'dill_chmake_mem'), lambda: Make(1)))
        jobs.append(engine_job(c, p, ctx.func(p, 'dill_chmake'), lambda: Make(0)))
    ctx.run_jobs(jobs)
    n = len(ctx.configs)
    ctx.minimum('scenarios', 150 * n)
    ctx.minimum('outcomes', 150 * n)
    ctx.minimum('channels_made', 2 * n)
