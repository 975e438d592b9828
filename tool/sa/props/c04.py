"""Channel transfers: once, whole, to the longest-waiting partner on the right side."""
from props.chanshape import *
from driver import engine_job

EXPLAIN = """Abstract interpretation of dill_chsend, dill_chrecv and dill_choose (with everything below the handle table
inlined) over a shape abstraction of channels: each of the lists of waiting senders and receivers of both directions of
two channels has 0, 1 or 2 members, every done flag is either value, message sizes and buffers are unknown symbols. On
every path the final heap is compared with the outcome the property prescribes: which waiting coroutine was made ready,
with which id and error, which bytes were copied from where to where before that, which lists changed, what is returned;
or that the caller suspended with exactly the right registrations at the end of the right lists."""

SEND, RECV = 1, 2
H = {100: (CH, 0), 101: (CH, 1), 200: (CH2, 0), 201: (CH2, 1)}


def direction(op, h):
    """(list of partners, list to wait in, half whose done flag counts)"""
    ch, i = H[h]
    if op == SEND:
        return (ch, 1 - i, 'in'), (ch, 1 - i, 'out'), (ch, 1 - i)
    return (ch, i, 'out'), (ch, i, 'in'), (ch, i)


class Transfer(ChanShape):
    handles = H

    def __init__(self, ops, waiting, done, choose):
        ChanShape.__init__(self, waiting, done)
        self.ops = ops              # [(op, handle)]
        self.choose = choose

    def setup(self, eng, st, fn, h):
        self.val = [shape('myval%d' % i) for i in range(len(self.ops))]
        self.len = [('s', 'mylen%d' % i) for i in range(len(self.ops))]
        if self.choose:
            for i, (op, hd) in enumerate(self.ops):
                b = padd(shape('CLS'), i * eng.prog.sizeof('dill_chclause'))
                h.put(b, 'dill_chclause', ('op',), op)
                h.put(b, 'dill_chclause', ('ch',), hd)
                h.put(b, 'dill_chclause', ('val',), self.val[i])
                h.put(b, 'dill_chclause', ('len',), self.len[i])
        self.dl = fn.args[-1]['name']

    def args(self):
        if self.choose:
            return {0: shape('CLS'), 1: len(self.ops)}
        return {0: self.ops[0][1], 1: shape('myval0'), 2: ('s', 'mylen0')}

    def decided(self, st):
        """index of the clause that must be performed, or None"""
        for i, (op, h) in enumerate(self.ops):
            if op not in (SEND, RECV):
                return i, 'invalid'
            partners, mine, d = direction(op, h)
            if d in self.done:
                return i, 'done'
            if self.waiting.get(partners, 0):
                return i, 'partner'
        return None, None

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C04-abort', 'an internal check fails during a channel operation')

    def fail(self, eng, st, ins, rule, msg):
        eng.violate(st, ins, rule, msg + ' (%s)' % ('choose' if self.choose else 'send' if self.ops[0][0] == SEND else 'receive'))

    def unchanged(self, eng, st, ins, what):
        if self.lists(eng, st) != self.initial_lists():
            self.fail(eng, st, ins, 'C04-effect', what + ' changes who waits on a channel')
        if self.resumed(eng, st) != []:
            self.fail(eng, st, ins, 'C04-effect', what + ' resumes a coroutine')
        if st.ps['copies']:
            self.fail(eng, st, ins, 'C04-effect', what + ' copies data')

    def on_ret(self, eng, st, val, ins):
        self.sub.count('outcomes')
        if st.ps.get('waited'):
            return
        c = st.const(val)
        e = st.const(eng.errno(st))
        i, why = self.decided(st)
        failv = i if self.choose else -1
        if why is None:
            if c == -1 and e == ETIMEDOUT:
                self.unchanged(eng, st, ins, 'an operation that times out at once')
                return
            self.fail(eng, st, ins, 'C04-result', 'returns %s/%s at once although no partner is waiting' % (show(val), ename(eng.errno(st))))
            return
        if why == 'invalid':
            if not (c == failv and e == EINVAL):
                self.fail(eng, st, ins, 'C04-result', 'an invalid clause is reported as %s/%s' % (show(val), ename(eng.errno(st))))
            self.unchanged(eng, st, ins, 'an invalid clause')
            return
        if why == 'done':
            if not (c == failv and e == EPIPE):
                self.fail(eng, st, ins, 'C04-result', 'an operation on a finished direction is reported as %s/%s' % (show(val), ename(eng.errno(st))))
            self.unchanged(eng, st, ins, 'an operation on a finished direction')
            return
        op, h = self.ops[i]
        partners, mine, d = direction(op, h)
        if self.choose and e == EINVAL and c == i:
            # a null buffer with a size: cannot be, buffers are objects here
            self.fail(eng, st, ins, 'C04-result', 'a valid clause is refused')
            return
        w = self.names[partners][0][0]
        eq = mkeq(self.len[i], ('s', 'len_' + w))
        t = st.truth_of(eq)
        exp = self.initial_lists()
        exp[partners] = exp[partners][1:]
        got = self.lists(eng, st)
        res = self.resumed(eng, st)
        if t is None:
            self.fail(eng, st, ins, 'C04-size', 'completes without comparing the two sizes')
            return
        if got != exp:
            self.fail(eng, st, ins, 'C04-partner', 'completing an operation does not take exactly the longest-waiting partner off its list')
        if res is None or len(res) != 1 or res[0][0] != w or not res[0][1]:
            self.fail(eng, st, ins, 'C04-partner', 'completing an operation does not resume exactly the longest-waiting partner')
        if t:
            self.sub.count('transfers')
            src, dst = (self.val[i], shape('buf_' + w)) if op == SEND else (shape('buf_' + w), self.val[i])
            cps = st.ps['copies']
            good = len(cps) == 1 and cps[0][0] == dst and cps[0][1] == src and cps[0][2] in (self.len[i], ('s', 'len_' + w))
            if not good:
                self.fail(eng, st, ins, 'C04-copy', 'the message is not copied exactly once, whole, from the sender to the receiver buffer')
            elif cps[0][3] != 1:
                self.fail(eng, st, ins, 'C04-copy', 'the partner is resumed before the message is copied')
            if res and st.const(res[0][2]) != 0:
                self.fail(eng, st, ins, 'C04-result', 'the partner of a completed transfer is told error %s' % ename(res[0][2]))
            if not (c == (i if self.choose else 0)) or (self.choose and e != 0):
                self.fail(eng, st, ins, 'C04-result', 'a completed transfer is reported as %s/%s' % (show(val), ename(eng.errno(st))))
        else:
            self.sub.count('mismatches')
            if st.ps['copies']:
                self.fail(eng, st, ins, 'C04-size', 'data is copied although the sizes differ')
            if res and st.const(res[0][2]) != EMSGSIZE:
                self.fail(eng, st, ins, 'C04-size', 'the partner of a size mismatch is told error %s' % ename(res[0][2]))
            if not (c == failv and e == EMSGSIZE):
                self.fail(eng, st, ins, 'C04-size', 'a size mismatch is reported as %s/%s' % (show(val), ename(eng.errno(st))))

    def on_wait(self, eng, st, ins, site):
        if st.ps.get('waited'):
            return
        self.sub.count('suspensions')
        i, why = self.decided(st)
        if why is not None:
            self.fail(eng, st, ins, 'C04-nowait', 'suspends although %s' %
                      {'partner': 'a partner is waiting', 'done': 'the direction is finished', 'invalid': 'the clause is invalid'}[why])
            return
        dl = ('arg', len(eng.entry.args) - 1, self.dl, 64)
        if 0 not in st.interval(dl)[2] and st.interval(dl)[0] <= 0 <= st.interval(dl)[1]:
            self.fail(eng, st, ins, 'C04-nowait', 'suspends without excluding a deadline of zero')
        exp = self.initial_lists()
        cls = {split(cl)[:2]: (cl, k) for cl, k, cancel in st.ps.get('cl', ())}
        got = self.lists(eng, st)
        if got is None:
            self.fail(eng, st, ins, 'C04-register', 'a list of waiting coroutines is damaged')
            return
        ioff = eng.prog.field('dill_chanclause', 'item')[0]
        new = {}
        for k, v in exp.items():
            if got[k][:len(v)] != v:
                self.fail(eng, st, ins, 'C04-register', 'registering disturbs those already waiting, or jumps the queue')
                return
            new[k] = walk(eng, st, fld(eng.prog, half(self.p, k[0], k[1]), 'dill_halfchan', k[2]))[len(v):]
        for i, (op, h) in enumerate(self.ops):
            partners, mine, d = direction(op, h)
            hit = None
            for x in new.get(mine, []):
                c = padd(x, -ioff)
                v = fread(eng, st, c, 'dill_chanclause', 'val')
                l = fread(eng, st, c, 'dill_chanclause', 'len')
                ident = [k for cl, k, cancel in st.ps.get('cl', ()) if cl == padd(c, eng.prog.field('dill_chanclause', 'cl')[0])]
                if v == self.val[i] and l == self.len[i] and ident == [i]:
                    hit = x
                    break
            if hit is None:
                self.fail(eng, st, ins, 'C04-register', 'a waiting operation is not registered with its own buffer, size and index on the right list')
                return
            new[mine].remove(hit)
        if any(new.values()):
            self.fail(eng, st, ins, 'C04-register', 'a waiting operation is registered on a list where it does not belong')

    def c_dill_wait(self, eng, st, ins, args, site):
        self.on_wait(eng, st, ins, site)
        return []


class Enter(KApi):
    """dill_choose: malformed arguments"""

    def on_ret(self, eng, st, val, ins):
        n = ('arg', 1, eng.entry.args[1]['name'], 32)
        p = ('arg', 0, eng.entry.args[0]['name'], 64)
        lo, hi, ne = st.interval(n)
        bad = hi < 0 or (st.const(p) == 0 and (lo > 0 or 0 in ne))
        self.sub.count('outcomes')
        if bad and not (st.const(val) == -1 and st.const(eng.errno(st)) in (EINVAL, ECANCELED)):
            eng.violate(st, ins, 'C04-args', 'a malformed clause array is accepted')


def check(ctx):
    ctx.rule('C04-partner', 'the first waiting partner, and only it, leaves its list and is resumed with its own id')
    ctx.rule('C04-copy', 'one copy of the whole message, sender buffer to receiver buffer, before the partner is resumed')
    ctx.rule('C04-size', 'sizes are compared; on a mismatch nothing is copied and both sides get EMSGSIZE')
    ctx.rule('C04-result', 'result and errno of caller and partner')
    ctx.rule('C04-effect', 'an operation that fails at once changes nothing')
    ctx.rule('C04-nowait', 'no suspension when the operation can complete or the deadline is zero')
    ctx.rule('C04-register', 'a suspended operation is registered once, last, on the right list with buffer, size and index')
    jobs = []
    for c in ctx.configs:
        p = ctx.prog(c)
        fs, fr, fc = ctx.func(p, 'dill_chsend'), ctx.func(p, 'dill_chrecv'), ctx.func(p, 'dill_choose')

        def add(fn, ops, waiting, done=(), choose=False):
            t = Transfer(ops, waiting, done, choose)
            jobs.append(engine_job(c, p, fn, lambda: t, 'scenarios', args=t.args()))
        for op, fn in ((SEND, fs), (RECV, fr)):
            for h in (100, 101):
                partners, mine, d = direction(op, h)
                ch, i = H[h]
                opp = (ch, 1 - d[1])
                other = {(ch, opp[1], 'in'): 1, (ch, opp[1], 'out'): 1}
                for n in (0, 1, 2):
                    for extra in ({}, other):
                        add(fn, [(op, h)], dict(extra, **{}) | {partners: n})
                        add(fn, [(op, h)], dict(extra) | {partners: n}, done=(opp,))
                add(fn, [(op, h)], {mine: 2})
                add(fn, [(op, h)], {}, done=(d,))
                add(fn, [(op, h)], {partners: 1}, done=(d,))
                add(fc, [(op, h)], {partners: 2}, choose=True)
                add(fc, [(op, h)], {mine: 1}, choose=True)
                add(fc, [(op, h)], {}, done=(d,), choose=True)
        combos = [(SEND, 100), (RECV, 100), (SEND, 101), (RECV, 101), (RECV, 200), (SEND, 200)]
        for a in combos[:2] + combos[3:4]:
            for b in combos:
                pa, ma, da = direction(*a)
                pb, mb, db = direction(*b)
                add(fc, [a, b], {}, choose=True)
                if pb != ma:
                    add(fc, [a, b], {pb: 1}, choose=True)
                add(fc, [a, b], {pa: 1} | ({pb: 1} if pb != pa and pb != ma else {}), choose=True)
                if db != da:
                    add(fc, [a, b], {}, done=(db,), choose=True)
        add(fc, [(7, 100)], {}, choose=True)
        add(fc, [(RECV, 100), (7, 100)], {}, choose=True)
        add(fc, [(RECV, 100), (SEND, 200), (RECV, 201)], {(CH2, 1, 'in'): 1}, choose=True)
        add(fc, [(RECV, 100), (SEND, 200), (RECV, 201)], {}, choose=True)
        add(fc, [], {}, choose=True)
        for k in (-1, 1):
            jobs.append(engine_job(c, p, fc, Enter, 'scenarios', args={1: k, 0: 0}))
    ctx.run_jobs(jobs)
    n = len(ctx.configs)
    ctx.minimum('scenarios', 100 * n)
    ctx.minimum('transfers', 20 * n)
    ctx.minimum('mismatches', 20 * n)
    ctx.minimum('suspensions', 20 * n)
