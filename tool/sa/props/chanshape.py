"""Shape abstraction of channels shared by C04 and C05."""
from kernel import *

CH = shape('CH')
CH2 = shape('CH2')
ENOTSUP_ = ENOTSUP


def half(prog, base, i):
    return padd(base, i * prog.sizeof('dill_halfchan'))


class ChanShape(KApi):
    """Two half-channels with known lists of waiting coroutines. Everything below the handle table is inlined."""
    concrete = True
    unroll = 20
    heap_fail = False
    prims = {k: v for k, v in KApi.prims.items() if k != 'dill_trigger'}
    handles = {}            # handle number -> (channel, half)

    # layout: {(channel, half, 'in'|'out'): number of waiters}; done: set of (channel, half)
    def __init__(self, waiting, done=(), closed=(), mem=0):
        self.waiting, self.done, self.closed, self.mem = waiting, done, closed, mem

    def cancel_fn(self, eng):
        v = getattr(eng.prog, '_chcancel', None)
        if v is None:
            # the function the send side registers for withdrawal
            class Grab(KApi):
                def on_waitfor(s, e, st, ins, rec):
                    s.got = rec[2] if getattr(s, 'got', None) is None or rec[2] != ('g', s.timer_cancel_fn(e)) else s.got
            g = Grab()
            g.got = None
            e = Engine(eng.prog, g)
            e.run(eng.prog.byname['dill_chsend'][0])
            v = eng.prog._chcancel = g.got or 0
        return v

    def waiter(self, eng, h, name, head_items, no):
        c = shape('cl_' + name)
        w = shape('co_' + name)
        cl = h.addr(c, 'dill_chanclause', 'cl')
        h.put(cl, 'dill_clause', ('cr',), w)
        h.put(cl, 'dill_clause', ('id',), 100 + no)
        h.put(cl, 'dill_clause', ('cancel',), self.cancel_fn(eng))
        h.slist(h.addr(w, 'dill_cr', 'clauses'), [h.addr(cl, 'dill_clause', 'item')])
        h.put(w, 'dill_cr', ('ready', 'next'), 0)
        h.put(c, 'dill_chanclause', ('val',), shape('buf_' + name))
        h.put(c, 'dill_chanclause', ('len',), ('s', 'len_' + name))
        head_items.append(h.addr(c, 'dill_chanclause', 'item'))

    def start(self, eng, st, fn):
        h = Heap(eng, st)
        self.p = p = eng.prog
        self.names = {}
        no = 0
        for ch in (CH, CH2):
            for i in (0, 1):
                b = half(p, ch, i)
                for lst in ('in', 'out'):
                    items = []
                    names = []
                    for k in range(self.waiting.get((ch, i, lst), 0)):
                        nm = '%s%d%s%d' % (ch[2], i, lst, k)
                        self.waiter(eng, h, nm, items, no)
                        names.append((nm, no))
                        no += 1
                    self.names[(ch, i, lst)] = names
                    h.list(h.addr(b, 'dill_halfchan', lst), items)
                h.put(b, 'dill_halfchan', ('index',), i)
                h.put(b, 'dill_halfchan', ('done',), int((ch, i) in self.done))
                h.put(b, 'dill_halfchan', ('mem',), self.mem)
                h.put(b, 'dill_halfchan', ('closed',), int((ch, i) in self.closed))
        h.qlist(ctxfld(p, 'cr', 'ready'), [h.addr(shape('R0'), 'dill_cr', 'ready')])
        for b in ('no_blocking1', 'no_blocking2'):
            h.put(CUR, 'dill_cr', (b,), 0)
        h.put(CUR, 'dill_cr', ('ready', 'next'), 0)
        hc = h.addr(CUR, 'dill_cr', 'clauses')
        h.put(CUR, 'dill_cr', ('clauses', 'next'), hc)
        st.ps['copies'] = ()
        self.setup(eng, st, fn, h)

    def setup(self, eng, st, fn, h):
        pass

    def c_dill_hquery(self, eng, st, ins, args, site):
        k = args[0]
        if isinstance(k, int) and k in self.handles:
            ch, i = self.handles[k]
            return [(st, half(self.p, ch, i))]
        eng.set_errno(st, EBADF)
        return [(st, 0)]

    def on_memcpy(self, eng, st, dst, src, n, ins):
        q = walk_q(eng, st, ctxfld(eng.prog, 'cr', 'ready'))
        st.ps['copies'] = st.ps['copies'] + ((dst, src, n, -1 if q is None else len(q)),)

    # ---- observations
    def lists(self, eng, st):
        """{(channel, half, list): [waiter names]} or None when a list is damaged"""
        out = {}
        off = eng.prog.field('dill_chanclause', 'item')[0]
        for ch in (CH, CH2):
            for i in (0, 1):
                for lst in ('in', 'out'):
                    w = walk_list(eng, st, fld(eng.prog, half(self.p, ch, i), 'dill_halfchan', lst))
                    if w is None:
                        return None
                    r = []
                    for x in w:
                        b, o, ix = split(x)
                        r.append(b[2][3:] if isinstance(b, tuple) and b[:2] == ('s', 'shape') and o == off else b)
                    out[(ch, i, lst)] = r
        return out

    def initial_lists(self):
        return {k: [n for n, _ in v] for k, v in self.names.items()}

    def resumed(self, eng, st):
        """[(waiter, id ok, error)] in ready-queue order, without the coroutine that was there before"""
        q = walk_q(eng, st, ctxfld(eng.prog, 'cr', 'ready'))
        if q is None:
            return None
        out = []
        roff = eng.prog.field('dill_cr', 'ready')[0]
        ids = {n: k for v in self.names.values() for n, k in v}
        for x in q[1:]:
            w = padd(x, -roff)
            if not (isinstance(w, tuple) and w[:2] == ('s', 'shape') and w[2].startswith('co_')):
                return None
            n = w[2][3:]
            out.append((n, st.const(fread(eng, st, w, 'dill_cr', 'id')) == 100 + ids[n], fread(eng, st, w, 'dill_cr', 'err')))
        return out
