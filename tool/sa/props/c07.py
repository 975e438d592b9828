"""The handle table."""
from kernel import *
from driver import engine_job

EXPLAIN = """Abstract interpretation of dill_hmake, dill_hquery, dill_hclose and dill_hown over a shape abstraction of the handle
table: small tables with every handle in use or unused, unused lists of length 0 to 12 in scrambled order, with and without
growth of the table (also growth while the close callback runs), out-of-range numbers, failing allocation and failing
creation. The final table is compared with what the property prescribes: which entry is in use, the exact order of the
list of unused numbers, the counters; the object functions called, with which object, how often; and no access to a
table that was reallocated away. The 256-entry initial growth is unrolled."""

TAB = shape('TAB')
INUSE, END = -2, -1


class Table(KApi):
    prims = {k: v for k, v in KApi.prims.items() if k not in ('dill_hmake', 'dill_hclose')}
    heap_fail = False
    concrete = True
    unroll = 2000
    max_steps = 2000000

    def __init__(self, n, free, h=None, grow=False, mode='make'):
        self.n, self.free, self.h, self.grow, self.mode = n, list(free), h, grow, mode
        if n == 0:
            self.free = []

    def stride(self, eng):
        return eng.prog.sizeof('dill_handle')

    def start(self, eng, st, fn):
        p = eng.prog
        h = Heap(eng, st)
        sz = self.stride(eng)
        for i in range(self.n):
            b = padd(TAB, i * sz)
            nxt = INUSE
            if i in self.free:
                k = self.free.index(i)
                nxt = self.free[k + 1] if k + 1 < len(self.free) else END
            h.put(b, 'dill_handle', ('next',), nxt)
            h.put(b, 'dill_handle', ('vfs',), self.vfs(i))
            h.put(b, 'dill_handle', ('ptr',), self.cache(i)[1])
            h.put(b, 'dill_handle', ('type',), self.cache(i)[0])
        c = ctxfld(p, 'handle')
        h.put(c, 'dill_ctx_handle', ('handles',), TAB if self.n else 0)
        h.put(c, 'dill_ctx_handle', ('nhandles',), self.n)
        h.put(c, 'dill_ctx_handle', ('nused',), self.n - len(self.free))
        h.put(c, 'dill_ctx_handle', ('first',), self.free[0] if self.free else END)
        h.put(c, 'dill_ctx_handle', ('last',), self.free[-1] if self.free else END)
        for b in ('no_blocking1', 'no_blocking2'):
            h.put(CUR, 'dill_cr', (b,), 0)
        v = self.newvfs()
        for s in ('query', 'close'):
            h.put(v, 'dill_hvfs', (s,), shape('new_' + s))
        for i in range(self.n):
            for s in ('query', 'close'):
                h.put(self.vfs(i), 'dill_hvfs', (s,), shape('%s%d' % (s, i)))
        st.ps['calls'] = ()

    def vfs(self, i):
        return shape('vfs%d' % i)

    def newvfs(self):
        return shape('newvfs')

    def cache(self, i):
        return (0, 0)

    # ---- allocation
    def c_realloc(self, eng, st, ins, args, site):
        s0 = st.copy()
        eng.set_errno(s0, ENOMEM)
        s0.ps['allocfail'] = True
        self.move(eng, st, shape('TAB2'))
        self.sub.count('growths')
        return [(s0, 0), (st, shape('TAB2'))]

    def move(self, eng, st, new):
        if any(k[0] == TAB for k in st.mem):
            st.ps['old'] = True
        st.mem = {((new,) + k[1:] if k[0] == TAB else k): v for k, v in st.mem.items()}

    def c_malloc(self, eng, st, ins, args, site):
        s0 = st.copy()
        eng.set_errno(s0, ENOMEM)
        s0.ps['allocfail'] = True
        return [(s0, 0), (st, shape('TAB2'))]

    def touch(self, eng, st, addr, ins):
        if st.ps.get('old') and split(addr)[0] == TAB:
            eng.violate(st, ins, 'C07-stale-table', 'uses the handle table after it was moved')

    def on_load(self, eng, st, addr, val, bits, ins):
        self.touch(eng, st, addr, ins)

    def on_store(self, eng, st, addr, val, bits, ins):
        self.touch(eng, st, addr, ins)
        b = split(addr)[0]
        if b in (TAB, shape('TAB2')) and self.mode == 'invalid':
            eng.violate(st, ins, 'C07-invalid', 'changes the handle table for a number that is not a valid handle')

    def icall(self, eng, st, ins, fnt, args, site):
        self.sub.count('object_calls')
        st.ps['calls'] = st.ps['calls'] + ((fnt, args[0]),)
        if self.mode == 'invalid':
            eng.violate(st, ins, 'C07-invalid', 'calls into an object for a number that is not a valid handle')
            return []
        if isinstance(fnt, tuple) and fnt[2].startswith('close'):
            if self.entry(eng, st, self.h) is None or st.const(self.entry(eng, st, self.h)[0]) != INUSE:
                eng.violate(st, ins, 'C07-early', 'the number is released before the close function of the object ran')
            if self.grow:
                # other coroutines ran and made handles: the table was moved and extended
                h = Heap(eng, st)
                sz = self.stride(eng)
                self.move(eng, st, shape('TAB2'))
                t = shape('TAB2')
                for i in range(self.n, self.n + 3):
                    h.put(padd(t, i * sz), 'dill_handle', ('next',), i + 1 if i < self.n + 2 else END)
                    h.put(padd(t, i * sz), 'dill_handle', ('ptr',), 0)
                    h.put(padd(t, i * sz), 'dill_handle', ('type',), 0)
                    h.put(padd(t, i * sz), 'dill_handle', ('vfs',), 0)
                c = ctxfld(eng.prog, 'handle')
                h.put(c, 'dill_ctx_handle', ('handles',), t)
                h.put(c, 'dill_ctx_handle', ('nhandles',), self.n + 3)
                if self.free:
                    h.put(padd(t, self.free[-1] * sz), 'dill_handle', ('next',), self.n)
                else:
                    h.put(c, 'dill_ctx_handle', ('first',), self.n)
                h.put(c, 'dill_ctx_handle', ('last',), self.n + 2)
            return [(st, 0)]
        s2 = st.copy()
        eng.set_errno(s2, ENOTSUP)
        return [(s2, 0), (st, shape('answer'))]

    # ---- observation
    def ctxv(self, eng, st, f):
        return eng.load(st, ctxfld(eng.prog, 'handle', f), eng.prog.field('dill_ctx_handle', f)[2])

    def entry(self, eng, st, i):
        t = self.ctxv(eng, st, 'handles')
        b = padd(t, i * self.stride(eng))
        return tuple(fread(eng, st, b, 'dill_handle', f) for f in ('next', 'vfs', 'type', 'ptr'))

    def freelist(self, eng, st):
        out = []
        x = st.const(self.ctxv(eng, st, 'first'))
        n = st.const(self.ctxv(eng, st, 'nhandles'))
        while x != END:
            if x is None or n is None or x < 0 or x >= n or len(out) > n:
                return None
            out.append(x)
            x = st.const(self.entry(eng, st, x)[0])
        if out and st.const(self.ctxv(eng, st, 'last')) != out[-1]:
            return None
        return out

    def consistent(self, eng, st, ins, used, free, what):
        """the whole table: list of unused numbers, entries in use, counters"""
        fl = self.freelist(eng, st)
        n = st.const(self.ctxv(eng, st, 'nhandles'))
        if fl is None:
            eng.violate(st, ins, 'C07-freelist', 'the list of unused handles is broken after %s' % what)
            return False
        old = [x for x in fl if x < self.n]
        if free is not None and old != free:
            eng.violate(st, ins, 'C07-freelist', 'after %s the unused handles are not recycled oldest first, or some are lost or duplicated' % what)
            return False
        if sorted(fl) != [i for i in range(n) if i not in used]:
            eng.violate(st, ins, 'C07-freelist', 'after %s the unused handles are not exactly those not in use' % what)
            return False
        for i in used:
            if st.const(self.entry(eng, st, i)[0]) != INUSE:
                eng.violate(st, ins, 'C07-freelist', 'after %s a handle in use is not marked as such' % what)
                return False
        if st.const(self.ctxv(eng, st, 'nused')) != len(used):
            eng.violate(st, ins, 'C07-count', 'after %s the number of handles in use is wrong' % what)
        return True

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C07-abort', 'an internal check fails')

    def on_ret(self, eng, st, val, ins):
        self.sub.count('outcomes')
        c, e = st.const(val), st.const(eng.errno(st))
        used = [i for i in range(self.n) if i not in self.free]
        m = self.mode
        calls = st.ps['calls']
        if m == 'invalid':
            if eng.entry.name == 'dill_hquery':
                ok = c == 0
            else:
                ok = c == -1
            if not ok or e != EBADF:
                eng.violate(st, ins, 'C07-invalid', 'a number that is not a valid handle is answered with %s/%s' % (show(val), ename(eng.errno(st))))
            return
        if m == 'make':
            if st.ps.get('allocfail'):
                if c != -1 or e != ENOMEM:
                    eng.violate(st, ins, 'C07-make', 'failing allocation is reported as %s/%s' % (show(val), ename(eng.errno(st))))
                self.consistent(eng, st, ins, used, self.free, 'a failed creation')
                return
            if c is None or c < 0 or c in used:
                eng.violate(st, ins, 'C07-make', 'a new handle gets the number %s' % ('of a handle in use' if c in used else show(val)))
                return
            free = [x for x in self.free if x != c]
            if self.free and c != self.free[0]:
                eng.violate(st, ins, 'C07-freelist', 'a new handle does not get the number unused for longest')
            if self.consistent(eng, st, ins, used + [c], free, 'a creation'):
                en = self.entry(eng, st, c)
                if en[1] != self.newvfs():
                    eng.violate(st, ins, 'C07-make', 'a new handle does not refer to its object')
                if st.const(en[3]) != 0 and st.const(en[2]) != 0:
                    eng.violate(st, ins, 'C07-cache', 'a new handle starts with a cached answer')
                for i in used:
                    if self.entry(eng, st, i)[1] != self.vfs(i):
                        eng.violate(st, ins, 'C07-make', 'creating a handle changes the object of another one')
            return
        if m == 'close':
            if c != 0:
                eng.violate(st, ins, 'C07-close', 'closing a valid handle returns %s' % show(val))
            if calls != ((shape('close%d' % self.h), self.vfs(self.h)),):
                eng.violate(st, ins, 'C07-close', 'closing does not call the close function of the object exactly once')
            self.consistent(eng, st, ins, [i for i in used if i != self.h], self.free + [self.h], 'a close')
            return
        if m == 'own':
            if st.ps.get('allocfail') or c == -1:
                if calls != ((shape('close%d' % self.h), self.vfs(self.h)),):
                    eng.violate(st, ins, 'C07-own', 'a failed transfer does not close the object exactly once')
                self.consistent(eng, st, ins, [i for i in used if i != self.h], self.free + [self.h], 'a failed transfer')
                return
            if calls:
                eng.violate(st, ins, 'C07-own', 'transferring a handle calls into the object')
            if c is None or c in used or c < 0:
                eng.violate(st, ins, 'C07-own', 'a transfer returns %s' % show(val))
                return
            if self.free and c != self.free[0]:
                eng.violate(st, ins, 'C07-freelist', 'a transferred handle does not get the number unused for longest')
            if self.consistent(eng, st, ins, [i for i in used if i != self.h] + [c], [x for x in self.free if x != c] + [self.h], 'a transfer'):
                if self.entry(eng, st, c)[1] != self.vfs(self.h):
                    eng.violate(st, ins, 'C07-own', 'the new handle does not refer to the transferred object')
                if st.const(self.entry(eng, st, c)[3]) != 0 and st.const(self.entry(eng, st, c)[2]) != 0:
                    eng.violate(st, ins, 'C07-cache', 'a transferred handle starts with a cached answer')


def check(ctx):
    ctx.rule('C07-invalid', 'out-of-range, closed and transferred numbers: EBADF, no object call, no change')
    ctx.rule('C07-close', 'close calls the close function once with its object, then releases the number (C07-early)')
    ctx.rule('C07-freelist', 'numbers are recycled oldest first; none lost, duplicated or in use')
    ctx.rule('C07-make', 'a new handle refers to its object; failure changes nothing; C07-own: same for transfers')
    ctx.rule('C07-count', 'the count of handles in use')
    ctx.rule('C07-stale-table', 'no use of the table after it moved')
    jobs = []
    for c in ctx.configs:
        p = ctx.prog(c)
        mk, q, cl, own = (ctx.func(p, x) for x in ('dill_hmake', 'dill_hquery', 'dill_hclose', 'dill_hown'))

        def add(fn, args, *a, **k):
            t = Table(*a, **k)
            jobs.append(engine_job(c, p, fn, lambda: t, 'scenarios', args=args))
        nv = shape('newvfs')
        frees = {12: [11, 0, 5, 7, 2, 3, 9, 1, 8, 10], 20: [19, 3, 4, 0, 17, 5, 6, 8, 2, 11, 12]}
        add(mk, {0: nv}, 0, [])
        add(mk, {0: nv}, 12, frees[12])
        for k in (0, 1, 2, 5, 8, 9):
            add(mk, {0: nv}, 12, frees[12][:k])
        for n, fr in ((4, []), (4, [2]), (4, [3, 0]), (4, [1, 3, 0]), (12, frees[12])):
            used = [i for i in range(n) if i not in fr]
            for h in (-1, n, n + 5, -2147483648, 2147483647) + tuple(fr[:2]):
                for fn in (cl, own):
                    add(fn, {0: h}, n, fr, h=h, mode='invalid')
                add(q, {0: h}, n, fr, h=h, mode='invalid')
            for h in used[:1] + used[-1:]:
                for g in (False, True):
                    add(cl, {0: h}, n, fr, h=h, grow=g, mode='close')
                add(own, {0: h}, n, fr, h=h, mode='own')
        for k in (1, 8, 9):
            add(own, {0: 4}, 12, frees[12][:k], h=4, mode='own')
        for h in (0, -1):
            for fn in (cl, own, q):
                add(fn, {0: h}, 0, [], h=h, mode='invalid')
    ctx.run_jobs(jobs)
    n = len(ctx.configs)
    ctx.minimum('scenarios', 60 * n)
    ctx.minimum('outcomes', 60 * n)
    ctx.minimum('growths', 6 * n)
    ctx.minimum('object_calls', 10 * n)
