"""Bundles own their coroutines."""
from kernel import *
from driver import engine_job

EXPLAIN = """Abstract interpretation, over a shape abstraction of bundles (0 to 3 coroutines, each suspended, ready or finished,
on a library stack or in caller memory, with or without a waiter), of: launching a coroutine, the end of a coroutine,
waiting for a bundle, closing a bundle (the victims stop at the first or at a later wake-up of the closer) and closing a
coroutine. Final heaps are compared with the property: membership in exactly one bundle, waiter woken exactly when the last
one leaves, each victim cancelled, waited for until finished, its stack released once and only then, caller memory never,
the bundle released once if library-allocated. Stacks and bundles are not used after their release (a stack stays readable
until the next operation on the stack cache, which rule C20-keep guarantees)."""

B = shape('B')


def cr(i):
    return shape('cr%d' % i)


class BundleShape(KApi):
    concrete = True
    max_time = 20
    max_visits = 40
    unroll = 20
    heap_fail = False
    prims = {k: v for k, v in KApi.prims.items() if k not in ('dill_trigger',)}

    def __init__(self, n, **kw):
        self.n = n
        self.o = dict(mem=0, crmem=(0,) * n, ready=(0,) * n, done=(0,) * n, waiter=0)
        self.o.update(kw)

    def member(self, i):
        return cr(i)

    def start(self, eng, st, fn):
        h = Heap(eng, st)
        p = eng.prog
        self.crs = [self.member(i) for i in range(self.n)]
        h.list(h.addr(B, 'dill_bundle', 'crs'), [h.addr(x, 'dill_cr', 'bundle') for x in self.crs])
        h.put(B, 'dill_bundle', ('mem',), self.o['mem'])
        W, wc = shape('W'), shape('wcl')
        h.put(B, 'dill_bundle', ('waiter',), wc if self.o['waiter'] else 0)
        h.put(wc, 'dill_clause', ('cr',), W)
        h.put(wc, 'dill_clause', ('id',), 77)
        h.put(wc, 'dill_clause', ('cancel',), 0)
        h.slist(h.addr(W, 'dill_cr', 'clauses'), [h.addr(wc, 'dill_clause', 'item')])
        h.put(W, 'dill_cr', ('ready', 'next'), 0)
        rq = [h.addr(x, 'dill_cr', 'ready') for i, x in enumerate(self.crs) if self.o['ready'][i]]
        h.qlist(ctxfld(p, 'cr', 'ready'), rq)
        for i, x in enumerate(self.crs):
            if not self.o['ready'][i]:
                h.put(x, 'dill_cr', ('ready', 'next'), 0)
            if x != CUR:
                h.put(x, 'dill_cr', ('closer',), 0)
            h.slist(h.addr(x, 'dill_cr', 'clauses'), [])
            for f, v in (('done', self.o['done'][i]), ('mem', self.o['crmem'][i]), ('no_blocking1', 0), ('no_blocking2', 0)):
                h.put(x, 'dill_cr', (f,), v)
        if CUR not in self.crs:
            for f in ('done', 'mem', 'no_blocking1', 'no_blocking2'):
                h.put(CUR, 'dill_cr', (f,), 0)
            h.put(CUR, 'dill_cr', ('ready', 'next'), 0)
            h.slist(h.addr(CUR, 'dill_cr', 'clauses'), [])
        st.ps.update(fs=(), freed=(), cancelled=(), dead=None, gone=frozenset())
        self.setup(eng, st, h)

    def setup(self, eng, st, h):
        pass

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C06-abort', 'an internal check fails')

    def stacktop(self, eng, x):
        return padd(x, eng.prog.sizeof('dill_cr'))

    def c_dill_freestack(self, eng, st, ins, args, site):
        p = eng.prog
        st.ps['fs'] = st.ps['fs'] + (args[0],)
        who = padd(args[0], -p.sizeof('dill_cr'))
        if who in self.crs or who == cr(9):
            self.sub.count('stack_releases')
            if who == CUR:
                ok = True
            else:
                ok = st.const(fread(eng, st, who, 'dill_cr', 'done')) == 1
            if not ok:
                eng.violate(st, ins, 'C06-early-release', 'the stack of a coroutine is released before it has stopped')
            if st.ps['fs'].count(args[0]) > 1:
                eng.violate(st, ins, 'C06-twice', 'the stack of a coroutine is released twice')
            if who in self.crs and self.o['crmem'][self.crs.index(who)]:
                eng.violate(st, ins, 'C06-caller-mem', 'caller-supplied memory is released as a stack')
        else:
            eng.violate(st, ins, 'C06-release', 'something that is not the stack of the coroutine is released')
        if st.ps['dead'] is not None:
            st.ps['gone'] = st.ps['gone'] | {st.ps['dead']}
        st.ps['dead'] = who
        return [(st, None)]

    def ev(self, eng, st, ins, kind, *data):
        if kind == 'free':
            st.ps['freed'] = st.ps['freed'] + (data[0],)
            self.sub.count('frees')

    def touch(self, eng, st, addr, ins):
        b = split(addr)[0]
        if b == B and B in st.ps['freed']:
            eng.violate(st, ins, 'C06-after-free', 'the bundle is used after its memory was released')
        if b in st.ps['gone']:
            eng.violate(st, ins, 'C06-after-free', 'a coroutine is used after its stack was released')

    def on_load(self, eng, st, addr, val, bits, ins):
        self.touch(eng, st, addr, ins)

    def on_store(self, eng, st, addr, val, bits, ins):
        self.touch(eng, st, addr, ins)
        KApi.on_store(self, eng, st, addr, val, bits, ins)

    def bundle_members(self, eng, st):
        off = eng.prog.field('dill_cr', 'bundle')[0]
        w = walk_list(eng, st, fld(eng.prog, B, 'dill_bundle', 'crs'))
        return None if w is None else [padd(x, -off) for x in w]

    def queue(self, eng, st):
        off = eng.prog.field('dill_cr', 'ready')[0]
        w = walk_q(eng, st, ctxfld(eng.prog, 'cr', 'ready'))
        return None if w is None else [padd(x, -off) for x in w]


class Close(BundleShape):
    """closing a bundle or one coroutine"""

    def c_dill_wait(self, eng, st, ins, args, site):
        """victims run: the one being waited for stops now, or the closer is woken early once"""
        p = eng.prog
        self.sub.count('suspensions')
        victims = [x for x in self.all(st) if x not in st.ps['gone'] and st.const(fread(eng, st, x, 'dill_cr', 'done')) == 0 and
                   fread(eng, st, x, 'dill_cr', 'closer') == CUR]
        if len(victims) != 1:
            eng.violate(st, ins, 'C06-close', 'the closer suspends without one coroutine knowing whom to wake')
            return []
        v = victims[0]
        if st.const(fread(eng, st, v, 'dill_cr', 'no_blocking1')) != 1:
            eng.violate(st, ins, 'C06-close', 'a coroutine is waited for that is not told to stop')
        q = self.queue(eng, st)
        if q is None or q.count(v) != 1:
            eng.violate(st, ins, 'C06-close', 'a coroutine is waited for that is not ready to run exactly once')
            return []
        h = Heap(eng, st)
        # everybody in the ready queue ran; the others suspended again, the victim stopped
        h.qlist(ctxfld(p, 'cr', 'ready'), [])
        for x in q:
            h.put(x, 'dill_cr', ('ready', 'next'), 0)
        eng.set_errno(st, 0)
        res = []
        if not st.ps.get('early'):
            # the closer is being closed itself: it is woken before the victim stopped
            s2 = st.copy()
            s2.ps['early'] = True
            h2 = Heap(eng, s2)
            h2.qlist(ctxfld(p, 'cr', 'ready'), [h2.addr(v, 'dill_cr', 'ready')])
            eng.set_errno(s2, ECANCELED)
            res.append((s2, -1))
        h.put(v, 'dill_cr', ('done',), 1)
        crs = self.bundle_members(eng, st)
        if self.mode == 'bundle' and crs is not None:
            others = [x for x in crs if x != v and st.const(fread(eng, st, x, 'dill_cr', 'done')) == 0]
            link = lambda s, xs: Heap(eng, s).list(h.addr(B, 'dill_bundle', 'crs'), [h.addr(x, 'dill_cr', 'bundle') for x in xs])
            for k in range(1, 1 << len(others)):
                # some of the others finish by themselves, leaving the bundle and releasing their stacks
                s3 = st.copy()
                left = [x for j, x in enumerate(others) if k >> j & 1]
                link(s3, [x for x in crs if x not in left])
                for x in left:
                    h3 = Heap(eng, s3)
                    h3.put(x, 'dill_cr', ('done',), 1)
                    if st.const(fread(eng, st, x, 'dill_cr', 'mem')) == 0:
                        s3.ps['fs'] = s3.ps['fs'] + (self.stacktop(eng, x),)
                    s3.ps['gone'] = s3.ps['gone'] | {x}
                res.append((s3, -1))
            if others and not st.ps.get('launched'):
                # one of the others launches a coroutine into the bundle
                s4 = st.copy()
                x = cr(9)
                h4 = Heap(eng, s4)
                link(s4, crs + [x])
                h4.slist(h4.addr(x, 'dill_cr', 'clauses'), [])
                for f in ('done', 'mem', 'no_blocking1', 'no_blocking2', 'closer'):
                    h4.put(x, 'dill_cr', (f,), 0)
                h4.put(x, 'dill_cr', ('ready', 'next'), 0)
                s4.ps['launched'] = True
                res.append((s4, -1))
        res.append((st, -1))
        return res

    def all(self, st):
        return self.crs + [cr(9)] if st.ps.get('launched') else self.crs

    def on_ret(self, eng, st, val, ins):
        self.sub.count('outcomes')
        for i, x in enumerate(self.all(st)):
            if st.const(self.peek(eng, st, x)) != 1:
                eng.violate(st, ins, 'C06-close', 'closing returns before a coroutine of the bundle has stopped')
            n = st.ps['fs'].count(self.stacktop(eng, x))
            if n != (0 if x in self.crs and self.o['crmem'][i] else 1):
                eng.violate(st, ins, 'C06-release', 'closing releases the stack of a coroutine %d times' % n)
        if self.mode == 'bundle':
            want = () if self.o['mem'] else (B,)
            if st.ps['freed'] != want:
                eng.violate(st, ins, 'C06-bundle-free', 'closing a bundle does not release its memory as it should (%d times)' % len(st.ps['freed']))
        elif st.ps['freed']:
            eng.violate(st, ins, 'C06-bundle-free', 'closing a coroutine releases other memory')

    def peek(self, eng, st, x):
        return fread(eng, st, x, 'dill_cr', 'done')

    mode = 'bundle'


class CloseOne(Close):
    mode = 'cr'


class End(BundleShape):
    """dill_epilogue; member 0.. with CUR at position `pos`"""

    def __init__(self, n, pos, closing, **kw):
        self.pos, self.closing = pos, closing
        BundleShape.__init__(self, n, **kw)

    def member(self, i):
        return CUR if i == self.pos else cr(i)

    def setup(self, eng, st, h):
        h.put(CUR, 'dill_cr', ('no_blocking1',), int(self.closing))
        if self.closing:
            C = shape('C')
            h.put(CUR, 'dill_cr', ('closer',), C)
            h.put(C, 'dill_cr', ('ready', 'next'), 0)
            h.slist(h.addr(C, 'dill_cr', 'clauses'), [])
        else:
            h.put(CUR, 'dill_cr', ('closer',), 0)

    def c_dill_wait(self, eng, st, ins, args, site):
        self.sub.count('outcomes')
        p = eng.prog
        if st.const(fread(eng, st, CUR, 'dill_cr', 'done')) != 1:
            eng.violate(st, ins, 'C06-done', 'a coroutine that ended is not marked as finished')
        q = self.queue(eng, st)
        m = self.bundle_members(eng, st)
        others = [x for x in self.crs if x != CUR]
        top = self.stacktop(eng, CUR)
        if self.closing:
            if q != [shape('C')]:
                eng.violate(st, ins, 'C06-closer', 'the end of a coroutine being closed does not wake exactly its closer')
            if st.ps['fs'] or st.ps['freed']:
                eng.violate(st, ins, 'C06-twice', 'a coroutine being closed releases itself although its closer does')
            return []
        if m != others:
            eng.violate(st, ins, 'C06-leave', 'a coroutine that ended by itself does not leave its bundle, or disturbs it')
        want = [shape('W')] if self.o['waiter'] and not others else []
        if q != want:
            eng.violate(st, ins, 'C06-waiter', 'the waiter of the bundle is %s' %
                        ('not woken when the last coroutine finishes' if want else 'woken although coroutines remain' if others else 'not handled right'))
        elif want and (st.const(fread(eng, st, shape('W'), 'dill_cr', 'err')) != 0 or st.const(fread(eng, st, shape('W'), 'dill_cr', 'id')) != 77):
            eng.violate(st, ins, 'C06-waiter', 'the waiter of the bundle is woken with an error or the wrong id')
        if st.ps['fs'] != (() if self.o['crmem'][self.pos] else (top,)):
            eng.violate(st, ins, 'C06-release', 'a coroutine that ended by itself releases its stack %d times' % len(st.ps['fs']))
        if st.ps['freed']:
            eng.violate(st, ins, 'C06-release', 'a coroutine that ended releases other memory')
        return []

    def on_ret(self, eng, st, val, ins):
        eng.violate(st, ins, 'C06-done', 'a coroutine that ended goes on running')


class WaitB(BundleShape):
    def c_dill_hquery(self, eng, st, ins, args, site):
        return [(st, B)]

    def on_wait(self, eng, st, ins, site):
        self.sub.count('suspensions')
        if self.n == 0:
            eng.violate(st, ins, 'C06-wait', 'waits for an empty bundle')
        w = fread(eng, st, B, 'dill_bundle', 'waiter')
        cls = [cl for cl, i, c in st.ps.get('cl', ())]
        if w not in cls:
            eng.violate(st, ins, 'C06-wait', 'waits for a bundle that does not know its waiter')

    def on_ret(self, eng, st, val, ins):
        self.sub.count('outcomes')
        c = st.const(val)
        w = st.ps.get('wlast')
        if w is None:
            if (c == 0) != (self.n == 0):
                eng.violate(st, ins, 'C06-wait', 'waiting for a bundle with %d coroutines returns %s at once' % (self.n, show(val)))
        elif c == 0 and w[0] not in ('event', 'event-err'):
            eng.violate(st, ins, 'C06-wait', 'waiting for a bundle succeeds although its coroutines have not finished')


class Launch(BundleShape):
    """dill_prologue with a given or a new bundle, library stack or caller memory"""

    def __init__(self, n, new, usermem):
        self.new, self.usermem = new, usermem
        BundleShape.__init__(self, n)

    def setup(self, eng, st, h):
        a = shape('ptrvar')
        st.mem[(a, 0, ())] = (shape('usermem') if self.usermem else 0, 64)
        st.ps.update(made=0, closed=0)

    def mk(self, eng, st, ins, name, args, site):
        res = []
        for s, r, tag in self.fork(eng, st, ins, name, site, [('fail', -1, 'sym'), ('ok', 5)]):
            if tag == 'ok':
                s.ps['made'] += 1
            res.append((s, r))
        return res

    def c_dill_bundle(self, eng, st, ins, args, site):
        return self.mk(eng, st, ins, 'dill_bundle', args, site)

    def c_dill_bundle_mem(self, eng, st, ins, args, site):
        if args[0] != shape('usermem'):
            eng.violate(st, ins, 'C06-launch', 'the bundle is not placed in the memory the caller gave')
        return self.mk(eng, st, ins, 'dill_bundle_mem', args, site)

    def c_dill_hclose(self, eng, st, ins, args, site):
        st.ps['closed'] += 1
        if not self.new or args[0] != 5:
            eng.violate(st, ins, 'C06-launch', 'a failed launch closes a bundle that is not its own')
        return [(st, 0)]

    def c_dill_hquery(self, eng, st, ins, args, site):
        if args[0] != (5 if self.new else 9):
            eng.violate(st, ins, 'C06-launch', 'the coroutine is put into the wrong bundle')
        s2 = st.copy()
        e = eng.fresh(s2, 'err', 'dill_hquery', 'fail', site)
        s2.facts[e] = (1, 4095, frozenset())
        eng.set_errno(s2, e)
        if self.new:
            return [(st, B)]
        return [(s2, 0), (st, B)]

    def c_dill_allocstack(self, eng, st, ins, args, site):
        s2 = st.copy()
        eng.set_errno(s2, ENOMEM)
        eng.store(st, args[0], ('s', 'stacksz'), 64)
        return [(s2, 0), (st, shape('STK'))]

    def on_ret(self, eng, st, val, ins):
        self.sub.count('outcomes')
        c = st.const(val)
        m = self.bundle_members(eng, st)
        if c == -1:
            if m != self.crs:
                eng.violate(st, ins, 'C06-launch', 'a failed launch changes the bundle')
            if st.ps['made'] != st.ps['closed']:
                eng.violate(st, ins, 'C06-launch', 'a failed launch leaves its new bundle behind, or closes one twice')
            if eng.load(st, ctxfld(eng.prog, 'cr', 'r'), 64) != CUR or self.queue(eng, st) != []:
                eng.violate(st, ins, 'C06-launch', 'a failed launch changes who is running')
            return
        self.sub.count('launches')
        if c != (5 if self.new else 0) or st.ps['closed']:
            eng.violate(st, ins, 'C06-launch', 'a launch returns %s' % show(val))
        new = eng.load(st, ctxfld(eng.prog, 'cr', 'r'), 64)
        if m is None or len(m) != len(self.crs) + 1 or set(m) != set(self.crs + [new]):
            eng.violate(st, ins, 'C06-launch', 'a new coroutine is not added to its bundle exactly once')
        if self.queue(eng, st) != [CUR]:
            eng.violate(st, ins, 'C06-launch', 'launching does not put the parent into the ready queue exactly once')
        elif st.const(fread(eng, st, CUR, 'dill_cr', 'id')) != 0 or st.const(fread(eng, st, CUR, 'dill_cr', 'err')) != 0:
            eng.violate(st, ins, 'C06-launch', 'the parent is resumed with an error')
        for f, v in (('done', 0), ('mem', int(self.usermem))):
            if st.const(fread(eng, st, new, 'dill_cr', f)) != v:
                eng.violate(st, ins, 'C06-launch', 'a new coroutine starts with %s = %s' % (f, show(fread(eng, st, new, 'dill_cr', f))))
        for f in ('closer',):
            if st.const(fread(eng, st, new, 'dill_cr', f)) != 0:
                eng.violate(st, ins, 'C06-launch', 'a new coroutine starts with somebody waiting to close it')
        if st.const(eng.load(st, fld(eng.prog, new, 'dill_cr', 'ready', 'next'), 64)) != 0:
            eng.violate(st, ins, 'C06-launch', 'a new coroutine starts as if it were in the ready queue')
        hd = fld(eng.prog, new, 'dill_cr', 'clauses')
        if eng.load(st, hd, 64) != hd:
            eng.violate(st, ins, 'C06-launch', 'a new coroutine starts with registrations')
        if eng.load(st, shape('ptrvar'), 64) != new:
            eng.violate(st, ins, 'C06-launch', 'the caller is given the wrong stack to switch to')


class MakeB(KApi):
    def __init__(self, mem):
        self.mem = mem

    def after(self, eng, st, ins, name, args, tag, ret, site):
        KApi.after(self, eng, st, ins, name, args, tag, ret, site)
        if name == 'dill_hmake' and tag == 'ok':
            st.ps['made'] = (args[0], ret)

    def on_ret(self, eng, st, val, ins):
        m = st.ps.get('made')
        if m is None:
            return
        self.sub.count('bundles_made')
        p = eng.prog
        b = padd(m[0], -p.field('dill_bundle', 'vfs')[0])
        if val != m[1]:
            eng.violate(st, ins, 'C06-make', 'creating a bundle does not return its handle')
        if walk_list(eng, st, fld(p, b, 'dill_bundle', 'crs')) != []:
            eng.violate(st, ins, 'C06-make', 'a new bundle is not empty')
        if st.const(fread(eng, st, b, 'dill_bundle', 'waiter')) != 0:
            eng.violate(st, ins, 'C06-make', 'a new bundle starts with a waiter')
        if st.const(fread(eng, st, b, 'dill_bundle', 'mem')) != self.mem:
            eng.violate(st, ins, 'C06-make', 'a new bundle has the wrong owner of its memory')


def check(ctx):
    ctx.rule('C06-close', 'closing tells each coroutine to stop, resumes it once and waits until it has stopped')
    ctx.rule('C06-release', 'each stack is released once (C06-twice), only when stopped (C06-early-release), never caller memory (C06-caller-mem)')
    ctx.rule('C06-bundle-free', 'the bundle is released once iff library-allocated; nothing used after (C06-after-free)')
    ctx.rule('C06-leave', 'a coroutine that ends leaves its bundle; C06-waiter: the waiter is woken exactly when it was the last')
    ctx.rule('C06-closer', 'a coroutine being closed wakes its closer and does not release itself; C06-done: finished flag')
    ctx.rule('C06-wait', 'waiting succeeds only for an empty bundle or when woken')
    ctx.rule('C06-launch', 'launching adds to one bundle, resumes the parent later, starts clean; failure changes nothing')
    ctx.rule('C06-flags', 'the finished and owner flags change nowhere else')
    jobs = []
    for c in ctx.configs:
        p = ctx.prog(c)
        ctx.cur = c
        bclose = p.funcs[hvfs_close(p, 'dill_bundle')]
        cclose = p.funcs[hvfs_close(p, 'dill_prologue')]
        ep, pro, bw = ctx.func(p, 'dill_epilogue'), ctx.func(p, 'dill_prologue'), ctx.func(p, 'dill_bundle_wait')
        bv = padd(B, p.field('dill_bundle', 'vfs')[0])
        for n in (0, 1, 2, 3):
            combos = [dict()]
            if n:
                combos += [dict(crmem=(1,) * n), dict(ready=(1,) * n), dict(crmem=(0, 1, 0)[:n]), dict(crmem=(1, 0, 1)[:n]),
                           dict(ready=(0, 1, 0)[:n]), dict(ready=(1, 0, 1)[:n])]
            for o in combos:
                for m in (0, 1):
                    jobs.append(engine_job(c, p, bclose, lambda n=n, o=o, m=m: Close(n, mem=m, **o), 'scenarios', args={0: bv}))
        for mem in (0, 1):
            for dn in (0, 1):
                for rd in (0, 1):
                    if dn and rd:
                        continue
                    jobs.append(engine_job(c, p, cclose, lambda mem=mem, dn=dn, rd=rd: CloseOne(1, crmem=(mem,), done=(dn,), ready=(rd,)),
                                           'scenarios', args={0: padd(cr(0), p.field('dill_cr', 'vfs')[0])}))
        for n in (1, 2, 3):
            for pos in range(n):
                for w in (0, 1):
                    for m in (0, 1):
                        for cl in (False, True):
                            jobs.append(engine_job(c, p, ep, lambda n=n, pos=pos, w=w, m=m, cl=cl: End(n, pos, cl, waiter=w, crmem=(m,) * n), 'scenarios'))
        for n in (0, 1, 2):
            jobs.append(engine_job(c, p, bw, lambda n=n: WaitB(n), 'scenarios'))
            for new in (False, True):
                for um in (False, True):
                    if new and n:
                        continue
                    jobs.append(engine_job(c, p, pro, lambda n=n, new=new, um=um: Launch(n, new, um), 'scenarios',
                                           args={1: shape('ptrvar'), 3: -1 if new else 9}))
        jobs.append(engine_job(c, p, ctx.func(p, 'dill_bundle'), lambda: MakeB(0)))
        jobs.append(engine_job(c, p, ctx.func(p, 'dill_bundle_mem'), lambda: MakeB(1)))
        cre = creators(p, 'dill_cr')
        for f, ins, v in flag_stores(p, 'dill_cr', 'done'):
            ctx.count('flag_stores')
            if within(p, f.key, cre):
                continue
            if v != '1' or not within(p, f.key, {ep.key}):
                ctx.violation('C06-flags', f.name, 'changes the finished flag of a coroutine', '%s:%s' % (f.file, ins.get('ln')))
        for st_, make in (('dill_cr', cre), ('dill_bundle', creators(p, 'dill_bundle') | {'dill_bundle'})):
            for f, ins, v in flag_stores(p, st_, 'mem'):
                ctx.count('flag_stores')
                if not within(p, f.key, make):
                    ctx.violation('C06-flags', f.name, 'changes the owner flag of a %s' % st_, '%s:%s' % (f.file, ins.get('ln')))
    ctx.run_jobs(jobs)
    n = len(ctx.configs)
    for k, m in (('scenarios', 90), ('outcomes', 100), ('stack_releases', 30), ('suspensions', 30), ('launches', 5), ('bundles_made', 2), ('flag_stores', 4)):
        ctx.minimum(k, m * n)
