"""The poll set."""
from kernel import *
from driver import Sub

EXPLAIN = """Abstract interpretation of the poll set of each build (epoll and poll back ends), as a fixpoint over abstract states: from
the state initialisation leaves, waits for input and output on two descriptors, their cancellation, cleaning of descriptors
(whose number is then reused) and polling with every combination of outcomes of the system calls are applied until no new
abstract state of the set appears. A ledger says who waits for what and what is registered with the system. Checked at every
transition: range and EBUSY errors leave the state alone; registrations with the system are consistent with what it already
has; at the moment of sleeping they equal the waits; exactly the coroutines whose descriptor and direction the system
reports are woken, once, with their id; cleaning forgets everything. Clean-up of the thread gives back what was acquired."""

IN, OUT = 'in', 'out'
FD = {IN: 1, OUT: 4}        # EPOLLIN = POLLIN, EPOLLOUT = POLLOUT
ERR, HUP, NVAL = 8, 16, 32
IDS = {IN: 11, OUT: 22}


def W(fd, d):
    return shape('waiter_%s_%s' % (fd, d))


def CL(fd, d):
    return shape('fdcl_%s_%s' % (fd, d))


class PMach(KApi):
    concrete = True
    max_time = 60
    max_visits = 200
    max_steps = 400000
    heap_fail = False
    prims = {k: v for k, v in KApi.prims.items() if k not in
             ('dill_trigger', 'dill_pollset_poll', 'epoll_ctl', 'epoll_wait', 'poll', 'close')}
    prims['fcntl'] = {'outs': [('', 0)]}

    def __init__(self, mem, ps, op, nfd, clause=None):
        self.mem0, self.ps0, self.op, self.nfd, self.clause = mem, ps, op, nfd, clause
        self.outs = []

    def start(self, eng, st, fn):
        st.mem.update(self.mem0)
        st.ps.update(self.ps0)
        h = Heap(eng, st)
        h.qlist(ctxfld(eng.prog, 'cr', 'ready'), [])
        eng.set_errno(st, 0)

    def initial_value(self, eng, st, addr, bits):
        b = split(addr)[0]
        if b in st.ps.get('zero', ()):
            return 0
        return KApi.initial_value(self, eng, st, addr, bits)

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C16-abort', 'an internal check fails')

    def bounds(self, eng, st, addr, bits, ins):
        b, o, ix = split(addr)
        for x, n in st.ps['blocks']:
            if x == b and (ix or o < 0 or o + bits // 8 > n):
                eng.violate(st, ins, 'C16-range', 'memory outside the table of descriptors is accessed')

    def on_load(self, eng, st, addr, val, bits, ins):
        self.bounds(eng, st, addr, bits, ins)

    def on_store(self, eng, st, addr, val, bits, ins):
        self.bounds(eng, st, addr, bits, ins)

    # ---- system
    def c_dill_maxfds(self, eng, st, ins, args, site):
        return [(st, self.nfd)]

    def block(self, st, n, zero):
        b = shape('blk%d' % len(st.ps['blocks']))
        st.ps['blocks'] = st.ps['blocks'] + ((b, n),)
        if zero:
            st.ps['zero'] = st.ps['zero'] + (b,)
        return b

    def c_malloc(self, eng, st, ins, args, site):
        return [(st, self.block(st, st.const(args[0]), False))]

    def c_calloc(self, eng, st, ins, args, site):
        return [(st, self.block(st, st.const(args[0]) * st.const(args[1]), True))]

    def c_free(self, eng, st, ins, args, site):
        if args[0] not in [x for x, n in st.ps['blocks']]:
            eng.violate(st, ins, 'C16-term', 'releases memory it does not own')
        st.ps['blocks'] = tuple(x for x in st.ps['blocks'] if x[0] != args[0])
        return [(st, None)]

    def c_epoll_create(self, eng, st, ins, args, site):
        st.ps['efd'] = 900
        return [(st, 900)]

    c_epoll_create1 = c_epoll_create

    def c_close(self, eng, st, ins, args, site):
        if st.const(args[0]) != 900 or st.ps.get('efd') != 900:
            eng.violate(st, ins, 'C16-term', 'closes a descriptor it does not own')
        st.ps['efd'] = None
        return [(st, 0)]

    def c_fcntl(self, eng, st, ins, args, site):
        s2 = st.copy()
        st.ps['valid'] = tuple(sorted(set(st.ps['valid']) | {st.const(args[0])}))
        eng.set_errno(s2, EBADF)
        s2.ps['sysfail'] = EBADF
        return [(s2, -1), (st, 0)]

    def ev(self, eng, st, p):
        return st.const(eng.load(st, p, 32))

    def c_epoll_ctl(self, eng, st, ins, args, site):
        self.sub.count('registrations')
        op, fd = st.const(args[1]), st.const(args[2])
        if args[0] != 900 or op is None or fd is None:
            eng.violate(st, ins, 'C16-set', 'a registration with undetermined arguments')
            return []
        kern = dict(st.ps['kern'])
        if op in (1, 3):
            e = self.ev(eng, st, args[3])
            d = st.const(eng.load(st, padd(args[3], 4), 32))
            if e is None or d is None:
                eng.violate(st, ins, 'C16-set', 'a registration with undetermined events')
                return []
        if op == 1:
            if fd in kern:
                eng.violate(st, ins, 'C16-set', 'a descriptor is added to the set although it is in it')
                return []
            res = []
            if self.op[0] in (IN, OUT):
                for er in (EPERM, 40, EBADF, 28):
                    s2 = st.copy()
                    eng.set_errno(s2, er)
                    s2.ps['sysfail'] = er
                    res.append((s2, -1))
            kern[fd] = (e, d)
            st.ps['kern'] = tuple(sorted(kern.items()))
            st.ps['valid'] = tuple(sorted(set(st.ps['valid']) | {fd}))
            return res + [(st, 0)]
        if fd not in kern:
            if op == 2 and self.op[0] == 'clean':
                eng.set_errno(st, ENOENT)
                return [(st, -1)]
            eng.violate(st, ins, 'C16-set', 'a descriptor that is not in the set is changed or removed')
            return []
        if op == 3:
            kern[fd] = (e, d)
            st.ps['kern'] = tuple(sorted(kern.items()))
            return [(st, 0)]
        del kern[fd]
        res = []
        if self.op[0] == 'clean':
            # the descriptor was closed, and thereby removed, before it is cleaned
            s2 = st.copy()
            s2.ps['kern'] = tuple(sorted(kern.items()))
            eng.set_errno(s2, ENOENT)
            res.append((s2, -1))
        st.ps['kern'] = tuple(sorted(kern.items()))
        return res + [(st, 0)]

    def want(self, st):
        w = {}
        for fd, d in st.ps['waits']:
            w[fd] = w.get(fd, 0) | FD[d]
        return w

    def sleep(self, eng, st, ins, reg, args_to):
        """reg: {fd: events} registered at the moment of sleeping"""
        self.sub.count('sleeps')
        if st.const(args_to) != self.op[1]:
            eng.violate(st, ins, 'C16-set', 'sleeps with another timeout than it was told to')
        if reg != self.want(st):
            eng.violate(st, ins, 'C16-set', 'what is registered with the system when sleeping differs from who waits for what')

    def menus(self, reg):
        """outcomes: lists of (fd, events)"""
        one, few = [], []
        for fd in sorted(reg):
            r = reg[fd]
            for e in sorted({r & 1, r & 4, r, ERR, HUP, ERR | HUP, r | HUP} if self.nfd == 1 else {r & 1, r & 4, r, HUP, ERR}):
                if e:
                    one.append((fd, e))
                    if not e & (HUP | ERR):
                        few.append((fd, e))
        yield []
        for x in one:
            yield [x]
        for i, a in enumerate(few):
            for b in few[i + 1:]:
                if a[0] != b[0]:
                    yield [a, b]
                    if len(reg) < 3:
                        yield [b, a]

    def expect(self, st, events):
        exp = []
        for fd, e in events:
            for d in (IN, OUT):
                if (fd, d) in st.ps['waits'] and e & (FD[d] | ERR | HUP | NVAL):
                    exp.append((fd, d))
        st.ps['exp'] = tuple(exp)

    def c_epoll_wait(self, eng, st, ins, args, site):
        kern = dict(st.ps['kern'])
        for fd, (e, d) in kern.items():
            if d != fd:
                eng.violate(st, ins, 'C16-set', 'the system is told to report another descriptor than the one registered')
        self.sleep(eng, st, ins, {fd: e for fd, (e, d) in kern.items()}, args[3])
        mx = st.const(args[2])
        res = []
        s2 = st.copy()
        eng.set_errno(s2, EINTR)
        s2.ps['exp'] = ()
        s2.ps['intr'] = True
        res.append((s2, -1))
        for evs in self.menus({fd: e for fd, (e, d) in kern.items()}):
            if mx is None or mx < len(evs):
                continue
            s = st.copy()
            for k, (fd, e) in enumerate(evs):
                eng.store(s, padd(args[1], 12 * k), e, 32)
                eng.store(s, padd(args[1], 12 * k + 4), fd, 32)
                eng.store(s, padd(args[1], 12 * k + 8), 0, 32)
            self.expect(s, evs)
            res.append((s, len(evs)))
        return res

    def c_poll(self, eng, st, ins, args, site):
        n = st.const(args[1])
        reg, idx = {}, {}
        stale = []
        ok = n is not None
        for k in range(n or 0):
            a = padd(args[0], 8 * k)
            fd = st.const(eng.load(st, a, 32))
            e = st.const(eng.load(st, padd(a, 4), 16))
            if fd is None or e is None:
                eng.violate(st, ins, 'C16-set', 'a descriptor is polled for undetermined events')
                return []
            if fd in idx:
                eng.violate(st, ins, 'C16-set', 'a descriptor is in the set twice')
            idx[fd] = k
            if e:
                reg[fd] = e
            else:
                stale.append(fd)
        self.sleep(eng, st, ins, reg, args[2])
        res = []
        s2 = st.copy()
        eng.set_errno(s2, EINTR)
        s2.ps['exp'] = ()
        s2.ps['intr'] = True
        res.append((s2, -1))
        menu = list(self.menus(reg))
        menu += [m + [(fd, NVAL)] for m in menu[:3] for fd in reg if fd not in [x for x, e in m]]
        # the system reports errors even on entries with no requested event
        menu += [m + [(fd, HUP)] for m in menu[:6] for fd in stale]
        for evs in menu:
            s = st.copy()
            for k in range(n):
                eng.store(s, padd(args[0], 8 * k + 6), 0, 16)
            for fd, e in evs:
                eng.store(s, padd(args[0], 8 * idx[fd] + 6), e, 16)
            self.expect(s, evs)
            res.append((s, len(evs)))
        return res

    def queue(self, eng, st):
        off = eng.prog.field('dill_cr', 'ready')[0]
        w = walk_q(eng, st, ctxfld(eng.prog, 'cr', 'ready'))
        return None if w is None else [padd(x, -off) for x in w]

    def on_ret(self, eng, st, val, ins):
        c = None if val is None else st.const(val)
        if c is not None and c >= 1 << 31:
            c -= 1 << 32
        ps = st.ps
        self.sub.count('outcomes')
        k = self.op[0]
        er = st.const(eng.errno(st))
        if k in (IN, OUT):
            fd = self.op[1]
            if not 0 <= fd < self.nfd:
                if c != -1 or er != EBADF:
                    eng.violate(st, ins, 'C16-range', 'waiting for a descriptor outside the range does not fail with EBADF')
                return
            if (fd, k) in ps['waits']:
                if c != -1 or er != EBUSY:
                    eng.violate(st, ins, 'C16-busy', 'a second wait for the same direction does not fail with EBUSY')
                ps['same'] = True
            elif c == -1:
                sf = ps.get('sysfail')
                if sf is None:
                    eng.violate(st, ins, 'C16-busy', 'waiting fails (%s) although nobody waits for this direction' % ename(er))
                elif er != (ENOTSUP if sf in (EPERM, 40) else sf):
                    eng.violate(st, ins, 'C16-busy', 'a failed registration is not reported as the system reported it')
                ps['same'] = True
            elif c == 0:
                if ps.get('sysfail'):
                    eng.violate(st, ins, 'C16-set', 'waiting succeeds although the system refused the descriptor')
                if fd not in ps['valid']:
                    eng.violate(st, ins, 'C16-clean', 'waiting for a descriptor not used before, or since it was cleaned, succeeds without the system having accepted it')
                ps['waits'] = tuple(sorted(ps['waits'] + ((fd, k),)))
                rec = ps.get('cl', ())
                if len(rec) != 1 or st.const(rec[0][1]) != IDS[k] or rec[0][0] != padd(CL(fd, k), eng.prog.field('dill_fdclause', 'cl')[0]):
                    eng.violate(st, ins, 'C16-wake', 'a wait is not registered once, with its id')
            else:
                eng.violate(st, ins, 'C16-busy', 'waiting returns %s' % show(val))
        elif k == 'cancel':
            ps['waits'] = tuple(x for x in ps['waits'] if x != self.op[1:])
            self.drop(st, *self.op[1:])
        elif k == 'clean':
            fd = self.op[1]
            if not 0 <= fd < self.nfd:
                return
            if any(w[0] == fd for w in ps['waits']):
                if c != -1 or er != EBUSY:
                    eng.violate(st, ins, 'C16-busy', 'cleaning a descriptor somebody waits for does not fail with EBUSY')
                ps['same'] = True
            elif c != 0:
                eng.violate(st, ins, 'C16-busy', 'cleaning a descriptor nobody waits for fails')
            elif fd in dict(ps['kern']):
                eng.violate(st, ins, 'C16-clean', 'a cleaned descriptor stays registered with the system')
            else:
                ps['valid'] = tuple(x for x in ps['valid'] if x != fd)
        elif k == 'poll':
            q = self.queue(eng, st)
            exp = ps.get('exp')
            if exp is None:
                eng.violate(st, ins, 'C16-set', 'polling does not ask the system')
                return
            if q is None or sorted(map(str, q)) != sorted(str(W(*x)) for x in exp):
                eng.violate(st, ins, 'C16-wake', 'polling does not wake exactly those whose descriptor and direction the system reported')
                return
            for fd, d in exp:
                if st.const(fread(eng, st, W(fd, d), 'dill_cr', 'id')) != IDS[d] or st.const(fread(eng, st, W(fd, d), 'dill_cr', 'err')) != 0:
                    eng.violate(st, ins, 'C16-wake', 'a coroutine is woken with the wrong id or an error')
            if ps.get('intr'):
                if c != -1:
                    eng.violate(st, ins, 'C16-poll', 'an interrupted poll is not reported as such')
            elif c is None or (c > 0) != bool(exp) or c < 0:
                eng.violate(st, ins, 'C16-poll', 'polling reports %s although %s' % (show(val), 'coroutines were woken' if exp else 'nobody was woken'))
            ps['waits'] = tuple(x for x in ps['waits'] if x not in exp)
            for x in exp:
                self.drop(st, *x)
        self.outs.append((st.mem, ps))

    def drop(self, st, fd, d):
        for key in [key for key in st.mem if key[0] in (W(fd, d), CL(fd, d))]:
            del st.mem[key]


def explore(config, prog, nfd, limit):
    def job():
        sub = Sub(config)
        F = lambda n: prog.byname[n][0]
        ctx = ctxfld(prog, 'pollset')
        rd = ctxfld(prog, 'cr', 'ready')
        rdk = split(rd)[1]
        rq = prog.sizeof('dill_qlist')

        def canon(mem):
            out = {}
            for (b, o, ix), v in mem.items():
                if isinstance(b, tuple) and b[0] == 'al' or b == ('g', 'errno'):
                    continue
                if b == ('g', 'dill_ctx_') and rdk <= o < rdk + rq:
                    continue
                out[(b, o, ix)] = v
            return out

        def run(fn, args, mem, ps, op, clause=None, cur=None):
            pol = PMach(mem, ps, op, nfd, clause)
            pol.sub = sub
            e = Engine(prog, pol)
            if cur is not None:
                base = pol.start

                def start(eng, st, f):
                    base(eng, st, f)
                    h = Heap(eng, st)
                    st.mem[(('g', 'dill_ctx_'), split(ctxfld(prog, 'cr', 'r'))[1], ())] = (cur, 64)
                    h.put(cur, 'dill_cr', ('ready', 'next'), 0)
                    if not any(k[0] == cur and k[1] == prog.field('dill_cr', 'clauses')[0] for k in st.mem):
                        h.slist(h.addr(cur, 'dill_cr', 'clauses'), [])
                pol.start = start
            e.run(fn, args=args)
            sub.take(e)
            sub.count('transitions')
            res = []
            for m, p in pol.outs:
                m = canon(m)
                m = {k: v for k, v in m.items() if not (k[0] == ('g', 'dill_ctx_') and k[1] == split(ctxfld(prog, 'cr', 'r'))[1])}
                q = {k: p[k] for k in ('kern', 'valid', 'waits', 'blocks', 'zero', 'efd')}
                if p.get('same'):
                    # the failed call must leave the registrations alone; drop what it wrote for the caller
                    for w in [(self_fd, d) for self_fd in range(nfd) for d in (IN, OUT)]:
                        if w not in q['waits']:
                            m = {k: v for k, v in m.items() if k[0] not in (W(*w), CL(*w))}
                res.append((m, q))
            return res
        ps0 = dict(kern=(), valid=(), waits=(), blocks=(), zero=(), efd=None)
        init = run(F('dill_ctx_pollset_init'), {0: ctx}, {}, ps0, ('init',))
        if not init:
            if not sub.r['viol']:
                sub.violation('C16-abort', 'dill_ctx_pollset_init', 'initialisation does not return', 'pollset.c')
            return sub.r
        seen = set()
        work = list(init)
        fds = range(nfd)
        co = prog.field('dill_fdclause', 'cl')[0]
        cc = prog.field('dill_clause', 'cancel')[0]
        n = 0
        while work and not sub.r['viol']:
            mem, ps = work.pop(0)
            key = (frozenset(mem.items()), frozenset(ps.items()))
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > limit:
                sub.r['notes'].append('exploration stopped after %d abstract states' % limit)
                break
            for fd in [-1, nfd, nfd + 1] + list(fds) if n == 1 else list(fds):
                for d, fn in ((IN, 'dill_pollset_in'), (OUT, 'dill_pollset_out')):
                    busy = (fd, d) in ps['waits']
                    clv = shape('fdcl_other') if busy else CL(fd, d)
                    work += [x for x in run(F(fn), {0: clv, 1: IDS[d], 2: fd}, mem, ps, (d, fd),
                                            cur=shape('other') if busy else W(fd, d)) if not busy]
                work += run(F('dill_pollset_clean'), {0: fd}, mem, ps, ('clean', fd))
            for fd, d in ps['waits']:
                v = mem.get((CL(fd, d), co + cc, ()))
                f = prog.funcs.get(v[0][1]) if v and isinstance(v[0], tuple) and v[0][0] == 'g' else None
                if f is None:
                    sub.violation('C16-wake', 'dill_pollset_' + d, 'a wait is registered without a way to withdraw it', 'pollset.c')
                    continue
                work += run(f, {0: padd(CL(fd, d), co)}, mem, ps, ('cancel', fd, d))
            work += run(F('dill_pollset_poll'), {0: 17}, mem, ps, ('poll', 17))
            if not ps['waits']:
                for m, q in run(F('dill_ctx_pollset_term'), {0: ctx}, mem, ps, ('term',)):
                    if q['blocks'] or q['efd'] is not None:
                        sub.violation('C16-term', 'dill_ctx_pollset_term', 'the clean-up of a thread does not give back all it acquired', 'pollset.c')
        sub.count('abstract_states', n)
        return sub.r
    return job


def check(ctx):
    ctx.rule('C16-range', 'descriptors out of range are refused, never looked up')
    ctx.rule('C16-busy', 'a second wait and cleaning a waited-for descriptor fail with EBUSY, nothing else does')
    ctx.rule('C16-set', 'registrations agree with what the system already has, and with the waits when sleeping')
    ctx.rule('C16-wake', 'exactly the right waits are completed; C16-poll: the result of polling says whether any was')
    ctx.rule('C16-clean', 'cleaning forgets the descriptor; C16-term: everything acquired is given back')
    jobs = []
    for c in ctx.configs:
        p = ctx.prog(c)
        ctx.cur = c
        for n in ('dill_ctx_pollset_init', 'dill_ctx_pollset_term', 'dill_pollset_in', 'dill_pollset_out', 'dill_pollset_clean', 'dill_pollset_poll'):
            ctx.func(p, n)
        jobs.append(explore(c, p, 2, 1500 if ctx.tier == "quick" else 6000))
        jobs.append(explore(c, p, 1, 4000))
    if ctx.tier != 'quick':
        for c in ctx.configs[:2]:
            jobs.append(explore(c, ctx.prog(c), 3, 4000))
    ctx.run_jobs(jobs)
    n = len(ctx.configs)
    for k, m in (('abstract_states', 40), ('transitions', 400), ('sleeps', 40), ('outcomes', 500)):
        ctx.minimum(k, m * n)
