"""Coroutine stacks."""
from kernel import *
from driver import Sub, engine_job

EXPLAIN = """Abstract interpretation of the stack allocator: starting from the state its initialisation leaves, stacks are handed
out and returned until the set of abstract states (how many stacks are in use and cached, which one is on top of the cache)
no longer grows, including the cache limit, failing allocation and failing protection, for several page sizes; then the
thread's clean-up from each of these states. The system's allocator and page protection are abstracted by a ledger of
blocks. At each step: the stack handed out is in nobody's hands, its usable size as reported lies inside its block and
outside the protected page, which is the lowest page of the block; the top is aligned; a stack goes back to the system only
when nobody uses it, not the one just being returned, with the address it was obtained with and unprotected. Also the
placement of a coroutine in caller-supplied memory of symbolic address and size."""

MAXSTEPS = 400


class Mach(KApi):
    """one call; memory and ledger are carried over from the previous call"""
    concrete = True
    max_time = 60
    max_visits = 3000
    max_steps = 3000000
    prims = {}
    page = 4096

    def __init__(self, mem, ps, fail=None):
        self.mem0, self.ps0, self.failing = mem, ps, fail
        self.outs = []

    def start(self, eng, st, fn):
        st.mem.update(self.mem0)
        st.ps.update(self.ps0)

    def on_ret(self, eng, st, val, ins):
        mem = {k: v for k, v in st.mem.items() if not (isinstance(k[0], tuple) and k[0][0] == 'al')}
        self.outs.append((val, mem, dict(st.ps), st))

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C20-abort', 'an internal check fails')

    def c_sysconf(self, eng, st, ins, args, site):
        return [(st, self.page)]

    def c_getpagesize(self, eng, st, ins, args, site):
        return [(st, self.page)]

    def initial_value(self, eng, st, addr, bits):
        # static variables start with their initialisers
        b, o, ix = split(addr)
        if b[0] == 'g' and not ix:
            g = eng.prog.globals.get(b[1])
            if g is not None and not b[1].startswith('dill_ctx_'):
                v = eng.init_at(g, g.get('init'), o, bits)
                if v is not None:
                    return v
        return KApi.initial_value(self, eng, st, addr, bits)

    def newblock(self, st, align, size):
        n = st.ps['n']
        st.ps['n'] = n + 1
        b = shape('blk%d' % n)
        st.ps['blocks'] = st.ps['blocks'] + ((b, align, size, None),)
        return b

    def c_posix_memalign(self, eng, st, ins, args, site):
        self.sub.count('allocations')
        if self.failing == 'alloc':
            return [(st, ENOMEM)]
        al, sz = st.const(args[1]), st.const(args[2])
        if al is None or sz is None:
            eng.violate(st, ins, 'C20-alloc', 'the size or alignment of a stack is undetermined')
            return []
        eng.store(st, args[0], self.newblock(st, al, sz), 64)
        return [(st, 0)]

    def c_malloc(self, eng, st, ins, args, site):
        self.sub.count('allocations')
        if self.failing == 'alloc':
            eng.set_errno(st, ENOMEM)
            return [(st, 0)]
        return [(st, self.newblock(st, 16, st.const(args[0])))]

    def c_mprotect(self, eng, st, ins, args, site):
        self.sub.count('protections')
        sz, pr = st.const(args[1]), st.const(args[2])
        for i, (b, al, size, prot) in enumerate(st.ps['blocks']):
            if args[0] == b:
                if sz != self.page or al % self.page:
                    eng.violate(st, ins, 'C20-guard', 'the guard is not exactly one page')
                if pr == 0 and self.failing == 'protect':
                    eng.set_errno(st, ENOMEM)
                    return [(st, -1)]
                l = list(st.ps['blocks'])
                l[i] = (b, al, size, None if pr == 3 else pr)
                st.ps['blocks'] = tuple(l)
                return [(st, 0)]
        eng.violate(st, ins, 'C20-guard', 'protection of something that is not the lowest page of a stack is changed')
        return []

    def c_free(self, eng, st, ins, args, site):
        self.sub.count('releases')
        for i, (b, al, size, prot) in enumerate(st.ps['blocks']):
            if args[0] == b:
                if prot is not None:
                    eng.violate(st, ins, 'C20-release', 'a stack is given back to the system while still protected')
                if b in [x for x, t in st.ps['used']]:
                    eng.violate(st, ins, 'C20-release', 'a stack in use is given back to the system')
                st.ps['blocks'] = st.ps['blocks'][:i] + st.ps['blocks'][i + 1:]
                return [(st, None)]
        eng.violate(st, ins, 'C20-release', 'a stack is given back with an address it was not obtained with, or twice')
        return []

    def touch(self, eng, st, addr, ins):
        b = split(addr)[0]
        if isinstance(b, tuple) and b[:2] == ('s', 'shape') and b not in [x[0] for x in st.ps['blocks']] and b != shape('szvar'):
            eng.violate(st, ins, 'C20-release', 'a stack is used after it was given back to the system')
            return False
        if isinstance(b, tuple) and b[:2] == ('s', 'shape'):
            for x, al, size, prot in st.ps['blocks']:
                if x == b and prot is not None and split(addr)[1] < self.page:
                    eng.violate(st, ins, 'C20-guard', 'the guard page is accessed')

    def on_load(self, eng, st, addr, val, bits, ins):
        self.touch(eng, st, addr, ins)

    def on_store(self, eng, st, addr, val, bits, ins):
        self.touch(eng, st, addr, ins)


def run(sub, prog, fn, args, mem, ps, page, fail=None):
    pol = Mach(mem, ps, fail)
    pol.page = page
    pol.sub = sub
    e = Engine(prog, pol)
    e.run(fn, args=args)
    sub.take(e)
    sub.count('calls')
    if not pol.outs and not e.violations:
        sub.violation('C20-abort', fn.name, 'does not return', fn.file)
    return e, pol.outs


def explore(config, prog, page, names):
    def job():
        sub = Sub(config)
        F = lambda n: prog.byname[n][0]
        ctx = ctxfld(prog, 'stack')
        bad = lambda fn, rule, msg: sub.violation(rule, fn.name, msg, fn.file)
        e, outs = run(sub, prog, F('dill_ctx_stack_init'), {0: ctx}, {}, dict(n=0, blocks=(), used=()), page)
        if not outs:
            return sub.r
        alloc, free, term = F('dill_allocstack'), F('dill_freestack'), F('dill_ctx_stack_term')
        sz = shape('szvar')

        def do_alloc(mem, ps, fail=None):
            e, outs = run(sub, prog, alloc, {0: sz}, mem, ps, page, fail)
            for val, mem2, ps2, st in outs:
                if st.const(val) == 0:
                    if fail is None:
                        bad(alloc, 'C20-alloc', 'no stack is handed out although there is memory')
                    if st.const(eng_errno(e, st)) != ENOMEM:
                        bad(alloc, 'C20-alloc', 'running out of stacks is not reported as the system reported it')
                    if set(x[0] for x in ps2['blocks']) != set(x[0] for x in ps['blocks']):
                        bad(alloc, 'C20-release', 'a failed allocation leaks or loses a block')
                    yield None, mem2, ps2
                    continue
                b, off, ix = split(val)
                usable = st.const(e.load(st, sz, 64))
                blk = [x for x in ps2['blocks'] if x[0] == b]
                if not blk or ix or usable is None:
                    bad(alloc, 'C20-alloc', 'what is handed out is not a stack')
                    continue
                b, al, size, prot = blk[0]
                if b in [x for x, t in ps2['used']]:
                    bad(alloc, 'C20-alloc', 'a stack is handed out while it is in use')
                if prot != 0:
                    bad(alloc, 'C20-guard', 'a stack is handed out without a guard page')
                if off - usable < page:
                    bad(alloc, 'C20-guard', 'the usable size of a stack reaches into the guard page')
                if off > size:
                    bad(alloc, 'C20-alloc', 'a stack extends beyond its block')
                if usable < 4096:
                    bad(alloc, 'C20-alloc', 'no usable stack size is reported')
                if off % 16:
                    bad(alloc, 'C20-align', 'the top of a stack is not aligned')
                ps2 = dict(ps2)
                ps2['used'] = ps2['used'] + ((b, val),)
                sub.count('handed_out')
                yield val, mem2, ps2

        def do_free(mem, ps, k):
            b, top = ps['used'][k]
            e, outs = run(sub, prog, free, {0: top}, mem, dict(ps), page)
            for val, mem2, ps2, st in outs:
                ps2 = dict(ps2)
                if b not in [x[0] for x in ps2['blocks']]:
                    bad(free, 'C20-keep', 'the stack being returned goes back to the system at once although it may still be executing')
                    continue
                ps2['used'] = tuple(x for x in ps2['used'] if x[0] != b)
                sub.count('returned')
                yield mem2, ps2

        def do_term(mem, ps):
            e, outs = run(sub, prog, term, {0: ctx}, mem, ps, page)
            for val, mem2, ps2, st in outs:
                left = [x[0] for x in ps2['blocks'] if x[0] not in [u for u, t in ps2['used']]]
                if left:
                    bad(term, 'C20-release', 'the clean-up of a thread leaves cached stacks behind')
                sub.count('cleanups')

        # hand out k stacks, return them all (one order, or the reverse), until the cache no longer grows
        mem, ps = outs[0][1], outs[0][2]
        do_list = list(do_alloc(mem, ps, 'alloc')) + list(do_alloc(mem, ps, 'protect'))
        peak = 0
        n = 0
        while n < MAXSTEPS:
            got = list(do_alloc(mem, ps))
            if len(got) != 1 or got[0][0] is None:
                return sub.r
            _, mem, ps = got[0]
            n += 1
            if n >= 80:
                break
        prev = -1
        cached = 0
        limit = None
        order = 0
        while ps['used']:
            order += 1
            k = 0 if order % 2 else len(ps['used']) - 1
            got = list(do_free(mem, ps, k))
            if len(got) != 1:
                return sub.r
            mem, ps = got[0]
            cached = len(ps['blocks']) - len(ps['used'])
            if cached == prev and limit is None:
                limit = cached
            prev = cached
            if order in (1, 2, 3, 63, 64, 65, 66) or cached in (1, 2):
                do_term(mem, ps)
                # a cached stack must be handed out again without asking the system
                for v, m2, p2 in do_alloc(mem, ps, 'alloc'):
                    if v is None:
                        bad(alloc, 'C20-cache', 'a cached stack is not reused')
        if limit is None or cached > limit:
            bad(free, 'C20-cache', 'the number of cached stacks is not limited')
        do_term(mem, ps)
        # drain the cache completely: each of them exactly once, then new ones
        have = set(x[0] for x in ps['blocks'])
        seen = set()
        for i in range(cached + 2):
            got = list(do_alloc(mem, ps))
            if len(got) != 1 or got[0][0] is None:
                return sub.r
            v, mem, ps = got[0]
            b = split(v)[0]
            if i < cached and (b in seen or b not in have):
                bad(alloc, 'C20-cache', 'the cache does not hand out each of its stacks exactly once')
                break
            seen.add(b)
        # after draining, the count must again agree with the cache: fill it up once more
        while ps['used']:
            got = list(do_free(mem, ps, 0))
            if len(got) != 1:
                return sub.r
            mem, ps = got[0]
        if len(ps['blocks']) > (limit or 0):
            bad(free, 'C20-cache', 'the number of cached stacks grows beyond its limit after reuse')
        if limit and len(ps['blocks']) < limit:
            bad(free, 'C20-cache', 'the number of cached stacks no longer matches the cache after reuse')
        do_term(mem, ps)
        # mixed use at small cache sizes
        return sub.r
    return job


def eng_errno(e, st):
    return e.errno(st)


class Place(KApi):
    """where a coroutine is placed in caller-supplied memory"""
    concrete = True
    heap_fail = False

    def __init__(self, new, ln):
        self.new, self.ln = new, ln

    def start(self, eng, st, fn):
        h = Heap(eng, st)
        h.list(h.addr(shape('B'), 'dill_bundle', 'crs'), [])
        for f in ('no_blocking1', 'no_blocking2', 'done', 'mem'):
            h.put(CUR, 'dill_cr', (f,), 0)
        h.put(CUR, 'dill_cr', ('ready', 'next'), 0)
        h.slist(h.addr(CUR, 'dill_cr', 'clauses'), [])
        h.qlist(ctxfld(eng.prog, 'cr', 'ready'), [])
        st.mem[(shape('ptrvar'), 0, ())] = (self.base(), 64)

    def base(self):
        return self.b

    def c_dill_hquery(self, eng, st, ins, args, site):
        return [(st, shape('B'))]

    def c_dill_bundle_mem(self, eng, st, ins, args, site):
        sz = eng.prog.sizeof('dill_bundle')
        if self.ln < sz:
            eng.violate(st, ins, 'C20-place', 'a bundle is placed in caller memory that is too small for it')
        return [(st, 5)]

    def c_dill_hclose(self, eng, st, ins, args, site):
        return [(st, 0)]

    def on_store(self, eng, st, addr, val, bits, ins):
        KApi.on_store(self, eng, st, addr, val, bits, ins)
        if isinstance(addr, int) and not (self.b <= addr and addr + bits // 8 <= self.b + self.ln):
            eng.violate(st, ins, 'C20-place', 'memory outside the block the caller supplied is written')

    def on_ret(self, eng, st, val, ins):
        self.sub.count('placements')
        c = st.const(val)
        if c == -1:
            if self.ln >= 4096 + 512:
                eng.violate(st, ins, 'C20-place', 'ample caller-supplied memory is refused')
            if st.const(eng.errno(st)) not in (ENOMEM, EINVAL):
                eng.violate(st, ins, 'C20-place', 'too little caller-supplied memory is not reported as ENOMEM')
            return
        cr = st.const(eng.load(st, shape('ptrvar'), 64))
        sz = eng.prog.sizeof('dill_cr')
        if cr is None or cr < self.b or cr + sz > self.b + self.ln:
            eng.violate(st, ins, 'C20-place', 'a coroutine is placed outside the memory the caller supplied')
        elif cr % 16:
            eng.violate(st, ins, 'C20-align', 'the stack of a coroutine in caller-supplied memory starts misaligned')


def check(ctx):
    ctx.rule('C20-alloc', 'each stack is in at most one hand; its reported size fits its block')
    ctx.rule('C20-guard', 'the lowest page of each stack is inaccessible and outside the usable size')
    ctx.rule('C20-align', 'stack tops are aligned')
    ctx.rule('C20-release', 'stacks return to the system once, unprotected, by the right address, only when unused')
    ctx.rule('C20-keep', 'the stack just returned is not given back to the system by that call')
    ctx.rule('C20-cache', 'the cache is limited and consistent with its count')
    ctx.rule('C20-place', 'a coroutine in caller-supplied memory stays inside it')
    jobs = []
    names = ('dill_ctx_stack_init', 'dill_allocstack', 'dill_freestack', 'dill_ctx_stack_term')
    for c in ctx.configs:
        p = ctx.prog(c)
        ctx.cur = c
        for n in names:
            ctx.func(p, n)
        for page in ((4096, 65536) if ctx.tier == 'quick' else (4096, 16384, 65536)):
            jobs.append(explore(c, p, page, names))
        if p.sizeof('dill_cr') % 16:
            ctx.violation('C20-align', 'dill_prologue', 'the size of the coroutine record at the top of a stack breaks its alignment (%d)' % p.sizeof('dill_cr'), 'cr.h')
        ctx.count('layouts')
        pro = ctx.func(p, 'dill_prologue')
        szb, szc = p.sizeof('dill_bundle'), p.sizeof('dill_cr')
        for new in (False, True):
            for base in (0x100000, 0x100008, 0x10000f, 0x100001):
                for ln in sorted({0, 1, 8, 15, 16, szb - 1, szb, szb + 1, szb + 15, szb + szc - 1, szb + szc, szb + szc + 16, szc - 1, szc, szc + 1,
                                  szc + 15, szc + 16, 4096 + 512, 65536 + 7}):
                    def mk(new=new, base=base, ln=ln):
                        x = Place(new, ln)
                        x.b = base
                        return x
                    jobs.append(engine_job(c, p, pro, mk, 'scenarios', args={1: shape('ptrvar'), 2: ln, 3: -1 if new else 9}))
    ctx.run_jobs(jobs)
    n = len(ctx.configs)
    for k, m in (('handed_out', 100), ('returned', 100), ('cleanups', 5), ('placements', 100), ('protections', 100), ('releases', 100)):
        ctx.minimum(k, m * n)
