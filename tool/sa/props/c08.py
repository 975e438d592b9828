"""A handle answers only for its own type."""
from sock import *
from kernel import *
from props import c07
from props.c12 import Kern
from props.sockcheck import partial
import driver
from driver import engine_job

EXPLAIN = """Four steps. (1) Every public function and constructor is interpreted: what kinds of objects exist, with which query
function and which embedded socket vtables; for every query on a handle, which offsets of the answer are accessed; and
that a function whose query fails reports exactly that failure without any effect. (2) The query function of each kind
is interpreted with every type identifier of the library and an unknown one: it must answer its own type with the object
and a generic socket type exactly if it embeds that vtable, with the address of the vtable, and fail with ENOTSUP for
everything else, changing nothing. (3) Every access to an answer must stay inside the structure that answers that type.
(4) dill_hquery is interpreted over handle tables with every state of the cache: the answer for one type is never given
for another, a failure is not cached, and new, transferred and recycled numbers start without a cached answer."""
ASSUME = ['type identifiers are constant pointers to distinct globals']
ENOTSUP, EPROTO = 95, 71
GEN = {'dill_bsock_type': 'dill_bsock_vfs', 'dill_msock_type': 'dill_msock_vfs'}
KERNEL = ('dill_chmake', 'dill_chmake_mem', 'dill_bundle', 'dill_bundle_mem', 'dill_chsend', 'dill_chrecv', 'dill_chdone', 'dill_choose',
          'dill_bundle_wait', 'dill_prologue')


def tname(t):
    """name of a type identifier"""
    while isinstance(t, tuple) and t and t[0] in ('ld', 'g', 'p') and len(t) > 1:
        if t[0] == 'g':
            n = t[1]
            return n.split('@')[0].rstrip('_')
        t = t[1]
    return None


class Use(Kern):
    """records the use of answers; a failing query must be the failure reported"""

    def __init__(self, mode='generic'):
        Kern.__init__(self, mode)
        self.uses = {}
        self.types = set()

    def deref(self, eng, st, addr, ins):
        SPolicy.deref(self, eng, st, addr, ins)
        b, o, ix = split(addr)
        if isinstance(b, tuple) and b[:2] == ('s', 'obj') and len(b) > 3:
            if isinstance(o, int) and not ix:
                self.uses.setdefault((b[3], o, ins.get('bits', 8) // 8), (eng.entry.name, '%s:%s' % (st.frames[-1].func.file, ins.get('ln', 0))))

    def c_dill_hquery(self, eng, st, ins, args, site):
        self.types.add(args[1])
        r = Kern.c_dill_hquery(self, eng, st, ins, args, site)
        for s, v in r if isinstance(r, list) else ():
            if v == 0 and isinstance(args[0], tuple) and args[0][0] == 'arg':
                q = s.ps.get('hqf')     # several types may be tried in turn
                s.ps['hqf'] = ((q[0] if q else frozenset()) | {eng.errno(s)}, args[0])
        return r

    def effect(self, eng, st, ins, what):
        if st.ps.get('hqf') and not self.attach and not st.ps.get('hqe') and not self.probing(st):
            st.ps['hqe'] = True
            eng.violate(st, ins, 'C08-effect', '%s although the handle is of another kind' % what)

    def probing(self, st):
        """several types tried in turn: decided by the last query"""
        n = len({k for k in st.ps if isinstance(k, tuple) and k[0] == 'hq'})
        return n > 0

    def call(self, eng, st, ins, name, args, site):
        if st.ps.get('hqf') and name not in ('free', 'dill_hquery', '__errno_location', 'SSL_free', 'SSL_CTX_free') and \
                not name.startswith('llvm.') and name != '<asm>':
            t = eng.prog.resolve(st.frames[-1].func.tu, name)
            if name == 'dill_hclose' and args[0] == st.ps['hqf'][1] and re.search('_(at|de)tach', self.fn.name):
                pass                # functions that take a handle over close it on failure
            elif t is None or not (t.hidden or t.internal):
                self.effect(eng, st, ins, 'calls %s' % name)
        return Kern.call(self, eng, st, ins, name, args, site)

    def on_store(self, eng, st, addr, val, bits, ins):
        Kern.on_store(self, eng, st, addr, val, bits, ins)
        b = split(addr)[0]
        if st.ps.get('hqf') and isinstance(b, tuple) and b[:1] == ('arg',):
            self.effect(eng, st, ins, 'writes through an argument')

    def on_ret(self, eng, st, val, ins):
        Kern.on_ret(self, eng, st, val, ins)
        q = st.ps.get('hqf')
        if q is None or self.fn.ret not in ('i32', 'i64', 'ptr') or self.probing(st):
            return
        self.sub.count('failed queries')
        fail = self.failing(st, val)
        if fail is False:
            eng.violate(st, ins, 'C08-error', 'succeeds on a handle of another kind')
            return
        e = eng.errno(st)
        c = st.const(e) if isinstance(e, tuple) else e
        if e in q[0]:
            return
        if self.attach and c == EPROTO:
            return
        eng.violate(st, ins, 'C08-error', 'a handle of another kind is reported with errno %s' % ename(e))

    def finish(self, eng, sub):
        SPolicy.finish(self, eng, sub)
        sub.r['data'] = (self.templates, self.uses, self.types)


class Query(SPolicy):
    def __init__(self, struct, base, T, want):
        SPolicy.__init__(self)
        self.struct, self.base, self.T, self.want = struct, base, T, want

    def on_store(self, eng, st, addr, val, bits, ins):
        b = split(addr)[0]
        if not (isinstance(b, tuple) and b[0] == 'al') and b != ('g', 'errno'):
            eng.violate(st, ins, 'C08-effect', 'answering a query changes memory')

    def on_ret(self, eng, st, val, ins):
        self.sub.count('answers')
        n = tname(self.T) or 'an unknown type'
        if self.want is None:
            if val != 0:
                eng.violate(st, ins, 'C08-answer', 'an object of kind %s answers for %s' % (self.struct, n))
            elif st.const(eng.errno(st)) != ENOTSUP:
                eng.violate(st, ins, 'C08-answer', 'refuses %s with errno %s instead of ENOTSUP' % (n, ename(eng.errno(st))))
        elif val != padd(self.base, self.want):
            eng.violate(st, ins, 'C08-answer', 'answers for %s with %s instead of the address of its %s' %
                        (n, show(val)[:40], 'object' if n not in GEN else 'vtable'))


class Probe(SPolicy):
    """which types does this query function answer with the object itself?"""

    def __init__(self):
        SPolicy.__init__(self)
        self.vals = set()

    def on_ret(self, eng, st, val, ins):
        self.vals.add(val)

    def finish(self, eng, sub):
        sub.r['data'] = tuple(self.vals)


class Cache(c07.Table):
    def __init__(self, n, free, h, caches, mode, ask=None):
        c07.Table.__init__(self, n, free, h=h, mode=mode)
        self.caches, self.ask = caches, ask

    def cache(self, i):
        return self.caches.get(i, (0, 0))

    def on_abort(self, eng, st, ins):
        pass

    def on_ret(self, eng, st, val, ins):
        self.sub.count('cache outcomes')
        c = st.const(val)
        if eng.entry.name == 'dill_hquery':
            t, p = self.cache(self.h)
            asked = (shape('query%d' % self.h), self.vfs(self.h))
            calls = [x for x in st.ps['calls']]
            if any(x != asked for x in calls) or len(calls) > 1:
                eng.violate(st, ins, 'C08-cache', 'a query asks another object')
            if not calls and not (p != 0 and t == self.ask and val == p):
                eng.violate(st, ins, 'C08-cache', 'the answer cached for one type is given for another')
            if calls and val != 0 and val != shape('answer'):
                eng.violate(st, ins, 'C08-cache', 'the answer of the object is not passed on')
            if calls and val == 0 and st.const(eng.errno(st)) != ENOTSUP:
                eng.violate(st, ins, 'C08-cache', 'the error of the object is not passed on')
            for i in range(self.n):
                nx, vfs, ty, ptr = self.entry(eng, st, i)
                if (ty, ptr) == self.cache(i) or ptr == 0:
                    continue
                if i == self.h and calls and val != 0 and (ty, ptr) == (self.ask, val):
                    continue
                eng.violate(st, ins, 'C08-cache', 'a query leaves a cached answer for a type it was not given for')
        elif c is not None and c >= 0 and eng.entry.name in ('dill_hmake', 'dill_hown'):
            nx, vfs, ty, ptr = self.entry(eng, st, c)
            if st.const(ptr) != 0 and st.const(ty) != 0:
                eng.violate(st, ins, 'C08-cache', 'a new handle starts with the cached answer of an earlier one')


def check(ctx):
    ctx.rule('C08-answer', 'a query function answers its own type and the socket interfaces it embeds, nothing else (ENOTSUP)')
    ctx.rule('C08-own', 'each kind of object has a type of its own')
    ctx.rule('C08-use', 'the answer to a query is only accessed inside the structure that answers for that type')
    ctx.rule('C08-error', 'a query that fails is the failure reported')
    ctx.rule('C08-effect', 'nothing is changed when a query fails')
    ctx.rule('C08-cache', 'a cached answer is only given for the type and the handle it was obtained for')
    configs = ['default'] if ctx.tier == 'quick' else [c for c in ctx.configs if c != 'nothreads']
    ctx.configs = configs
    for c in configs:
        ctx.cur = c
        one(ctx, c)
    n = len(configs)
    ctx.minimum('failed queries', 60 * n)
    ctx.minimum('answers', 100 * n)
    ctx.minimum('accesses judged', 30 * n)
    ctx.minimum('kinds', 10 * n)
    ctx.minimum('cache outcomes', 10 * n)


def one(ctx, c):
    prog = ctx.prog(c)
    callees(prog, next(iter(prog.funcs.values())))
    slots(prog)
    callers(prog)
    jobs = []
    for f in socket_functions(prog):
        jobs.append(engine_job(c, prog, f, Use, tag='functions'))
    for n in KERNEL:
        jobs.append(engine_job(c, prog, ctx.func(prog, n), Use, tag='functions'))
    data = ctx.run_jobs(jobs)
    partial(ctx)
    ctx.viol = {k: v for k, v in ctx.viol.items() if v['rule'].startswith('C08')}
    kinds, uses, types = {}, {}, set()
    sk = slot_keys(prog)
    qo = prog.field('dill_hvfs', 'query')[0]
    for d in data:
        if not d:
            continue
        for t in d[0]:
            for off, v, w in t['cells']:
                if isinstance(v, tuple) and v[0] == 'g' and ('dill_hvfs', qo) in sk.get(v[1], ()):
                    k = kinds.setdefault((t['struct'], v[1]), dict(off=off - qo, vfs={}, reach=0))
                    k['reach'] = max(k['reach'], t['reach'])
                    for o2, v2, _ in t['cells']:
                        if isinstance(v2, tuple) and v2[0] == 'g':
                            for s, so in sk.get(v2[1], ()):
                                if s in GEN.values() and so == 0:
                                    k['vfs'][s] = o2
        for k, v in d[1].items():
            uses.setdefault(k, v)
        types |= d[2]
    types = {t for t in types if isinstance(t, tuple)}
    types |= {('g', n) for n, g in prog.globals.items() if re.search(r'_type_', n)}
    foreign = ('g', '__foreign_type__')
    # which types each kind answers
    jobs, meta = [], []
    for (s, q), k in sorted(kinds.items()):
        ctx.count('kinds')
        base = padd(SH, k['off'])
        for t in sorted(types, key=repr) + [foreign]:
            jobs.append(engine_job(c, prog, prog.funcs[q], Probe, args={0: base, 1: t}))
            meta.append((s, q, t))
    ans = {}
    for (s, q, t), d in zip(meta, ctx.run_jobs(jobs)):
        ans[s, q, t] = set(d or ())
    own = {}
    loose = {(s, q) for (s, q) in kinds if ans[s, q, foreign] - {0}}       # judged below
    for (s, q), k in sorted(kinds.items()):
        o = [t for t in types if ans[s, q, t] == {SH} and tname(t) not in GEN]
        o = [t for t in o if not any(ans[s2, q2, t] - {0} for (s2, q2) in kinds if q2 != q and (s2, q2) not in loose)]
        if not o:
            f = prog.funcs[q]
            ctx.violation('C08-own', f.name, 'no type belongs to objects of kind %s alone' % s, '%s:%s' % (f.file, f.line), config=c)
        for t in o:
            own.setdefault(q, set()).add(t)
    jobs = []
    for (s, q), k in sorted(kinds.items()):
        base = padd(SH, k['off'])
        for t in sorted(types, key=repr) + [foreign]:
            n = tname(t) if t != foreign else None
            if n in GEN:
                want = k['vfs'].get(GEN[n])
            elif t in own.get(q, ()):
                want = 0
            else:
                want = None
            jobs.append(engine_job(c, prog, prog.funcs[q], lambda s=s, t=t, w=want: Query(s, SH, t, w), args={0: base, 1: t}))
    ctx.run_jobs(jobs)
    # accesses
    for (t, o, w), (fn, loc) in sorted(uses.items(), key=repr):
        ctx.count('accesses judged')
        n = tname(t)
        lo = 0
        if n in GEN:
            size = prog.sizeof(GEN[n])
        else:
            ss = [(prog.sizeof(s), k['reach']) for (s, q), k in kinds.items() if t in own.get(q, ())]
            if not ss:
                ctx.violation('C08-use', fn, 'uses the answer for %s, which no kind of object gives' % (n or show(t)), loc, config=c)
                continue
            size, lo = min(ss)
            size += lo              # objects created in one block may know each other
        if o < -lo or o + w > size:
            ctx.violation('C08-use', fn, 'accesses byte %d of the answer for %s, which has %d bytes' % (o, n or show(t), size), loc, config=c)
    # the cache
    mk, q, cl, hown = (ctx.func(prog, x) for x in ('dill_hmake', 'dill_hquery', 'dill_hclose', 'dill_hown'))
    T1, T2, P = shape('T1'), shape('T2'), shape('P')
    jobs = []
    for caches in ({}, {1: (T1, P)}, {1: (T1, 0)}, {0: (T1, shape('P0')), 1: (T2, P)}, {0: (T1, shape('P0'))}):
        for ask in (T1, T2):
            jobs.append(engine_job(c, prog, q, lambda caches=caches, ask=ask: Cache(3, [2], 1, caches, 'query', ask), args={0: 1, 1: ask}))
    stale = {0: (T1, shape('P0')), 1: (T1, P), 2: (T2, shape('P2')), 3: (T1, shape('P3'))}
    jobs.append(engine_job(c, prog, mk, lambda: Cache(4, [2, 3], None, stale, 'make'), args={0: shape('newvfs')}))
    jobs.append(engine_job(c, prog, hown, lambda: Cache(4, [2, 3], 1, stale, 'own'), args={0: 1}))
    ctx.run_jobs(jobs)
    ctx.viol = {k: v for k, v in ctx.viol.items() if v['rule'].startswith('C08')}
