"""Threads share nothing; every thread is set up and torn down once."""
from sock import *
from kernel import *
import driver, re
from driver import engine_job

EXPLAIN = """(1) Every variable of static storage duration in the program is classified by storage class and by a must-dataflow
analysis over the call graph of every access to it: a variable that is not thread-local may only be (a) never written, (b)
written inside a function that runs under pthread_once and read only where that has been called on every path, (c) written
under a mutex and accessed only after that mutex was taken, (d) accessed by the main thread alone, (e) always set to the same
value (a constant that is its initial value's one successor, or sysconf of a constant) or (f) never read. An obligation a
function cannot discharge itself is passed to all its callers; exported functions and callbacks must have none left. (2) The same dataflow shows that
the per-thread context is not accessed before it is initialised. (3) The functions that set a thread up and tear it down are interpreted
abstractly: every part of the context is initialised once and terminated once, the destructor is registered once for each
thread, and by atexit for the main thread, which the key destructor alone would not reach. (4) No library function with
hidden shared state is called."""
ASSUME = ['the bundled resolver (dns.c) keeps its own state in objects it is given', 'OpenSSL locks its own state (1.1 and later)']
UNSAFE = {'strtok', 'gethostbyname', 'gethostbyaddr', 'getservbyname', 'getprotobyname', 'inet_ntoa', 'rand', 'srand', 'random', 'srandom', 'drand48',
          'lrand48', 'localtime', 'gmtime', 'ctime', 'asctime', 'strerror', 'setenv', 'putenv', 'unsetenv', 'readdir', 'ttyname', 'getpwnam', 'getpwuid',
          'getgrnam', 'getgrgid', 'tmpnam', 'crypt', 'ecvt', 'fcvt', 'gcvt', 'basename', 'dirname', 'getlogin', 'setlocale', 'signal', 'hcreate', 'hsearch', 'ptsname',
          'umask', 'chdir'}
CTX = 'dill_ctx_'


class Flow:
    """must-facts at each instruction; facts: ('once', fn key), ('lock', g), ('was', g), 'main', 'ready'"""

    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.ioff = prog.field('dill_ctx', 'initialized')[0]
        self.gen = {}           # function key -> facts it guarantees at every return
        self.needs = {}         # function key -> list of (need, description, loc)
        self.onces = {}         # once functions
        self.exits = {}         # callbacks registered with atexit or a thread key -> facts known to hold
        self.ismain = {f.key for f in prog.funcs.values() if self.is_ismain(f)}
        self.setsinit = set()
        if CTX in prog.globals or True:
            for f in prog.funcs.values():
                for ins in self.all(f):
                    if ins['op'] == 'store' and ins['val'] == ['c', 1]:
                        b = ins['p']
                        g = f.insmap.get(b[1]) if b[0] == 'v' else None
                        if g is not None and g['op'] == 'getelementptr' and g.get('off') == self.ioff and g['sty'].strip() == '%struct.dill_ctx':
                            self.setsinit.add(f.key)
        self.collect()
        self.solve()

    def all(self, f):
        for b in f.blocks:
            for ins in b:
                yield ins

    def is_ismain(self, f):
        """returns whether the thread id is the process id"""
        seen = set()
        for ins in self.all(f):
            if ins['op'] == 'call' and ins['fn'][0] == 'g':
                seen.add(ins['fn'][1])
        return 'getpid' in seen and ('syscall' in seen or 'gettid' in seen) and len(f.blocks) <= 3 and f.ret != 'void'

    def root(self, f, op):
        """global an address is derived from"""
        n = 0
        while n < 20:
            n += 1
            if op[0] == 'g':
                g = op[1]
                k = '%s@%s' % (g, f.tu)
                k = k if k in self.prog.globals else g
                return (k, 0) if k in self.prog.globals else None
            if op[0] != 'v':
                return None
            i = f.insmap.get(op[1])
            if i is None:
                return None
            if i['op'] == 'getelementptr':
                r = self.root(f, i['p'])
                if r is None:
                    return None
                o = None if i.get('off') is None or i.get('var') or r[1] is None else r[1] + i['off']
                return (r[0], o)
            if i['op'] == 'call' and i['fn'][0] == 'g' and 'threadlocal' in i['fn'][1]:
                op = i['args'][0]
                continue
            if i['op'] in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                op = i['a']
                continue
            return None
        return None

    def target(self, f, op):
        if op[0] != 'g':
            return None
        return self.prog.resolve(f.tu, op[1])

    def collect(self):
        for f in self.prog.funcs.values():
            for ins in self.all(f):
                if ins['op'] != 'call' or ins['fn'][0] != 'g':
                    continue
                n = ins['fn'][1]
                if n == 'pthread_once':
                    t, g = self.target(f, ins['args'][1]), self.root(f, ins['args'][0])
                    if t is not None and g is not None:
                        self.onces.setdefault(t.key, set()).add(g[0])

    def test(self, f, op, pol=True, n=0):
        """what a boolean is about: (fact, polarity)"""
        if op[0] != 'v' or n > 12:
            return None
        i = f.insmap.get(op[1])
        if i is None:
            return None
        if i['op'] in ('zext', 'sext', 'trunc'):
            return self.test(f, i['a'], pol, n + 1)
        if i['op'] == 'xor' and i['b'] in (['c', 1], ['c', -1]):
            return self.test(f, i['a'], not pol, n + 1)
        if i['op'] == 'call' and i['fn'][0] == 'g' and i['fn'][1].startswith('llvm.expect'):
            return self.test(f, i['args'][0], pol, n + 1)
        if i['op'] == 'icmp' and i['b'] == ['c', 0] and i['pred'] in ('ne', 'eq'):
            return self.test(f, i['a'], pol if i['pred'] == 'ne' else not pol, n + 1)
        if i['op'] == 'call':
            t = self.target(f, i['fn'])
            if t is not None and t.key in self.ismain:
                return ('main', pol)
        if i['op'] == 'load':
            r = self.root(f, i['p'])
            if r == (CTX, self.ioff):
                return ('ready', pol)
        return None

    def transfer(self, f, ins, s):
        if ins['op'] == 'call':
            if ins['fn'][0] == 'g':
                n = ins['fn'][1]
                if n == 'pthread_once':
                    t = self.target(f, ins['args'][1])
                    if t is not None:
                        return s | {('once', t.key)} | self.gen.get(t.key, frozenset())
                if n in ('pthread_mutex_lock', 'pthread_mutex_unlock'):
                    g = self.root(f, ins['args'][0])
                    if g is not None:
                        return s | {('lock', g[0]), ('was', g[0])} if n.endswith('_lock') else s - {('lock', g[0])}
                t = self.target(f, ins['fn'])
                if t is not None:
                    if t.key in self.setsinit:
                        s = s | {'ready'}
                    return s | self.gen.get(t.key, frozenset())
        if ins['op'] == 'store' and self.root(f, ins['p']) == (CTX, self.ioff) and ins['val'] != ['c', 0]:
            return s | {'ready'}
        return s

    def states(self, f):
        """block index -> facts at entry (None: unreachable)"""
        key = f.key
        n = len(f.blocks)
        init = set()
        if key in self.onces:
            init.add(('once', key))
        ins_ = [None] * n
        ins_[0] = frozenset(init)
        work = [0]
        while work:
            b = work.pop(0)
            s = ins_[b]
            for i in f.blocks[b]:
                s = self.transfer(f, i, s)
            t = f.blocks[b][-1]
            out = []
            if t['op'] == 'br':
                if t.get('c') is not None and len(t['s']) == 2 and t['s'][0] != t['s'][1]:
                    q = self.test(f, t['c'])
                    for k, d in enumerate(t['s']):
                        out.append((d, s | {q[0]} if q and q[1] == (k == 0) else s))
                else:
                    out = [(d, s) for d in t['s']]
            else:
                out = [(d, s) for d in t.get('s', ())]
                if t['op'] == 'switch':
                    out = [(d, s) for d in f.succs[b]]
            for d, o in out:
                m = o if ins_[d] is None else ins_[d] & o
                if m != ins_[d]:
                    ins_[d] = m
                    if d not in work:
                        work.append(d)
        return ins_

    def solve(self):
        ch = True
        fs = list(self.prog.funcs.values())
        while ch:
            ch = False
            for f in fs:
                st = self.states(f)
                r = None
                for b, s in enumerate(st):
                    if s is None or not f.blocks[b] or f.blocks[b][-1]['op'] != 'ret':
                        continue
                    for i in f.blocks[b]:
                        s = self.transfer(f, i, s)
                    r = s if r is None else r & s
                g = frozenset(x for x in (r or ()) if x == 'ready' or x[0] in ('once', 'was', 'lock'))
                if g != self.gen.get(f.key, frozenset()):
                    self.gen[f.key] = g
                    ch = True

    def loc(self, f, ins):
        return '%s:%s' % (ins.get('fl', f.file).split('/')[-1], ins.get('ln', 0))

    # -------------------------------------------------------------- accesses
    def accesses(self):
        """(global, kind, function, instruction, facts, stored value)"""
        for f in self.prog.funcs.values():
            st = self.states(f)
            for b, s in enumerate(st):
                if s is None:
                    continue
                for i in f.blocks[b]:
                    for g, kind, val in self.touch(f, i):
                        yield g, kind, f, i, s, val
                    s = self.transfer(f, i, s)

    def touch(self, f, i):
        if i['op'] == 'load':
            r = self.root(f, i['p'])
            if r:
                yield r, 'read', None
        elif i['op'] == 'store':
            r = self.root(f, i['p'])
            if r:
                yield r, 'write', i['val']
            r = self.root(f, i['val'])
            if r:
                yield r, 'escape', i['p']
        elif i['op'] in ('cmpxchg', 'atomicrmw'):
            r = self.root(f, i.get('p') or i.get('a') or ['c', 0])
            if r:
                yield r, 'atomic', None
        elif i['op'] == 'call':
            n = i['fn'][1] if i['fn'][0] == 'g' else ''
            if 'threadlocal' in n:
                return
            for k, a in enumerate(i['args']):
                r = self.root(f, a)
                if not r:
                    continue
                if n in ('pthread_once', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init'):
                    yield r, 'sync', None
                elif re.match(r'llvm\.mem(cpy|move)', n):
                    yield r, 'write' if k == 0 else 'read', None
                elif re.match(r'llvm\.memset', n) or n == 'pthread_key_create':
                    yield r, 'write', None
                else:
                    yield r, 'passed', None
        elif i['op'] == 'phi':
            for a in i.get('in', ()):
                r = self.root(f, a[0] if isinstance(a, (list, tuple)) and isinstance(a[0], (list, tuple)) else a)
                if r:
                    yield r, 'phi', a
        elif i['op'] in ('ret', 'select'):
            for k in ('v', 'val', 'a', 'b', 't', 'f'):
                if isinstance(i.get(k), (list, tuple)) and len(i[k]) == 2 and i[k][0] in ('g', 'v'):
                    r = self.root(f, i[k])
                    if r:
                        yield r, 'escape', None


def same_value(fl, f, v):
    """a description of a value that is the same each time"""
    if v is None:
        return None
    if v[0] == 'c':
        return ('c', v[1])
    if v[0] == 'v':
        i = f.insmap.get(v[1])
        if i is not None and i['op'] in ('sext', 'zext', 'trunc'):
            return same_value(fl, f, i['a'])
        if i is not None and i['op'] == 'call' and i['fn'][0] == 'g' and i['fn'][1] in ('sysconf', 'getpagesize') and all(a[0] == 'c' for a in i['args']):
            return (i['fn'][1],) + tuple(tuple(a) for a in i['args'])
    return None


def check(ctx):
    ctx.rule('C23-shared', 'variables shared by threads are written only in one-time set-up and read only after it')
    ctx.rule('C23-leak', 'no address of one thread\'s state is stored where another thread finds it, except for the main thread\'s own use')
    ctx.rule('C23-early', 'the state of a thread is not used before it is initialised')
    ctx.rule('C23-init', 'every part of a thread\'s state is initialised exactly once')
    ctx.rule('C23-term', 'every part of a thread\'s state is terminated exactly once')
    ctx.rule('C23-destructor', 'the destructor is registered exactly once for each thread, and atexit for the main thread')
    ctx.rule('C23-libc', 'no library function with hidden shared state')
    for c in ctx.configs:
        ctx.cur = c
        storage(ctx, c)
    lifecycle(ctx)
    ctx.minimum('shared variables judged', 20)
    ctx.minimum('accesses judged', 40)
    ctx.minimum('uses of the context', 20 * len(ctx.configs))
    ctx.minimum('lifecycles', len(ctx.configs))
    ctx.minimum('calls of library functions', 500)


def storage(ctx, c):
    prog = ctx.prog(c)
    slots(prog)
    fl = Flow(ctx, prog)
    acc = {}
    early = []
    for (g, o), kind, f, i, s, val in fl.accesses():
        if g == CTX:
            ctx.count('uses of the context')
            if o == fl.ioff and kind in ('read', 'write'):
                continue
            if kind == 'phi':
                # the fact holds at the end of the block the value comes from
                early += phis(fl, f, i)
                continue
            t = fl.target(f, i['fn']) if i['op'] == 'call' else None
            if t is not None and t.key in fl.setsinit or f.key in fl.setsinit:
                continue
            if 'ready' not in s:
                early.append((f, i))
        else:
            acc.setdefault(g, []).append((kind, f, i, s, val))
    cs = callers(prog)
    roots = registered(fl)
    seen = set()
    for f, i in early:
        if not discharged(fl, f.key, 'ready', cs, roots, set()):
            ctx.violation('C23-early', f.name, 'uses the context of the thread before it is initialised', fl.loc(f, i), config=c)
    threads = c != 'nothreads'
    for g, info in sorted(prog.globals.items()):
        if info['const'] or info['decl'] or info.get('tls') or not threads or g == CTX:
            continue
        ctx.count('shared variables judged')
        judge(ctx, fl, c, g, info, acc.get(g, []), cs, roots)
    for f in prog.funcs.values():
        for i in fl.all(f):
            if i['op'] == 'call' and i['fn'][0] == 'g' and fl.target(f, i['fn']) is None:
                ctx.count('calls of library functions')
                if i['fn'][1] in UNSAFE and threads:
                    ctx.violation('C23-libc', f.name, 'calls %s, which shares state between threads' % i['fn'][1], fl.loc(f, i), config=c)


def phis(fl, f, i):
    st = fl.states(f)
    r = []
    for v, b in i['in']:
        if fl.root(f, v) is None or fl.root(f, v)[0] != CTX or st[b] is None:
            continue
        s = st[b]
        for x in f.blocks[b]:
            s = fl.transfer(f, x, s)
        t = f.blocks[b][-1]
        if t['op'] == 'br' and t.get('c') is not None:
            q = fl.test(f, t['c'])
            for k, d in enumerate(t['s']):
                if f.blocks[d] and i in f.blocks[d] and q and q[1] == (k == 0):
                    s = s | {q[0]}
        if 'ready' not in s:
            r.append((f, i))
    return r


def registered(fl):
    """functions run by the system at the end of threads or of the process: facts that held when they were registered"""
    r = {}
    for f in fl.prog.funcs.values():
        st = None
        for b, blk in enumerate(f.blocks):
            for n, i in enumerate(blk):
                if i['op'] == 'call' and i['fn'][0] == 'g' and i['fn'][1] in ('atexit', 'pthread_key_create'):
                    t = fl.target(f, i['args'][0] if i['fn'][1] == 'atexit' else i['args'][1])
                    if t is None:
                        continue
                    st = st or fl.states(f)
                    if st[b] is None:
                        continue
                    s = st[b]
                    for x in blk[:n]:
                        s = fl.transfer(f, x, s)
                    r[t.key] = r[t.key] & s if t.key in r else s
    return r


def discharged(fl, key, need, cs, roots, seen):
    """do all callers establish the fact before the call?"""
    if key in seen:
        return True
    seen = seen | {key}
    f = fl.prog.funcs[key]
    if key in roots and need in roots[key]:
        return True
    if isinstance(need, tuple) and need[0] == 'once' and need[1] == key:
        return True
    up = cs.get(key, ())
    if not up or not (f.internal or f.hidden):
        return False
    for k in up:
        g = fl.prog.funcs[k]
        st = fl.states(g)
        for b, blk in enumerate(g.blocks):
            s = st[b]
            if s is None:
                continue
            for i in blk:
                if i['op'] == 'call' and i['fn'][0] == 'g':
                    t = fl.target(g, i['fn'])
                    if t is not None and t.key == key and need not in s and not discharged(fl, k, need, cs, roots, seen):
                        return False
                s = fl.transfer(g, i, s)
    return True


def judge(ctx, fl, c, g, info, acc, cs, roots):
    """one shared variable"""
    ok = lambda f, s, need: need in s or discharged(fl, f.key, need, cs, roots, set())
    acc = [a for a in acc if a[0] != 'sync']
    for a in acc:
        ctx.count('accesses judged')
    writes = [a for a in acc if a[0] in ('write', 'atomic')]
    nm = info['name'].split('@')[0]
    where = lambda a: fl.loc(a[1], a[2])
    # passed to functions outside of the library: tables and identifiers; only tolerated for what nobody writes
    if not writes:
        return
    reads = [a for a in acc if a[0] in ('read', 'passed', 'escape', 'phi')]
    if not reads:
        return      # a sink nobody looks at
    vals = {same_value(fl, a[1], a[4]) for a in writes}
    if None not in vals and len(vals) == 1:
        return
    if all(a[0] == 'atomic' for a in writes):
        return
    # main thread only
    if all('main' in a[3] or discharged(fl, a[1].key, 'main', cs, roots, set()) for a in writes):
        for a in reads:
            if not ('main' in a[3] or mainread(fl, a, g, cs, roots)):
                ctx.violation('C23-shared', a[1].name, 'reads %s, which the main thread writes, in any thread' % nm, where(a), config=c)
        return
    cands = set()
    for a in writes:
        for x in a[3]:
            if isinstance(x, tuple) and x[0] == 'lock':
                cands.add(x)
        for k in fl.onces:
            cands.add(('once', k))
    for need in sorted(cands, key=repr):
        if need[0] == 'once':
            inside = lambda a: within(fl.prog, a[1].key, {need[1]})
            if not all(inside(a) for a in writes):
                continue
            bad = [a for a in reads if not inside(a) and not ok(a[1], a[3], need)]
        else:
            if not all(ok(a[1], a[3], need) for a in writes):
                continue
            was = ('was', need[1])
            bad = [a for a in reads if not ok(a[1], a[3], was)]
        for a in bad:
            ctx.violation('C23-shared', a[1].name, 'reads %s before its one-time set-up is sure to have happened' % nm, where(a), config=c)
        return
    a = [x for x in writes if not ('main' in x[3])][0]
    ctx.violation('C23-shared', a[1].name, 'writes %s, which all threads share, without one-time protection' % nm, where(a), config=c)


def mainread(fl, a, g, cs, roots):
    """read while the process ends"""
    return a[1].key in roots or within(fl.prog, a[1].key, set(roots))


# ------------------------------------------------------------------ lifecycle
class Setup(KPolicy):
    """records what is done to the parts of the context"""

    def __init__(self, parts, ctxbase=None, live=1):
        KPolicy.__init__(self)
        self.live = live
        self.parts, self.runs = parts, []
        self.base = ctxbase

    def start(self, eng, st, fn):
        self.fn = fn
        st.ps.setdefault('log', ())

    def log(self, st, *x):
        st.ps['log'] = st.ps['log'] + (x,)

    def initial_value(self, eng, st, addr, bits):
        v = KPolicy.initial_value(self, eng, st, addr, bits)
        return v if v is None else self.live

    def on_cmp(self, eng, st, pred, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and isinstance(y, tuple) and 'getpid' in repr(x) and 'gettid' in repr(y) and pred in ('eq', 'ne'):
                m = ('s', 'ismain')
                return m if pred == 'eq' else None
        return None

    def call(self, eng, st, ins, name, args, site):
        if name.startswith('llvm.') or name == '__errno_location':
            return None
        t = eng.prog.resolve(st.frames[-1].func.tu, name)
        for a in args:
            b, o, ix = split(a)
            if isinstance(b, tuple) and (b == ('g', CTX) or b == self.base or b == ('s', 'ctx') or b[:2] == ('s', 'heap') or b[0] == 'ld') and not ix and o in self.parts and t is not None and t.tu != 'ctx':
                self.log(st, 'part', self.parts[o], t.name)
                return [(st, 0)]
        if name == 'syscall' or name == 'gettid':
            return [(st, ('s', 'gettid'))]
        if name == 'getpid':
            st.facts[('s', 'ismain')] = (0, 1, frozenset())
            return [(st, ('s', 'getpid'))]
        if name == 'pthread_getspecific':
            s2 = st.copy()
            self.log(s2, 'have')
            s2.facts[('s', 'ctx')] = (-INF, INF, frozenset((0,)))
            return [(st, 0), (s2, ('s', 'ctx'))]
        if name in ('calloc', 'malloc'):
            p = ('s', 'heap', 'ctx')
            st.facts[p] = (-INF, INF, frozenset((0,)))
            st.private = st.private | {p}
            if name == 'calloc':
                st.regions[p] = ((-INF, INF, 'set', 0),)
            return [(st, p)]
        if name == 'pthread_once':
            f = self.target(eng, args[1])
            self.log(st, 'once', f)
            return [(st, 0)]
        if name in ('atexit', 'pthread_setspecific', 'pthread_key_create', 'free'):
            self.log(st, name, *args)
            return [(st, 0 if name != 'free' else None)]
        if t is None:
            eng.set_errno(st, ('s', 'junk'))
            return [(st, eng.fresh(st, 'ret', name, site, 32))]
        return None

    def target(self, eng, a):
        return a[1] if isinstance(a, tuple) and a[0] == 'g' else None

    def on_store(self, eng, st, addr, val, bits, ins):
        b = split(addr)[0]
        if isinstance(b, tuple) and b[0] == 'g' and b[1] not in (CTX, 'errno'):
            self.log(st, 'global', b[1], val)

    def on_abort(self, eng, st, ins):
        pass

    def on_ret(self, eng, st, val, ins):
        m = st.const(('s', 'ismain'))
        self.runs.append((m, st.ps['log'], val))

    def finish(self, eng, sub):
        sub.r['data'] = self.runs


def lifecycle(ctx):
    for c in ctx.configs:
        prog = ctx.prog(c)
        ctx.cur = c
        parts = {}
        for f in prog.structs['dill_ctx']['fields']:
            if f['type'].startswith('struct '):
                parts[f['bit'] // 8] = f['type'].split()[1]
        ctx.count('lifecycles')
        entry = ctx.func(prog, 'dill_getctx_' if 'dill_getctx_' in prog.funcs else 'dill_ctx_init')
        V = lambda rule, msg: ctx.violation(rule, entry.name, msg, '%s:%s' % (entry.file, entry.line), config=c)
        runs = [r for r in one(ctx, c, entry, parts, live=0) if not any(x[0] == 'have' for x in r[1])]
        if not runs:
            raise AnalysisBroken('%s: no path sets the context up' % c)
        dtor, atex = set(), set()
        for m, log, val in runs:
            check_parts(V, parts, log, 'C23-init', 'init')
            key = [x for x in log if x[0] == 'pthread_setspecific']
            ax = [x for x in log if x[0] == 'atexit']
            for x in ax:
                atex.add(x[1][1])
            if c == 'nothreads':
                if len(ax) != 1:
                    V('C23-destructor', 'the clean-up at exit is registered %d times' % len(ax))
                continue
            if len(key) != 1:
                V('C23-destructor', 'the thread is registered with its destructor %d times' % len(key))
            for x in key:
                if val is not None and x[2] != val:
                    V('C23-destructor', 'the destructor is given something else than the context that was set up')
            if m == 1 and len(ax) != 1 or m != 1 and m is not None and ax:
                V('C23-destructor', 'the clean-up at exit is registered %d times on the path of %s thread' % (len(ax), 'the main' if m == 1 else 'another'))
            if m is None and ax:
                V('C23-destructor', 'the clean-up at exit is registered by every thread')
            i = [n for n, x in enumerate(log) if x[0] == 'pthread_setspecific'][:1]
            j = [n for n, x in enumerate(log) if x[0] == 'once'][:1]
            if not j or i and j[0] > i[0]:
                V('C23-destructor', 'the key is used before it is sure to exist')
            for x in log:
                if x[0] == 'once':
                    o = prog.resolve(entry.tu, x[1].split('@')[0])
                    for m2, log2, _ in one(ctx, c, o, parts):
                        k = [y for y in log2 if y[0] == 'pthread_key_create']
                        if len(k) != 1:
                            V('C23-destructor', 'the one-time set-up creates %d keys' % len(k))
                        for y in k:
                            if not (isinstance(y[2], tuple) and y[2][0] == 'g'):
                                V('C23-destructor', 'the key has no destructor')
                            else:
                                dtor.add(y[2][1])
        for n in sorted(dtor):
            d = prog.funcs[n]
            W = lambda rule, msg: ctx.violation(rule, d.name, msg, '%s:%s' % (d.file, d.line), config=c)
            heap = entry.name == 'dill_getctx_'
            for m, log, val in one(ctx, c, d, parts, {0: ('s', 'ctx')}):
                check_parts(W, parts, log, 'C23-term', 'term')
                fr = [x for x in log if x[0] == 'free']
                if len(fr) != (1 if heap else 0):
                    W('C23-term', 'the context of the thread is released %d times' % len(fr))
                late = [k for k, x in enumerate(log) if x[0] == 'free'] + [len(log)]
                if any(x[0] == 'part' for x in log[late[0]:]):
                    W('C23-term', 'uses the context after it was released')
                if m == 1 and not any(x[0] == 'global' and x[2] == 0 for x in log):
                    W('C23-term', 'the main thread is torn down again at exit')
        for n in sorted(atex):
            d = prog.funcs[n]
            W = lambda rule, msg: ctx.violation(rule, d.name, msg, '%s:%s' % (d.file, d.line), config=c)
            rs = one(ctx, c, d, parts)
            done = [r for r in rs if any(x[0] == 'part' for x in r[1])]
            if not done:
                W('C23-term', 'the clean-up at exit does not tear the main thread down')
            for m, log, val in done:
                check_parts(W, parts, log, 'C23-term', 'term')
        if c != 'nothreads' and not dtor:
            V('C23-destructor', 'no destructor is registered for threads')
        if not atex:
            V('C23-destructor', 'nothing is torn down when the process ends')


def check_parts(V, parts, log, rule, what):
    n = {p: [x[2] for x in log if x[0] == 'part' and x[1] == p] for p in parts.values()}
    for p, l in sorted(n.items()):
        l = [x for x in l if what in x]
        if len(l) != 1:
            V(rule, '%s is %s %d times' % (p, 'initialised' if what == 'init' else 'terminated', len(l)))


def one(ctx, c, f, parts, args=None, live=1):
    prog = ctx.prog(c)
    base = (args or {}).get(0)

    def mk():
        return Setup(parts, base, live)
    d = ctx.run_jobs([engine_job(c, prog, f, mk, args=args or {})])
    return d[0] or []
