"""Calls on sockets neither block the thread nor raise SIGPIPE."""
from sock import *
from props.sockcheck import partial
import driver

EXPLAIN = """Abstract interpretation of every function and method of the socket layer with the mode of each descriptor as a
typestate. A descriptor obtained from the system is in blocking mode until it has been switched over; it must be switched
before the first operation that may block, and before it ends up in an object. At every system call that transfers data,
accepts or connects, the outcome "would block" is followed separately: the very next thing on that path must be a wait for
the same descriptor in the right direction, and a wait that succeeded must be followed by trying again (for a connection:
by asking for its outcome); "would block" never becomes the result. Flags of sending calls are constants that suppress
SIGPIPE, unless the descriptor can only be a datagram socket, which never raises it. Finally no path of the call graph
leads from a public function to a system or library call that blocks the thread, except for the poll of the scheduler."""
ASSUME = ['objects hold descriptors that were switched over when they were created (checked where they are created)',
          'the resolver in dns/ is third-party code outside of the analysis; files and /dev/urandom are not considered to block']
EAGAIN, EINPROGRESS = 11, 115
O_NONBLOCK, SOCK_NONBLOCK, MSG_NOSIGNAL = 0x800, 0x800, 0x4000
IN = {'recv', 'recvmsg', 'recvfrom', 'read', 'readv', 'accept', 'accept4'}
OUT = {'send', 'sendmsg', 'sendto', 'write', 'writev', 'connect', 'sendfile', 'splice'}
FLAG = {'send': 3, 'sendmsg': 2, 'sendto': 3}
UNFLAGGED = {'write', 'writev', 'sendfile', 'splice'}
HIGH = {'dill_fd_connect', 'dill_fd_accept', 'dill_fd_send', 'dill_fd_recv'}
BLOCKING = {'sleep', 'usleep', 'nanosleep', 'clock_nanosleep', 'select', 'pselect', 'poll', 'ppoll', 'epoll_wait', 'epoll_pwait',
            'pause', 'sigwait', 'sigwaitinfo', 'sigtimedwait', 'sigsuspend', 'wait', 'waitpid', 'waitid', 'wait3', 'wait4',
            'getaddrinfo', 'gethostbyname', 'gethostbyname2', 'gethostbyname_r', 'gethostbyaddr', 'getnameinfo', 'system', 'popen',
            'pclose', 'flock', 'lockf', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_join', 'pthread_barrier_wait',
            'sem_wait', 'sem_timedwait', 'msgrcv', 'semop', 'mq_receive', 'mq_send', 'sched_yield', 'pthread_yield', 'getchar',
            'fgets', 'res_query', 'res_search', 'BIO_new_socket', 'BIO_new_fd', 'BIO_new_connect', 'BIO_new_accept', 'SSL_set_fd',
            'SSL_set_rfd', 'SSL_set_wfd'}


class Modes(SPolicy):
    max_steps = 200000
    keepzero = True

    def start(self, eng, st, fn):
        st.ps['nb'] = st.ps['done'] = frozenset()
        st.ps['pend'] = None        # would block: (descriptor, direction, call)
        self.never = {}             # place -> complaint, until some path does better
        self.better = set()
        st.ps['retry'] = None       # waited: (descriptor, call)
        SPolicy.start(self, eng, st, fn)
        # objects hold descriptors that were switched over; inner layers are given such descriptors
        st.ps['nb'] = frozenset(t for k, t in st.ps['own'] if k == 'fd')
        if not is_api(fn):
            st.ps['nb'] |= frozenset(st.frames[0].env[('a', i)] for i, a in enumerate(fn.args) if a['ty'] == 'i32')

    # ---- modes
    def check_mode(self, eng, st, ins, name, fd):
        if ('fd', fd) in st.ps['own']:
            self.sub.count('operations on new descriptors')
            if fd not in st.ps['nb']:
                eng.violate(st, ins, 'C17-mode', '%s on a descriptor still in blocking mode' % name)

    def setnb(self, st, fd):
        st.ps['nb'] = st.ps['nb'] | {fd}

    def c_socket(self, eng, st, ins, args, site):
        r = SPolicy.c_socket(self, eng, st, ins, args, site)
        if isinstance(args[1], int) and args[1] & SOCK_NONBLOCK:
            self.setnb(r[1][0], r[1][1])
        return r

    def c_accept(self, eng, st, ins, args, site):
        return self.io(eng, st, ins, 'accept', args, site)

    def c_accept4(self, eng, st, ins, args, site):
        r = self.io(eng, st, ins, 'accept4', args, site)
        if isinstance(args[3], int) and args[3] & SOCK_NONBLOCK:
            self.setnb(r[-1][0], r[-1][1])
        return r

    def c_socketpair(self, eng, st, ins, args, site):
        r = SPolicy.c_socketpair(self, eng, st, ins, args, site)
        if isinstance(args[1], int) and args[1] & SOCK_NONBLOCK:
            s = r[1][0]
            for i in (0, 1):
                self.setnb(s, eng.load(s, padd(args[3], 4 * i), 32))
        return r

    def c_fcntl(self, eng, st, ins, args, site):
        dup = args[1] in (0, 1030)
        r = SPolicy.c_fcntl(self, eng, st, ins, args, site)
        if dup and args[0] in st.ps['nb']:
            self.setnb(r[1][0], r[1][1])
        if args[1] == 4:
            if hasbits(args[2], O_NONBLOCK):
                self.setnb(r[1][0], args[0])
                r[1][0].ps['done'] = r[1][0].ps['done'] | {args[0]}
            else:
                s = r[1][0]
                s.ps['nb'] = s.ps['nb'] - {args[0]}
        return r

    def c_dill_fd_unblock(self, eng, st, ins, args, site):
        r = SPolicy.c_dill_fd_unblock(self, eng, st, ins, args, site)
        if r is not None:
            self.sub.count('switched over')
            self.setnb(r[1][0], args[0])
        return r

    def c_dill_fd_own(self, eng, st, ins, args, site):
        r = SPolicy.c_dill_fd_own(self, eng, st, ins, args, site)
        if r is not None and args[0] in st.ps['nb']:
            self.setnb(r[1][0], r[1][1])
        return r

    def c_dup(self, eng, st, ins, args, site):
        r = SPolicy.c_dup(self, eng, st, ins, args, site)
        if args[0] in st.ps['nb']:
            self.setnb(r[1][0], r[1][1])
        return r

    def c_dill_fd_accept(self, eng, st, ins, args, site):
        self.check_mode(eng, st, ins, 'dill_fd_accept', args[0])
        return None                            # the mode of the new descriptor is whatever is done in there

    def fdio(self, eng, st, ins, name, args, site, zero=True):
        if eng.prog.byname[name][0].tu != self.tu:
            self.check_mode(eng, st, ins, name, args[0])
        return SPolicy.fdio(self, eng, st, ins, name, args, site, zero)

    # ---- would block
    def io(self, eng, st, ins, name, args, site):
        self.sub.count('transfers')
        fd = args[0]
        self.check_mode(eng, st, ins, name, fd)
        self.settled(eng, st, ins, name)
        rt = st.ps['retry']
        if rt is not None and rt[1] == ('out' if name in OUT else 'in'):
            self.better.add(rt[2])
            st.ps['retry'] = None
        if name in FLAG or name in UNFLAGGED:
            self.sub.count('sending calls')
            if not datagram(eng.prog, self.tu):
                fl = args[FLAG[name]] if name in FLAG else 0
                if not (isinstance(fl, int) and fl & MSG_NOSIGNAL):
                    eng.violate(st, ins, 'C17-sigpipe', '%s may raise SIGPIPE' % name)
        fds0 = st.copy()
        if name in ('accept', 'accept4'):
            self.use(eng, st, ins, 'fd', fd, name)
            rs = self.newfd(eng, st, ins, name, args, site)
        elif name == 'connect':
            rs = self.syscall(eng, st, ins, name, args, site)
        else:
            rs = self.syscall(eng, st, ins, name, args, site, ok='sym')
        sf = rs[0][0]
        e = eng.load(sf, ('g', 'errno'), 32)
        code = EINPROGRESS if name == 'connect' else EAGAIN
        s3, r3 = self.failed(eng, fds0, ins, name, site, -1, code)
        k = ('C17-wait', site)
        s3.ps['pend'] = (fd, 'out' if name in OUT else 'in', name, k)
        if not (name in OUT and datagram(eng.prog, self.tu)):
            # (a datagram that cannot be sent at once may be dropped)
            self.never.setdefault(k, (ins, self.where(st, ins), '%s would block, but nothing waits' % name))
        if isinstance(e, tuple):
            lo, hi, ex = sf.facts.get(e, (1, 4095, frozenset()))
            sf.facts[e] = (lo, hi, frozenset(ex) | {code})
        return [rs[0], (s3, r3)] + rs[1:]

    def c_getsockopt(self, eng, st, ins, args, site):
        rt = st.ps['retry']
        if rt is not None and rt[1] == 'outcome' and rt[0] == args[0] and args[1] == 1 and args[2] == 4:
            self.better.add(rt[2])
            st.ps['retry'] = None
        rs = self.syscall(eng, st, ins, 'getsockopt', args, site)
        if args[1] == 1 and args[2] == 4:
            s = rs[1][0]
            o = eng.fresh(s, 'outcome', site)
            s.facts[o] = (0, 4095, frozenset())
            eng.store(s, args[3], o, 32)
            s.ps['outcome'] = o
        return rs

    def settled(self, eng, st, ins, what):
        p = st.ps['pend']
        if p is not None:
            eng.violate(st, ins, 'C17-wait', '%s would block, but %s follows instead of a wait' % (p[2], what))
            st.ps['pend'] = None

    def fdwait(self, eng, st, ins, name, args, site):
        p = st.ps['pend']
        if p is not None:
            self.sub.count('waits')
            if args[0] != p[0]:
                eng.violate(st, ins, 'C17-wait', '%s would block, but another descriptor is waited for' % p[2])
            elif (name == 'dill_fdin') != (p[1] == 'in'):
                eng.violate(st, ins, 'C17-wait', '%s would block, but %s waits for the other direction' % (p[2], name))
            st.ps['pend'] = None
            self.better.add(p[3])
        rs = SPolicy.fdwait(self, eng, st, ins, name, args, site)
        if p is not None:
            s = rs[1][0]
            k = ('C17-retry', site)
            s.ps['retry'] = (p[0], 'outcome' if p[2] == 'connect' else p[1], k)
            self.never.setdefault(k, (ins, self.where(st, ins), '%s is never tried again after the wait' % p[2]))
        return rs

    def call(self, eng, st, ins, name, args, site):
        if name in ('readv', 'writev', 'sendfile', 'splice'):
            return self.io(eng, st, ins, name, args, site)
        return SPolicy.call(self, eng, st, ins, name, args, site)

    def where(self, st, ins):
        f = st.frames[-1].func
        return f.name, '%s:%s' % (f.file.rsplit('/', 1)[-1], ins.get('ln', 0))

    def finish(self, eng, sub):
        SPolicy.finish(self, eng, sub)
        for k, (ins, (f, loc), msg) in self.never.items():
            sub.count('places that may block')
            if k not in self.better and not eng.incomplete:
                sub.violation(k[0], f, msg, loc)

    # ---- exits
    def on_ret(self, eng, st, val, ins):
        self.exits += 1
        fail = self.failing(st, val)
        if self.mode == 'tmpl' and self.kind == 'api' and not st.ps.get('queried'):
            return
        self.sub.count('exits')
        p, rt = st.ps['pend'], st.ps['retry']
        if p is not None and fail is not False:
            eng.violate(st, ins, 'C17-wait', 'fails although %s would only have blocked' % p[2])
        elif fail is not True and rt is not None and rt[1] == 'outcome':
            eng.violate(st, ins, 'C17-retry', 'reports success without asking for the outcome of the connection')
        elif fail is not True and st.ps.get('outcome') is not None:
            self.sub.count('outcomes')
            if st.const(st.ps['outcome']) != 0:
                eng.violate(st, ins, 'C17-retry', 'reports success although the connection may have failed')
        if fail is not True:
            for kind, t in sorted(st.ps['own'], key=repr):
                if kind == 'fd' and ('fd', t) not in st.ps['rel']:
                    self.sub.count('descriptors kept')
                    if t not in st.ps['nb'] and not (val == t and not is_api(self.fn)):
                        eng.violate(st, ins, 'C17-mode', 'descriptor %s stays in blocking mode' % self.nm(st, kind, t))
            if self.fn.name == 'dill_fd_unblock' and fail is False:
                self.sub.count('switch-over')
                if st.frames[0].env[('a', 0)] not in st.ps['done']:
                    eng.violate(st, ins, 'C17-mode', 'succeeds without switching to non-blocking mode')
        if self.mode == 'generic' and fail is not True:
            self.collect(eng, st, val)


for _n in ('connect', 'send', 'sendmsg', 'sendto', 'recv', 'recvmsg', 'recvfrom', 'read', 'write'):
    def _mk(n):
        def f(self, eng, st, ins, args, site):
            return self.io(eng, st, ins, n, args, site)
        return f
    setattr(Modes, 'c_' + _n, _mk(_n))


def hasbits(v, m):
    if isinstance(v, int):
        return v & m == m
    if isinstance(v, tuple) and v[0] in ('or', '|'):
        return any(hasbits(x, m) for x in v[1:])
    if isinstance(v, tuple) and v[0] in ('u', 'b', 'op') and v[1] in ('or', '|'):
        return any(hasbits(x, m) for x in v[2:])
    return False


_dg = {}


def datagram(prog, tu):
    """all descriptors of this unit come from socket(…, SOCK_DGRAM, …)"""
    k = (id(prog), tu)
    if k not in _dg:
        t = []
        for f in prog.funcs.values():
            if f.tu != tu:
                continue
            for b in f.blocks:
                for i in b:
                    if i['op'] == 'call' and i['fn'][0] == 'g':
                        n = i['fn'][1]
                        if n in ('socket', 'socketpair'):
                            a = i['args'][1]
                            t.append(a[0] == 'c' and a[1] & 15 == 2)
                        elif n in ('accept', 'accept4', 'dill_fd_accept', 'dill_fd_own', 'dup', 'fcntl'):
                            t.append(False)
        _dg[k] = bool(t) and all(t)
    return _dg[k]


def blocking(ctx, c, prog):
    """no path from a public function to a call that blocks the thread, but for the scheduler's poll"""
    poll = set()
    for f in prog.funcs.values():
        for b in f.blocks:
            for i in b:
                if i['op'] != 'call' or i['fn'][0] != 'g':
                    continue
                n = i['fn'][1]
                ctx.count('calls looked at')
                if n not in BLOCKING or prog.resolve(f.tu, n) is not None:
                    continue
                if n in ('poll', 'epoll_wait', 'ppoll', 'epoll_pwait', 'select', 'pselect', 'kevent') and tuname(f) == 'pollset':
                    poll.add(f)
                    continue
                ctx.violation('C17-blocking', f.name, 'calls %s, which may block the thread' % n, '%s:%s' % (f.file, i.get('ln', 0)), config=c)
    if not poll:
        raise AnalysisBroken('%s: the poll of the scheduler was not found' % c)
    # whoever polls is the scheduler: the function that switches to another coroutine, or its helpers
    cs = callers(prog)
    switch = {f.key for f in prog.funcs.values() if any(i['op'] == 'call' and (
        i['fn'][0] == 'asm' and 'jmp' in i['fn'][1] and 'LJMPRET' not in i['fn'][1] or i['fn'][0] == 'g' and 'longjmp' in i['fn'][1]) for b in f.blocks for i in b)}
    ok = lambda k, seen: k in switch or k not in seen and bool(cs.get(k)) and all(ok(x if isinstance(x, str) else x.key, seen | {k}) for x in cs[k])
    for f in sorted(poll, key=lambda f: f.name):
        ctx.count('polls')
        if not ok(f.key, frozenset()):
            ctx.violation('C17-blocking', f.name, 'the poll set is waited for outside of the scheduler', '%s:%s' % (f.file, f.line), config=c)


def check(ctx):
    ctx.rule('C17-mode', 'descriptors are in non-blocking mode before anything that may block, and before they are kept')
    ctx.rule('C17-wait', 'a would-block result leads to a wait for the same descriptor in the right direction')
    ctx.rule('C17-retry', 'after the wait the operation is tried again; a connection is asked for its outcome')
    ctx.rule('C17-sigpipe', 'sending calls suppress SIGPIPE')
    ctx.rule('C17-blocking', 'nothing blocks the thread but the poll of the scheduler')
    configs = ['default'] if ctx.tier == 'quick' else [c for c in ctx.configs if c != 'nothreads']
    for c in ctx.configs:
        ctx.cur = c
        blocking(ctx, c, ctx.prog(c))
    run_sockets(ctx, configs, mk=Modes)
    ctx.viol = {k: v for k, v in ctx.viol.items() if v['rule'].startswith('C17')}
    partial(ctx)
    n = len(configs)
    ctx.minimum('transfers', 10 * n)
    ctx.minimum('waits', 5 * n)
    ctx.minimum('sending calls', 3 * n)
    ctx.minimum('descriptors kept', 8 * n)
    ctx.minimum('outcomes', n)
    ctx.minimum('switch-over', 1 * n)
    ctx.minimum('polls', len(ctx.configs))
