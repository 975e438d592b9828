"""Models of libc calls and shared policy base."""
from engine import *

EPERM, ENOENT, EINTR, EAGAIN, ENOMEM, EBUSY, EINVAL, EPIPE, EMSGSIZE, ETIMEDOUT, ECANCELED, EBADF, ENOTSUP, \
    ECONNRESET, EPROTO = 1, 2, 4, 11, 12, 16, 22, 32, 90, 110, 125, 9, 95, 104, 71
ENAMES = {1: 'EPERM', 2: 'ENOENT', 4: 'EINTR', 11: 'EAGAIN', 12: 'ENOMEM', 16: 'EBUSY', 22: 'EINVAL', 32: 'EPIPE',
          90: 'EMSGSIZE', 110: 'ETIMEDOUT', 125: 'ECANCELED', 9: 'EBADF', 95: 'ENOTSUP', 104: 'ECONNRESET', 71: 'EPROTO',
          0: '0'}

# libc functions without effect on the memory this analysis tracks; the result is an unknown value
PURE = {'fprintf', 'fflush', 'printf', 'strlen', 'strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'strncasecmp', 'strchr',
        'strtok', 'isspace', 'isdigit', 'isprint', 'toupper', 'tolower', '__ctype_b_loc', 'getpid', 'syscall', 'sysconf',
        'htons', 'ntohs', 'htonl', 'ntohl', 'getauxval', 'strstr', 'strtol', 'strtoul', 'atoi', 'fputs', 'fputc', 'puts',
        'putchar', 'fwrite', 'exit', 'getenv', 'memchr', 'rand', 'random', 'strrchr', 'if_nametoindex', 'strnlen'}
# libc functions that write through their pointer arguments (index list)
OUT = {'snprintf': (0,), 'sprintf': (0,), 'strncpy': (0,), 'strcpy': (0,), 'strcat': (0,), 'inet_pton': (2,), 'inet_ntop': (2,),
       'gettimeofday': (0,), 'clock_gettime': (1,), 'getrlimit': (1,), 'getrlimit64': (1,), 'freeifaddrs': (), 'getifaddrs': (0,),
       'memmove': (0,), 'time': (0,)}


class LibPolicy(Policy):
    """libc behaviour common to all properties. Hooks: ev(kind, ...)"""
    heap_fail = True
    fork_extern = True

    def ev(self, eng, st, ins, kind, *data):
        pass

    # ---- helpers
    def fork(self, eng, st, ins, name, site, outs, w=None):
        """outs: list of (tag, ret, errno, facts) ; ret may be 'sym' with facts (lo,hi,ne)"""
        w = w or WIDTHS.get(ins.get('ty'), 64)
        res = []
        n = len(outs)
        for i, o in enumerate(outs):
            s = st if i == n - 1 else st.copy()
            tag, ret, err, iv = (tuple(o) + (None,) * 4)[:4]
            if isinstance(ret, str):
                r = eng.fresh(s, 'ret', name, tag, site, w)
                if iv:
                    s.facts[r] = iv
            else:
                r = ret
            if err is not None:
                if isinstance(err, str):
                    e = eng.fresh(s, 'err', name, tag, site)
                    s.facts[e] = (1, 4095, frozenset())
                    eng.set_errno(s, e)
                else:
                    eng.set_errno(s, err)
            res.append((s, r, tag))
        return res

    def call(self, eng, st, ins, name, args, site):
        h = getattr(self, 'c_' + name, None)
        if h is not None:
            return h(eng, st, ins, args, site)
        if name in self.prims:
            return self.prim(eng, st, ins, name, args, site)
        if name in PURE:
            return [(st, eng.fresh(st, 'ret', name, site, WIDTHS.get(ins.get('ty'), 64)))]
        if name in OUT:
            for i in OUT[name]:
                if i < len(args):
                    b = split(args[i])[0]
                    if isinstance(b, tuple):
                        eng.havoc_obj(st, b, site)
            return [(st, eng.fresh(st, 'ret', name, site, WIDTHS.get(ins.get('ty'), 64)))]
        return None

    prims = {}

    def prim(self, eng, st, ins, name, args, site):
        p = self.prims[name]
        eff = p.get('eff', 'none')
        for i, a in enumerate(args):
            if p.get('esc', True) and eff == 'all':
                eng.escape(st, a)
        res = []
        for s, r, tag in self.fork(eng, st, ins, name, site, self.prim_outs(eng, st, ins, name, args, site, p)):
            if eff == 'all':
                eng.havoc_all(s, site)
            elif eff == 'args':
                for i in p.get('wr', ()):
                    if i < len(args):
                        b, o, ix = split(args[i])
                        if isinstance(b, tuple):
                            eng.havoc_obj(s, b, site)
            if self.after(eng, s, ins, name, args, tag, r, site) is False:
                continue
            res.append((s, r))
        return res

    def prim_outs(self, eng, st, ins, name, args, site, p):
        return p['outs']

    def after(self, eng, st, ins, name, args, tag, ret, site):
        pass

    # ---- libc with dedicated treatment
    def c___errno_location(self, eng, st, ins, args, site):
        return [(st, ('g', 'errno'))]

    def c_abort(self, eng, st, ins, args, site):
        self.on_abort(eng, st, ins)
        return []

    def c_dill_getctx_(self, eng, st, ins, args, site):
        return [(st, ('g', 'dill_ctx_'))]

    def c_dill_ctx_init(self, eng, st, ins, args, site):
        return [(st, ('g', 'dill_ctx_'))]

    def c_malloc(self, eng, st, ins, args, site):
        res = []
        if self.heap_fail:
            s0 = st.copy()
            eng.set_errno(s0, ENOMEM)
            self.ev(eng, s0, ins, 'malloc-fail', args)
            res.append((s0, 0))
        p = eng.fresh(st, 'heap', site)
        st.facts[p] = (-INF, INF, frozenset((0,)))
        st.private = st.private | {p}
        self.ev(eng, st, ins, 'malloc', p, args[0])
        res.append((st, p))
        return res

    def c_calloc(self, eng, st, ins, args, site):
        r = self.c_malloc(eng, st, ins, [mkop('mul', 64, args[0], args[1])], site)
        s, p = r[-1]
        s.regions[p] = ((-INF, INF, 'set', 0),)
        return r

    def c_free(self, eng, st, ins, args, site):
        self.ev(eng, st, ins, 'free', args[0])
        return [(st, None)]

    def c_realloc(self, eng, st, ins, args, site):
        res = []
        s0 = st.copy()
        eng.set_errno(s0, ENOMEM)
        self.ev(eng, s0, ins, 'realloc-fail', args[0])
        res.append((s0, 0))
        p = eng.fresh(st, 'heap', site)
        st.facts[p] = (-INF, INF, frozenset((0,)))
        self.ev(eng, st, ins, 'realloc', args[0], p, args[1])
        st.regions[p] = ((-INF, INF, 'copy', (args[0], st.epoch)),)
        res.append((st, p))
        return res

    def c_posix_memalign(self, eng, st, ins, args, site):
        s0 = st.copy()
        r = eng.fresh(s0, 'ret', 'posix_memalign', site, 32)
        s0.facts[r] = (1, 4095, frozenset())
        self.ev(eng, s0, ins, 'malloc-fail', args)
        p = eng.fresh(st, 'heap', site)
        st.facts[p] = (-INF, INF, frozenset((0,)))
        st.private = st.private | {p}
        eng.store(st, args[0], p, 64)
        self.ev(eng, st, ins, 'malloc', p, args[2])
        self.ev(eng, st, ins, 'memalign', p, args[1], args[2])
        return [(s0, r), (st, 0)]

    def initial_value(self, eng, st, addr, bits):
        b, o, ix = split(addr)
        if b == ('g', 'dill_ctx_') and not ix and o == self.init_off(eng):
            return 1
        return None

    def init_off(self, eng):
        v = getattr(self, '_io', None)
        if v is None:
            v = self._io = eng.prog.field('dill_ctx', 'initialized')[0]
        return v

    # asm
    def is_setjmp(self, ins):
        return ins['fn'][0] == 'asm' and 'ty' in ins and 'LJMPRET' in ins['fn'][1]


def fld(prog, base, struct, *path):
    """address term of a field"""
    off, bo, w = prog.field(struct, *path)
    return padd(base, off)


def fread(eng, st, base, struct, *path):
    """current abstract value of base->path"""
    off, bo, w = eng.prog.field(struct, *path)
    if bo is None:
        return eng.load(st, padd(base, off), w)
    return mkbits(eng.load(st, padd(base, off), 8 if bo + w <= 8 else 16), bo, w)


def ctxfld(prog, *path):
    return fld(prog, ('g', 'dill_ctx_'), 'dill_ctx', *path)


def ename(v):
    if isinstance(v, int):
        return ENAMES.get(v, str(v))
    return show(v)


def show(t, d=0):
    """short human-readable form of a term"""
    if isinstance(t, int):
        return str(t)
    if t is None:
        return 'void'
    k = t[0]
    if d > 5:
        return '..'
    if k == 'arg':
        return t[2]
    if k == 'g':
        return t[1]
    if k == 'al':
        return '&' + (t[3] or 'local')
    if k == 'p':
        return '(%s%+d%s)' % (show(t[1], d + 1), t[2], ''.join('+%s*%d' % (show(x, d + 1), s) for x, s in t[3]))
    if k == 'ld':
        return '*%s' % show(t[1], d + 1)
    if k == 's':
        if t[1] == 'ret' or t[1] == 'err':
            return '%s(%s)' % (t[1], t[2])
        if t[1] == 'stale':
            return 'old:%s' % t[2]
        return t[1]
    if k == 'bits':
        return '%s[%d:%d]' % (show(t[1], d + 1), t[2], t[3])
    if k == 'cmp':
        return '%s %s %s' % (show(t[2], d + 1), t[1], show(t[3], d + 1))
    if k == 'not':
        return '!(%s)' % show(t[1], d + 1)
    if k == 'op':
        return '(%s %s %s)' % (show(t[3], d + 1), t[1], show(t[4], d + 1))
    if k in ('zx', 'sx', 'tr'):
        return '%s%d(%s)' % (k, t[1], show(t[2], d + 1))
    return k
