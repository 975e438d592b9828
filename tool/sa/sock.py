"""Ownership model of the socket layer, shared by the memory, descriptor, handle and errno properties.

Every function of a socket translation unit that other code can reach (public functions and functions stored in a
vtable) is interpreted abstractly.  A ledger follows each resource from the call that acquires it (allocation,
descriptor, handle, OpenSSL object) to the call that releases it; calls into other translation units are replaced by
their contract, which is in turn checked on the unit that implements it."""
import re
from kernel import *

KINDS = {'mem': 'memory', 'fd': 'descriptor', 'h': 'handle', 'rx': 'receive buffer', 'ssl': 'SSL object',
         'ctx': 'SSL context', 'bio': 'BIO', 'ifa': 'interface list'}
RULE = {'mem': 'mem', 'fd': 'fd', 'h': 'own', 'rx': 'mem', 'ssl': 'mem', 'ctx': 'mem', 'bio': 'mem', 'ifa': 'mem'}
INTMAX = (1 << 31) - 1
HND = ('s', 'hnd')
SH = shape('object')
# functions of libc and OpenSSL without any effect the ledger follows
QUIET = {'setsockopt', 'ERR_clear_error', 'ERR_get_error', 'ERR_error_string_n', 'SSL_set_connect_state', 'SSL_set_accept_state',
         'SSL_get_error', 'SSLv23_method', 'TLS_method', 'SSLv23_server_method', 'TLS_server_method', 'SSL_CTX_ctrl',
         'BIO_set_data', 'BIO_set_init', 'BIO_get_data', 'SSL_ctrl', 'strpbrk', 'strcspn', 'strspn', 'getsockname_'}
NUMERIC = {'strlen', 'dill_getll', 'dill_getl', 'dill_gets', 'send', 'recv', 'sendmsg', 'recvmsg', 'sendto', 'recvfrom', 'read',
           'write', 'strcspn', 'strspn', 'dill_now', 'dill_base64_encode', 'dill_base64_decode', 'dill_mrecvl', 'dill_mrecv'}
PURE = {'ntohs', 'htons', 'ntohl', 'htonl', 'strlen', 'memcmp', 'strcmp', 'strncmp', 'tolower', 'toupper', 'isdigit'}
# results these calls report without an error code of the errno kind
ERRNOFREE = PURE | {'memcpy', 'memset', 'memmove', 'strcpy', 'strncpy', 'strchr', 'strspn', 'strcspn', 'strcasecmp'}
# documented: 0 or -1 (methods are checked against this)
ZEROFAIL = {'dill_bsend', 'dill_brecv', 'dill_bsendl', 'dill_brecvl', 'dill_msend', 'dill_msendl'}
SSLIO = {'SSL_connect', 'SSL_accept', 'SSL_read', 'SSL_write', 'SSL_shutdown'}
SSLCFG = {'SSL_CTX_use_certificate_file', 'SSL_CTX_use_PrivateKey_file'}
# a failure of these may be ignored: best effort, or answered by an assertion
IGNORABLE = {'setsockopt', 'dill_hquery', 'close', 'fcntl', 'dill_fdclean'}
CLEANUP = {'dill_hclose', 'close', 'dill_fd_close', 'dill_fd_termrxbuf', 'dill_tcp_close', 'dill_ipc_close', 'dill_fdclean'}
NN = (-INF, INF, frozenset((0,)))


def is_api(f):
    return not f.internal and not f.hidden


def slot_structs(prog):
    return {s for (s, o) in slots(prog)}


def slot_keys(prog):
    """function key -> set of (vtable struct, offset)"""
    r = {}
    for (s, o), fs in slots(prog).items():
        for k in fs:
            r.setdefault(k, set()).add((s, o))
    return r


def bases(t, acc):
    if isinstance(t, tuple):
        if t and t[0] == 'al':
            acc.append(t)
        for x in t:
            if isinstance(x, tuple):
                bases(x, acc)


def subterms(t, acc):
    if isinstance(t, tuple):
        acc.add(t)
        for x in t:
            if isinstance(x, tuple):
                subterms(x, acc)


class SPolicy(KPolicy):
    dead_args = True
    max_depth = 14
    max_steps = 600000
    max_time = 120
    heap_fail = True

    keepzero = False

    def __init__(self, mode='generic', tmpl=None, entry_kind='api'):
        self.mode = mode
        self.tmpl = tmpl
        self.kind = entry_kind
        self.templates = []
        self.exits = 0
        self.obl = 0

    # ---------------------------------------------------------------- start
    def start(self, eng, st, fn):
        self.prog = eng.prog
        self.fn = fn
        self.tu = fn.tu
        self.slotk = slot_keys(eng.prog)
        st.ps.setdefault('own', frozenset())
        st.ps.setdefault('rel', frozenset())
        st.ps.setdefault('bind', {})
        st.ps.setdefault('fails', None)
        st.ps.setdefault('last', None)
        st.ps.setdefault('raw', frozenset())
        st.ps.setdefault('styp', {})
        m = re.search(r'_attach', fn.name)
        self.attach = bool(m) and is_api(fn)
        if self.attach and self.mode == 'generic':
            a0 = st.frames[0].env[('a', 0)]
            self.acquire(st, 'h', a0)
        eng.set_errno(st, ('s', 'errno0'))
        if self.mode == 'tmpl':
            self.load_template(eng, st)

    def load_template(self, eng, st):
        t = self.tmpl
        for (off, v, b) in t['cells']:
            st.mem[(SH, off, ())] = (v, b)
        own = set()
        for k, v in t['own']:
            own.add((k, v))
        st.ps['own'] = frozenset(own)
        st.ps['bind'] = {HND: SH}
        st.ps['styp'] = {SH: t['struct']}
        st.facts[HND] = (0, INTMAX, frozenset())
        for k, v in own:
            if k in ('h', 'fd'):
                st.facts[v] = (0, INTMAX, frozenset())
            else:
                st.facts[v] = NN
        fr = st.frames[0]
        if self.kind == 'api':
            fr.env[('a', 0)] = HND
        elif self.kind == 'close':
            fr.env[('a', 0)] = SH
            # the handle table has already let go of the handle
            st.ps['own'] = st.ps['own'] - {('h', HND)}
            st.ps['rel'] = st.ps['rel'] | {('h', HND)}
        else:
            fr.env[('a', 0)] = padd(SH, self.kind)

    # ---------------------------------------------------------------- abstraction
    def dull(self, st, v, res, w):
        """a number the rules never ask about"""
        if not isinstance(v, tuple) or v in res:
            return False
        k = v[0]
        if k == 's':
            if v[1] in ('errno0',):
                return False
            if v[1] == 'ret' and isinstance(v[-1], int):
                return v[-1] < 64 or v[2] in NUMERIC
            if v[1] == 'phi':
                return v[5] < 64
            return v[1] in ('hv', 'havoc', 'reg') or (w < 64 and v[1] not in ('abs', 'res', 'hnd', 'err', 'junk', 'errno0', 'bits'))
        if k in ('bits', 'ld'):
            b = split(v[1][1] if k == 'bits' and v[1][0] == 'ld' else v[1])[0]
            return isinstance(b, tuple) and (b[0] in ('al', 'ld') or b[:2] in (('s', 'abs'), ('s', 'stale'))) and (w < 64 or k == 'bits')
        return k in ('op', 'zx', 'sx', 'tr', 'sel')

    def abstract(self, eng, st):
        res = {t for _, t in st.ps['own']} | {t for _, t in st.ps['rel']} | set(st.ps['bind'])
        for i, fr in enumerate(st.frames):
            for k in list(fr.env):
                v = st.frames[i].env.get(k)
                if isinstance(k, tuple):
                    if i == 0:
                        continue
                    ty = fr.func.args[k[1]]['ty']
                else:
                    ty = fr.func.insmap[k].get('ty')
                w = WIDTHS.get(ty)
                if w is None or ty == 'ptr' or w == 1:
                    continue
                own = ('s', 'abs', i, fr.func.key, k)
                if v == own or v in res:
                    continue
                if isinstance(v, int):
                    if w != 64 or i == 0 and isinstance(k, tuple) or v < 0 or v == 0 and self.keepzero:
                        continue
                elif not (self.dull(st, v, res, w) or v[0] == 's' and v[1] in ('phi', 'ret', 'abs', 'stale') or
                          w == 64 and v[0] == 'ld' and self.dull(st, v, res, 8)):
                    continue
                lo, hi, ne = st.interval(v)
                s = eng.fresh(st, *own[1:])
                st.frames[i].env[k] = s
                if lo >= 0:
                    st.facts[s] = (0, INF, frozenset((0,)) if 0 in ne or lo > 0 else frozenset())
                elif hi < 0:
                    st.facts[s] = (-INF, -1, frozenset())
        for i, fr in enumerate(st.frames):
            for k in list(fr.env):
                v = st.frames[i].env.get(k)
                if self.data(st, v, res) and v[:2] != ('s', 'abs'):
                    ok = st.interval(v)
                    s = eng.fresh(st, 'abs', i, fr.func.key, k)
                    st.frames[i].env[k] = s
                    if 0 in ok[2]:
                        st.facts[s] = NN
        for k in list(st.mem):
            if k not in st.mem:
                continue
            v, w = st.mem[k]
            if v in res or not isinstance(k[0], tuple):
                continue
            if self.alien(st, k[0]) or (k[2] and self.dull(st, v, res, w)):
                del st.mem[k]
                continue
            if v[:2] in (('s', 'abs'), ('s', 'err'), ('s', 'junk'), ('s', 'errno0')) if isinstance(v, tuple) else False:
                continue
            if self.dull(st, v, res, w) or self.data(st, v, res) or (isinstance(v, int) and (
                    w < 32 and k[0][:2] in (('s', 'obj'), ('s', 'shape')) or w == 64 and v > 0 and k[0][0] == 'al')):
                lo, hi, ne = st.interval(v)
                s = eng.fresh(st, 'abs', 'm', k)
                if k in st.mem:
                    st.mem[k] = (s, w)
                    if lo >= 0 or 0 in ne:
                        st.facts[s] = (0 if lo >= 0 else -INF, INF, frozenset((0,)) if 0 in ne or lo > 0 else frozenset())
        hold = {}
        for k, (v, w) in st.mem.items():
            if isinstance(k[0], tuple) and k[0][0] == 'al':
                hold[k[0]] = hold.get(k[0], False) or v in res or (isinstance(v, tuple) and v[0] == 'g')
        for b in set(hold) | {b for b in st.regions if isinstance(b, tuple) and b[0] == 'al'}:
            if not hold.get(b) and self.plain(eng, st, b):
                for k in [k for k in st.mem if k[0] == b]:
                    del st.mem[k]
                st.regions[b] = ((-INF, INF, 'unk', eng.fresh(st, 'hv', 'c', b)),)
        for b in list(st.regions):
            r = st.regions.get(b)
            if r and any(x[2] == 'copy' and (self.data(st, x[3][0], res) or depth(x[3]) > 5) for x in r):
                h = eng.fresh(st, 'hv', 'c', b)
                st.regions[b] = tuple((x[0], x[1], 'unk', h) if x[2] == 'copy' and (self.data(st, x[3][0], res) or depth(x[3]) > 5) else x
                                      for x in st.regions.get(b, r))
        # local variables nothing refers to any more
        locs = {k[0] for k in st.mem if isinstance(k[0], tuple) and k[0][0] == 'al'} | {b for b in st.regions if isinstance(b, tuple) and b[0] == 'al'}
        if locs:
            seen, work = set(), []
            frs, _ = eng.canon(st)
            for fr in frs:
                for _, v in fr[4]:
                    bases(v, work)
            inner = {}
            for k, (v, w) in st.mem.items():
                if k[0] in locs:
                    inner.setdefault(k[0], []).append(v)
                else:
                    bases(v, work)
            for b, r in st.regions.items():
                if b in locs:
                    inner.setdefault(b, []).append(r)
                else:
                    bases(r, work)
            for v in st.ps.values():
                bases(tuple(v.items()) if isinstance(v, dict) else tuple(v) if isinstance(v, frozenset) else v, work)
            while work:
                b = work.pop()
                if b not in seen:
                    seen.add(b)
                    for v in inner.get(b, ()):
                        bases(v, work)
            gone = locs - seen
            if gone:
                st.mem = {k: v for k, v in st.mem.items() if k[0] not in gone}
                st.regions = {k: v for k, v in st.regions.items() if k not in gone}
                st.escaped = frozenset(x for x in st.escaped if x not in gone)
        # released things nothing refers to any more
        if st.ps['rel']:
            ref = set()
            frs, _ = eng.canon(st)
            for fr in frs:
                for _, v in fr[4]:
                    subterms(v, ref)
            for k, (v, w) in st.mem.items():
                subterms(k[0], ref)
                subterms(v, ref)
            st.ps['rel'] = frozenset(x for x in st.ps['rel'] if x[1] in ref or x[1] in (HND, SH) or
                                     isinstance(x[1], tuple) and (x[1][:2] == ('s', 'res') or x[1][0] in ('arg', 'p')))
        for d in (st.facts, st.truth):
            for k in list(d):
                if k not in res and self.dullfact(k):
                    del d[k]
        la = set()
        for fr in eng.canon(st)[0]:
            for _, v in fr[4]:
                subterms(v, la)
        for k, (v, w) in st.mem.items():
            subterms(k, la)
            subterms(v, la)
        for k in list(st.facts):
            if k[0] == 'arg' and k not in la and k not in res and k not in (st.ps['raw'] | set(st.ps['bind'].values())):
                del st.facts[k]
            elif k[:2] == ('s', 'abs'):
                lo, hi, ne = st.facts[k]
                ty = None
                if k[2] != 'm' and k[2] < len(st.frames) and st.frames[k[2]].func.key == k[3]:
                    f = st.frames[k[2]].func
                    ty = f.args[k[4][1]]['ty'] if isinstance(k[4], tuple) else f.insmap[k[4]].get('ty')
                if k[2] == 'm' and k[3][0][0] == 'al' or lo < 0 <= hi and 0 not in ne:
                    del st.facts[k]
                elif ty == 'ptr':
                    if lo > 0 or hi < 0 or 0 in ne:
                        st.facts[k] = NN
                    else:
                        del st.facts[k]
                elif hi < 0:
                    st.facts[k] = (-INF, -1, frozenset())
                elif lo >= 0:
                    st.facts[k] = (0, INF, frozenset())
                else:
                    del st.facts[k]
            elif k[0] == 'p' and isinstance(k[1], tuple) and (k[1][0] in ('g', 'al') or k[1][:2] == ('s', 'heap')) and not k[3]:
                del st.facts[k]
        for k in list(st.truth):
            acc = set()
            syms(k, acc)
            if any(x[1] == 'abs' for x in acc) or k[0] == 'cmp' and any(isinstance(x, tuple) and (split(x)[0][0] if isinstance(split(x)[0], tuple) else '') in ('g', 'al') for x in k[2:4]):
                del st.truth[k]
        self.settle(st)

    def plain(self, eng, st, b):
        """a local aggregate: buffers, lists of buffers, headers of system calls"""
        for fr in st.frames:
            if fr.fid == b[1]:
                ty = fr.func.insmap[b[2]].get('aty', '')
                return ty not in ('i32', 'ptr', 'i1') and not ty.startswith('[2 x i32')
        return True

    def data(self, st, v, res):
        """a pointer into memory that carries data only"""
        if not isinstance(v, tuple) or v in res or v[0] not in ('p', 'ld', 's'):
            return False
        b = split(v)[0]
        if not isinstance(b, tuple) or b in res:
            return False
        if b[0] == 'ld':
            return depth(b) > 4
        if b[0] == 's':
            return b[1] in ('phi', 'mphi', 'stale', 'hv')
        return False

    def alien(self, st, b):
        """memory of the caller that carries data only: buffers and list elements"""
        if b[0] in ('al', 'g') or b == SH or b in st.ps['styp'] or ('mem', b) in st.ps['own']:
            return False
        if b[0] == 's':
            return b[1] not in ('obj', 'heap', 'shape', 'hnd')
        if b[0] == 'arg':
            return not self.fn.hidden and b not in st.ps['bind'].values() and b not in st.ps['raw']
        return True

    def settle(self, st):
        """the first failure the code has not reacted to by looking at which error it was"""
        f = st.ps['fails']
        if f is not None and isinstance(f[1], tuple) and st.const(f[1]) is not None:
            st.ps['fails'] = None
            st.ps['last'] = None
        elif f is not None and isinstance(f[1], tuple) and f[1][1] == 'stale':
            st.ps['fails'] = (f[0], None)

    def note_failure(self, st, name, err):
        self.settle(st)
        if st.ps['fails'] is None and name not in IGNORABLE:
            st.ps['fails'] = (name, err)
        if name not in IGNORABLE:
            st.ps['last'] = name

    def dullfact(self, t):
        if not isinstance(t, tuple) or not t:
            return False
        k = t[0]
        if k == 'op':
            return True
        if k == 's':
            return t[1] in ('phi', 'mphi', 'hv')
        if k == 'ld':
            b = split(t[1])[0]
            return isinstance(b, tuple) and (b[0] == 'al' or b[:2] == ('s', 'abs')) or depth(t) > 5 or self.dullfact(b)
        if k in ('al', 'g', 'arg'):
            return False
        return any(self.dullfact(x) for x in t[1:] if isinstance(x, tuple))

    # ---------------------------------------------------------------- ledger
    def acquire(self, st, kind, t):
        st.ps['own'] = st.ps['own'] | {(kind, t)}
        st.ps['rel'] = st.ps['rel'] - {(kind, t)}

    def release(self, eng, st, ins, kind, t, how):
        self.obl += 1
        if isinstance(t, int):
            if t < 0 or (t == 0 and kind not in ('h', 'fd')):
                return
        if (kind, t) in st.ps['rel']:
            eng.violate(st, ins, RULE[kind] + '-double', '%s %s released twice (by %s)' % (KINDS[kind], self.nm(st, kind, t), how))
            return
        if (kind, t) in st.ps['own']:
            st.ps['own'] = st.ps['own'] - {(kind, t)}
        elif kind == 'mem' and isinstance(t, tuple) and not (t[0] == 'ld' or (t[0] == 's' and t[1] == 'obj')):
            if t == SH or t[0] in ('arg', 'al', 'g') or t[0] == 'p':
                eng.violate(st, ins, 'mem-foreign', 'frees memory that was not allocated by the library: %s' % self.nm(st, kind, t))
        st.ps['rel'] = st.ps['rel'] | {(kind, t)}

    def nm(self, st, kind, t):
        if t == SH or t == HND:
            return 'of the object'
        if isinstance(t, tuple) and t[0] == 's' and t[1] == 'res':
            return 'held by the object'
        if isinstance(t, tuple) and t[0] == 's' and t[1] == 'ret':
            return 'from ' + str(t[2])
        if isinstance(t, tuple) and t[0] == 's' and t[1] == 'heap':
            return 'allocated in ' + t[2][1].split('@')[0]
        return show(t)

    def use(self, eng, st, ins, kind, t, how):
        if (kind, t) in st.ps['rel']:
            eng.violate(st, ins, RULE[kind] + '-stale', '%s %s used by %s after it was released' % (KINDS[kind], self.nm(st, kind, t), how))

    # ---------------------------------------------------------------- memory accesses
    def deref(self, eng, st, addr, ins):
        b = split(addr)[0]
        if ('mem', b) in st.ps['rel']:
            eng.violate(st, ins, 'mem-uaf', 'uses the memory %s after it was freed' % self.nm(st, 'mem', b))

    def on_load(self, eng, st, addr, val, bits, ins):
        self.deref(eng, st, addr, ins)

    def on_store(self, eng, st, addr, val, bits, ins):
        self.deref(eng, st, addr, ins)
        if isinstance(val, tuple) and val[0] == 'g' and val[1] in self.slotk:
            # which object does this vtable belong to?
            f = st.frames[-1].func
            x = ins['p']
            off, sty = 0, None
            while x[0] == 'v':
                g = f.insmap.get(x[1])
                if g is None or g['op'] != 'getelementptr' or g.get('off') is None or g.get('var'):
                    break
                off += g['off']
                sty = g['sty'].replace('%struct.', '').strip()
                x = g['p']
            if sty:
                d = dict(st.ps['styp'])
                base = padd(addr, -off)
                if base not in d or eng.prog.structs.get(sty, {}).get('size', 0) >= eng.prog.structs.get(d[base], {}).get('size', 0):
                    d[base] = sty
                st.ps['styp'] = d

    def keep_on_havoc(self, eng, st, key):
        b = key[0]
        if b == ('g', 'errno'):
            return True
        if b == SH or ('mem', b) in st.ps['own']:
            return True
        v = st.mem[key][0]
        if isinstance(v, tuple):
            if v[0] == 'g' and v[1] in self.slotk:
                return True
            if any(t == v for _, t in st.ps['own']):
                return True
        # storage of the caller in which an object is being set up
        if isinstance(b, tuple) and b[0] == 'arg':
            for k, (v, w) in st.mem.items():
                if k[0] == b and isinstance(v, tuple) and v[0] == 'g' and v[1] in self.slotk:
                    return True
        return False

    # ---------------------------------------------------------------- calls
    def okret(self, eng, st, name, tag, site, w, iv=None):
        r = eng.fresh(st, 'ret', name, tag, site, w)
        if iv:
            st.facts[r] = iv
        return r

    def junk(self, eng, st, name, site):
        """errno after a call that succeeded (or cannot fail) is unspecified"""
        eng.set_errno(st, ('s', 'junk'))

    def failed(self, eng, st, ins, name, site, ret, err=None):
        if err is None:
            err = eng.fresh(st, 'err', name)
            st.facts[err] = (1, 4095, frozenset())
        eng.set_errno(st, err)
        self.note_failure(st, name, err)
        st.trace = (st.trace, (st.frames[-1].func.name, ins.get('ln', 0), name + ' fails'))
        return (st, ret)

    def passbufs(self, eng, st, args, site):
        """local buffers reachable from the arguments may have been written"""
        work = [split(a)[0] for a in args if isinstance(a, tuple)]
        seen = set()
        while work:
            b = work.pop()
            if not isinstance(b, tuple) or b in seen:
                continue
            seen.add(b)
            ptrs = [v for k, (v, w) in st.mem.items() if k[0] == b and w == 64 and isinstance(v, tuple) and is_ptrish(v) and
                    split(v)[0][0] in ('al', 'arg', 'g', 's')]
            if b[0] == 'al':
                if ptrs:
                    work += [split(v)[0] for v in ptrs]
                else:
                    eng.havoc_obj(st, b, 'x')

    # ---- launching coroutines
    def setjmp(self, eng, st, ins, site):
        s2 = st.copy()
        s2.ps['resumed'] = True
        if 'go' in st.ps:
            st.ps['child'] = True
        return [(s2, 1), (st, 0)]

    def c_dill_prologue(self, eng, st, ins, args, site):
        st.ps['go'] = True
        s2 = st.copy()
        self.junk(eng, st, 'dill_prologue', site)
        for s in (st, s2):
            eng.havoc_all(s, 'x')
        if args[3] == -1:
            r = self.okret(eng, st, 'dill_prologue', 'ok', site, 32, (0, INTMAX, frozenset()))
            self.acquire(st, 'h', r)
        else:
            self.use(eng, st, ins, 'h', args[3], 'dill_prologue')
            r = 0
        return [self.failed(eng, s2, ins, 'dill_prologue', site, -1), (st, r)]

    def c_dill_epilogue(self, eng, st, ins, args, site):
        return []

    def c_dill_chsend(self, eng, st, ins, args, site):
        return self.chanop(eng, st, ins, args, site, 'dill_chsend')

    def c_dill_chrecv(self, eng, st, ins, args, site):
        return self.chanop(eng, st, ins, args, site, 'dill_chrecv')

    def chanop(self, eng, st, ins, args, site, name):
        """a handle travelling through a channel: the sender gives it up, the receiver owns it"""
        self.use(eng, st, ins, 'h', args[0], name)
        s2 = st.copy()
        for s in (st, s2):
            eng.havoc_all(s, 'x')
        if args[2] == 4:
            if name == 'dill_chsend':
                v = eng.load(st, args[1], 32)
                if ('h', v) in st.ps['own'] or ('h', v) in st.ps['rel']:
                    self.release(eng, st, ins, 'h', v, name)
                    self.use(eng, s2, ins, 'h', v, name)
            else:
                r = eng.fresh(st, 'ret', name, site, 32)
                st.facts[r] = (0, INTMAX, frozenset())
                eng.store(st, args[1], r, 32)
                self.acquire(st, 'h', r)
        elif name == 'dill_chrecv':
            self.passbufs(eng, st, [args[1]], site)
        self.junk(eng, st, name, site)
        return [self.failed(eng, s2, ins, name, site, -1), (st, 0)]

    def call(self, eng, st, ins, name, args, site):
        if name == '<asm>':
            return KPolicy.call(self, eng, st, ins, name, args, site)
        if st.ps.get('child') and name != 'dill_epilogue':
            # the body of a coroutine runs on another stack: it is analysed on its own
            return [(st, eng.fresh(st, 'ret', name, site) if 'id' in ins else None)]
        h = getattr(self, 'c_' + name, None)
        if h is not None:
            return h(eng, st, ins, args, site)
        fnref = ins['fn']
        target = eng.prog.resolve(st.frames[-1].func.tu, fnref[1]) if fnref[0] == 'g' else None
        if target is not None and target.tu == self.tu:
            if self.split_out(eng.prog, target):
                return self.p_generic(eng, st, ins, name, args, site, WIDTHS.get(ins.get('ty'), 64), target)
            return None                                   # inlined
        if target is not None and target.hidden and not self.modelled(name):
            return None                                   # private helper of the library: look inside
        r = self.contract(eng, st, ins, name, args, site, target)
        if r is not None:
            return r
        r = LibPolicy.call(self, eng, st, ins, name, args, site)
        return r

    def split_out(self, prog, f):
        """input/output loops of the descriptor layer: analysed on their own, by contract at their callers"""
        return f.internal and tuname(f) == 'fd' and f.ret == 'i32' and f.blocks and self.blocking(prog, f) and self.zero_or_fail(prog, f)

    def modelled(self, name):
        return name.startswith('dill_fd_') or name in ('dill_ctx_fd_init',) or name.startswith('dill_iol') or \
            name.startswith('dill_sha1') or name.startswith('dill_base64') or name == 'dill_random' or \
            re.match(r'dill_(get|put)', name)

    def contract(self, eng, st, ins, name, args, site, target):
        w = WIDTHS.get(ins.get('ty'), 64)
        # -- consuming and producing handles
        if re.search(r'_attach(_client|_server)?(_mem)?$', name):
            return self.p_attach(eng, st, ins, name, args, site, w)
        if re.search(r'_detach$', name):
            self.use(eng, st, ins, 'h', args[0], name)
            s2 = st.copy()
            self.release(eng, s2, ins, 'h', args[0], name)
            self.release(eng, st, ins, 'h', args[0], name)
            r = self.okret(eng, st, name, 'ok', site, w, (0, INTMAX, frozenset()))
            self.acquire(st, 'h', r)
            self.junk(eng, st, name, site)
            eng.havoc_all(st, 'x')
            eng.havoc_all(s2, 'x')
            return [self.failed(eng, s2, ins, name, site, -1), (st, r)]
        if re.match(r'dill_(tcp|ipc)_close$', name):
            self.use(eng, st, ins, 'h', args[0], name)
            self.release(eng, st, ins, 'h', args[0], name)
            s2 = st.copy()
            self.junk(eng, st, name, site)
            return [self.failed(eng, s2, ins, name, site, -1), (st, 0)]
        if re.search(r'^dill_chmake(_mem)?$', name):
            s2 = st.copy()
            p = args[-1]
            for i in (0, 1):
                r = eng.fresh(st, 'ret', name, i, site, 32)
                st.facts[r] = (0, INTMAX, frozenset())
                self.acquire(st, 'h', r)
                if name.endswith('_mem'):
                    d = dict(st.ps.get('stor', {}))
                    d[r] = args[0]
                    st.ps['stor'] = d
                eng.store(st, padd(p, 4 * i), r, 32)
            self.junk(eng, st, name, site)
            return [self.failed(eng, s2, ins, name, site, -1), (st, 0)]
        if target is not None and is_api(target) and \
                re.search(r'_(connect|listen|accept|open|fromfd|bundle)(_mem)?$', name):
            s2 = st.copy()
            for a in args:
                eng.escape(st, a)
            eng.havoc_all(st, 'x')
            eng.havoc_all(s2, 'x')
            r = self.okret(eng, st, name, 'ok', site, w, (0, INTMAX, frozenset()))
            self.acquire(st, 'h', r)
            if name == 'dill_bundle_mem':
                d = dict(st.ps.get('stor', {}))
                d[r] = args[0]
                st.ps['stor'] = d
            self.junk(eng, st, name, site)
            return [self.failed(eng, s2, ins, name, site, -1), (st, r)]
        if name in SSLIO:
            r = self.okret(eng, st, name, '', site, w)
            if name in ('SSL_connect', 'SSL_accept', 'SSL_shutdown'):
                st.facts[r] = (-INTMAX - 1, 1, frozenset())
            self.passbufs(eng, st, args, site)
            eng.set_errno(st, eng.fresh(st, 'err', name))
            return [(st, r)]
        if name in SSLCFG:
            s2 = st.copy()
            r2 = self.okret(eng, s2, name, 'fail', site, w, (-INF, 0, frozenset()))
            self.junk(eng, s2, name, site)
            self.note_failure(s2, name, ('s', 'sslfail'))
            self.junk(eng, st, name, site)
            return [(s2, r2), (st, 1)]
        if name in QUIET:
            return [(st, eng.fresh(st, 'ret', name, site, w) if 'id' in ins else None)]
        if target is not None:
            return self.p_generic(eng, st, ins, name, args, site, w, target)
        return None

    def p_attach(self, eng, st, ins, name, args, site, w):
        h = args[0]
        self.use(eng, st, ins, 'h', h, name)
        s2 = st.copy()
        for s in (s2, st):
            self.release(eng, s, ins, 'h', h, name)
        for a in args:
            eng.escape(st, a)
        r = self.okret(eng, st, name, 'ok', site, w, (0, INTMAX, frozenset()))
        self.acquire(st, 'h', r)
        if name.endswith('_mem'):
            ptrs = [a for a, o in zip(args, ins['args']) if isinstance(a, tuple) and self.isptr(st, o, a)]
            if ptrs:
                d = dict(st.ps.get('stor', {}))
                d[r] = ptrs[-1]
                st.ps['stor'] = d
        self.junk(eng, st, name, site)
        eng.havoc_all(st, 'x')
        eng.havoc_all(s2, 'x')
        return [self.failed(eng, s2, ins, name, site, -1), (st, r)]

    def isptr(self, st, o, a):
        if o[0] in ('g', 'p', 'z'):
            return True
        b = split(a)[0]
        return isinstance(b, tuple) and (b[0] in ('al', 'g') or (b[0] == 'arg' and b[3] == 64 and b[2] != 'deadline') or b == SH or
                                         (b[0] == 's' and b[1] in ('heap', 'obj')))

    def p_generic(self, eng, st, ins, name, args, site, w, target):
        """a function of another part of the library, by its contract: an int result is -1 with errno set or not negative,
        a pointer is NULL with errno set or valid; it consumes nothing and may suspend the caller"""
        for k in ('h', 'fd'):
            for a in args:
                if isinstance(a, tuple):
                    self.use(eng, st, ins, k, a, name)
        ret = target.ret
        self.passbufs(eng, st, args, site)
        if self.errnoless(eng.prog, target):
            # a helper that does not use errno at all: its failure is not an error by itself
            if ret == 'void' or 'id' not in ins:
                return [(st, None)]
            if ret == 'i32' and self.zero_or_fail(eng.prog, target):
                s2 = st.copy()
                return [(s2, -1), (st, 0)] if self.canfail(eng.prog, target) else [(st, 0)]
            return [(st, eng.fresh(st, 'ret', name, site, w))]
        if self.blocking(eng.prog, target):
            eng.havoc_all(st, 'x')
        if ret == 'void' or 'id' not in ins and ret not in ('i32', 'i64', 'ptr'):
            return [(st, None)]
        if not self.canfail(eng.prog, target):
            return [(st, eng.fresh(st, 'ret', name, site, w))]
        s2 = st.copy()
        if ret == 'ptr':
            r = self.okret(eng, st, name, 'ok', site, w, NN)
            self.junk(eng, st, name, site)
            return [self.failed(eng, s2, ins, name, site, 0), (st, r)]
        zero = self.zero_or_fail(eng.prog, target)
        r = 0 if zero else self.okret(eng, st, name, 'ok', site, w, (0, INF, frozenset()))
        self.junk(eng, st, name, site)
        return [self.failed(eng, s2, ins, name, site, -1), (st, r)]

    def blocking(self, prog, f):
        c = getattr(prog, '_blk', None)
        if c is None:
            c = prog._blk = {}
            for k, g in prog.funcs.items():
                if g.name in ('dill_wait', 'dill_fdin', 'dill_fdout', 'dill_hclose'):
                    c[k] = True
                elif any(i['op'] == 'call' and i['fn'][0] == 'v' for b in g.blocks for i in b):
                    c[k] = True
            ch = True
            while ch:
                ch = False
                for k, g in prog.funcs.items():
                    if k not in c and any(x.key in c for x in callees(prog, g)):
                        c[k] = ch = True
        return f.key in c

    def retconsts(self, prog, f):
        """constants the function (or what it returns the result of) may return"""
        c = getattr(prog, '_rc', None)
        if c is None:
            c = prog._rc = {}
        if f.key in c:
            return c[f.key]
        c[f.key] = {'?'}
        out = set()

        def val(o, seen):
            if o[0] == 'c':
                out.add(o[1])
            elif o[0] == 'z':
                out.add(0)
            elif o[0] == 'v' and o[1] not in seen:
                seen.add(o[1])
                i = f.insmap.get(o[1])
                if i is None:
                    out.add('?')
                elif i['op'] == 'phi':
                    for _, x in i['in']:
                        val(x, seen)
                elif i['op'] in ('sext', 'zext', 'trunc'):
                    val(i['a'], seen)
                elif i['op'] == 'call' and i['fn'][0] == 'g' and prog.resolve(f.tu, i['fn'][1]):
                    out.update(self.retconsts(prog, prog.resolve(f.tu, i['fn'][1])))
                else:
                    out.add('?')
                    if i['op'] == 'call' and not (i['fn'][0] == 'g' and i['fn'][1] in PURE):
                        out.add(-1)
            else:
                out.add('?')
        for b in f.blocks:
            for i in b:
                if i['op'] == 'ret' and 'val' in i:
                    val(i['val'], set())
        c[f.key] = out
        return out

    def canfail(self, prog, f):
        rc = self.retconsts(prog, f)
        if f.ret == 'ptr':
            return 0 in rc
        return -1 in rc

    def errnoless(self, prog, f):
        """hidden function that neither sets errno nor calls anything that might"""
        c = getattr(prog, '_eless', None)
        if c is None:
            c = prog._eless = {}
            for k, g in prog.funcs.items():
                for b in g.blocks:
                    for i in b:
                        if i['op'] != 'call':
                            continue
                        n = i['fn'][1] if i['fn'][0] == 'g' else None
                        if n is None or not (n.startswith('llvm.') or n in ERRNOFREE or prog.resolve(g.tu, n)):
                            c[k] = False
            ch = True
            while ch:
                ch = False
                for k, g in prog.funcs.items():
                    if k not in c and any(c.get(x.key) is False for x in callees(prog, g)):
                        c[k] = False
                        ch = True
        return not is_api(f) and c.get(f.key, True)

    def zero_or_fail(self, prog, f):
        if f.name in ZEROFAIL:
            return True
        return self.retconsts(prog, f) <= {0, -1}

    # ---- handles
    def c_dill_hmake(self, eng, st, ins, args, site):
        s2 = st.copy()
        s2.ps['raw'] = s2.ps['raw'] | {args[0]}
        r = self.okret(eng, st, 'dill_hmake', 'ok', site, 32, (0, INTMAX, frozenset()))
        self.acquire(st, 'h', r)
        d = dict(st.ps['bind'])
        d[r] = args[0]
        st.ps['bind'] = d
        self.junk(eng, st, 'dill_hmake', site)
        return [self.failed(eng, s2, ins, 'dill_hmake', site, -1), (st, r)]

    def c_dill_hown(self, eng, st, ins, args, site):
        h = args[0]
        self.use(eng, st, ins, 'h', h, 'dill_hown')
        s2 = st.copy()
        self.release(eng, s2, ins, 'h', h, 'dill_hown')
        if self.mode == 'tmpl' and h == HND:
            # a failing hown closes the object
            gone = {x for x in s2.ps['own'] if split(x[1])[0] == SH or isinstance(x[1], tuple) and x[1][:2] == ('s', 'res')}
            s2.ps['own'] = s2.ps['own'] - gone
            s2.ps['rel'] = s2.ps['rel'] | gone
        self.release(eng, st, ins, 'h', h, 'dill_hown')
        r = self.okret(eng, st, 'dill_hown', 'ok', site, 32, (0, INTMAX, frozenset()))
        self.acquire(st, 'h', r)
        if h in st.ps['bind']:
            d = dict(st.ps['bind'])
            d[r] = d[h]
            st.ps['bind'] = d
        self.junk(eng, st, 'dill_hown', site)
        return [self.failed(eng, s2, ins, 'dill_hown', site, -1), (st, r)]

    def c_dill_hclose(self, eng, st, ins, args, site):
        h = args[0]
        if isinstance(h, int) and h < 0:
            return [self.failed(eng, st, ins, 'dill_hclose', site, -1, EBADF)]
        known = ('h', h) in st.ps['own'] or h == HND
        self.release(eng, st, ins, 'h', h, 'dill_hclose')
        self.junk(eng, st, 'dill_hclose', site)
        a = st.ps['bind'].get(h)
        if a is not None:
            off = eng.prog.field('dill_hvfs', 'close')[0]
            t = eng.load(st, padd(a, off), 64)
            if isinstance(t, tuple) and t[0] == 'g' and t[1] in eng.prog.funcs:
                return ('enter', eng.prog.funcs[t[1]], [a])
            eng.violate(st, ins, 'own-close', 'a handle is closed whose object has no close function')
        eng.havoc_all(st, 'x')
        if known:
            return [(st, 0)]
        s2 = st.copy()
        return [self.failed(eng, s2, ins, 'dill_hclose', site, -1), (st, 0)]

    def c_dill_hquery(self, eng, st, ins, args, site):
        h, ty = args[0], args[1]
        self.use(eng, st, ins, 'h', h, 'dill_hquery')
        if h == HND:
            st.ps['queried'] = True
        a = st.ps['bind'].get(h)
        if a is not None:
            off = eng.prog.field('dill_hvfs', 'query')[0]
            t = eng.load(st, padd(a, off), 64)
            if isinstance(t, tuple) and t[0] == 'g' and t[1] in eng.prog.funcs:
                return ('enter', eng.prog.funcs[t[1]], [a, ty])
        known = ('hq', h, ty)
        if known in st.ps:
            return [(st, st.ps[known])]
        s2 = st.copy()
        p = ('s', 'obj', h, ty)
        st.facts[p] = NN
        st.ps[known] = p
        self.junk(eng, st, 'dill_hquery', site)
        res = [(st, p)]
        if isinstance(h, int) and h < 0:
            res = []
        return [self.failed(eng, s2, ins, 'dill_hquery', site, 0)] + res

    # ---- descriptors
    def mkfd(self, eng, st, name, tag, site):
        r = eng.fresh(st, 'ret', name, tag, site, 32)
        st.facts[r] = (0, INTMAX, frozenset())
        self.acquire(st, 'fd', r)
        return r

    def newfd(self, eng, st, ins, name, args, site):
        s2 = st.copy()
        r = self.mkfd(eng, st, name, 'ok', site)
        self.junk(eng, st, name, site)
        return [self.failed(eng, s2, ins, name, site, -1), (st, r)]

    def c_socket(self, eng, st, ins, args, site):
        return self.newfd(eng, st, ins, 'socket', args, site)

    def c_accept(self, eng, st, ins, args, site):
        self.use(eng, st, ins, 'fd', args[0], 'accept')
        return self.newfd(eng, st, ins, 'accept', args, site)

    def c_accept4(self, eng, st, ins, args, site):
        return self.newfd(eng, st, ins, 'accept4', args, site)

    def c_dup(self, eng, st, ins, args, site):
        self.use(eng, st, ins, 'fd', args[0], 'dup')
        return self.newfd(eng, st, ins, 'dup', args, site)

    def c_fcntl(self, eng, st, ins, args, site):
        self.use(eng, st, ins, 'fd', args[0], 'fcntl')
        if args[1] in (0, 1030):       # F_DUPFD, F_DUPFD_CLOEXEC
            return self.newfd(eng, st, ins, 'fcntl', args, site)
        s2 = st.copy()
        r = self.okret(eng, st, 'fcntl', 'ok', site, 32, (0, INTMAX, frozenset()))
        if args[1] == 4:
            r = 0
        return [self.failed(eng, s2, ins, 'fcntl', site, -1), (st, r)]

    def c_epoll_create(self, eng, st, ins, args, site):
        return self.newfd(eng, st, ins, 'epoll_create', args, site)

    def c_epoll_create1(self, eng, st, ins, args, site):
        return self.newfd(eng, st, ins, 'epoll_create1', args, site)

    def c_mprotect(self, eng, st, ins, args, site):
        s2 = st.copy()
        self.junk(eng, st, 'mprotect', site)
        return [self.failed(eng, s2, ins, 'mprotect', site, -1), (st, 0)]

    def c_open(self, eng, st, ins, args, site):
        return self.newfd(eng, st, ins, 'open', args, site)

    def c_socketpair(self, eng, st, ins, args, site):
        s2 = st.copy()
        for i in (0, 1):
            r = self.mkfd(eng, st, 'socketpair', i, site)
            eng.store(st, padd(args[3], 4 * i), r, 32)
        self.junk(eng, st, 'socketpair', site)
        return [self.failed(eng, s2, ins, 'socketpair', site, -1), (st, 0)]

    def closefd(self, eng, st, ins, name, args, site):
        if name == 'close' and args[0] in st.ps.get('fdwaited', frozenset()):
            eng.violate(st, ins, 'fd-pollset', 'descriptor closed while the poll set may still remember it')
        self.release(eng, st, ins, 'fd', args[0], name)

    def c_close(self, eng, st, ins, args, site):
        self.closefd(eng, st, ins, 'close', args, site)
        self.junk(eng, st, 'close', site)
        s2 = st.copy()
        return [self.failed(eng, s2, ins, 'close', site, -1), (st, 0)]

    def c_dill_fd_close(self, eng, st, ins, args, site):
        if self.tu == eng.prog.byname['dill_fd_close'][0].tu:
            return None
        self.closefd(eng, st, ins, 'dill_fd_close', args, site)
        self.junk(eng, st, 'dill_fd_close', site)
        return [(st, None)]

    def c_dill_fdclean(self, eng, st, ins, args, site):
        self.use(eng, st, ins, 'fd', args[0], 'dill_fdclean')
        st.ps['fdwaited'] = st.ps.get('fdwaited', frozenset()) - {args[0]}
        self.junk(eng, st, 'dill_fdclean', site)
        s2 = st.copy()
        return [self.failed(eng, s2, ins, 'dill_fdclean', site, -1), (st, 0)]

    def fdwait(self, eng, st, ins, name, args, site):
        self.use(eng, st, ins, 'fd', args[0], name)
        if ('fd', args[0]) in st.ps['own']:
            st.ps['fdwaited'] = st.ps.get('fdwaited', frozenset()) | {args[0]}
        eng.havoc_all(st, 'x')
        self.junk(eng, st, name, site)
        s2 = st.copy()
        return [self.failed(eng, s2, ins, name, site, -1), (st, 0)]

    def c_dill_fdin(self, eng, st, ins, args, site):
        return self.fdwait(eng, st, ins, 'dill_fdin', args, site)

    def c_dill_fdout(self, eng, st, ins, args, site):
        return self.fdwait(eng, st, ins, 'dill_fdout', args, site)

    def fdio(self, eng, st, ins, name, args, site, zero=True):
        if eng.prog.byname[name][0].tu == self.tu:
            return None
        self.use(eng, st, ins, 'fd', args[0], name)
        if ('fd', args[0]) in st.ps['own']:
            st.ps['fdwaited'] = st.ps.get('fdwaited', frozenset()) | {args[0]}
        self.passbufs(eng, st, args[1:], site)
        eng.havoc_all(st, 'x')
        self.junk(eng, st, name, site)
        s2 = st.copy()
        return [self.failed(eng, s2, ins, name, site, -1), (st, 0)]

    def c_dill_fd_connect(self, eng, st, ins, args, site):
        return self.fdio(eng, st, ins, 'dill_fd_connect', args, site)

    def c_dill_fd_send(self, eng, st, ins, args, site):
        return self.fdio(eng, st, ins, 'dill_fd_send', args, site)

    def c_dill_fd_recv(self, eng, st, ins, args, site):
        if eng.prog.byname['dill_fd_recv'][0].tu != self.tu and args[1] != 0:
            self.rxuse(eng, st, ins, args[1], 'dill_fd_recv')
        r = self.fdio(eng, st, ins, 'dill_fd_recv', args, site)
        if r is not None and args[2] == 0 and args[3] == 0:
            return r[:1]       # without a list it reads until an error occurs
        return r

    def c_dill_fd_accept(self, eng, st, ins, args, site):
        r = self.fdio(eng, st, ins, 'dill_fd_accept', args, site)
        if r is None:
            return None
        s = r[1][0]
        return [r[0], (s, self.mkfd(eng, s, 'dill_fd_accept', 'ok', site))]

    def c_dill_fd_own(self, eng, st, ins, args, site):
        if eng.prog.byname['dill_fd_own'][0].tu == self.tu:
            return None
        self.use(eng, st, ins, 'fd', args[0], 'dill_fd_own')
        s2 = st.copy()
        self.release(eng, st, ins, 'fd', args[0], 'dill_fd_own')
        r = self.mkfd(eng, st, 'dill_fd_own', 'ok', site)
        self.junk(eng, st, 'dill_fd_own', site)
        return [self.failed(eng, s2, ins, 'dill_fd_own', site, -1), (st, r)]

    def c_dill_fd_unblock(self, eng, st, ins, args, site):
        if eng.prog.byname['dill_fd_unblock'][0].tu == self.tu:
            return None
        self.use(eng, st, ins, 'fd', args[0], 'dill_fd_unblock')
        s2 = st.copy()
        self.junk(eng, st, 'dill_fd_unblock', site)
        return [self.failed(eng, s2, ins, 'dill_fd_unblock', site, -1), (st, 0)]

    def c_dill_fd_initrxbuf(self, eng, st, ins, args, site):
        if eng.prog.byname['dill_fd_initrxbuf'][0].tu == self.tu:
            return None
        self.acquire(st, 'rx', args[0])
        return [(st, None)]

    def rxuse(self, eng, st, ins, a, how):
        self.use(eng, st, ins, 'rx', a, how)
        if self.mode == 'tmpl' and split(a)[0] == SH and ('rx', a) not in st.ps['own'] and ('rx', a) not in st.ps['rel']:
            eng.violate(st, ins, 'mem-rxinit', 'receive buffer used by %s although the constructor never initialised it' % how)

    def c_dill_fd_termrxbuf(self, eng, st, ins, args, site):
        if eng.prog.byname['dill_fd_termrxbuf'][0].tu == self.tu:
            return None
        self.rxuse(eng, st, ins, args[0], 'dill_fd_termrxbuf')
        self.release(eng, st, ins, 'rx', args[0], 'dill_fd_termrxbuf')
        return [(st, None)]

    # ---- memory
    def ev(self, eng, st, ins, kind, *d):
        if kind == 'malloc':
            self.acquire(st, 'mem', d[0])
        elif kind == 'malloc-fail':
            e = ('s', 'err', 'malloc', 'fail')
            self.note_failure(st, 'malloc', ENOMEM)
            st.trace = (st.trace, (st.frames[-1].func.name, ins.get('ln', 0), 'malloc fails'))
        elif kind == 'free':
            p = d[0]
            if isinstance(p, int):
                return
            if st.const(p) == 0:
                return
            self.release(eng, st, ins, 'mem', p, 'free')
        elif kind == 'realloc-fail':
            self.note_failure(st, 'realloc', ENOMEM)
            st.trace = (st.trace, (st.frames[-1].func.name, ins.get('ln', 0), 'realloc fails'))
        elif kind == 'realloc':
            if not isinstance(d[0], int) and st.const(d[0]) != 0:
                self.release(eng, st, ins, 'mem', d[0], 'realloc')
            self.acquire(st, 'mem', d[1])

    def c_malloc(self, eng, st, ins, args, site):
        r = KPolicy.c_malloc(self, eng, st, ins, args, site)
        return r

    # ---- OpenSSL
    def sslnew(self, eng, st, ins, name, kind, site):
        s2 = st.copy()
        self.junk(eng, s2, name, site)
        self.note_failure(s2, name, ('s', 'sslfail'))
        r = self.okret(eng, st, name, 'ok', site, 64, NN)
        self.acquire(st, kind, r)
        self.junk(eng, st, name, site)
        return [(s2, 0), (st, r)]

    def c_SSL_CTX_new(self, eng, st, ins, args, site):
        return self.sslnew(eng, st, ins, 'SSL_CTX_new', 'ctx', site)

    def c_SSL_new(self, eng, st, ins, args, site):
        self.use(eng, st, ins, 'ctx', args[0], 'SSL_new')
        return self.sslnew(eng, st, ins, 'SSL_new', 'ssl', site)

    def c_BIO_new(self, eng, st, ins, args, site):
        return self.sslnew(eng, st, ins, 'BIO_new', 'bio', site)

    def c_SSL_set_bio(self, eng, st, ins, args, site):
        for a in dict.fromkeys(args[1:]):
            self.release(eng, st, ins, 'bio', a, 'SSL_set_bio')
        return [(st, None)]

    def c_SSL_free(self, eng, st, ins, args, site):
        if st.const(args[0]) != 0:
            self.release(eng, st, ins, 'ssl', args[0], 'SSL_free')
        return [(st, None)]

    def c_SSL_CTX_free(self, eng, st, ins, args, site):
        if st.const(args[0]) != 0:
            self.release(eng, st, ins, 'ctx', args[0], 'SSL_CTX_free')
        return [(st, None)]

    def c_BIO_vfree(self, eng, st, ins, args, site):
        if st.const(args[0]) != 0:
            self.release(eng, st, ins, 'bio', args[0], 'BIO_vfree')
        return [(st, None)]

    def c_BIO_free(self, eng, st, ins, args, site):
        self.c_BIO_vfree(eng, st, ins, args, site)
        return [(st, 1)]

    c_BIO_free_all = c_BIO_vfree

    def c_getifaddrs(self, eng, st, ins, args, site):
        s2 = st.copy()
        p = eng.fresh(st, 'ret', 'getifaddrs', 'ok', site, 64)
        st.facts[p] = NN
        eng.store(st, args[0], p, 64)
        self.acquire(st, 'ifa', p)
        return [self.failed(eng, s2, ins, 'getifaddrs', site, -1), (st, 0)]

    # the pool of receive buffers: what is popped is owned, what is pushed is given away
    def c_dill_slist_pop(self, eng, st, ins, args, site):
        s2 = st.copy()
        r = eng.fresh(s2, 'heap', 'pool', site)
        s2.facts[r] = NN
        s2.truth[mkeq(r, args[0])] = False
        self.acquire(s2, 'mem', r)
        return [(st, args[0]), (s2, r)]

    def c_dill_slist_push(self, eng, st, ins, args, site):
        self.release(eng, st, ins, 'mem', args[1], 'dill_slist_push')
        return [(st, None)]

    def c_SSL_get_error(self, eng, st, ins, args, site):
        # SSL_ERROR_NONE if and only if the call had succeeded
        rc = args[1]
        lo, hi, ne = (rc, rc, frozenset()) if isinstance(rc, int) else st.interval(rc)
        out = []
        if hi > 0:
            s2 = st.copy()
            if isinstance(rc, int) or self.refine(s2, rc, 1, INF):
                out.append((s2, 0))
        if lo <= 0:
            s3 = st.copy()
            if isinstance(rc, int) or self.refine(s3, rc, -INF, 0):
                r = eng.fresh(s3, 'ret', 'SSL_get_error', site, 32)
                s3.facts[r] = (1, INTMAX, frozenset())
                self.note_failure(s3, 'the OpenSSL operation', eng.errno(s3))
                out.append((s3, r))
        return out

    def refine(self, st, t, lo, hi):
        a, b, ne = st.interval(t)
        st.facts[t] = (max(a, lo), min(b, hi), ne)
        return st.facts[t][0] <= st.facts[t][1]

    def c_freeifaddrs(self, eng, st, ins, args, site):
        self.release(eng, st, ins, 'ifa', args[0], 'freeifaddrs')
        return [(st, None)]

    # ---- system calls on sockets
    def syscall(self, eng, st, ins, name, args, site, ok=0):
        self.use(eng, st, ins, 'fd', args[0], name)
        self.passbufs(eng, st, args[1:], site)
        s2 = st.copy()
        self.junk(eng, st, name, site)
        r = ok if isinstance(ok, int) else self.okret(eng, st, name, 'ok', site, WIDTHS.get(ins.get('ty'), 64), (0, INF, frozenset()))
        return [self.failed(eng, s2, ins, name, site, -1), (st, r)]

    def icall(self, eng, st, ins, fnterm, args, site):
        """a call through a vtable slot, or a caller-supplied function"""
        f = st.frames[-1].func
        self.passbufs(eng, st, args, site)
        slot = None
        x = ins['fn']
        if x[0] == 'v':
            l = f.insmap.get(x[1])
            if l is not None and l['op'] == 'load' and l['p'][0] == 'v':
                g = f.insmap.get(l['p'][1])
                if g is not None and g['op'] == 'getelementptr':
                    slot = g['sty'].replace('%struct.', '').strip()
        w = WIDTHS.get(ins.get('ty'), 64)
        eng.havoc_all(st, 'x')
        if slot in ('dill_hvfs', None) and ins.get('ty') == 'ptr':
            s2 = st.copy()
            r = self.okret(eng, st, 'query', 'ok', site, w, NN)
            self.junk(eng, st, 'query', site)
            return [self.failed(eng, s2, ins, 'query', site, 0), (st, r)]
        if slot in slot_structs(eng.prog) and 'id' in ins:
            s2 = st.copy()
            self.junk(eng, st, slot, site)
            r = self.okret(eng, st, slot, 'ok', site, w, (0, INF, frozenset()))
            if slot == 'dill_bsock_vfs' or ins.get('ty') == 'i32':
                # documented: 0 or -1; checked for every method
                r = 0
            return [self.failed(eng, s2, ins, slot, site, -1), (st, r)]
        self.junk(eng, st, 'callback', site)
        return [(st, self.okret(eng, st, 'callback', '', site, w) if 'id' in ins else None)]

    # ---------------------------------------------------------------- exits
    def holders(self, eng, st, t, kind):
        """addresses of cells, outside of the activation, that hold the resource"""
        out = []
        for (b, o, ix), (v, w) in st.mem.items():
            if v == t and not (isinstance(b, tuple) and b[0] == 'al') and b != ('g', 'errno'):
                out.append(padd(b, o, ix) if not ix else ('p', b, o, ix))
        return out

    def owner_of(self, st, addr):
        """the bound (or formerly bound) object a cell belongs to: (object address, handle or None)"""
        b, o, ix = split(addr)
        best = None
        for h, a in st.ps['bind'].items():
            ab, ao, ai = split(a)
            if ab == b and ao <= o and (best is None or ao > best[0] or ao == best[0] and ('h', h) in st.ps['own']):
                best = (ao, h)
        for a in st.ps['raw']:
            ab, ao, ai = split(a)
            if ab == b and ao <= o and (best is None or ao > best[0]):
                best = (ao, None)
        return best

    def live_handle(self, st, h, ret, seen):
        if h in seen:
            return False
        seen.add(h)
        if h == HND:
            return ('h', h) not in st.ps['rel']
        if ('h', h) not in st.ps['own']:
            return False
        return self.accounted(st, 'h', h, ret, seen)

    def accounted(self, st, kind, t, ret, seen=None):
        """is the owned resource returned, or held by something that is still alive?"""
        seen = set() if seen is None else seen
        if ret == t and ret is not None:
            return True
        cand = self.holders(None, st, t, kind)
        if kind == 'mem' or kind == 'rx':
            # the memory of an object lives as long as the handle bound to it
            for h, a in st.ps['bind'].items():
                o = self.owner_of(st, t) if kind == 'rx' else None
                if (split(a)[0] == split(t)[0] if kind == 'mem' else o is not None and o[1] == h) and self.live_handle(st, h, ret, seen):
                    return True
        if kind == 'rx':
            b = split(t)[0]
            return self.external(st, b, t)
        for a in cand:
            ow = self.owner_of(st, a)
            if ow is not None:
                if ow[1] is not None and self.live_handle(st, ow[1], ret, seen):
                    return True
                continue
            b = split(a)[0]
            if isinstance(b, tuple):
                if ('mem', b) in st.ps['own'] and ('x', b) not in seen:
                    seen.add(('x', b))
                    if self.accounted(st, 'mem', b, ret, seen):
                        return True
                    continue
                if self.external(st, b, a):
                    return True
        return False

    def external(self, st, b, a):
        """memory that existed before the call and goes on existing"""
        if not isinstance(b, tuple) or b[0] == 'al' or ('mem', b) in st.ps['rel']:
            return False
        if b[0] == 's' and b[1] == 'heap':
            return False
        return True

    def on_abort(self, eng, st, ins):
        self.sub.count('assertions')

    def failing(self, st, val):
        if self.fn.ret == 'void':
            return None
        if self.fn.ret == 'ptr':
            return val == 0
        if isinstance(val, int):
            return val < 0
        if val is None:
            return None
        lo, hi, ne = st.interval(val)
        if hi < 0:
            return True
        if lo >= 0:
            return False
        return None

    def on_ret(self, eng, st, val, ins):
        self.exits += 1
        fail = self.failing(st, val)
        if self.mode == 'tmpl' and self.kind == 'api' and not st.ps.get('queried'):
            return
        self.check_ledger(eng, st, val, ins, fail)
        self.check_errno(eng, st, val, ins, fail)
        if self.mode == 'generic' and fail is not True:
            self.collect(eng, st, val)

    def check_ledger(self, eng, st, val, ins, fail):
        ret = None if fail else val
        rets = set()
        if ret is not None and isinstance(ret, tuple):
            rets.add(ret)
            for k in ('h', 'fd', 'mem'):
                if (k, ret) in st.ps['rel'] and not any((j, ret) in st.ps['own'] for j in ('h', 'fd', 'mem')):
                    eng.violate(st, ins, RULE[k] + '-retstale', 'returns a %s that was already released' % KINDS[k])
        for kind, t in sorted(st.ps['own'], key=repr):
            self.obl += 1
            if t == HND or t == SH:
                continue
            if kind in ('h', 'fd') and isinstance(t, tuple) and st.interval(t)[1] < 0:
                continue
            if kind == 'rx' and fail and split(t)[0] != SH:
                # receive buffers are allocated by the first dill_fd_recv
                continue
            if fail and isinstance(t, tuple):
                # out parameters carry nothing on failure
                if self.accounted_fail(st, kind, t):
                    continue
            elif self.accounted(st, kind, t, ret):
                continue
            if self.mode == 'tmpl' and isinstance(t, tuple) and t[:2] == ('s', 'res'):
                if self.isclosed(st):
                    eng.violate(st, ins, RULE[kind] + '-leak', '%s held by the object is lost when the handle is closed%s' %
                                (KINDS[kind], ' (failing path)' if fail else ''))
                continue
            eng.violate(st, ins, RULE[kind] + '-leak', '%s %s is neither released nor handed over%s' %
                        (KINDS[kind], self.nm(st, kind, t), ' on a failing path' if fail else ''))
        # handles whose storage is gone
        for h, a in list(st.ps.get('stor', {}).items()) + list(st.ps['bind'].items()):
            if ('h', h) in st.ps['own'] and h != HND:
                b = split(a)[0]
                if isinstance(b, tuple) and (b[0] == 'al' or ('mem', b) in st.ps['rel']):
                    eng.violate(st, ins, 'mem-storage', 'a live handle refers to an object in memory that is gone')
        if self.mode == 'tmpl':
            self.check_object(eng, st, val, ins, fail, ret)

    def accounted_fail(self, st, kind, t):
        """on a failing path only objects that existed before the call may hold something new"""
        ok = False
        for a in self.holders(None, st, t, kind):
            b = split(a)[0]
            ow = self.owner_of(st, a)
            if ow is not None:
                if split(st.ps['bind'][ow[1]])[0] == SH if ow[1] in st.ps['bind'] else False:
                    ok = not self.isclosed(st)
                continue
            if isinstance(b, tuple) and (b[0] == 'ld' or (b[0] == 's' and b[1] in ('obj', 'shape')) or b[0] == 'g' or
                                         (b[0] == 'arg' and self.fn.hidden)):
                ok = True
        if kind in ('mem', 'rx') and self.mode == 'tmpl' and split(t)[0] == SH:
            ok = not self.isclosed(st)
        return ok

    def isclosed(self, st):
        """no handle refers to the object any more"""
        if ('h', HND) not in st.ps['rel']:
            return False
        return not any(h != HND and split(a)[0] == SH and ('h', h) in st.ps['own'] for h, a in st.ps['bind'].items())

    def check_object(self, eng, st, val, ins, fail, ret):
        rel, own = st.ps['rel'], st.ps['own']
        closed = self.isclosed(st)
        heap = ('mem', SH) in self.tmpl['own']
        nm = self.fn.name
        if self.kind == 'close':
            if heap and ('mem', SH) not in rel:
                eng.violate(st, ins, 'mem-leak', 'memory of the object is not freed by its close function')
        elif not closed:
            gone = [k for k, t in rel if t == SH or (isinstance(t, tuple) and (t[:2] == ('s', 'res') or split(t)[0] == SH))]
            for k in sorted(gone):
                r = 'own' if k in ('h', 'mem') else RULE[k]
                eng.violate(st, ins, r + '-halfclosed', '%s of the object is released while its handle stays valid' % KINDS[k])
            if ret is not None and any(t == ret and k == 'h' for k, t in own):
                if self.holds(st, ret):
                    eng.violate(st, ins, 'own-shared', 'returns the underlying handle while the object still owns it')
        else:
            if heap and ('mem', SH) not in rel:
                eng.violate(st, ins, 'mem-leak', 'memory of the object is not freed when its handle is closed')
        # documented: the handle is closed even in the case of error
        if self.kind == 'api' and re.search(r'_(detach|close)$', nm) and not closed and st.ps.get('mine'):
            eng.violate(st, ins, 'own-notclosed', 'returns without having closed the handle%s' % (' (failing path)' if fail else ''))

    def holds(self, st, t):
        return any(k[0] == SH and v == t for k, (v, w) in st.mem.items())

    def on_return_from(self, eng, st, func, val, ins):
        if func.ret == 'i64' and isinstance(val, tuple):
            # byte counts fit ssize_t
            lo, hi, ne = st.interval(val)
            if lo < 0 <= hi:
                st.facts[val] = (0, hi, ne)
        # the object answered the query with itself
        if self.mode == 'tmpl' and len(st.frames) > 1 and st.frames[-1].callins is not None:
            ci = st.frames[-1].callins
            if ci['fn'][0] == 'g' and ci['fn'][1] == 'dill_hquery':
                if isinstance(val, tuple) and split(val)[0] == SH:
                    st.ps['mine'] = True
                elif val == 0:
                    e = eng.errno(st)

    # ---- errno discipline
    def check_errno(self, eng, st, val, ins, fail):
        self.obl += 1
        if self.errnoless(eng.prog, self.fn):
            return
        zs = [s for s, o in self.slotk.get(self.fn.key, ()) if s == 'dill_bsock_vfs' or
              s == 'dill_msock_vfs' and o == eng.prog.field('dill_msock_vfs', 'msendl')[0]]
        if (zs or self.fn.name in ZEROFAIL) and not fail and isinstance(val, (int, tuple)):
            lo, hi, ne = (val, val, ()) if isinstance(val, int) else st.interval(val)
            if (lo, hi) != (0, 0):
                eng.violate(st, ins, 'errno-range', 'may return something other than 0 and -1')
        if fail is None and self.fn.ret == 'i32' and isinstance(val, tuple) and (is_api(self.fn) or zs):
            pass
        if fail:
            e = eng.errno(st)
            if e == 0:
                eng.violate(st, ins, 'errno-zero', 'reports failure with errno set to 0')
            elif isinstance(e, tuple) and e[:2] == ('s', 'errno0'):
                eng.violate(st, ins, 'errno-unset', 'reports failure without setting errno')
            elif isinstance(e, tuple) and e == ('s', 'junk'):
                last = st.ps['last']
                eng.violate(st, ins, 'errno-lost', 'reports failure with whatever errno a call that succeeded left behind%s' %
                            (', not the one of %s' % last if last else ''))
            elif isinstance(e, tuple) and e[:2] == ('s', 'err') and e[2] in CLEANUP and st.ps['last'] and st.ps['last'] not in CLEANUP:
                eng.violate(st, ins, 'errno-lost', 'reports failure with the errno of %s, not the one of %s' % (e[2], st.ps['last']))
            elif isinstance(e, tuple) and st.const(e) == 0:
                eng.violate(st, ins, 'errno-zero', 'reports failure with errno set to 0')
        elif fail is False and self.fn.ret in ('i32', 'i64'):
            self.settle(st)
            if st.ps['fails'] is not None:
                eng.violate(st, ins, 'dropped', 'reports success although %s failed' % st.ps['fails'][0])

    # ---------------------------------------------------------------- templates
    def collect(self, eng, st, val):
        """objects that exist after a successful constructor"""
        done = set()
        for h, a in st.ps['bind'].items():
            if ('h', h) not in st.ps['own'] or a in done or h == HND:
                continue
            done.add(a)
            styp = st.ps['styp'].get(a)
            if styp is None:
                continue
            size = eng.prog.sizeof(styp)
            ab, ao, _ = split(a)
            res = {}
            cells = []
            own = set()
            heap = ('mem', ab) in st.ps['own'] and ao == 0
            ownd = dict((t, k) for k, t in st.ps['own'])
            for (b, o, ix), (v, w) in st.mem.items():
                if b != ab or ix or not (ao <= o < ao + size):
                    continue
                if isinstance(v, tuple) and v in ownd and ownd[v] != 'mem' and v != h:
                    n = res.setdefault(v, ('s', 'res', ownd[v], styp, o - ao))
                    own.add((ownd[v], n))
                    cells.append((o - ao, n, w))
                elif isinstance(v, tuple) and v[0] == 'g' and v[1] in eng.prog.funcs:
                    cells.append((o - ao, v, w))
                elif isinstance(v, int) or (isinstance(v, tuple) and v[0] == 'bfw'):
                    cells.append((o - ao, v, w))
                elif isinstance(v, tuple) and split(v)[0] == ab:
                    cells.append((o - ao, padd(SH, split(v)[1] - ao), w))
            for k, t in st.ps['own']:
                if k == 'rx' and split(t)[0] == ab and ao <= split(t)[1] < ao + size:
                    own.add(('rx', padd(SH, split(t)[1] - ao)))
            own.add(('h', HND))
            if heap:
                own.add(('mem', SH))
            self.templates.append(dict(struct=styp, cells=tuple(sorted(cells, key=repr)), own=tuple(sorted(own, key=repr)),
                                       origin=self.fn.name, reach=max(
                                           [abs(split(x)[1] - ao) for g, x in st.ps['bind'].items() if ('h', g) in st.ps['own'] and
                                            split(x)[0] == ab and isinstance(split(x)[1], int)] or [0])))

    def finish(self, eng, sub):
        sub.count('exits', self.exits)
        sub.count('obligations', self.obl)
        sub.r['data'] = self.templates


for _n in ('connect', 'bind', 'listen', 'shutdown', 'getsockopt', 'getsockname', 'getpeername'):
    def _mk(n):
        def f(self, eng, st, ins, args, site):
            return self.syscall(eng, st, ins, n, args, site)
        return f
    setattr(SPolicy, 'c_' + _n, _mk(_n))
for _n in ('send', 'sendmsg', 'sendto', 'recv', 'recvmsg', 'recvfrom', 'read', 'write'):
    def _mk2(n):
        def f(self, eng, st, ins, args, site):
            return self.syscall(eng, st, ins, n, args, site, ok='sym')
        return f
    setattr(SPolicy, 'c_' + _n, _mk2(_n))


# ---------------------------------------------------------------- running it

import driver

SKIP_TU = {'libdill', 'utils', 'cr', 'chan', 'handle', 'rbtree', 'stack', 'ctx', 'now', 'pollset'}


def tuname(f):
    return f.tu.rsplit('/', 1)[-1].replace('.c', '')


def socket_functions(prog):
    sk = slot_keys(prog)
    out = []
    for k, f in sorted(prog.funcs.items()):
        if tuname(f) in SKIP_TU:
            continue
        if is_api(f) or (f.hidden and not f.internal) or SPolicy().split_out(prog, f) or coroutine_body(prog, f):
            out.append(f)
    return out


def coroutine_body(prog, f):
    """a function that some function of the library runs in a new coroutine"""
    if f.ret != 'void' or not f.blocks or is_api(f):
        return False
    for g in callers(prog).get(f.key, ()):
        g = prog.funcs[g] if isinstance(g, str) else g
        if any(c.name == 'dill_prologue' for c in callees(prog, g)):
            return True
    return False


def immut(prog, struct, cons):
    """bits of one-bit fields that only constructors change: {(byte offset, bit)}"""
    keep = set()
    for fd in prog.structs.get(struct, {}).get('fields', []):
        if fd['bf'] and fd['bits'] == 1:
            fs = flag_stores(prog, struct, fd['name'])
            if fs and all(within(prog, f.key, cons) for f, _, _ in fs):
                keep.add((fd['bit'] // 8, fd['bit'] % 8))
    return keep


def prune(prog, t, cons):
    """forget everything about the object that methods may change"""
    im = immut(prog, t['struct'], cons)
    cells = []
    for off, v, w in t['cells']:
        if isinstance(v, tuple) and v[0] == 'bfw':
            ov = tuple(x for x in v[2] if x[1] == 1 and (off + x[0] // 8, x[0] % 8) in im)
            if ov:
                cells.append((off, ('bfw', ('ld', padd(SH, off), w, 0), ov), w))
        elif isinstance(v, int) and w == 8 and any(o == off for o, b in im):
            ov = tuple((b, 1, (v >> b) & 1) for o, b in sorted(im) if o == off)
            cells.append((off, ('bfw', ('ld', padd(SH, off), w, 0), ov), w))
        elif isinstance(v, tuple) and v[0] in ('s', 'g', 'p'):
            cells.append((off, v, w))
    return dict(t, cells=tuple(cells))


def run_sockets(ctx, configs, mk=SPolicy, methods=True, tus=None):
    """Both phases; all violations of all rules end up in the context."""
    jobs, meta = [], []
    for c in configs:
        prog = ctx.prog(c)
        callees(prog, next(iter(prog.funcs.values())))
        slots(prog)
        callers(prog)
        for f in socket_functions(prog):
            if tus and tuname(f) not in tus:
                continue
            jobs.append(driver.engine_job(c, prog, f, lambda: mk('generic'), tag='functions'))
            meta.append((c, f))
    data = ctx.run_jobs(jobs)
    if not methods:
        return
    jobs = []
    for c in configs:
        prog = ctx.prog(c)
        sk = slot_keys(prog)
        tm = {}
        cons = set()
        for (cc, f), d in zip(meta, data):
            if cc == c and d:
                cons.add(f.key)
        for (cc, f), d in zip(meta, data):
            if cc != c:
                continue
            for t in d or []:
                p = prune(prog, t, cons)
                k = (p['struct'], p['cells'], p['own'])
                if k not in tm:
                    tm[k] = dict(p, tu=f.tu)
        ctx.count('object templates', len(tm))
        for t in tm.values():
            ctx.count('templates of ' + t['struct'])
            for off, v, w in t['cells']:
                if isinstance(v, tuple) and v[0] == 'g' and v[1] in prog.funcs and v[1] in sk:
                    g = prog.funcs[v[1]]
                    for (s, o) in sk[v[1]]:
                        if s == 'dill_hvfs':
                            if o == prog.field('dill_hvfs', 'close')[0]:
                                jobs.append(driver.engine_job(c, prog, g, lambda t=t: mk('tmpl', t, 'close'), tag='methods'))
                        else:
                            jobs.append(driver.engine_job(c, prog, g, lambda t=t, b=off - o: mk('tmpl', t, b), tag='methods'))
            for f in socket_functions(prog):
                if f.tu == t['tu'] and is_api(f) and f.args and f.args[0]['ty'] == 'i32':
                    jobs.append(driver.engine_job(c, prog, f, lambda t=t: mk('tmpl', t, 'api'), tag='methods'))
    ctx.run_jobs(jobs)
