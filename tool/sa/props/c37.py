"""Addresses: literals, interfaces, names, families, ports and counts."""
from props.wire import *
from props.c35 import string, buffer, tok
from props.c36 import INET, INET6, EINVAL, getaddr
import props.c36 as c36

EXPLAIN = """Abstract interpretation of the calls that turn a name into addresses. Names are literals of either family, names of
interfaces or of hosts; the lists of interfaces and the answers of the resolver are taken from a partition: every sequence of up
to three entries of either family (or none, for an interface without an address), every place where the resolver blocks, every
call of it failing with an error of the system or of its own. For each mode, port and size of the array the outcome is compared
with an independent specification: number, order, families, bytes and ports of the addresses, what is left untouched beyond
them, the error, the names and kinds of the queries, and that whatever was obtained on the way is released exactly once."""
ASSUME = ['the resolver (dns/dns.c), inet_pton and getifaddrs are primitives with the results their contracts allow',
          'arrays of one to three elements and answers of up to three entries stand for longer ones']

ENODEV, EADDRNOTAVAIL, EAGAIN, ENOENT, ETIMEDOUT = 19, 99, 11, 2, 110
MAXP = 65535
DNSERR = -((ord('d') << 24) | (ord('n') << 16) | (ord('s') << 8) | 64) + 3
DNSFD = 41
DEADLINE = ('s', 'ret', 'in', ('deadline',), 64)


class P(c36.P):
    rule = 'C37'
    max_visits = 500
    ifaces = ()             # what getifaddrs has: (name, family or 0)
    answers = ()            # by family: what dns_ai_nextent says

    # ---- things that have to be released
    def grab(self, st, kind):
        n = st.ps['made']
        st.ps['made'] = n + 1
        st.ps['held'] = st.ps['held'] | frozenset([(kind, n)])
        o = shape('%s#%d' % (kind, n))
        return o

    def release(self, eng, st, ins, kind, p):
        k = p[2].split('#') if isinstance(p, tuple) and p[:2] == ('s', 'shape') and '#' in p[2] else None
        self.sub.count('obligations')
        if k is None or k[0] != kind or (kind, int(k[1])) not in st.ps['held']:
            self.say(eng, st, ins, 'C37-release', 'releases something that is not held: %s' % show(p))
            raise Infeasible()
        st.ps['held'] = st.ps['held'] - frozenset([(kind, int(k[1]))])

    def use(self, eng, st, ins, kind, p):
        self.sub.count('obligations')
        k = p[2].split('#') if isinstance(p, tuple) and p[:2] == ('s', 'shape') and '#' in p[2] else None
        if k is None or k[0] != kind or (kind, int(k[1])) not in st.ps['held']:
            self.say(eng, st, ins, 'C37-release', 'uses something that is not held: %s' % show(p))
            raise Infeasible()
        return p

    def fault(self, eng, st, p, code):
        s = st.copy()
        s.ps['failed'] = True
        s.ps['codes'] = s.ps['codes'] | frozenset([code])
        if p is not None:
            eng.store(s, p, code, 32)
        return s

    # ---- interfaces
    def c_getifaddrs(self, eng, st, ins, args, site):
        res = []
        if self.failures:
            s, r = self.errfork(eng, st, ins, site)
            s.ps['iface_err'] = True
            res.append((s, r))
        head = self.grab(st, 'ifaddrs') if self.ifaces else 0
        nodes = [head] + [shape('ifa:%d' % i) for i in range(1, len(self.ifaces))]
        off = lambda m: self.prog.field('ifaddrs', m)[0]
        for i, (name, f) in enumerate(self.ifaces):
            p = nodes[i]
            self.size[p] = self.prog.sizeof('ifaddrs')
            eng.store(st, padd(p, off('ifa_next')), nodes[i + 1] if i + 1 < len(nodes) else 0, 64)
            eng.store(st, padd(p, off('ifa_name')), string(self, 'iface%d' % i, list(name.encode())), 64)
            a = 0
            if f:
                a = shape('ifaddr:%d' % i)
                self.size[a] = {INET: 16, INET6: 28}.get(f, 20)
                self.sockaddr(eng, st, a, f, ('iface', i))
            eng.store(st, padd(p, off('ifa_addr')), a, 64)
        eng.store(st, args[0], head, 64)
        return res + [(st, 0)]

    def sockaddr(self, eng, st, a, f, tag):
        n = {INET: 16, INET6: 28}.get(f, 20)
        eng.store(st, a, f, 16)
        for i in range(2, n):
            # (whatever port comes with it is not the one to be used)
            eng.store(st, padd(a, i), 255 if i < 4 else inb((tag, i)), 8)

    def c_freeifaddrs(self, eng, st, ins, args, site):
        if args[0] != 0 or self.ifaces:
            self.release(eng, st, ins, 'ifaddrs', args[0])
        return [(st, 0)]

    # ---- the resolver
    def held(self, kind, errp):
        def f(eng, st, ins, args, site):
            p = args[errp]
            out = []
            if self.failures:
                for code in (5, DNSERR):
                    out.append((self.fault(eng, st, p, code), 0))
            return out
        return f

    def loaded(self, eng, st, ins, what):
        # (kept for good: loading it again loses what was there)
        self.sub.count('obligations')
        if what in st.ps['conf']:
            self.say(eng, st, ins, 'C37-release', 'loads the configuration again and loses what was loaded')
        if [x for x in st.ps['held'] if x[0] in ('ai', 'resolver')]:
            self.say(eng, st, ins, 'C37-release', 'loads the configuration in the middle of a query')
        st.ps['conf'] = st.ps['conf'] | frozenset([what])
        return [(st, shape(what))]

    def c_dns_resconf_local(self, eng, st, ins, args, site):
        out = []
        if self.failures:
            out.append((self.fault(eng, st, args[0], ENOENT), 0))
        return out + self.loaded(eng, st, ins, 'conf')

    def c_dns_hosts_local(self, eng, st, ins, args, site):
        return self.loaded(eng, st, ins, 'hosts')

    def c_dns_hints_local(self, eng, st, ins, args, site):
        if args[0] != shape('conf'):
            self.say(eng, st, ins, 'C37-query', 'does not use the configuration')
        return self.loaded(eng, st, ins, 'hints')

    def c_pthread_mutex_lock(self, eng, st, ins, args, site):
        self.sub.count('obligations')
        if args[0] in st.ps['locked']:
            self.say(eng, st, ins, 'C37-release', 'locks a mutex that it holds')
            raise Infeasible()
        st.ps['locked'] = st.ps['locked'] | frozenset([args[0]])
        return [(st, 0)]

    def c_pthread_mutex_unlock(self, eng, st, ins, args, site):
        self.sub.count('obligations')
        if args[0] not in st.ps['locked']:
            self.say(eng, st, ins, 'C37-release', 'unlocks a mutex that it does not hold')
            raise Infeasible()
        st.ps['locked'] = st.ps['locked'] - frozenset([args[0]])
        return [(st, 0)]

    def c_dns_res_open(self, eng, st, ins, args, site):
        self.sub.count('obligations')
        if args[:3] != [shape('conf'), shape('hosts'), shape('hints')]:
            self.say(eng, st, ins, 'C37-query', 'does not use the configuration')
            raise Infeasible()
        out = [(s, v) for s, v in self.held('resolver', len(args) - 1)(eng, st, ins, args, site)]
        return out + [(st, self.grab(st, 'resolver'))]

    def c_dns_res_close(self, eng, st, ins, args, site):
        if args[0] != 0:
            self.release(eng, st, ins, 'resolver', args[0])
        return [(st, 0)]

    def c_dns_ai_open(self, eng, st, ins, args, site):
        name = args[0]
        t = st.const(args[2])
        f = {1: INET, 28: INET6}.get(t)
        self.sub.count('obligations')
        if name != shape('strname') or f is None:
            self.say(eng, st, ins, 'C37-query', 'asks for something else than the addresses of the name')
            raise Infeasible()
        if args[1] != 0:
            self.cstrlen(eng, st, ins, args[1])
        self.use(eng, st, ins, 'resolver', args[4])
        out = self.held('ai', 5)(eng, st, ins, args, site)
        ai = self.grab(st, 'ai')
        st.ps['queries'] = st.ps['queries'] + (f,)
        st.ps['ai'] = (ai, f, 0)
        return out + [(st, ai)]

    def c_dns_ai_close(self, eng, st, ins, args, site):
        if args[0] == 0:
            return [(st, 0)]
        self.release(eng, st, ins, 'ai', args[0])
        if st.ps['dirty']:
            self.say(eng, st, ins, 'C37-release', 'closes the socket of the resolver while it is still known to the poller')
        return [(st, 0)]

    def ai(self, eng, st, ins, p):
        self.use(eng, st, ins, 'ai', p)
        if p != st.ps['ai'][0]:
            raise AnalysisBroken('two queries are under way')
        return st.ps['ai']

    def c_dns_ai_nextent(self, eng, st, ins, args, site):
        o, f, i = self.ai(eng, st, ins, args[1])
        if st.ps['dirty']:
            self.say(eng, st, ins, 'C37-release', 'lets the resolver go on while its socket is still known to the poller')
            raise Infeasible()
        seq = self.answers[f]
        ev = seq[i] if i < len(seq) else ENOENT
        st.ps['ai'] = (o, f, i + 1)
        if ev in ('v4', 'v6'):
            e = self.grab(st, 'entry')
            fam = INET if ev == 'v4' else INET6
            off = lambda m: self.prog.field('addrinfo', m)[0]
            self.size[e] = self.prog.sizeof('addrinfo')
            a = shape('answer:%s' % e[2])
            self.size[a] = 16 if fam == INET else 28
            self.sockaddr(eng, st, a, fam, (f, i))
            for m, v, w in (('ai_family', fam, 32), ('ai_addrlen', self.size[a], 32), ('ai_addr', a, 64), ('ai_next', 0, 64),
                            ('ai_socktype', 1, 32), ('ai_protocol', 6, 32), ('ai_flags', 0, 32), ('ai_canonname', 0, 64)):
                eng.store(st, padd(e, off(m)), v, w)
            eng.store(st, args[0], e, 64)
            return [(st, 0)]
        if ev in ('in', 'out'):
            st.ps['wants'] = ev
            return [(st, EAGAIN)]
        if ev != ENOENT and ev != DNSERR:
            st = self.fault(eng, st, None, ev)
        return [(st, ev & 0xffffffff)]

    def c_dns_ai_pollfd(self, eng, st, ins, args, site):
        self.ai(eng, st, ins, args[0])
        return [(st, DNSFD)]

    def c_dns_ai_events(self, eng, st, ins, args, site):
        self.ai(eng, st, ins, args[0])
        return [(st, {'in': 1, 'out': 4}[st.ps['wants']])]

    def wait(self, eng, st, ins, args, site, way):
        self.sub.count('obligations')
        if st.const(args[0]) != DNSFD or st.ps.get('wants') != way:
            self.say(eng, st, ins, 'C37-wait', 'waits for something else than the resolver does')
            raise Infeasible()
        if args[1] != DEADLINE:
            self.say(eng, st, ins, 'C37-wait', 'waits with a deadline that is not the one given')
            raise Infeasible()
        st.ps['wants'] = None
        st.ps['dirty'] = True
        out = []
        if self.failures:
            out.append(self.errfork(eng, st, ins, site))
            out[-1][0].ps['waitfail'] = True
        return out + [(st, 0)]

    def c_dill_fdin(self, eng, st, ins, args, site):
        return self.wait(eng, st, ins, args, site, 'in')

    def c_dill_fdout(self, eng, st, ins, args, site):
        return self.wait(eng, st, ins, args, site, 'out')

    def c_dill_fdclean(self, eng, st, ins, args, site):
        self.sub.count('obligations')
        if st.const(args[0]) != DNSFD:
            self.say(eng, st, ins, 'C37-release', 'makes the poller forget another descriptor')
        st.ps['dirty'] = False
        # (may leave any errno behind)
        eng.set_errno(st, ('s', 'ret', 'in', ('errno left by fdclean',), 32))
        return [(st, 0)]

    def c_free(self, eng, st, ins, args, site):
        if args[0] != 0:
            self.release(eng, st, ins, 'entry', args[0])
        return [(st, 0)]

    def c_htonl(self, eng, st, ins, args, site):
        v = st.const(args[0])
        if v is None:
            raise AnalysisBroken('htonl of an unknown value')
        return [(st, int.from_bytes((v & 0xffffffff).to_bytes(4, 'little'), 'big'))]

    c_ntohl = c_htonl

    def c_snprintf(self, eng, st, ins, args, site):
        n = st.const(args[1])
        if n is None:
            raise AnalysisBroken('snprintf of unknown size')
        self.bounds(eng, st, args[0], n, ins, 'prints to')
        for i in range(n):
            eng.store(st, padd(args[0], i), inb(('digits', i)) if i < n - 1 else 0, 8)
        return [(st, 1)]


def scene(sub, prog, text, **kw):
    kw.setdefault('failures', True)
    pol = P(sub, prog, stream=[], parts=False, **kw)
    pol.scenario = text
    pol.strs = {}
    sc = Scene(pol)
    st = sc.state('bsock')
    for k, g in prog.globals.items():
        if g.get('tu') == 'ipaddr' and g['internal'] and not g['const'] and not g['tls']:
            for o in range(0, g['size'], 8):
                v = sc.eng.init_at(g, g.get('init'), o, 64)
                if v is not None:
                    sc.eng.store(st, padd(('g', k), o), v, 64)
    for i in range(16):
        sc.eng.store(st, padd(('g', 'in6addr_any'), i), 0, 8)
    st.ps.update(held=frozenset(), made=0, locked=frozenset(), conf=frozenset(), codes=frozenset(), dirty=False, queries=(), failed=False)
    return pol, sc, st


def finish(pol, sc, fn, st):
    expect(pol, sc, fn, 'C37-release', not st.ps['locked'], 'returns with a mutex locked')
    expect(pol, sc, fn, 'C37-release', not st.ps['held'], 'returns without releasing %s' % ', '.join(sorted({k for k, n in st.ps['held']})))


def untouched(pol, sc, fn, st, p, lo, hi):
    same = all(sc.eng.load(st, padd(p, i), 8) == datab(p[2], i) for i in range(lo, hi))
    expect(pol, sc, fn, 'C37-bounds', same, 'stores an address although the arguments are bad')


def hasaddr(pol, sc, fn, st, p, family, port, a, rest=None):
    """rest: what else there is in the address, by offset (0 unless given)"""
    f, q, b = getaddr(sc.eng, st, p)
    expect(pol, sc, fn, 'C37-address', f == family, 'the address has family %s instead of %s' % (show(f), family))
    if f == family:
        expect(pol, sc, fn, 'C37-address', q == port, 'the address has port %s instead of %s' % (q, port))
        expect(pol, sc, fn, 'C37-address', flatten(b) == flatten(a), 'the address is not the one of the name')
        pad = range(8, 16) if family == INET else list(range(4, 8)) + list(range(24, 28))
        v = flatten([sc.eng.load(st, padd(p, i), 8) for i in pad])
        expect(pol, sc, fn, 'C37-address', v == [rest(i) if rest else 0 for i in pad], 'leaves the rest of the address undefined')


def flatten(t):
    return [x & 255 if isinstance(x, int) else x for x in t]


def order(mode):
    """families, the preferred one first"""
    return {0: (INET, INET6), 1: (INET,), 2: (INET6,), 3: (INET, INET6), 4: (INET6, INET)}.get(mode)


def lit(f, name):
    """what the bytes of a literal are"""
    return [inb(('address', tuple(name), i)) for i in range(4 if f == INET else 16)]


BADPORT = (-1, MAXP + 1, 70000, -2147483648)
MODES = (0, 1, 2, 3, 4, 5, -1)
PORTS = (0, 1, 80, 255, 256, 0x1234, MAXP)
IFACES = [(), (('eth1', INET),), (('eth0', INET),), (('eth0', INET6),), (('eth0', 0), ('eth0', INET)), (('eth00', INET), ('eth0', INET6), ('eth0', INET)),
          (('eth0', INET6), ('eth1', INET), ('eth0', INET)), (('eth0', 17), ('eth0', INET)), (('eth', INET), ('eth0', INET), ('eth0', INET)),
          (('eth0', INET6), ('eth0', INET6)), (('eth0', 17), ('eth0', 0)), (('eth1', INET), ('eth1', INET6), ('eth0', INET6)),
          (('eth0', INET), ('eth0', INET6)), (('eth0', INET6), ('eth0', INET))]


def local(sub, prog, kind):
    fn = 'dill_ipaddr_local'
    for mode in MODES:
        bad = order(mode) is None
        for port in (PORTS + BADPORT if kind != 'iface' else (80, MAXP) + BADPORT):
            wrong = bad or port in BADPORT
            for lf in ((INET, INET6) if kind == 'literal' else (None,)):
                for ifs in (IFACES if kind == 'iface' else IFACES[:1] + IFACES[12:13]):
                    pol, sc, st = scene(sub, prog, '%s, mode %d, port %d' % (
                        {'any': 'no name', 'literal': 'a literal of family %s' % lf}.get(kind, 'an interface name, interfaces %s' % (ifs,)), mode, port))
                    pol.literal, pol.ifaces = lf, ifs
                    chars = tok('n', 3) if kind == 'literal' else list(b'eth0')
                    name = 0 if kind == 'any' else string(pol, 'name', chars)
                    p = buffer(pol, 'addr', 32)
                    for s, r in sc.call(st, fn, p, name, port, mode):
                        finish(pol, sc, fn, s)
                        fams = order(mode) or ()
                        if wrong:
                            expect(pol, sc, fn, 'C37-args', r == -1 and errno_of(sc, s) == EINVAL, 'does not report EINVAL for a port or mode that does not exist')
                            continue
                        if kind == 'any':
                            ok = (fams[0], [0] * 16)
                        elif kind == 'literal':
                            ok = (lf, lit(lf, chars)) if lf in fams else None
                        else:
                            ok = None
                            for f in fams:
                                c = [i for i, (n, g) in enumerate(ifs) if n == 'eth0' and g == f]
                                if c and ok is None:
                                    ok = (f, [inb((('iface', c[0]), (4 if f == INET else 8) + i)) for i in range(4 if f == INET else 16)],
                                          lambda i, k=c[0]: inb((('iface', k), i)))
                        if s.ps.get('iface_err') and not (kind == 'literal' and ok):
                            expect(pol, sc, fn, 'C37-errno', r == -1 and errno_of(sc, s) == s.ps.get('err'), 'does not report the error of the system')
                        elif ok is None:
                            expect(pol, sc, fn, 'C37-errno', r == -1, 'succeeds although there is no such address')
                            expect(pol, sc, fn, 'C37-errno', r != -1 or errno_of(sc, s) == ENODEV, 'does not report ENODEV for a name that does not exist')
                        else:
                            expect(pol, sc, fn, 'C37-result', r == 0, 'does not find the address')
                            if r == 0:
                                hasaddr(pol, sc, fn, s, p, ok[0], port, ok[1][:4 if ok[0] == INET else 16], ok[2] if len(ok) > 2 else None)


def seqs():
    import itertools
    for n in range(4):
        for w in itertools.product(('v4', 'v6'), repeat=n):
            yield w


def other(f):
    return INET6 if f == INET else INET


def remotes(sub, prog, mode, single):
    """names of hosts"""
    fn = 'dill_ipaddr_remote' if single else 'dill_ipaddr_remotes'
    answers = []
    fit = {INET: 'v4', INET6: 'v6'}
    for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 2), (2, 2)):
        answers.append({INET: ('v4',) * a, INET6: ('v6',) * b})
    for w in seqs():
        answers.append({INET: w, INET6: w})
    for x in ('in', 'out', DNSERR, 5):
        for pos in range(3):
            w = {}
            for f in (INET, INET6):
                t = [fit[f], fit[f]]
                t.insert(pos, x)
                w[f] = tuple(t)
            answers.append(w)
    answers.append({INET: ('in', 'out', 'in', 'v4', 'v6'), INET6: ('out', 'in', 'v6', 'in', 'v4')})
    answers.append({INET: ('v4', 5), INET6: ('v6', DNSERR)})
    answers.append({INET: ('v4', DNSERR), INET6: ('v6', 5)})
    sizes = (1,) if single else (1, 2, 3)
    for n in sizes:
        for ans in answers:
            for port in (80, MAXP):
                pol, sc, st = scene(sub, prog, 'a host name, mode %d, %d addresses, answers %s and %s' % (mode, n, ans[INET], ans[INET6]))
                pol.answers = ans
                name = string(pol, 'name', tok('n', 3))
                p = buffer(pol, 'addrs', 32 * n)
                args = (p, name, port, mode, DEADLINE) if single else (p, n, name, port, mode, DEADLINE)
                for s, r in sc.call(st, fn, *args):
                    finish(pol, sc, fn, s)
                    r = r - (1 << 32) if isinstance(r, int) and r >= 1 << 31 else r
                    if s.ps['failed'] or s.ps.get('waitfail'):
                        expect(pol, sc, fn, 'C37-errno', r == -1, 'succeeds although a step failed')
                        if r == -1:
                            e = errno_of(sc, s)
                            good = e == s.ps.get('err') if s.ps.get('waitfail') else isinstance(e, int) and (e in s.ps['codes'] or e == EINVAL and DNSERR in s.ps['codes'])
                            expect(pol, sc, fn, 'C37-errno', good, 'does not report the error of the step that failed')
                        continue
                    res = []
                    for f in order(mode):
                        for i, ev in enumerate(ans[f]):
                            if ev == DNSERR:
                                break
                            if ev == fit[f]:
                                res.append((f, i))
                    res = res[:n]
                    if single and not res:
                        expect(pol, sc, fn, 'C37-errno', r == -1 and errno_of(sc, s) == EADDRNOTAVAIL, 'does not report that there is no address')
                        continue
                    expect(pol, sc, fn, 'C37-result', r == (0 if single else len(res)), 'returns %s where %d addresses fit and exist' % (show(r), len(res)))
                    expect(pol, sc, fn, 'C37-query', set(s.ps['queries']) <= set(order(mode)), 'asks for addresses of a family that is not wanted')
                    if r != (0 if single else len(res)):
                        continue
                    for k, (f, i) in enumerate(res):
                        m, o = (4, 4) if f == INET else (16, 8)
                        hasaddr(pol, sc, fn, s, padd(p, 32 * k), f, port, [inb(((f, i), o + j)) for j in range(m)], lambda j, t=(f, i): inb((t, j)))


def again(sub, prog, mode):
    """one lookup after the other: the configuration is loaded once, and again only if that failed"""
    fn = 'dill_ipaddr_remotes'
    pol, sc, st = scene(sub, prog, 'two host names, mode %d' % mode)
    pol.answers = {INET: ('v4',), INET6: ('v6',)}
    name = string(pol, 'name', tok('n', 3))
    p = buffer(pol, 'addrs', 32 * 3)
    for s, r in sc.call(st, fn, p, 3, name, 80, mode, DEADLINE):
        finish(pol, sc, fn, s)
        pol.failures = False
        s.ps.update(failed=False, waitfail=False)
        for s2, r2 in sc.call(s, fn, p, 3, name, 80, mode, DEADLINE):
            finish(pol, sc, fn, s2)
            expect(pol, sc, fn, 'C37-result', r2 == len(order(mode)), 'does not work again after a first lookup')
        pol.failures = True


def literals(sub, prog, single):
    fn = 'dill_ipaddr_remote' if single else 'dill_ipaddr_remotes'
    for mode in MODES:
        for port in PORTS + BADPORT:
            for lf in (INET, INET6):
                for n in (1, 2) if not single else (1,):
                    pol, sc, st = scene(sub, prog, 'a literal of family %s, mode %d, port %d' % (lf, mode, port), failures=False)
                    pol.answers = {INET: (), INET6: ()}
                    pol.literal = lf
                    name = string(pol, 'name', tok('n', 3))
                    p = buffer(pol, 'addrs', 32 * n)
                    args = (p, name, port, mode, DEADLINE) if single else (p, n, name, port, mode, DEADLINE)
                    for s, r in sc.call(st, fn, *args):
                        finish(pol, sc, fn, s)
                        if order(mode) is None or port in BADPORT:
                            expect(pol, sc, fn, 'C37-args', r == -1 and errno_of(sc, s) == EINVAL, 'accepts a port or mode that does not exist')
                            untouched(pol, sc, fn, s, p, 0, 32 * n)
                        elif lf in order(mode):
                            expect(pol, sc, fn, 'C37-result', r == (0 if single else 1), 'does not take a literal for what it is')
                            expect(pol, sc, fn, 'C37-query', s.ps['queries'] == (), 'asks the resolver for a literal')
                            if r == (0 if single else 1):
                                hasaddr(pol, sc, fn, s, p, lf, port, lit(lf, tok('n', 3)))
                        else:
                            expect(pol, sc, fn, 'C37-result', (r == -1 and errno_of(sc, s) == EADDRNOTAVAIL) if single else r == 0,
                                   'finds an address of a family that is not wanted')


def arguments(sub, prog):
    fn = 'dill_ipaddr_remotes'
    for n in (-2147483648, -1, 0, 1):
        for addr in (0, 1):
            for named in (0, 1):
                if n == 1 and addr and named:
                    continue
                pol, sc, st = scene(sub, prog, 'n = %d, %s array, %s name' % (n, 'an' if addr else 'no', 'a' if named else 'no'))
                pol.answers = {INET: (), INET6: ()}
                name = string(pol, 'name', tok('n', 3)) if named else 0
                p = buffer(pol, 'addrs', 0)
                for s, r in sc.call(st, fn, p if addr else 0, n, name, 80, 0, DEADLINE):
                    expect(pol, sc, fn, 'C37-args', r == -1 and errno_of(sc, s) == EINVAL, 'accepts no array or no name')


def parts(sub, prog):
    """what can be asked of an address"""
    fns = 'dill_ipaddr_family', 'dill_ipaddr_len', 'dill_ipaddr_sockaddr', 'dill_ipaddr_port', 'dill_ipaddr_equal', 'dill_ipaddr_setport', 'dill_ipaddr_str'
    for f in (INET, INET6):
        n = 4 if f == INET else 16
        for port in PORTS:
            pol, sc, st = scene(sub, prog, 'an address of family %d, port %d' % (f, port))
            p = buffer(pol, 'addr', 32)
            a = tok('a', n)
            c36.setaddr(sc.eng, st, p, f, port, a)
            rest = lambda i: datab(p[2], i)
            for fn, want in zip(fns, (f, 16 if f == INET else 28, p, port)):
                for s, r in sc.call(st, fn, p):
                    expect(pol, sc, fn, 'C37-parts', r == want, 'returns %s instead of %s' % (show(r), show(want)))
                    hasaddr(pol, sc, fn, s, p, f, port, a, rest)
            for q in PORTS:
                for s, r in sc.call(st, 'dill_ipaddr_setport', p, q):
                    hasaddr(pol, sc, 'dill_ipaddr_setport', s, p, f, q, a, rest)
            b = buffer(pol, 'text', 46)
            for s, r in sc.call(st, 'dill_ipaddr_str', p, b):
                expect(pol, sc, 'dill_ipaddr_str', 'C37-parts', r == b, 'does not return the text')
                w = c36.text(tuple(a))
                t = [sc.eng.load(s, padd(b, i), 8) for i in range(len(w) + 1)]
                expect(pol, sc, 'dill_ipaddr_str', 'C37-parts', t == w + [0], 'does not give the text of the address')
            # equality: every byte counts, the port on request, nothing else
            p2 = buffer(pol, 'other', 32)
            for f2 in (INET, INET6):
                for q in (port, port ^ 1, port ^ 256):
                    for diff in [None] + list(range(4 if f2 == INET else 16)):
                        st2 = st.copy()
                        a2 = tok('a', 4 if f2 == INET else 16)
                        if f == f2:
                            base = [17 + i for i in range(n)]
                            c36.setaddr(sc.eng, st2, p, f, port, base)
                            a2 = list(base)
                            if diff is not None:
                                a2[diff] ^= 1 << diff % 8
                        c36.setaddr(sc.eng, st2, p2, f2, q, a2)
                        for ig in (0, 1):
                            same = f == f2 and diff is None and (ig or q == port)
                            for s, r in sc.call(st2, 'dill_ipaddr_equal', p, p2, ig):
                                expect(pol, sc, 'dill_ipaddr_equal', 'C37-parts', isinstance(r, int) and (r != 0) == bool(same),
                                       'says %s of addresses that are %s' % (show(r), 'the same' if same else 'different'))


def check(ctx):
    ctx.rule('C37-args', 'a port or mode that does not exist, a missing name or array are refused with an error')
    ctx.rule('C37-address', 'each address has the family, the bytes and the port it should')
    ctx.rule('C37-result', 'exactly the addresses that fit, exist and are of a wanted family are returned, the preferred family first')
    ctx.rule('C37-errno', 'every failure is reported with its error')
    ctx.rule('C37-query', 'the resolver is asked for this name, only for wanted families, and never for a literal')
    ctx.rule('C37-wait', 'waits for the socket of the resolver go in the right direction and carry the deadline')
    ctx.rule('C37-release', 'lists, queries, resolvers and entries are released exactly once and never used afterwards')
    ctx.rule('C37-bounds', 'nothing is stored beyond the array of the caller, nothing at all with bad arguments; no access leaves its object')
    ctx.rule('C37-parts', 'family, length, port, text and equality are those of the address')
    tasks = [(local, k) for k in ('any', 'literal', 'iface')] + [(remotes, m, s) for m in (0, 1, 2, 3, 4) for s in (0, 1)]
    tasks += [(literals, 0), (literals, 1), (arguments,), (parts,)] + [(again, m) for m in range(5)]
    run_wire(ctx, tasks)
    ctx.minimum('obligations', 10000)
