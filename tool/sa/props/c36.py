"""SOCKS5: what is negotiated, asked for and answered, from both sides."""
from props.wire import *
from props.c35 import string, buffer, content, tok, flat

EXPLAIN = """Abstract interpretation of the SOCKS5 calls down to the byte stream underneath, with the peer's bytes taken from a
partition: all versions, methods, commands, address types and reply codes that matter and representatives of the others, names and
credentials of no more than a byte up to the longest and one beyond, every place where the stream may end. Every outcome is
compared with a specification of the negotiation (RFC 1928 and 1929) written down independently: bytes sent, bytes taken, result
and errno. The bytes of names, credentials and addresses are opaque, i.e. the comparison holds for all of them."""
ASSUME = ['inet_pton, inet_ntop and dill_ipaddr_remote are primitives: opaque functions of the bytes they are given',
          'lengths other than those listed behave like their neighbours in the list']

EINVAL, EPROTO, EACCES, EPIPE = 22, 71, 13, 32
ERRS = {1: 5, 2: 13, 3: 101, 4: 113, 5: 111, 6: 110, 7: 95, 8: 97}
INET, INET6 = 2, 10


class P(Wire):
    rule = 'C36'
    blk = 1000
    strict = True
    literal = None          # the host name is an address of this family

    def c_inet_pton(self, eng, st, ins, args, site):
        name = [eng.load(st, padd(args[1], i), 8) for i in range(self.cstrlen(eng, st, ins, args[1]))]
        if st.const(args[0]) != self.literal:
            return [(st, 0)]
        n = 4 if self.literal == INET else 16
        self.bounds(eng, st, args[2], n, ins, 'stores the address in')
        for i in range(n):
            eng.store(st, padd(args[2], i), inb(('address', tuple(name), i)), 8)
        return [(st, 1)]

    def c_inet_ntop(self, eng, st, ins, args, site):
        f, size = st.const(args[0]), st.const(args[3])
        if f not in (INET, INET6) or size is None:
            raise AnalysisBroken('inet_ntop of an unknown family or size')
        a = tuple(eng.load(st, padd(args[1], i), 8) for i in range(4 if f == INET else 16))
        self.bounds(eng, st, args[1], len(a), ins, 'reads')
        w = text(a)
        if size < len(w) + 1:
            eng.set_errno(st, 28)
            return [(st, 0)]
        self.bounds(eng, st, args[2], len(w) + 1, ins, 'stores the address in')
        for i, b in enumerate(w + [0]):
            eng.store(st, padd(args[2], i), b, 8)
        return [(st, args[2])]

    def c_dill_ipaddr_remote(self, eng, st, ins, args, site):
        name = tuple(eng.load(st, padd(args[1], i), 8) for i in range(self.cstrlen(eng, st, ins, args[1])))
        port, mode = st.const(args[2]), st.const(args[3])
        if port is None:
            self.say(eng, st, ins, 'command', 'something that is not the port is taken for it')
            raise Infeasible()
        st.ps['asked'] = name
        out = []
        if self.failures:
            out.append(self.errfork(eng, st, ins, site))
        for f in {1: (INET,), 2: (INET6,)}.get(mode, (INET, INET6)):
            s = st.copy()
            setaddr(eng, s, args[0], f, port, [inb(('resolved', name, i)) for i in range(16)])
            out.append((s, 0))
        return out

    def u_auth(self, eng, st, ins, args, site):
        c = []
        for a in args:
            c.append(tuple(eng.load(st, padd(a, i), 8) for i in range(self.cstrlen(eng, st, ins, a))))
        st.ps['asked'] = tuple(c)
        out = []
        for v in (0, 1, -1):
            s = st.copy()
            s.ps['allowed'] = v != 0
            out.append((s, v))
        return out


def text(a):
    return [inb(('text', a, i)) for i in range(15 if len(a) == 4 else 45)]


def setaddr(eng, st, p, family, port, a):
    eng.store(st, p, family, 16)
    eng.store(st, padd(p, 2), (port & 255) << 8 | port >> 8 & 255, 16)
    for i in range(4 if family == INET else 16):
        eng.store(st, padd(p, (4 if family == INET else 8) + i), a[i], 8)


def getaddr(eng, st, p):
    f = eng.load(st, p, 16)
    v = [eng.load(st, padd(p, 2 + i), 8) for i in range(2)]
    v = [x & 255 if isinstance(x, int) else 0 for x in v]
    return f, v[0] << 8 | v[1], [eng.load(st, padd(p, (4 if f == INET else 8) + i), 8) for i in range(4 if f == INET else 16)]


def scene(sub, prog, text, stream=(), under='bsock', **kw):
    pol = P(sub, prog, stream=list(stream), parts=False, **kw)
    pol.scenario = text
    pol.strs = {}
    sc = Scene(pol)
    return pol, sc, sc.state(under)


def failed(pol, sc, fn, st, r):
    expect(pol, sc, fn, 'failed', r == -1, 'succeeds although a transfer or lookup failed')
    expect(pol, sc, fn, 'failed', r != -1 or errno_of(sc, st) == st.ps['err'], 'does not report the error of the transfer or lookup that failed')


# ---- the specification: a function of the peer's bytes to (result, errno, bytes sent, bytes taken)

class End(Exception):
    pass


class Peer:
    def __init__(self, stream):
        self.s, self.pos, self.out = stream, 0, []

    def take(self, n):
        if self.pos + n > len(self.s):
            raise End()
        self.pos += n
        return self.s[self.pos - n:self.pos]


def message(p):
    """a request or a reply: its second byte, family or name, address, port"""
    v, code, rsv, atyp = p.take(4)
    if v != 5 or rsv != 0 or atyp not in (1, 3, 4):
        return None
    n = {1: 4, 4: 16}.get(atyp)
    if n is None:
        n = p.take(1)[0]
    a = p.take(n)
    hi, lo = p.take(2)
    return code, atyp, a, hi << 8 | lo if isinstance(hi, int) and isinstance(lo, int) else None


def auth_client(p, user, pw):
    both = user is not None and pw is not None
    p.out += [5, 2, 0, 2] if both else [5, 1, 0]
    v, m = p.take(2)
    if v != 5:
        return EPROTO
    if m == 0:
        return 0
    if m == 255:
        return EACCES
    if m != 2 or not both:
        return EPROTO
    p.out += [1, len(user)] + user + [len(pw)] + pw
    v, r = p.take(2)
    return EPROTO if v != 1 else EACCES if r else 0


def spec_client(stream, user, pw, req):
    p = Peer(stream)
    try:
        e = auth_client(p, user, pw)
        if not e:
            p.out += req
            m = message(p)
            e = EPROTO if m is None else ERRS.get(m[0], EPROTO) if m[0] else 0
    except End:
        e = EPIPE
    return e, p.out, p.pos


# ---- the client

USER, PASS = tok('user', 3), tok('pass', 2)
NAME = tok('host', 4)
IP4, IP6 = tok('four', 4), tok('six', 16)
PORTS = (0x1234, 1, 80, 255, 256, 65535)
OKREPLY = [5, 0, 0, 1] + tok('bound', 4) + [9, 9]
REST = tok('rest', 2)


def request(kind, a, port):
    pre = {INET: [1], INET6: [4], None: [3, len(a)]}[kind]
    return [5, 1, 0] + pre + list(a) + [port >> 8 & 255, port & 255]


def client_one(sub, prog, what, stream, user=None, pw=None, kind=INET, name=NAME, port=0x1234, literal=None, failures=False, invalid=False):
    byname = kind is None
    fn = 'dill_socks5_client_connect' + ('byname' if byname else '')
    pol, sc, st = scene(sub, prog, 'client, %s' % what, stream, failures=failures)
    pol.literal = literal
    u = string(pol, 'user', user) if user is not None else 0
    w = string(pol, 'password', pw) if pw is not None else 0
    if byname:
        h = string(pol, 'host', name) if name is not None else 0
        if literal and name is not None:
            a = [inb(('address', tuple(name), i)) for i in range(4 if literal == INET else 16)]
            req = request(literal, a, port)
        else:
            req = request(None, name or [], port)
        args = (5, u, w, h, port, -1)
    else:
        a = IP4 if kind == INET else IP6
        p = buffer(pol, 'address', 32)
        setaddr(sc.eng, st, p, kind, port, a)
        req = request(kind, a, port)
        args = (5, u, w, p if not invalid else 0, -1)
    err, out, pos = spec_client(stream, user, pw, req)
    res = sc.call(st, fn, *args)
    expect(pol, sc, fn, 'client', bool(res), 'does not return')
    for s1, r in res:
        o = flat(s1.ps['out'])
        if s1.ps.get('failed'):
            # (a stream that ends fails, too)
            failed(pol, sc, fn, s1, r)
            expect(pol, sc, fn, 'failed', o == out[:len(o)], 'sends something else than it should')
        elif invalid:
            expect(pol, sc, fn, 'refused', r == -1 and errno_of(sc, s1) == EINVAL, 'an invalid argument is not refused')
            expect(pol, sc, fn, 'refused', len(o) < len(out), 'the request is sent with an invalid argument')
        elif err:
            expect(pol, sc, fn, 'client', r == -1, 'succeeds although the proxy refused or broke the protocol')
            expect(pol, sc, fn, 'client', r != -1 or errno_of(sc, s1) == err, 'reports errno %s, not %d' % (errno_of(sc, s1), err))
            expect(pol, sc, fn, 'client', o == out, 'sends something else than it should')
            expect(pol, sc, fn, 'client', s1.ps['pos'] <= pos, 'takes bytes that do not belong to the negotiation')
        else:
            expect(pol, sc, fn, 'client', r == 0, 'fails although the proxy agreed')
            expect(pol, sc, fn, 'client', o == out, 'sends something else than it should')
            expect(pol, sc, fn, 'client', s1.ps['pos'] == pos, 'takes more or less than the negotiation')
        expect(pol, sc, fn, 'client', s1.ps['closed'] == 0, 'closes the connection')


def client_auth(sub, prog):
    one = lambda *a, **k: client_one(sub, prog, *a, **k)
    for u, w, t in ((None, None, 'no credentials'), (USER, None, 'no password'), (None, PASS, 'no username'), (USER, PASS, 'credentials')):
        for kind in (INET, None):
            for m in (0, 1, 2, 3, 128, 254, 255):
                for v in (5, 4) if m in (0, 2) else (5,):
                    one('%s, method %d chosen in version %d' % (t, m, v), [v, m] + [1, 0] * (m == 2) + OKREPLY + REST, u, w, kind)
            for v in (1, 0, 2, 5):
                for r in (0, 1, 2, 128, 255):
                    one('%s, answered with %d in version %d' % (t, r, v), [5, 2, v, r] + OKREPLY + REST, u, w, kind)
    for n in (1, 2, 127, 128, 254, 255):
        one('username of %d bytes' % n, [5, 2, 1, 0] + OKREPLY, tok('u', n), PASS)
        one('password of %d bytes' % n, [5, 2, 1, 0] + OKREPLY, USER, tok('p', n))
    one('longest credentials', [5, 2, 1, 0] + OKREPLY, tok('u', 255), tok('p', 255))
    for n in (256, 257, 511, 512, 600):
        for kind in (INET, None):
            fn = 'dill_socks5_client_connect' + ('byname' if kind is None else '')
            for u, w in ((tok('u', n), PASS), (USER, tok('p', n)), (tok('u', n), None), (None, tok('p', n))):
                pol, sc, st = scene(sub, prog, 'credentials of %d bytes' % n, [5, 2, 1, 0] + OKREPLY)
                a = [string(pol, 'user', u) if u else 0, string(pol, 'password', w) if w else 0]
                p = buffer(pol, 'address', 32)
                setaddr(sc.eng, st, p, INET, 80, IP4)
                for s1, r in sc.call(st, fn, 5, *a, *((p, -1) if kind else (string(pol, 'host', NAME), 80, -1))):
                    expect(pol, sc, fn, 'refused', r == -1 and errno_of(sc, s1) == EINVAL and s1.ps['out'] == () and s1.ps['pos'] == 0,
                           'credentials that are too long are let through')


def client_connect(sub, prog, kind):
    one = lambda *a, **k: client_one(sub, prog, *a, kind=kind, **k)
    pre = [5, 0]
    for port in PORTS:
        one('port %d' % port, pre + OKREPLY, port=port)
        for l in (INET, INET6) if kind is None else ():
            one('port %d, an address as the name' % port, pre + OKREPLY, port=port, literal=l)
    # the reply
    for code in list(range(12)) + [127, 128, 254, 255]:
        one('reply %d' % code, pre + [5, code, 0, 1] + tok('b', 6) + REST)
    for v, rsv, atyp in ((4, 0, 1), (0, 0, 1), (6, 0, 1), (5, 1, 1), (5, 255, 1), (5, 0, 0), (5, 0, 2), (5, 0, 5), (5, 0, 255)):
        for code in (0, 5):
            one('reply %d with version %d, reserved byte %d, address type %d' % (code, v, rsv, atyp), pre + [v, code, rsv, atyp] + tok('b', 6) + REST)
    for code in (0, 3):
        one('reply %d with an IPv6 address' % code, pre + [5, code, 0, 4] + tok('b', 16) + [1, 2] + REST)
        for n in (0, 1, 2, 127, 128, 253, 254, 255):
            one('reply %d with a name of %d bytes' % (code, n), pre + [5, code, 0, 3, n] + tok('b', n) + [1, 2] + REST)
    # it ends early
    full = pre + [5, 0, 0, 3, 3] + tok('b', 3) + [1, 2]
    for i in range(len(full)):
        one('the stream ends after %d bytes' % i, full[:i])
    full = [5, 2, 1, 0]
    for i in range(len(full)):
        one('the stream ends after %d bytes of the authentication' % i, full[:i], user=USER, pw=PASS)
    # transfers fail
    one('transfers may fail', [5, 2, 1, 0] + OKREPLY, user=USER, pw=PASS, failures=True)
    one('transfers may fail, no credentials', [5, 0] + OKREPLY, failures=True)
    if kind is None:
        for n in (1, 2, 127, 128, 254, 255):
            one('name of %d bytes' % n, pre + OKREPLY, name=tok('h', n))
        for n in (256, 257, 300, 511, 512):
            one('name of %d bytes' % n, pre + OKREPLY, name=tok('h', n), invalid=True)
        for port in (0, -1, 65536, 65537, 131072 + 80, -65536, 2 ** 31 - 1, -2 ** 31):
            for l in (None, INET, INET6):
                one('port %d' % port, pre + OKREPLY, port=port, literal=l, invalid=True)
        one('no name', pre + OKREPLY, name=None, invalid=True)
    else:
        one('no address', pre + OKREPLY, invalid=True)


# ---- the proxy

def spec_auth(stream, fn, allowed):
    """(result, errno), bytes sent, bytes taken, what was asked"""
    p = Peer(stream)
    asked = None
    try:
        v, n = p.take(2)
        if v != 5:
            return EPROTO, p.out, p.pos, None
        ms = p.take(n)
        if not fn and 0 in ms:
            p.out += [5, 0]
            return 0, p.out, p.pos, None
        if not fn or 2 not in ms:
            p.out += [5, 255]
            return EACCES, p.out, p.pos, None
        p.out += [5, 2]
        v, n = p.take(2)
        if v != 1:
            return EPROTO, p.out, p.pos, None
        u = p.take(n)
        w = p.take(p.take(1)[0])
        asked = (tuple(u), tuple(w))
        p.out += [1, 0] if allowed else [1, 'no']
        return 0 if allowed else EACCES, p.out, p.pos, asked
    except End:
        return EPIPE, p.out, p.pos, asked


def proxy_auth_one(sub, prog, what, stream, fn, failures=False):
    f = 'dill_socks5_proxy_auth'
    pol, sc, st = scene(sub, prog, 'proxy, %s, %s' % (what, 'with authentication' if fn else 'without authentication'), stream, failures=failures)
    res = sc.call(st, f, 5, shape('fn:auth') if fn else 0, -1)
    expect(pol, sc, f, 'auth', bool(res), 'does not return')
    for s1, r in res:
        err, out, pos, asked = spec_auth(stream, fn, s1.ps.get('allowed'))
        o = flat(s1.ps['out'])
        # any status but 0 refuses the credentials
        if out[-2:] == [1, 'no'] and len(o) == len(out) and o[-1] != 0:
            out = out[:-1] + [o[-1]]
        got = s1.ps.get('asked')
        expect(pol, sc, f, 'auth', asked is None or got in (None, asked), 'the credentials shown to the application are not those received')
        if s1.ps.get('failed'):
            failed(pol, sc, f, s1, r)
            expect(pol, sc, f, 'failed', o == out[:len(o)], 'sends something else than it should')
            continue
        expect(pol, sc, f, 'auth', asked is None or got == asked, 'the application is not asked')
        expect(pol, sc, f, 'auth', asked is not None or got is None, 'the application is asked about nothing')
        if err:
            expect(pol, sc, f, 'auth', r == -1, 'a client that must be refused is let through')
            expect(pol, sc, f, 'auth', r != -1 or errno_of(sc, s1) == err, 'reports errno %s, not %d' % (errno_of(sc, s1), err))
        else:
            expect(pol, sc, f, 'auth', r == 0, 'a client that must be let through is refused')
        expect(pol, sc, f, 'auth', o == out, 'answers something else than it should')
        expect(pol, sc, f, 'auth', s1.ps['pos'] <= pos and (err or s1.ps['pos'] == pos), 'takes more or less than the negotiation')
        expect(pol, sc, f, 'auth', s1.ps['closed'] == 0, 'closes the connection')


def proxy_auth(sub, prog):
    import itertools
    one = lambda *a, **k: proxy_auth_one(sub, prog, *a, **k)
    creds = [1, 3] + USER + [2] + PASS
    for fn in (False, True):
        for n in range(4):
            for ms in itertools.product((0, 1, 2) if n == 3 else (0, 1, 2, 255), repeat=n):
                one('methods %s' % list(ms), [5, n] + list(ms) + creds + REST, fn)
        for n in (127, 128, 254, 255):
            for at in (0, n - 1, n // 2):
                for m in (0, 2):
                    ms = [7] * n
                    ms[at] = m
                    one('%d methods, %d at place %d' % (n, m, at), [5, n] + ms + creds + REST, fn)
        for v in (0, 1, 4, 6, 255):
            one('version %d' % v, [v, 2, 0, 2] + creds, fn)
        full = [5, 2, 0, 2] + creds
        for i in range(len(full)):
            one('the stream ends after %d bytes' % i, full[:i], fn)
        one('transfers may fail', full, fn, failures=True)
        one('transfers may fail, no method', [5, 2, 7, 8], fn, failures=True)
    for v in (0, 2, 5, 255):
        one('credentials in version %d' % v, [5, 1, 2, v] + creds[1:], True)
    for n in (0, 1, 127, 128, 254, 255):
        for k in (0, 1, 255):
            one('username of %d bytes, password of %d' % (n, k), [5, 1, 2, 1, n] + tok('u', n) + [k] + tok('p', k) + REST, True)
            one('username of %d bytes, password of %d' % (k, n), [5, 1, 2, 1, k] + tok('u', k) + [n] + tok('p', n) + REST, True)


def spec_command(stream):
    p = Peer(stream)
    try:
        m = message(p)
        return EPROTO if m is None or not 1 <= m[0] <= 3 else 0, m, p.pos
    except End:
        return EPIPE, None, p.pos


def command_one(sub, prog, what, stream, byname, failures=False):
    fn = 'dill_socks5_proxy_recvcommand' + ('byname' if byname else '')
    pol, sc, st = scene(sub, prog, 'proxy, %s' % what, stream, failures=failures)
    err, m, pos = spec_command(stream)
    b = buffer(pol, 'host', 256) if byname else buffer(pol, 'address', 32)
    pp = buffer(pol, 'port', 4)
    res = sc.call(st, fn, 5, b, pp, -1) if byname else sc.call(st, fn, 5, b, -1)
    expect(pol, sc, fn, 'command', bool(res), 'does not return')
    for s1, r in res:
        expect(pol, sc, fn, 'command', s1.ps['out'] == () and s1.ps['closed'] == 0, 'sends something or closes the connection')
        if s1.ps.get('failed'):
            failed(pol, sc, fn, s1, r)
            continue
        if err:
            expect(pol, sc, fn, 'command', r == -1, 'a malformed command is accepted')
            expect(pol, sc, fn, 'command', r != -1 or errno_of(sc, s1) == err, 'reports errno %s, not %d' % (errno_of(sc, s1), err))
            expect(pol, sc, fn, 'command', s1.ps['pos'] <= pos, 'takes bytes that do not belong to the command')
            continue
        code, atyp, a, port = m
        expect(pol, sc, fn, 'command', r == code, 'the command is not the one received')
        expect(pol, sc, fn, 'command', s1.ps['pos'] == pos, 'takes more or less than the command')
        if byname:
            expect(pol, sc, fn, 'command', content(sc, s1, b, 256) == (list(a) if atyp == 3 else text(tuple(a))), 'the host is not the one received')
            v = [sc.eng.load(s1, padd(pp, i), 8) for i in range(4)]
            expect(pol, sc, fn, 'command', all(isinstance(x, int) for x in v) and sum((x & 255) << 8 * i for i, x in enumerate(v)) == port, 'the port is not the one received')
        else:
            f, p, g = getaddr(sc.eng, s1, b)
            expect(pol, sc, fn, 'command', p == port, 'the port is not the one received')
            if atyp == 3:
                expect(pol, sc, fn, 'command', s1.ps.get('asked') == tuple(a) and g == [inb(('resolved', tuple(a), i)) for i in range(len(g))],
                       'the address is not that of the name received')
            else:
                expect(pol, sc, fn, 'command', f == {1: INET, 4: INET6}[atyp] and g == list(a), 'the address is not the one received')


def command(sub, prog, byname):
    one = lambda *a, **k: command_one(sub, prog, *a, byname, **k)
    v4, v6 = [1] + IP4, [4] + IP6
    for c in (1, 2, 3, 0, 4, 5, 127, 128, 255):
        for a in (v4, v6, [3, 4] + NAME):
            one('command %d, address type %d' % (c, a[0]), [5, c, 0] + a + [0x12, 0x34] + REST)
    for p in ((0, 80), (0, 255), (1, 0), (255, 255), (127, 128), (128, 127), (0, 0)):
        for a in (v4, v6, [3, 4] + NAME):
            one('port %d, address type %d' % (p[0] << 8 | p[1], a[0]), [5, 1, 0] + a + list(p))
    for n in (1, 2, 3, 127, 128, 253, 254, 255):
        one('name of %d bytes' % n, [5, 1, 0, 3, n] + tok('h', n) + [0x12, 0x34] + REST)
    for v, rsv, atyp in ((4, 0, 1), (0, 0, 1), (1, 0, 3), (6, 0, 4), (5, 1, 1), (5, 255, 3), (5, 0, 0), (5, 0, 2), (5, 0, 5), (5, 0, 255)):
        one('version %d, reserved byte %d, address type %d' % (v, rsv, atyp), [v, 1, rsv, atyp] + [4] + NAME + tok('b', 20))
    for a in (v4, v6, [3, 4] + NAME):
        full = [5, 1, 0] + a + [1, 2]
        for i in range(len(full)):
            one('the stream ends after %d bytes' % i, full[:i])
        one('transfers may fail', full, failures=True)


def reply(sub, prog):
    fn = 'dill_socks5_proxy_sendreply'
    for kind, a in ((INET, IP4), (INET6, IP6), (1, IP4), (0, IP4)):
        for port in PORTS[:4] + (0, 65535):
            for code in list(range(9)) + [-1, 9, 10, 255, 256, -256, 2 ** 31 - 1]:
                pol, sc, st = scene(sub, prog, 'reply %d, port %d, family %d' % (code, port, kind), REST)
                p = buffer(pol, 'address', 32)
                setaddr(sc.eng, st, p, kind, port, a + [0] * 12)
                for s1, r in sc.call(st, fn, 5, code, p, -1):
                    if not 0 <= code <= 8 or kind not in (INET, INET6):
                        expect(pol, sc, fn, 'refused', r == -1 and errno_of(sc, s1) == EINVAL and s1.ps['out'] == (), 'an invalid argument is not refused')
                    else:
                        o = [5, code, 0, 1 if kind == INET else 4] + a + [port >> 8, port & 255]
                        expect(pol, sc, fn, 'reply', r == 0 and flat(s1.ps['out']) == o and s1.ps['pos'] == 0, 'not exactly the reply is sent')
    pol, sc, st = scene(sub, prog, 'a reply that may fail to be sent', failures=True)
    p = buffer(pol, 'address', 32)
    setaddr(sc.eng, st, p, INET, 80, IP4)
    for s1, r in sc.call(st, fn, 5, 0, p, -1):
        expect(pol, sc, fn, 'failed', r == (-1 if s1.ps.get('failed') else 0), 'the result is not that of the transfer')


def wrong(sub, prog):
    """the socket is not a byte stream"""
    for fn in ('client_connect', 'client_connectbyname', 'proxy_auth', 'proxy_recvcommand', 'proxy_recvcommandbyname', 'proxy_sendreply'):
        fn = 'dill_socks5_' + fn
        for h in (5, 9, -1):
            pol, sc, st = scene(sub, prog, 'handle %d is no byte stream' % h, [5, 0] + OKREPLY, under='msock')
            p = buffer(pol, 'address', 32)
            setaddr(sc.eng, st, p, INET, 80, IP4)
            a = {'client_connect': (0, 0, p, -1), 'client_connectbyname': (0, 0, string(pol, 'host', NAME), 80, -1), 'proxy_auth': (0, -1),
                 'proxy_recvcommand': (p, -1), 'proxy_recvcommandbyname': (buffer(pol, 'host', 256), buffer(pol, 'port', 4), -1),
                 'proxy_sendreply': (0, p, -1)}[fn[12:]]
            for s1, r in sc.call(st, fn, h, *a):
                expect(pol, sc, fn, 'wrong', r == -1 and s1.ps['io'] == 0, 'goes on with a socket that is no byte stream')


def tasks(ctx):
    return [(client_auth,), (client_connect, INET), (client_connect, INET6), (client_connect, None), (proxy_auth,),
            (command, False), (command, True), (reply,), (wrong,)]


def check(ctx):
    for r, t in (('client', 'the client offers what it can do, sends credentials only if both are given and the proxy asks for them, asks for exactly the address or name and port given, and reports success only if the proxy did, errors by the errno that belongs to the reply'),
                 ('auth', 'the proxy lets a client through without authentication only if it asks for none, otherwise only if the application agrees to the credentials received'),
                 ('command', 'a command yields exactly its code, address or name, and port; a malformed one is EPROTO'),
                 ('reply', 'exactly the reply is sent'), ('refused', 'invalid arguments are refused with EINVAL before they reach the wire'),
                 ('failed', 'a failed transfer makes the call fail'), ('wrong', 'a socket that is no byte stream is refused'),
                 ('C36-*', 'no access beyond buffers, no failing assertion, no undefined value on the way')):
        ctx.rule(r, t)
    run_wire(ctx, tasks(ctx))
    ctx.minimum('obligations', 1000)
