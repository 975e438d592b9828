"""HTTP messages and the WebSocket handshake are formed and understood as specified."""
from props.wire import *

EXPLAIN = """Abstract interpretation of the HTTP calls and the WebSocket handshake down to the byte stream underneath. Lines
received are taken from a partition: all sequences of up to four of the classes 'blank', 'colon' and 'other character' (which is
opaque: equal to nothing but itself) in every place a line has, buffers just large enough and one byte too small. The result is
compared with the grammar. What is sent is compared byte by byte with the arguments. The handshake is interpreted as a whole,
with every header left out, repeated, wrong, or written in another case; the accept key is an uninterpreted function of the
key."""
ASSUME = ['tokens of one to three opaque characters stand for all tokens', 'the accept key is a function of the key (its algorithm is not analysed)']

EINVAL, EPROTO, EMSGSIZE, EPIPE = 22, 71, 90, 32
CRLF = [13, 10]
SP, COLON = 32, 58
VERSION = list(b'HTTP/1.1')


class P(Wire):
    rule = 'C35'

    # the key is opaque, and so is what is made of it
    def c_dill_ws_request_key(self, eng, st, ins, args, site):
        n = st.ps.get('keys', 0)
        st.ps['keys'] = n + 1
        self.bounds(eng, st, args[0], 25, ins, 'stores the key in')
        for i in range(25):
            eng.store(st, padd(args[0], i), ('s', 'ret', 'in', ('key', n, i), 8) if i < 24 else 0, 8)
        return [(st, 0)] + ([self.errfork(eng, st, ins, site)] if self.failures else [])

    def c_dill_ws_response_key(self, eng, st, ins, args, site):
        k = tuple(eng.load(st, padd(args[0], i), 8) for i in range(self.cstrlen(eng, st, ins, args[0])))
        if len(k) != 24:
            return [self.errfork(eng, st, ins, site, EPROTO)]
        self.bounds(eng, st, args[1], 29, ins, 'stores the key in')
        for i, b in enumerate(answer(k) + [0]):
            eng.store(st, padd(args[1], i), b, 8)
        return [(st, 0)] + ([self.errfork(eng, st, ins, site)] if self.failures else [])


def answer(key):
    return [('s', 'ret', 'in', ('answer', tuple(key), i), 8) for i in range(28)]


def tok(name, n):
    """n opaque characters"""
    return [inb((name, i)) for i in range(n)]


def scene(sub, prog, text, stream=(), cls=None, **kw):
    pol = (cls or P)(sub, prog, stream=list(stream), parts=False, **kw)
    pol.scenario = text
    pol.strs = {}
    sc = Scene(pol)
    st = sc.state('bsock')
    return pol, sc, st


def http(sub, prog, text, stream=(), **kw):
    pol, sc, st = scene(sub, prog, text, stream, **kw)
    f, pol.failures = pol.failures, False
    st, s = sc.one(st, 'dill_http_attach_mem', 5, shape('mem'))
    pol.failures = f
    st.ps.update(io=0, out=(), pos=0)
    return pol, sc, st, s


def string(pol, name, chars):
    pol.strs['str' + name] = list(chars)
    pol.size[shape('str' + name)] = len(chars) + 1
    pol.ro.add(shape('str' + name))
    return shape('str' + name)


def buffer(pol, name, n):
    b = shape('buf' + name)
    pol.size[b] = n
    return b


def content(sc, st, b, n):
    """the string in a buffer, or None"""
    out = []
    for i in range(n):
        v = sc.eng.load(st, padd(b, i), 8)
        if v == 0:
            return out
        out.append(v & 255 if isinstance(v, int) else v)
    return None


def flat(t):
    return [x & 255 if isinstance(x, int) else x for x in t]


def words(name, depth):
    """sequences of blanks, colons and opaque characters"""
    import itertools
    for n in range(depth + 1):
        for w in itertools.product(' :x', repeat=n):
            yield [SP if c == ' ' else COLON if c == ':' else inb((name, i)) for i, c in enumerate(w)], ''.join(w)


def split_blanks(line):
    out, cur = [], None
    for c in line:
        if c == SP:
            cur = None
        else:
            if cur is None:
                cur = []
                out.append(cur)
            cur.append(c)
    return out


def stripped(line):
    a, b = 0, len(line)
    while a < b and line[a] == SP:
        a += 1
    while b > a and line[b - 1] == SP:
        b -= 1
    return list(line[a:b])


# ---- received lines

def request(sub, prog, part):
    fn = 'dill_http_recvrequest'
    lines = []
    for w, t in words('w', 4):
        if part == 0:
            lines.append((w + [SP] + VERSION, '%s HTTP/1.1' % t))
        elif part == 1:
            lines.append((tok('c', 2) + [SP] + tok('r', 2) + w, 'xx xx%s' % t))
        else:
            lines.append((tok('c', 1) + [SP] + tok('r', 3) + w + VERSION, 'x xxx%sHTTP/1.1' % t))
    if part == 2:
        head = tok('c', 3) + [SP] + tok('r', 1) + [SP]
        for v in (b'HTTP/1.0', b'http/1.1', b'HTTP/1.', b'HTTP/1.11', b'HTTP', b'', b' HTTP/1.1 ', b'HTTP/1.1 x', b'HTTP/1.1  '):
            lines.append((head + list(v), 'xxx x %s' % v.decode()))
    for line, text in lines:
        ps = split_blanks(line)
        good = len(ps) == 3 and ps[2] == VERSION
        a, b = (len(ps[0]), len(ps[1])) if good else (4, 4)
        for dc, dr in ((1, 1), (0, 1), (1, 0)) if good else ((1, 1),):
            nc, nr = a + dc, b + dr
            pol, sc, st, s = http(sub, prog, 'request line "%s", buffers of %d and %d bytes' % (text, nc, nr), line + CRLF)
            bc, br = buffer(pol, 'command', nc), buffer(pol, 'resource', nr)
            out = sc.call(st, fn, s, bc, nc, br, nr, -1)
            expect(pol, sc, fn, 'request', bool(out), 'does not return')
            for s1, r in out:
                if not good:
                    expect(pol, sc, fn, 'request', r == -1 and errno_of(sc, s1) in (EPROTO, EMSGSIZE), 'a malformed request line is accepted')
                elif dc and dr:
                    expect(pol, sc, fn, 'request', r == 0, 'a well-formed request line is refused')
                    expect(pol, sc, fn, 'request', r != 0 or content(sc, s1, bc, nc) == ps[0] and content(sc, s1, br, nr) == ps[1], 'command or resource is not what was received')
                else:
                    expect(pol, sc, fn, 'toolong', r == -1 and errno_of(sc, s1) == EMSGSIZE, 'a part that does not fit is not refused with EMSGSIZE')
                expect(pol, sc, fn, 'consumed', s1.ps['pos'] == len(line) + 2, 'not exactly one line is taken')


def status(sub, prog, part):
    fn = 'dill_http_recvstatus'
    lines = []
    if part == 0:
        for w, t in words('w', 4):
            lines.append((VERSION + [SP] + list(b'204') + w, 'HTTP/1.1 204%s' % t))
    else:
        for code in (b'100', b'101', b'200', b'404', b'599', b'999', b'019', b'20', b'2000', b'2a0', b'/00', b'0:0', b'99:', b'-10', b''):
            for pre, post in ((b'', b' '), (b' ', b'  '), (b'  ', b' ')):
                lines.append((list(pre) + VERSION + [SP] + list(pre) + list(code) + list(post) + tok('r', 2),
                              '%sHTTP/1.1 %s%s%sxx' % (pre.decode(), pre.decode(), code.decode(), post.decode())))
        for v in (b'HTTP/1.0', b'HTTP/1.', b'HTTP/1.11', b'xTTP/1.1', b''):
            lines.append((list(v) + list(b' 200 ') + tok('r', 1), '%s 200 x' % v.decode()))
        for w in (b'HTTP/1.1', b'HTTP/1.1 ', b'', b' ', b'200'):
            lines.append((list(w), w.decode()))
    for line, text in lines:
        ps = split_blanks(line)
        good = len(ps) >= 2 and ps[0] == VERSION and len(ps[1]) == 3 and all(isinstance(c, int) and 48 <= c <= 57 for c in ps[1])
        unspec = False
        reason = []
        if good:
            # after the code
            i = 0
            for p in ps[:2]:
                while line[i] == SP:
                    i += 1
                i += len(p)
            unspec = i == len(line)             # the blank after the code is missing
            code = int(bytes(ps[1]))
            unspec = unspec or not 100 <= code <= 599
            rest = line[i:]
            while rest and rest[0] == SP:
                rest = rest[1:]
            reason = rest
        if unspec:
            continue
        for n in ((len(reason) + 1, len(reason)) if good else (8,)):
            pol, sc, st, s = http(sub, prog, 'status line "%s", buffer of %d bytes' % (text, n), line + CRLF)
            b = buffer(pol, 'reason', n)
            out = sc.call(st, fn, s, b, n, -1)
            expect(pol, sc, fn, 'status', bool(out), 'does not return')
            for s1, r in out:
                if not good:
                    expect(pol, sc, fn, 'status', r == -1 and errno_of(sc, s1) in (EPROTO, EPIPE)[:2 - bool(line)], 'a malformed status line is accepted')
                elif n > len(reason):
                    expect(pol, sc, fn, 'status', r == code, 'the status is not the one received')
                    c = content(sc, s1, b, n)
                    expect(pol, sc, fn, 'status', r == -1 or c is not None and (c == reason or c == stripped(reason)), 'the reason is not what was received')
                elif not stripped(reason) == reason:
                    continue
                else:
                    expect(pol, sc, fn, 'toolong', r == -1 and errno_of(sc, s1) == EMSGSIZE, 'a reason that does not fit is not refused with EMSGSIZE')
                expect(pol, sc, fn, 'consumed', s1.ps['pos'] == len(line) + 2, 'not exactly one line is taken')


def field(sub, prog, part):
    fn = 'dill_http_recvfield'
    lines = []
    for w, t in words('w', 4):
        if part == 0:
            lines.append((w, t))
        elif part == 1:
            lines.append((tok('n', 2) + [COLON] + w, 'xx:%s' % t))
        elif part == 2:
            lines.append((tok('n', 1) + [COLON, SP] + tok('v', 2) + w, 'x: xx%s' % t))
    for line, text in lines:
        name, sep, value = None, COLON in line, None
        if sep:
            i = line.index(COLON)
            name, value = line[:i], stripped(line[i + 1:])
        if sep and (not stripped(name) or stripped(name) != name and split_blanks(name) == [stripped(name)]):
            continue        # nameless, or blanks around the name: not specified
        good = sep and SP not in name
        for dn, dv in ((1, 1), (0, 1), (1, 0)) if good else ((1, 1),):
            nn, nv = (len(name) + dn, len(value) + dv) if good else (6, 6)
            pol, sc, st, s = http(sub, prog, 'header line "%s", buffers of %d and %d bytes' % (text, nn, nv), line + CRLF)
            bn, bv = buffer(pol, 'name', nn), buffer(pol, 'value', nv)
            out = sc.call(st, fn, s, bn, nn, bv, nv, -1)
            expect(pol, sc, fn, 'field', bool(out), 'does not return')
            for s1, r in out:
                if not line:
                    expect(pol, sc, fn, 'end', r == -1 and errno_of(sc, s1) == EPIPE, 'the empty line is not reported as the end')
                elif not good:
                    expect(pol, sc, fn, 'field', r == -1 and errno_of(sc, s1) == EPROTO, 'a malformed header line is accepted')
                elif dn and dv:
                    expect(pol, sc, fn, 'field', r == 0, 'a well-formed header line is refused')
                    expect(pol, sc, fn, 'field', r != 0 or content(sc, s1, bn, nn) == name, 'the name is not what was received')
                    expect(pol, sc, fn, 'field', r != 0 or content(sc, s1, bv, nv) == value, 'the value is not what was received without the blanks around it')
                else:
                    expect(pol, sc, fn, 'toolong', r == -1 and errno_of(sc, s1) == EMSGSIZE, 'a part that does not fit is not refused with EMSGSIZE')
                expect(pol, sc, fn, 'consumed', s1.ps['pos'] == len(line) + 2, 'not exactly one line is taken')


# ---- sent lines

def send(sub, prog):
    for i, (cmd, res) in enumerate(((tok('c', 3), tok('r', 2)), (tok('c', 1), tok('r', 1)), (tok('c', 1) + [SP], tok('r', 1)), (tok('c', 1), [SP] + tok('r', 1)),
                                    (tok('c', 1) + [9], tok('r', 1)), (tok('c', 1), [10] + tok('r', 1)), (tok('c', 1) + [10], tok('r', 1)), (tok('c', 2), tok('r', 1) + [9]))):
        fn = 'dill_http_sendrequest'
        pol, sc, st, s = http(sub, prog, 'sending request %d' % i)
        a, b = string(pol, 'command', cmd), string(pol, 'resource', res)
        bad = any(isinstance(c, int) for c in cmd + res)
        for s1, r in sc.call(st, fn, s, a, b, -1):
            if bad:
                expect(pol, sc, fn, 'refused', r == -1 and errno_of(sc, s1) == EINVAL and s1.ps['out'] == (), 'blanks or line ends in command or resource are let through')
            else:
                expect(pol, sc, fn, 'sent', r == 0 and flat(s1.ps['out']) == cmd + [SP] + res + [SP] + VERSION + CRLF, 'not the request line is sent')
    for code in (99, 100, 101, 200, 209, 290, 599, 600, 0, -1, 1000):
        fn = 'dill_http_sendstatus'
        pol, sc, st, s = http(sub, prog, 'sending status %d' % code)
        reason = tok('r', 2) + [SP] + tok('q', 1)
        for s1, r in sc.call(st, fn, s, code, string(pol, 'reason', reason), -1):
            if not 100 <= code <= 599:
                expect(pol, sc, fn, 'refused', r == -1 and errno_of(sc, s1) == EINVAL and s1.ps['out'] == (), 'a status out of range is let through')
            else:
                expect(pol, sc, fn, 'sent', r == 0 and flat(s1.ps['out']) == VERSION + [SP] + list(b'%d' % code) + [SP] + reason + CRLF, 'not the status line is sent')
    fn = 'dill_http_sendfield'
    for name in (tok('n', 1), tok('n', 3)):
        for pre in (0, 1, 2):
            for post in (0, 1, 2):
                for mid in ([], [SP], [COLON], [SP, SP]):
                    value = [SP] * pre + tok('v', 1) + mid + tok('w', 1) + [SP] * post
                    pol, sc, st, s = http(sub, prog, 'sending a field with %d blanks before and %d after its value' % (pre, post))
                    for s1, r in sc.call(st, fn, s, string(pol, 'name', name), string(pol, 'value', value), -1):
                        expect(pol, sc, fn, 'sent', r == 0 and flat(s1.ps['out']) == name + [COLON, SP] + stripped(value) + CRLF, 'not the header line is sent')
    for n in (0, 1, 2, 3):
        pol, sc, st, s = http(sub, prog, 'sending a field with a value of %d blanks' % n)
        for s1, r in sc.call(st, fn, s, string(pol, 'name', tok('n', 1)), string(pol, 'value', [SP] * n), -1):
            expect(pol, sc, fn, 'refused', r == -1 and errno_of(sc, s1) in (EPROTO, EINVAL) and s1.ps['out'] == (), 'a field without a value is let through')
    for c in b'(),/:;<=>?@[\\]{}" \t\n':
        for name in ([c], tok('n', 1) + [c], [c] + tok('n', 1), tok('n', 1) + [c] + tok('m', 1)):
            pol, sc, st, s = http(sub, prog, 'sending a field with %r in its name' % chr(c))
            for s1, r in sc.call(st, fn, s, string(pol, 'name', name), string(pol, 'value', tok('v', 1)), -1):
                expect(pol, sc, fn, 'refused', r == -1 and errno_of(sc, s1) == EINVAL and s1.ps['out'] == (), 'a separator in the name is let through')
    # the end of a message
    for fn, args in (('dill_http_done', (-1,)), ('dill_http_detach', (-1,))):
        pol, sc, st, s = http(sub, prog, 'ending the message', CRLF + tok('z', 3))
        for s1, r in sc.call(st, fn, s, *args):
            expect(pol, sc, fn, 'end', r >= 0 and flat(s1.ps['out']) == CRLF, 'the end is not exactly one empty line')
            if fn == 'dill_http_detach':
                expect(pol, sc, fn, 'end', s1.ps['pos'] == 2 and s1.ps['closed'] == 0 and r in dict(s1.ps['h']), 'does not hand the connection back right after the empty line')
            else:
                for s2, r2 in sc.call(s1, 'dill_http_detach', s, -1):
                    expect(pol, sc, fn, 'end', r2 >= 0 and flat(s2.ps['out']) == CRLF and s2.ps['pos'] == 2, 'the end is sent or received twice')
    # the lines after one another
    pol, sc, st, s = http(sub, prog, 'several lines', tok('n', 1) + [COLON] + tok('v', 1) + CRLF + tok('N', 2) + [COLON] + tok('V', 2) + CRLF + CRLF)
    fn = 'dill_http_recvfield'
    for k, (n, v) in enumerate(((tok('n', 1), tok('v', 1)), (tok('N', 2), tok('V', 2)), (None, None))):
        a, b = buffer(pol, 'n%d' % k, 3), buffer(pol, 'v%d' % k, 3)
        nxt = None
        for s1, r in sc.call(st, fn, s, a, 3, b, 3, -1):
            if n is None:
                expect(pol, sc, fn, 'end', r == -1 and errno_of(sc, s1) == EPIPE, 'the empty line is not reported as the end')
            else:
                expect(pol, sc, fn, 'field', r == 0 and content(sc, s1, a, 3) == n and content(sc, s1, b, 3) == v, 'line %d of several is not received as it was sent' % (k + 1))
            nxt = s1
        if nxt is None:
            break
        st = nxt


# ---- the handshake

KEY = [inb(('peerkey', i)) for i in range(24)]
HOST = tok('host', 3)
RES = tok('res', 3)


def line(name, value, sep=b': '):
    return list(name if isinstance(name, (list, bytes)) else name.encode()) + list(sep) + list(value) + CRLF


SERVER = [('Host', HOST), ('Upgrade', b'websocket'), ('Connection', b'Upgrade'), ('Sec-WebSocket-Key', KEY), ('Sec-WebSocket-Version', b'13'), ('X-other', tok('o', 2))]
NEED = {'Upgrade': b'http/2.0', 'Connection': b'close', 'Sec-WebSocket-Key': KEY[:20], 'Sec-WebSocket-Version': b'12'}


def lines_of(out):
    """what was sent, cut into lines"""
    res, cur, i = [], [], 0
    while i < len(out):
        if out[i:i + 2] == CRLF:
            res.append(cur)
            cur = []
            i += 2
        else:
            cur.append(out[i])
            i += 1
    return res, cur


def server_one(sub, prog, text, fields, ok, first=None, hostlen=None, reslen=None, err=(EPROTO,)):
    fn = 'dill_ws_attach_server_mem'
    head = first if first is not None else list(b'GET ') + RES + [SP] + VERSION
    stream = head + CRLF
    for n, v in fields:
        stream += line(n, v)
    stream += CRLF
    pol, sc, st = scene(sub, prog, 'server, %s' % text, stream + [inb('frame')])
    nr, nh = len(RES) + 1 if reslen is None else reslen, len(HOST) + 1 if hostlen is None else hostlen
    br, bh = buffer(pol, 'resource', nr), buffer(pol, 'host', nh)
    out = sc.call(st, fn, 5, 0, br, nr, bh, nh, shape('mem'), -1)
    expect(pol, sc, fn, 'server', bool(out), 'does not return')
    for s1, r in out:
        if not ok:
            expect(pol, sc, fn, 'server', r == -1 and errno_of(sc, s1) in err, 'the handshake succeeds')
            ls, rest = lines_of(flat(s1.ps['out']))
            expect(pol, sc, fn, 'server', not any(l[:12] == list(b'HTTP/1.1 101') for l in ls), 'the refused handshake is confirmed')
            continue
        if not expect(pol, sc, fn, 'server', isinstance(r, int) and r >= 0, 'the handshake is refused'):
            continue
        expect(pol, sc, fn, 'server', content(sc, s1, br, nr) == RES, 'the resource is not the one requested')
        if any(n.lower() == 'host' for n, v in fields):
            expect(pol, sc, fn, 'server', content(sc, s1, bh, nh) == HOST, 'the host is not the one requested')
        expect(pol, sc, fn, 'server', s1.ps['pos'] == len(stream), 'takes more or less than the request')
        ls, rest = lines_of(flat(s1.ps['out']))
        expect(pol, sc, fn, 'server', rest == [] and ls and ls[-1] == [] and ls[0][:13] == list(b'HTTP/1.1 101 '), 'the answer is not a response with status 101')
        fs = {}
        for l in ls[1:-1]:
            n, v = (l[:l.index(COLON)], stripped(l[l.index(COLON) + 1:])) if COLON in l else (l, None)
            fs.setdefault(bytes(n).decode().lower() if all(isinstance(c, int) for c in n) else '?', []).append(v)
        low = lambda v: bytes(v).lower() if v is not None and all(isinstance(c, int) for c in v) else v
        expect(pol, sc, fn, 'server', [low(v) for v in fs.get('upgrade', [])] == [b'websocket'] and [low(v) for v in fs.get('connection', [])] == [b'upgrade'], 'the answer does not say that the protocol changes')
        expect(pol, sc, fn, 'server', fs.get('sec-websocket-accept') == [answer(KEY)], 'the accept key is not the one that belongs to the key')
        expect(pol, sc, fn, 'server', '?' not in fs, 'a field of the answer is not a constant')


def server(sub, prog, part):
    S = SERVER
    one = lambda *a, **k: server_one(sub, prog, *a, **k)
    if part == 0:
        one('everything right', S, True)
        one('fields in another order', S[::-1], True)
        one('names in upper case', [(n.upper(), v) for n, v in S], True)
        one('names in lower case', [(n.lower(), v) for n, v in S], True)
        one('values in another case', [(n, v.swapcase() if isinstance(v, bytes) else v) for n, v in S], True)
        one('no other field', S[:-1], True)
        one('blanks after the values', [(n, list(v) + [SP]) for n, v in S], True)
    elif part == 1:
        for n in NEED:
            one('without %s' % n, [f for f in S if f[0] != n], False)
            one('with two %s' % n, S + [f for f in S if f[0] == n], False)
            one('with two different %s' % n, S + [(n, KEY[::-1])], False)
            one('with a wrong %s' % n, [(f[0], NEED[n]) if f[0] == n else f for f in S], False)
            one('with an unknown %s' % n, [(f[0], tok('q', 3)) if f[0] == n else f for f in S], False)
    else:
        one('with two hosts', S + [S[0]], False)
        one('nothing but the request', [], False)
        one('the method is not GET', S, False, first=list(b'PUT ') + RES + [SP] + VERSION)
        one('the method is an unknown one', S, False, first=tok('m', 3) + [SP] + RES + [SP] + VERSION)
        one('the method goes on after GET', S, False, first=list(b'GETX ') + RES + [SP] + VERSION)
        one('another version of HTTP', S, False, first=list(b'GET ') + RES + list(b' HTTP/1.0'))
        one('no resource', S, False, first=list(b'GET HTTP/1.1'))
        one('a buffer for the resource that is too small', S, False, reslen=len(RES), err=(EMSGSIZE,))
        one('a buffer for the host that is too small', S, False, hostlen=len(HOST), err=(EMSGSIZE,))
        one('a host of no length', [('Host', b'')] + S[1:], False, hostlen=0, err=(EMSGSIZE,))
        one('a name that is a part of Upgrade', [('Upgrad', b'websocket')] + [f for f in S if f[0] != 'Upgrade'], False)
        one('a value that goes on after websocket', [(n, b'websockets') if n == 'Upgrade' else (n, v) for n, v in S], False)
        one('a value that goes on after 13', [(n, b'130') if n.endswith('Version') else (n, v) for n, v in S], False)


OWN = [('s', 'ret', 'in', ('key', 0, i), 8) for i in range(24)]
CLIENT = [('Upgrade', b'websocket'), ('Connection', b'Upgrade'), ('Sec-WebSocket-Accept', answer(OWN)), ('X-other', tok('o', 2))]


def client_one(sub, prog, text, fields, ok, first=None):
    fn = 'dill_ws_attach_client_mem'
    stream = (first if first is not None else VERSION + [SP] + list(b'101 ') + tok('why', 2)) + CRLF
    for n, v in fields:
        stream += line(n, v)
    stream += CRLF
    pol, sc, st = scene(sub, prog, 'client, %s' % text, stream + [inb('frame')])
    a, b = string(pol, 'resource', RES), string(pol, 'host', HOST)
    out = sc.call(st, fn, 5, 0, a, b, shape('mem'), -1)
    expect(pol, sc, fn, 'client', bool(out), 'does not return')
    for s1, r in out:
        ls, rest = lines_of(flat(s1.ps['out']))
        expect(pol, sc, fn, 'client', bool(ls) and ls[0] == list(b'GET ') + RES + [SP] + VERSION, 'the request is not a GET of the resource')
        fs = {}
        for l in ls[1:-1]:
            n, v = (l[:l.index(COLON)], stripped(l[l.index(COLON) + 1:])) if COLON in l else (l, None)
            fs.setdefault(bytes(n).decode().lower() if all(isinstance(c, int) for c in n) else '?', []).append(v)
        low = lambda v: bytes(v).lower() if v is not None and all(isinstance(c, int) for c in v) else v
        expect(pol, sc, fn, 'client', rest == [] and ls and ls[-1] == [] and [low(v) for v in fs.get('upgrade', [])] == [b'websocket']
               and [low(v) for v in fs.get('connection', [])] == [b'upgrade'] and [low(v) for v in fs.get('sec-websocket-version', [])] == [b'13']
               and fs.get('host') == [HOST] and fs.get('sec-websocket-key') == [OWN], 'the request does not ask for a WebSocket connection in full')
        if not ok:
            expect(pol, sc, fn, 'client', r == -1 and errno_of(sc, s1) == EPROTO, 'the handshake succeeds')
        elif expect(pol, sc, fn, 'client', isinstance(r, int) and r >= 0, 'the handshake is refused'):
            expect(pol, sc, fn, 'client', s1.ps['pos'] == len(stream), 'takes more or less than the response')


def client(sub, prog, part):
    C = CLIENT
    one = lambda *a, **k: client_one(sub, prog, *a, **k)
    if part == 0:
        one('everything right', C, True)
        one('fields in another order', C[::-1], True)
        one('names in upper case', [(n.upper(), v) for n, v in C], True)
        one('names in lower case', [(n.lower(), v) for n, v in C], True)
        one('values in another case', [(n, v.swapcase() if isinstance(v, bytes) else v) for n, v in C], True)
        one('blanks after the values', [(n, list(v) + [SP]) for n, v in C], True)
        one('no other field', C[:-1], True)
        for s in (b'100', b'102', b'200', b'111', b'301', b'401'):
            one('status %s' % s.decode(), C, False, first=VERSION + [SP] + list(s) + [SP] + tok('why', 2))
    else:
        for n, wrong in (('Upgrade', b'http/2.0'), ('Connection', b'close'), ('Sec-WebSocket-Accept', answer(KEY))):
            one('without %s' % n, [f for f in C if f[0] != n], False)
            one('with two %s' % n, C + [f for f in C if f[0] == n], False)
            one('with a wrong %s' % n, [(f[0], wrong) if f[0] == n else f for f in C], False)
            one('with an unknown %s' % n, [(f[0], tok('q', 28)) if f[0] == n else f for f in C], False)
        one('with the key sent back', [(n, OWN) if n.endswith('Accept') else (n, v) for n, v in C], False)
        one('with an accept key that is cut', [(n, answer(OWN)[:27]) if n.endswith('Accept') else (n, v) for n, v in C], False)
        one('with an accept key that goes on', [(n, answer(OWN) + [inb('q')]) if n.endswith('Accept') else (n, v) for n, v in C], False)
        one('nothing but the status', [], False)


def tasks(ctx):
    t = [(request, p) for p in (0, 1, 2)] + [(status, p) for p in (0, 1)] + [(field, p) for p in (0, 1, 2)]
    return t + [(send,)] + [(server, p) for p in (0, 1, 2)] + [(client, p) for p in (0, 1)]


def check(ctx):
    for r, t in (('request, status, field', 'lines received yield exactly their parts; other lines are protocol errors'), ('end', 'the empty line ends the message, and only it'),
                 ('toolong', 'a part that does not fit into the buffer is refused with EMSGSIZE'), ('consumed', 'exactly one line is taken'),
                 ('sent, refused', 'lines sent consist of exactly the arguments; arguments that would break the line are refused and nothing is sent'),
                 ('server, client', 'the handshake succeeds if everything needed is there, once and right, and only then; what is sent is complete'),
                 ('C35-*', 'no access beyond buffers, no failing assertion, no undefined value on the way')):
        ctx.rule(r, t)
    run_wire(ctx, tasks(ctx))
    ctx.minimum('obligations', 1000)
