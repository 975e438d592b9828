"""I/O lists are validated, honoured exactly and left unchanged."""
from props.wire import *
import re

EXPLAIN = """Abstract interpretation of every protocol that takes scatter/gather lists: tcp, ipc, udp, tls, prefix, suffix, term
and ws. Objects are built by interpreting their constructors; the functions of the table they publish, and the public calls that
take lists themselves, are interpreted over lists of known shape whose bytes are abstracted to the buffer and position they come
from. Malformed lists are taken from a partition of the ways ends and links may disagree. The system may take or give any part
of what is asked for, ask to wait, or fail; every outcome is followed. What the system (or the socket underneath) is handed is
compared with the list, what is stored with the list and the stream, and every field of every element with its value before the
call. Each access is checked against the extent of the block it falls into; a buffer without an address has no extent."""
ASSUME = ['lists of up to four elements stand for all lists', 'the library is given addresses of memory that exists',
          'sendmsg and recvmsg transfer the parts of the vector in order, as POSIX says']


class P(Wire):
    rule = 'C18'


def make(sub, prog, proto, text, **kw):
    """-> policy, scene, state, handle"""
    pol = P(sub, prog, **kw)
    pol.scenario = '%s, %s' % (proto, text)
    pol.strs = {'strpath': b'/x'}
    sc = Scene(pol)
    st = sc.state('msock' if proto == 'term' else 'bsock')
    f, pol.failures = pol.failures, False
    mem = shape('mem')
    try:
        if proto in ('tcp', 'udp'):
            a = addr(pol, st)
            if proto == 'tcp':
                st, s = sc.one(st, 'dill_tcp_connect_mem', a, mem, -1)
            else:
                st, s = sc.one(st, 'dill_udp_open_mem', 0, a, mem)
        elif proto == 'ipc':
            st, s = sc.one(st, 'dill_ipc_connect_mem', shape('strpath'), mem, -1)
        elif proto == 'tls':
            st, s = sc.one(st, 'dill_tls_attach_client_mem', 5, mem, -1)
        elif proto == 'prefix':
            st, s = sc.one(st, 'dill_prefix_attach_mem', 5, 2, 0, mem)
        elif proto in ('suffix', 'term'):
            b = shape('bufend')
            for i, c in enumerate(b'\r\n'):
                st.mem[(b, i, ())] = (c, 8)
            st, s = sc.one(st, 'dill_%s_attach_mem' % proto, 5, b, 2, mem)
        elif proto == 'ws server':
            st, s = sc.one(st, 'dill_ws_attach_server_mem', 5, 2, 0, 0, 0, 0, mem, -1)
        else:
            st, s = sc.one(st, 'dill_ws_attach_client_mem', 5, 2, 0, 0, mem, -1)
    finally:
        pol.failures = f
    st.ps.update(io=0, out=(), pos=0)
    return pol, sc, st, s


def addr(pol, st):
    a = shape('bufaddr')
    pol.size[a] = pol.prog.sizeof('dill_ipaddr')
    st.mem[(a, 0, ())] = (2, 16)
    for i in range(2, 16):
        st.mem[(a, i, ())] = (addrbyte(i), 8)
    return a


STREAMS = ('tcp', 'ipc', 'tls')
FRAMED = ('prefix', 'suffix', 'term', 'ws server', 'ws client')

# ways a list can be malformed: links as indices (None is the end), index of the first and last element, element in use
BAD = {
    'no last element': ([None], 0, None, None),
    'no first element': ([None], None, 0, None),
    'goes on after its last element': ([1, None], 0, 0, None),
    'goes on after its last element in the middle': ([1, 2, None], 0, 1, None),
    'last element is not part of it': ([None, None], 0, 1, None),
    'last element of two is not part of it': ([1, None, None], 0, 2, None),
    'first element follows the last one': ([1, None], 1, 0, None),
    'an element leads to itself': ([0, None], 0, 1, None),
    'only element leads to itself': ([0], 0, 0, None),
    'second element leads to itself': ([1, 1, None], 0, 2, None),
    'leads back to the start': ([1, 0, None], 0, 2, None),
    'leads back to the start from its last element': ([1, 0], 0, 1, None),
    'leads back to the middle': ([1, 2, 1, None], 0, 3, None),
    'an element is in use': ([None], 0, 0, 0),
    'second element is in use': ([1, None], 0, 1, 1),
    'third element is in use': ([1, 2, None], 0, 2, 2),
    'first element is in use': ([1, 2, None], 0, 2, 0),
}


def entries(proto):
    """public calls that take lists: (function, arguments before the list, after it, is it a send)"""
    r = []
    if proto in STREAMS:
        r = [('dill_bsendl', (), (-1,), True), ('dill_brecvl', (), (-1,), False)]
    else:
        r = [('dill_msendl', (), (-1,), True), ('dill_mrecvl', (), (-1,), False)]
    if proto == 'udp':
        r += [('dill_udp_sendl', (0,), (), True), ('dill_udp_recvl', (0,), (-1,), False)]
    if proto.startswith('ws'):
        r += [('dill_ws_sendl', (1,), (-1,), True), ('dill_ws_recvl', (0,), (-1,), False)]
    return r


def malformed(sub, prog, proto):
    for name, (links, first, last, used) in BAD.items():
        for sizes in (1, 0):
            for fn, pre, post, send in entries(proto):
                pol, sc, st, s = make(sub, prog, proto, 'a list of which the %s' % name if 'element' in name.split()[:2] else 'a list that %s' % name,
                                      stream=[inb(i) for i in range(20)], msgs=(1,), parts=False)
                spec = bufs(pol, [sizes] * len(links))
                els = pol.mklist(sc.eng, st, spec)
                o = pol.o
                for i, x in enumerate(links):
                    st.mem[(els[i], o['next'], ())] = (0 if x is None else els[x], 64)
                if used is not None:
                    st.mem[(els[used], o['rsvd'], ())] = (1, pol.rsvdw)
                before = fields(pol, sc, st, els)
                g = lambda i: 0 if i is None else els[i]
                for s1, r in sc.call(st, fn, s, *(pre + (g(first), g(last)) + post)):
                    ok = expect(pol, sc, fn, 'validated', r == -1 and errno_of(sc, s1) == 22, 'the list is not rejected with EINVAL')
                    expect(pol, sc, fn, 'validated', s1.ps['io'] == 0, 'data is transferred before the list is rejected')
                    expect(pol, sc, fn, 'list', fields(pol, sc, s1, els) == before, 'the list rejected is not left as it was')
    if proto != 'udp':
        fn = entries(proto)[0][0]
        pol, sc, st, s = make(sub, prog, proto, 'no list', parts=False)
        for s1, r in sc.call(st, fn, s, 0, 0, -1):
            expect(pol, sc, fn, 'validated', r == -1 and errno_of(sc, s1) == 22 and s1.ps['io'] == 0, 'sending without a list is not rejected with EINVAL')


def fields(pol, sc, st, els):
    return [sc.eng.load(st, padd(e, pol.o[k]), pol.rsvdw if k == 'rsvd' else 64) for e in els for k in ('base', 'len', 'next', 'rsvd')]


SHAPES = ([0], [1], [2], [3], [1, 1], [0, 2], [2, 0], [1, 0, 1], [1, 1, 1], [2, 2], [0, 0], [0, 1, 0, 1])
SKIPS = ([(None, 1)], [(None, 2), 1], [1, (None, 2)], [1, (None, 1), 1], [(None, 0), 1], [(None, 1), (None, 2), 1], [1, 0, (None, 1), 1])
BIG = ([1984], [1985], [1, 1984], [2000, 3], [0, 1985], [1000, 0, 1000], [(None, 1985)], [1, (None, 2000), 1], [2000, (None, 1), (None, 2), 1],
       [(None, 511), 2000], [(None, 512), 2000], [(None, 513), 2000], [2000, (None, 0), 2], [1, 1984, 0])


def shapetext(lens):
    return '[%s]' % ', '.join('skip %d' % n[1] if isinstance(n, tuple) else str(n) for n in lens)


def stream_send(sub, prog, proto):
    fn = 'dill_bsendl'
    for lens in SHAPES + ([600], [3, 600], [600, 1, 700]):
        for fail in (False, True):
            pol, sc, st, s = make(sub, prog, proto, 'sending %s' % shapetext(lens), blocks=sum(lens) < 10, failures=fail)
            spec = bufs(pol, lens)
            pol.ro = {b for b, n in spec}
            els = pol.mklist(sc.eng, st, spec)
            w = flat(spec)
            good = 0
            for s1, r in sc.call(st, fn, s, els[0], els[-1], -1):
                x = flat_out(s1.ps['out'])
                if r == 0:
                    good += 1
                    expect(pol, sc, fn, 'exact', x == w, 'what is sent is not the list')
                else:
                    expect(pol, sc, fn, 'fails', s1.ps.get('failed') is True, 'fails without a reason')
                    expect(pol, sc, fn, 'exact', x == w[:len(x)], 'what is sent before a failure is not the start of the list')
                expect(pol, sc, fn, 'list', pol.listok(sc.eng, s1, els, spec) is None, 'the list is not left as it was')
            expect(pol, sc, fn, 'exact', good, 'the list is never sent')


def flat(spec):
    return [(b, i) for b, n in spec for i in range(n)]


def flat_out(out):
    r = []
    for t in out:
        if isinstance(t, tuple) and t[0] == 'blk':
            b, o, ix = split(t[1])
            r += [(b, o + i) for i in range(t[2])]
        elif opaque_byte(t) and t[2] == 'data':
            r.append((shape(t[3]), t[4]))
        else:
            r.append(t)
    return r


def stream_recv(sub, prog, proto, shapes, extra, fail=False):
    """two receives, one after the other"""
    fn = 'dill_brecvl'
    for lens in shapes:
        n = sum(x if isinstance(x, int) else x[1] for x in lens)
        big = n > 50
        for second in ([2],) if big else ([2], [1, (None, 1), 1], [(None, 2), 1]):
            m = sum(x if isinstance(x, int) else x[1] for x in second)
            for more in extra:
                stream = [inb(i) for i in range(n + m + more)]
                pol, sc, st, s = make(sub, prog, proto, 'receiving %s, then %s' % (shapetext(lens), shapetext(second)), stream=stream,
                                      parts=not big or n < 2100, blocks=not big, failures=fail)
                cur, pos = [st], 0
                for step, (ls, tag) in enumerate(((lens, 'a'), (second, 'b'))):
                    nxt = []
                    for s0 in cur[:40]:
                        spec = bufs(pol, ls, tag)
                        els = pol.mklist(sc.eng, s0, spec, tag)
                        k = sum(z for b, z in spec)
                        good = 0
                        for s1, r in sc.call(s0, fn, s, els[0], els[-1], -1):
                            if r == 0:
                                good += 1
                                expect(pol, sc, fn, 'exact', got(sc, s1, spec) == want(stream[pos:pos + k], spec), 'what is stored is not what the peer sent')
                                expect(pol, sc, fn, 'exact', s1.ps['pos'] >= pos + k, 'reports more than was received')
                                nxt.append(s1)
                            else:
                                expect(pol, sc, fn, 'fails', s1.ps.get('failed') is True, 'fails without a reason')
                            expect(pol, sc, fn, 'list', pol.listok(sc.eng, s1, els, spec) is None, 'the list is not left as it was')
                        expect(pol, sc, fn, 'exact', good, 'nothing is received though there is enough')
                    pos += k
                    cur = nxt
    # everything
    if not fail:
        pol, sc, st, s = make(sub, prog, proto, 'receiving without a list', stream=[inb(i) for i in range(5)], parts=True, blocks=True)
        for s1, r in sc.call(st, fn, s, 0, 0, -1):
            expect(pol, sc, fn, 'exact', r == -1 and errno_of(sc, s1) == 32 and s1.ps['pos'] == 5, 'does not skip all data up to the end of the stream')


def starved(sub, prog, proto):
    """the stream ends too early"""
    fn = 'dill_brecvl'
    for lens in ([3], [1, 2], [(None, 1), 2], [2, (None, 1)], [0, 3], [2, 2000], [(None, 3000)]):
        for k in range(3):
            pol, sc, st, s = make(sub, prog, proto, 'receiving %s of %d bytes' % (shapetext(lens), k), stream=[inb(i) for i in range(k)], blocks=True)
            spec = bufs(pol, lens)
            els = pol.mklist(sc.eng, st, spec)
            for s1, r in sc.call(st, fn, s, els[0], els[-1], -1):
                expect(pol, sc, fn, 'fails', r == -1 and errno_of(sc, s1) == 32, 'the end of the stream is not reported')
                expect(pol, sc, fn, 'list', pol.listok(sc.eng, s1, els, spec) is None, 'the list is not left as it was')


def dgram(sub, prog):
    for fn, pre, post, send in entries('udp'):
        if not send:
            continue
        for lens in SHAPES + ([600], [600, 1]):
            for fail in (False, True):
                pol, sc, st, s = make(sub, prog, 'udp', 'sending %s' % shapetext(lens), failures=fail, blocks=True)
                spec = bufs(pol, lens)
                pol.ro = {b for b, n in spec}
                els = pol.mklist(sc.eng, st, spec)
                good = 0
                for s1, r in sc.call(st, fn, s, *(pre + (els[0], els[-1]) + post)):
                    if r == 0 and not s1.ps.get('blocked'):
                        good += 1
                        expect(pol, sc, fn, 'exact', list(s1.ps['out']) == sent(spec) + ['end'], 'what is sent is not the list, as one datagram')
                    elif r != 0:
                        expect(pol, sc, fn, 'fails', s1.ps.get('failed') is True, 'fails without a reason')
                    expect(pol, sc, fn, 'list', pol.listok(sc.eng, s1, els, spec) is None, 'the list is not left as it was')
                expect(pol, sc, fn, 'exact', good, 'the list is never sent')
    for fn, pre, post, send in entries('udp'):
        if send:
            continue
        for lens in SHAPES + SKIPS + ([], [700], [1, (None, 70000)]):
            room = sum(x if isinstance(x, int) else x[1] for x in lens)
            for n in range(5):
                for fail, other in ((False, False), (False, 2), (False, 3), (False, 4), (False, 7), (True, False)) if n in (1, 3) else ((False, False),):
                    m0, m1, m2 = [inb(i) for i in range(3)] if other else [], [inb(10 + i) for i in range(n)], [inb(20 + i) for i in range(2)]
                    pol, sc, st, s = make(sub, prog, 'udp', '%d bytes into %s%s' % (n, shapetext(lens), ' after a datagram from elsewhere' if other else ''),
                                          stream=m0 + m1 + m2, msgs=((3,) if other else ()) + (n, 2), blocks=n == 1, failures=fail)
                    pol.foreign = {0: (other,)} if other else {}
                    spec = bufs(pol, lens)
                    els = pol.mklist(sc.eng, st, spec)
                    good = 0
                    for s1, r in sc.call(st, fn, s, *(pre + (els[0] if els else 0, els[-1] if els else 0) + post)):
                        expect(pol, sc, fn, 'list', pol.listok(sc.eng, s1, els, spec) is None, 'the list is not left as it was')
                        if s1.ps.get('failed'):
                            expect(pol, sc, fn, 'fails', r == -1, 'succeeds in spite of a failure')
                            continue
                        good += 1
                        expect(pol, sc, fn, 'exact', s1.ps['msg'] == 1 + bool(other), 'takes more than one datagram')
                        if not lens or n <= room:
                            x = got(sc, s1, spec)
                            # (what a datagram from elsewhere left behind it does not matter)
                            expect(pol, sc, fn, 'exact', r == n and (x == want(m1, spec) or other and x[:n] == want(m1, spec)[:n]), 'what is stored is not the datagram')
                        else:
                            expect(pol, sc, fn, 'exact', r == -1 and errno_of(sc, s1) == 90, 'a datagram longer than the list is not refused with EMSGSIZE')
                    expect(pol, sc, fn, 'exact', good, 'nothing is received')


def framed(sub, prog, proto):
    """lists are left alone whatever happens underneath"""
    for fn, pre, post, send in entries(proto):
        if not send:
            continue
        for lens in SHAPES[1:]:
            pol, sc, st, s = make(sub, prog, proto, 'sending %s' % shapetext(lens), failures=True)
            spec = bufs(pol, lens)
            pol.ro = {b for b, n in spec}
            els = pol.mklist(sc.eng, st, spec)
            good = 0
            for s1, r in sc.call(st, fn, s, *(pre + (els[0], els[-1]) + post)):
                good += r == 0
                if r != 0:
                    expect(pol, sc, fn, 'fails', s1.ps.get('failed') is True, 'fails without a reason')
                expect(pol, sc, fn, 'list', pol.listok(sc.eng, s1, els, spec) is None, 'the list is not left as it was')
                exp = [payload(t) for t in s1.ps['out']]
                exp = [t for t in exp if t]
                w = flat(spec)
                expect(pol, sc, fn, 'exact', exp == w if r == 0 else exp == w[:len(exp)], 'the bytes of the list are not sent in order, each once')
            expect(pol, sc, fn, 'exact', good, 'the list is never sent')
    for fn, pre, post, send in entries(proto):
        if send:
            continue
        for lens in SHAPES + SKIPS:
            for n, cut in [(n, None) for n in range(4)] + ([(n, k) for n in range(1, 4) for k in range(n + 1)] if proto.startswith('ws') else []):
                stream, msgs, m = message(proto, n, cut)
                pol, sc, st, s = make(sub, prog, proto, '%d bytes into %s' % (n, shapetext(lens)), stream=stream, msgs=msgs, failures=True)
                spec = bufs(pol, lens)
                els = pol.mklist(sc.eng, st, spec)
                room = sum(z for b, z in spec)
                for s1, r in sc.call(st, fn, s, *(pre + (els[0], els[-1]) + post)):
                    expect(pol, sc, fn, 'list', pol.listok(sc.eng, s1, els, spec) is None, 'the list is not left as it was')
                    if r != -1:
                        expect(pol, sc, fn, 'exact', r == n and n <= room and plain(got(sc, s1, spec), proto) == want(m, spec), 'what is stored is not the message')
                    elif n <= room:
                        expect(pol, sc, fn, 'fails', s1.ps.get('failed') is True, 'fails without a reason')
                    else:
                        expect(pol, sc, fn, 'fails', s1.ps.get('failed') is True or errno_of(sc, s1) == 90, 'a message longer than the list is not refused with EMSGSIZE')


def message(proto, n, cut=None):
    b = [inb(i) for i in range(n)]
    if proto == 'prefix':
        return [0, n] + b, (), b
    if proto == 'suffix':
        return b + [13, 10], (), b
    if proto == 'term':
        return b, (n,), b
    # (possibly in two frames)
    r = []
    for i, part in enumerate([b] if cut is None else [b[:cut], b[cut:]]):
        op = (0 if i else 2) | (0 if cut is not None and i == 0 else 0x80)
        if proto == 'ws client':
            r += [op, len(part)] + part
        else:
            mask = [inb(90 + 4 * i + k) for k in range(4)]
            r += [op, 0x80 | len(part)] + mask + part
    if proto == 'ws client':
        return r, (), b
    j = n if cut is None else cut
    return r, (), [(0, frozenset((x, inb(90 + (i % 4 if i < j else 4 + (i - j) % 4))))) for i, x in enumerate(b)]


def plain(bs, proto):
    return [x if x in ('-', '.') else xorset(x) for x in bs] if proto == 'ws server' else bs


def payload(t):
    """buffer and position a byte on the wire comes from"""
    if isinstance(t, tuple):
        if opaque_byte(t):
            return (shape(t[3]), t[4]) if t[2] == 'data' and re.match(r'buf\d', t[3]) else None
        for x in t:
            if isinstance(x, tuple):
                r = payload(x)
                if r:
                    return r
    return None


def tasks(ctx):
    t = []
    for p in STREAMS + FRAMED + ('udp',):
        t.append((malformed, p))
    for p in STREAMS:
        t.append((stream_send, p))
        t.append((stream_recv, p, SHAPES[:6], (0, 1)))
        t.append((stream_recv, p, SHAPES[6:], (0, 1)))
        t.append((stream_recv, p, SKIPS, (0, 2)))
        t.append((stream_recv, p, SHAPES[:8] + SKIPS[:3], (1,), True))
        for b in BIG:
            t.append((stream_recv, p, (b,), (0, 3)))
        t.append((stream_recv, p, BIG[5:9] + BIG[12:], (0,), True))
        t.append((starved, p))
    t.append((dgram,))
    for p in FRAMED:
        t.append((framed, p))
    return t


def check(ctx):
    for r, t in (('validated', 'a malformed list is rejected with EINVAL before any transfer'), ('list', 'every field of every element is after the call what it was before'),
                 ('exact', 'each byte of the list is transferred once, in order, and nothing else'), ('fails', 'fails only if something failed; a failure is reported'),
                 ('C18-*', 'no access beyond a buffer or through a buffer without an address, no store into a buffer that is sent')):
        ctx.rule(r, t)
    run_wire(ctx, tasks(ctx))
    ctx.minimum('obligations', 5000)
