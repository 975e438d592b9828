"""WebSocket frames follow the masking, size and control rules."""
from props.wire import *
import bits

EXPLAIN = """Abstract interpretation of the WebSocket protocol in both roles. Objects are built by interpreting their
constructors; the public calls of each scenario are interpreted one after the other over I/O lists of known shape, with bytes
abstracted to where they come from. Sent: for sizes that are symbols and at each boundary, the header must be the opcode with
the final bit, the size in the shortest of the three forms - bit by bit the sum of the lengths of the list - and for a client the mask,
fresh random bytes; every byte of the payload must be the exclusive or of the byte of the buffer and the mask byte that belongs to it
(client) or the byte itself (server). Received: each of the 256 values of either header byte, sizes that are symbols in the long forms,
messages in one to three frames, close frames of every shape. Each outcome is compared with what the protocol says."""
ASSUME = ['the socket underneath transfers all bytes asked for or fails',
          'lists of up to three elements and messages of up to five bytes stand for all; sizes are unbounded in the header',
          'pings and pongs are among the opcodes that are not supported']

TEXT, NOHTTP = 1, 2


class P(Wire):
    rule = 'C25'
    sends = None        # how many sends of the socket underneath succeed

    def u_bsendl(self, eng, st, ins, args, site):
        if self.sends is not None:
            k = st.ps.get('sends', 0)
            st.ps['sends'] = k + 1
            if k >= self.sends:
                st.ps['failed'] = True
                return [self.errfork(eng, st, ins, site, E['ECONNRESET'])]
        return Wire.u_bsendl(self, eng, st, ins, args, site)


def make(sub, prog, server, text, flags=0, **kw):
    pol = P(sub, prog, **kw)
    pol.scenario = '%s, %s' % ('server' if server else 'client', text)
    sc = Scene(pol)
    st = sc.state()
    if server:
        st, s = sc.one(st, 'dill_ws_attach_server_mem', 5, NOHTTP | flags, 0, 0, 0, 0, shape('mem'), -1)
    else:
        st, s = sc.one(st, 'dill_ws_attach_client_mem', 5, NOHTTP | flags, 0, 0, shape('mem'), -1)
    return pol, sc, st, s


def shapetext(lens):
    return '[%s]' % ', '.join('skip %d' % n[1] if isinstance(n, tuple) else str(n) for n in lens)


RANDOM = lambda k: ('s', 'ret', 'in', ('random', k), 8)


def lenbits(bs, total):
    """is this big-endian number the total?"""
    for i, t in enumerate(reversed(bs)):
        for k in range(8):
            j = 8 * i + k
            if isinstance(t, int):
                b = t >> k & 1
            else:
                b = bits.bit(t, k)
            w = total >> j & 1 if isinstance(total, int) else bits.bit(total, j)
            if b != w:
                return False
    return True


def judge_send(pol, sc, st, fn, out, op, server, total, interval, spec, rnd, complete=True):
    """-> the rest of the output"""
    ex = lambda rule, c, m: expect(pol, sc, fn, rule, c, m)
    out = [x & 255 if isinstance(x, int) else x for x in out]
    if not ex('header', len(out) >= 2 and out[0] == (0x80 | op), 'the first byte is not the final bit and the opcode of the message'):
        return []
    b1 = out[1]
    m = b1 >> 7 & 1 if isinstance(b1, int) else bits.bit(b1, 7)
    if isinstance(m, tuple) and not isinstance(total, int) and m == bits.bit(total, 7) and interval[1] <= 127:
        m = 0
    if not ex('masking', m == (0 if server else 1), 'the frame of a %s is %smarked as masked' % ('server' if server else 'client', '' if server else 'not ')):
        return []
    low = b1 & 127 if isinstance(b1, int) else None
    lo, hi = interval
    if lo >= 65536:
        form, n = 127, 8
    elif lo >= 126 and hi <= 65535:
        form, n = 126, 2
    elif hi <= 125:
        form, n = None, 0
    else:
        ex('length', False, 'sizes that need different forms are sent alike')
        return []
    if form is not None:
        if not ex('length', low == form, 'the size is not sent in the shortest form'):
            return []
        ex('length', len(out) >= 2 + n and lenbits(out[2:2 + n], total), 'the size sent is not the size of the message')
    elif isinstance(total, int):
        ex('length', low == total, 'the size sent is not the size of the message')
    else:
        ok = low is None and all(bits.bit(b1, k) == bits.bit(total, k) for k in range(7))
        ex('length', ok, 'the size sent is not the size of the message')
    rest = list(out[2 + n:])
    if not server:
        if not ex('masking', [x for x in rest[:4]] == [RANDOM(rnd + i) for i in range(4)], 'the mask sent is not the four random bytes obtained for the frame'):
            return []
        mask, rest = rest[:4], rest[4:]
    body = sent(spec)
    if complete:
        body = body[:len(rest)] if len(rest) <= len(body) else body
        if not ex('payload', len(rest) >= len(sent(spec)), 'part of the message is not sent'):
            return []
    for i, w in enumerate(body):
        if i >= len(rest):
            break
        g = rest[i]
        if server:
            ok = g == w
        else:
            ok = xorset(g) == (0, frozenset((w, mask[i % 4])))
        if not ex('payload', ok, 'byte %d of the message is not sent as it is' % i if server else 'byte %d of the message is not masked with byte %d of the mask' % (i, i % 4)):
            return []
    return rest[len(body):]


SHAPES = ([0], [1], [2], [5], [1, 1], [0, 2], [2, 0], [1, 0, 1], [1, 1, 1], [3, 3], [2, 1, 3])


def send_calls(flags):
    """(function, opcode, list of (arguments before the list), takes a list)"""
    return [('dill_ws_sendl', 1, (TEXT,)), ('dill_ws_sendl', 2, (0,)), ('dill_msendl', 1 if flags else 2, ())]


def send(sub, prog, server):
    for flags in (0, TEXT):
        for fn, op, pre in send_calls(flags):
            for lens in SHAPES:
                pol, sc, st, s = make(sub, prog, server, 'sending %s' % shapetext(lens), flags)
                spec = bufs(pol, lens)
                pol.ro = {b for b, n in spec}
                els = pol.mklist(sc.eng, st, spec)
                n = sum(lens)
                for s1, r in sc.call(st, fn, s, *(pre + (els[0], els[-1], -1))):
                    if not expect(pol, sc, fn, 'payload', r == 0, 'a message is refused'):
                        continue
                    rest = judge_send(pol, sc, s1, fn, s1.ps['out'], op, server, n, (n, n), spec, 0)
                    expect(pol, sc, fn, 'payload', rest == [], 'something follows the message')
                    # a second message has a mask of its own
                    for s2, r2 in sc.call(s1, fn, s, *(pre + (els[0], els[-1], -1))):
                        judge_send(pol, sc, s2, fn, s2.ps['out'][len(s1.ps['out']):], op, server, n, (n, n), spec, 4)
    # a single buffer
    for fl, op in ((TEXT, 1), (0, 2)):
        pol, sc, st, s = make(sub, prog, server, 'sending a buffer')
        pol.size[shape('buf0')] = 3
        for s1, r in sc.call(st, 'dill_ws_send', s, fl, shape('buf0'), 3, -1):
            expect(pol, sc, 'dill_ws_send', 'payload', r == 0, 'a message is refused')
            rest = judge_send(pol, sc, s1, 'dill_ws_send', s1.ps['out'], op, server, 3, (3, 3), [(shape('buf0'), 3)], 0)
            expect(pol, sc, 'dill_ws_send', 'payload', rest == [], 'something follows the message')


def send_sizes(sub, prog, server):
    """the header, for sizes that are unknown or at a boundary; the payload is not sent"""
    for fn, op, pre in send_calls(0)[1:]:
        for n in (1, 2, 3):
            pol, sc, st, s = make(sub, prog, server, 'sending a message of any size in %d buffers' % n)
            L = [('s', 'arg', 'L%d' % i, 64) for i in range(n)]
            tot = 0
            for l in L:
                st.facts[l] = (0, 1 << 61, frozenset())
                tot = mkop('add', 64, tot, l)
            spec = [(shape('buf%d' % i), L[i]) for i in range(n)]
            st.facts[tot] = (0, n << 61, frozenset())
            els = pol.mklist(sc.eng, st, spec)
            pol.sends = 1
            forms = set()
            for s1, r in sc.call(st, fn, s, *(pre + (els[0], els[-1], -1))):
                lo, hi, _ = s1.interval(tot)
                forms.add((lo >= 126) + (lo >= 65536))
                rest = judge_send(pol, sc, s1, fn, s1.ps['out'], op, server, tot, (lo, hi), spec, 0, False)
                expect(pol, sc, fn, 'header', rest == [], 'the header is longer than it should be')
                expect(pol, sc, fn, 'header', r == -1 or s1.ps['io'] and not s1.ps.get('failed'), 'a failure is not reported')
            expect(pol, sc, fn, 'length', forms == {0, 1, 2}, 'the three forms of the size are not all used')
    for n in (0, 1, 124, 125, 126, 127, 255, 256, 65534, 65535, 65536, 65537, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 62)):
        for halves in (False, True):
            fn = 'dill_ws_sendl'
            pol, sc, st, s = make(sub, prog, server, 'sending %d bytes' % n)
            spec = [(shape('buf0'), n - n // 2), (shape('buf1'), n // 2)] if halves else [(shape('buf0'), n)]
            els = pol.mklist(sc.eng, st, spec)
            pol.sends = 1
            for s1, r in sc.call(st, fn, s, 0, els[0], els[-1], -1):
                judge_send(pol, sc, s1, fn, s1.ps['out'], 2, server, n, (n, n), spec, 0, False)


def frame(op, body, server, key=0, sym=True):
    """bytes of a frame sent to the given role -> (bytes, payload as the receiver must see it)"""
    n = len(body)
    r = [op]
    m = 0x80 if server else 0
    if n < 126:
        r.append(m | n)
    elif n < 65536:
        r += [m | 126, n >> 8, n & 255]
    else:
        r += [m | 127] + [n >> 8 * (7 - i) & 255 for i in range(8)]
    if not server:
        return r + list(body), [xorset(x) for x in body]
    mask = [inb(('mask', key, i)) if sym else 17 * i + 3 for i in range(4)]
    if not sym:
        return r + mask + [x ^ mask[i % 4] for i, x in enumerate(body)], list(body)
    out = []
    for i, x in enumerate(body):
        c, f = xorset(x)
        out.append((c, f ^ frozenset((mask[i % 4],))))
    return r + mask + list(body), out


def plain(bs):
    return [x if x in ('-', '.') else xorset(x) for x in bs]


EPROTO, EPIPE, EMSGSIZE, ECONNRESET = 71, 32, 90, 104


def refused(pol, sc, st, s, fn, r, rule, what):
    """a protocol error, after which the connection is of no use"""
    ok = expect(pol, sc, fn, rule, r == -1 and errno_of(sc, st) == EPROTO, '%s is not a protocol error' % what)
    if not ok:
        return
    p = st.ps['pos']
    b = shape('bufx')
    pol.size[b] = 4
    for s2, r2 in sc.call(st, 'dill_ws_recv', s, 0, b, 4, -1):
        expect(pol, sc, fn, rule, r2 == -1 and errno_of(sc, s2) == ECONNRESET and s2.ps['pos'] == p, 'the connection is used after a protocol error (%s)' % what)


def recv_op(sub, prog, server):
    """every value of the first byte of a header, at the start of a message and inside of one"""
    fn = 'dill_ws_recv'
    for started in (False, True):
        for b0 in range(256):
            for n in (0, 2):
                for wrong in (False, True):
                    if wrong and n:
                        continue
                    body = [3, 0xe8] if b0 & 15 == 8 else [inb(i) for i in range(n)]
                    if b0 & 15 == 8 and n == 0:
                        body = []
                    first = frame(0x02, [inb('f') if b0 & 15 != 8 else 7], server, 0, b0 & 15 != 8)[0] if started else []
                    f, m = frame(b0, body, server != wrong, 1, b0 & 15 != 8)
                    pol, sc, st, s = make(sub, prog, server, 'frame starting with 0x%02x%s%s' % (
                        b0, ' inside of a message' if started else '', ', masked' if server != wrong else ', not masked'), stream=first + f + [inb(99)] * 2)
                    b = shape('buf0')
                    pol.size[b] = 8
                    op, fin = b0 & 15, b0 >> 7
                    bad = None
                    if b0 & 0x70:
                        bad = 'a reserved bit'
                    elif op not in (0, 1, 2, 8):
                        bad = 'an opcode that is not supported'
                    elif wrong:
                        bad = 'a frame that is %smasked' % ('not ' if server else '')
                    elif op == 0 and not started:
                        bad = 'the continuation of no message'
                    elif op in (1, 2) and started:
                        bad = 'a message inside of another one'
                    elif op == 8 and not fin:
                        bad = 'a control frame that is not final'
                    rule = 'masking' if wrong else 'protocol'
                    if not bad and op != 8 and not fin:
                        continue        # (goes on; see fragments())
                    for s1, r in sc.call(st, fn, s, 0, b, 8, -1):
                        if bad:
                            refused(pol, sc, s1, s, fn, r, rule, bad)
                        elif op == 8:
                            expect(pol, sc, fn, 'close', r == -1 and errno_of(sc, s1) == EPIPE, 'a close frame does not end the stream')
                        else:
                            expect(pol, sc, fn, 'payload', r == n + started, 'a proper message is not received')
                            expect(pol, sc, fn, 'consumed', s1.ps['pos'] == len(first) + len(f), 'takes more or less than the message from the stream')


def recv_len(sub, prog, server):
    """every value of the second byte; sizes in the long forms are unknown; the message is skipped"""
    fn = 'dill_mrecvl'
    TOP = 1 << 63
    for b1 in range(256):
        ext = {126: 2, 127: 8}.get(b1 & 127, 0)
        mk = 4 if server else 0
        n = b1 & 127
        stream = [0x82, b1] + [inb(i) for i in range(ext)] + [inb(('mask', i)) for i in range(mk)]
        pol, sc, st, s = make(sub, prog, server, 'second byte of the header is 0x%02x' % b1, stream=stream + ([inb(50 + i) for i in range(n + 1)] if not ext else []))
        good = 0
        for s1, r in sc.call(st, fn, s, 0, 0, -1):
            if (b1 >> 7) != (1 if server else 0):
                refused(pol, sc, s1, s, fn, r, 'masking', 'a frame that is %smasked' % ('not ' if server else ''))
                continue
            if not ext:
                good += 1
                expect(pol, sc, fn, 'decode', r == n and s1.ps['pos'] == len(stream) + n, 'a message of %d bytes is not received' % n)
                continue
            if r == -1:
                expect(pol, sc, fn, 'decode', errno_of(sc, s1) == EPROTO and ext == 8, 'a size is refused that is fine, or with a wrong error')
                # the value must be one that does not fit
                continue
            good += 1
            if r == 0 or isinstance(r, int):
                # (a particular size)
                expect(pol, sc, fn, 'decode', s1.ps.get('skipped', 0) == r, 'the size returned is not the number of bytes taken')
                continue
            ok = all(bits.bit(r, k) == (('b', inb(ext - 1 - k // 8), k % 8) if k < 8 * ext else 0) or (k == 63 and bits.bit(r, k) == 0) for k in range(64))
            expect(pol, sc, fn, 'decode', ok, 'the size of the message is not what the header says')
            expect(pol, sc, fn, 'decode', s1.ps.get('skipped') == r or 'skipped' not in s1.ps and s1.interval(r)[1] == 0, 'the size returned is not the number of bytes taken')
        if (b1 >> 7) == (1 if server else 0):
            expect(pol, sc, fn, 'decode', good, 'no message is accepted')
    # sizes at the boundaries, into a buffer that is too small: nothing of them is lost
    for n, form in [(x, 126) for x in (0, 1, 125, 126, 255, 256, 65535)] + [(x, 127) for x in (0, 1, 125, 126, 65535, 65536, 1 << 31, 1 << 32, 1 << 62, TOP - 1, TOP, (1 << 64) - 1)]:
        ext = 2 if form == 126 else 8
        stream = [0x82, form | (0x80 if server else 0)] + [n >> 8 * (ext - 1 - i) & 255 for i in range(ext)] + ([inb(('mask', i)) for i in range(4)] if server else [])
        body = min(n, 300)
        pol, sc, st, s = make(sub, prog, server, 'header says %d bytes in the form %d' % (n, form), stream=stream + [inb(50 + i) for i in range(body)])
        b = shape('buf0')
        pol.size[b] = 2
        for s1, r in sc.call(st, 'dill_ws_recv', s, 0, b, 2, -1):
            if n >= TOP:
                refused(pol, sc, s1, s, 'dill_ws_recv', r, 'decode', 'a size that cannot be represented')
            elif n > 2:
                expect(pol, sc, 'dill_ws_recv', 'toolong', r == -1 and errno_of(sc, s1) == EMSGSIZE, 'a message longer than the buffer is not refused with EMSGSIZE')
            else:
                expect(pol, sc, 'dill_ws_recv', 'decode', r == n, 'the size of the message is not what the header says')


CUTS = ([0], [1], [3], [5], [0, 1], [1, 0], [2, 2], [1, 3], [4, 1], [0, 0], [1, 1, 1], [2, 0, 2], [3, 1, 1], [0, 2, 0])
RSHAPES = ([8], [1, 1, 3], [2, 3], [5], [4], [1], [0, 1, 0, 9], [(None, 2), 3], [1, (None, 4)], [2, (None, 1), 2], [], [0])


def fragments(sub, prog, server):
    for cut in CUTS:
        for op in (1, 2):
            stream, m, ends = [], [], []
            k = 0
            for i, c in enumerate(cut):
                body = [inb(k + j) for j in range(c)]
                k += c
                f, p = frame((0x80 if i == len(cut) - 1 else 0) | (0 if i else op), body, server, i)
                stream += f
                m += p
            ends = len(stream)
            f2, m2 = frame(0x80 | 3 - op, [inb(70)], server, 9)
            for lens in RSHAPES:
                if op == 2 and len(lens) > 2:
                    continue
                for fn in ('dill_ws_recvl', 'dill_mrecvl'):
                    if fn == 'dill_mrecvl' and len(lens) != 2:
                        continue
                    pol, sc, st, s = make(sub, prog, server, 'a message of frames of %s bytes into %s' % (', '.join(map(str, cut)), shapetext(lens)),
                                          TEXT if op == 1 else 0, stream=stream + f2 + [inb(99)])
                    one_message(pol, sc, st, s, fn, op, m, m2, lens, ends, ends + len(f2))


def one_message(pol, sc, st, s, fn, op, m, m2, lens, end, end2):
    fl = shape('flagsout')
    pol.size[fl] = 4
    spec = bufs(pol, lens)
    els = pol.mklist(sc.eng, st, spec)
    pre = (fl,) if fn == 'dill_ws_recvl' else ()
    room = sum(n for b, n in spec)
    for s1, r in sc.call(st, fn, s, *(pre + (els[0] if els else 0, els[-1] if els else 0, -1))):
        if lens and room < len(m):
            expect(pol, sc, fn, 'toolong', r == -1 and errno_of(sc, s1) == EMSGSIZE, 'a message longer than the buffers is not refused with EMSGSIZE')
            continue
        expect(pol, sc, fn, 'payload', r == len(m), 'what is returned is not the size of the message')
        expect(pol, sc, fn, 'payload', plain(got(sc, s1, spec)) == want(m, spec), 'the message is not what the frames contain')
        expect(pol, sc, fn, 'consumed', s1.ps['pos'] == end, 'takes more or less than the message from the stream')
        if pre:
            expect(pol, sc, fn, 'type', sc.eng.load(s1, fl, 32) == (TEXT if op == 1 else 0), 'the type of the message is not reported')
        # the next message follows
        b = shape('bufz')
        pol.size[b] = 4
        if pre:
            for s2, r2 in sc.call(s1, 'dill_ws_recv', s, fl, b, 4, -1):
                expect(pol, sc, fn, 'payload', r2 == 1 and xorset(sc.eng.load(s2, b, 8)) == m2[0], 'the message that follows is not received')
                expect(pol, sc, fn, 'type', sc.eng.load(s2, fl, 32) == (0 if op == 1 else TEXT), 'the type of the message is not reported')
        else:
            for s2, r2 in sc.call(s1, 'dill_mrecv', s, b, 4, -1):
                expect(pol, sc, fn, 'type', r2 == -1 and errno_of(sc, s2) == EPROTO, 'a message of another type than agreed on is handed over')


def close_recv(sub, prog, server):
    fn = 'dill_ws_recv'
    cases = [[]] + [[c >> 8, c & 255] for c in (0, 1, 999, 1000, 1001, 3000, 4999, 5000, 65535)] + [[3]]
    cases += [[3, 232] + [10 + i for i in range(k)] for k in (1, 2, 122, 123)]
    for body in cases:
        for before in (None, [0x01, [7, 7]], [0x82, [9]]):
            pre = frame(before[0], before[1], server, 0, False)[0] if before else []
            f, _ = frame(0x88, body, server, 1, False)
            pol, sc, st, s = make(sub, prog, server, 'close frame of %d bytes%s%s' % (len(body), ' with status %d' % (body[0] << 8 | body[1]) if len(body) > 1 else '',
                                  ' after a frame' if before else ''), stream=pre + f + [0x82, 0x80 if server else 0] + [inb(1)] * 4)
            b = shape('buf0')
            pol.size[b] = 4
            mm = shape('bufm')
            pol.size[mm] = 125
            so = shape('statusout')
            pol.size[so] = 4
            for s1, r in sc.call(st, 'dill_ws_status', s, so, mm, 125):
                expect(pol, sc, 'dill_ws_status', 'close', r == -1 and errno_of(sc, s1) == 11, 'a status is available before there is one')
            cur = [st]
            if before and before[0] & 0x80:
                cur = [s1 for s1, r in sc.call(st, fn, s, 0, b, 4, -1) if r == 1]
            n = len(body)
            status = body[0] << 8 | body[1] if n > 1 else 0
            bad = n == 1 or n > 1 and not 1000 <= status <= 4999
            for s0 in cur:
                for s1, r in sc.call(s0, fn, s, 0, b, 4, -1):
                    if bad:
                        refused(pol, sc, s1, s, fn, r, 'close', 'a close frame without a proper status')
                        continue
                    expect(pol, sc, fn, 'close', r == -1 and errno_of(sc, s1) == EPIPE, 'a close frame does not end the stream')
                    expect(pol, sc, fn, 'close', s1.ps['pos'] == len(pre) + len(f), 'takes more or less than the close frame')
                    for s2, r2 in sc.call(s1, fn, s, 0, b, 4, -1):
                        expect(pol, sc, fn, 'close', r2 == -1 and errno_of(sc, s2) == EPIPE and s2.ps['pos'] == s1.ps['pos'], 'the stream goes on after a close frame')
                    k = max(n - 2, 0)
                    for room, use in ((125, True), (k, True), (k - 1, True), (0, False)):
                        if room < 0:
                            continue
                        for s2, r2 in sc.call(s1, 'dill_ws_status', s, so, mm if use else 0, room):
                            if room < k and use:
                                expect(pol, sc, 'dill_ws_status', 'close', r2 == -1 and errno_of(sc, s2) == EMSGSIZE, 'a text longer than the buffer is not refused with EMSGSIZE')
                                continue
                            expect(pol, sc, 'dill_ws_status', 'close', r2 == k, 'the size of the text is not returned')
                            expect(pol, sc, 'dill_ws_status', 'close', sc.eng.load(s2, so, 32) == status, 'the status is not what the peer sent')
                            if use:
                                x = [sc.eng.load(s2, padd(mm, i), 8) for i in range(k)]
                                expect(pol, sc, 'dill_ws_status', 'close', [v & 255 if isinstance(v, int) else v for v in x] == body[2:], 'the text is not what the peer sent')
    for n in (126, 127, 200, 65535, 65536):
        f, _ = frame(0x88, [3, 232] + [1] * 20, server, 1, False)
        ext = [126, n >> 8, n & 255] if n < 65536 else [127] + [n >> 8 * (7 - i) & 255 for i in range(8)]
        ext[0] |= 0x80 if server else 0
        pol, sc, st, s = make(sub, prog, server, 'close frame of %d bytes' % n, stream=[0x88] + ext + ([1, 2, 3, 4] if server else []) + [3, 232] + [1] * 250)
        b = shape('buf0')
        pol.size[b] = 4
        for s1, r in sc.call(st, fn, s, 0, b, 4, -1):
            refused(pol, sc, s1, s, fn, r, 'close', 'a control frame of more than 125 bytes')


def close_send(sub, prog, server):
    fn = 'dill_ws_done'
    for status in (0, 1, 999, 1000, 1001, 4999, 5000, -1, 66536):
        for n in (0, 1, 2, 122, 123, 124, 125, 200):
            if n > 2 and status not in (0, 1000):
                continue
            for null in (False, True) if n < 2 else (False,):
                pol, sc, st, s = make(sub, prog, server, 'closing with status %d and a text of %d bytes%s' % (status, n, ' at no address' if null else ''))
                b = shape('buf0')
                pol.size[b] = n
                ok = (status == 0 and n == 0 or 1000 <= status <= 4999 and n <= 123) and not (null and n)
                for s1, r in sc.call(st, fn, s, status, 0 if null else b, n, -1):
                    out = s1.ps['out']
                    if not ok:
                        expect(pol, sc, fn, 'close', r == -1 and errno_of(sc, s1) == 22 and not out, 'arguments that make no close frame are not rejected before any output')
                        continue
                    if not expect(pol, sc, fn, 'close', r == 0, 'a proper close frame is not sent'):
                        continue
                    k = (2 if status else 0) + n
                    head = [0x88, k | (0 if server else 0x80)]
                    mask = [] if server else [RANDOM(i) for i in range(4)]
                    body = ([(status >> 8, frozenset()), (status & 255, frozenset())] if status else []) + [(0, frozenset((datab('buf0', i),))) for i in range(n)]
                    if not server:
                        body = [(c, f ^ frozenset((mask[i % 4],))) for i, (c, f) in enumerate(body)]
                    expect(pol, sc, fn, 'header', [x & 255 if isinstance(x, int) else x for x in out[:2]] == head, 'the header of the close frame is wrong')
                    expect(pol, sc, fn, 'close', list(out[2:2 + len(mask)]) == mask and [xorset(x) for x in out[2 + len(mask):]] == body, 'the close frame is not the status and the text')
                    for f2, a in (('dill_ws_send', (s, 0, b, 0, -1)), ('dill_ws_done', (s, 0, 0, 0, -1))):
                        for s2, r2 in sc.call(s1, f2, *a):
                            expect(pol, sc, f2, 'close', r2 == -1 and errno_of(sc, s2) == EPIPE and s2.ps['out'] == out, 'something is sent after the close frame')
    # closing and waiting for the peer
    fn = 'dill_ws_detach'
    for msgs in (0, 1, 2):
        for done in (False, True):
            stream = []
            for i in range(msgs):
                stream += frame(0x82, [5] * i, server, i, False)[0]
            stream += frame(0x88, [3, 232], server, 9, False)[0]
            pol, sc, st, s = make(sub, prog, server, 'closing with %d messages pending%s' % (msgs, ', done before' if done else ''), stream=stream + [inb(0)] * 4)
            cur = [s1 for s1, r in sc.call(st, 'dill_ws_done', s, 0, 0, 0, -1) if r == 0] if done else [st]
            expect(pol, sc, fn, 'close', bool(cur), 'the connection cannot be closed')
            for s0 in cur:
                for s1, r in sc.call(s0, fn, s, 0, 0, 0, -1):
                    out = [x & 255 if isinstance(x, int) else x for x in s1.ps['out']]
                    expect(pol, sc, fn, 'close', r in dict(s1.ps['h']) and s1.ps['closed'] == 0, 'the socket underneath is not handed back')
                    expect(pol, sc, fn, 'close', out == ([0x88, 0] if server else [0x88, 0x80] + [RANDOM(i) for i in range(4)]), 'not exactly one close frame is sent')
                    expect(pol, sc, fn, 'consumed', s1.ps['pos'] == len(stream), 'takes more or less than up to the close frame of the peer')


def tasks(ctx):
    t = []
    for role in (False, True):
        for f in (send, send_sizes, recv_op, recv_len, fragments, close_recv, close_send):
            t.append((f, role))
    return t


def check(ctx):
    for r, t in (('masking', 'frames of a client, and only they, are masked with the fresh random bytes sent; frames with the wrong masking are refused'),
                 ('header, length', 'opcode, final bit and the size of the list in the shortest form'), ('payload', 'each byte of the message, in order, masked with the byte of the mask that belongs to it'),
                 ('decode', 'the size is what the header says in each of the three forms'), ('protocol', 'reserved bits, opcodes not supported and frames out of place are protocol errors that fail the connection'),
                 ('toolong', 'a message longer than the buffer is refused with EMSGSIZE'), ('type', 'text and binary are told apart'), ('consumed', 'exactly the frames of a message are taken'),
                 ('close', 'close frames: status and text, limits, end of both directions'), ('C25-*', 'no access beyond buffers, no failing assertion, no undefined value on the way')):
        ctx.rule(r, t)
    run_wire(ctx, tasks(ctx))
    ctx.minimum('obligations', 5000)
