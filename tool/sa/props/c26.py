"""Message framings delimit exactly what was sent."""
from props.wire import *
import bits

EXPLAIN = """Abstract interpretation of the prefix, suffix and term protocols. Objects are built by interpreting their
constructors; then the calls of each scenario are interpreted one after the other, over I/O lists of known shape, bytes
abstracted to where they come from (a caller's buffer, a position of the peer's stream) and message sizes that are symbols
where the code lets them be. What reaches the socket underneath, how much is taken from it, what is stored for the caller and
what is returned is compared with the framing. For prefix the bytes of the header sent must be, bit by bit, the sum of the
lengths of the list in the configured byte order, and the size of a message received the bits of the header's bytes."""
ASSUME = ['the socket underneath transfers all bytes asked for or fails',
          'lists of up to three elements stand for all lists, suffixes of up to four bytes and terminators of up to three for all suffixes and terminators',
          'bytes of a message compare unequal to the bytes of a suffix or terminator unless the scenario makes them equal']

LE = 1
TOP = 1 << 63


class P(Wire):
    rule = 'C26'


def scene(sub, prog, text, **kw):
    pol = P(sub, prog, **kw)
    pol.scenario = text
    return pol, Scene(pol)


def endian(flags):
    return 'little' if flags else 'big'


def prefix(sc, h, flags):
    st = sc.state()
    return sc.one(st, 'dill_prefix_attach_mem', 5, h, flags, shape('mem'))


def headerbits(hdr, total, h, flags):
    """are these the bytes of total?"""
    seq = list(hdr) if flags else list(reversed(hdr))
    for i, t in enumerate(seq):
        for k in range(8):
            if 8 * i + k >= 64:
                b = t >> k & 1 if isinstance(t, int) else bits.bit(t, k)
                ok = b == 0 or (isinstance(b, tuple) and b[2] >= 64) or (t[0] == 'bits' and t[2] + k >= 64)
            elif isinstance(total, int):
                ok = isinstance(t, int) and (t >> k & 1) == (total >> (8 * i + k) & 1)
            else:
                ok = bits.bit(t, k) == bits.bit(total, 8 * i + k) if not isinstance(t, int) else False
            if not ok:
                return i
    return None


def prefix_send(sub, prog, h, flags):
    text = 'prefix of %d bytes, %s endian' % (h, endian(flags))
    fn = 'dill_prefix_msendl'
    # the sizes are unknown
    for n in (1, 2, 3):
        pol, sc = scene(sub, prog, '%s, %d buffers' % (text, n))
        st, s = prefix(sc, h, flags)
        L = [('s', 'arg', 'L%d' % i, 64) for i in range(n)]
        tot = 0
        for l in L:
            st.facts[l] = (0, 1 << 61, frozenset())
            tot = mkop('add', 64, tot, l)
        spec = [(shape('buf%d' % i), L[i]) for i in range(n)]
        els = pol.mklist(sc.eng, st, spec)
        good = 0
        for s1, r in sc.call(st, 'dill_msendl', s, els[0], els[-1], -1):
            out = s1.ps['out']
            if r == 0:
                good += 1
                x = headerbits(out[:h], tot, h, flags) if len(out) >= h else 0
                expect(pol, sc, fn, 'header', x is None, 'the header is not the size of the message')
                expect(pol, sc, fn, 'body', list(out[h:]) == sent(spec), 'what follows the header is not the message')
            else:
                expect(pol, sc, fn, 'refused', errno_of(sc, s1) == 90, 'a message is refused with an error other than EMSGSIZE')
                expect(pol, sc, fn, 'refused', not out, 'part of a message that is refused is sent')
        expect(pol, sc, fn, 'header', good, 'no message is accepted')
    # around the limit
    for k in sorted({0, 1, 2, 255, 256, 65535, 65536, (1 << 8 * h) - 1, 1 << 8 * h, (1 << 8 * h) + 1}):
        if k >= TOP - 1:
            continue
        for split in (False, True):
            pol, sc = scene(sub, prog, '%s, %d bytes' % (text, k))
            st, s = prefix(sc, h, flags)
            spec = [(shape('buf0'), k - k // 2), (shape('buf1'), k // 2)] if split else [(shape('buf0'), k)]
            els = pol.mklist(sc.eng, st, spec)
            fits = k < 1 << 8 * h
            for s1, r in sc.call(st, 'dill_msendl', s, els[0], els[-1], -1):
                out = s1.ps['out']
                expect(pol, sc, fn, 'limit', (r == 0) == fits, 'a message that %s is %s' % (
                    'fits' if fits else 'does not fit into the header', 'refused' if fits else 'sent'))
                if r == 0 and fits:
                    expect(pol, sc, fn, 'header', headerbits(out[:h], k, h, flags) is None, 'the header is not the size of the message')
                    expect(pol, sc, fn, 'body', list(out[h:]) == sent(spec), 'what follows the header is not the message')
                if r != 0 and not fits:
                    expect(pol, sc, fn, 'refused', errno_of(sc, s1) == 90 and not out, 'a message that is too long is not refused with EMSGSIZE before any output')


def hdrbytes(k, h, flags):
    b = [k >> 8 * i & 255 for i in range(h)]
    return b if flags else b[::-1]


SHAPES = ([], [0], [1], [2], [3], [1, 1], [0, 2], [2, 0], [1, 0, 1], [1, 1, 1], [(None, 1), 1], [1, (None, 2)], [(None, 3)])


def receive(pol, sc, st, s, lens, tag, fn='dill_mrecvl'):
    """one call; yields (state, result, spec, elements, untouched list)"""
    spec = bufs(pol, lens, tag)
    els = pol.mklist(sc.eng, st, spec, tag)
    for s1, r in sc.call(st, fn, s, els[0] if els else 0, els[-1] if els else 0, -1):
        yield s1, r, spec, els, pol.listok(sc.eng, s1, els, spec)


def two_messages(pol, sc, st, s, fn, msgs, ends, lens, limit=True):
    """receives two messages one after the other; ends: position of the stream after each"""
    cur = [(st, ())]
    for i, m in enumerate(msgs):
        nxt = []
        for s0, _ in cur:
            for s1, r, spec, els, bad in receive(pol, sc, s0, s, lens, 'ab'[i]):
                room = sum(n for b, n in spec)
                if lens and len(m) > room:
                    expect(pol, sc, fn, 'toolong', r == -1 and errno_of(sc, s1) == 90,
                           'a message that is longer than the buffers is not refused with EMSGSIZE')
                else:
                    expect(pol, sc, fn, 'size', r == len(m), 'what is returned is not the size of the message')
                    expect(pol, sc, fn, 'content', got(sc, s1, spec) == want(m, spec), 'the message is not stored as it was sent')
                    expect(pol, sc, fn, 'consumed', s1.ps['pos'] == ends[i], 'takes more or less than the message from the stream')
                    nxt.append((s1, r))
                expect(pol, sc, fn, 'list', bad is None, 'the list is not left as it was')
        cur = nxt


def prefix_recv(sub, prog, h, flags):
    text = 'prefix of %d bytes, %s endian' % (h, endian(flags))
    fn = 'dill_prefix_mrecvl'
    # the header is unknown: the message is skipped, whatever its size
    pol, sc = scene(sub, prog, text + ', skipped', stream=[inb(i) for i in range(h)])
    st, s = prefix(sc, h, flags)
    good = 0
    for s1, r in sc.call(st, 'dill_mrecvl', s, 0, 0, -1):
        if r == -1:
            expect(pol, sc, fn, 'refused', errno_of(sc, s1) == 90 and h >= 8, 'a message is refused with an error other than EMSGSIZE, or though its size can be represented')
            expect(pol, sc, fn, 'refused', 'skipped' not in s1.ps, 'part of a message that is refused is taken')
            continue
        good += 1
        expect(pol, sc, fn, 'consumed', s1.ps.get('skipped') == r, 'the size returned is not the number of bytes taken')
        ok = True
        for k in range(64):
            j = k // 8
            src = inb(j if flags else h - 1 - j) if j < h else None
            b = 0 if isinstance(r, int) else bits.bit(r, k)
            if isinstance(r, int):
                b = r >> k & 1
            ok = ok and (b == 0 if src is None else b == ('b', src, k % 8) or (k == 63 and b == 0))
        expect(pol, sc, fn, 'decode', ok, 'the size of the message is not what the header says')
    expect(pol, sc, fn, 'decode', good, 'no message is accepted')
    if h >= 8:
        for k in (TOP, TOP + 5, (1 << 64) - 1, (1 << 64) + 1):
            if k >> 8 * h:
                continue
            for lens in ([], [4]):
                pol, sc = scene(sub, prog, '%s, header says %d bytes' % (text, k), stream=hdrbytes(k, h, flags) + [inb(i) for i in range(8)])
                st, s = prefix(sc, h, flags)
                for s1, r, spec, els, bad in receive(pol, sc, st, s, lens, 'a'):
                    expect(pol, sc, fn, 'refused', r == -1 and errno_of(sc, s1) == 90, 'a size that cannot be represented is not refused with EMSGSIZE')
    if h > 4 and h != 8:
        return
    for n in range(5):
        for lens in SHAPES:
            m1, m2 = [inb(i) for i in range(n)], [inb(10 + i) for i in range(min(n, 1))]
            pol, sc = scene(sub, prog, '%s, %d bytes into %s' % (text, n, shapetext(lens)),
                            stream=hdrbytes(n, h, flags) + m1 + hdrbytes(len(m2), h, flags) + m2 + [inb(99)])
            st, s = prefix(sc, h, flags)
            two_messages(pol, sc, st, s, fn, (m1, m2), (h + n, 2 * h + n + len(m2)), lens)


def shapetext(lens):
    return '[%s]' % ', '.join('skip %d' % n[1] if isinstance(n, tuple) else str(n) for n in lens)


def mk_suffix(sub, prog, sc, pol, suf):
    st = sc.state()
    b = shape('bufsuf')
    pol.size[b] = len(suf)
    for i, c in enumerate(suf):
        st.mem[(b, i, ())] = (c, 8)
    return sc.one(st, 'dill_suffix_attach_mem', 5, b, len(suf), shape('mem'))


def suffix(sub, prog, suf):
    suf = [ord(c) for c in suf]
    k = len(suf)
    text = 'suffix of %d bytes' % k
    fn = 'dill_suffix_msendl'
    for lens in ([0], [1], [3], [1, 1], [0, 2], [1, 0], [2, 1, 1], [600], [600, 1]):
        pol, sc = scene(sub, prog, '%s, sending %s' % (text, shapetext(lens)))
        st, s = mk_suffix(sub, prog, sc, pol, suf)
        spec = bufs(pol, lens)
        els = pol.mklist(sc.eng, st, spec)
        for s1, r in sc.call(st, 'dill_msendl', s, els[0], els[-1], -1):
            expect(pol, sc, fn, 'body', r == 0 and list(s1.ps['out']) == sent(spec) + suf, 'what is sent is not the message followed by the suffix')
            expect(pol, sc, fn, 'list', pol.listok(sc.eng, s1, els, spec) is None, 'the list is not left as it was')
    fn = 'dill_suffix_mrecvl'
    msgs = [[inb(i) for i in range(n)] for n in range(5)]
    # parts of the suffix inside of the message
    for j in range(1, k):
        msgs.append([inb(0)] + suf[:j] + [inb(1)])
        msgs.append(suf[:j] + [inb(1)])
        if not any((suf[:j] + suf)[i:i + k] == suf for i in range(j)):
            msgs.append([inb(0)] + suf[:j])
    for m in msgs:
        for lens in SHAPES:
            pol, sc = scene(sub, prog, '%s, %d bytes into %s' % (text, len(m), shapetext(lens)), stream=m + suf + [inb(50)] + suf + [inb(99)])
            st, s = mk_suffix(sub, prog, sc, pol, suf)
            two_messages(pol, sc, st, s, fn, (m, [inb(50)]), (len(m) + k, len(m) + 1 + 2 * k), lens)


def mk_term(sc, pol, term):
    st = sc.state('msock')
    b = shape('bufterm')
    pol.size[b] = len(term)
    for i, c in enumerate(term):
        st.mem[(b, i, ())] = (c, 8)
    return sc.one(st, 'dill_term_attach_mem', 5, b if term else 0, len(term), shape('mem'))


def term(sub, prog, t):
    t = [ord(c) for c in t]
    k = len(t)
    text = 'terminator of %d bytes' % k
    for lens in ([0], [1], [3], [1, 1], [0, 2], [1, 0], [2, 1, 1], [600, 1]):
        pol, sc = scene(sub, prog, '%s, sending %s' % (text, shapetext(lens)))
        st, s = mk_term(sc, pol, t)
        spec = bufs(pol, lens)
        els = pol.mklist(sc.eng, st, spec)
        for s1, r in sc.call(st, 'dill_msendl', s, els[0], els[-1], -1):
            expect(pol, sc, 'dill_term_msendl', 'body', r == 0 and list(s1.ps['out']) == sent(spec) + ['end'], 'what is sent is not the message')
            expect(pol, sc, 'dill_term_msendl', 'list', pol.listok(sc.eng, s1, els, spec) is None, 'the list is not left as it was')
            for s2, r2 in sc.call(s1, 'dill_term_done', s, -1):
                expect(pol, sc, 'dill_term_done', 'terminator', r2 == 0 and list(s2.ps['out']) == sent(spec) + ['end'] + t + ['end'],
                       'what is sent at the end is not the terminator')
    fn = 'dill_term_mrecvl'
    # a message, then the terminator, then another message which belongs to nobody here
    ms = [[inb(i) for i in range(n)] for n in range(1 if not k else 0, 6)]
    for j in range(1, k):
        ms.append(t[:j])
    if k:
        ms += [t + [inb(0)], [inb(0)] + t, t[:-1] + [inb(0)]]
    for m in ms:
        for lens in SHAPES:
            pol, sc = scene(sub, prog, '%s, %d bytes into %s' % (text, len(m), shapetext(lens)), stream=m + t + [inb(99)] * 3, msgs=(len(m), k, 3))
            st, s = mk_term(sc, pol, t)
            for s1, r, spec, els, bad in receive(pol, sc, st, s, lens, 'a'):
                room = sum(n for b, n in spec)
                expect(pol, sc, fn, 'list', bad is None, 'the list is not left as it was')
                if lens and len(m) > room:
                    expect(pol, sc, fn, 'toolong', r == -1 and errno_of(sc, s1) == 90,
                           'a message that is longer than the buffers is not refused with EMSGSIZE')
                    continue
                expect(pol, sc, fn, 'size', r == len(m), 'what is returned is not the size of the message')
                expect(pol, sc, fn, 'content', got(sc, s1, spec) == want(m, spec), 'the message is not stored as it was sent')
                expect(pol, sc, fn, 'consumed', s1.ps['msg'] == 1, 'takes more than one message')
                for lens2 in (lens, [4]):
                    if lens2 and sum(n if isinstance(n, int) else n[1] for n in lens2) < k:
                        continue
                    for s2, r2, spec2, els2, bad2 in receive(pol, sc, s1, s, lens2, 'b'):
                        expect(pol, sc, fn, 'terminator', r2 == -1 and errno_of(sc, s2) == 32, 'the terminator is not reported as the end of the stream')
                        expect(pol, sc, fn, 'consumed', s2.ps['msg'] == 2, 'takes more than the terminator')
                        expect(pol, sc, fn, 'content', got(sc, s2, spec2) == want([], spec2), 'the terminator is handed to the caller')
                        for s3, r3, spec3, els3, bad3 in receive(pol, sc, s2, s, [4], 'c'):
                            expect(pol, sc, fn, 'terminator', r3 == -1 and errno_of(sc, s3) == 32 and s3.ps['msg'] == 2, 'receives after the terminator')


def tasks(ctx):
    t = []
    for h in (1, 2, 3, 4, 5, 6, 7, 8, 9):
        for fl in (0, LE):
            t.append((prefix_send, h, fl))
            t.append((prefix_recv, h, fl))
    t += [(suffix, x) for x in ('a', 'ab', 'aa', 'aab', 'abab')]
    t += [(term, x) for x in ('', 'a', 'ab', 'aab')]
    return t


def check(ctx):
    for r, t in (('header, limit, refused', 'a message is preceded by its exact size; one that does not fit is refused before anything is sent'),
                 ('decode', 'the size received is what the header says'), ('body', 'what is sent is the message, and the suffix'),
                 ('size, content, consumed', 'a message received is what was sent, its size is returned and exactly its bytes are taken'),
                 ('toolong', 'a message longer than the buffer is refused with EMSGSIZE'), ('terminator', 'the terminator ends the stream, and only it'),
                 ('list', 'the list is left as it was'), ('C26-*', 'no access beyond buffers, no failing assertion, no undefined value, no malformed list on the way')):
        ctx.rule(r, t)
    run_wire(ctx, tasks(ctx))
    ctx.minimum('obligations', 5000)
