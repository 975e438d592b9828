"""Descriptors passed over a local socket: what arrives is returned or closed, what is sent is the descriptor given."""
from props.wire import *
import props.c18 as c18

LEVEL, RIGHTS, CREDS = 1, 1, 2


class P(c18.P):
    rule = 'fd'
    ctl = ()            # control messages the peer sends: ('rights', n) or ('creds',)

    def hdr(self, eng, st, p, name):
        return eng.load(st, fld(self.prog, p, 'msghdr', name), 64)

    def c_recvmsg(self, eng, st, ins, args, site):
        out = []
        f = lambda n: fld(self.prog, args[1], 'msghdr', n)
        res = Wire.c_recvmsg(self, eng, st, ins, args, site)
        for s, r in res:
            if not isinstance(r, int) or r <= 0:
                out.append((s, r))
                continue
            p, room = eng.load(s, f('msg_control'), 64), eng.load(s, f('msg_controllen'), 64)
            if p == 0 or room == 0:
                out.append((s, r))
                continue
            if not isinstance(room, int):
                raise AnalysisBroken('undetermined room for control messages')
            self.bounds(eng, s, p, room, ins, 'lets the system write')
            at = 0
            for c in self.ctl:
                left = room - at - 16
                if left < (12 if c[0] == 'creds' else 4):
                    break
                n = 12 if c[0] == 'creds' else 4 * min(c[1], left // 4)
                eng.store(s, padd(p, at), 16 + n, 64)
                eng.store(s, padd(p, at + 8), LEVEL, 32)
                eng.store(s, padd(p, at + 12), CREDS if c[0] == 'creds' else RIGHTS, 32)
                for i in range(n // 4):
                    v = 4242
                    if c[0] == 'rights':
                        v = s.ps.get('nrights', 0)
                        s.ps['nrights'] = v + 1
                        v += 200
                    eng.store(s, padd(p, at + 16 + 4 * i), v, 32)
                at = min(room, at + (16 + n + 7) // 8 * 8)
            eng.store(s, f('msg_controllen'), at, 64)
            out.append((s, r))
        return out

    def c___cmsg_nxthdr(self, eng, st, ins, args, site):
        f = lambda n: eng.load(st, fld(self.prog, args[0], 'msghdr', n), 64)
        p, room = f('msg_control'), f('msg_controllen')
        n = eng.load(st, args[1], 64)
        if not isinstance(n, int) or n < 16:
            return [(st, 0)]
        b, o, ix = split(args[1])
        b0, o0, ix0 = split(p)
        nx = o + (n + 7) // 8 * 8
        if b != b0 or ix or ix0 or nx + 16 > o0 + room:
            return [(st, 0)]
        m = eng.load(st, padd(p, nx - o0), 64)
        if not isinstance(m, int) or nx + (m + 7) // 8 * 8 > o0 + room:
            return [(st, 0)]
        return [(st, padd(p, nx - o0))]

    def c_close(self, eng, st, ins, args, site):
        st.ps['gone'] = st.ps.get('gone', ()) + (args[0],)
        return [(st, 0)]

    def c_setsockopt(self, eng, st, ins, args, site):
        if isinstance(args[0], int) and 200 <= args[0] < 4000:
            st.ps['changed'] = args[0]
        return [(st, 0)]

    def c_sendmsg(self, eng, st, ins, args, site):
        f = lambda n: eng.load(st, fld(self.prog, args[1], 'msghdr', n), 64)
        p, n = f('msg_control'), f('msg_controllen')
        if p == 0 or n == 0:
            return Wire.c_sendmsg(self, eng, st, ins, args, site)
        if not isinstance(n, int):
            raise AnalysisBroken('undetermined size of control messages')
        self.bounds(eng, st, p, n, ins, 'lets the system read')
        got = tuple(eng.load(st, padd(p, o), w) if o + w // 8 <= n else None for o, w in ((0, 64), (8, 32), (12, 32), (16, 32)))
        out = Wire.c_sendmsg(self, eng, st, ins, args, site)
        for s, r in out:
            if isinstance(r, int) and r >= 0:
                s.ps['passed'] = s.ps.get('passed', ()) + (got,)
        return out


def make(sub, prog, text, cls, stream, **kw):
    old = c18.P
    c18.P = cls
    try:
        return c18.make(sub, prog, 'ipc', text, stream=stream, **kw)
    finally:
        c18.P = old


def recv(sub, prog, rule='fd'):
    fn = 'dill_ipc_recvfd'
    plans = [(('rights', n),) for n in (1, 2, 3, 4, 10, 251, 252, 253)]
    plans += [(('creds',),), (('creds',), ('rights', 1)), (('creds',), ('rights', 2)), (('rights', 1), ('creds',)), (('rights', 1), ('rights', 2)), ()]
    for plan in plans:
        class Q(P):
            ctl = plan
        Q.rule = rule
        pol, sc, st, s = make(sub, prog, 'the peer sends %s' % (' and '.join('%d descriptors' % c[1] if c[0] == 'rights' else 'credentials' for c in plan) or 'no descriptor'),
                              Q, [inb('byte'), inb('next')], failures=len(plan) < 2, blocks=True, parts=False)
        st.ps['gone'] = ()
        for s1, r in sc.call(st, fn, s, -1):
            n = s1.ps.get('nrights', 0)
            gone = [x for x in s1.ps['gone']]
            expect(pol, sc, fn, 'fd-changed', 'changed' not in s1.ps, 'changes the settings of a descriptor it only passes on')
            expect(pol, sc, fn, 'fd-leak', set(range(200, 200 + n)) <= set(gone) | {r}, 'a descriptor the peer sent is neither returned nor closed')
            expect(pol, sc, fn, 'fd-double', len(gone) == len(set(gone)) and r not in gone, 'a descriptor the peer sent is closed twice, or closed and returned')
            expect(pol, sc, fn, 'fd-pass', isinstance(r, int) and (200 <= r < 200 + n or r == -1), 'returns something that is no descriptor the peer sent')
            if n and not s1.ps.get('failed'):
                expect(pol, sc, fn, 'fd-pass', r != -1, 'fails although a descriptor arrived')
            if not n:
                expect(pol, sc, fn, 'fd-pass', r == -1, 'succeeds although no descriptor arrived')


def send(sub, prog, rule='fd'):
    fn = 'dill_ipc_sendfd'

    class Q(P):
        pass
    Q.rule = rule
    pol, sc, st, s = make(sub, prog, 'passing a descriptor', Q, [], failures=True, blocks=True, parts=False)
    fd = 55
    for s1, r in sc.call(st, fn, s, fd, -1):
        p = s1.ps.get('passed', ())
        if r == 0:
            expect(pol, sc, fn, 'fd-pass', p == ((20, LEVEL, RIGHTS, fd),), 'not exactly the descriptor given is sent, once')
            expect(pol, sc, fn, 'fd-pass', len(s1.ps['out']) == 1, 'not exactly one byte goes with the descriptor')
        else:
            expect(pol, sc, fn, 'fd-pass', r == -1 and p == (), 'fails although the descriptor was sent')
        expect(pol, sc, fn, 'fd-pass', fd not in s1.ps.get('gone', ()), 'closes the descriptor, which belongs to the caller')
