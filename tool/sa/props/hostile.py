"""Scenarios shared by the checks on what peers, errors and odd arguments may do (C19, C27)."""
from props.wire import *
import props.c18 as c18
import props.c25 as c25
import props.c26 as c26
import props.c35 as c35
import props.c36 as c36
import props.fdpass as fdpass
from props.c35 import string, buffer, tok

NEG1 = -1


def keep(sub, inner, prop, kinds):
    """results of inner, restricted to the kinds of violation given"""
    for e in inner.scenes:
        inner.take(e)
    inner.scenes = []
    for rule, func, detail, loc, trace, cfg in inner.r['viol']:
        k = 'loop' if rule == 'diverge' else rule.rsplit('-', 1)[-1]
        if k in kinds and (rule == 'diverge' or rule[0] == 'C' or rule.startswith('fd-')):
            sub.violation('%s-%s' % (prop, k), func, detail, loc, trace)
    for k, n in inner.r['cnt'].items():
        if k not in ('obligations',):
            sub.count(k, n)
    sub.r['funcs'] |= inner.r['funcs']
    sub.r['notes'] += inner.r['notes']
    sub.r['broken'] += inner.r['broken']


def only(sub, prog, prop, kinds, f, *args):
    inner = Sub(sub.config)
    f(inner, prog, *args)
    inner.count('scenarios', len(inner.scenes))
    keep(sub, inner, prop, kinds)


def tasks(ctx, prop, kinds):
    t = c25.tasks(ctx) + c26.tasks(ctx) + c35.tasks(ctx) + c36.tasks(ctx) + [(fdpass.recv,), (fdpass.send,)]
    t += [x for x in c18.tasks(ctx) if x[0] in (c18.framed, c18.dgram, c18.starved, c18.stream_send)]
    t += [x for x in c18.tasks(ctx) if x[0] is c18.stream_recv and len(x[2]) == len(c18.SHAPES[:6])]
    return [(only, prop, kinds) + x for x in t + extra(ctx)]


def extra(ctx):
    return [(life, p) for p in PROTOS] + [(build, g) for g in BUILD] + [(limits, g) for g in LIMITS]


# ---- errors of the system

PROTOS = c18.STREAMS + c18.FRAMED + ('udp', 'http')


class P(fdpass.P):
    rule = 'C27'
    ctl = (('rights', 2),)

    def sys(self, eng, st, ins, args, site):
        return [(st, 0)] + ([self.errfork(eng, st, ins, site)] if self.failures else [])

    def never(self, eng, st, ins, args, site):
        return [(st, 0)]

    c_connect = c_bind = c_listen = c_getsockname = c_unlink = sys
    c_setsockopt = never

    def c_getsockopt(self, eng, st, ins, args, site):
        # the error of a connection that was being made
        out = []
        n = eng.load(st, args[4], 32)
        if isinstance(n, int) and isinstance(split(args[3])[0], tuple):
            self.bounds(eng, st, args[3], n, ins, 'lets the system write')
            for v in (0, 111) if self.failures else (0,):
                s = st.copy()
                eng.store(s, args[3], v, 32)
                out.append((s, 0))
        else:
            out.append((st, 0))
        return out + ([self.errfork(eng, st, ins, site)] if self.failures else [])

    def c_shutdown(self, eng, st, ins, args, site):
        out = [(st, 0)]
        if self.failures:
            # the other errors are those of a caller that passes nonsense
            out += [self.errfork(eng, st, ins, site, e) for e in (107, 105)]
        return out

    def c_accept(self, eng, st, ins, args, site):
        out = []
        if args[1] != 0:
            n = eng.load(st, args[2], 32)
            if not isinstance(n, int):
                raise AnalysisBroken('accept with an undetermined size')
            self.bounds(eng, st, args[1], min(n, 28), ins, 'lets the system write')
            eng.store(st, args[1], 2, 16)
        s = st.copy()
        out.append((s, 78))
        if self.failures:
            if st.ps.get('refused', 0) < 2:
                s, r = self.errfork(eng, st, ins, site)
                s.ps['refused'] = s.ps.get('refused', 0) + 1
                out.append((s, r))
            if not st.ps.get('blocked'):
                s, r = self.errfork(eng, st, ins, site, E['EAGAIN'])
                s.ps['blocked'] = True
                out.append((s, r))
        return out

    def c_socket(self, eng, st, ins, args, site):
        return [(st, DGRAM if args[1] == 2 else 77)] + ([self.errfork(eng, st, ins, site)] if self.failures else [])

    def c_socketpair(self, eng, st, ins, args, site):
        s = st.copy()
        eng.store(s, args[3], 77, 32)
        eng.store(s, padd(args[3], 4), 78, 32)
        return [(s, 0)] + ([self.errfork(eng, st, ins, site)] if self.failures else [])

    def c_malloc(self, eng, st, ins, args, site):
        r = Wire.c_malloc(self, eng, st, ins, args, site)
        if self.failures:
            s = st.copy()
            eng.set_errno(s, 12)
            r = list(r) + [(s, 0)]
        return r

    def c_SSL_shutdown(self, eng, st, ins, args, site):
        out = []
        for v in (0, 1):
            s = st.copy()
            s.ps['ssl'] = 0
            out.append((s, v))
        if self.failures:
            for code in (5, 1):
                s, r = self.errfork(eng, st, ins, site)
                s.ps['ssl'] = code
                out.append((s, r))
            s = st.copy()
            eng.set_errno(s, 0)
            s.ps['ssl'] = 6
            out.append((s, 0))
        return out

    def c_SSL_connect(self, eng, st, ins, args, site):
        st.ps['ssl'] = 0
        out = [(st, 1)]
        if self.failures:
            for code in (5, 1, 6):
                s, r = self.errfork(eng, st, ins, site)
                s.ps['ssl'] = code
                out.append((s, r if code != 6 else 0))
        return out

    c_SSL_accept = c_SSL_connect

    def c_SSL_CTX_use_certificate_file(self, eng, st, ins, args, site):
        out = [(st, 1)]
        if self.failures:
            s = st.copy()
            out.append((s, 0))
        return out

    c_SSL_CTX_use_PrivateKey_file = c_SSL_CTX_use_certificate_file


def using(cls, f, *args, **kw):
    old = c18.P
    c18.P = cls
    try:
        return f(*args, **kw)
    finally:
        c18.P = old


def ops(pol, st, proto):
    """calls on an object: name -> (function, arguments after the handle)"""
    b = buffer(pol, 'data', 3)
    o = {}
    if proto in c18.STREAMS:
        o.update({'send': ('dill_bsend', (b, 3, -1)), 'send nothing': ('dill_bsend', (b, 0, -1)), 'receive': ('dill_brecv', (b, 2, -1)),
                  'skip': ('dill_brecv', (0, 2, -1)), 'receive nothing': ('dill_brecv', (b, 0, -1)), 'send without a list': ('dill_bsendl', (0, 0, -1)),
                  'skip everything': ('dill_brecvl', (0, 0, -1))})
        o['done'] = ('dill_%s_done' % proto, (-1,))
        o['end'] = ('dill_%s_close' % proto, (-1,)) if proto != 'tls' else ('dill_tls_detach', (-1,))
        if proto == 'ipc':
            o['pass a descriptor'] = ('dill_ipc_sendfd', (55, -1))
            o['take a descriptor'] = ('dill_ipc_recvfd', (-1,))
    elif proto == 'udp':
        a = c18.addr(pol, st)
        z = buffer(pol, 'from', 32)
        o.update({'send': ('dill_udp_send', (0, b, 3)), 'send to': ('dill_udp_send', (a, b, 3)), 'receive': ('dill_udp_recv', (0, b, 3, -1)),
                  'receive from': ('dill_udp_recv', (z, b, 3, -1)), 'message': ('dill_msend', (b, 3, -1)), 'take a message': ('dill_mrecv', (b, 3, -1)),
                  'drop a message': ('dill_mrecvl', (0, 0, -1)), 'drop': ('dill_udp_recvl', (0, 0, 0, -1)), 'receive nothing': ('dill_mrecv', (b, 0, -1)),
                  'send nothing': ('dill_udp_send', (0, b, 0))})
    elif proto == 'http':
        n, v = buffer(pol, 'name', 3), buffer(pol, 'value', 3)
        k = string(pol, 'text', tok('t', 2))
        o.update({'request': ('dill_http_recvrequest', (n, 3, v, 3, -1)), 'status': ('dill_http_recvstatus', (n, 3, -1)),
                  'field': ('dill_http_recvfield', (n, 3, v, 3, -1)), 'send a request': ('dill_http_sendrequest', (k, k, -1)),
                  'send a status': ('dill_http_sendstatus', (200, k, -1)), 'send a field': ('dill_http_sendfield', (k, k, -1)),
                  'done': ('dill_http_done', (-1,)), 'end': ('dill_http_detach', (-1,))})
    else:
        o.update({'send': ('dill_msend', (b, 3, -1)), 'send nothing': ('dill_msend', (b, 0, -1)), 'receive': ('dill_mrecv', (b, 3, -1)),
                  'receive too much': ('dill_mrecv', (b, 1, -1)), 'drop': ('dill_mrecvl', (0, 0, -1)), 'receive nothing': ('dill_mrecv', (b, 0, -1))})
        k = proto.split()[0]
        if k in ('suffix', 'term'):
            o['end'] = ('dill_%s_detach' % k, (-1,))
        if k == 'prefix':
            o['end'] = ('dill_prefix_detach', ())
        if k == 'term':
            o['done'] = ('dill_term_done', (-1,))
        if k == 'ws':
            z, f = buffer(pol, 'status', 4), buffer(pol, 'flags', 4)
            o.update({'done': ('dill_ws_done', (1000, 0, 0, -1)), 'done with a reason': ('dill_ws_done', (1001, b, 3, -1)), 'end': ('dill_ws_detach', (0, 0, 0, -1)),
                      'status': ('dill_ws_status', (z, b, 3)), 'is it closed': ('dill_ws_status', (0, 0, 0)), 'typed': ('dill_ws_recv', (f, b, 3, -1)),
                      'untyped': ('dill_ws_recv', (0, b, 3, -1)), 'why': ('dill_ws_status', (z, 0, 0))})
    o['close'] = ('dill_hclose', ())
    return o


def incoming(proto):
    """what the peer sends: several byte sequences"""
    x = [inb(i) for i in range(8)]
    if proto in c18.STREAMS + ('udp', 'term'):
        return [x]
    if proto == 'http':
        return [x[:1] + [32] + x[1:2] + list(b' HTTP/1.1\r\n\r\n') + x[:1] + [58, 32] + x[2:3] + [13, 10, 13, 10], list(b'\r\n\r\n\r\n'), list(b'HTTP/1.1 200 x\r\nHTTP/1.1 20\r\n\r\n'),
                list(b'\r\n') * 4, list(b': \r\n :\r\n\r\n')]
    if proto == 'suffix':
        return [x[:2] + [13, 10, 13, 10] + x[2:] + [13, 10], [13, 10] * 3]
    if proto == 'prefix':
        return [[0, 2] + x[:2] + [0, 0, 0, 1] + x[:1] + [255, 255], [255, 255], [0, 4] + x[:4] + [0, 0]]
    m = [] if proto == 'ws client' else [7, 7, 7, 7]
    f = lambda op, p: [op, len(p) | (0x80 if m else 0)] + m + p
    k = (lambda a: [v ^ 7 for v in a]) if m else (lambda a: a)
    return [f(0x82, x[:2]) + f(0x81, x[2:3]) + f(0x88, k([3, 232])), f(0x88, []) * 2, f(0x88, k([3, 233] + [65] * 5)), f(2, x[:2]) + f(0x88, []), f(0x80, x[:1]), f(0x88, k([3]))]


def newobj(sub, prog, proto, text, stream, **kw):
    msgs = (2, 0, 3) if proto in ('term', 'udp') else ()
    if proto == 'http':
        pol = P(sub, prog, stream=list(stream), parts=False, **kw)
        pol.scenario, pol.strs = 'http, ' + text, {}
        sc = Scene(pol)
        st = sc.state('bsock')
        f, pol.failures = pol.failures, False
        st, s = sc.one(st, 'dill_http_attach_mem', 5, shape('mem'))
        pol.failures = f
        st.ps.update(io=0, out=(), pos=0)
        return pol, sc, st, s
    r = using(P, c18.make, sub, prog, proto, text, stream=stream, msgs=msgs, parts=False, **kw)
    r[0].strs = dict(r[0].strs)
    return r


def call(sc, st, s, op):
    """a call of one of the operations; closing may hit any object"""
    fn, args = op
    if fn == 'dill_hclose':
        h = dict(st.ps['h'])
        if s not in h or h[s][:2] == ('s', 'under'):
            return []
        o = h[s]
        f = sc.pol.resolve(sc.eng, st, sc.eng.load(st, fld(sc.eng.prog, o, 'dill_hvfs', 'close'), 64), 'close')
        st = st.copy()
        h.pop(s)
        st.ps['h'] = tuple(sorted(h.items(), key=repr))
        return [(a, 0) for a, b in sc.call(st, f.name, o)]
    return sc.call(st, fn, s, *args)


def life(sub, prog, proto):
    for stream in incoming(proto):
        pol, sc, st, s = newobj(sub, prog, proto, '', stream, failures=True, blocks=proto in c18.STREAMS)
        o = ops(pol, st, proto)
        st.ps.pop('failed', None)
        after = {}
        for n, op in o.items():
            pol.scenario = '%s, %s' % (proto, n)
            after[n] = call(sc, st, s, op)
            sub.count('operations')
        for n in o:
            seen = set()
            for s1, r in after[n]:
                if n in ('close', 'end') and s not in dict(s1.ps['h']):
                    continue
                k = (repr(r) if isinstance(r, int) else 'x', s1.ps['pos'], s1.ps.get('msg'), bool(s1.ps.get('failed')), repr(sorted(
                    (repr(a), repr(v)) for a, v in s1.mem.items() if a[0] == shape('mem'))))
                if k in seen:
                    continue
                seen.add(k)
                for n2, op in o.items():
                    pol.scenario = '%s, %s%s, then %s' % (proto, n, ' failing' if s1.ps.get('failed') else '', n2)
                    s2 = s1.copy()
                    s2.ps['blocked'] = False
                    call(sc, s2, s, op)
                    sub.count('operations')


# ---- making objects, with everything that may fail failing

BUILD = ('tcp', 'udp', 'ipc', 'layers', 'ws', 'tls')


def fresh(sub, prog, text, stream=(), under='bsock', **kw):
    pol = P(sub, prog, stream=list(stream), parts=False, failures=True, **kw)
    pol.scenario = text
    pol.strs = {'strpath': b'/x'}
    pol.size[shape('strpath')] = 3
    sc = Scene(pol)
    return pol, sc, sc.state(under)


def build(sub, prog, g):
    mem = shape('mem')

    def one(fn, *args, stream=(), under='bsock', **kw):
        pol, sc, st = fresh(sub, prog, 'making it', stream, under)
        a = [x(pol, st) if callable(x) else x for x in args]
        sub.count('constructions')
        return pol, sc, sc.call(st, fn, *a)
    addr = lambda pol, st: c18.addr(pol, st)
    path = shape('strpath')
    if g == 'tcp':
        one('dill_tcp_connect_mem', addr, mem, -1)
        one('dill_tcp_connect', addr, -1)
        one('dill_tcp_fromfd_mem', 77, mem)
        one('dill_tcp_fromfd', 77)
        for fn, x in (('dill_tcp_listen_mem', (addr, 5, mem)), ('dill_tcp_listen', (addr, 5)), ('dill_tcp_listener_fromfd_mem', (77, mem))):
            pol, sc, out = one(fn, *x)
            for st, r in out:
                if isinstance(r, int) and r >= 0:
                    z = buffer(pol, 'from', 32)
                    pol.scenario = 'accepting'
                    for a in (0, z):
                        st1 = st.copy()
                        sc.call(st1, 'dill_tcp_accept_mem', r, a, shape('mem2'), -1)
                        sc.call(st1, 'dill_tcp_accept', r, a, -1)
                    call(sc, st, r, ('dill_hclose', ()))
    elif g == 'udp':
        for l in (0, addr):
            for r in (0, addr):
                one('dill_udp_open_mem', l, r, mem)
                one('dill_udp_open', l, r)
    elif g == 'ipc':
        one('dill_ipc_connect_mem', path, mem, -1)
        one('dill_ipc_connect', path, -1)
        one('dill_ipc_fromfd_mem', 77, mem)
        pair = lambda pol, st: buffer(pol, 'pair', 8)
        one('dill_ipc_pair', pair)
        one('dill_ipc_pair_mem', mem, pair)
        for fn, x in (('dill_ipc_listen_mem', (path, 5, mem)), ('dill_ipc_listen', (path, 5)), ('dill_ipc_listener_fromfd_mem', (77, mem))):
            pol, sc, out = one(fn, *x)
            for st, r in out:
                if isinstance(r, int) and r >= 0:
                    sc.call(st, 'dill_ipc_accept_mem', r, shape('mem2'), -1)
                    sc.call(st, 'dill_ipc_accept', r, -1)
                    call(sc, st, r, ('dill_hclose', ()))
    elif g == 'layers':
        end = lambda pol, st: buffer(pol, 'end', 2)
        for h in (5, 9, -1):
            for under in ('bsock', 'msock'):
                for x in (('dill_prefix_attach', 2, 0), ('dill_suffix_attach', end, 2), ('dill_term_attach', end, 2), ('dill_http_attach',)):
                    one(x[0], h, *x[1:], under=under)
                    one(x[0] + '_mem', h, *(x[1:] + (mem,)), under=under)
    elif g == 'ws':
        for under in ('bsock', 'msock'):
            for fl in (2, 3):
                one('dill_ws_attach_server_mem', 5, fl, 0, 0, 0, 0, mem, -1, under=under)
                one('dill_ws_attach_client_mem', 5, fl, 0, 0, mem, -1, under=under)
                one('dill_ws_attach_server', 5, fl, 0, 0, 0, 0, -1, under=under)
                one('dill_ws_attach_client', 5, fl, 0, 0, -1, under=under)
    elif sub.config == 'default':
        one('dill_tls_attach_client_mem', 5, mem, -1)
        one('dill_tls_attach_client', 5, -1)
        for c in (0, path):
            for k in (0, path):
                one('dill_tls_attach_server_mem', 5, c, k, mem, -1)


# ---- arguments and lines at the limits of fixed buffers

LIMITS = ('http', 'attach', 'path', 'text', 'status')


class Q(c35.P):
    rule = 'C19'
    max_visits = 3000


def limits(sub, prog, g):
    if g == 'http':
        for n in (1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1100):
            for fn in ('request', 'status', 'field'):
                line = tok('x', n)
                if fn == 'field':
                    line[3] = 58
                pol, sc, st = c35.scene(sub, prog, 'a line of %d characters' % n, line + [13, 10] + tok('z', 2), cls=Q)
                st, s = sc.one(st, 'dill_http_attach_mem', 5, shape('mem'))
                a, b = buffer(pol, 'a', 8), buffer(pol, 'b', 1200)
                x = (s, a, 8, b, 1200, -1) if fn != 'status' else (s, b, 1200, -1)
                sc.call(st, 'dill_http_recv' + fn, *x)
    elif g == 'attach':
        for k, under in (('suffix', 'bsock'), ('term', 'msock')):
            for n in list(range(0, 5)) + list(range(28, 40)) + [63, 64, 65, 127, 128, 129, 255, 256]:
                pol, sc, st = c35.scene(sub, prog, '%s of %d bytes' % (k, n), cls=Q)
                st = sc.state(under)
                b = buffer(pol, 'end', n)
                for s1, r in sc.call(st, 'dill_%s_attach_mem' % k, 5, b, n, shape('mem')):
                    if isinstance(r, int) and r >= 0 and under == 'bsock':
                        d = buffer(pol, 'data', 3)
                        sc.call(s1, 'dill_msend', r, d, 3, -1)
    elif g == 'path':
        for n in (1, 50, 90, 91, 92, 103, 104, 105, 106, 107, 108, 109, 110, 200):
            for fn, x in (('connect', (shape('mem'), -1)), ('listen', (5, shape('mem')))):
                pol, sc, st = fresh(sub, prog, 'a path of %d bytes' % n)
                pol.rule, pol.failures = 'C19', False
                p = string(pol, 'path', tok('p', n))
                sc.call(st, 'dill_ipc_%s_mem' % fn, p, *x)
    elif g == 'text':
        for f in (2, 10):
            pol, sc, st = c36.scene(sub, prog, 'an address of family %d' % f)
            pol.rule = 'C19'
            p, b = buffer(pol, 'address', 32), buffer(pol, 'text', 46)
            c36.setaddr(sc.eng, st, p, f, 80, tok('a', 16))
            sc.call(st, 'dill_ipaddr_str', p, b)
            for fn in ('dill_ipaddr_family', 'dill_ipaddr_len', 'dill_ipaddr_sockaddr', 'dill_ipaddr_port'):
                sc.call(st, fn, p)
            sc.call(st, 'dill_ipaddr_setport', p, 99)
            p2 = buffer(pol, 'other', 32)
            for f2 in (2, 10):
                st2 = st.copy()
                c36.setaddr(sc.eng, st2, p2, f2, 80, tok('a', 16))
                for ig in (0, 1):
                    sc.call(st2, 'dill_ipaddr_equal', p, p2, ig)
    elif g == 'status':
        # what a close frame carried, into buffers of every size
        for role in (False, True):
            for n in (0, 1, 2, 3, 10, 122, 123):
                for size in sorted({0, 1, n - 1, n, n + 1, 130}):
                    if size < 0:
                        continue
                    m = [7, 7, 7, 7] if role else []
                    body = [3, 232] + [65] * n
                    if role:
                        body = [v ^ 7 for v in body]
                    stream = [0x88, len(body) | (0x80 if role else 0)] + m + body
                    pol, sc, st, s = using(P, c18.make, sub, prog, 'ws server' if role else 'ws client', 'a reason of %d bytes into %d' % (n, size), stream=stream, parts=False)
                    pol.rule = 'C19'
                    b = buffer(pol, 'data', 4)
                    for s1, r in sc.call(st, 'dill_mrecv', s, b, 4, -1):
                        z, t = buffer(pol, 'status', 4), buffer(pol, 'reason', size)
                        for a in (z, 0):
                            sc.call(s1, 'dill_ws_status', s, a, t, size)
                    for s1, r in sc.call(st, 'dill_ws_done', s, 1000, buffer(pol, 'why', n), n, -1):
                        pass
