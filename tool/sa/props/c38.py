"""Happy Eyeballs: addresses are tried in turn, one connection comes out, nothing is left behind."""
import socket
from props.wire import *
from props.c35 import string, tok

EXPLAIN = """Abstract interpretation of happyeyeballs_connect and, at every launch of a coroutine, of what the coroutine does,
including the coroutines that one launches. Channels, the resolver, tcp_connect and the clock are models. First the messages that
the coroutines asking the resolver send are taken from the source; then the one that decides about attempts is interpreted
against every combination of none to three addresses per family and of the times at which the answers come, cancelled at every place where it
can be. The attempts on each path (time, address) are compared with the description: order, choice of the family, the 300 ms
between attempts, no address twice or never. Handles and connections are tracked through launches, channels and closes."""
ASSUME = ['channels, coroutines, timers and tcp_connect keep their contracts (checked as C02 to C07, C21, C22 and others)',
          'the times of the two answers and zero to three addresses per family stand for all others']

ECANCELED, ETIMEDOUT, EINVAL, ENOMEM, EMSGSIZE = 125, 110, 22, 12, 90
DEADLINE = ('s', 'ret', 'in', ('deadline',), 64)
V4, V6 = 1, 2


def address(mode, k, port):
    if mode == V4:
        return [2, 0, port >> 8, port & 255, 10, 0, 0, k + 1] + [0] * 24
    return [10, 0, port >> 8, port & 255] + [0] * 4 + [32, 1] + [0] * 13 + [k + 1] + [0] * 8


class P(Wire):
    rule = 'C38'
    failures = True
    max_visits = 4000
    counts = {V4: 0, V6: 0}     # what the resolver has
    script = None               # receiving end: (time, messages)
    port = 1

    # ---- errno, failures and being cancelled
    def fail(self, eng, st, code):
        s = st.copy()
        eng.set_errno(s, code)
        return s, -1

    def cancel(self, eng, st):
        s, r = self.fail(eng, st, ECANCELED)
        s.ps['cancelled'] = True
        return s, r

    def blocking(self, eng, st, ins, deadline):
        """-> outcomes for being cancelled, and whether there is any other"""
        if st.ps['cancelled']:
            return [self.fail(eng, st, ECANCELED)], False
        return ([self.cancel(eng, st)] if st.ps['role'] or self.failures else []), True

    def stale(self, eng, st):
        # (errno means nothing after a success)
        eng.set_errno(st, ECANCELED)
        return st

    # ---- handles
    def new(self, st, kind, n=None):
        # (the numbers of others do not depend on whether this one is 0)
        k = st.ps['nh']
        st.ps['nh'] = k + 1
        if n is None or n in [x[0] for x in st.ps['open']]:
            n = k
        st.ps['open'] = st.ps['open'] | frozenset([(n, kind, st.ps['role'])])
        return n

    def kind(self, eng, st, ins, h, what):
        self.sub.count('obligations')
        h = st.const(h)
        for n, k, r in st.ps['open']:
            if n == h:
                return k
        self.say(eng, st, ins, 'C38-handles', '%s with a handle that is not open' % what)
        raise Infeasible()

    def c_dill_chmake_mem(self, eng, st, ins, args, site):
        out = []
        if not st.ps['role']:
            out.append(self.errfork(eng, st, ins, site))
        self.bounds(eng, st, args[0], 144, ins, 'makes a channel in')
        a, b = self.new(st, 'ch'), None
        b = self.new(st, 'ch')
        st.ps['peer'] = st.ps['peer'] + ((a, b), (b, a))
        eng.store(st, args[1], a, 32)
        eng.store(st, padd(args[1], 4), b, 32)
        return out + [(st, 0)]

    def c_dill_chmake(self, eng, st, ins, args, site):
        r = self.c_dill_chmake_mem.__func__
        self.size.setdefault(shape('mem'), 1000)
        return r(self, eng, st, ins, [shape('mem'), args[0]], site)

    def c_dill_bundle_mem(self, eng, st, ins, args, site):
        self.bounds(eng, st, args[0], 64, ins, 'makes a bundle in')
        return [(st, self.new(st, 'bundle'))]

    def c_dill_bundle(self, eng, st, ins, args, site):
        return [(st, self.new(st, 'bundle'))]

    def c_dill_hclose(self, eng, st, ins, args, site):
        k = self.kind(eng, st, ins, args[0], 'hclose')
        h = st.const(args[0])
        if k == 'ch' and [x for x in st.ps['open'] if x[1] in ('bundle', 'coroutine') and x[2] == st.ps['role']]:
            self.say(eng, st, ins, 'C38-handles', 'closes a channel while coroutines that use it may be running')
        st.ps['open'] = frozenset(x for x in st.ps['open'] if x[0] != h)
        return [(st, 0)]

    # ---- launches
    def c_dill_prologue(self, eng, st, ins, args, site):
        self.sub.count('launches')
        b = st.const(args[3])
        if b is None:
            raise AnalysisBroken('a coroutine is launched in an unknown bundle')
        if b != -1 and self.kind(eng, st, ins, b, 'a launch') != 'bundle':
            self.say(eng, st, ins, 'C38-handles', 'launches in something that is not a bundle')
        if st.ps['cancelled']:
            return [self.fail(eng, st, ECANCELED)]
        out = []
        if not st.ps['role']:
            out.append(self.errfork(eng, st, ins, site))
        elif self.early:
            out.append(self.cancel(eng, st))
        eng.store(st, args[0], shape('ctx'), 64)
        eng.store(st, args[1], shape('stk'), 64)
        st.ps['ngo'] = st.ps['ngo'] + 1
        if b != -1:
            return out + [(self.stale(eng, st), 0)]
        for h in (0, None) if self.early else (None,):
            s = st.copy()
            out.append((self.stale(eng, s), self.new(s, 'coroutine', h)))
        return out

    early = True

    def setjmp(self, eng, st, ins, site):
        child = st
        parent = st.copy()
        # (what is open belongs to whoever launches)
        child.ps['role'] = child.ps['role'] + (child.ps['ngo'],)
        child.ps.update(ngo=0, sends=(), attempts=(), got=())
        res = [(parent, 1)]
        if self.follow(child.ps['role']):
            res.append((child, 0))
        if self.early and parent.ps['role']:
            # the launching coroutine is cancelled before it gets to run again
            s = parent.copy()
            s.ps['cancelled'] = True
            res.append((s, 1))
        return res

    def follow(self, role):
        return True

    def call(self, eng, st, ins, name, args, site):
        if name == '<asm>':
            from kernel import asm_kind
            return self.setjmp(eng, st, ins, site) if asm_kind(ins) == 'setjmp' else [(st, 0)]
        return Wire.call(self, eng, st, ins, name, args, site)

    def c___sigsetjmp(self, eng, st, ins, args, site):
        return self.setjmp(eng, st, ins, site)

    c__setjmp = c_sigsetjmp = c_setjmp = c___sigsetjmp

    def c_dill_epilogue(self, eng, st, ins, args, site):
        self.ended(eng, st, ins)
        return []

    def ended(self, eng, st, ins):
        self.sub.count('paths of coroutines')
        self.sub.count('obligations')
        left = [x for x in st.ps['open'] if x[2] == st.ps['role']]
        if left:
            self.say(eng, st, ins, 'C38-handles', 'ends without closing %s' % ', '.join(sorted({x[1] for x in left})))
        self.over.append(dict(st.ps))

    # ---- the outside
    def content(self, eng, st, ins, p, n, what):
        self.bounds(eng, st, p, n, ins, what)
        out = []
        for i in range(n):
            v = eng.load(st, padd(p, i), 8)
            out.append(v & 255 if isinstance(v, int) else v)
        return tuple(out)

    def c_inet_pton(self, eng, st, ins, args, site):
        s = [eng.load(st, padd(args[1], i), 8) for i in range(self.cstrlen(eng, st, ins, args[1]))]
        if not all(isinstance(c, int) for c in s):
            raise AnalysisBroken('a name is taken for a literal')
        try:
            b = socket.inet_pton(st.const(args[0]), bytes(s).decode())
        except (OSError, ValueError):
            return [(st, 0)]
        for i, c in enumerate(b):
            eng.store(st, padd(args[2], i), c, 8)
        return [(st, 1)]

    def c_htonl(self, eng, st, ins, args, site):
        v = st.const(args[0])
        return [(st, int.from_bytes((v & 0xffffffff).to_bytes(4, 'little'), 'big'))]

    def c_dill_ipaddr_remotes(self, eng, st, ins, args, site):
        n, port, mode = (st.const(args[i]) for i in (1, 3, 4))
        self.sub.count('obligations')
        if args[2] != shape('strname') or port != self.port or mode not in (V4, V6):
            self.say(eng, st, ins, 'C38-query', 'does not ask for the addresses of one family of the name, with the port')
            raise Infeasible()
        self.bounds(eng, st, args[0], 32 * n if isinstance(n, int) and n > 0 else 0, ins, 'has addresses stored in')
        if n is None or n < 10:
            self.say(eng, st, ins, 'C38-query', 'asks for less than ten addresses')
        if not (isinstance(args[5], int) and args[5] < 0):
            self.say(eng, st, ins, 'C38-query', 'gives up on the resolver')
        st.ps['query'] = mode
        out, on = self.blocking(eng, st, ins, args[5])
        if not on:
            return out
        out.append(self.errfork(eng, st, ins, site))
        for k in range(min(n, self.counts[mode])):
            for i, b in enumerate(address(mode, k, port)):
                eng.store(st, padd(args[0], 32 * k + i), b, 8)
        return out + [(self.stale(eng, st), min(n, self.counts[mode]))]

    def c_dill_tcp_connect(self, eng, st, ins, args, site):
        f = st.const(eng.load(st, args[0], 16))
        a = self.content(eng, st, ins, args[0], 32 if f else 2, 'reads an address from')
        # (the address as the coroutine sees it when it is launched)
        st.ps['attempts'] = st.ps['attempts'] + (a,)
        out, on = self.blocking(eng, st, ins, args[1])
        if not (isinstance(args[1], int) and args[1] < 0):
            self.say(eng, st, ins, 'C38-attempts', 'an attempt ends before it has failed')
        if not on:
            return out
        self.launched(eng, st, ins, a)
        out.append(self.errfork(eng, st, ins, site))
        for h in (0, None):
            s = st.copy()
            out.append((self.stale(eng, s), self.new(s, 'connection', h)))
        return out

    def launched(self, eng, st, ins, a):
        """an attempt is made by a coroutine: it has to be the address its parent received last"""
        self.sub.count('obligations')
        if st.ps['last'] is None or a != st.ps['last'][:len(a)]:
            self.say(eng, st, ins, 'C38-attempts', 'connects to something else than the address at hand')

    def c_dill_chsend(self, eng, st, ins, args, site):
        if self.kind(eng, st, ins, args[0], 'chsend') != 'ch':
            self.say(eng, st, ins, 'C38-handles', 'sends to something that is not a channel')
        n = st.const(args[2])
        if n is None:
            raise AnalysisBroken('a message of unknown size')
        if not (isinstance(args[3], int) and args[3] < 0):
            self.say(eng, st, ins, 'C38-attempts', 'gives up on handing a result over')
        out, on = self.blocking(eng, st, ins, args[3])
        if not on:
            return out
        m = self.content(eng, st, ins, args[1], n, 'sends')
        ch = st.const(args[0])
        st.ps['sends'] = st.ps['sends'] + ((ch, n, m),)
        for h, k, r in st.ps['open']:
            if k == 'connection' and n == 4 and m == tuple((h >> 8 * i) & 255 for i in range(4)):
                st.ps['open'] = frozenset(x for x in st.ps['open'] if x[0] != h)
                self.results.add(ch)
        return out + [(self.stale(eng, st), 0)]

    def peer(self, st, h):
        return dict(st.ps['peer']).get(h)

    def arrivals(self, st, h):
        """-> time, message of the next one at this end, or None"""
        t = (self.script or {}).get(h)
        k = st.ps['got'].count(h)
        if t is None or k >= len(t[1]):
            return None
        return t[0], t[1][k]

    def receive(self, eng, st, ins, h, p, n, m):
        if n != len(m):
            self.say(eng, st, ins, 'C38-attempts', 'receives messages of another size than those sent')
            raise Infeasible()
        self.bounds(eng, st, p, n, ins, 'receives in')
        for i, b in enumerate(m):
            eng.store(st, padd(p, i), b, 8)
        st.ps['got'] = st.ps['got'] + (h,)
        st.ps['last'] = m

    def c_dill_chrecv(self, eng, st, ins, args, site):
        if self.kind(eng, st, ins, args[0], 'chrecv') != 'ch':
            self.say(eng, st, ins, 'C38-handles', 'receives from something that is not a channel')
        h, n = st.const(args[0]), st.const(args[2])
        out, on = self.blocking(eng, st, ins, args[3])
        if not st.ps['role']:
            # a connection, or a failure of any kind
            if args[3] != DEADLINE:
                self.say(eng, st, ins, 'C38-result', 'waits with a deadline that is not the one given')
            self.sub.count('obligations')
            if n != 4:
                self.say(eng, st, ins, 'C38-result', 'receives something that is not a connection')
                raise Infeasible()
            self.waits.add(self.peer(st, h))
            out = [self.errfork(eng, st, ins, site)]
            for h in (0, None):
                s = st.copy()
                c = self.new(s, 'connection', h)
                eng.store(s, args[1], c, 32)
                s.ps['conn'] = c
                out.append((self.stale(eng, s), 0))
            return out
        if not on:
            return out
        d = st.const(args[3])
        if d is None:
            raise AnalysisBroken('an unknown deadline')
        if self.script is None:
            return out
        a = self.arrivals(st, h)
        if a is not None and (d < 0 or a[0] <= d):
            st.ps['now'] = max(st.ps['now'], a[0])
            self.receive(eng, st, ins, h, args[1], n, a[1])
            return out + [(self.stale(eng, st), 0)]
        if d < 0:
            return self.stuck(eng, st, ins, out)
        st.ps['now'] = max(st.ps['now'], d)
        return out + [self.fail(eng, st, ETIMEDOUT)]

    def stuck(self, eng, st, ins, out):
        """waits for ever: nothing is left to be done but to be cancelled"""
        for s, r in out:
            s.ps['alldone'] = True
        return out

    def c_dill_choose(self, eng, st, ins, args, site):
        n, d = st.const(args[1]), st.const(args[2])
        out, on = self.blocking(eng, st, ins, args[2])
        if not on or self.script is None:
            return out
        o = {k: self.prog.field('dill_chclause', k)[0] for k in ('op', 'ch', 'val', 'len')}
        size = self.prog.sizeof('dill_chclause')
        if n is None or d is None:
            raise AnalysisBroken('choose with an unknown number of clauses or deadline')
        self.bounds(eng, st, args[0], size * n, ins, 'hands clauses over in')
        best = None
        cl = []
        for i in range(n):
            p = padd(args[0], size * i)
            op, ch, ln = st.const(eng.load(st, padd(p, o['op']), 32)), st.const(eng.load(st, padd(p, o['ch']), 32)), st.const(eng.load(st, padd(p, o['len']), 64))
            if op != 2 or ch is None:
                raise AnalysisBroken('choose with clauses other than for receiving')
            self.kind(eng, st, ins, ch, 'choose')
            a = self.arrivals(st, ch)
            if a is None:
                continue
            t = max(a[0], st.ps['now'])
            if best is None or t < best[0]:
                best = (t, i, ch, eng.load(st, padd(p, o['val']), 64), ln, a[1])
        if best is not None and (d < 0 or best[0] <= d):
            st.ps['now'] = best[0]
            self.receive(eng, st, ins, best[2], best[3], best[4], best[5])
            eng.set_errno(st, 0)
            return out + [(st, best[1])]
        if d < 0:
            return self.stuck(eng, st, ins, out)
        st.ps['now'] = max(st.ps['now'], d)
        return out + [self.fail(eng, st, ETIMEDOUT)]

    def c_dill_msleep(self, eng, st, ins, args, site):
        out, on = self.blocking(eng, st, ins, args[0])
        if not on:
            return out
        d = st.const(args[0])
        if d is None and undef(args[0]):
            self.say(eng, st, ins, 'C38-undef', 'waits until a time that was never set')
            raise Infeasible()
        if d is None:
            raise AnalysisBroken('an unknown deadline')
        if d < 0:
            return self.stuck(eng, st, ins, out)
        st.ps['now'] = max(st.ps['now'], d)
        return out + [(self.stale(eng, st), 0)]

    def c_dill_yield(self, eng, st, ins, args, site):
        out, on = self.blocking(eng, st, ins, -1)
        return out + ([(st, 0)] if on else [])

    def c_dill_now(self, eng, st, ins, args, site):
        return [(st, st.ps['now'])]

    c_dill_mnow = c_dill_now


class Decide(P):
    """the coroutine that decides about attempts"""
    def follow(self, role):
        return len(role) == 1

    def setjmp(self, eng, st, ins, site):
        if st.ps['role'] and st.ps['last'] is not None:
            st.ps['attempts'] = st.ps['attempts'] + ((st.ps['now'], st.ps['last']),)
        r = P.setjmp(self, eng, st, ins, site)
        return r


T0 = 1000


def scene(sub, prog, text, cls, counts, name=True):
    pol = cls(sub, prog, stream=[], parts=False)
    pol.failures = True
    pol.scenario = text
    pol.strs = {}
    pol.over, pol.results, pol.waits = [], set(), set()
    pol.counts = counts
    sc = Scene(pol)
    st = sc.state('bsock')
    st.ps.update(nh=100, open=frozenset(), role=(), ngo=0, cancelled=False, peer=(), now=T0, last=None, sends=(), attempts=(), got=(), failed=False)
    string(pol, 'name', tok('n', 3))
    return pol, sc, st


FN = 'dill_happyeyeballs_connect'


def finish(pol, sc, s, r):
    left = [x for x in s.ps['open'] if x[2] == () and not (x[1] == 'connection' and x[0] == r)]
    expect(pol, sc, FN, 'C38-handles', not left, 'returns without closing %s' % ', '.join(sorted({x[1] for x in left})))
    if s.ps['failed']:
        expect(pol, sc, FN, 'C38-result', r == -1 and errno_of(sc, s) == s.ps.get('err'), 'does not report the error of the step that failed')
    else:
        expect(pol, sc, FN, 'C38-result', r == s.ps.get('conn') and (r, 'connection', ()) in s.ps['open'], 'does not return the connection')


def queries(sub, prog, counts):
    """-> what is sent where by those that ask the resolver: mode -> (channel end, messages)"""
    class Q(P):
        early = False

        def launched(self, eng, st, ins, a):
            pass
    pol, sc, st = scene(sub, prog, '%d and %d addresses' % (counts[V6], counts[V4]), Q, counts)
    for s, r in sc.call(st, FN, shape('strname'), pol.port, DEADLINE):
        finish(pol, sc, s, r)
    res = {}
    for ps in pol.over:
        m = ps.get('query')
        if m is None or len(ps['role']) != 2:
            continue
        chs = {c for c, n, b in ps['sends']}
        msgs = [b for c, n, b in ps['sends']]
        addrs = [b for b in msgs if [x for x in range(10) if list(b) == address(m, x, pol.port)]]
        if ps['failed']:
            expect(pol, sc, FN, 'C38-query', not addrs, 'hands over addresses although the lookup failed')
        elif not ps['cancelled']:
            want = [tuple(address(m, k, pol.port)) for k in range(min(10, counts[m]))]
            expect(pol, sc, FN, 'C38-query', addrs == want, 'hands over %d of the %d addresses found, in order' % (len(addrs), len(want)))
            expect(pol, sc, FN, 'C38-query', len(chs) <= 1, 'hands addresses of one family over in several places')
            if chs:
                res[m] = (chs.pop(), msgs)
    expect(pol, sc, FN, 'C38-query', {V4, V6} <= {ps.get('query') for ps in pol.over}, 'does not ask for the addresses of both families')
    if len({c for c, m in res.values()}) != len(res):
        expect(pol, sc, FN, 'C38-query', False, 'has the addresses of both families handed over in one place')
    return res


def peers(sub, prog):
    """handles of the channels, as made on every run"""
    pol, sc, st = scene(sub, prog, '', P, {V4: 0, V6: 0})
    sc.call(st, FN, shape('strname'), pol.port, DEADLINE)
    res = {}
    for ps in pol.over:
        res.update(dict(ps['peer']))
    return res


def decide(sub, prog, n6):
    pr = peers(sub, prog)
    for n4 in range(4):
        counts = {V4: n4, V6: n6}
        q = queries(sub, prog, counts)
        if V4 not in q or V6 not in q:
            continue
        for t6, t4 in ((0, 0), (10, 20), (20, 10), (100, 10), (10, 100), (100, 200), (200, 100), (700, 10), (10, 700), (460, 10), (460, 800), (800, 460),
                       (360, 370), (49, 10), (51, 10), (960, 970)):
            pol, sc, st = scene(sub, prog, '%d IPv6 addresses after %d ms, %d IPv4 addresses after %d ms' % (n6, t6, n4, t4), Decide, counts)
            pol.script = {pr[q[V6][0]]: (T0 + t6, q[V6][1]), pr[q[V4][0]]: (T0 + t4, q[V4][1])}
            for s, r in sc.call(st, FN, shape('strname'), pol.port, DEADLINE):
                finish(pol, sc, s, r)
            for ps in pol.over:
                timing(pol, sc, ps, {V6: (t6, n6), V4: (t4, n4)})


def timing(pol, sc, ps, plan):
    fam = {tuple(address(m, k, pol.port)): (m, k) for m in (V4, V6) for k in range(10)}
    left = {m: list(range(n)) for m, (t, n) in plan.items()}
    prev = None
    sub = pol.sub
    # launches before anything was received are those that ask the resolver
    for t, a in ps['attempts']:
        t -= T0
        sub.count('attempts')
        m, k = fam.get(a, (None, None))
        if not expect(pol, sc, FN, 'C38-attempts', m is not None, 'attempts to connect to something that was not found'):
            return
        if not expect(pol, sc, FN, 'C38-attempts', left[m][:1] == [k], 'attempts an address out of turn or twice'):
            return
        ready = {f: plan[f][0] for f in left if left[f]}
        if prev is None:
            if V6 in ready and plan[V6][0] <= 50:
                expect(pol, sc, FN, 'C38-attempts', m == V6, 'does not prefer IPv6')
                expect(pol, sc, FN, 'C38-attempts', t == plan[V6][0], 'first attempt is made %d ms after an IPv6 address was there' % (t - plan[V6][0]))
            else:
                first = min(ready.values())
                # (without an IPv6 address the 50 ms for one may be cut short)
                expect(pol, sc, FN, 'C38-attempts', first <= t <= max(50, first) and (V6 not in ready or t >= 50),
                       'first attempt is made %d ms after an address was there' % (t - first))
                if len(ready) == 2 and max(ready.values()) <= t:
                    expect(pol, sc, FN, 'C38-attempts', m == V6, 'does not prefer IPv6')
        else:
            t0, f0 = prev
            due = max(t0 + 300, min(ready.values()))
            if not expect(pol, sc, FN, 'C38-attempts', t >= t0 + 300, 'attempts the next address %d ms after the one before' % (t - t0)):
                return
            expect(pol, sc, FN, 'C38-attempts', t == due, 'attempts an address %d ms late' % (t - due))
            if len(ready) == 2 and max(ready.values()) <= due:
                expect(pol, sc, FN, 'C38-attempts', m != f0, 'does not alternate between the families')
        left[m].pop(0)
        prev = t, m
    if not ps['cancelled'] or ps.get('alldone'):
        sub.count('complete runs')
        expect(pol, sc, FN, 'C38-attempts', not any(left.values()), 'does not attempt every address')


def attempts(sub, prog, mode):
    """what an attempt does with what it gets"""
    pr = peers(sub, prog)
    counts = {V4: 2 if mode == V4 else 0, V6: 2 if mode == V6 else 0}
    q = queries(sub, prog, counts)
    if V4 not in q or V6 not in q:
        return
    class A(P):
        early = False
    pol, sc, st = scene(sub, prog, 'an attempt', A, counts)
    pol.script = {pr[q[m][0]]: (T0 + 10, q[m][1]) for m in (V6, V4)}
    for s, r in sc.call(st, FN, shape('strname'), pol.port, DEADLINE):
        finish(pol, sc, s, r)
    done = [ps for ps in pol.over if ps['attempts'] and len(ps['role']) == 2]
    expect(pol, sc, FN, 'C38-attempts', bool(done), 'attempts are not made by coroutines of their own')
    for ps in done:
        expect(pol, sc, FN, 'C38-attempts', len(ps['attempts']) == 1, 'an attempt is made twice')
        if ps['failed'] or ps['cancelled']:
            expect(pol, sc, FN, 'C38-result', not ps['sends'], 'hands a connection over that was not made')
        else:
            expect(pol, sc, FN, 'C38-result', len(ps['sends']) == 1 and ps['sends'][0][1] == 4, 'does not hand the connection over')
    expect(pol, sc, FN, 'C38-result', pol.results == pol.waits and len(pol.waits) == 1, 'connections are handed over elsewhere than they are waited for')


def arguments(sub, prog):
    for name, port in ((0, 80), (0, 1), (1, 0), (1, -1), (1, -2147483648), (0, 0)):
        pol, sc, st = scene(sub, prog, '%s name, port %d' % ('a' if name else 'no', port), P, {V4: 0, V6: 0})
        for s, r in sc.call(st, FN, shape('strname') if name else 0, port, DEADLINE):
            expect(pol, sc, FN, 'C38-args', r == -1 and errno_of(sc, s) == EINVAL, 'does not report EINVAL')
            expect(pol, sc, FN, 'C38-args', not s.ps['open'], 'leaves something behind')


def check(ctx):
    ctx.rule('C38-args', 'a missing name or port is refused with EINVAL')
    ctx.rule('C38-query', 'the addresses of both families are asked for, with the name and port given, and all that are found are handed over in order')
    ctx.rule('C38-attempts', 'every address found, and nothing else, is attempted once: IPv6 first if it comes within 50 ms, the families in turn, 300 ms apart, never later than that')
    ctx.rule('C38-result', 'the connection made first is handed to the caller; failures are reported with their error')
    ctx.rule('C38-handles', 'on every path, cancelled or not, all handles and connections but the one returned are closed once, coroutines before the channels they use')
    ctx.rule('C38-abort', 'no internal check fails on any of these paths')
    ctx.rule('C38-undef', 'nothing depends on values that were never set')
    ctx.rule('C38-bounds', 'no access leaves its object')
    run_wire(ctx, [(decide, n) for n in range(4)] + [(attempts, m) for m in (V4, V6)] + [(arguments,)])
    ctx.minimum('attempts', 1000)
    ctx.minimum('complete runs', 50)
