"""Byte order of wire integers."""
from kernel import *
from bits import *

EXPLAIN = """Bit provenance over the type-checked program: each helper that writes or reads a 16, 32 or 64-bit integer is
interpreted on an opaque value, so the result holds for all values. Every bit of every byte stored must be the bit of the
argument that big-endian order puts there and exactly the bytes of the width may be written; every bit of a reader's result
must be the matching bit of the matching byte, and accesses must be of alignment 1. The same for the port number of an IP
address of either family, which has to be stored in network order at the place the system expects it."""


class B(LibPolicy):
    concrete = True
    heap_fail = False
    fork_extern = False

    def __init__(self, kind, n, buf=None, out=0):
        self.kind, self.n, self.buf, self.o0 = kind, n, buf, out
        self.done = 0

    def start(self, eng, st, fn):
        eng.set_errno(st, 0)
        st.ps['wr'] = ()

    def c_htons(self, eng, st, ins, args, site):
        v = args[0]
        return [(st, mkop('or', 32, mkop('shl', 32, mkbits(v, 0, 8) if isinstance(v, int) else ('zx', 8, mkbits(v, 0, 8)), 8),
                          mkbits(v, 8, 8) if isinstance(v, int) else ('zx', 8, mkbits(v, 8, 8))))]

    c_ntohs = c_htons

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C28-bytes', 'an internal check fails')

    def on_store(self, eng, st, addr, val, bits, ins):
        base = split(addr)[0]
        if isinstance(base, tuple) and base[0] == 'al':
            return
        b = Bytes()
        b.store(addr, val, bits)
        w = dict(st.ps['wr'])
        for k, v in b.b.items():
            w[k] = tuple(v)
        st.ps['wr'] = tuple(sorted(w.items(), key=repr))
        self.align(eng, st, addr, bits, ins)

    def on_memcpy(self, eng, st, dst, src, n, ins):
        if self.kind not in ('put', 'setport') or split(dst)[0] != self.buf:
            return
        c = st.const(n)
        if c is None or c > 64:
            eng.violate(st, ins, 'C28-bytes', 'an undetermined number of bytes is written')
            return
        b, o, ix = split(dst)
        w = dict(st.ps['wr'])
        for i in range(c):
            w[(b, o + i, ix)] = tuple(byte_of(eng.load(st, padd(src, i), 8), 0))
        st.ps['wr'] = tuple(sorted(w.items(), key=repr))

    def on_load(self, eng, st, addr, val, bits, ins):
        base = split(addr)[0]
        if not (isinstance(base, tuple) and base[0] == 'al'):
            self.align(eng, st, addr, bits, ins)

    def align(self, eng, st, addr, bits, ins):
        if self.kind in ('put', 'get') and bits > 8 and ins.get('al', 1) > 1:
            eng.violate(st, ins, 'C28-align', 'the buffer is accessed as if it were aligned')

    def on_ret(self, eng, st, val, ins):
        self.done += 1
        w = dict(st.ps['wr'])
        n = self.n
        if self.kind in ('put', 'setport'):
            v = ('arg', 1)
            want = {(self.buf, self.o0 + i, ()): tuple((n - 1 - i) * 8 + j for j in range(8)) for i in range(n)}
            self.sub.count('bytes', n)
            if set(w) != set(want):
                eng.violate(st, ins, 'C28-bytes', 'the encoder does not write exactly %d bytes at its destination' % n)
                return
            for k, bits in want.items():
                for j in range(8):
                    b = w[k][j]
                    if not (isinstance(b, tuple) and b[1][:2] == v and b[2] == bits[j]):
                        eng.violate(st, ins, 'C28-bytes', 'byte %d is not the one network order puts there' % (k[1] - self.o0))
                        return
        else:
            if any(k[0] == self.buf for k in w):
                eng.violate(st, ins, 'C28-bytes', 'the decoder writes to its input')
            self.sub.count('bytes', n)
            for k in range(8 * n):
                b = memsrc(bit(val, k))
                if b != ('m', self.buf, self.o0 + n - 1 - k // 8, k % 8, ()):
                    eng.violate(st, ins, 'C28-bytes', 'bit %d of the result is not the one network order puts there' % k)
                    return
            if self.kind == 'port':
                for k in range(16, 31):
                    if bit(val, k) != 0:
                        eng.violate(st, ins, 'C28-bytes', 'a port outside of 0..65535 is reported')
                        return


class P(B):
    """IP addresses: of one fixed family"""

    def __init__(self, kind, fam, off):
        B.__init__(self, kind, 2, ('arg', 0, None, 64), 2)
        self.fam = fam

    def initial_value(self, eng, st, addr, bits):
        b, o, ix = split(addr)
        if b == self.buf and o == 0 and bits == 16 and not ix:
            return self.fam
        return None


def check(ctx):
    ctx.rule('C28-bytes', 'each byte written, and each bit read, is the one big-endian order requires')
    ctx.rule('C28-align', 'wire buffers are accessed without assuming alignment')
    jobs = []

    def job(c, p, fn, kind, n, fam=None):
        f = ctx.func(p, fn)
        a0 = ('arg', 0, f.args[0]['name'], 64)

        def run():
            sub = Sub(c)
            pol = P(kind, fam, 2) if fam else B(kind, n)
            pol.buf = a0
            pol.sub = sub
            e = Engine(p, pol)
            e.run(f)
            sub.take(e)
            if not pol.done and not sub.r['viol']:
                sub.violation('C28-bytes', fn, 'does not return', f.file)
            sub.count('functions')
            return sub.r
        return run
    from driver import Sub
    for c in ctx.configs:
        p = ctx.prog(c)
        ctx.cur = c
        for s, n in (('s', 2), ('l', 4), ('ll', 8)):
            jobs.append(job(c, p, 'dill_put' + s, 'put', n))
            jobs.append(job(c, p, 'dill_get' + s, 'get', n))
        for fam in (2, 10):
            jobs.append(job(c, p, 'dill_ipaddr_setport', 'setport', 2, fam))
            jobs.append(job(c, p, 'dill_ipaddr_port', 'port', 2, fam))
    ctx.run_jobs(jobs)
    ctx.minimum('functions', 10 * len(ctx.configs))
    ctx.minimum('bytes', 36 * len(ctx.configs))
