"""Abstract execution of protocol code over lists of fully known shape and bytes of unknown value.

Objects are made by running their own constructors; functions of the library call each other for real. What lies outside is
replaced: the socket underneath (reached through the function table the query returns), the system and libc. Bytes carry
their origin: ('s','ret','in',k,8) is byte k of what the peer sends, ('s','ret','data',buffer,k,8) byte k of a buffer of
the user. Every outcome the outside may have is followed."""
from kernel import *
from driver import Sub, AnalysisBroken
import engine
import bits

E = {'EINVAL': 22, 'EMSGSIZE': 90, 'EPROTO': 71, 'EPIPE': 32, 'EAGAIN': 11, 'ECONNRESET': 104, 'ENOTSUP': 95, 'EBADF': 9,
     'ETIMEDOUT': 110}
UND = ('undef',)
DGRAM = 78           # the descriptor of a datagram socket
BLK = 512            # payloads longer than this are handled in one piece


def inb(k):
    return ('s', 'ret', 'in', k, 8)


def datab(buf, k):
    return ('s', 'ret', 'data', buf, k, 8)


def addrbyte(i):
    """of the address of the peer"""
    return 0 if i >= 8 else 10 + i


def xorset(t):
    """a byte as constant and set of terms it is the exclusive or of"""
    if isinstance(t, int):
        return t & 255, frozenset()
    if t[0] == 'tr' and t[1] >= 8 or t[0] in ('zx', 'sx') and t[1] >= 8:
        return xorset(t[2])
    if t[0] == 'bits' and t[2] == 0 and t[3] >= 8:
        return xorset(t[1])
    if t[0] == 'op' and t[1] == 'xor':
        a, b = xorset(t[3]), xorset(t[4])
        return a[0] ^ b[0], a[1] ^ b[1]
    if t[0] == 'op' and t[1] == 'and' and t[4] == 255:
        return xorset(t[3])
    return 0, frozenset((t,))


def opaque_byte(t):
    return isinstance(t, tuple) and t[:2] == ('s', 'ret') and t[2] in ('in', 'data') and t[-1] == 8


def strip(t):
    while isinstance(t, tuple) and t[0] in ('zx', 'sx') and isinstance(t[2], tuple):
        t = t[2]
    return t


def undef(t):
    if isinstance(t, tuple):
        if t and t[0] == 'ld' and len(t) == 4 and t[3] == UND:
            return True
        if t == ('s', 'undef'):
            return True
        return any(undef(x) for x in t if isinstance(x, tuple))
    return False


class WEngine(Engine):
    """distinct base terms name distinct objects; values are kept byte-exact"""

    def load(self, st, addr, bits):
        base, off, ix = split(addr)
        if ix or not isinstance(base, tuple):
            return self.pol.indexed(self, st, addr, bits) or Engine.load(self, st, addr, bits)
        mem = st.mem
        e = mem.get((base, off, ()))
        if e is not None and e[1] == bits:
            return e[0]
        n = bits // 8
        if e is None or e[1] < bits:
            # put together from smaller pieces?
            if any((base, off + i, ()) in mem for i in range(n)) and bits > 8:
                r = 0
                for i in range(n):
                    b = self.load(st, padd(addr, i), 8)
                    if undef(b):
                        return ('ld', addr, bits, UND)
                    b = b & 255 if isinstance(b, int) else ('zx', 8, b)
                    r = mkop('or', bits, r, mkop('shl', bits, b, 8 * i))
                return r
        if base[0] == 'g' and bits == 8 and e is None:
            v = self.gbyte(base[1], off)
            if v is not None:
                return v
        return Engine.load(self, st, addr, bits)

    def exec_simple(self, st, ins):
        op = ins['op']
        if op in ('load', 'store'):
            self.past_end(st, ins)
        super().exec_simple(st, ins)
        if op == 'getelementptr' and ins.get('sty'):
            t = ins['sty']
            p = self.opval(st, ins['p'])
            r = st.frames[-1].env.get(ins['id'])
            if t.startswith('['):
                d, size = self.arrayoff(st, ins, p, r)
                if d is not None and not 0 <= d <= size:
                    self.pol.say(self, st, ins, self.pol.rule + '-bounds', 'points at byte %d of an array of %d bytes' % (d, size))
                    raise Infeasible()
            elif t.startswith('%struct.'):
                x = self.prog.structs.get(t[8:].split('.')[0])
                b, o, ix = split(p)
                if x and not ix and isinstance(b, tuple) and not x['file'].startswith('/usr'):
                    self.pol.placed.setdefault(b, {})[o, t[8:].split('.')[0]] = x

    def arrayoff(self, st, ins, p, r):
        """offset of an element pointer in its array and size of the array, if known"""
        m = self.arrays.get(ins['sty'])
        if m is None:
            n, e = ins['sty'][1:].split(' x ', 1)
            w = {'i8]': 1, 'i16]': 2, 'i32]': 4, 'i64]': 8, 'ptr]': 8}.get(e)
            m = self.arrays[ins['sty']] = int(n) * w if w else 0
        if not m:
            return None, 0
        a, b = split(p), split(r)
        if a[0] != b[0] or a[2] != b[2] or not isinstance(a[0], tuple):
            return None, 0
        return b[1] - a[1], m

    arrays = {}

    def past_end(self, st, ins):
        """an access through a pointer to the place after the last element of an array"""
        p = ins['p']
        if p[0] != 'v':
            return
        d = st.frames[-1].func.insmap.get(p[1])
        if d is None or d['op'] != 'getelementptr' or not d.get('sty', '').startswith('['):
            return
        o, size = self.arrayoff(st, d, self.opval(st, d['p']), self.opval(st, p))
        if o is not None and not 0 <= o < size:
            self.pol.say(self, st, ins, self.pol.rule + '-bounds', 'accesses byte %d of an array of %d bytes' % (o, size))
            raise Infeasible()

    def gbyte(self, name, off):
        """a byte of a constant"""
        g = self.prog.globals.get(name)
        if g is None or not (g['const'] or self.ro_global(name)):
            return None
        init = g.get('init')
        while init is not None and init[0] == 'agg':
            best = None
            for o, v in init[1]:
                if o <= off:
                    best = (o, v)
            if best is None:
                return None
            off, init = off - best[0], best[1]
        if init is None:
            return None
        k = init[0]
        if k == 'z':
            return 0
        if k == 'bytes':
            return wrap(init[1][off], 8) if off < len(init[1]) else 0
        if k == 'arr':
            i, d = divmod(off, init[1])
            return wrap(init[2][i] >> 8 * d, 8) if i < len(init[2]) else 0
        if k == 'c':
            return wrap(init[1] >> 8 * off, 8) if off < 8 else 0
        v = self.init_at(g, init, 0, 64)
        return mkbits(v, 8 * off, 8) if isinstance(v, tuple) and off < 8 else None

    def carve(self, st, base, lo, hi):
        """removes what lies in [lo,hi), keeping the rest of wider values"""
        mem = st.mem
        for o in range(lo - 7, lo):
            e = mem.get((base, o, ()))
            if e is not None and o + e[1] // 8 > lo:
                self.pieces(st, base, o, e, lo, hi)
        if hi - lo <= 4096:
            for o in range(lo, hi):
                e = mem.get((base, o, ()))
                if e is not None:
                    if o + e[1] // 8 > hi:
                        self.pieces(st, base, o, e, lo, hi)
                    else:
                        del mem[(base, o, ())]
        else:
            for k in [k for k in mem if k[0] == base and lo <= k[1] < hi]:
                del mem[k]

    def pieces(self, st, base, o, e, lo, hi):
        v, b = e
        del st.mem[(base, o, ())]
        for i in range(b // 8):
            if not lo <= o + i < hi:
                st.mem[(base, o + i, ())] = (mkbits(v, 8 * i, 8), 8)

    def store(self, st, addr, val, bits):
        base, off, ix = split(addr)
        if ix or not isinstance(base, tuple):
            return Engine.store(self, st, addr, val, bits)
        self.carve(st, base, off, off + bits // 8)
        st.mem[(base, off, ())] = (norm_store(val, bits), bits)

    def kill_range(self, st, base, lo, hi):
        self.carve(st, base, lo, hi)

    def copy_mem(self, st, dst, src, n, site, most=None):
        if n == 0:
            return
        db, do, di = split(dst)
        sb, so, si = split(src)
        if sb == 0 or db == 0 or (isinstance(sb, tuple) and isinstance(db, int)) or (isinstance(db, tuple) and isinstance(sb, int)):
            self.pol.on_nullderef(self, st, src if isinstance(sb, int) else dst, self.cur_ins)
            raise Infeasible()
        if n is None or di or si or not isinstance(db, tuple) or not isinstance(sb, tuple):
            self.pol.unclear(self, st, dst, src, n)
            return
        if n > 4096:
            self.carve(st, db, do, do + n)
            st.regions[db] = tuple([(do, do + n, 'unk', ('s', 'blk', src, n))] +
                                   [r for r in st.regions.get(db, ()) if not (do <= r[0] and r[1] <= do + n)])
            return
        ent = []
        o = so
        while o < so + n:
            e = st.mem.get((sb, o, ()))
            if e is not None and o + e[1] // 8 <= so + n:
                ent.append((o - so, e[0], e[1]))
                o += e[1] // 8
                continue
            if sb[0] == 'g' and o + 8 <= so + n and o % 8 == 0:
                v = self.const_global(sb[1], o, 64)
                if isinstance(v, tuple):
                    ent.append((o - so, v, 64))
                    o += 8
                    continue
            v = self.load(st, padd(sb, o), 8)
            ent.append((o - so, v, 8))
            o += 1
        self.carve(st, db, do, do + n)
        for o, v, b in ent:
            st.mem[(db, do + o, ())] = (v, b)

    def enter_block(self, st, blk, work):
        fr = st.frames[-1]
        f = fr.func
        prev = fr.block
        newv = {}
        for ins in f.blocks[blk]:
            if ins['op'] != 'phi':
                break
            for p, o in ins['in']:
                if p == prev:
                    newv[ins['id']] = self.opval(st, o)
                    break
        if (prev, blk) in f.backedges:
            vis = fr.visits.get(blk, 0) + 1
            fr.visits[blk] = vis
            if vis > self.pol.max_visits:
                self.pol.diverges(self, st, f)
                raise Infeasible()
        fr.env.update(newv)
        fr.prev = prev
        fr.block = blk
        fr.pos = 0
        return True


class Wire(LibPolicy):
    concrete = True
    heap_fail = False
    fork_extern = False
    max_steps = 3000000
    max_visits = 700
    max_time = 200
    max_depth = 40
    recursion = True
    rule = 'C18'
    strict = False       # everything that decides about lengths is known
    blk = BLK            # longer transfers are recorded as a whole
    foreign = {}         # datagrams that come from another address: number -> bytes that differ

    def __init__(self, sub, prog, stream=(), failures=False, msgs=(), parts=True, blocks=False):
        self.sub, self.prog = sub, prog
        self.stream = list(stream)          # bytes the peer sends
        self.failures = failures            # follow failures of the outside, too
        self.parts = parts                  # system calls may transfer less than asked for
        self.blocks = blocks                # and may have to wait
        self.msgs = msgs                    # sizes of the messages of a message socket underneath
        self.size = {}
        self.placed = {}                    # structures seen at places of objects
        self.ro = set()
        self.aborts = []
        self.scenario = ''
        self.queryfn = {}
        self.bad = set()
        f = lambda s, n: prog.field(s, n)[0]
        self.o = {k: f('dill_iolist', 'iol_' + k) for k in ('base', 'len', 'next', 'rsvd')}
        self.rsvdw = prog.field('dill_iolist', 'iol_rsvd')[2]

    # ---- complaints
    def say(self, eng, st, ins, rule, msg):
        eng.violate(st, ins, rule, msg)
        for v in eng.violations.values():
            if not v.extra.get('scene'):
                v.extra['scene'] = True
                v.loc += ' (%s)' % self.scenario

    def on_abort(self, eng, st, ins):
        self.sub.count('aborts seen')
        self.say(eng, st, ins, self.rule + '-abort', 'an internal check fails')

    def on_nullderef(self, eng, st, addr, ins):
        if ins.get('ln') is not None or True:
            self.say(eng, st, ins, self.rule + '-null', 'a null pointer is followed')

    def on_branch(self, eng, st, cond, ins):
        if undef(cond):
            self.say(eng, st, ins, self.rule + '-undef', 'decides on a value that was never set')
            raise Infeasible()

    def diverges(self, eng, st, f):
        key = (f.key, 'loop')
        if key not in self.bad:
            self.bad.add(key)
            self.say(eng, st, {'ln': f.line}, self.rule + '-loop', '%s does not come to an end' % f.name)

    def unclear(self, eng, st, dst, src, n):
        if self.strict:
            self.say(eng, st, {'ln': st.frames[-1].func.line}, self.rule + '-length', 'copies as many bytes as something says that is not a length')
            raise Infeasible()
        raise AnalysisBroken('copy of undetermined size in %s: %s %s %s' % (st.frames[-1].func.name, show(dst), show(src), n))

    def indexed(self, eng, st, addr, bits):
        return None

    # ---- bounds
    def on_alloca(self, eng, st, base, ins, n):
        if isinstance(n, int):
            self.size[base] = n * ins['size']
            for k in [k for k in st.mem if k[0] == base]:
                del st.mem[k]
            st.regions.pop(base, None)

    def bounds(self, eng, st, addr, n, ins, what):
        base, off, ix = split(addr)
        if not isinstance(base, tuple):
            return
        if base[0] == 'g' and base not in self.size:
            self.size[base] = self.gsize(eng, base[1])
        s = self.size.get(base)
        if s is None and base not in self.placed:
            return
        self.sub.count('accesses')
        lo = hi = off
        for t, k in ix:
            a, b, _ = st.interval(t)
            if k < 0:
                a, b = b, a
            lo += a * k
            hi += b * k
        if base in self.placed:
            self.inner(eng, st, base, lo, hi + n, ins, what)
        if s is not None and (lo < 0 or hi + n > s):
            self.say(eng, st, ins, self.rule + '-bounds', '%s byte %s of %s, which has %d' % (
                what, hi + n - 1 if hi + n > s else lo, self.oname(base), s))
            raise Infeasible()

    def inner(self, eng, st, base, lo, end, ins, what):
        """an access that starts in a member of a structure must not leave it, unless it covers the structure"""
        for (o, t), x in self.placed.get(base, {}).items():
            if not o <= lo < o + x['size'] or lo == o and end >= o + x['size']:
                continue
            for f in x['fields']:
                if f.get('bf') or not (f['type'].endswith(']') or f['type'].startswith('struct ')):
                    continue
                a = o + f['bit'] // 8
                b = a + f['bits'] // 8
                if a <= lo < b and end > b:
                    self.say(eng, st, ins, self.rule + '-bounds', '%s byte %d of %s in %s, which has %d' % (what, end - 1 - a, f['name'], t, b - a))
                    raise Infeasible()

    def gsize(self, eng, name):
        g = eng.prog.globals.get(name)
        return g.get('size') if g else None

    def oname(self, base):
        if base[0] == 'al':
            return base[3] or 'a local variable'
        if base[0] == 'g':
            return base[1].split('@')[0]
        if base[:2] == ('s', 'shape'):
            return base[2]
        return 'the allocated block'

    def on_load(self, eng, st, addr, val, bits, ins):
        self.bounds(eng, st, addr, bits // 8 or 1, ins, 'reads')

    def on_store(self, eng, st, addr, val, bits, ins):
        self.bounds(eng, st, addr, bits // 8 or 1, ins, 'writes')
        b = split(addr)[0]
        if b in self.ro:
            self.say(eng, st, ins, self.rule + '-ro', 'writes to %s' % self.oname(b))

    def on_memcpy(self, eng, st, dst, src, n, ins):
        c = st.const(n)
        if c is None:
            lo, hi, _ = st.interval(n)
            c = hi
        if c:
            self.bounds(eng, st, dst, c, ins, 'writes')
            self.bounds(eng, st, src, c, ins, 'reads')

    def on_memset(self, eng, st, dst, v, n, ins):
        c = st.const(n)
        if c:
            self.bounds(eng, st, dst, c, ins, 'writes')

    # ---- values
    def initial_value(self, eng, st, addr, bits):
        b, o, ix = split(addr)
        if b == ('g', 'dill_ctx_') and not ix:
            return LibPolicy.initial_value(self, eng, st, addr, bits)
        if b[:2] == ('s', 'shape') and not ix:
            if b[2].startswith('buf') and bits == 8:
                return datab(b[2], o)
            if b[2].startswith('str'):
                s = self.strs[b[2]]
                if bits == 8 and 0 <= o <= len(s):
                    return s[o] if o < len(s) else 0
            if b[2].startswith('mem'):
                return ('ld', addr, bits, UND)
        if b[0] == 's' and b[1] == 'heap':
            return ('ld', addr, bits, UND)
        return None

    def on_cmp(self, eng, st, pred, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a != b:
            # two places in the same object
            (p, i, ix), (q, j, jx) = split(a), split(b)
            if p == q and isinstance(p, tuple) and not ix and not jx and (p in self.size or p[0] in ('al', 'g') or p[:2] in (('s', 'shape'), ('s', 'heap'))):
                return int({'eq': i == j, 'ne': i != j, 'lt': i < j, 'le': i <= j, 'gt': i > j, 'ge': i >= j}[pred[-2:]])
        x, y = strip(a), strip(b)
        if pred in ('eq', 'ne') and x != y:
            for p, q in ((x, y), (y, x)):
                if opaque_byte(p) and (isinstance(q, int) or opaque_byte(q)):
                    return int(pred == 'ne')
        if isinstance(a, tuple) and isinstance(b, int) and a[0] in ('op', 'zx', 'sx', 'bits'):
            # bits known to be 0
            hi = 0
            for k in range(64):
                if bits.bit(a, k) != 0:
                    hi |= 1 << k
            b &= (1 << 64) - 1
            if pred in ('eq', 'ne') and b & ~hi:
                return int(pred == 'ne')
            if pred in ('eq', 'ne') and hi == 0:
                return int((b == 0) == (pred == 'eq'))
            if pred == 'ult' and hi < b or pred == 'ule' and hi <= b:
                return 1
            if pred == 'ugt' and hi <= b or pred == 'uge' and hi < b:
                return 0
        return None

    # ---- lists
    def mklist(self, eng, st, spec, tag=''):
        """spec: [(buffer term or 0, length)] -> (first, last)"""
        o = self.o
        els = [shape('iol%s%d' % (tag, i)) for i in range(len(spec))]
        sz = self.prog.sizeof('dill_iolist')
        for i, (b, n) in enumerate(spec):
            self.size[els[i]] = sz
            for k, v, w in (('base', b, 64), ('len', n, 64), ('next', els[i + 1] if i + 1 < len(els) else 0, 64), ('rsvd', 0, self.rsvdw)):
                st.mem[(els[i], o[k], ())] = (v, w)
        return els

    def listok(self, eng, st, els, spec):
        o = self.o
        for i, (b, n) in enumerate(spec):
            for k, v, w in (('base', b, 64), ('len', n, 64), ('next', els[i + 1] if i + 1 < len(els) else 0, 64), ('rsvd', 0, self.rsvdw)):
                if eng.load(st, padd(els[i], o[k]), w) != v:
                    return k
        return None

    def walk(self, eng, st, first, last):
        """elements of a list handed over to the outside, or None if it is malformed"""
        if first == 0 and last == 0:
            return []
        if first == 0 or last == 0:
            return None
        out, seen, p = [], set(), first
        o = self.o
        while p != 0:
            if p in seen or len(out) > 50:
                return None
            seen.add(p)
            b = eng.load(st, padd(p, o['base']), 64)
            n = eng.load(st, padd(p, o['len']), 64)
            x = eng.load(st, padd(p, o['next']), 64)
            if undef(n) or undef(b) or undef(x):
                return None
            c = st.const(n)
            out.append((b, n if c is None else c & ((1 << 64) - 1)))
            if x == 0 and p != last:
                return None
            p = x
        return out

    def errfork(self, eng, st, ins, site, e='sym'):
        s = st.copy()
        if e == 'sym':
            e = eng.fresh(s, 'err', 'outside', site)
            s.facts[e] = (1, 4095, frozenset((E['EINVAL'], E['EAGAIN'])))
        eng.set_errno(s, e)
        s.ps['failed'] = True
        s.ps.setdefault('err', e)
        return s, -1

    # ---- transfers with the outside
    def emit(self, eng, st, ins, els):
        out = list(st.ps['out'])
        for b, n in els:
            if n == 0:
                continue
            if b == 0:
                self.say(eng, st, ins, self.rule + '-null', 'hands a null pointer to be sent')
                continue
            if isinstance(n, int):
                self.bounds(eng, st, b, n, ins, 'sends')
            if not isinstance(n, int) or n > self.blk:
                out.append(('blk', b, n))
            else:
                for i in range(n):
                    out.append(eng.load(st, padd(b, i), 8))
        st.ps['out'] = tuple(out)

    def take(self, eng, st, ins, els):
        """delivers bytes of the stream; False if it does not have as many"""
        pos = st.ps['pos']
        for b, n in els:
            if not isinstance(n, int):
                if (b != 0 or len(els) > 1) and self.strict:
                    self.say(eng, st, ins, self.rule + '-length', 'receives as many bytes as something says that is not a length')
                    raise Infeasible()
                if b != 0 or len(els) > 1:
                    raise AnalysisBroken('receives an undetermined number of bytes')
                st.ps['skipped'] = n
                continue
            if pos + n > len(self.stream):
                return False
            if b != 0:
                self.bounds(eng, st, b, n, ins, 'receives into')
                if split(b)[0] in self.ro:
                    self.say(eng, st, ins, self.rule + '-ro', 'receives into %s' % self.oname(split(b)[0]))
                for i in range(n):
                    eng.store(st, padd(b, i), self.stream[pos + i], 8)
            pos += n
        st.ps['pos'] = pos
        return True

    def icall(self, eng, st, ins, fnterm, args, site):
        if isinstance(fnterm, tuple) and fnterm[:2] == ('s', 'shape') and fnterm[2].startswith('fn:'):
            k = fnterm[2][3:]
            return getattr(self, 'u_' + k)(eng, st, ins, args, site)
        if fnterm == 0:
            self.say(eng, st, ins, self.rule + '-null', 'calls a null pointer')
            raise Infeasible()
        raise AnalysisBroken('indirect call of %s in %s' % (show(fnterm), st.frames[-1].func.name))

    def lists(self, eng, st, ins, first, last):
        els = self.walk(eng, st, first, last)
        self.sub.count('transfers')
        if els is None:
            self.say(eng, st, ins, self.rule + '-inner', 'hands a malformed list to the socket underneath')
        st.ps['io'] = st.ps['io'] + 1
        return els

    def u_bsendl(self, eng, st, ins, args, site):
        els = self.lists(eng, st, ins, args[1], args[2])
        if els is None:
            return [self.errfork(eng, st, ins, site, E['EINVAL'])]
        if els == [] and args[1] == 0:
            return [self.errfork(eng, st, ins, site, E['EINVAL'])]
        r = []
        if self.failures:
            r.append(self.errfork(eng, st, ins, site))
        self.emit(eng, st, ins, els)
        return [(st, 0)] + r

    def u_brecvl(self, eng, st, ins, args, site):
        els = self.lists(eng, st, ins, args[1], args[2])
        if els is None:
            return [self.errfork(eng, st, ins, site, E['EINVAL'])]
        r = []
        if self.failures:
            r.append(self.errfork(eng, st, ins, site))
        if args[1] == 0 or not self.take(eng, st, ins, els):
            st.ps['starved'] = True
            return r + [self.errfork(eng, st, ins, site, E['EPIPE'])]
        return [(st, 0)] + r

    def u_msendl(self, eng, st, ins, args, site):
        els = self.lists(eng, st, ins, args[1], args[2])
        if els is None or args[1] == 0:
            return [self.errfork(eng, st, ins, site, E['EINVAL'])]
        r = [self.errfork(eng, st, ins, site)] if self.failures else []
        self.emit(eng, st, ins, els)
        st.ps['out'] = st.ps['out'] + ('end',)
        return [(st, 0)] + r

    def u_mrecvl(self, eng, st, ins, args, site):
        els = self.lists(eng, st, ins, args[1], args[2])
        if els is None:
            return [self.errfork(eng, st, ins, site, E['EINVAL'])]
        r = [self.errfork(eng, st, ins, site)] if self.failures else []
        m = st.ps['msg']
        if m >= len(self.msgs):
            st.ps['starved'] = True
            return r + [self.errfork(eng, st, ins, site, E['EPIPE'])]
        n = self.msgs[m]
        st.ps['msg'] = m + 1
        if args[1] != 0:
            left, part = n, []
            for b, k in els:
                part.append((b, min(k, left)))
                left -= min(k, left)
            if left:
                return r + [self.errfork(eng, st, ins, site, E['EMSGSIZE'])]
            self.take(eng, st, ins, part)
        else:
            st.ps['pos'] += n
        return [(st, n)] + r

    # ---- handles
    def resolve(self, eng, st, t, what):
        f = eng.prog.funcs.get(t[1]) if isinstance(t, tuple) and t[0] == 'g' else None
        if f is None:
            raise AnalysisBroken('%s of an object is %s' % (what, show(t)))
        return f

    def typename(self, eng, t):
        return self.types(eng).get(t)

    def types(self, eng):
        if not hasattr(self, '_ty'):
            self._ty = {}
            for n in ('bsock', 'msock', 'udp', 'ws', 'tls', 'http', 'term', 'prefix', 'suffix', 'tcp', 'ipc'):
                g = eng.prog.globals.get('dill_%s_type' % n)
                if g:
                    self._ty[eng.const_global('dill_%s_type' % n, 0, 64)] = n
        return self._ty

    def handles(self, st):
        return dict(st.ps['h'])

    def c_dill_hmake(self, eng, st, ins, args, site):
        h = self.handles(st)
        n = st.ps['nh']
        st.ps['nh'] = n + 1
        h[n] = args[0]
        st.ps['h'] = tuple(sorted(h.items(), key=repr))
        return [(st, n)]

    def c_dill_hown(self, eng, st, ins, args, site):
        h = self.handles(st)
        if args[0] not in h:
            return [self.errfork(eng, st, ins, site, E['EBADF'])]
        n = st.ps['nh']
        st.ps['nh'] = n + 1
        h[n] = h.pop(args[0])
        st.ps['h'] = tuple(sorted(h.items(), key=repr))
        return [(st, n)]

    def c_dill_hquery(self, eng, st, ins, args, site):
        h = self.handles(st)
        if args[0] not in h:
            eng.set_errno(st, E['EBADF'])
            return [(st, 0)]
        o = h[args[0]]
        if o[:2] == ('s', 'under'):
            ty = self.typename(eng, args[1])
            if ty is None:
                raise AnalysisBroken('query for unknown type %s' % show(args[1]))
            if ty == o[2]:
                return [(st, shape('vfs:' + ty))]
            eng.set_errno(st, E['ENOTSUP'])
            return [(st, 0)]
        q = self.resolve(eng, st, eng.load(st, fld(eng.prog, o, 'dill_hvfs', 'query'), 64), 'query')
        return ('enter', q, [o, args[1]])

    def c_dill_hclose(self, eng, st, ins, args, site):
        h = self.handles(st)
        if args[0] not in h:
            eng.set_errno(st, E['EBADF'])
            return [(st, -1)]
        o = h.pop(args[0])
        st.ps['h'] = tuple(sorted(h.items(), key=repr))
        if o[:2] == ('s', 'under'):
            st.ps['closed'] = st.ps['closed'] + 1
            return [(st, 0)]
        f = self.resolve(eng, st, eng.load(st, fld(eng.prog, o, 'dill_hvfs', 'close'), 64), 'close')
        if 'id' in ins:
            st.frames[-1].env[ins['id']] = 0
        return ('enter', f, [o])

    # ---- libc
    def cbytes(self, eng, st, ins, p, n):
        return [eng.load(st, padd(p, i), 8) for i in range(n)]

    def c_memcmp(self, eng, st, ins, args, site):
        n = st.const(args[2])
        if n is None:
            self.unclear(eng, st, args[0], args[1], args[2])
        if n:
            self.bounds(eng, st, args[0], n, ins, 'reads')
            self.bounds(eng, st, args[1], n, ins, 'reads')
        unsure = False
        for i in range(n):
            a, b = eng.load(st, padd(args[0], i), 8), eng.load(st, padd(args[1], i), 8)
            if a == b:
                continue
            if undef(a) or undef(b):
                self.say(eng, st, ins, self.rule + '-undef', 'compares bytes that were never set')
            return [(st, 1)]
        return [(st, 0)]

    def cstrlen(self, eng, st, ins, p):
        n = 0
        if not isinstance(split(p)[0], tuple):
            self.on_nullderef(eng, st, p, ins)
            raise Infeasible()
        while True:
            self.bounds(eng, st, padd(p, n), 1, ins, 'reads')
            b = eng.load(st, padd(p, n), 8)
            if b == 0:
                return n
            if undef(b):
                self.say(eng, st, ins, self.rule + '-undef', 'measures a string that was never set')
                raise Infeasible()
            n += 1
            if n > 5000:
                raise AnalysisBroken('string without end in %s' % st.frames[-1].func.name)

    def c_strlen(self, eng, st, ins, args, site):
        return [(st, self.cstrlen(eng, st, ins, args[0]))]

    def c_strcpy(self, eng, st, ins, args, site):
        n = self.cstrlen(eng, st, ins, args[1]) + 1
        self.bounds(eng, st, args[0], n, ins, 'writes')
        eng.copy_mem(st, args[0], args[1], n, site)
        return [(st, args[0])]

    def c_strncpy(self, eng, st, ins, args, site):
        n = st.const(args[2])
        if n is None:
            self.unclear(eng, st, args[0], args[1], args[2])
        end = False
        for i in range(n):
            b = 0
            if not end:
                self.bounds(eng, st, padd(args[1], i), 1, ins, 'reads')
                b = eng.load(st, padd(args[1], i), 8)
                end = b == 0
            self.bounds(eng, st, padd(args[0], i), 1, ins, 'writes')
            eng.store(st, padd(args[0], i), b, 8)
        return [(st, args[0])]

    def c_memchr(self, eng, st, ins, args, site):
        n, c = st.const(args[2]), args[1]
        for i in range(n):
            self.bounds(eng, st, padd(args[0], i), 1, ins, 'reads')
            if eng.load(st, padd(args[0], i), 8) == c:
                return [(st, padd(args[0], i))]
        return [(st, 0)]

    def c_strchr(self, eng, st, ins, args, site):
        n = self.cstrlen(eng, st, ins, args[0])
        for i in range(n + 1):
            if eng.load(st, padd(args[0], i), 8) == args[1]:
                return [(st, padd(args[0], i))]
        return [(st, 0)]

    def c_strpbrk(self, eng, st, ins, args, site):
        n, m = self.cstrlen(eng, st, ins, args[0]), self.cstrlen(eng, st, ins, args[1])
        acc = set(self.cbytes(eng, st, ins, args[1], m))
        for i in range(n):
            if eng.load(st, padd(args[0], i), 8) in acc:
                return [(st, padd(args[0], i))]
        return [(st, 0)]

    def cmpstr(self, eng, st, ins, args, limit, fold):
        i = 0
        while limit is None or i < limit:
            for a in args[:2]:
                if not isinstance(split(a)[0], tuple):
                    self.on_nullderef(eng, st, a, ins)
                    raise Infeasible()
                self.bounds(eng, st, padd(a, i), 1, ins, 'reads')
            a, b = (eng.load(st, padd(x, i), 8) for x in args[:2])
            if undef(a) or undef(b):
                self.say(eng, st, ins, self.rule + '-undef', 'compares bytes that were never set')
                raise Infeasible()
            if fold:
                a, b = (ord(chr(x & 255).lower()) if isinstance(x, int) else x for x in (a, b))
            if a != b:
                return [(st, 1)]
            if a == 0:
                return [(st, 0)]
            i += 1
        return [(st, 0)]

    def c_strcmp(self, eng, st, ins, args, site):
        return self.cmpstr(eng, st, ins, args, None, False)

    def c_strcasecmp(self, eng, st, ins, args, site):
        return self.cmpstr(eng, st, ins, args, None, True)

    def c_strncmp(self, eng, st, ins, args, site):
        return self.cmpstr(eng, st, ins, args, st.const(args[2]), False)

    def c_strncasecmp(self, eng, st, ins, args, site):
        return self.cmpstr(eng, st, ins, args, st.const(args[2]), True)

    def c_malloc(self, eng, st, ins, args, site):
        r = LibPolicy.c_malloc(self, eng, st, ins, args, site)
        p = r[-1][1]
        # (an earlier block from this place is another one)
        k = 0
        while p + (k,) in self.size:
            k += 1
        q = p + (k,)
        st.facts[q] = st.facts[p]
        self.size[q] = st.const(args[0])
        return [(st, q)]

    def c_memcpy(self, eng, st, ins, args, site):
        return eng.intrinsic(st, ins, 'llvm.memcpy', args, site)

    c_memmove = c_memcpy

    def opq(self, eng, st, ins, name):
        raise AnalysisBroken('%s calls %s, which is not modelled' % (st.frames[-1].func.name, name))

    def call(self, eng, st, ins, name, args, site):
        h = getattr(self, 'c_' + name, None)
        if h is not None:
            return h(eng, st, ins, args, site)
        if name.startswith('llvm.') or name in ('fprintf', 'fflush'):
            return [(st, 0)] if not name.startswith('llvm.') else None
        if not eng.prog.byname.get(name):
            self.opq(eng, st, ins, name)
        return None

    # ---- byte order
    def c_htons(self, eng, st, ins, args, site):
        v = args[0]
        return [(st, mkop('or', 32, mkop('shl', 32, mkbits(v, 0, 8) if isinstance(v, int) else ('zx', 8, mkbits(v, 0, 8)), 8),
                          mkbits(v, 8, 8) if isinstance(v, int) else ('zx', 8, mkbits(v, 8, 8))))]

    c_ntohs = c_htons

    # ---- descriptors
    def moved(self, eng, st, ins, els, nbytes, send):
        """transfers the first nbytes of the elements"""
        part, left = [], nbytes
        for b, n in els:
            k = min(n, left)
            part.append((b, k))
            left -= k
        if send:
            self.emit(eng, st, ins, part)
            return True
        return self.take(eng, st, ins, part)

    def portions(self, st, total):
        """all amounts the system may transfer at once (for long ones: the extremes); at most three parts per call"""
        ks = {total}
        if self.parts and total > 1 and st.ps.get('nparts', 0) < 3:
            ks |= set(range(1, total)) if total <= 4 else {1, total - 1}
        return sorted(ks)

    def transfer(self, eng, st, ins, els, site, send, msg=False):
        total = sum(n for b, n in els)
        st.ps['io'] = st.ps['io'] + 1
        self.sub.count('transfers')
        res = []
        if self.failures:
            res.append(self.errfork(eng, st, ins, site))
        if self.blocks and not st.ps.get('blocked'):
            s = st.copy()
            eng.set_errno(s, E['EAGAIN'])
            s.ps['blocked'] = True
            res.append((s, -1))
        if not send:
            avail = len(self.stream) - st.ps['pos']
            if total and not avail:
                st.ps['starved'] = True
                res.append((st, 0))
                return res
            total = min(total, avail)
        # how much is transferred: everything, or (if parts) any smaller amount; for long ones some
        for k in self.portions(st, total):
            s = st.copy()
            s.ps['blocked'] = False
            s.ps['nparts'] = s.ps.get('nparts', 0) + (k < total)
            self.moved(eng, s, ins, els, k, send)
            res.append((s, k))
        return res

    def iov(self, eng, st, hdr):
        f = lambda n: fld(eng.prog, hdr, 'msghdr', n)
        p, n = eng.load(st, f('msg_iov'), 64), eng.load(st, f('msg_iovlen'), 64)
        if not isinstance(n, int):
            raise AnalysisBroken('undetermined iovec')
        els = []
        for i in range(n):
            b = eng.load(st, padd(p, 16 * i), 64)
            k = eng.load(st, padd(p, 16 * i + 8), 64)
            if not isinstance(k, int):
                raise AnalysisBroken('undetermined iovec')
            els.append((b, k))
        return els

    def datagram(self, eng, st, ins, hdr, site):
        """a datagram is sent as a whole or not at all"""
        st.ps['io'] = st.ps['io'] + 1
        self.sub.count('transfers')
        res = [self.errfork(eng, st, ins, site)] if self.failures else []
        if self.blocks and not st.ps.get('blocked'):
            s = st.copy()
            eng.set_errno(s, E['EAGAIN'])
            s.ps['blocked'] = True
            res.append((s, -1))
        els = self.iov(eng, st, hdr)
        self.emit(eng, st, ins, els)
        st.ps['out'] = st.ps['out'] + ('end',)
        return res + [(st, sum(n for b, n in els))]

    def getdatagram(self, eng, st, ins, hdr, flags, site):
        st.ps['io'] = st.ps['io'] + 1
        self.sub.count('transfers')
        res = [self.errfork(eng, st, ins, site)] if self.failures else []
        if self.blocks and not st.ps.get('blocked'):
            s = st.copy()
            eng.set_errno(s, E['EAGAIN'])
            s.ps['blocked'] = True
            res.append((s, -1))
        st.ps['blocked'] = False
        m = st.ps['msg']
        if m >= len(self.msgs):
            return res + [self.errfork(eng, st, ins, site, E['ECONNRESET'])]
        n = self.msgs[m]
        st.ps['msg'] = m + 1
        els = self.iov(eng, st, hdr)
        self.nonnull(eng, st, ins, els)
        part, left, pos = [], n, st.ps['pos']
        for b, k in els:
            part.append((b, min(k, left)))
            left -= min(k, left)
        self.take(eng, st, ins, part)
        st.ps['pos'] = pos + n
        f = lambda x: fld(eng.prog, hdr, 'msghdr', x)
        eng.store(st, f('msg_flags'), 0x20 if left else 0, 32)
        a = eng.load(st, f('msg_name'), 64)
        if isinstance(a, tuple):
            self.bounds(eng, st, a, 16, ins, 'stores the address in')
            eng.store(st, a, 2, 16)
            for i in range(2, 16):
                eng.store(st, padd(a, i), addrbyte(i) ^ (i in self.foreign.get(m, ())), 8)
        eng.store(st, f('msg_namelen'), 16, 32)
        return res + [(st, n if flags & 0x20 else n - left)]

    def c_sendmsg(self, eng, st, ins, args, site):
        if args[0] == DGRAM:
            return self.datagram(eng, st, ins, args[1], site)
        return self.transfer(eng, st, ins, self.iov(eng, st, args[1]), site, True)

    def c_send(self, eng, st, ins, args, site):
        return self.transfer(eng, st, ins, [(args[1], st.const(args[2]))], site, True)

    def nonnull(self, eng, st, ins, els):
        for b, n in els:
            if n and b == 0:
                self.say(eng, st, ins, self.rule + '-null', 'lets the system write to a null pointer')

    def c_recvmsg(self, eng, st, ins, args, site):
        if args[0] == DGRAM:
            return self.getdatagram(eng, st, ins, args[1], args[2], site)
        els = self.iov(eng, st, args[1])
        self.nonnull(eng, st, ins, els)
        return self.transfer(eng, st, ins, els, site, False)

    def c_recv(self, eng, st, ins, args, site):
        els = [(args[1], st.const(args[2]))]
        self.nonnull(eng, st, ins, els)
        return self.transfer(eng, st, ins, els, site, False)

    def waits(self, eng, st, ins, args, site):
        r = [self.errfork(eng, st, ins, site)] if self.failures else []
        return [(st, 0)] + r

    c_dill_fdin = c_dill_fdout = waits

    def quiet0(self, eng, st, ins, args, site):
        return [(st, 0)]

    c_dill_fdclean = c_setsockopt = c_getsockopt = c_close = c_fcntl = c_connect = c_bind = c_listen = c_free = quiet0

    def c_socket(self, eng, st, ins, args, site):
        return [(st, DGRAM if args[1] == 2 else 77)]

    def c_dill_now(self, eng, st, ins, args, site):
        return [(st, 1000)]

    def c_dill_fd_own(self, eng, st, ins, args, site):
        return [(st, args[0])]


    def c_dill_random(self, eng, st, ins, args, site):
        r = [self.errfork(eng, st, ins, site)] if self.failures else []
        n = st.ps.get('random', 0)
        k = st.const(args[1])
        self.bounds(eng, st, args[0], k, ins, 'stores random bytes in')
        for i in range(k):
            eng.store(st, padd(args[0], i), ('s', 'ret', 'in', ('random', n + i), 8), 8)
        st.ps['random'] = n + k
        return [(st, 0)] + r

    def c_read(self, eng, st, ins, args, site):
        # (the only file read is the source of random numbers)
        if args[0] in (77, DGRAM):
            raise AnalysisBroken('read() from a socket')
        r = self.c_dill_random(eng, st, ins, [args[1], args[2]], site)
        return [(s, args[2] if v == 0 else v) for s, v in r]

    def c_open(self, eng, st, ins, args, site):
        return [(st, 3)]

    # ---- OpenSSL
    def opaque(self, eng, st, ins, args, site):
        return [(st, shape('ssl'))]

    c_TLS_method = c_TLS_server_method = c_SSLv23_method = c_SSLv23_server_method = c_SSL_CTX_new = c_SSL_new = c_BIO_new = c_BIO_meth_new = opaque

    def one(self, eng, st, ins, args, site):
        return [(st, 1)]

    c_SSL_library_init = c_OPENSSL_init_ssl = c_OPENSSL_init_crypto = c_BIO_meth_set_create = c_BIO_meth_set_destroy = one
    c_BIO_meth_set_write = c_BIO_meth_set_read = c_BIO_meth_set_ctrl = c_BIO_get_new_index = one
    c_SSL_connect = c_SSL_accept = c_SSL_CTX_use_certificate_file = c_SSL_CTX_use_PrivateKey_file = c_SSL_CTX_ctrl = one
    c_SSL_set_connect_state = c_SSL_set_accept_state = c_SSL_set_bio = c_ERR_clear_error = c_BIO_set_data = c_BIO_set_init = quiet0
    c_SSL_free = c_SSL_CTX_free = c_ERR_get_error = c_ERR_error_string_n = c_pthread_once = c_atexit = quiet0

    def ssl_io(self, eng, st, ins, args, site, send):
        """-> outcomes; what SSL_get_error is going to say is noted"""
        n = st.const(args[2])
        if n is None or n <= 0 or n >= 1 << 31:
            self.say(eng, st, ins, self.rule + '-bounds', 'asks TLS to transfer %s bytes' % show(args[2]))
            raise Infeasible()
        st.ps['io'] = st.ps['io'] + 1
        res = []
        if self.failures:
            for code in (5, 1) if send else (5, 1, 6):
                s, r = self.errfork(eng, st, ins, site)
                s.ps['ssl'] = code
                res.append((s, 0 if code == 6 else -1))
        if self.blocks and not st.ps.get('blocked'):
            s = st.copy()
            eng.set_errno(s, 0)
            s.ps['blocked'] = True
            s.ps['ssl'] = 5
            res.append((s, -1))
        if not isinstance(split(args[1])[0], tuple):
            self.say(eng, st, ins, self.rule + '-null', 'hands a null pointer to TLS')
            raise Infeasible()
        if not send:
            n = min(n, len(self.stream) - st.ps['pos'])
            if n == 0:
                st.ps['starved'] = True
                st.ps['ssl'] = 6
                return res + [(st, 0)]
        for k in self.portions(st, n):
            s = st.copy()
            s.ps['blocked'] = False
            s.ps['nparts'] = s.ps.get('nparts', 0) + (k < n)
            s.ps['ssl'] = 0
            self.moved(eng, s, ins, [(args[1], k)], k, send)
            res.append((s, k))
        return res

    def c_SSL_write(self, eng, st, ins, args, site):
        return self.ssl_io(eng, st, ins, args, site, True)

    def c_SSL_read(self, eng, st, ins, args, site):
        return self.ssl_io(eng, st, ins, args, site, False)

    def c_SSL_get_error(self, eng, st, ins, args, site):
        return [(st, st.ps.get('ssl', 0))]


class Scene:
    """A sequence of calls of public functions."""

    def __init__(self, pol):
        self.pol = pol
        self.eng = WEngine(pol.prog, pol)
        pol.sub.scenes.append(self.eng)
        self.eng.entry = next(iter(pol.prog.funcs.values()))

    def state(self, under='bsock'):
        """under: what the socket with handle 5 is"""
        p = self.pol.prog
        st = State()
        st.frames = []
        st.ps = dict(out=(), pos=0, msg=0, io=0, closed=0, nh=6, h=((5, ('s', 'under', under)),))
        self.eng.set_errno(st, 0)
        for k in ('bsock', 'msock'):
            v = shape('vfs:' + k)
            for m in (('bsendl', 'brecvl') if k == 'bsock' else ('msendl', 'mrecvl')):
                st.mem[(v, p.field('dill_%s_vfs' % k, m)[0], ())] = (shape('fn:' + m), 64)
        return st

    def fn(self, name):
        f = self.pol.prog.byname.get(name)
        if not f:
            raise AnalysisBroken('function %s not found' % name)
        return f[0]

    def call(self, st, name, *args):
        f = self.fn(name)
        self.eng.entry = f
        self.eng.deadline = 0
        for b in [b for b in self.pol.size if b[0] == 'al']:
            del self.pol.size[b]
        st = st.copy()
        st.ps['nparts'] = 0
        for k in [k for k in st.mem if k[0][0] == 'al']:
            del st.mem[k]
        out = self.eng.run_in(st, f, list(args), pol=self.pol, steps=self.pol.max_steps)
        self.pol.sub.count('outcomes', len(out))
        return out

    def one(self, st, name, *args):
        """a call that succeeds in exactly one way"""
        r = [(s, v) for s, v in self.call(st, name, *args) if not (isinstance(v, int) and v < 0)]
        if not r:
            raise AnalysisBroken('%s does not succeed' % name)
        return r[0]


# ---- helpers for scenarios

def expect(pol, sc, fname, rule, cond, msg):
    """an obligation of a scenario"""
    pol.sub.count('obligations')
    if not cond:
        g = sc.fn(fname)
        pol.sub.violation(rule, g.name, msg, '%s:%s, %s' % (g.file, g.line, pol.scenario))
    return cond


def errno_of(sc, st):
    return sc.eng.load(st, ('g', 'errno'), 32)


def sent(els):
    """what a list of (buffer, length) looks like on the wire"""
    out = []
    for b, n in els:
        if n == 0:
            continue
        if not isinstance(n, int) or n > BLK:
            out.append(('blk', b, n))
        else:
            out += [datab(b[2], i) for i in range(n)]
    return out


def bufs(pol, lens, tag=''):
    """lens: lengths, None for an element without a buffer given as (None, n)"""
    spec = []
    for i, n in enumerate(lens):
        if isinstance(n, tuple):
            spec.append((0, n[1]))
        else:
            b = shape('buf%s%d' % (tag, i))
            pol.size[b] = n
            spec.append((b, n))
    return spec


def got(sc, st, spec):
    """contents of the elements' buffers, '-' for skipped bytes, '.' for bytes that were not touched"""
    out = []
    for b, n in spec:
        for i in range(n):
            if b == 0:
                out.append('-')
            else:
                v = sc.eng.load(st, padd(b, i), 8)
                out.append('.' if v == datab(b[2], i) else v)
    return out


def want(msg, spec):
    """what got() has to return for a message, the size of the list permitting"""
    out = []
    i = 0
    for b, n in spec:
        for k in range(n):
            if i >= len(msg):
                out.append('-' if b == 0 else '.')
            else:
                out.append('-' if b == 0 else msg[i])
            i += 1
    return out


def run_wire(ctx, tasks, configs=None):
    """tasks: functions (sub, prog, *args) given as tuples"""
    jobs = []
    for c in configs or ctx.configs:
        p = ctx.prog(c)
        for t in tasks:
            if 'tls' in t[1:] and c != 'default':
                continue        # (built without TLS)
            def job(c=c, p=p, t=t):
                s = Sub(c)
                try:
                    t[0](s, p, *t[1:])
                except AnalysisBroken as x:
                    s.r['broken'].append(str(x))
                for e in s.scenes:
                    s.take(e)
                s.count('scenarios', len(s.scenes))
                return s.r
            jobs.append(job)
    ctx.run_jobs(jobs)
