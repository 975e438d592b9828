"""Path-sensitive abstract interpreter over the SSA program.

Abstract values are terms: Python ints (constants), or tuples naming where a value came from
(an argument, the result of one call site, the content of one memory location at one point, ...).
Branches refine an interval/disequality domain on terms; states that agree at a join point are
merged; loops are widened.  No solver is involved and no input is executed.  A policy object says
how calls are abstracted and runs the typestate of the property being decided.
"""
import time
from ir import AnalysisBroken

INF = 1 << 70
sys_setrec = __import__('sys').setrecursionlimit
sys_setrec(10000)


class Infeasible(Exception):
    pass


class Incomplete(Exception):
    pass


# ---------------------------------------------------------------- terms

def is_ptrish(t):
    return isinstance(t, tuple) and t[0] in ('al', 'g', 'p', 'arg', 'ld', 's')


def split(t):
    """pointer term -> (base, off, idx)"""
    if isinstance(t, tuple) and t[0] == 'p':
        return t[1], t[2], t[3]
    return t, 0, ()


def padd(t, off, var=()):
    if isinstance(t, int):
        if not var:
            return t + off
        return ('p', t, off, tuple(sorted(var, key=repr)))
    b, o, ix = split(t)
    o += off
    if var:
        d = {}
        for (x, s) in list(ix) + list(var):
            d[(x, s)] = d.get((x, s), 0) + 1
        l = []
        for (x, s), c in d.items():
            l.append((x, s * c))
        ix = tuple(sorted(l, key=repr))
    if o == 0 and not ix:
        return b
    return ('p', b, o, ix)


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and contains(x, sub):
                return True
    return False


def syms(t, acc):
    """all 's' symbols inside a term"""
    if isinstance(t, tuple):
        if t and t[0] == 's':
            acc.add(t)
            return
        for x in t:
            if isinstance(x, tuple):
                syms(x, acc)


def depth(t):
    if not isinstance(t, tuple):
        return 0
    m = 0
    for x in t:
        if isinstance(x, tuple):
            d = depth(x)
            if d > m:
                m = d
    return m + 1


def tsize(t):
    if not isinstance(t, tuple):
        return 1
    return 1 + sum(tsize(x) for x in t if isinstance(x, tuple))


WIDTHS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'ptr': 64}


def width(t):
    if isinstance(t, int):
        return 0
    k = t[0]
    if k == 'ld':
        return t[2]
    if k in ('al', 'g', 'p'):
        return 64
    if k == 'arg':
        return t[3]
    if k == 'op':
        return t[2]
    if k == 'tr':
        return t[1]
    if k in ('cmp', 'not'):
        return 1
    if k == 'bits':
        return t[3]
    if k == 'zx' or k == 'sx':
        return t[1] + 1
    if k == 's' and t[1] in ('ret', 'phi') and isinstance(t[-1], int):
        return t[-1]
    return 64


def wrap(v, bits):
    if bits <= 0 or bits > 64:
        return v
    v &= (1 << bits) - 1
    if v >= 1 << (bits - 1):
        v -= 1 << bits
    return v


def isbool(t):
    return isinstance(t, tuple) and t[0] in ('cmp', 'not', 'boolop')


def neg(t):
    if isinstance(t, int):
        return 0 if t else 1
    if t[0] == 'not':
        return t[1]
    return ('not', t)


def isbit(t):
    return isinstance(t, tuple) and t[0] == 'bits' and t[3] == 1


NONNULL_BASES = ('al', 'g')


def isobj(t):
    """names one object, different from every object with another such name"""
    return t[0] in ('al', 'g') or (t[0] == 's' and t[1] in ('shape', 'cur'))


def ptr_nonnull(t):
    if isinstance(t, tuple):
        if isobj(t):
            return True
        if t[0] == 'p' and not isinstance(t[1], int):
            return True
    return False


def mkeq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a == b else 0
    if a == b and not (isinstance(a, tuple) and has_stale(a)):
        return 1
    if isinstance(a, int):
        a, b = b, a
    # a is a tuple
    if isinstance(b, int):
        if isbool(a):
            if b == 0:
                return neg(a)
            if b in (1, -1):
                return a
            return 0
        if isbit(a):
            if b not in (0, 1, -1):
                return 0
            if b != 0:
                return neg(mkeq(a, 0))
        if b == 0 and ptr_nonnull(a):
            return 0
        if a[0] == 'zx' and 0 <= b < (1 << a[1]):
            return mkeq(a[2], wrap(b, a[1]) if a[1] > 1 else b)
        if a[0] == 'op' and a[1] == 'sub' and b == 0:
            return mkeq(a[3], a[4])
        if a[0] == 'op' and a[1] == 'xor' and b == 0:
            return mkeq(a[3], a[4])
        return ('cmp', 'eq', a, b)
    ba, oa, ia = split(a)
    bb, ob, ib = split(b)
    if ba == bb and ia == ib and not has_stale(ba):
        return 1 if oa == ob else 0
    if isinstance(ba, tuple) and isinstance(bb, tuple) and ba != bb and \
            isobj(ba) and isobj(bb):
        return 0
    if repr(a) > repr(b):
        a, b = b, a
    return ('cmp', 'eq', a, b)


def has_stale(t):
    if isinstance(t, tuple):
        if t and t[0] == 's' and len(t) > 1 and t[1] == 'stale':
            return True
        for x in t:
            if isinstance(x, tuple) and has_stale(x):
                return True
    return False


def mkcmp(pred, a, b, bits=64):
    if pred == 'eq':
        return mkeq(a, b)
    if pred == 'ne':
        return neg(mkeq(a, b))
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == 'u':
            m = (1 << bits) - 1
            a &= m
            b &= m
        p = pred[1:]
        return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
    p = pred[1:]
    s = pred[0]
    if p == 'gt':
        return mkcmp(s + 'lt', b, a, bits)
    if p == 'ge':
        return neg(mkcmp(s + 'lt', a, b, bits))
    if p == 'le':
        return neg(mkcmp(s + 'lt', b, a, bits))
    if a == b and not has_stale(a):
        return 0
    # comparison of a zero-extended or boolean value with a constant
    if isinstance(a, tuple) and isbool(a) and isinstance(b, int) and s == 's':
        if b <= 0:
            return 0
        if b == 1:
            return neg(a)
        return 1
    if s == 'u' and isinstance(a, int) and a == 0:
        return neg(mkeq(b, 0))
    if s == 'u' and isinstance(b, int) and b == 0:
        return 0
    return ('cmp', s + 'lt', a, b)


def mkbits(t, k, w):
    if isinstance(t, int):
        return (t >> k) & ((1 << w) - 1)
    if t[0] == 'bfw':
        for (kk, ww, v) in t[2]:
            if kk == k and ww == w:
                return v
            if not (k + w <= kk or kk + ww <= k):
                if kk <= k and k + w <= kk + ww:
                    return mkbits(v, k - kk, w)
                return ('bits', t, k, w)
        return mkbits(t[1], k, w)
    if t[0] == 'bits' and k + w <= t[3]:
        return mkbits(t[1], t[2] + k, w)
    if t[0] == 'zx' and k + w <= t[1]:
        return mkbits(t[2], k, w)
    if t[0] == 'tr' and k + w <= t[1]:
        return mkbits(t[2], k, w)
    if isbool(t) and k == 0:
        return t
    wd = width(t)
    if k == 0 and w == wd:
        return t
    if t[0] == 'op' and t[1] == 'lshr' and isinstance(t[4], int):
        return mkbits(t[3], k + t[4], w)
    return ('bits', t, k, w)


def contig(mask, bits):
    """mask of `bits` width as (shift,width) if it is one contiguous run of ones"""
    mask &= (1 << bits) - 1
    if mask == 0:
        return None
    k = (mask & -mask).bit_length() - 1
    m = mask >> k
    if m & (m + 1):
        return None
    return k, m.bit_length()


def mkop(op, bits, a, b):
    if isinstance(a, int) and isinstance(b, int):
        m = (1 << bits) - 1
        if op == 'add':
            return wrap(a + b, bits)
        if op == 'sub':
            return wrap(a - b, bits)
        if op == 'mul':
            return wrap(a * b, bits)
        if op == 'and':
            return wrap(a & b, bits)
        if op == 'or':
            return wrap(a | b, bits)
        if op == 'xor':
            r = wrap(a ^ b, bits)
            return r & 1 if bits == 1 else r
        if op == 'shl':
            return wrap(a << (b & 63), bits)
        if op == 'lshr':
            return wrap((a & m) >> (b & 63), bits)
        if op == 'ashr':
            return wrap(a >> (b & 63), bits)
        if op == 'udiv' and b:
            return wrap((a & m) // (b & m), bits)
        if op == 'urem' and b:
            return wrap((a & m) % (b & m), bits)
        if op == 'sdiv' and b:
            q = abs(a) // abs(b)
            return wrap(q if (a < 0) == (b < 0) else -q, bits)
        if op == 'srem' and b:
            r = abs(a) % abs(b)
            return wrap(-r if a < 0 else r, bits)
    if op in ('add', 'mul', 'and', 'or', 'xor') and isinstance(a, int):
        a, b = b, a
    if op == 'xor' and b in (1, -1) and bits == 1:
        return neg(a)
    if op == 'xor' and isbool(a) and b == 1:
        return neg(a)
    if op == 'add':
        if b == 0:
            return a
        if isinstance(b, int):
            if a[0] == 'op' and a[1] == 'add' and isinstance(a[4], int):
                return mkop('add', bits, a[3], wrap(a[4] + b, bits))
            if a[0] in ('p', 'al', 'g'):
                return padd(a, b)
    if op == 'sub':
        if b == 0:
            return a
        if isinstance(b, int):
            return mkop('add', bits, a, -b)
        if isinstance(a, tuple):
            ba, oa, ia = split(a)
            bb, ob, ib = split(b)
            if ba == bb and (a[0] == 'p' or b[0] == 'p' or a == b) and not has_stale(ba):
                # pointer difference
                ia = list(ia)
                extra = []
                for x in ib:
                    if x in ia:
                        ia.remove(x)
                    else:
                        extra.append((x[0], -x[1]))
                ix = ia + extra
                if not ix:
                    return oa - ob
                r = None
                for (x, s) in ix:
                    tterm = x if s == 1 else mkop('mul', 64, x, s)
                    r = tterm if r is None else mkop('add', 64, r, tterm)
                return mkop('add', 64, r, oa - ob) if oa != ob else r
            if a[0] == 'op' and a[1] == 'add':
                if a[3] == b:
                    return a[4]
                if a[4] == b:
                    return a[3]
            if b[0] == 'op' and b[1] == 'add' and isinstance(b[4], int) and a[0] == 'op' and a[1] == 'add' and \
                    isinstance(a[4], int) and a[3] == b[3]:
                return wrap(a[4] - b[4], bits)
            if b[0] == 'op' and b[1] == 'add' and isinstance(b[4], int) and b[3] == a:
                return -b[4]
    if op == 'mul':
        if b == 1:
            return a
        if b == 0:
            return 0
    if op == 'and':
        if b == 0:
            return 0
        if a == b:
            return a
        if isinstance(b, int):
            if b == -1:
                return a
            bb = b & ((1 << bits) - 1)
            if (bb & (bb + 1)) == 0:      # low mask
                return mkbits(a, 0, bb.bit_length())
            if a[0] == 'op' and a[1] == 'and' and isinstance(a[4], int):
                return mkop('and', bits, a[3], wrap(a[4] & b, bits))
            if a[0] == 'op' and a[1] == 'or' and isinstance(a[4], int) and (a[4] & b) == 0:
                return mkop('and', bits, a[3], b)
        elif isbool(a) and isbool(b):
            return ('boolop', 'and', a, b)
        elif bits == 1:
            return ('boolop', 'and', a, b)
    if op == 'or':
        if b == 0:
            return a
        if a == b:
            return a
        if b == -1:
            return -1
        if bits == 1 or (isbool(a) and isbool(b)):
            return ('boolop', 'or', a, b)
        # bitfield store: (X & ~mask) | (v << k)
        for x, y in ((a, b), (b, a)):
            x = lowbits_and(x, bits)
            if isinstance(x, tuple) and x[0] == 'op' and x[1] == 'and' and isinstance(x[4], int):
                c = contig(~x[4], bits)
                if c and bits <= 32:
                    k, w = c
                    val = None
                    if isinstance(y, int):
                        if ((y & ((1 << bits) - 1)) & ~(((1 << w) - 1) << k)) == 0:
                            val = (y >> k) & ((1 << w) - 1)
                    elif y[0] == 'op' and y[1] == 'shl' and y[4] == k:
                        val = mkbits(y[3], 0, w)
                    elif k == 0:
                        val = mkbits(y, 0, w)
                    if val is not None:
                        base = x[3]
                        ov = ()
                        if base[0] == 'bfw':
                            ov = tuple(o for o in base[2] if o[0] + o[1] <= k or k + w <= o[0])
                            base = base[1]
                        ov = tuple(sorted(ov + ((k, w, val),), key=lambda z: z[0]))
                        return ('bfw', base, ov)
        # setting bits to one: X | const
        if isinstance(b, int) and bits <= 32 and isinstance(a, tuple) and a[0] in ('ld', 'bfw'):
            c = contig(b, bits)
            if c:
                k, w = c
                base, ov = (a[1], a[2]) if a[0] == 'bfw' else (a, ())
                if all(o[0] + o[1] <= k or k + w <= o[0] for o in ov) or any(o[0] == k and o[1] == w for o in ov):
                    ov = tuple(o for o in ov if not (o[0] == k and o[1] == w))
                    return ('bfw', base, tuple(sorted(ov + ((k, w, (1 << w) - 1),), key=lambda z: z[0])))
    if op == 'and' and isinstance(b, int) and isinstance(a, tuple) and a[0] in ('bfw', 'ld') and bits <= 32:
        c = contig(~b, bits)
        # clearing a run of bits; kept as 'and' so that a following 'or' sees it
    if op in ('shl', 'lshr', 'ashr'):
        if b == 0:
            return a
        if a == 0:
            return 0
        if op == 'lshr' and isinstance(b, int) and 0 < b < bits and isinstance(a, tuple) and a[0] == 'bfw':
            return mkbits(a, b, bits - b)
    if op == 'or' or op == 'xor' or op == 'and' or op == 'add' or op == 'mul':
        if isinstance(a, tuple) and isinstance(b, tuple) and repr(a) > repr(b):
            a, b = b, a
    return ('op', op, bits, a, b)


def lowbits_and(x, bits):
    """the low bits of a bitfield word, as the `and` they were taken with"""
    if isinstance(x, tuple) and x[0] == 'bits' and x[2] == 0 and 0 < x[3] < bits and isinstance(x[1], tuple):
        b = x[1][1] if x[1][0] == 'bfw' else x[1]
        if b[0] == 'ld' and b[2] == bits:
            return ('op', 'and', bits, x[1], (1 << x[3]) - 1)
    return x


def norm_store(v, bits):
    """an `and` that clears a run of bits is a bitfield store of zero"""
    v = lowbits_and(v, bits)
    if isinstance(v, tuple) and v[0] == 'op' and v[1] == 'and' and isinstance(v[4], int) and v[2] == bits and \
            bits <= 32 and isinstance(v[3], tuple) and v[3][0] in ('ld', 'bfw'):
        c = contig(~v[4], bits)
        if c:
            k, w = c
            base, ov = (v[3][1], v[3][2]) if v[3][0] == 'bfw' else (v[3], ())
            ov = tuple(o for o in ov if o[0] + o[1] <= k or k + w <= o[0])
            return ('bfw', base, tuple(sorted(ov + ((k, w, 0),), key=lambda z: z[0])))
    return v


# ---------------------------------------------------------------- state

class Frame:
    __slots__ = ('func', 'fid', 'block', 'prev', 'pos', 'env', 'callins', 'loops', 'visits')

    def __init__(self, func, fid, callins):
        self.func = func
        self.fid = fid
        self.block = 0
        self.prev = -1
        self.pos = 0
        self.env = {}
        self.callins = callins
        self.loops = {}
        self.visits = {}

    def copy(self):
        f = Frame(self.func, self.fid, self.callins)
        f.block = self.block
        f.prev = self.prev
        f.pos = self.pos
        f.env = dict(self.env)
        f.loops = dict(self.loops)
        f.visits = dict(self.visits)
        return f


class State:
    __slots__ = ('frames', 'mem', 'regions', 'facts', 'truth', 'ps', 'escaped', 'epoch', 'created', 'trace', 'argenv', 'private')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.regions = {}
        self.facts = {}
        self.truth = {}
        self.ps = {}
        self.escaped = frozenset()
        self.private = frozenset()
        self.epoch = 0
        self.created = set()
        self.trace = None
        self.argenv = {}

    def copy(self):
        s = State()
        s.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        s.mem = dict(self.mem)
        s.regions = dict(self.regions)
        s.facts = dict(self.facts)
        s.truth = dict(self.truth)
        s.ps = dict(self.ps)
        s.escaped = self.escaped
        s.private = self.private
        s.epoch = self.epoch
        s.created = set(self.created)
        s.trace = self.trace
        s.argenv = self.argenv
        return s

    # ---- facts
    def interval(self, t):
        if isinstance(t, int):
            return (t, t, frozenset())
        f = self.facts.get(t)
        k = t[0]
        if f is None:
            if k == 'bits':
                return (0, (1 << t[3]) - 1, frozenset())
            if k in ('cmp', 'not', 'boolop'):
                r = self.truth_of(t)
                if r is not None:
                    return (int(r), int(r), frozenset())
                return (0, 1, frozenset())
            if k == 'zx':
                lo, hi, ne = self.interval(t[2])
                if lo >= 0:
                    return (lo, hi, ne)
                return (0, (1 << t[1]) - 1, frozenset())
            if k == 'tr':
                lo, hi, ne = self.interval(t[2])
                w = t[1]
                if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                    return (lo, hi, ne)
                return (-(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset())
            if k == 'sx':
                w = t[1]
                return (-(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset())
            if k == 'op' and t[1] == 'add' and isinstance(t[4], int):
                lo, hi, ne = self.interval(t[3])
                if lo > -INF or hi < INF:
                    lo2 = lo + t[4] if lo > -INF else -INF
                    hi2 = hi + t[4] if hi < INF else INF
                    w = t[2]
                    if lo2 >= -(1 << (w - 1)) and hi2 < (1 << (w - 1)):
                        return (lo2, hi2, frozenset(x + t[4] for x in ne))
                return (-INF, INF, frozenset())
            if k == 'op' and t[1] == 'and' and isinstance(t[4], int) and t[4] >= 0:
                return (0, t[4], frozenset())
            if k == 'op' and t[1] == 'urem' and isinstance(t[4], int) and t[4] > 0:
                return (0, t[4] - 1, frozenset())
            if k == 'op' and t[1] == 'lshr' and isinstance(t[4], int) and t[4] > 0:
                return (0, (1 << (t[2] - t[4])) - 1, frozenset())
            if k in ('ld', 's', 'arg'):
                w = width(t)
                if w < 64:
                    if w == 8:
                        return (-128, 255, frozenset())
                    return (-(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset())
            if ptr_nonnull(t):
                return (-INF, INF, frozenset((0,)))
            return (-INF, INF, frozenset())
        return f

    def const(self, t):
        if isinstance(t, int):
            return t
        lo, hi, ne = self.interval(t)
        if lo == hi:
            return lo
        return None

    def setiv(self, t, lo, hi, ne):
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            raise Infeasible()
        self.facts[t] = (lo, hi, frozenset(x for x in ne if lo <= x <= hi))

    def truth_of(self, c):
        """True/False/None for a boolean term"""
        if isinstance(c, int):
            return c != 0
        if c[0] == 'not':
            r = self.truth_of(c[1])
            return None if r is None else not r
        r = self.truth.get(c)
        if r is not None:
            return r
        if c[0] == 'boolop':
            a = self.truth_of(c[2])
            b = self.truth_of(c[3])
            if c[1] == 'and':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
            return None
        if c[0] == 'cmp':
            _, p, a, b = c
            if p == 'eq':
                la, ha, na = self.interval(a)
                lb, hb, nb = self.interval(b)
                if la == ha and lb == hb:
                    return la == lb
                if ha < lb or hb < la:
                    return False
                if la == ha and la in nb:
                    return False
                if lb == hb and lb in na:
                    return False
                if isinstance(a, tuple) and isinstance(b, tuple):
                    if self.truth.get(('cmp', 'slt', a, b)) or self.truth.get(('cmp', 'slt', b, a)) or \
                            self.truth.get(('cmp', 'ult', a, b)) or self.truth.get(('cmp', 'ult', b, a)):
                        return False
                return None
            la, ha, na = self.interval(a)
            lb, hb, nb = self.interval(b)
            if p == 'slt':
                if ha < lb:
                    return True
                if la >= hb:
                    return False
            elif p == 'ult':
                if la >= 0 and lb >= 0:
                    if ha < lb and ha < INF:
                        return True
                    if la >= hb and hb < INF:
                        return False
                elif la >= 0 and isinstance(b, int) and b < 0:
                    return True
                elif lb >= 0 and isinstance(a, int) and a < 0:
                    return False
            if isinstance(a, tuple) and isinstance(b, tuple):
                if self.truth.get(('cmp', 'eq', a, b)) or self.truth.get(('cmp', 'eq', b, a)):
                    return False
                if self.truth.get(('cmp', p, b, a)):
                    return False
            return None
        # any other term used as a condition
        lo, hi, ne = self.interval(c)
        if 0 in ne or lo > 0 or hi < 0:
            return True
        if lo == 0 and hi == 0:
            return False
        return None

    def assume(self, c, val):
        """refine; raises Infeasible"""
        if isinstance(c, int):
            if (c != 0) != val:
                raise Infeasible()
            return
        if c[0] == 'not':
            return self.assume(c[1], not val)
        r = self.truth_of(c)
        if r is not None:
            if r != val:
                raise Infeasible()
            return
        if c[0] == 'boolop':
            self.truth[c] = val
            if c[1] == 'and' and val:
                self.assume(c[2], True)
                self.assume(c[3], True)
            elif c[1] == 'or' and not val:
                self.assume(c[2], False)
                self.assume(c[3], False)
            return
        if c[0] == 'cmp':
            _, p, a, b = c
            if p == 'eq':
                ia = self.interval(a)
                ib = self.interval(b)
                if val:
                    lo = max(ia[0], ib[0])
                    hi = min(ia[1], ib[1])
                    ne = ia[2] | ib[2]
                    if isinstance(a, tuple):
                        self.setiv(a, lo, hi, ne)
                    if isinstance(b, tuple):
                        self.setiv(b, lo, hi, ne)
                        self.truth[c] = True
                else:
                    if isinstance(b, int):
                        self.setiv(a, ia[0], ia[1], ia[2] | {b})
                    else:
                        if ib[0] == ib[1]:
                            self.setiv(a, ia[0], ia[1], ia[2] | {ib[0]})
                        if ia[0] == ia[1]:
                            self.setiv(b, ib[0], ib[1], ib[2] | {ia[0]})
                        self.truth[c] = False
                return
            if p == 'slt':
                ia = self.interval(a)
                ib = self.interval(b)
                if val:
                    if isinstance(a, tuple) and ib[1] < INF:
                        self.setiv(a, ia[0], min(ia[1], ib[1] - 1), ia[2])
                    if isinstance(b, tuple) and ia[0] > -INF:
                        self.setiv(b, max(ib[0], ia[0] + 1), ib[1], ib[2])
                else:
                    if isinstance(a, tuple) and ib[0] > -INF:
                        self.setiv(a, max(ia[0], ib[0]), ia[1], ia[2])
                    if isinstance(b, tuple) and ia[1] < INF:
                        self.setiv(b, ib[0], min(ib[1], ia[1]), ib[2])
                if isinstance(a, tuple) and isinstance(b, tuple):
                    self.truth[c] = val
                return
            if p == 'ult':
                ia = self.interval(a)
                ib = self.interval(b)
                if isinstance(b, int) and b > 0:
                    if val:
                        self.setiv(a, max(ia[0], 0), min(ia[1], b - 1), ia[2])
                        return
                    elif ia[0] >= 0:
                        self.setiv(a, max(ia[0], b), ia[1], ia[2])
                        return
                if isinstance(a, int) and a >= 0:
                    if not val:
                        self.setiv(b, max(ib[0], 0), min(ib[1], a), ib[2])
                        return
                    elif ib[0] >= 0:
                        self.setiv(b, max(ib[0], a + 1), ib[1], ib[2])
                        return
                self.truth[c] = val
                if val and isinstance(b, tuple):
                    # a <u b implies b != 0
                    try:
                        self.setiv(b, ib[0], ib[1], ib[2] | {0})
                    except Infeasible:
                        raise
                return
        lo, hi, ne = self.interval(c)
        if val:
            self.setiv(c, lo, hi, ne | {0})
        else:
            self.setiv(c, 0, 0, frozenset())


# ---------------------------------------------------------------- engine

class Violation:
    def __init__(self, rule, msg, func, loc, trace, extra=None):
        self.rule = rule
        self.msg = msg
        self.func = func
        self.loc = loc
        self.trace = trace
        self.extra = extra or {}

    def key(self):
        return (self.rule, self.func, self.msg)


class Policy:
    """How calls are abstracted and what is monitored. Subclassed per property."""
    max_depth = 12
    recursion = False
    max_steps = 400000

    def start(self, eng, st, fn):
        pass

    def call(self, eng, st, ins, name, args, site):
        """Return None (not handled) or a list of (state, retterm)."""
        return None

    def icall(self, eng, st, ins, fnterm, args, site):
        return None

    def inline(self, eng, st, f):
        return True

    def on_store(self, eng, st, addr, val, bits, ins):
        pass

    def on_load(self, eng, st, addr, val, bits, ins):
        pass

    def on_ret(self, eng, st, val, ins):
        pass

    def on_return_from(self, eng, st, func, val, ins):
        pass

    def on_nullderef(self, eng, st, addr, ins):
        pass

    def on_branch(self, eng, st, cond, ins):
        pass

    def on_cmp(self, eng, st, pred, a, b):
        return None

    def on_abort(self, eng, st, ins):
        pass

    def initial_value(self, eng, st, addr, bits):
        """Value of a location never written on this path, or None."""
        return None


class Engine:
    def __init__(self, prog, policy, models=None):
        self.prog = prog
        self.pol = policy
        self.models = models or {}
        self.violations = {}
        self.fids = {(): 0}
        self.fidrev = [()]
        self.steps = 0
        self.deadline = time.time() + getattr(policy, 'max_time', 240)
        self.paths = 0
        self.joins = 0
        self.calls_seen = {}
        self.entry = None
        self.unmodelled = {}
        self.incomplete = []
        self.funcs_visited = set()

    # ---- ids
    def fid(self, parent, callid):
        k = (parent, callid)
        if k not in self.fids:
            self.fids[k] = len(self.fidrev)
            self.fidrev.append(k)
        return self.fids[k]

    def site(self, st, ins):
        fr = st.frames[-1]
        return (fr.fid, fr.func.key, fr.block, fr.pos)

    def loc(self, st, ins=None):
        fr = st.frames[-1] if st.frames else None
        if ins is None or 'ln' not in ins:
            return '%s:%s' % (fr.func.file, fr.func.line) if fr else '?'
        fl = ins.get('fl', fr.func.file if fr else '?')
        return '%s:%d' % (fl.rsplit('/', 1)[-1], ins['ln'])

    def stack(self, st):
        return ' > '.join(fr.func.name for fr in st.frames)

    def violate(self, st, ins, rule, msg, func=None, **extra):
        f = func or (st.frames[0].func.name if st.frames else self.entry.name)
        v = Violation(rule, msg, f, self.loc(st, ins), self.trace_list(st), extra)
        v.extra.setdefault('in', self.stack(st))
        k = (rule, f, msg, v.loc)
        if k not in self.violations:
            self.violations[k] = v

    def trace_list(self, st):
        out = []
        t = st.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    # ---- symbols
    def fresh(self, st, *sym):
        """A symbol for a value produced at a site; an older value of the same site becomes stale."""
        s = ('s',) + sym
        if s in st.created:
            self.rename(st, s)
        st.created.add(s)
        return s

    def rename(self, st, s):
        stale = ('s', 'stale') + s[1:]
        memo = {}

        def rn(t):
            if not isinstance(t, tuple):
                return t
            if t == s:
                return stale
            r = memo.get(t)
            if r is None:
                r = tuple(rn(x) if isinstance(x, tuple) else x for x in t)
                memo[t] = r
            return r

        def hit(t):
            return isinstance(t, tuple) and contains(t, s)
        for fr_i, fr in enumerate(st.frames):
            if any(hit(v) for v in fr.env.values()) or any(hit(k) or hit(v) for m in fr.loops.values() for k, v in m.items()):
                if fr_i != len(st.frames) - 1:
                    fr = fr.copy()
                    st.frames[fr_i] = fr
                fr.env = {k: rn(v) for k, v in fr.env.items()}
                fr.loops = {h: {rn(k): rn(v) for k, v in m.items()} for h, m in fr.loops.items()}
        if any(hit(k) or hit(v) for k, v in st.mem.items()):
            st.mem = {rn(k): rn(v) for k, v in st.mem.items()}
        if any(hit(k) or hit(v) for k, v in st.regions.items()):
            st.regions = {rn(k): rn(v) for k, v in st.regions.items()}
        st.facts = {k: v for k, v in st.facts.items() if not hit(k)}
        st.truth = {k: v for k, v in st.truth.items() if not hit(k)}
        # facts about stale symbols of the same name are meaningless from here on
        st.facts = {k: v for k, v in st.facts.items() if not contains(k, stale)}
        st.truth = {k: v for k, v in st.truth.items() if not contains(k, stale)}
        if any(hit(x) for x in st.escaped):
            st.escaped = frozenset(rn(x) for x in st.escaped)
        if any(hit(x) for x in st.private):
            st.private = frozenset(rn(x) for x in st.private)
        if hit(st.epoch):
            st.epoch = rn(st.epoch)

        def rnv(v):
            if isinstance(v, tuple):
                return rn(v)
            if isinstance(v, frozenset):
                return frozenset(rnv(x) for x in v)
            if isinstance(v, dict):
                return {rnv(k): rnv(x) for k, x in v.items()}
            return v
        st.ps = {rnv(k): rnv(v) for k, v in st.ps.items()}

    # ---- memory
    def islocal(self, st, base):
        return isinstance(base, tuple) and ((base[0] == 'al' and base not in st.escaped) or base in st.private)

    def havoc_all(self, st, site):
        st.epoch = self.fresh(st, 'ep', site)
        keep = {}
        for k, v in st.mem.items():
            if self.islocal(st, k[0]) or self.keep_on_havoc(st, k):
                keep[k] = v
        st.mem = keep
        regs = {}
        for b, r in st.regions.items():
            if self.islocal(st, b):
                regs[b] = r
        for b in st.escaped:
            if isinstance(b, tuple) and b[0] == 'al':
                regs[b] = ((-INF, INF, 'unk', st.epoch),)
        st.regions = regs
        # facts about memory content of other epochs stay valid (terms carry their epoch)

    def keep_on_havoc(self, st, key):
        k = self.pol
        f = getattr(k, 'keep_on_havoc', None)
        return f(self, st, key) if f else key[0] == ('g', 'errno')

    def havoc_obj(self, st, base, site, lo=-INF, hi=INF):
        u = self.fresh(st, 'hv', site, base)
        self.kill_range(st, base, lo, hi)
        st.regions[base] = ((lo, hi, 'unk', u),) + tuple(r for r in st.regions.get(base, ()) if not (lo <= r[0] and r[1] <= hi))

    def kill_range(self, st, base, lo, hi):
        dead = [k for k in st.mem if k[0] == base and (k[2] or (k[1] < hi and k[1] + st.mem[k][1] // 8 > lo))]
        for k in dead:
            del st.mem[k]

    def load(self, st, addr, bits):
        base, off, ix = split(addr)
        key = (base, off, ix)
        e = st.mem.get(key)
        if e is not None:
            v, b = e
            if b == bits:
                return v
            if isinstance(v, int):
                return wrap(v, bits) if bits < b else ('s', 'mix', key, bits)
            if bits < b:
                return mkbits(v, 0, bits)
            return ('ld', addr, bits, ('mix', v))
        n = bits // 8
        if not ix:
            # contained in a wider store?
            for k in range(1, 8):
                e = st.mem.get((base, off - k, ()))
                if e is not None and e[1] // 8 >= k + n:
                    if isinstance(e[0], int):
                        return wrap((e[0] >> (8 * k)), bits)
                    return mkbits(e[0], 8 * k, bits)
        for (lo, hi, kind, pl) in st.regions.get(base, ()):
            if off + n <= lo or off >= hi:
                continue
            if ix:
                return ('ld', addr, bits, ('reg', kind, pl))
            if lo <= off and off + n <= hi:
                if kind == 'set':
                    if isinstance(pl, int):
                        v = 0
                        for i in range(n):
                            v = (v << 8) | (pl & 255)
                        return wrap(v, bits)
                    return ('ld', addr, bits, ('reg', 'set', pl))
                if kind == 'copy':
                    return self.ldterm(padd(pl[0], off - lo), bits, pl[1])
                return ('ld', addr, bits, pl)
            return ('ld', addr, bits, ('mixr', pl))
        if isinstance(base, tuple) and base[0] == 'al' and base not in st.escaped:
            return ('ld', addr, bits, ('undef',))
        iv = self.pol.initial_value(self, st, addr, bits)
        if iv is not None:
            return iv
        if isinstance(base, tuple) and base[0] == 'g' and not ix:
            c = self.const_global(base[1], off, bits)
            if c is not None:
                return c
        return self.ldterm(addr, bits, st.epoch)

    def ldterm(self, addr, bits, epoch):
        base = split(addr)[0]
        if isinstance(base, tuple) and base[0] == 'g' and not split(addr)[2]:
            c = self.const_global(base[1], split(addr)[1], bits)
            if c is not None:
                return c
        return ('ld', addr, bits, epoch)

    def const_global(self, name, off, bits):
        g = self.prog.globals.get(name)
        if g is None:
            return None
        if not g['const'] and not self.ro_global(name):
            return None
        return self.init_at(g, g.get('init'), off, bits)

    def ro_global(self, name):
        ro = getattr(self.prog, '_ro', None)
        if ro is None:
            ro = self.prog._ro = ro_globals(self.prog)
        return name in ro

    def init_at(self, g, init, off, bits):
        if init is None:
            return None
        k = init[0]
        if k == 'z':
            return 0
        if k == 'bytes':
            n = bits // 8
            if off < 0 or off + n > len(init[1]):
                return None
            v = 0
            for i in reversed(range(n)):
                v = (v << 8) | (init[1][off + i] & 255)
            return wrap(v, bits)
        if k == 'arr':
            es = init[1]
            if off % es or bits != es * 8:
                return None
            i = off // es
            return wrap(init[2][i], bits) if 0 <= i < len(init[2]) else None
        if k == 'agg':
            best = None
            for o, v in init[1]:
                if o <= off:
                    best = (o, v)
            return self.init_at(g, best[1], off - best[0], bits) if best else None
        if off != 0:
            return None
        if k == 'c':
            return init[1]
        if k == 'g':
            return ('g', self.prog.gkey(g['tu'], init[1]))
        if k == 'p':
            b = self.init_at(g, init[1], 0, 64)
            return padd(b, init[2]) if b is not None else None
        return None

    def store(self, st, addr, val, bits):
        base, off, ix = split(addr)
        val = norm_store(val, bits)
        if tsize(val) > 120:
            val = self.fresh(st, 'big', base if not isinstance(base, tuple) else base[:3], off)
        n = bits // 8
        key = (base, off, ix)
        # exact overwrite and overlaps within the same base
        dead = []
        for k, (v, b) in st.mem.items():
            if k == key:
                if b > bits:
                    dead.append(k)
                continue
            if k[0] == base:
                if k[2] == ix:
                    if k[1] < off + n and off < k[1] + b // 8:
                        dead.append(k)
                else:
                    if k[1] == off or self.mayalias_idx(k, key):
                        dead.append(k)
            elif k[1] == off and k[2] == ix and b == bits and not self.distinct(st, k[0], base):
                dead.append(k)
        for k in dead:
            del st.mem[k]
        st.mem[key] = (val, bits)
        if not self.islocal(st, base):
            # other objects reached through different names may be the same object
            self.escape(st, val)

    def mayalias_idx(self, k1, k2):
        s1 = {s for (_, s) in k1[2]}
        s2 = {s for (_, s) in k2[2]}
        if not s1 or not s2:
            s = s1 or s2
        else:
            if s1 != s2:
                return True
            s = s1
        if len(s) != 1:
            return True
        m = abs(next(iter(s)))
        if m == 0:
            return True
        return (k1[1] - k2[1]) % m == 0

    def distinct(self, st, a, b):
        """two different base terms that cannot name the same object"""
        def fresh(t):
            return isinstance(t, tuple) and (t[0] in ('al', 'g') or (t[0] == 's' and t[1] == 'shape') or t in st.private)
        return fresh(a) or fresh(b)

    def escape(self, st, val):
        if isinstance(val, tuple):
            base = split(val)[0]
            if isinstance(base, tuple):
                new = set()
                work = [base]
                while work:
                    b = work.pop()
                    if not isinstance(b, tuple) or b in new:
                        continue
                    if (b[0] == 'al' and b not in st.escaped) or b in st.private:
                        new.add(b)
                        for k, (v, _) in st.mem.items():
                            if k[0] == b and isinstance(v, tuple):
                                work.append(split(v)[0])
                if new:
                    st.escaped = st.escaped | {x for x in new if x[0] == 'al'}
                    st.private = st.private - new

    def most(self, st, n):
        """the largest number of bytes a length may stand for, if that is known"""
        lo, hi, _ = st.interval(n)
        return hi if 0 <= lo and hi < (1 << 31) else None

    def copy_mem(self, st, dst, src, n, site, most=None):
        db, do, di = split(dst)
        if n is None or di:
            self.havoc_obj(st, db, site, -INF if di else do, do + most if not di and most is not None else INF)
            return
        sb, so, si = split(src)
        ent = []
        if not si:
            for k, (v, b) in st.mem.items():
                if k[0] == sb and not k[2] and so <= k[1] and k[1] + b // 8 <= so + n:
                    ent.append((k[1] - so, v, b))
        self.kill_range(st, db, do, do + n)
        regs = [r for r in st.regions.get(db, ()) if not (do <= r[0] and r[1] <= do + n)]
        base_region = None
        if not si:
            for r in st.regions.get(sb, ()):
                if r[0] <= so and so + n <= r[1]:
                    base_region = r
                    break
        if base_region is not None and base_region[2] == 'unk':
            regs.insert(0, (do, do + n, 'copy', (src, base_region[3])))
        elif base_region is not None and base_region[2] == 'set':
            regs.insert(0, (do, do + n, 'set', base_region[3]))
        elif base_region is not None and base_region[2] == 'copy':
            regs.insert(0, (do, do + n, 'copy', (padd(base_region[3][0], so - base_region[0]), base_region[3][1])))
        else:
            ep = st.epoch
            if isinstance(sb, tuple) and sb[0] == 'al' and sb not in st.escaped:
                ep = ('undef',)
            regs.insert(0, (do, do + n, 'copy', (src, ep)))
        st.regions[db] = tuple(regs)
        for o, v, b in ent:
            st.mem[(db, do + o, ())] = (v, b)

    def set_mem(self, st, dst, val, n, site, most=None):
        db, do, di = split(dst)
        if n is None or di:
            self.havoc_obj(st, db, site, -INF if di else do, do + most if not di and most is not None else INF)
            return
        self.kill_range(st, db, do, do + n)
        regs = [r for r in st.regions.get(db, ()) if not (do <= r[0] and r[1] <= do + n)]
        st.regions[db] = tuple([(do, do + n, 'set', val)] + regs)

    # ---- operands
    def opval(self, st, o):
        k = o[0]
        if k == 'v':
            fr = st.frames[-1]
            return fr.env.get(o[1], ('s', 'nodef', o[1]))
        if k == 'c':
            return o[1]
        if k == 'a':
            return st.frames[-1].env[('a', o[1])]
        if k == 'g':
            return ('g', self.prog.gkey(st.frames[-1].func.tu, o[1]))
        if k == 'p':
            return padd(self.opval(st, o[1]), o[2])
        if k == 'z':
            return 0
        return ('s', 'undef')

    def errno(self, st):
        return self.load(st, ('g', 'errno'), 32)

    def set_errno(self, st, v):
        st.mem[(('g', 'errno'), 0, ())] = (v, 32)

    # ---- running
    def run(self, fn, args=None, init=None, ps=None):
        self.entry = fn
        st = State()
        fr = Frame(fn, 0, None)
        for i, a in enumerate(fn.args):
            t = ('arg', i, a['name'], WIDTHS.get(a['ty'], 64))
            fr.env[('a', i)] = t if args is None or i not in args else args[i]
        st.frames = [fr]
        st.ps = dict(ps or {})
        if init:
            init(self, st)
        self.pol.start(self, st, fn)
        self.seen = {}
        self.nseen = {}
        work = [st]
        self.work = work
        while work:
            s = work.pop()
            try:
                self.step_path(s, work)
            except Infeasible:
                pass
            if self.steps > self.pol.max_steps:
                self.incomplete.append(fn.key)
                break
        return self

    def run_in(self, st, fn, args, pol=None, steps=50000):
        """Runs fn abstractly from a copy of the memory and facts of `st`; returns the final states."""
        e = type(self)(self.prog, pol or Policy())
        e.entry = fn
        out = []
        s = st.copy()
        fr = Frame(fn, e.fid('sub', fn.key), None)
        # keep frame identities apart from the outer ones
        base = 1000000
        fr.fid += base
        for i in range(len(fn.args)):
            fr.env[('a', i)] = args[i] if i < len(args) else ('s', 'undef')
        s.frames = [fr]
        e.seen = {}
        p = e.pol
        old = p.on_ret

        def on_ret(eng, st2, val, ins):
            out.append((st2, val))
        p.on_ret = on_ret
        try:
            work = [s]
            while work:
                x = work.pop()
                try:
                    e.step_path(x, work)
                except Infeasible:
                    pass
                if e.steps > steps:
                    raise Incomplete(fn.key)
        finally:
            del p.on_ret
        self.funcs_visited |= e.funcs_visited
        self.steps += e.steps
        self.paths += e.paths
        self.incomplete += e.incomplete
        for k, v in e.violations.items():
            self.violations.setdefault(k, v)
        return out

    def canon(self, st):
        """canonical key of a state at a block entry"""
        live = set()
        frs = []
        for i, fr in enumerate(st.frames):
            top = i == len(st.frames) - 1
            li = fr.func.livein[fr.block] if top else None
            env = []
            if li is None:
                li = self.live_after_call(fr)
            for k, v in fr.env.items():
                if isinstance(k, tuple):
                    if not self.arg_used_later(fr, k[1], top):
                        continue
                    env.append((k, v))
                elif k in li:
                    env.append((k, v))
            frs.append((fr.fid, fr.func.key, fr.block, fr.pos if not top else 0, frozenset(env)))
            for _, v in env:
                syms(v, live)
        return tuple(frs), live

    def live_after_call(self, fr):
        # values live after the pending call: in-block uses after pos plus live-out
        key = (fr.block, fr.pos)
        c = _lac.get((fr.func.key, id(fr.func), key))
        if c is None:
            f = fr.func
            s = set()
            for ins in f.blocks[fr.block][fr.pos + 1:]:
                s |= ins['u']
            for x in f.succs[fr.block]:
                ph = {y['id'] for y in f.blocks[x] if y['op'] == 'phi'}
                s |= f.livein[x] - ph
                for y in f.blocks[x]:
                    if y['op'] == 'phi':
                        s |= y['u']
                        for _, o in y['in']:
                            if o[0] == 'v':
                                s.add(o[1])
            c = s
            _lac[(fr.func.key, id(fr.func), key)] = c
        return c

    def arg_used_later(self, fr, i, top):
        return not getattr(self.pol, 'dead_args', False) or i in live_args(fr.func, fr.block)

    def gc(self, st, live):
        for k, (v, _) in st.mem.items():
            syms(k, live)
            syms(v, live)
        for k, v in st.regions.items():
            syms(k, live)
            syms(v, live)
        syms(st.epoch, live)

        def psy(v):
            if isinstance(v, tuple):
                syms(v, live)
            if isinstance(v, (frozenset, tuple, list)):
                for x in v:
                    psy(x)
            elif isinstance(v, dict):
                for k, x in v.items():
                    psy(k)
                    psy(x)
        for k, v in st.ps.items():
            psy(k)
            psy(v)

        def alive(t):
            acc = set()
            syms(t, acc)
            return acc <= live or all(x in live or x not in st.created for x in acc)
        if st.facts:
            st.facts = {k: v for k, v in st.facts.items() if alive(k)}
        if st.truth:
            st.truth = {k: v for k, v in st.truth.items() if alive(k)}

    def enter_block(self, st, blk, work):
        """move the top frame to a block: phis, widening, join. Returns False if already covered."""
        fr = st.frames[-1]
        f = fr.func
        prev = fr.block
        back = (prev, blk) in f.backedges
        fr.prev = prev
        newv = {}
        for ins in f.blocks[blk]:
            if ins['op'] != 'phi':
                break
            for p, o in ins['in']:
                if p == prev:
                    newv[ins['id']] = (self.opval(st, o), o, ins)
                    break
        if back:
            vis = fr.visits.get(blk, 0) + 1
            fr.visits[blk] = vis
            upd = {}
            fresh = []
            conc = getattr(self.pol, 'concrete', False)
            for pid, (v, o, ins) in newv.items():
                old = fr.env.get(pid)
                if v == old or conc:
                    upd[pid] = v
                elif isinstance(v, int) and o[0] == 'c' and vis < 6:
                    upd[pid] = v
                elif isinstance(v, tuple) and v[0] == 's' and v[1] != 'phi' and v[1] != 'stale' and vis < 3:
                    upd[pid] = v
                elif isinstance(v, int) and isinstance(old, int) and vis < getattr(self.pol, 'unroll', 0):
                    upd[pid] = v
                else:
                    fresh.append((pid, ins, v))
            for pid, v in upd.items():
                fr.env[pid] = v
            for pid, ins, v in fresh:
                lo, hi = None, None
                old = fr.env.get(pid)
                s = ('s', 'phi', fr.fid, f.key, pid, WIDTHS.get(ins['ty'], 64))
                # monotone counters keep their lower bound
                keep = self.widen_iv(st, old, v, s)
                fr2 = st.frames[-1]
                s = self.fresh(st, *s[1:])
                fr = st.frames[-1]
                fr.env[pid] = s
                if keep is not None:
                    st.facts[s] = keep
                    if keep[0] > -INF and 0 in keep[2]:
                        pass
            # memory changed in the loop
            snap = fr.loops.get(blk)
            if snap is not None and not conc:
                for k in list(st.mem.keys()):
                    if k not in st.mem:
                        continue
                    v, b = st.mem[k]
                    o = snap.get(k)
                    if o is None or o == (v, b):
                        continue
                    if isinstance(v, int) and vis < 3:
                        continue
                    if isinstance(v, tuple) and v[0] == 'bfw' and all(
                            isinstance(x[2], int) or x[2][:2] == ('s', 'flag') for x in v[2]):
                        continue
                    if isinstance(v, tuple) and v[0] == 's' and v[1] not in ('stale', 'mphi') and vis < 4:
                        continue
                    keep = self.widen_iv(st, o[0], v, ('s', 'mphi', fr.fid, f.key, blk, k))
                    s = self.fresh(st, 'mphi', fr.fid, f.key, blk, k)
                    fr = st.frames[-1]
                    if k in st.mem:
                        st.mem[k] = (s, b)
                        if keep is not None:
                            st.facts[s] = keep
            if vis > (getattr(self.pol, 'max_visits', 1000) if conc else 60):
                self.incomplete.append(f.key)
                raise Infeasible()
        else:
            for pid, (v, o, ins) in newv.items():
                fr.env[pid] = v
            if blk in f.headers:
                fr.visits[blk] = 0
        # leaving a loop: forget its bookkeeping
        if fr.loops or fr.visits:
            for h in list(fr.visits.keys()):
                if blk not in f.loopbody.get(h, ()):
                    fr.visits.pop(h, None)
                    fr.loops.pop(h, None)
        fr.block = blk
        fr.pos = 0
        # drop dead values
        li = f.livein[blk]
        fr.env = {k: v for k, v in fr.env.items() if isinstance(k, tuple) or k in li or k in newv}
        if len(f.preds[blk]) > 1 or blk in f.headers:
            self.joins += 1
            ab = getattr(self.pol, 'abstract', None)
            if ab is not None:
                ab(self, st)
                fr = st.frames[-1]
            frs, live = self.canon(st)
            self.gc(st, live)
            if blk in f.headers:
                fr.loops[blk] = dict(st.mem)
            k2 = (frs, frozenset(st.mem.items()), frozenset(st.regions.items()),
                  frozenset(_hash_ps(st.ps).items()), st.epoch, st.escaped)
            fk = frozenset(st.facts.items()) | frozenset(('T', a, b) for a, b in st.truth.items())
            lst = self.seen.setdefault(k2, [])
            for old in lst:
                if old <= fk:      # an already explored state had no more facts than this one
                    return False
            lst.append(fk)
        return True

    def widen_iv(self, st, old, v, s):
        """interval kept for a widened value: the bound that every arrival so far respects"""
        if old is None:
            if getattr(self.pol, 'dead_args', False) and st.interval(v)[0] >= 0:
                return (0, INF, frozenset())
            return None
        io = st.interval(old)
        inn = st.interval(v)
        lo = io[0] if inn[0] >= io[0] else -INF
        hi = io[1] if inn[1] <= io[1] else INF
        ne = frozenset()
        if old != 0 and st.truth_of(mkeq(old, 0)) is False and st.truth_of(mkeq(v, 0)) is False:
            ne = frozenset((0,))
        # pattern: v == old + c with c > 0 grows from below
        d = mkop('sub', 64, v, old) if isinstance(v, tuple) and isinstance(old, tuple) else None
        if lo == -INF and isinstance(d, int) and d > 0 and io[0] > -INF:
            lo = io[0]
        if lo == -INF and hi == INF and not ne:
            return None
        return (lo, hi, ne)

    def step_path(self, st, work):
        pol = self.pol
        while True:
            fr = st.frames[-1]
            f = fr.func
            self.funcs_visited.add(f.key)
            blk = f.blocks[fr.block]
            if fr.pos >= len(blk):
                raise AnalysisBroken('fell off block in ' + f.key)
            ins = blk[fr.pos]
            op = ins['op']
            self.steps += 1
            if self.steps & 1023 == 0 and time.time() > self.deadline:
                self.incomplete.append(self.entry.key)
                work.clear()
                raise Infeasible()
            if op == 'phi':
                fr.pos += 1
                continue
            if op == 'br':
                if 'c' not in ins:
                    if not self.enter_block(st, ins['s'][0], work):
                        return
                    continue
                c = self.opval(st, ins['c'])
                if not isinstance(c, int) and not isbool(c):
                    c = neg(mkeq(c, 0))
                t = st.truth_of(c)
                a, b = ins['s']
                if t is None:
                    st2 = st.copy()
                    ln = ins.get('ln', 0)
                    try:
                        st2.assume(c, False)
                        st2.trace = (st.trace, (f.name, ln, 'else'))
                        pol.on_branch(self, st2, neg(c), ins)
                        if self.enter_block(st2, b, work):
                            work.append(st2)
                    except Infeasible:
                        pass
                    st.assume(c, True)
                    st.trace = (st.trace, (f.name, ln, 'then'))
                    pol.on_branch(self, st, c, ins)
                    if not self.enter_block(st, a, work):
                        return
                else:
                    if not self.enter_block(st, a if t else b, work):
                        return
                continue
            if op == 'switch':
                c = self.opval(st, ins['c'])
                k = st.const(c)
                if k is not None:
                    for v, b in ins['s']:
                        if v == k:
                            break
                    else:
                        b = ins['d']
                    if not self.enter_block(st, b, work):
                        return
                    continue
                for v, b in ins['s']:
                    st2 = st.copy()
                    try:
                        st2.assume(mkeq(c, v), True)
                        st2.trace = (st.trace, (f.name, ins.get('ln', 0), 'case %d' % v))
                        pol.on_branch(self, st2, mkeq(c, v), ins)
                        if self.enter_block(st2, b, work):
                            work.append(st2)
                    except Infeasible:
                        pass
                for v, b in ins['s']:
                    st.assume(mkeq(c, v), False)
                st.trace = (st.trace, (f.name, ins.get('ln', 0), 'default'))
                if not self.enter_block(st, ins['d'], work):
                    return
                continue
            if op == 'ret':
                val = self.opval(st, ins['val']) if 'val' in ins else None
                pol.on_return_from(self, st, f, val, ins)
                if len(st.frames) == 1:
                    self.paths += 1
                    pol.on_ret(self, st, val, ins)
                    return
                # drop the frame's locals
                fid = fr.fid
                dead = [k for k in st.mem if isinstance(k[0], tuple) and k[0][0] == 'al' and k[0][1] == fid]
                for k in dead:
                    del st.mem[k]
                for k in [k for k in st.regions if isinstance(k, tuple) and k[0] == 'al' and k[1] == fid]:
                    del st.regions[k]
                if st.escaped:
                    st.escaped = frozenset(x for x in st.escaped if not (x[0] == 'al' and x[1] == fid))
                callins = fr.callins
                st.frames = st.frames[:-1]
                st.frames[-1] = st.frames[-1].copy()
                fr = st.frames[-1]
                if 'id' in callins:
                    fr.env[callins['id']] = val if val is not None else 0
                fr.pos += 1
                continue
            if op == 'unreachable':
                return
            if op == 'call':
                self.cur_ins = ins
                if not self.do_call(st, ins, work):
                    return
                continue
            self.exec_simple(st, ins)
            st.frames[-1].pos += 1

    def exec_simple(self, st, ins):
        op = ins['op']
        fr = st.frames[-1]
        env = fr.env
        if op == 'load':
            p = self.opval(st, ins['p'])
            p = self.checkderef(st, p, ins)
            v = self.load(st, p, ins['bits'])
            self.pol.on_load(self, st, p, v, ins['bits'], ins)
            env[ins['id']] = v
        elif op == 'store':
            p = self.opval(st, ins['p'])
            p = self.checkderef(st, p, ins)
            if 'cv' in ins:
                self.set_mem(st, p, ('k', ins.get('ln', 0)), ins['bits'] // 8, self.site(st, ins))
                return
            v = self.opval(st, ins['val'])
            if isinstance(v, int):
                v = wrap(v, ins['bits'])
            self.pol.on_store(self, st, p, v, ins['bits'], ins)
            self.store(st, p, v, ins['bits'])
        elif op == 'getelementptr':
            p = self.opval(st, ins['p'])
            if ins['off'] is None:
                env[ins['id']] = ('s', 'gep', self.site(st, ins))
            else:
                off = ins['off']
                var = []
                for o, s in ins['var']:
                    x = self.opval(st, o)
                    c = st.const(x)
                    if c is not None:
                        off += c * s
                        continue
                    # x + const
                    if isinstance(x, tuple) and x[0] == 'op' and x[1] == 'add' and isinstance(x[4], int):
                        off += x[4] * s
                        x = x[3]
                    var.append((x, s))
                env[ins['id']] = padd(p, off, tuple(var))
        elif op == 'alloca':
            base = ('al', fr.fid, ins['id'], ins.get('nm', ''))
            env[ins['id']] = base
            n = self.opval(st, ins['n'])
            if st.mem:
                dead = [k for k in st.mem if k[0] == base]
                for k in dead:
                    del st.mem[k]
            st.regions.pop(base, None)
            self.pol_alloca(st, base, ins, n)
        elif op == 'icmp':
            a, b = self.opval(st, ins['a']), self.opval(st, ins['b'])
            r = self.pol.on_cmp(self, st, ins['pred'], a, b)
            env[ins['id']] = mkcmp(ins['pred'], a, b, ins['bits']) if r is None else r
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            a = self.opval(st, ins['a'])
            env[ins['id']] = self.cast(st, op, a, ins['from'], ins['bits'])
        elif op == 'select':
            c = self.opval(st, ins['c'])
            t = st.truth_of(c)
            a = self.opval(st, ins['a'])
            b = self.opval(st, ins['b'])
            if t is None:
                if a == b:
                    env[ins['id']] = a
                elif a == 1 and b == 0:
                    env[ins['id']] = c
                else:
                    env[ins['id']] = ('sel', c, a, b)
            else:
                env[ins['id']] = a if t else b
        elif 'a' in ins and 'b' in ins:
            a = self.opval(st, ins['a'])
            b = self.opval(st, ins['b'])
            ca, cb = a, b
            if isinstance(a, tuple):
                x = st.const(a)
                if x is not None and not isbit(a):
                    ca = x
            if isinstance(b, tuple):
                x = st.const(b)
                if x is not None:
                    cb = x
            r = mkop(op, ins['bits'], ca, cb)
            if op == 'add' and ins.get('nsw') and isinstance(r, tuple) and r not in st.facts:
                # signed overflow is undefined: the sum of two non-negative numbers is not negative
                la, lb = st.interval(ca)[0], st.interval(cb)[0]
                if la >= 0 and lb >= 0 and st.interval(r)[0] < la + lb:
                    st.facts[r] = (la + lb, (1 << (ins['bits'] - 1)) - 1, frozenset())
            if tsize(r) > 80:
                r = self.fresh(st, 'big', self.site(st, ins))
            st.frames[-1].env[ins['id']] = r
        elif op == 'extractvalue':
            a = self.opval(st, ins['a'])
            env[ins['id']] = ('xv', a, ins['ix'])
        elif op in ('stacksave',):
            pass
        else:
            if 'id' in ins:
                s = self.fresh(st, 'ins', self.site(st, ins))
                st.frames[-1].env[ins['id']] = s

    def pol_alloca(self, st, base, ins, n):
        f = getattr(self.pol, 'on_alloca', None)
        if f:
            f(self, st, base, ins, n)

    def cast(self, st, op, a, frm, to):
        if isinstance(a, int):
            if op == 'zext':
                return a & ((1 << frm) - 1) if frm < 64 else a
            if op == 'trunc':
                return wrap(a, to) if to > 1 else a & 1
            if op == 'sext' and frm == 1:
                return -1 if a & 1 else 0
            return a
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return a
        if isbool(a):
            return a
        if op == 'zext':
            if a[0] in ('bits', 'zx') or frm == 1:
                return a
            if frm == 8 and a[0] == 'sx':
                return ('zx', frm, a)
            lo, hi, ne = st.interval(a)
            if lo >= 0 and frm > 8:
                return a
            return ('zx', frm, a)
        if op == 'sext':
            if frm <= 8 and a[0] != 'bits':
                return ('sx', frm, a)
            return a
        if op == 'trunc':
            if to == 1:
                return neg(mkeq(mkbits(a, 0, 1), 0)) if not isbit(a) else neg(mkeq(a, 0))
            if a[0] == 'zx' and a[1] == to:
                return a[2]
            if a[0] == 'sx' and a[1] == to:
                return a[2]
            if a[0] == 'zx' and a[1] < to:
                return a
            if a[0] == 'bits' and a[3] < to:
                return a
            if width(a) <= to:
                return a
            if a[0] == 'tr' and a[1] >= to:
                return ('tr', to, a[2])
            return ('tr', to, a)
        return a

    def checkderef(self, st, p, ins):
        base, off, ix = split(p)
        if isinstance(base, int):
            if abs(base + off) < 4096 or ix:
                self.pol.on_nullderef(self, st, p, ins)
                raise Infeasible()
            return p
        if isinstance(base, tuple):
            if base[0] == 'sel':
                return p
            c = st.const(base) if base[0] not in ('al', 'g') else None
            if c == 0:
                self.pol.on_nullderef(self, st, p, ins)
                raise Infeasible()
            if base[0] in ('ld', 's', 'arg'):
                iv = st.interval(base)
                if 0 not in iv[2]:
                    try:
                        st.setiv(base, iv[0], iv[1], iv[2] | {0})
                    except Infeasible:
                        raise
        return p

    # ---- calls
    def do_call(self, st, ins, work):
        """executes a call; returns False when the path ends here"""
        fn = ins['fn']
        args = [self.opval(st, a) for a in ins['args']]
        site = self.site(st, ins)
        fr = st.frames[-1]
        name = None
        target = None
        fterm = None
        if fn[0] == 'asm':
            name = '<asm>'
        else:
            fterm = self.opval(st, fn)
            if isinstance(fterm, tuple) and fterm[0] == 'g':
                target = self.prog.funcs.get(fterm[1])
                name = fterm[1].split('@')[0]
            elif isinstance(fterm, tuple):
                iv = st.interval(fterm)
        if name is not None:
            res = self.pol.call(self, st, ins, name, args, site)
            if res is None and name in self.models:
                res = self.models[name](self, st, ins, name, args, site)
            if res is None and name.startswith('llvm.'):
                res = self.intrinsic(st, ins, name, args, site)
            if res is None and target is not None:
                rec = any(x.func is target for x in st.frames)
                if (not rec or self.pol.recursion) and len(st.frames) < self.pol.max_depth and self.pol.inline(self, st, target):
                    self.enter_call(st, ins, target, args)
                    return True
                if rec:
                    self.unmodelled.setdefault('recursion:' + name, 0)
            if res is None:
                res = self.opaque(st, ins, name, args, site, target)
        else:
            res = self.pol.icall(self, st, ins, fterm, args, site)
            if res is None:
                res = self.opaque(st, ins, '<indirect>', args, site, None)
        if isinstance(res, tuple):           # ('enter', function, arguments): run this body in place of the call
            self.enter_call(st, ins, res[1], res[2])
            return True
        first = None
        for s, v in res:
            f2 = s.frames[-1]
            if 'id' in ins and v is not None:
                f2.env[ins['id']] = v
            f2.pos += 1
            if first is None:
                first = s
            else:
                work.append(s)
        if first is None:
            return False
        if first is not st:
            work.append(first)
            return False
        return True

    def enter_call(self, st, ins, target, args):
        fr = st.frames[-1]
        nf = Frame(target, self.fid(fr.fid, (fr.func.key, fr.block, fr.pos)), ins)
        for i in range(len(target.args)):
            nf.env[('a', i)] = args[i] if i < len(args) else ('s', 'undef')
        # locals of an earlier activation of the same call site are gone
        fid = nf.fid
        dead = [k for k in st.mem if isinstance(k[0], tuple) and k[0][0] == 'al' and k[0][1] == fid]
        for k in dead:
            del st.mem[k]
        st.frames = st.frames + [nf]

    def opaque(self, st, ins, name, args, site, target):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        for a in args:
            self.escape(st, a)
        self.havoc_all(st, site)
        s = self.fresh(st, 'ret', name, site, WIDTHS.get(ins.get('ty'), 64))
        return [(st, s)]

    def intrinsic(self, st, ins, name, args, site):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            for a in args[:2]:
                pass
            hk = getattr(self.pol, 'on_memcpy', None)
            if hk:
                hk(self, st, args[0], args[1], args[2], ins)
            n = st.const(args[2])
            args[0] = self.checkderef(st, args[0], ins)
            self.copy_mem(st, args[0], args[1], n, site, self.most(st, args[2]))
            return [(st, args[0])]
        if name.startswith('llvm.memset'):
            hk = getattr(self.pol, 'on_memset', None)
            if hk:
                hk(self, st, args[0], args[1], args[2], ins)
            self.set_mem(st, args[0], args[1], st.const(args[2]), site, self.most(st, args[2]))
            return [(st, args[0])]
        if name.startswith('llvm.threadlocal.address'):
            return [(st, args[0])]
        if name.startswith('llvm.stacksave'):
            return [(st, 0)]
        if name.startswith('llvm.stackrestore') or name.startswith('llvm.va_') or name.startswith('llvm.dbg'):
            return [(st, None)]
        if name.startswith('llvm.expect'):
            return [(st, args[0])]
        if name.startswith('llvm.bswap.i'):
            w = int(name[len('llvm.bswap.i'):])
            r = 0
            for i in range(w // 8):
                b = mkbits(args[0], 8 * i, 8)
                b = b if isinstance(b, int) else ('zx', 8, b)
                r = mkop('or', w, r, mkop('shl', w, b, w - 8 - 8 * i))
            return [(st, r)]
        return [(st, self.fresh(st, 'ret', name, site, WIDTHS.get(ins.get('ty'), 64)))]


_lac = {}
_lvargs = {}


def live_args(f, blk):
    """parameters that may still be read from this block on"""
    c = _lvargs.get(id(f))
    if c is None:
        def args_of(o, acc):
            if isinstance(o, (list, tuple)):
                if len(o) == 2 and o[0] == 'a' and isinstance(o[1], int):
                    acc.add(o[1])
                    return
                for x in o:
                    args_of(x, acc)
            elif isinstance(o, dict):
                for x in o.values():
                    args_of(x, acc)
        c = []
        for b in f.blocks:
            acc = set()
            for ins in b:
                for x in ins.values():
                    args_of(x, acc)
            c.append(acc)
        ch = True
        while ch:
            ch = False
            for i in range(len(c) - 1, -1, -1):
                n = set(c[i])
                for x in f.succs[i]:
                    n |= c[x]
                if n != c[i]:
                    c[i] = n
                    ch = True
        _lvargs[id(f)] = c
    return c[blk]


def _hash_ps(ps):
    out = {}
    for k, v in ps.items():
        if k.startswith('_') if isinstance(k, str) else False:
            continue
        out[k] = frozenset(v.items()) if isinstance(v, dict) else v
    return out


def ro_globals(prog):
    """Internal or hidden globals that no instruction of the program ever stores to and whose address is
    only used by loads: their initialiser is their value."""
    written = set()
    addr = set()

    def mark(tu, o, acc):
        if not isinstance(o, list) or not o:
            return
        if o[0] == 'g':
            acc.add(prog.gkey(tu, o[1]))
        elif o[0] == 'p':
            mark(tu, o[1], acc)
    for f in prog.funcs.values():
        for b in f.blocks:
            for ins in b:
                op = ins['op']
                if op == 'load':
                    continue
                if op == 'store':
                    mark(f.tu, ins['p'], written)
                    mark(f.tu, ins.get('val'), addr)
                elif op == 'getelementptr':
                    mark(f.tu, ins['p'], addr)
                elif op == 'call':
                    for a in ins['args']:
                        mark(f.tu, a, addr)
                else:
                    for k in ('a', 'b', 'val'):
                        if k in ins:
                            mark(f.tu, ins[k], addr)
                    for _, o in ins.get('in', []) if op == 'phi' else []:
                        mark(f.tu, o, addr)
    out = set()
    for k, g in prog.globals.items():
        if g['decl'] or k in written:
            continue
        if k in addr and not g['const']:
            continue
        out.add(k)
    return out
