"""The timer tree."""
import itertools, functools
from kernel import *
from driver import Sub

EXPLAIN = """Abstract interpretation of dill_rbtree_insert, _erase, _first, _next, _empty and _init over a shape abstraction of the
timer tree: every red-black tree shape with up to N timers (N = 8 quick, 11 thorough), the deadlines being unknown values of
which only the order is known (all different; in equal pairs; all equal), a new deadline taking every position in that order.
After each operation the tree is walked abstractly and must satisfy the invariant it was assumed to satisfy before (search
order, parent links, sentinel, no red child of a red timer, equal black heights) and hold exactly the expected timers; the
timer reported first must have the earliest deadline. By induction over operations this covers all histories whose trees
stay within the bound."""

ROOTOFF = 0


def node(i):
    return shape('tm%d' % i)


def order(v):
    """unknown deadline of which only the position in the order is known"""
    return ('s', 'ord', v)


@functools.lru_cache(None)
def trees(n, bh, red_ok):
    """all red-black trees: None or (left, 'r'|'b', right); n nodes, black height bh"""
    out = []
    if n == 0:
        return ((None,) if bh == 0 else ())
    for l in range(n):
        r = n - 1 - l
        if red_ok:
            for a in trees(l, bh, False):
                for b in trees(r, bh, False):
                    out.append((a, 'r', b))
        if bh > 0:
            for a in trees(l, bh - 1, True):
                for b in trees(r, bh - 1, True):
                    out.append((a, 'b', b))
    return tuple(out)


def all_trees(n):
    return [t for bh in range(0, n + 1) for t in trees(n, bh, False)]


class TreePol(KApi):
    concrete = True
    max_time = 30
    max_steps = 100000
    max_visits = 100
    prims = {}

    def on_cmp(self, eng, st, pred, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == ('s', 'ord') and b[:2] == ('s', 'ord'):
            x, y = a[2], b[2]
            return int({'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y,
                        'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
        return None

    def on_abort(self, eng, st, ins):
        eng.violate(st, ins, 'C21-abort', 'an internal check fails')


T = shape('tree')


class Tree:
    """layout and walking of a tree object"""

    def __init__(self, prog):
        self.p = prog
        f = lambda s, *a: prog.field(s, *a)[0]
        self.root = padd(T, f('dill_rbtree', 'root'))
        self.nil = padd(T, f('dill_rbtree', 'nil'))
        self.o = {k: f('dill_rbtree_item', k) for k in ('red', 'left', 'right', 'up', 'val')}

    def put(self, eng, st, x, k, v):
        b, o, ix = split(padd(x, self.o[k]))
        st.mem[(b, o, ix)] = (v, 32 if k == 'red' else 64)

    def get(self, eng, st, x, k):
        return eng.load(st, padd(x, self.o[k]), 32 if k == 'red' else 64)

    def build(self, eng, st, t, vals):
        for s in (self.root, self.nil):
            for k in ('left', 'right', 'up'):
                self.put(eng, st, s, k, self.nil)
            self.put(eng, st, s, 'red', 0)
            self.put(eng, st, s, 'val', 0)
        cnt = itertools.count()

        def go(t):
            if t is None:
                return self.nil
            l = go(t[0])
            i = next(cnt)
            x = node(i)
            r = go(t[2])
            self.put(eng, st, x, 'val', order(vals[i]))
            self.put(eng, st, x, 'red', 1 if t[1] == 'r' else 0)
            self.put(eng, st, x, 'left', l)
            self.put(eng, st, x, 'right', r)
            for c in (l, r):
                if c != self.nil:
                    self.put(eng, st, c, 'up', x)
            return x
        top = go(t)
        self.put(eng, st, self.root, 'left', top)
        if top != self.nil:
            self.put(eng, st, top, 'up', self.root)

    def walk(self, eng, st, want):
        """checks the invariant; returns an error text or None. want: {node: order}"""
        G = lambda x, k: self.get(eng, st, x, k)
        seen = []

        def go(x, up, red):
            if x == self.nil:
                return 0
            if x in seen or x not in want:
                raise ValueError('a timer is linked twice, or something that is not a timer is linked')
            if len(seen) > 40:
                raise ValueError('the tree has a loop')
            c = st.const(G(x, 'red'))
            if c not in (0, 1):
                raise ValueError('a timer has no colour')
            if c and red:
                raise ValueError('the tree loses its balance (a red timer below a red one)')
            if G(x, 'up') != up:
                raise ValueError('a link to the parent is wrong')
            a = go(G(x, 'left'), x, c)
            seen.append(x)
            b = go(G(x, 'right'), x, c)
            if a != b:
                raise ValueError('the tree loses its balance (unequal black heights)')
            return a + (0 if c else 1)
        try:
            go(G(self.root, 'left'), self.root, 1)
        except ValueError as e:
            return str(e)
        if set(seen) != set(want):
            return 'a timer is lost' if len(seen) < len(want) else 'a removed timer stays in the tree'
        vs = []
        for x in seen:
            v = G(x, 'val')
            if v != order(want[x]):
                return 'the deadline of a timer changes'
            vs.append(want[x])
        if vs != sorted(vs):
            return 'the tree is not ordered by deadline'
        if st.const(G(self.root, 'red')) != 0 or st.const(G(self.nil, 'red')) != 0:
            return 'a sentinel is not black'
        return None


def patterns(n):
    yield [2 * i + 1 for i in range(n)]
    if n > 1:
        yield [2 * (i // 2) + 1 for i in range(n)]
        yield [1] * n


def scenario(sub, prog, tr, fn, args, t, vals, what, post):
    pol = TreePol()
    pol.sub = sub
    done = []
    pol.start = lambda eng, st, f: tr.build(eng, st, t, vals)

    def ret(eng, st, val, ins):
        done.append(1)
        msg = post(eng, st, val)
        if msg:
            eng.violate(st, ins, 'C21-' + what, msg)
    pol.on_ret = ret
    e = Engine(prog, pol)
    e.run(fn, args=args)
    sub.take(e)
    if not done and not e.violations and not e.incomplete:
        sub.violation('C21-' + what, fn.name, 'does not return on some tree', fn.file)
    sub.count("outcomes", len(done))
    sub.count('scenarios')


def mk_job(config, prog, ts):
    def job():
        sub = Sub(config)
        tr = Tree(prog)
        F = lambda n: prog.byname[n][0]
        for t, n in ts:
            for vals in patterns(n):
                old = {node(i): vals[i] for i in range(n)}
                # insertion at every position of the order
                for v in range(0, 2 * n + 2):
                    if v % 2 and v not in vals or not v % 2 and v > max(vals + [0]) + 1:
                        continue
                    want = dict(old)
                    want[shape('new')] = v
                    scenario(sub, prog, tr, F('dill_rbtree_insert'), {0: T, 1: order(v), 2: shape('new')}, t, vals, 'insert',
                             lambda e, s, r: tr.walk(e, s, want))
                for i in range(n):
                    want = dict(old)
                    del want[node(i)]
                    scenario(sub, prog, tr, F('dill_rbtree_erase'), {0: T, 1: node(i)}, t, vals, 'erase',
                             lambda e, s, r: tr.walk(e, s, want))
                firsts = [x for x in old if old[x] == min(vals)] if n else [0]
                scenario(sub, prog, tr, F('dill_rbtree_first'), {0: T}, t, vals, 'first',
                         lambda e, s, r: None if (s.const(r) if s.const(r) is not None else r) in firsts and not tr.walk(e, s, old)
                         else 'the timer reported first is not one with the earliest deadline')
                scenario(sub, prog, tr, F('dill_rbtree_empty'), {0: T}, t, vals, 'empty',
                         lambda e, s, r: None if (s.const(r) == 0) == (n > 0) and not tr.walk(e, s, old)
                         else 'wrong answer to whether there are timers')
                if vals == sorted(set(vals)):
                    for i in range(n):
                        nx = node(i + 1) if i + 1 < n else 0
                        scenario(sub, prog, tr, F('dill_rbtree_next'), {0: T, 1: node(i)}, t, vals, 'next',
                                 lambda e, s, r: None if (s.const(r) if s.const(r) is not None else r) == nx
                                 else 'iterating over the timers does not yield the next one')
        return sub.r
    return job


def check(ctx):
    ctx.rule('C21-insert', 'adding a timer keeps the invariant and adds exactly that timer')
    ctx.rule('C21-erase', 'removing a timer keeps the invariant and removes exactly that timer')
    ctx.rule('C21-first', 'the first timer has the earliest deadline; C21-empty, C21-next: as documented')
    ctx.rule('C21-init', 'a new tree is a valid empty tree')
    N = 8 if ctx.tier == 'quick' else 11
    jobs = []
    src = {}
    for c in ctx.configs:
        p = ctx.prog(c)
        ctx.cur = c
        for n in ('dill_rbtree_insert', 'dill_rbtree_erase', 'dill_rbtree_first', 'dill_rbtree_next', 'dill_rbtree_empty', 'dill_rbtree_init'):
            ctx.func(p, n)
        # the code is the same in every configuration: one deep run, shallow ones elsewhere
        deep = c == ctx.configs[0]
        ts = [(t, n) for n in range(0, (N if deep else 5) + 1) for t in all_trees(n)]
        ts.sort(key=lambda z: -z[1])
        k = 24 if deep else 4
        for i in range(k):
            jobs.append(mk_job(c, p, ts[i::k]))

        def init(c=c, p=p):
            sub = Sub(c)
            tr = Tree(p)
            pol = TreePol()
            pol.sub = sub

            def ret(eng, st, val, ins):
                m = tr.walk(eng, st, {})
                if m:
                    eng.violate(st, ins, 'C21-init', m)
                for s in (tr.root, tr.nil):
                    if tr.get(eng, st, s, 'left') != tr.nil or tr.get(eng, st, s, 'right') != tr.nil:
                        eng.violate(st, ins, 'C21-init', 'a sentinel of a new tree is not linked to nil')
            pol.on_ret = ret
            e = Engine(p, pol)
            e.run(p.byname['dill_rbtree_init'][0], args={0: T})
            sub.take(e)
            return sub.r
        jobs.append(init)
    ctx.run_jobs(jobs)
    ctx.minimum('scenarios', 2000)
    ctx.minimum('outcomes', 2000)
