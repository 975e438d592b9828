"""Runs the socket ownership model and keeps the rules one property is about."""
from sock import *
import driver


def run(ctx, prefixes, extra=None, minimum=60):
    """Analyses all socket units; a function whose path enumeration exceeds its bound is reported as not fully
    analysed in the evidence."""
    configs = ['default'] if ctx.tier == 'quick' else [c for c in ctx.configs if c != 'nothreads']
    ctx.configs = configs
    run_sockets(ctx, configs)
    ctx.viol = {k: v for k, v in ctx.viol.items() if any(v['rule'].startswith(p) for p in prefixes)}
    partial(ctx)
    ctx.minimum('functions', minimum * len(configs))
    ctx.minimum('object templates', 8 * len(configs))
    ctx.minimum('methods', minimum * len(configs))
    ctx.minimum('obligations', 1000 * len(configs))


def partial(ctx):
    """turn functions that could not be enumerated completely into an evidence note"""
    part = [b for b in ctx.broken if 'did not finish' in b]
    ctx.broken = [b for b in ctx.broken if b not in part]
    if part:
        ctx.count('functions analysed only in part', len(set(part)))
        ctx.notes += sorted(set(part))
        total = ctx.cnt.get('functions', 0) + ctx.cnt.get('methods', 0)
        if len(part) * 4 > total:
            raise AnalysisBroken('%d of %d analyses did not finish' % (len(part), total))


class Life(SPolicy):
    """creation followed by the end of life of everything that was created, in every order"""

    def __init__(self, then=None):
        SPolicy.__init__(self)
        self.then = then

    def on_ret(self, eng, st, val, ins):
        self.exits += 1
        fail = self.failing(st, val)
        if fail is not False and self.fn.ret != 'void':
            self.check_ledger(eng, st, val, ins, fail)
            return
        self.sub.count('lifecycles')
        if self.then is not None:
            self.chain(eng, st, ins, list(self.then))
            return
        import itertools
        hs = sorted((h for h in st.ps['bind'] if ('h', h) in st.ps['own']), key=repr)
        for order in itertools.permutations(hs):
            self.closeall(eng, st, ins, list(order))

    def closeall(self, eng, st, ins, hs):
        if not hs:
            self.over(eng, st, ins)
            return
        h = hs[0]
        a = st.ps['bind'][h]
        off = eng.prog.field('dill_hvfs', 'close')[0]
        t = eng.load(st, padd(a, off), 64)
        if not (isinstance(t, tuple) and t[0] == 'g' and t[1] in eng.prog.funcs):
            eng.violate(st, ins, 'own-close', 'creates a handle whose object has no close function')
            return
        s = st.copy()
        s.ps['own'] = s.ps['own'] - {('h', h)}
        s.ps['rel'] = s.ps['rel'] | {('h', h)}
        last = len(hs) == 1
        for s2, v in self.sub_run(eng, s, eng.prog.funcs[t[1]], [a]):
            self.sub.count('closings')
            self.closeall(eng, s2, ins, hs[1:])

    def chain(self, eng, st, ins, todo):
        if not todo:
            self.over(eng, st, ins)
            return
        f, args = todo[0]
        for s2, v in self.sub_run(eng, st, f, args):
            if f.ret != 'void' and self.failing_of(s2, f, v):
                continue
            self.chain(eng, s2, ins, todo[1:])

    def failing_of(self, st, f, v):
        return isinstance(v, int) and v < 0 or isinstance(v, tuple) and st.interval(v)[1] < 0

    def sub_run(self, eng, st, f, args):
        pol = Inner(self)
        pol.sub, pol.prog, pol.fn, pol.tu = self.sub, eng.prog, f, f.tu
        pol.attach, pol.slotk = False, self.slotk
        return eng.run_in(st, f, args, pol)

    def over(self, eng, st, ins):
        self.sub.count('obligations')
        for kind, t in sorted(st.ps['own'], key=repr):
            if kind in ('mem', 'fd', 'rx'):
                eng.violate(st, ins, RULE[kind] + '-leak', '%s %s outlives everything that refers to it' % (KINDS[kind], self.nm(st, kind, t)))


class Inner(SPolicy):
    def __init__(self, outer):
        SPolicy.__init__(self)

    def start(self, eng, st, fn):
        pass
