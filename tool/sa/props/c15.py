"""Concurrent use of one direction of a transport is refused, and allowed again afterwards."""
from flags import *
from props.sockcheck import partial

EXPLAIN = """Typestate automata over the flags of every socket object that owns a descriptor. For every point where a send
or receive method can suspend, the flags known at that point form the state another coroutine finds the object in; from
that state every method of the same direction must take only exits that fail with EBUSY, move no data and leave the flags
alone. The flags that differ at a suspension point from their value at entry are the busy flags; at every exit of every
method, a busy flag must have the value it had at entry."""
ASSUME = ['a flag of the object is a one-bit field', 'coroutines are only switched at suspension points']


def check(ctx):
    ctx.rule('C15-refuse', 'a second operation in a direction that is in use fails with EBUSY and changes nothing')
    ctx.rule('C15-release', 'every exit restores the busy flags')
    configs = ['default'] if ctx.tier == 'quick' else [c for c in ctx.configs if c != 'nothreads']
    ctx.configs = configs
    for c in configs:
        ctx.cur = c
        a = automata(ctx, c)
        partial(ctx)
        found = {}
        for s, o in sorted(a.items()):
            if 'fd' in o['own']:
                judge(ctx, s, o, found)
        for (r, f, d), loc in found.items():
            ctx.violation(r, f, d, loc, config=c)
    ctx.minimum('busy states', 6)
    ctx.minimum('steps judged', 20)
    ctx.minimum('busy exits', 20)


def judge(ctx, s, o, found):
    ms = o['methods']

    def way(m):
        if m.kind in ('send', 'recv'):
            return {'send': 'out', 'recv': 'in'}[m.kind]
        d = {x[1] for t in m.trans for x in t[1]} | {u[2] for u in m.susp if u[2]} | {'in' if u[3] == 'dill_fdin' else 'out'
                                                                                    for u in m.susp if u[3] in ('dill_fdin', 'dill_fdout')}
        return d.pop() if m.kind == 'api' and len(d) == 1 else None
    group = {'in': [m for m in ms.values() if way(m) == 'in'], 'out': [m for m in ms.values() if way(m) == 'out']}
    for d, grp in group.items():
        busy = set()
        for m in grp:
            for g, state, _, name in m.susp:
                ctx.count('busy states')
                st = after(g, state)
                entry = dict(g)
                for k, v in state:
                    if v is not None and entry.get(k) != v:
                        busy.add(k)
                for m2 in grp:
                    for t in enabled(m2, st):
                        ch = [o['flags'].get(k, '?') for k, v in t[5] if v != st.get(k)]
                        ctx.count('steps judged')
                        if t[2] and t[3] in (EINVAL, 95) and not t[1] and not ch:
                            continue
                        if t[1]:
                            bad = 'moves data'
                        elif not t[2]:
                            bad = 'succeeds'
                        elif t[3] != EBUSY:
                            bad = 'fails with %s instead of EBUSY' % (ename(t[3]) if t[3] != '?' else 'another error')
                        elif ch:
                            bad = 'changes %s' % ','.join(ch)
                        else:
                            continue
                        found.setdefault(('C15-refuse', m2.f.name, '%s while %s is suspended in %s' % (bad, m.f.name, name)),
                                         '%s:%s' % (m2.f.file, t[7][0]))
        for m in ms.values():
            if m.kind == 'end':
                continue
            for t in m.trans:
                ctx.count('busy exits')
                if t[6]:
                    continue
                e = dict(t[0])
                for k, v in t[5]:
                    if k in busy and v != e.get(k):
                        found.setdefault(('C15-release', m.f.name, 'leaves %s %s' % (o['flags'][k], 'set' if v == 1 else 'cleared' if v == 0 else 'in an unknown state')),
                                         '%s:%s' % (m.f.file, t[7][0]))
