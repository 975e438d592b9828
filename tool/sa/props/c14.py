"""Half-closed and failed sockets stay that way."""
from flags import *
from props.sockcheck import partial

EXPLAIN = """Typestate automata. For every kind of socket object the constructors build, each method is interpreted once with
symbolic one-bit flags; each exit yields a guarded transition (flags tested, transfers tried on the layer beneath and how
they went, result, errno, flags afterwards). On that automaton, which over-approximates every history of calls, three
monitors are decided: after a successful done every send and done fails with EPIPE without a transfer; after a receive
that reported the end of the stream every receive fails with EPIPE without a transfer (framing protocols without an end
marker of their own: ECONNRESET); after an operation that failed while using a byte stream every later operation in that
direction fails with ECONNRESET without a transfer, and an orderly close or detach no longer succeeds. A transfer made
of whole messages, and a received message that was complete but unwanted, do not lose track of the stream."""
ASSUME = ['a flag of the object is a one-bit field', 'a failing transfer of the layer beneath may have moved part of the data']


def nm(o, g):
    return ','.join('%s=%s' % (o['flags'].get(k, k), v) for k, v in sorted(g)) or 'any'


def check(ctx):
    ctx.rule('C14-done', 'after done: EPIPE from send and done, nothing transferred')
    ctx.rule('C14-end', 'after the end of the inbound stream: receive keeps failing, nothing transferred')
    ctx.rule('C14-broken', 'after a failure that loses track of the stream: ECONNRESET, nothing transferred')
    ctx.rule('C14-orderly', 'a broken connection is not closed or handed back as if all was well')
    configs = ['default'] if ctx.tier == 'quick' else [c for c in ctx.configs if c != 'nothreads']
    ctx.configs = configs
    for c in configs:
        ctx.cur = c
        a = automata(ctx, c)
        partial(ctx)
        found = {}
        for s, o in sorted(a.items()):
            if not o['flags'] and not any(m.kind == 'done' for m in o['methods'].values()):
                continue
            judge(ctx, s, o, found)
        for (r, f, d), loc in found.items():
            ctx.violation(r, f, d, loc, config=c)
        ctx.minimum('done states', 5)
        ctx.minimum('end states', 5)
        ctx.minimum('broken states', 15)
        ctx.minimum('steps judged', 100)


def judge(ctx, s, o, found):
    ms = o['methods']
    stream = any(x[1] in ('in', 'out') and not x[2] for m in ms.values() for t in m.trans for x in t[1]) or 'rx' in o['own']
    ins = [m for m in ms.values() if m.kind == 'recv' or m.kind == 'api' and m.dirs() and m.dirs() <= {'in', 'min'}]
    outs = [m for m in ms.values() if m.kind == 'send' or m.kind == 'api' and m.dirs() and m.dirs() <= {'out', 'mout'}]
    dones = [m for m in ms.values() if m.kind == 'done']
    ends = [m for m in ms.values() if m.kind == 'end']
    tells_end = any(t[3] == EPIPE and t[2] and not t[1] for m in ins for t in m.trans)

    def expect(rule, state, methods, errs, what, frm):
        for m in methods:
            for t in enabled(m, state):
                ctx.count('steps judged')
                if t[3] in (EBUSY, EINVAL) and not t[1]:
                    continue
                io = [x for x in t[1]]
                if io:
                    bad = 'still transfers data'
                elif not t[2]:
                    bad = 'does not fail'
                elif t[3] not in errs:
                    bad = 'fails with %s instead of %s' % (ename(t[3]) if t[3] != '?' else 'another error', '/'.join(ename(e) for e in errs))
                else:
                    continue
                found.setdefault((rule, m.f.name, '%s after %s in %s' % (bad, what, frm)), '%s:%s' % (m.f.file, t[7][0]))

    for m in dones:
        for t in m.trans:
            if t[2] is False:
                ctx.count('done states')
                st = after(t[0], t[5])
                expect('C14-done', st, outs + dones, (EPIPE,), 'the outbound direction was closed', m.f.name)
    for group, same, wh in ((ins, ins, 'in'), (outs, outs + dones, 'out'), (dones, outs + dones, 'out')):
        for m in group:
            for t in m.trans:
                if not t[2] or t[6]:
                    continue
                io = t[1]
                used = [x for x in io if x[1].endswith(wh) and x[0] != 'whole']
                if not used:
                    continue
                st = after(t[0], t[5])
                if wh == 'in' and t[3] == EPIPE:
                    ctx.count('end states')
                    expect('C14-end', st, same, (EPIPE,) if tells_end else (EPIPE, ECONNRESET), 'the end of the inbound stream was reported', m.f.name)
                elif stream and ('fd' not in o['own'] or 'rx' in o['own']):
                    # transfers of whole messages leave the stream alone
                    used = [x for x in used if x[1] == wh]
                    # a single system call that failed has transferred nothing, unless the connection is gone
                    used = [x for x in used if not (x[2] and x[0] == 'fail' and t[3] != ECONNRESET)]
                    if not used:
                        continue
                    ctx.count('broken states')
                    expect('C14-broken', st, same, (ECONNRESET,), 'an operation lost track of the stream', m.f.name)
                    for e in ends:
                        for u in enabled(e, st):
                            ctx.count('steps judged')
                            if u[2] is False:
                                found.setdefault(('C14-orderly', e.f.name, 'succeeds after an operation lost track of the stream in %s' % m.f.name),
                                                 '%s:%s' % (e.f.file, u[7][0]))
