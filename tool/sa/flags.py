"""Typestate automata of the socket objects.

For each kind of socket object every method is interpreted once with symbolic one-bit flags.  Each exit becomes a guarded
transition: which flags the path tested (guard), which transfers were tried on the layer beneath, what was returned, the
class of errno, and the flags afterwards.  The history properties are then decided on the resulting automaton, whose
states are partial assignments of the flags."""
from sock import *
import driver

EPIPE, ECONNRESET, EBUSY, EINVAL = 32, 104, 16, 22
XFER = {'dill_fd_recv': 'in', 'dill_brecv': 'in', 'dill_brecvl': 'in', 'SSL_read': 'in', 'recv': 'in', 'recvmsg': 'in', 'read': 'in',
        'recvfrom': 'in', 'dill_fd_send': 'out', 'dill_bsend': 'out', 'dill_bsendl': 'out', 'SSL_write': 'out', 'SSL_shutdown': 'out',
        'send': 'out', 'sendmsg': 'out', 'write': 'out', 'sendto': 'out', 'shutdown': 'out',
        'dill_mrecv': 'min', 'dill_mrecvl': 'min', 'dill_msend': 'mout', 'dill_msendl': 'mout'}
SYS = {'recv', 'recvmsg', 'read', 'recvfrom', 'send', 'sendmsg', 'write', 'sendto', 'shutdown'}
SUSPENDS = {'dill_fdin', 'dill_fdout', 'dill_fd_recv', 'dill_fd_send', 'dill_brecv', 'dill_brecvl', 'dill_bsend', 'dill_bsendl',
            'dill_mrecv', 'dill_mrecvl', 'dill_msend', 'dill_msendl', 'SSL_read', 'SSL_write', 'SSL_shutdown', 'dill_msleep', 'dill_yield'}


def mutable_flags(prog, struct, cons):
    im = immut(prog, struct, cons)
    out = {}
    for fd in prog.structs.get(struct, {}).get('fields', []):
        if fd['bf'] and fd['bits'] == 1 and (fd['bit'] // 8, fd['bit'] % 8) not in im:
            out[(fd['bit'] // 8, fd['bit'] % 8)] = fd['name']
    return out


class Auto(SPolicy):
    def __init__(self, tmpl, kind, flags):
        SPolicy.__init__(self, 'tmpl', tmpl, kind)
        self.flags = flags
        self.trans = set()
        self.susp = set()

    def load_template(self, eng, st):
        SPolicy.load_template(self, eng, st)
        byoff = {}
        for (o, b) in self.flags:
            byoff.setdefault(o, []).append(b)
        for o, bs in byoff.items():
            cur = st.mem.get((SH, o, ()))
            ov = {}
            if cur is not None and isinstance(cur[0], tuple) and cur[0][0] == 'bfw':
                ov = {x[0]: x for x in cur[0][2]}
            for b in bs:
                s = ('s', 'flag', o, b)
                st.facts[s] = (0, 1, frozenset())
                ov[b] = (b, 1, s)
            st.mem[(SH, o, ())] = (('bfw', ('ld', padd(SH, o), 8, 0), tuple(sorted(ov.values(), key=lambda z: z[0]))), 8)
        st.ps['io'] = frozenset()

    def value(self, eng, st, o, b):
        if ('mem', SH) in st.ps['rel'] or self.isclosed(st):
            return None
        v = mkbits(eng.load(st, padd(SH, o), 8), b, 1)
        if isinstance(v, int):
            return v
        lo, hi, ne = st.interval(v)
        if lo == hi or 0 in ne or 1 in ne:
            return lo if lo == hi else 1 if 0 in ne else 0
        if v == ('s', 'flag', o, b):
            return 'same'
        return None

    def guard(self, st):
        g = []
        for (o, b) in self.flags:
            lo, hi, ne = st.interval(('s', 'flag', o, b))
            if 0 in ne:
                lo = 1
            if 1 in ne:
                hi = 0
            if lo == hi:
                g.append(((o, b), lo))
        return tuple(g)

    def state(self, eng, st):
        """the flags now, as far as they are known"""
        out = []
        for (o, b) in self.flags:
            v = self.value(eng, st, o, b)
            if v == 'same':
                continue
            out.append(((o, b), v))
        return tuple(out)

    def abstract(self, eng, st):
        keep = {k: v for k, v in st.mem.items() if k[0] == SH and isinstance(k[1], int) and any(o == k[1] for o, _ in self.flags)}
        fl = {k: v for k, v in st.facts.items() if k[:2] == ('s', 'flag')}
        SPolicy.abstract(self, eng, st)
        st.mem.update(keep)
        st.facts.update(fl)

    def touch(self, eng, st, ins, name, args):
        d = XFER.get(name)
        if d is None:
            return None
        return d

    def slotdir(self, st, ins, fnterm, args):
        if len(args) == 4 and isinstance(fnterm, tuple) and fnterm[0] == 'ld':
            b, o, ix = split(fnterm[1])
            f = st.frames[-1].func
            l = f.insmap.get(ins['fn'][1]) if ins['fn'][0] == 'v' else None
            m = ''
            off = 0
            if l is not None and l['op'] == 'load' and l['p'][0] == 'v':
                g = f.insmap.get(l['p'][1])
                if g is not None and g['op'] == 'getelementptr':
                    m, off = g['sty'], g.get('off') or 0
            pre = 'm' if 'msock' in m else ''
            return pre + ('in' if off else 'out')
        return None

    def mark(self, st, d, name, v):
        lo, hi, _ = (v, v, 0) if isinstance(v, int) else st.interval(v) if isinstance(v, tuple) else (0, 0, 0)
        io = set(st.ps['io'])
        if hi < 0:
            io.add(('fail', d, name in SYS))
        elif lo >= 0:
            io.add(('ok', d, name in SYS))
        else:
            io.add(('try', d, name in SYS))
        st.ps['io'] = frozenset(io)

    def call(self, eng, st, ins, name, args, site):
        d = XFER.get(name)
        if name in SUSPENDS or d is not None and name not in SYS:
            self.susp.add((self.guard(st), self.state(eng, st), d or '', name))
        r = SPolicy.call(self, eng, st, ins, name, args, site)
        if d is not None and isinstance(r, list):
            for s, v in r:
                self.mark(s, d, name, v)
        return r

    def icall(self, eng, st, ins, fnterm, args, site):
        d = self.slotdir(st, ins, fnterm, args)
        if d is not None:
            self.susp.add((self.guard(st), self.state(eng, st), d, 'slot'))
        r = SPolicy.icall(self, eng, st, ins, fnterm, args, site)
        if d is not None:
            for s, v in r:
                self.mark(s, d, 'slot', v)
        return r

    def on_return_from(self, eng, st, func, val, ins):
        SPolicy.on_return_from(self, eng, st, func, val, ins)
        if func.ret == 'i64' and func.tu == self.tu and len(st.frames) > 1:
            lo = val if isinstance(val, int) else st.interval(val)[0] if isinstance(val, tuple) else -1
            if lo >= 0:
                # a whole message was received: the stream is at a boundary
                st.ps['io'] = frozenset(x for x in st.ps['io'] if x[0] == 'touched') | {('whole', 'in', False)}

    def errclass(self, eng, st):
        e = eng.errno(st)
        c = e if isinstance(e, int) else st.const(e) if isinstance(e, tuple) else None
        if c is not None:
            return c
        return '?'

    def on_ret(self, eng, st, val, ins):
        self.exits += 1
        if self.kind == 'api' and not st.ps.get('mine'):
            return
        fail = self.failing(st, val)
        e = self.errclass(eng, st) if fail else 0
        excl = ()
        if fail and e == '?':
            t = eng.errno(st)
            if isinstance(t, tuple):
                excl = tuple(sorted(x for x in st.interval(t)[2] if isinstance(x, int)))
        self.trans.add((self.guard(st), st.ps['io'], fail, e, excl, self.state(eng, st), self.isclosed(st),
                        (ins.get('ln', 0), eng.where(st) if hasattr(eng, 'where') else '')))

    def finish(self, eng, sub):
        sub.r['data'] = (self.fn.key, self.kind, tuple(self.trans), tuple(self.susp))
        sub.count('transitions', len(self.trans))
        sub.count('suspension points', len(self.susp))


class Method:
    def __init__(self, f, kind):
        self.f, self.kind = f, kind
        self.name = f.name
        self.trans, self.susp = set(), set()

    def dirs(self):
        return {x[1] for t in self.trans for x in t[1]}


def automata(ctx, config):
    """{struct: (flag names, own kinds, {function name: Method})} for one configuration"""
    prog = ctx.prog(config)
    callees(prog, next(iter(prog.funcs.values())))
    slots(prog)
    callers(prog)
    jobs, meta = [], []
    ctor = [f for f in socket_functions(prog)]
    for f in ctor:
        jobs.append(driver.engine_job(config, prog, f, lambda: SPolicy('generic'), tag='functions'))
        meta.append(f)
    data = ctx.run_jobs(jobs)
    ctx.viol.clear()
    sk = slot_keys(prog)
    cons = {f.key for f, d in zip(meta, data) if d}
    tm = {}
    for f, d in zip(meta, data):
        for t in d or []:
            p = prune(prog, t, cons)
            vt = any(isinstance(v, tuple) and v[0] == 'g' and any(s in ('dill_bsock_vfs', 'dill_msock_vfs') for s, o in sk.get(v[1], ()))
                     for off, v, w in p['cells'])
            if not vt:
                continue
            k = (p['struct'], p['cells'], p['own'])
            tm.setdefault(k, dict(p, tu=f.tu))
    # one template per kind is enough for the flags, unless they differ in constant flags other than the memory flag
    jobs, meta = [], []
    out = {}
    for k, t in sorted(tm.items(), key=repr):
        s = t['struct']
        fl = mutable_flags(prog, s, cons)
        memb = {(fd['bit'] // 8, fd['bit'] % 8) for fd in prog.structs[s]['fields'] if fd['bf'] and fd['name'] == 'mem'}
        key = tuple((o, v, w) if v[0] != 'bfw' else (o, tuple(x for x in v[2] if (o + x[0] // 8, x[0] % 8) not in memb))
                    for o, v, w in t['cells'] if isinstance(v, tuple) and v[0] in ('g', 'p', 'bfw'))
        if s in out and key in out[s]['keys']:
            continue
        out.setdefault(s, dict(flags=fl, own=set(), methods={}, keys=set()))
        out[s]['keys'].add(key)
        out[s]['own'] |= {a for a, b in t['own']}
        ctx.count('object kinds')
        for off, v, w in t['cells']:
            if isinstance(v, tuple) and v[0] == 'g' and v[1] in prog.funcs and v[1] in sk:
                g = prog.funcs[v[1]]
                for (st, o) in sk[v[1]]:
                    if st in ('dill_bsock_vfs', 'dill_msock_vfs'):
                        kd = 'send' if o == 0 else 'recv'
                        jobs.append(driver.engine_job(config, prog, g, lambda t=t, b=off - o, fl=fl: Auto(t, b, fl), tag='methods'))
                        meta.append((s, g, kd))
        for f in socket_functions(prog):
            if f.tu == t['tu'] and is_api(f) and f.args and f.args[0]['ty'] == 'i32' and '_attach' not in f.name:
                jobs.append(driver.engine_job(config, prog, f, lambda t=t, fl=fl: Auto(t, 'api', fl), tag='methods'))
                kd = 'done' if f.name.endswith('_done') else 'end' if re.search(r'_(close|detach)$', f.name) else 'api'
                meta.append((s, f, kd))
    data = ctx.run_jobs(jobs)
    ctx.viol.clear()
    for (s, f, kd), d in zip(meta, data):
        if d is None:
            continue
        m = out[s]['methods'].setdefault(f.name, Method(f, kd))
        m.trans |= set(d[2])
        m.susp |= set(d[3])
    for s in out:
        out[s]['methods'] = {n: m for n, m in out[s]['methods'].items() if m.trans}
    return out


def after(guard, state):
    """flags known at the end of a path"""
    d = dict(guard)
    for k, v in state:
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return d


def enabled(m, state):
    """transitions of a method that can happen in the given (partial) state"""
    for t in m.trans:
        if all(state.get(k, v) == v for k, v in t[0]):
            yield t
