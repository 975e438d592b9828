"""Shared model of the coroutine kernel, used by the kernel-level and socket-level properties."""
from models import *

CUR = ('s', 'cur')          # the running coroutine: the same object before and after a suspension


def slots(prog):
    """Function-pointer slots of the vtables: {(struct, byte offset): {function key: {storing functions}}}"""
    r = getattr(prog, '_slots', None)
    if r is not None:
        return r
    r = {}
    for f in prog.funcs.values():
        for b in f.blocks:
            for ins in b:
                if ins['op'] != 'store' or not ins.get('val') or ins['val'][0] != 'g':
                    continue
                t = prog.resolve(f.tu, ins['val'][1])
                if t is None:
                    continue
                p = ins['p']
                if p[0] != 'v':
                    continue
                g = f.insmap.get(p[1])
                if g is None or g['op'] != 'getelementptr' or g.get('off') is None:
                    continue
                sty = g['sty'].replace('%struct.', '').strip()
                r.setdefault((sty, g['off']), {}).setdefault(t.key, set()).add(f.key)
    prog._slots = r
    return r


def slotfns(prog, struct, off):
    return sorted(slots(prog).get((struct, off), {}))


def callees(prog, f):
    c = getattr(prog, '_callees', None)
    if c is None:
        c = prog._callees = {}
    if f.key not in c:
        out = []
        for b in f.blocks:
            for ins in b:
                if ins['op'] == 'call' and ins['fn'][0] == 'g':
                    t = prog.resolve(f.tu, ins['fn'][1])
                    if t is not None and t not in out:
                        out.append(t)
        c[f.key] = out
    return c[f.key]


def slotfn_of(prog, struct, off, root):
    """the function stored into a slot by the function called `root`, or by the nearest function it calls"""
    tab = slots(prog).get((struct, off), {})
    level = list(prog.byname.get(root, []))
    if not level:
        raise AnalysisBroken('function %s not found' % root)
    seen = set()
    while level:
        for f in level:
            for k, s in tab.items():
                if f.key in s:
                    return k
        seen |= {f.key for f in level}
        nxt = []
        for f in level:
            for g in callees(prog, f):
                if g.key not in seen and g not in nxt:
                    nxt.append(g)
        level = nxt
    raise AnalysisBroken('no function stored in %s+%d below %s' % (struct, off, root))


def hvfs_close(prog, storer):
    return slotfn_of(prog, 'dill_hvfs', prog.field('dill_hvfs', 'close')[0], storer)


def hvfs_query(prog, storer):
    return slotfn_of(prog, 'dill_hvfs', prog.field('dill_hvfs', 'query')[0], storer)


class KPolicy(LibPolicy):
    """Running coroutine constant; longjmp ends the path (another coroutine runs)."""
    fix_cur = True

    def rbase(self, eng):
        v = getattr(self, '_roff', None)
        if v is None:
            v = self._roff = eng.prog.field('dill_ctx', 'cr', 'r')[0]
        return v

    def initial_value(self, eng, st, addr, bits):
        b, o, ix = split(addr)
        if b == ('g', 'dill_ctx_') and not ix:
            if o == self.init_off(eng):
                return 1
            if self.fix_cur and o == self.rbase(eng):
                return CUR
        return None

    def distinct_cur(self):
        pass

    def call(self, eng, st, ins, name, args, site):
        if name == '<asm>':
            k = asm_kind(ins)
            if k == 'setjmp':
                return self.setjmp(eng, st, ins, site)
            if k == 'longjmp':
                self.on_switch(eng, st, ins)
                return []
            return [(st, 0)]
        return LibPolicy.call(self, eng, st, ins, name, args, site)

    def setjmp(self, eng, st, ins, site):
        s2 = st.copy()
        s2.ps['resumed'] = True
        return [(s2, 1), (st, 0)]

    def c___sigsetjmp(self, eng, st, ins, args, site):
        return self.setjmp(eng, st, ins, site)

    c__setjmp = c_sigsetjmp = c_setjmp = c___sigsetjmp

    def on_switch(self, eng, st, ins):
        pass

    def c_siglongjmp(self, eng, st, ins, args, site):
        self.on_switch(eng, st, ins)
        return []

    c__longjmp = c_longjmp = c___longjmp_chk = c_siglongjmp


def crbit(eng, st, cr, name):
    """abstract value of a one-bit flag of a coroutine"""
    return fread(eng, st, cr, 'dill_cr', name)


def nonlocal_cells(st):
    """(addr, value, bits) of memory cells outside the analysed activation's own locals"""
    for (b, o, ix), (v, w) in st.mem.items():
        if isinstance(b, tuple) and b[0] == 'al':
            continue
        if b == ('g', 'errno'):
            continue
        yield padd(b, o, ix) if not ix else ('p', b, o, ix), v, w


def asm_kind(ins):
    """'setjmp' for the inline assembly that saves a context and yields a value, 'longjmp' for the one that
    restores a context, None for anything else"""
    t, c = ins['fn'][1], ins['fn'][2]
    if 'id' in ins and ins.get('ty') == 'i32':
        return 'setjmp'
    if 'jmp' in t and 'id' not in ins:
        return 'longjmp'
    return None


class KApi(KPolicy):
    """Kernel-level API functions: dill_wait, dill_trigger, handle table, timers tree and stacks are summarised
    (each is checked on its own elsewhere); everything else is inlined."""
    prims = {
        'dill_trigger': {'eff': 'all', 'outs': [('', 0)]},
        'dill_hclose': {'eff': 'all', 'outs': [('fail', -1, 'sym'), ('ok', 0)]},
        'dill_rbtree_insert': {'eff': 'none', 'outs': [('', 0)]},
        'dill_rbtree_erase': {'eff': 'none', 'outs': [('', 0)]},
        'dill_freestack': {'eff': 'none', 'outs': [('', 0)]},
        'dill_allocstack': {'eff': 'args', 'wr': (0,), 'outs': [('fail', 0, 'sym'), ('ok', 'sym', None, (-INF, INF, frozenset((0,))))]},
        'dill_hmake': {'eff': 'none', 'outs': [('fail', -1, 'sym'), ('ok', 'sym', None, (0, (1 << 31) - 1, frozenset()))]},
        'dill_pollset_poll': {'eff': 'all', 'outs': [('', 'sym')]},
        'dill_now': {'eff': 'none', 'outs': [('', 'sym', None, (0, (1 << 62), frozenset()))]},
        'dill_mnow': {'eff': 'none', 'outs': [('', 'sym', None, (0, (1 << 62), frozenset()))]},
        'epoll_ctl': {'eff': 'none', 'outs': [('fail', -1, 'sym'), ('ok', 0)]},
        'epoll_wait': {'eff': 'args', 'wr': (1,), 'outs': [('fail', -1, 'sym'), ('ok', 'sym', None, (0, (1 << 31) - 1, frozenset()))]},
        'poll': {'eff': 'args', 'wr': (0,), 'outs': [('fail', -1, 'sym'), ('ok', 'sym', None, (0, (1 << 31) - 1, frozenset()))]},
        'close': {'eff': 'none', 'outs': [('fail', -1, 'sym'), ('ok', 0)]},
        'mprotect': {'eff': 'none', 'outs': [('fail', -1, 'sym'), ('ok', 0)]},
    }

    # ---- handles
    def c_dill_hquery(self, eng, st, ins, args, site):
        known = ('hq', args[0], args[1])
        if known in st.ps:
            return [(st, st.ps[known])]
        s2 = st.copy()
        e = eng.fresh(s2, 'err', 'dill_hquery', 'fail', site)
        s2.facts[e] = (1, 4095, frozenset())
        eng.set_errno(s2, e)
        self.on_event(eng, s2, ins, 'hquery-fail', args)
        p = ('s', 'obj', args[0], args[1])
        st.facts[p] = (-INF, INF, frozenset((0,)))
        st.ps[known] = p
        self.on_event(eng, st, ins, 'hquery', args[0], args[1], p)
        return [(s2, 0), (st, p)]

    # ---- suspension
    def after(self, eng, st, ins, name, args, tag, ret, site):
        if name == 'dill_rbtree_insert':
            st.ps['tm'] = st.ps.get('tm', ()) + ((args[2], args[1]),)
        elif name == 'dill_rbtree_erase':
            st.ps['tm'] = tuple(x for x in st.ps.get('tm', ()) if x[0] != args[1])
        self.on_event(eng, st, ins, name, args, tag, ret)

    def on_event(self, eng, st, ins, kind, *data):
        pass

    def call(self, eng, st, ins, name, args, site):
        if name == 'dill_waitfor':
            cl = st.ps.get('cl', ())
            rec = (args[0], args[1], args[2])
            st.ps['cl'] = cl + (rec,)
            self.on_waitfor(eng, st, ins, rec)
            # fall through: the body is inlined
        return KPolicy.call(self, eng, st, ins, name, args, site)

    def on_waitfor(self, eng, st, ins, rec):
        pass

    def on_wait(self, eng, st, ins, site):
        """before suspending"""
        pass

    def timer_cancel_fn(self, eng):
        v = getattr(eng.prog, '_tcf', None)
        if v is None:
            f = eng.prog.byname.get('dill_timer')
            v = None
            if f:
                for b in f[0].blocks:
                    for i in b:
                        if i['op'] == 'call' and i['fn'] == ['g', 'dill_waitfor'] and i['args'][2][0] == 'g':
                            t = eng.prog.resolve(f[0].tu, i['args'][2][1])
                            v = t.key if t else None
            eng.prog._tcf = v or '-'
        return v

    def c_dill_wait(self, eng, st, ins, args, site):
        self.on_wait(eng, st, ins, site)
        cls = st.ps.get('cl', ())
        enq = st.ps.get('enq')
        st.ps['cl'] = ()
        st.ps['tm'] = ()
        st.ps['enq'] = None
        res = []
        outs = [('cancel', -1, ECANCELED)]
        if enq is not None:
            outs.append(('resumed', fread(eng, st, CUR, 'dill_cr', 'id'), fread(eng, st, CUR, 'dill_cr', 'err')))
        tc = self.timer_cancel_fn(eng)
        for (cl, i, cancel) in cls:
            if cancel == ('g', tc):
                outs.append(('timer', i, ETIMEDOUT))
            else:
                outs.append(('event', i, 0))
                outs.append(('event-err', i, 'sym'))
        for k, (tag, r, err) in enumerate(outs):
            s = st if k == len(outs) - 1 else st.copy()
            # everything reachable may have changed while suspended
            for (cl, i, cancel) in cls:
                eng.escape(s, cl)
            eng.havoc_all(s, site)
            if err == 'sym':
                e = eng.fresh(s, 'err', 'dill_wait', tag, site)
                s.facts[e] = (1, 4095, frozenset())
                err = e
            eng.set_errno(s, err)
            s.ps['waited'] = s.ps.get('waited', frozenset()) | {tag}
            s.ps['wlast'] = (tag, r)
            s.trace = (s.trace, (s.frames[-1].func.name, ins.get('ln', 0), 'resumed:' + tag))
            self.after_wait(eng, s, ins, tag, r)
            res.append((s, r))
        return res

    def after_wait(self, eng, st, ins, tag, r):
        pass

    def ready_off(self, eng):
        return eng.prog.field('dill_cr', 'ready')[0]

    def on_store(self, eng, st, addr, val, bits, ins):
        if val == padd(CUR, self.ready_off(eng)) and bits == 64:
            b = split(addr)[0]
            if not (isinstance(b, tuple) and b[0] == 'al'):
                st.ps['enq'] = CUR


# ---------------------------------------------------------------- small heaps

def shape(name):
    return ('s', 'shape', name)


class Heap:
    """Builds a small fully known heap in a state (shape abstraction: lists with 0, 1, 2, .. elements)."""

    def __init__(self, eng, st):
        self.eng, self.st, self.prog = eng, st, eng.prog

    def put(self, base, struct, path, val):
        off, bo, w = self.prog.field(struct, *path)
        a = padd(base, off)
        if bo is not None:
            b, o, ix = split(a)
            key = (b, o, ix)
            old = self.st.mem.get(key, (('ld', a, 8, self.st.epoch), 8))
            self.st.mem[key] = (put_bits(old[0], bo, w, val), old[1])
            return
        b, o, ix = split(a)
        self.st.mem[(b, o, ix)] = (val, w)

    def addr(self, base, struct, *path):
        return padd(base, self.prog.field(struct, *path)[0])

    def slist(self, head, items):
        """head: address of a dill_slist; items: addresses of dill_slist members"""
        ring = [head] + items
        for a, b in zip(ring, ring[1:] + [head]):
            self.put(a, 'dill_slist', ('next',), b)

    def qlist(self, head, items):
        sl = self.addr(head, 'dill_qlist', 'slist')
        self.slist(sl, items)
        self.put(head, 'dill_qlist', ('last',), items[-1] if items else sl)

    def list(self, head, items):
        ring = [head] + items
        for a, b in zip(ring, ring[1:] + [head]):
            self.put(a, 'dill_list', ('next',), b)
            self.put(b, 'dill_list', ('prev',), a)


def walk(eng, st, head, limit=40):
    """members of a ring linked through a `next` pointer at offset 0, or None when it is not one"""
    out = []
    x = eng.load(st, head, 64)
    while x != head:
        out.append(x)
        if len(out) > limit or not isinstance(x, tuple) or x[0] == 'ld':
            return None
        x = eng.load(st, x, 64)
    return out


def walk_list(eng, st, head, limit=40):
    """as walk() for a doubly linked list, checking the back links"""
    out = walk(eng, st, head, limit)
    if out is None:
        return None
    ring = [head] + out
    off = eng.prog.field('dill_list', 'prev')[0]
    for a, b in zip(ring, ring[1:] + [head]):
        if eng.load(st, padd(b, off), 64) != a:
            return None
    return out


def walk_q(eng, st, head):
    p = eng.prog
    sl = padd(head, p.field('dill_qlist', 'slist')[0])
    out = walk(eng, st, sl)
    if out is None:
        return None
    if eng.load(st, padd(head, p.field('dill_qlist', 'last')[0]), 64) != (out[-1] if out else sl):
        return None
    return out


def put_bits(old, k, w, v):
    if isinstance(old, tuple) and old[0] == 'bfw':
        base, ov = old[1], tuple(o for o in old[2] if not (o[0] == k and o[1] == w))
    else:
        base, ov = old, ()
    return ('bfw', base, tuple(sorted(ov + ((k, w, v),), key=lambda z: z[0])))


# ---------------------------------------------------------------- one-bit flags

def _bitval(f, o, k, d=0):
    """what bit k of an operand is: '0', '1', 'keep' (as loaded) or '?'"""
    if o[0] == 'c':
        return '1' if (o[1] >> k) & 1 else '0'
    if o[0] != 'v' or d > 20:
        return '?'
    i = f.insmap.get(o[1])
    if i is None:
        return '?'
    op = i['op']
    if op == 'load':
        return 'keep'
    if op == 'and':
        for x, y in ((i['a'], i['b']), (i['b'], i['a'])):
            if x[0] == 'c':
                return _bitval(f, y, k, d + 1) if (x[1] >> k) & 1 else '0'
        return '?'
    if op == 'or':
        a, b = _bitval(f, i['a'], k, d + 1), _bitval(f, i['b'], k, d + 1)
        if '1' in (a, b):
            return '1'
        if a == '0':
            return b
        if b == '0':
            return a
        return a if a == b else '?'
    if op == 'shl' and i['b'][0] == 'c':
        return _bitval(f, i['a'], k - i['b'][1], d + 1) if k >= i['b'][1] else '0'
    if op in ('zext', 'trunc', 'sext'):
        if op == 'zext' and k >= i['from']:
            return '0'
        return _bitval(f, i['a'], k, d + 1)
    return '?'


def flag_stores(prog, struct, field):
    """[(function, instruction, '0' | '1' | '?')] for every store that may change the one-bit field"""
    off, bo, w = prog.field(struct, field)
    out = []
    for f in prog.funcs.values():
        for b in f.blocks:
            for ins in b:
                if ins['op'] != 'store' or ins['p'][0] != 'v':
                    continue
                g = f.insmap.get(ins['p'][1])
                if g is None or g['op'] != 'getelementptr' or g.get('off') is None:
                    continue
                if g['sty'].replace('%struct.', '').strip() != struct or g['off'] != off:
                    continue
                if 'val' not in ins:
                    out.append((f, ins, '?'))
                    continue
                r = _bitval(f, ins['val'], bo)
                if r != 'keep':
                    out.append((f, ins, r))
    return out


def creators(prog, struct):
    """keys of the functions that give an object of this type its virtual table: its constructors"""
    r = set()
    # functions writing function pointers through a pointer to the struct itself
    for f in prog.funcs.values():
        for b in f.blocks:
            for ins in b:
                if ins['op'] == 'store' and ins.get('val') and ins['val'][0] == 'g' and ins['p'][0] == 'v' and \
                        prog.resolve(f.tu, ins['val'][1]) is not None:
                    x = ins['p']
                    while x[0] == 'v':
                        g = f.insmap.get(x[1])
                        if g is None or g['op'] != 'getelementptr':
                            break
                        if g['sty'].replace('%struct.', '').strip() == struct:
                            r.add(f.key)
                        x = g['p']
    return r


def callers(prog):
    c = getattr(prog, '_callers', None)
    if c is None:
        c = prog._callers = {}
        for f in prog.funcs.values():
            for g in callees(prog, f):
                c.setdefault(g.key, set()).add(f.key)
    return c


def within(prog, key, roots):
    """is the function one of `roots` or a helper called from nothing but them?"""
    cs = callers(prog)
    seen = set()
    work = [key]
    while work:
        k = work.pop()
        if k in roots or k in seen:
            continue
        seen.add(k)
        up = cs.get(k)
        f = prog.funcs.get(k)
        if not up or f is not None and not f.internal and not f.hidden:
            return False
        work += up
    return True
