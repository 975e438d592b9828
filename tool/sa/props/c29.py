"""Storage handed out to users is big and aligned enough."""
from sock import *
from kernel import *
from props.c12 import Kern
from props.sockcheck import partial
import driver, ir, os, re, subprocess, tempfile, shutil
from driver import engine_job

EXPLAIN = """Every function that takes caller-supplied storage, and every function that passes memory on to one, is
interpreted abstractly: which object structure is placed at which offset of which storage type (found by the vtables
stored there), which bytes are accessed, and how much room is left at each inner block handed on (the member or local
variable it lies in, or the allocated size). From the placements witnesses are generated: translation units that include
the library's source file and state, for each pair, that the object fits and that the storage type is aligned as strictly
as the object. They are compiled (not run) for every build configuration and for the other processors, and for
each way a user may include the header the sizes must be the same."""
ASSUME = ['the system headers of this machine stand in for those of the other processors; only the sizes of basic types differ']
TARGETS = {'x86_64': [], 'i386': ['-m32'], 'arm': ['--target=arm-linux-gnueabihf'], 'aarch64': ['--target=aarch64-linux-gnu'],
           'riscv64': ['--target=riscv64-linux-gnu']}
EXTRA = {'census': ir.BASE + ir.THR + ['-DDILL_CENSUS'], 'nosockets': [x for x in ir.BASE if 'SOCKETS' not in x and 'EPOLL' not in x],
         'kqueue-less debug': ir.BASE + ['-UNDEBUG', '-O0']}


def storage(t):
    """index -> structure name of the parameters that are blocks of storage"""
    r = {}
    for i, p in enumerate((t.ptypes or [''])[1:]):
        m = re.match(r'(?:const )?struct (\w*storage)\*$', p or '')
        if m:
            r[i] = m.group(1)
    return r


class Place(Kern):
    def __init__(self, need):
        Kern.__init__(self, 'generic')
        self.need, self.size, self.places, self.ext = need, {}, set(), {}

    def start(self, eng, st, fn):
        Kern.start(self, eng, st, fn)
        self.stor = storage(fn)

    def on_alloca(self, eng, st, base, ins, n):
        if isinstance(n, int):
            self.size[base] = n * ins['size']

    def sized(self, eng, r, n):
        for s, p in r if isinstance(r, list) else ():
            if isinstance(p, tuple) and isinstance(n, int):
                self.size[p] = n
        return r

    def c_malloc(self, eng, st, ins, args, site):
        return self.sized(eng, Kern.c_malloc(self, eng, st, ins, args, site), args[0])

    def room(self, eng, st, b, o, pin=None):
        """bytes from offset o to the end of block b; a member of an object ends where the member ends"""
        end = self.size.get(b)
        if isinstance(b, tuple) and b[0] == 'arg':
            s = self.stor.get(b[1])
            end = eng.prog.sizeof(s) if s else None
        for a, s in st.ps['styp'].items():
            ab, ao, _ = split(a)
            if ab == b and isinstance(ao, int) and 0 < o - ao < eng.prog.sizeof(s):
                for f in eng.prog.structs[s]['fields']:
                    if f['bit'] == (o - ao) * 8 and 'storage' in f['type']:
                        return f['bits'] // 8
        return None if end is None else end - o

    def deref(self, eng, st, addr, ins):
        Kern.deref(self, eng, st, addr, ins)
        b, o, ix = split(addr)
        if isinstance(b, tuple) and isinstance(o, int) and not ix and (b in self.size or b[0] == 'arg' and b[1] in self.stor):
            self.sub.count('accesses')
            w = (ins.get('bits') or 8) // 8
            r = self.room(eng, st, b, 0)
            if o < 0 or r is not None and o + w > r:
                eng.violate(st, ins, 'C29-access', 'accesses byte %d of %s, which has %s' %
                            (o + max(w, 1) - 1, self.what(b), r))
            if b[0] == 'arg':
                self.ext[b[1]] = max(self.ext.get(b[1], 0), o + w)

    def what(self, b):
        if b[0] == 'arg':
            return 'the storage %s' % self.stor.get(b[1])
        return 'a block of its own'

    def call(self, eng, st, ins, name, args, site):
        t = eng.prog.resolve(st.frames[-1].func.tu, name)
        if re.match(r'llvm\.mem(set|cpy|move)', name) and isinstance(args[2], int):
            for a in args[:1] if 'set' in name else args[:2]:
                b, o, ix = split(a)
                if isinstance(b, tuple) and isinstance(o, int) and not ix and (b in self.size or b[0] == 'arg' and b[1] in self.stor):
                    r = self.room(eng, st, b, 0)
                    self.sub.count('accesses')
                    if r is not None and o + args[2] > r:
                        eng.violate(st, ins, 'C29-access', 'accesses byte %d of %s, which has %s' % (o + args[2] - 1, self.what(b), r))
                    if b[0] == 'arg':
                        self.ext[b[1]] = max(self.ext.get(b[1], 0), o + args[2])
        for i, s in storage(t).items() if t is not None else ():
            a = args[i] if i < len(args) else 0
            b, o, ix = split(a)
            if not isinstance(a, tuple) or ix or not isinstance(o, int):
                continue
            self.sub.count('blocks handed on')
            r = self.room(eng, st, b, o)
            n = self.need.get((t.key, i))
            if isinstance(b, tuple) and b[0] == 'arg' and b[1] in self.stor and n:
                self.ext[b[1]] = max(self.ext.get(b[1], 0), o + n)
            if r is not None and n is not None and n > r:
                eng.violate(st, ins, 'C29-room', 'hands %d bytes of %s to %s, which places %d there' % (r, self.what(b), t.name, n))
        return Kern.call(self, eng, st, ins, name, args, site)

    def on_ret(self, eng, st, val, ins):
        Kern.on_ret(self, eng, st, val, ins)
        for a, s in st.ps['styp'].items():
            b, o, _ = split(a)
            if not isinstance(b, tuple) or not isinstance(o, int):
                continue
            if b[0] == 'arg' and b[1] in self.stor:
                self.places.add((self.stor[b[1]], s, o, self.fn.tu))
                self.ext[b[1]] = max(self.ext.get(b[1], 0), o + eng.prog.sizeof(s))
            elif b in self.size and o + eng.prog.sizeof(s) > self.size[b]:
                eng.violate(st, ins, 'C29-room', 'places struct %s of %d bytes in a block of %d' % (s, o + eng.prog.sizeof(s), self.size[b]))
            self.sub.count('placements')

    def finish(self, eng, sub):
        sub.r['data'] = (self.fn.key, self.ext, self.places)


def check(ctx):
    ctx.rule('C29-fits', 'each storage type is at least as large as the object placed in it')
    ctx.rule('C29-align', 'each storage type is at least as strictly aligned as the object placed in it')
    ctx.rule('C29-access', 'nothing outside the storage or block is accessed')
    ctx.rule('C29-room', 'blocks inside objects, local blocks and allocated blocks have room for what is placed there')
    ctx.rule('C29-same', 'users see the sizes the library was built with')
    configs = ['default'] if ctx.tier == 'quick' else [c for c in ctx.configs if c != 'nothreads']
    ctx.configs = configs
    places, fns = {}, {}
    for c in configs:
        ctx.cur = c
        prog = ctx.prog(c)
        slots(prog)
        callers(prog)
        own = [f for f in prog.funcs.values() if storage(f)]
        users = [f for f in prog.funcs.values() if f not in own and
                 any(storage(t) for t in callees(prog, f))]
        need = {}
        for rnd in range(4):
            jobs = [engine_job(c, prog, f, lambda: Place(dict(need)), tag='functions') for f in own + (users if rnd else [])]
            before = (dict(ctx.viol), dict(ctx.cnt), list(ctx.broken))
            new = {}
            for d in ctx.run_jobs(jobs):
                if d:
                    for i, n in d[1].items():
                        new[d[0], i] = n
                    for p in d[2]:
                        places.setdefault(p[:3], p[3])
                        fns.setdefault(p[0], d[0])
            if rnd and new == need:
                break
            need = new
            ctx.viol, ctx.cnt, ctx.broken = before
        for f in own:
            for i, s in storage(f).items():
                if need.get((f.key, i), 0) > prog.sizeof(s):
                    ctx.violation('C29-fits', f.name, 'needs %d bytes of a struct %s of %d' % (need[f.key, i], s, prog.sizeof(s)),
                                  '%s:%s' % (f.file, f.line), config=c)
    partial(ctx)
    ctx.viol = {k: v for k, v in ctx.viol.items() if v['rule'].startswith('C29')}
    ctx.count('pairs of storage and object', len(places))
    ctx.minimum('pairs of storage and object', 12)
    ctx.minimum('accesses', 300)
    ctx.minimum('blocks handed on', 20)
    witnesses(ctx, prog, places, fns)
    header(ctx, prog, sorted({p[0] for p in places}))


def compiles(args, src, d, n):
    p = os.path.join(d, 'w%d.c' % n)
    with open(p, 'w') as f:
        f.write(src)
    return subprocess.run(['clang', '-w', '-fsyntax-only', '-ferror-limit=0', '-I', ir.REPO, '-I', d,
                           '-I/usr/include/x86_64-linux-gnu'] + args + [p], capture_output=True, text=True)


def witnesses(ctx, prog, places, fns):
    d = tempfile.mkdtemp(prefix='c29-')
    try:
        os.mkdir(d + '/gnu')
        for x in ('stubs-32.h', 'stubs-hard.h', 'stubs-soft.h', 'stubs-lp64.h'):
            open(d + '/gnu/' + x, 'w').close()
        jobs = []
        confs = dict(ir.CONFIGS)
        confs.update(EXTRA)
        tus = {}
        for (t, s, o), tu in sorted(places.items()):
            tus.setdefault(tu, []).append((t, s, o))
        for cn, args in confs.items():
            for tn, ta in TARGETS.items():
                if tn != 'x86_64' and cn not in ('default', 'nothreads', 'census'):
                    continue
                for tu, l in tus.items():
                    if cn == 'nosockets' and tu not in ('cr', 'chan') or tu == 'tls' and (cn != 'default' or tn != 'x86_64'):
                        continue
                    src = '#include "%s/%s.c"\n' % (ir.REPO, tu)
                    w = []
                    for t, s, o in l:
                        z = prog.sizeof(s)
                        e = '0' if o == 0 else '%d * sizeof(struct %s)' % (o // z, s) if o % z == 0 else '%d' % o if tn == 'x86_64' else None
                        if e is None:
                            continue
                        w.append('_Static_assert(%s + sizeof(struct %s) <= sizeof(struct %s), "FITS %s %s");' % (e, s, t, t, s))
                        w.append('_Static_assert(_Alignof(struct %s) >= _Alignof(struct %s) && (%s) %% _Alignof(struct %s) == 0, "ALIGN %s %s");' %
                                 (t, s, e, s, t, s))
                    jobs.append((cn, tn, tu, args + ta, src + '\n'.join(w) + '\n', len(w)))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda x: compiles(x[1][3], x[1][4], d, x[0]), enumerate(jobs)))
        for (cn, tn, tu, args, src, n), r in zip(jobs, res):
            ctx.count('witness units compiled')
            ctx.count('static assertions', n)
            if r.returncode == 0:
                continue
            found = False
            for m in re.finditer(r'error:[^\n]*(FITS|ALIGN) (\w+) (\w+)', r.stderr):
                found = True
                t, s = m.group(2), m.group(3)
                if m.group(1) == 'FITS':
                    ctx.violation('C29-fits', fns[t], 'struct %s does not fit into struct %s' % (s, t), tu + '.c', config='%s/%s' % (cn, tn))
                else:
                    ctx.violation('C29-align', fns[t], 'struct %s is aligned less strictly than struct %s' % (t, s), tu + '.c', config='%s/%s' % (cn, tn))
            if not found:
                if 'ct_assert' in r.stderr or 'declared as an array with a negative size' in r.stderr:
                    ctx.violation('C29-fits', tu, "the library's own size assertion does not hold", tu + '.c', config='%s/%s' % (cn, tn))
                else:
                    raise AnalysisBroken('%s does not compile for %s/%s: %s' % (tu, cn, tn, r.stderr.strip()[:300]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def header(ctx, prog, types):
    d = tempfile.mkdtemp(prefix='c29-')
    try:
        w = ['_Static_assert(sizeof(struct %s) == %d, "SAME %s");' % (t, prog.sizeof(t), t) for t in types]
        n = 0
        for args in ([], ['-std=gnu11'], ['-O2', '-DNDEBUG'], ['-DDILL_DISABLE_RAW_NAMES'], ['-D_GNU_SOURCE', '-D_FILE_OFFSET_BITS=64'], ['-DDILL_NO_EXPORTS'],
                     ['-xc++', '-D_Static_assert=static_assert']):
            r = compiles(['-DDILL_SOCKETS'] + args, '#include <libdill.h>\n' + '\n'.join(w) + '\n', d, n)
            n += 1
            ctx.count('ways to include the header')
            for m in re.finditer(r'error:[^\n]*SAME (\w+)', r.stderr):
                ctx.violation('C29-same', m.group(1), 'has another size when libdill.h is included with %s' % ' '.join(args), 'libdill.h', config='user')
            if r.returncode and 'SAME' not in r.stderr:
                raise AnalysisBroken('libdill.h does not compile with %s: %s' % (args, r.stderr[:300]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
