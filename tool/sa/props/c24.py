"""Switching coroutines preserves the machine state it must."""
from sock import *
from kernel import *
import driver, ir, json, os, re, shutil, subprocess, tempfile

EXPLAIN = """The inline assembly of every context switch (in the library and in generated units that use each of the go macros, for
x86-64, x86-64 with AVX-512, and i386) is taken from the compiler's IR together with its operand constraints and
clobbers, parsed, and interpreted over symbolic register files: first the saving half, then the restoring half in
an unrelated register state, then the rest of the saving half from the label on. At the end every register must hold what it
held when the context was saved or be declared as written; that must include the vector, mask and x87 registers,
which the calling convention lets the other coroutine change. Registers named in the template must be bound to operands by an exact
constraint. Stores must stay inside sigjmp_buf, the two halves must agree on the layout in every unit, the first return must
be zero and the second not. Around the change of the stack pointer the function must keep a frame pointer (a dynamic alloca)
and control must be able to flow from the child's side to the parent's, so that the compiler keeps the frame of the parent
intact. In the portable variant the same is shown from the calls of sigsetjmp and siglongjmp and the size of the alloca that moves the
stack pointer. Compiled witnesses state that stacks are aligned to 16 bytes in every configuration."""
ASSUME = ['the control words of x87 and SSE are not changed by coroutines (setjmp does not save them either)', 'the compiler honours the constraints it is given']
GPR64 = ['ax', 'bx', 'cx', 'dx', 'si', 'di', 'bp', 'sp'] + ['r%d' % i for i in range(8, 16)]
GPR32 = ['ax', 'bx', 'cx', 'dx', 'si', 'di', 'bp', 'sp']
USE = """#include <libdill.h>
int u1(int a, double d) {extern dill_coroutine void w(int, double); return dill_go(w(a, d));}
int u2(int a, void *p, int n) {extern dill_coroutine void v(int); return dill_go_mem(v(a), p, n);}
int u3(int b, int a) {extern dill_coroutine void v(int); return dill_bundle_go(b, v(a));}
int u4(int b, int a, void *p, int n) {extern dill_coroutine void v(int); return dill_bundle_go_mem(b, v(a), p, n);}
int u5(int b, int n) {extern dill_coroutine void v(int); int i; for(i = 0; i < n; i++) if(dill_bundle_go(b, v(i)) < 0) return -1; return n;}
"""


def reg(n):
    """canonical register name"""
    n = n.lower().lstrip('%')
    m = re.match(r'^r(\d+)[dwb]?$', n)
    if m:
        return 'r' + m.group(1)
    m = re.match(r'^[re]?(ax|bx|cx|dx|si|di|bp|sp|ip)$', n)
    if m:
        return m.group(1)
    m = re.match(r'^[yz]mm(\d+)$', n)
    if m:
        return 'xmm' + m.group(1)
    m = re.match(r'^st\(?(\d?)\)?$', n)
    if m:
        return 'st%s' % (m.group(1) or '0')
    return n


class Asm:
    """one inline assembly statement"""

    def __init__(self, template, cons):
        self.text = template
        self.out, self.inp, self.clob = [], [], set()
        for c in self.split(cons):
            if c.startswith('~{'):
                self.clob.add(reg(c[2:-1]))
            elif c.startswith('='):
                self.out.append(c[1:].lstrip('&'))
            elif c:
                self.inp.append(c)
        self.ins = []
        for l in re.split(r'[\n;]', template):
            l = l.strip()
            if l and not l.startswith('#'):
                self.ins.append(l)
        self.kind = None
        t = [x for x in self.ins if not x.startswith('.')]
        if any(x.endswith(':') for x in t):
            self.kind = 'save'
        elif any(re.match(r'jmp\w*\s+\*', x) for x in t):
            self.kind = 'restore'
        elif any(re.search(r',\s*%[re]sp\s*$', x) for x in t):
            self.kind = 'stack'
        elif t:
            self.kind = 'other'

    @staticmethod
    def split(c):
        r, d, cur = [], 0, ''
        for ch in c:
            d += (ch == '{') - (ch == '}')
            if ch == ',' and d == 0:
                r.append(cur)
                cur = ''
            else:
                cur += ch
        return r + [cur]

    def fixed(self, c):
        m = re.match(r'^\{(\w+)\}$', c)
        return reg(m.group(1)) if m else None

    def operand(self, n):
        """register of operand n: exact, or an anonymous one"""
        allc = self.out + self.inp
        c = allc[n] if n < len(allc) else None
        return (self.fixed(c) if c else None) or 'operand%d' % n


class Machine:
    def __init__(self, a, regs, mem):
        self.a, self.r, self.m = a, regs, mem
        self.written, self.stores, self.read, self.to = set(), [], set(), None

    def val(self, s):
        s = s.strip()
        m = re.match(r'^\$\$?(-?\d+|0x[0-9a-f]+)$', s)
        if m:
            return int(m.group(1), 0)
        m = re.match(r'^\$?\$?([A-Za-z_.]\w*.*)$', s)
        if s.startswith('%'):
            return self.get(reg(s))
        m = re.match(r'^\$(\d+)$', s)
        if m:
            return self.get(self.a.operand(int(m.group(1))))
        if s.startswith('$'):
            return ('label', re.sub(r'\W', '', s))
        return None

    def get(self, r):
        if r not in self.written:
            self.read.add(r)
        return self.r.get(r, ('junk', r))

    def addr(self, s):
        """(base value, offset) of a memory operand"""
        s = s.strip()
        m = re.match(r'^(.*?)\(\s*%[re]ip\s*\)$', s)
        if m:
            return ('label', re.sub(r'\W', '', m.group(1)))
        m = re.match(r'^(-?\w*)\(\s*(%\w+|\$\d+)\s*\)$', s)
        if m:
            b = self.val(m.group(2))
            return (b, int(m.group(1) or '0', 0))
        return None

    def set(self, s, v):
        r = reg(s) if s.startswith('%') else self.a.operand(int(s[1:]))
        self.r[r] = v
        self.written.add(r)

    def step(self, l):
        if l.startswith('.') or l.endswith(':') or re.match(r'^(nop|endbr\d\d|cld)$', l):
            return
        m = re.match(r'^(\w+)\s*(.*)$', l)
        op, rest = m.group(1), m.group(2)
        args = self.args(rest)
        if op in ('jmp', 'jmpq', 'jmpl') and rest.startswith('*'):
            x = rest[1:].strip()
            a = self.addr(x)
            self.to = self.m.get(a, ('junk', x)) if a else self.val(x)
            return
        if re.match(r'^mov[ql]?$|^movabs[q]?$', op) and len(args) == 2:
            s, d = args
            a = self.addr(s)
            v = self.m.get(a, ('junk', s)) if a and a[0] != 'label' else self.val(s)
            b = self.addr(d)
            if b:
                self.m[b] = v
                self.stores.append((b, v))
            else:
                self.set(d, v)
            return
        if re.match(r'^lea[ql]?$', op) and len(args) == 2:
            a = self.addr(args[0])
            self.set(args[1], a if a and a[0] == 'label' else a[0] if a and a[1] == 0 else ('sum',) + a if a else ('junk', l))
            return
        if re.match(r'^(xor|sub)[ql]?$', op) and len(args) == 2 and args[0] == args[1]:
            self.set(args[1], 0)
            return
        if len(args) >= 1 and re.match(r'^(xor|sub|add|and|or|inc|dec|not|neg|shl|shr|sar)[ql]?$', op) and args[-1][0] in '%$':
            for x in args:
                self.val(x)
            self.set(args[-1], ('junk', l))
            return
        raise AnalysisBroken('assembly instruction not understood: %s' % l)

    def args(self, s):
        return [x.strip() for x in re.split(r',(?![^(]*\))', s) if x.strip()]

    def run(self, ins):
        for l in ins:
            self.step(l)


def volatile_regs(bits, avx512):
    r = ['xmm%d' % i for i in range(16 if bits == 64 else 8)] + ['st%d' % i for i in range(8)] + ['mm%d' % i for i in range(8)]
    if avx512:
        r += ['xmm%d' % i for i in range(16, 32)] + ['k%d' % i for i in range(8)]
    return r


def check(ctx):
    ctx.rule('C24-restore', 'after a switch back every register holds its old value or is declared as written')
    ctx.rule('C24-first', 'when the context is saved, only declared registers change and zero is returned')
    ctx.rule('C24-second', 'when it is restored, control arrives behind the saving and a nonzero value is returned')
    ctx.rule('C24-operand', 'registers the template names are bound to operands by exact constraints')
    ctx.rule('C24-area', 'only the saved-context area is written')
    ctx.rule('C24-layout', 'all units agree where each register is kept')
    ctx.rule('C24-stack', 'the stack pointer is set to the top of the new stack, which is aligned')
    ctx.rule('C24-frame', 'the frame of the parent stays addressable and alive while the child starts')
    d = tempfile.mkdtemp(prefix='c24-')
    try:
        os.mkdir(d + '/gnu')
        for x in ('stubs-32.h',):
            open('%s/gnu/%s' % (d, x), 'w').close()
        with open(d + '/use.c', 'w') as f:
            f.write(USE)
        base = ir.CONFIGS['default']
        variants = [('x86-64', 64, False, base), ('x86-64 nothreads', 64, False, ir.CONFIGS['nothreads']),
                    ('avx512', 64, True, base + ['-mavx512f']), ('i386', 32, False, ir.CONFIGS['nothreads'] + ['-m32', '-msse2'])]
        for name, bits, avx, args in variants:
            ctx.cur = name
            fs = []
            for src in [d + '/use.c'] + [os.path.join(ir.REPO, x) for x in sorted(os.listdir(ir.REPO)) if x.endswith('.c') and x != 'tls.c']:
                fs += functions(src, args, d)
            arch(ctx, name, bits, avx, fs)
        ctx.cur = 'arch-fallback'
        fs = []
        for src in [d + '/use.c'] + [os.path.join(ir.REPO, x) for x in sorted(os.listdir(ir.REPO)) if x.endswith('.c') and x != 'tls.c']:
            fs += functions(src, ir.CONFIGS['arch-fallback'], d)
        portable(ctx, fs)
        aligned(ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.minimum('context savings', 20)
    ctx.minimum('context restorings', 4)
    ctx.minimum('stack changes', 20)
    ctx.minimum('registers accounted for', 500)
    ctx.minimum('portable switches', 6)


def functions(src, args, d):
    bc = os.path.join(d, 'x.bc')
    r = subprocess.run(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-emit-llvm', '-c', '-I' + ir.REPO, '-I' + d,
                        '-I/usr/include/x86_64-linux-gnu', '-I' + os.path.join(ir.REPO, 'dns')] + args + [src, '-o', bc], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('%s does not compile: %s' % (src, r.stderr[-500:]))
    r = subprocess.run([ir.DUMP, bc], capture_output=True)
    if r.returncode:
        raise AnalysisBroken('irdump failed on %s' % src)
    m = json.loads(r.stdout)
    out = []
    for f in m['funcs']:
        if not f['decl']:
            f['structs'] = m['structs']
            f['src'] = os.path.basename(src)
            out.append(f)
    return out


def loc(f, i):
    return '%s:%s' % (os.path.basename(i.get('fl') or f['src']), i.get('ln', 0))


def asms(f):
    for n, b in enumerate(f['blocks']):
        for k, i in enumerate(b):
            if i['op'] == 'call' and i['fn'][0] == 'asm':
                a = Asm(i['fn'][1], i['fn'][2])
                if a.kind:
                    yield n, k, i, a


def arch(ctx, name, bits, avx, fs):
    gpr = GPR64 if bits == 64 else GPR32
    size = None
    for f in fs:
        s = f['structs'].get('dill_cr')
        if s:
            for x in s['fields']:
                if x['name'] == 'ctx' and x['bits'] > size if size else x['name'] == 'ctx':
                    size = x['bits'] // 8
    if size is None:
        raise AnalysisBroken('the area contexts are saved in was not found')
    saves, restores = [], []
    for f in fs:
        for n, k, i, a in asms(f):
            if a.kind == 'save':
                saves.append((f, i, a))
            elif a.kind == 'restore':
                restores.append((f, i, a))
            elif a.kind == 'stack':
                ctx.count('stack changes')
                stack(ctx, name, f, n, k, i, a)
            else:
                raise AnalysisBroken('assembly not understood in %s' % f['name'])
    if not saves or not restores:
        raise AnalysisBroken('no context switch found for %s' % name)
    seen = set()
    for f, i, a in saves:
        ctx.count('context savings')
        V = lambda rule, msg: ctx.violation(rule, f['name'], msg, loc(f, i), config=name)
        regs = {r: ('old', r) for r in gpr + volatile_regs(bits, avx)}
        m = Machine(a, regs, {})
        m.run(a.ins)
        fixed = {a.fixed(c) for c in a.inp} | {a.fixed(c) for c in a.out}
        # operands
        named = {r for r in m.read if r not in ('sp', 'bx', 'bp', 'si', 'di') and not re.match(r'r\d+', r) and not r.startswith('operand')}
        for b, o in {x[0] for x in m.stores}:
            pass
        base = {x[0][0] for x in m.stores}
        ptr = ('old', a.fixed(a.inp[0])) if a.inp and a.fixed(a.inp[0]) else None
        if len(a.inp) != 1 or ptr is None or len(a.out) != 1 or a.fixed(a.out[0]) is None:
            V('C24-operand', 'operands are not bound to the registers the template names')
            continue
        if 'memory' not in a.clob:
            V('C24-first', 'memory is not declared as written when a context is saved')
        for (b, o), v in m.stores:
            if b != ptr:
                V('C24-area', 'writes memory not based on the context pointer')
            elif not (0 <= o and o + bits // 8 <= size):
                V('C24-area', 'writes byte %d of a context of %d bytes' % (o, size))
        outr = a.fixed(a.out[0])
        for r in sorted(m.written):
            if r != outr and r not in a.clob and m.r.get(r) != ('old', r):
                V('C24-first', 'register %s is written but not declared' % r)
        if m.r.get(outr) != 0:
            V('C24-first', 'does not return zero when the context is saved')
        lab = [n for n, l in enumerate(a.ins) if l.endswith(':')]
        labels = {re.sub(r'\W', '', a.ins[n][:-1]): n for n in lab}
        for g, j, b in restores:
            ctx.count('context restorings')
            W = lambda rule, msg: ctx.violation(rule, g['name'], msg, loc(g, j), config=name)
            rin = {a2: b.fixed(c) for a2, c in enumerate(b.inp)}
            mem = {}
            for (bb, o), v in m.stores:
                mem[(('ctx',), o)] = v
            regs2 = {r: ('junk', r) for r in gpr + volatile_regs(bits, avx)}
            if None in rin.values() or not rin:
                W('C24-operand', 'operands are not bound to the registers the template names')
                continue
            # which input is the context pointer: the pointer argument
            for n2, x in enumerate(j['args']):
                regs2[rin[n2]] = ('ctx',) if x[0] != 'c' else x[1]
            m2 = Machine(b, regs2, mem)
            m2.run(b.ins)
            if not (isinstance(m2.to, tuple) and m2.to[0] == 'label' and m2.to[1] in labels):
                W('C24-second', 'does not jump to the place saved in the context')
                continue
            # the saved context is the one the pointer operand of the saving half referred to
            regs3 = {r: (('old', a.fixed(a.inp[0])) if v == ('ctx',) and r == a.fixed(a.inp[0]) else v) for r, v in m2.r.items()}
            m3 = Machine(a, regs3, {})
            m3.run(a.ins[labels[m2.to[1]]:])
            if m3.stores or m2.stores:
                W('C24-area', 'memory is written when a context is restored')
            rv = m3.r.get(outr)
            if not isinstance(rv, int) or rv == 0:
                W('C24-second', 'the resumed coroutine may see the value of the first return')
            for r in gpr + volatile_regs(bits, avx):
                ctx.count('registers accounted for')
                if r == outr or r in a.clob:
                    continue
                if m3.r.get(r) != ('old', r):
                    if r in gpr:
                        sv = [o for (bb, o), v in m.stores if v == ('old', r)]
                        got = m3.r.get(r)
                        ctx.violation('C24-restore', f['name'] if not sv else g['name'],
                                      'register %s %s' % (r, 'is neither saved nor declared as written' if not sv else
                                                          'is not restored from where it was saved'), loc(f, i) if not sv else loc(g, j), config=name)
                    else:
                        V('C24-restore', 'registers %s are neither saved nor declared as written' %
                          ('xmm0-' if r.startswith('xmm') and int(r[3:]) < 16 else 'xmm16-' if r.startswith('xmm') else 'k0-' if r[0] == 'k' else r.rstrip('0123456789') + '0-'))


def stack(ctx, name, f, n, k, i, a):
    V = lambda rule, msg: ctx.violation(rule, f['name'], msg, loc(f, i), config=name)
    regs = {}
    for j, c in enumerate(a.inp):
        regs[a.operand(len(a.out) + j)] = ('top',)
    m = Machine(a, regs, {})
    m.run(a.ins)
    bad = [r for r in m.read if r not in regs]
    if bad:
        V('C24-operand', 'the template reads register %s, which no operand is bound to exactly' % bad[0])
    elif m.r.get('sp') != ('top',):
        V('C24-stack', 'the stack pointer is not set to the top of the new stack')
    for r in m.written - {'sp'}:
        if r not in a.clob:
            V('C24-first', 'register %s is written but not declared' % r)
    frame(ctx, name, f, n, i, len(a.inp) and i['args'][0])


def succs(b):
    t = b[-1]
    return t.get('s', []) if t['op'] in ('br', 'switch', 'invoke') else []


def reach(f, n):
    seen, w = set(), [n]
    while w:
        x = w.pop()
        if x in seen:
            continue
        seen.add(x)
        w += succs(f['blocks'][x])
    return seen


def frame(ctx, name, f, n, i, op):
    V = lambda rule, msg: ctx.violation(rule, f['name'], msg, loc(f, i), config=name)
    # where the stack pointer is changed control came from the zero return; the other side must be reachable again
    preds = {}
    for x, b in enumerate(f['blocks']):
        for s in succs(b):
            preds.setdefault(s, set()).add(x)
    # nothing before the context was saved matters
    for x, b in enumerate(f['blocks']):
        if any(saves(y) for y in b):
            preds.pop(x, None)
    dyn = any(x['op'] == 'alloca' for b in f['blocks'][1:] for x in b)
    if not dyn:
        V('C24-frame', 'nothing makes the compiler keep a frame pointer while the stack pointer changes')
    back, w = set(), [n]
    while w:
        x = w.pop()
        for p in preds.get(x, ()):
            if p not in back:
                back.add(p)
                w.append(p)
    r = reach(f, n)
    # the branch nearest before the change with a way around it
    br = [x for x in back if len(set(succs(f['blocks'][x]))) == 2 and any(s not in back and s != n for s in succs(f['blocks'][x]))]
    near = [x for x in br if not any(y != x and x in ancestors(preds, y) and y in br for y in br)]
    ctx.count('frames judged')
    if not near:
        V('C24-frame', 'the stack pointer is changed whichever way the context was reached')
        return
    for x in near:
        others = [s for s in succs(f['blocks'][x]) if s not in back and s != n]
        for s in others:
            if not reach(f, s) & r:
                V('C24-frame', "control cannot flow from the child's side to the parent's, so the compiler may reuse the parent's frame")
    # calls on the child's side that never return cut the flow
    if not any(f['blocks'][x][-1]['op'] == 'ret' for x in r):
        V('C24-frame', "control cannot flow from the child's side to the parent's, so the compiler may reuse the parent's frame")


def saves(x):
    if x['op'] != 'call':
        return False
    if x['fn'][0] == 'asm':
        return Asm(x['fn'][1], x['fn'][2]).kind == 'save'
    return x['fn'][0] == 'g' and re.search(r'setjmp', x['fn'][1]) is not None


def ancestors(preds, n):
    s, w = set(), [n]
    while w:
        x = w.pop()
        for p in preds.get(x, ()):
            if p not in s:
                s.add(p)
                w.append(p)
    return s


def portable(ctx, fs):
    """sigsetjmp, siglongjmp and alloca"""
    name = 'arch-fallback'
    for f in fs:
        im = {x['id']: x for b in f['blocks'] for x in b if x.get('id') is not None}
        for n, b in enumerate(f['blocks']):
            for x in b:
                V = lambda rule, msg: ctx.violation(rule, f['name'], msg, loc(f, x), config=name)
                if x['op'] == 'call' and x['fn'][0] == 'asm':
                    if Asm(x['fn'][1], x['fn'][2]).kind:
                        V('C24-layout', 'uses assembly in the portable variant')
                if x['op'] == 'call' and x['fn'][0] == 'g':
                    g = x['fn'][1]
                    if g in ('__sigsetjmp', 'sigsetjmp', '_setjmp', 'setjmp'):
                        ctx.count('portable switches')
                    if re.search(r'longjmp', g):
                        ctx.count('portable switches')
                        if x['args'][1][0] == 'c' and x['args'][1][1] == 0 or x['args'][1][0] != 'c':
                            V('C24-second', 'the resumed coroutine may see the value of the first return')
                if x['op'] == 'alloca' and n > 0 and x['n'][0] == 'v':
                    s = im.get(x['n'][1])
                    if s is None or s['op'] != 'sub':
                        continue
                    ctx.count('stack changes')
                    a, q = strip(im, s['a']), strip(im, s['b'])
                    ia = im.get(a[1]) if a[0] == 'v' else None
                    if ia is None or ia['op'] != 'alloca' or ia['n'][0] != 'c' and ia['n'][0] != 'v':
                        V('C24-stack', 'the distance to the new stack is not measured from the current end of the frame')
                    frame(ctx, name, f, n, x, q)


def strip(im, v):
    while v[0] == 'v':
        i = im.get(v[1])
        if i is None or i['op'] not in ('ptrtoint', 'inttoptr', 'bitcast'):
            return v
        v = i['a']
    return v


def aligned(ctx, d):
    src = '#include "%s/cr.c"\n_Static_assert(sizeof(struct dill_cr) %% 16 == 0, "ALIGNED");\n' % ir.REPO
    confs = dict(ir.CONFIGS)
    confs['census'] = ir.BASE + ir.THR + ['-DDILL_CENSUS']
    confs['valgrind'] = ir.BASE + ir.THR + ['-DDILL_VALGRIND']
    confs['census+valgrind'] = ir.BASE + ir.THR + ['-DDILL_VALGRIND', '-DDILL_CENSUS']
    confs['i386'] = ir.CONFIGS['nothreads'] + ['-m32']
    with open(d + '/al.c', 'w') as f:
        f.write(src)
    for n, args in confs.items():
        r = subprocess.run(['clang', '-w', '-fsyntax-only', '-I', ir.REPO, '-I', d, '-I/usr/include/x86_64-linux-gnu'] + args + [d + '/al.c'],
                           capture_output=True, text=True)
        ctx.count('stack alignments stated')
        if r.returncode:
            if 'ALIGNED' in r.stderr:
                ctx.violation('C24-stack', 'dill_prologue', 'stacks are not aligned to 16 bytes', 'cr.c', config=n)
            elif 'valgrind' in n and 'valgrind.h' in r.stderr:
                ctx.count('stack alignments stated', -1)
            else:
                raise AnalysisBroken('cr.c does not compile for %s: %s' % (n, r.stderr[:300]))
