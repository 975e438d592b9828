"""Front end: compiles /repo's current sources to LLVM IR for one build configuration and loads
the type-checked, SSA-form program (functions, structs with field offsets, globals)."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
DUMP = os.path.join(os.path.dirname(HERE), 'bin', 'irdump')
REPO = os.environ.get('VERIF_REPO', '/repo')

CORE = ['chan', 'cr', 'handle', 'libdill', 'now', 'pollset', 'rbtree', 'stack', 'ctx', 'utils']
SOCK = ['bsock', 'fd', 'happyeyeballs', 'http', 'iol', 'ipaddr', 'ipc', 'msock', 'prefix', 'socks5',
        'suffix', 'tcp', 'term', 'udp', 'ws']
TLS = ['tls']
NOT_ANALYSED = {'dns', 'dns/dns'}

BASE = ['-DDILL_EXPORTS', '-DHAVE_POSIX_MEMALIGN=1', '-DHAVE_MPROTECT=1', '-DHAVE_LIBRT=1',
        '-DHAVE_CLOCK_GETTIME=1', '-DHAVE_EPOLL_CREATE=1', '-DHAVE_EPOLL=1', '-DDILL_SOCKETS=1',
        '-fvisibility=hidden', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-DNDEBUG_UNUSED=1']
THR = ['-DDILL_THREADS=1', '-DDILL_PTHREAD=1']
CONFIGS = {
    'default': BASE + THR + ['-DHAVE_TLS=1', '-DDILL_SHARED=1'],
    'poll': BASE + THR + ['-DDILL_POLL'],
    'arch-fallback': BASE + THR + ['-DDILL_ARCH_FALLBACK'],
    'thread-fallback': BASE + THR + ['-DDILL_THREAD_FALLBACK'],
    'nothreads': BASE,
}


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor missing, source does not compile, ...)."""


def sources(config):
    """Every C file at the top level of the library that this configuration compiles."""
    known = CORE + SOCK + (TLS if config == 'default' else [])
    out = list(known)
    for f in sorted(os.listdir(REPO)):
        if not f.endswith('.c'):
            continue
        b = f[:-2]
        if b in known or b in TLS:
            continue
        out.append(b)          # a source file added since: analyse it too
    return [b for b in out if os.path.exists(os.path.join(REPO, b + '.c'))]


class Func:
    __slots__ = ('name', 'key', 'tu', 'internal', 'args', 'blocks', 'line', 'file', 'ret', 'ptypes',
                 'preds', 'succs', 'livein', 'backedges', 'headers', 'vararg', 'hidden', 'insmap', 'loopbody')

    def __repr__(self):
        return '<%s>' % self.key


class Program:
    def __init__(self, config):
        self.config = config
        self.funcs = {}      # key -> Func; key is name, or name@tu for internal functions
        self.byname = {}     # name -> [Func]
        self.globals = {}    # key -> dict
        self.structs = {}
        self.decls = {}
        self.tus = []

    def resolve(self, tu, name):
        f = self.funcs.get('%s@%s' % (name, tu))
        if f is None:
            f = self.funcs.get(name)
        return f

    def gkey(self, tu, name):
        k = '%s@%s' % (name, tu)
        if k in self.globals or k in self.funcs:
            return k
        return name

    def field(self, struct, *path):
        """(byte offset, bit offset or None, bit width) of struct.path"""
        off = 0
        s = struct
        for i, p in enumerate(path):
            st = self.structs.get(s)
            if st is None:
                raise AnalysisBroken('struct %s not found' % s)
            for f in st['fields']:
                if f['name'] == p:
                    break
            else:
                raise AnalysisBroken('field %s.%s not found' % (s, p))
            if f['bf']:
                return (off + f['bit'] // 8, f['bit'] % 8, f['bits'])
            off += f['bit'] // 8
            t = f['type']
            while t.startswith('const ') or t.startswith('volatile '):
                t = t.split(' ', 1)[1]
            s = t.split(' ', 1)[1] if ' ' in t else t
        return (off, None, f['bits'])

    def sizeof(self, struct):
        st = self.structs.get(struct)
        if st is None:
            raise AnalysisBroken('struct %s not found' % struct)
        return st['size']

    def fieldname(self, struct, off):
        st = self.structs.get(struct)
        if st:
            for f in st['fields']:
                o = f['bit'] // 8
                if o <= off < o + max(1, f['bits'] // 8):
                    return f['name']
        return '+%d' % off


def _opids(o, acc):
    if isinstance(o, list):
        if len(o) == 2 and o[0] == 'v':
            acc.add(o[1])
        else:
            for x in o:
                if isinstance(x, list):
                    _opids(x, acc)


def uses(ins):
    acc = set()
    for k in ('p', 'val', 'a', 'b', 'c', 'fn', 'args', 'var', 'ops', 'n'):
        if k in ins:
            _opids(ins[k], acc)
    return acc


def _prep(f):
    n = len(f.blocks)
    f.succs = [[] for _ in range(n)]
    f.preds = [[] for _ in range(n)]
    f.insmap = {}
    for i, b in enumerate(f.blocks):
        for ins in b:
            if 'id' in ins:
                ins['u'] = uses(ins)
                f.insmap[ins['id']] = ins
            else:
                ins['u'] = uses(ins)
        t = b[-1]
        if t['op'] == 'br':
            s = list(t['s'])
        elif t['op'] == 'switch':
            s = [x[1] for x in t['s']] + [t['d']]
        else:
            s = []
        seen = []
        for x in s:
            if x not in seen:
                seen.append(x)
        f.succs[i] = seen
        for x in seen:
            f.preds[x].append(i)
    # back edges by DFS
    f.backedges = set()
    f.headers = set()
    color = [0] * n
    stack = [(0, iter(f.succs[0]))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color[s] == 0:
                color[s] = 1
                stack.append((s, iter(f.succs[s])))
                break
            elif color[s] == 1:
                f.backedges.add((b, s))
                f.headers.add(s)
        else:
            color[b] = 2
            stack.pop()
    f.loopbody = {}
    for (b, h) in f.backedges:
        body = f.loopbody.setdefault(h, {h})
        work = [b]
        while work:
            x = work.pop()
            if x in body:
                continue
            body.add(x)
            work.extend(f.preds[x])
    # liveness
    use = []
    defs = []
    for b in f.blocks:
        u = set()
        d = set()
        for ins in b:
            if ins['op'] == 'phi':
                d.add(ins['id'])
                continue
            u |= (ins['u'] - d)
            if 'id' in ins:
                d.add(ins['id'])
        use.append(u)
        defs.append(d)
    phiuse = [dict() for _ in range(n)]   # block -> {pred: ids}
    for i, b in enumerate(f.blocks):
        for ins in b:
            if ins['op'] == 'phi':
                for p, o in ins['in']:
                    acc = set()
                    _opids(o, acc)
                    _opids([o], acc)
                    phiuse[i].setdefault(p, set()).update(acc)
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in f.succs[i]:
                o |= live[s] - {x['id'] for x in f.blocks[s] if x['op'] == 'phi'}
                o |= phiuse[s].get(i, set())
            nl = use[i] | (o - defs[i])
            if nl != live[i]:
                live[i] = nl
                ch = True
    # values that must survive on entry of block i, counting its own phis as defined on entry
    f.livein = []
    for i, b in enumerate(f.blocks):
        ph = {x['id'] for x in b if x['op'] == 'phi'}
        # phis are live on entry if used in the block or after it
        o = set()
        for s in f.succs[i]:
            o |= live[s] - {x['id'] for x in f.blocks[s] if x['op'] == 'phi'}
            o |= phiuse[s].get(i, set())
        inner = set()
        for ins in b:
            if ins['op'] != 'phi':
                inner |= ins['u']
        f.livein.append(live[i] | (ph & (o | inner)))


def load(config, jobs=8):
    if config not in CONFIGS:
        raise AnalysisBroken('unknown configuration ' + config)
    if not os.path.exists(DUMP):
        r = subprocess.run([os.path.join(os.path.dirname(HERE), 'build.sh')], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('cannot build irdump: ' + r.stderr[-2000:])
    tmp = tempfile.mkdtemp(prefix='sa-')
    prog = Program(config)
    try:
        def one(b):
            bc = os.path.join(tmp, b.replace('/', '_') + '.bc')
            cmd = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-w',
                   '-emit-llvm', '-c', '-I' + REPO, '-I' + os.path.join(REPO, 'dns')] + CONFIGS[config] + \
                  [os.path.join(REPO, b + '.c'), '-o', bc]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken('%s.c does not compile in configuration %s:\n%s' % (b, config, r.stderr[-3000:]))
            r = subprocess.run([DUMP, bc], capture_output=True)
            if r.returncode:
                raise AnalysisBroken('irdump failed on %s: %s' % (b, r.stderr[-2000:]))
            return b, json.loads(r.stdout)
        with ThreadPoolExecutor(jobs) as ex:
            mods = list(ex.map(one, sources(config)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for tu, m in mods:
        prog.tus.append(tu)
        for k, v in m['structs'].items():
            if k not in prog.structs or len(v['fields']) > len(prog.structs[k]['fields']):
                prog.structs[k] = v
            prog.structs[k + '@' + tu] = v
        for g in m['globals']:
            g['tu'] = tu
            k = '%s@%s' % (g['name'], tu) if g['internal'] else g['name']
            if k not in prog.globals or prog.globals[k]['decl']:
                prog.globals[k] = g
        for fo in m['funcs']:
            if fo['decl']:
                prog.decls.setdefault(fo['name'], fo)
                continue
            f = Func()
            f.name = fo['name']
            f.tu = tu
            f.internal = fo['internal']
            f.hidden = fo['hidden']
            f.key = '%s@%s' % (f.name, tu) if f.internal else f.name
            f.args = fo['args']
            f.blocks = fo['blocks']
            f.line = fo.get('line', 0)
            f.file = os.path.relpath(fo.get('file') or (tu + '.c'), REPO) if (fo.get('file') or '').startswith('/') else fo.get('file', tu + '.c')
            f.ret = fo['ret']
            f.vararg = fo['vararg']
            f.ptypes = fo.get('ptypes', [])
            _prep(f)
            prog.funcs[f.key] = f
            prog.byname.setdefault(f.name, []).append(f)
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    p = load(sys.argv[1] if len(sys.argv) > 1 else 'default')
    print(len(p.funcs), 'functions', time.time() - t)
