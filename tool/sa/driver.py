"""Check driver: runs one property's analysis over the build configurations, reports and writes evidence."""
import json, os, sys, time, importlib, multiprocessing, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
from engine import Engine, Violation
from ir import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
QUICK = ['default', 'poll']
THOROUGH = ['default', 'poll', 'arch-fallback', 'thread-fallback', 'nothreads']


class Ctx:
    """Handed to a property module's check(ctx)."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.configs = QUICK if tier == 'quick' else THOROUGH
        self.progs = {}
        self.viol = {}
        self.cnt = {}
        self.notes = []
        self.funcs = set()
        self.assume = []
        self.broken = []
        self.rules = []
        self.cur = None
        self.t0 = time.time()

    def prog(self, config):
        if config not in self.progs:
            self.progs[config] = ir.load(config)
        return self.progs[config]

    def rule(self, rid, text):
        self.rules.append('%s: %s' % (rid, text))

    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def violation(self, rule, func, detail, loc='', trace=None, config=None):
        """detail must not contain line numbers: it identifies the construct"""
        k = (rule, func, detail)
        if k not in self.viol:
            self.viol[k] = dict(rule=rule, func=func, detail=detail, loc=loc, trace=trace or [], config=config or self.cur)

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken('anchor missing: ' + what)

    def func(self, prog, name, must=True):
        fs = prog.byname.get(name)
        if not fs:
            if must:
                raise AnalysisBroken('function %s not found in configuration %s' % (name, prog.config))
            return None
        return fs[0]

    def minimum(self, key, n):
        if self.cnt.get(key, 0) < n:
            raise AnalysisBroken('%s: only %d instances of %s analysed, at least %d expected' %
                                 (self.prop, self.cnt.get(key, 0), key, n))

    def take(self, eng, config=None):
        """collect an engine's results"""
        for v in eng.violations.values():
            self.violation(v.rule, v.func, v.msg, v.loc + ' in ' + v.extra.get('in', ''), v.trace, config)
        self.count('paths', eng.paths)
        self.count('steps', eng.steps)
        self.count('joins', eng.joins)
        self.funcs |= eng.funcs_visited
        for k in eng.unmodelled:
            self.notes.append('opaque call: ' + k)
        for k in eng.incomplete:
            self.broken.append('analysis of %s did not finish' % k)

    def run_jobs(self, jobs, n=8):
        """jobs: list of zero-argument callables returning a result dict from job_result(); run in forked workers"""
        global _JOBS
        _JOBS = jobs
        out = []
        if len(jobs) <= 1:
            out = [_runjob(i) for i in range(len(jobs))]
        else:
            mp = multiprocessing.get_context('fork')
            with mp.Pool(min(n, len(jobs))) as pool:
                out = pool.map(_runjob, range(len(jobs)), chunksize=1)
        for r in out:
            if 'error' in r:
                raise AnalysisBroken(r['error'])
            for v in r['viol']:
                self.violation(*v[:3], loc=v[3], trace=v[4], config=v[5])
            for k, c in r['cnt'].items():
                self.count(k, c)
            self.funcs |= r['funcs']
            self.notes += r['notes']
            self.broken += r['broken']
        return [r.get('data') for r in out]


_JOBS = []


def _runjob(i):
    try:
        return _JOBS[i]()
    except AnalysisBroken as e:
        return {'error': str(e)}
    except Exception:
        return {'error': traceback.format_exc()}


class Sub:
    """collector used inside a job"""

    def __init__(self, config):
        self.r = dict(viol=[], cnt={}, funcs=set(), notes=[], broken=[])
        self.config = config
        self.scenes = []

    def count(self, k, n=1):
        self.r['cnt'][k] = self.r['cnt'].get(k, 0) + n

    def violation(self, rule, func, detail, loc='', trace=None):
        self.r['viol'].append((rule, func, detail, loc, trace or [], self.config))

    def take(self, eng):
        for v in eng.violations.values():
            self.violation(v.rule, v.func, v.msg, v.loc + ' in ' + v.extra.get('in', ''), v.trace)
        self.count('paths', eng.paths)
        self.count('steps', eng.steps)
        self.r['funcs'] |= eng.funcs_visited
        for k in eng.unmodelled:
            self.r['notes'].append('opaque call: ' + k)
        for k in eng.incomplete:
            if getattr(eng.pol, 'concrete', False):
                # a bounded, fully known structure: the code left it, or loops for ever
                self.violation('diverge', eng.entry.name, 'does not finish on a bounded structure, or follows pointers that lead out of it', eng.entry.file)
                break
            self.r['broken'].append('analysis of %s did not finish' % k)


def engine_job(config, prog, fn, mk, tag='functions', **kw):
    """a job that runs one engine over one entry function; mk() makes the policy"""
    def job():
        s = Sub(config)
        pol = mk()
        pol.sub = s
        e = Engine(prog, pol)
        t0 = time.time()
        e.run(fn, **kw)
        if os.environ.get('SA_TIME') and time.time() - t0 > float(os.environ['SA_TIME']):
            print('TIME %s %s %s %.1fs steps=%d paths=%d' % (config, fn.name, type(pol).__name__, time.time() - t0, e.steps, e.paths), file=sys.stderr)
        fin = getattr(pol, 'finish', None)
        if fin:
            fin(e, s)
        s.take(e)
        s.count(tag)
        return s.r
    return job


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding:'):
                body, _, text = l[8:].partition(' | ')
                d = {}
                for part in body.strip().split(' ; '):
                    k, _, v = part.strip().partition('=')
                    d[k] = v
                if d.get('property') == prop:
                    d['text'] = text
                    out.append(d)
    return out


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier)
    broken = None
    try:
        mod = importlib.import_module('props.' + prop.lower())
        mod.check(ctx)
        if ctx.broken:
            raise AnalysisBroken('; '.join(sorted(set(ctx.broken))[:5]))
    except AnalysisBroken as e:
        if not ctx.viol:
            print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
            return 2
        ctx.notes.append('analysis broken: %s' % e)
        broken = str(e)
    kf = known(prop)
    bad = []
    hit = set()
    for k, v in sorted(ctx.viol.items(), key=lambda kv: (kv[0][0], kv[0][1] or '', kv[0][2])):
        for i, f in enumerate(kf):
            if f.get('rule') == v['rule'] and f.get('func') == v['func'] and f.get('detail') == v['detail']:
                if i not in hit:
                    print('KNOWN-FINDING: property=%s %s: %s (%s)' % (prop, v['func'], f.get('text', ''), v['loc']))
                hit.add(i)
                break
        else:
            bad.append(v)
    if broken and not bad:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, broken))
        return 2
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    for i, v in enumerate(bad):
        rp = os.path.join(EVID, 'replay', '%s-%d.txt' % (prop, i))
        with open(rp, 'w') as f:
            f.write('property %s\nrule     %s\nfunction %s\nat       %s\nconfig   %s\nfinding  %s\npath     (function, line, branch)\n' %
                    (prop, v['rule'], v['func'], v['loc'], v['config'], v['detail']))
            for t in v['trace']:
                f.write('  %s\n' % (t,))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  [%s] %s: %s (%s) [%s]' % (v['rule'], v['func'], v['detail'], v['loc'], v['config']))
    notes = {}
    for n in ctx.notes:
        notes[n] = notes.get(n, 0) + 1
    cov = {'explanation': getattr(mod, 'EXPLAIN', mod.__doc__ or prop).strip(),
           'rules': ctx.rules, 'configurations': ctx.configs, 'counts': ctx.cnt,
           'functions_analysed': sorted(ctx.funcs)[:400], 'n_functions': len(ctx.funcs),
           'known_findings_matched': len(hit), 'notes': sorted(notes)[:60]}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', []) + ctx.assume, 'wall_s': round(time.time() - t0, 2),
          'violations': len(bad)}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not bad:
        print('OK property=%s tier=%s %s (%.1fs)' % (prop, tier, ' '.join('%s=%s' % kv for kv in sorted(ctx.cnt.items())), time.time() - t0))
    return 1 if bad else 0


if __name__ == '__main__':
    p = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(p, tier))
