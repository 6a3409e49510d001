"""Common driver of the checks: reporting, known findings, evidence, engine set-up."""
import json, os, sys, time, traceback, hashlib
from .terms import *
from .state import *
from .exprs import Interp
from .engine import Monitor, Event, OutOfTime
from .program import Program, AnalysisBroken
from . import model

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Report:
    def __init__(self, pid):
        self.pid = pid; self.violations = {}; self.obligations = {}; self.rules = {}; self.info = {}; self.assumptions = []

    def rule(self, rid, text): self.rules[rid] = text

    def ob(self, rule, construct, n=1):
        """one discharged or violated obligation: `rule` was decided at `construct`"""
        self.obligations.setdefault(rule, set()).add(construct)

    def violate(self, rule, loc, func, msg, st=None, key=None):
        self.ob(rule, '%s %s' % (func, loc))
        k = (rule, key or func)
        if k not in self.violations:
            self.violations[k] = dict(rule=rule, loc=loc, func=func, msg=msg, trace=st.tracelist() if st is not None else [])

    def need(self, rule, what):
        if not self.obligations.get(rule): raise AnalysisBroken('rule %s found nothing to decide (%s)' % (rule, what))


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                # known: property=<id> key=<rule>@<construct> <text>
                rest = l.split(' ', 2)[2]
                k, _, text = rest.partition(' ')
                out[k[len('key='):]] = text
    return out


def make_engine(monitor=None, intr=None, prog=None):
    e = Interp(prog or Program(), None)
    e.intr.update(model.STD)
    if intr: e.intr.update(intr)
    if monitor is not None:
        e.mon = monitor
        e.intr.update(monitor.intrinsics())
    return e


class Mon(Monitor):
    """monitor base: `rel` = predicate on sub-terms that makes an atom relevant (keeps states apart at joins)"""
    def __init__(self, rep): self.rep = rep; self._rc = {}

    def rel(self, t): return False

    def relevant(self, atom):
        r = self._rc.get(atom)
        if r is None: r = self._rc[atom] = any(self.rel(x) for x in subterms_c(atom))
        return r


def finish(rep, eng_list, tier, t0):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    kf = known_findings(rep.pid)
    ev_dir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence'); os.makedirs(ev_dir, exist_ok=True)
    funcs = set(); stats = dict(calls=0, events=0, states=0, merges=0, branches=0)
    ext = set()
    digest = ''
    for e in eng_list:
        funcs |= e.stats['functions']; ext |= e.stats['externals']
        for k in stats: stats[k] += e.stats[k]
        digest = e.prog.digest.hexdigest()
    nob = sum(len(v) for v in rep.obligations.values())
    bad = []; known = []
    for (rule, key), v in sorted(rep.violations.items()):
        k = '%s@%s' % (rule, key)
        if k in kf: known.append((k, v, kf[k]))
        else: bad.append((k, v))
    print('property %s: analysed %d functions of %s (source digest %s)' % (rep.pid, len(funcs), Program.__module__ and os.environ.get('VERIF_REPO', '/repo'), digest[:12]))
    print('  %(calls)d calls inlined, %(events)d events, %(branches)d branches, %(states)d abstract states' % stats)
    for r, text in rep.rules.items():
        print('  rule %-22s %3d constructs  %s' % (r, len(rep.obligations.get(r, ())), text))
    vio = []
    for k, v, text in known:
        print('KNOWN-FINDING: property=%s %s (%s) %s' % (rep.pid, v['loc'], k, text))
    rdir = os.path.join(ev_dir, 'replay'); os.makedirs(rdir, exist_ok=True)
    for i, (k, v) in enumerate(bad):
        p = os.path.join(rdir, '%s-%d.txt' % (rep.pid, i))
        with open(p, 'w') as f:
            f.write('property: %s\nrule: %s -- %s\nconstruct: %s in %s\nfinding: %s\npath through the code (last steps):\n' % (rep.pid, v['rule'], rep.rules.get(v['rule'], ''), v['loc'], v['func'], v['msg']))
            for l in v['trace']: f.write('  %s\n' % (l,))
            f.write('reproduce: cd /verif && python3 check.py %s\n' % rep.pid)
        if i < 12: print('%s: %s [%s] %s' % (v['loc'], v['func'], v['rule'], v['msg']))
        if i < 12: print('VIOLATION property=%s replay=%s' % (rep.pid, p))
        vio.append({'rule': v['rule'], 'location': v['loc'], 'function': v['func'], 'finding': v['msg'], 'replay': p})
    evidence = {
        'property': rep.pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source: interprocedural abstract interpretation of %d functions from their public entry points; every rule below was decided at every construct it applies to.' % len(funcs),
            'rules': {r: {'rule': t, 'constructs_decided': sorted(rep.obligations.get(r, ()))[:60], 'count': len(rep.obligations.get(r, ()))} for r, t in rep.rules.items()},
            'obligations': nob, 'functions_analysed': sorted(funcs), 'externals_modelled': sorted(ext)[:80],
            'counters': stats, 'source_digest': digest, 'details': rep.info,
        },
        'wall_s': round(time.time() - t0, 3),
        'assumptions': rep.assumptions + ['library calls behave as documented', 'code reached only through reflection is not analysed'],
        'violations': vio,
    }
    with open(os.path.join(ev_dir, rep.pid + '.json'), 'w') as f: json.dump(evidence, f, indent=1, default=str)
    return 1 if bad else 0


def main(argv):
    pid = argv[1]
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    sys.setrecursionlimit(12000)
    import importlib
    mod = importlib.import_module('sa.checks.' + pid.lower())
    rep = Report(pid)
    try:
        try: engs = mod.check(rep, tier)
        except OutOfTime:
            # the code is too intricate for the exploration to complete: what was decided until then is reported
            print('NOTE: the time budget ran out before the exploration was complete')
            rep.info['incomplete'] = 'time budget exhausted'; engs = []
            return finish(rep, engs, tier, t0)
        for r in rep.rules:
            if r not in getattr(mod, 'OPTIONAL', ()): rep.need(r, rep.rules[r]) if not rep.violations else None
        return finish(rep, engs, tier, t0)
    except (AnalysisBroken, RecursionError, MemoryError) as e:
        print('ANALYSIS ERROR property=%s: %s' % (pid, e))
        return 2


def parallel(rep, eng, jobs, workers=None):
    """run independent parts of an exploration [(function, arguments)] in several processes; their findings, obligations and counters
    are added to `rep` and `eng`.  Returns what the functions returned (None where the time ran out)"""
    import pickle, tempfile
    W = min(workers or int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 1, len(jobs))
    if W <= 1: return [f(*a) for f, a in jobs]
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    files = [tempfile.TemporaryFile() for _ in range(W)]; pids = []
    for i in range(W):
        pid = os.fork()
        if pid: pids.append(pid); continue
        code = 1
        try:
            os.close(w)
            rep.violations = {}; rep.obligations = {}
            eng.stats = {k: set() if isinstance(v, set) else 0 for k, v in eng.stats.items()}
            out = dict(results={}, late=False, broken=None)
            while True:
                b = os.read(r, 4)
                if len(b) < 4: break
                n = int.from_bytes(b, 'little'); f, a = jobs[n]
                try: out['results'][n] = f(*a)
                except OutOfTime: out['late'] = True; break
                except (AnalysisBroken, RecursionError, MemoryError) as e: out['broken'] = str(e); break
            out.update(violations=rep.violations, obligations=rep.obligations, stats=eng.stats)
            for v in rep.violations.values(): v['trace'] = [str(l) for l in v['trace']]
            pickle.dump(out, files[i]); files[i].flush(); code = 0
        except BaseException: traceback.print_exc()
        finally: sys.stdout.flush(); sys.stderr.flush(); os._exit(code)
    os.close(r)
    try:
        for n in range(len(jobs)): os.write(w, n.to_bytes(4, 'little'))
    except BrokenPipeError: pass
    os.close(w)
    late = False; broken = None; res = {}; dead = 0
    for i, pid in enumerate(pids):
        if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) != 0: dead += 1; continue
        files[i].seek(0); out = pickle.load(files[i]); files[i].close()
        res.update(out['results']); late |= out['late']; broken = broken or out['broken']
        for k, v in out['violations'].items(): rep.violations.setdefault(k, v)
        for k, v in out['obligations'].items(): rep.obligations.setdefault(k, set()).update(v)
        for k, v in out['stats'].items():
            if isinstance(v, set): eng.stats[k] |= v
            else: eng.stats[k] += v
    if rep.violations: dead = broken = None
    if dead: raise AnalysisBroken('%d worker processes failed' % dead)
    if broken: raise AnalysisBroken(broken)
    if late:
        print('NOTE: the time budget ran out before the exploration was complete'); rep.info['incomplete'] = 'time budget exhausted'
    return [res.get(n) for n in range(len(jobs))]
