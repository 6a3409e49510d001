"""C11: verification never passes a damaged repository."""
from ..repoworld import *
from ..generic import *
import itertools

RULES = {
    'missing': 'a repository in which a commit, tree or file object reachable from the head is missing is not reported as valid',
    'hash': 'a repository in which a stored object does not hash to its name is not reported as valid, whether or not it is reachable',
    'shown': 'the verification command shows the issues that were found, for every repository',
    'read-only': 'verification changes nothing in the repository',
}
VS = 'bversion.storage.versioned_storage:versioned_storage'
BASE = const('/r')


def example(stray=True):
    """three revisions, nested directories, files with one name in several places, a file only in the old revision, one shared,
    and unreachable leftovers"""
    s = Store(BASE)
    for f in ('old', 'shared', 'a0', 'a1', 'deep') + (('stray file',) if stray else ()): s.file(f)
    s.tree('T0', [('old', s.entry('old')), ('shared', s.entry('shared')), ('a', s.entry('a0', 'a'))])
    s.tree('Tdeep', [('a', s.entry('deep', 'a'))])
    s.tree('Tdir', [], [('sub', oid('Tdeep'))])
    s.tree('T1', [('shared', s.entry('shared')), ('a', s.entry('a1', 'a'))], [('sub', oid('Tdir'))])
    if stray: s.tree('stray tree', [])
    s.commit('C0', 'root', oid('T0'), [s.entry('old', '/old'), s.entry('shared', '/shared')])
    s.commit('Cmid', oid('C0'), oid('T0'), [s.entry('old', '/old')])
    s.head = s.commit('C1', oid('Cmid'), oid('T1'), [s.entry('a1', '/a', 'changed'), s.entry('deep', '/sub/sub/a'), s.entry('old', '/old', 'deleted')])
    return s


STRAY = ('stray file', 'stray tree')


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = RepoWorld(rep); eng = make_engine(mon); eng.mon = mon; eng.unroll = 24; eng.reclimit = 6
    at = ('bversion/storage/versioned_storage.py', 'versioned_storage.verify_fs')
    verdicts = {}; total = 0
    for stray in (True, False):
        s = mon.store = example(stray)
        names = list(s.objects)
        cases = [('missing', (n,), ()) for n in names if n not in STRAY] + [('hash', (), (n,)) for n in names] + [('read-only', (), ())]
        if tier == 'thorough':
            cases += [('missing', p, ()) for p in itertools.combinations([n for n in names if n not in STRAY], 2)]
            cases += [('hash', (), p) for p in itertools.combinations(names, 2)]
            cases += [('missing', (a,), (b,)) for a in names for b in names if a != b and a not in STRAY]
        for rule, gone, bad in cases:
            st = RepoWorld.begin(eng.base, s.fs(gone, bad))
            mon.effects = []; mon.snaps = []; mon.seen = set(); total += 1
            rets, exc = run_method(eng, st, VS, [BASE], 'verify_fs', [])
            what = ', '.join(['%s missing' % n for n in gone] + ['%s damaged' % n for n in bad]) or 'intact'
            what += ', unreachable objects present' if stray else ''
            rep.ob(rule, what); rep.ob('read-only', what)
            for loc, func, w, x in mon.effects:
                rep.violate('read-only', loc, func, 'verification changes the repository: %s' % w, x)
            for x, v in rets:
                d = x.auto['db']
                if d[0] != d[1] or d[1] != (): rep.violate('read-only', at[0], at[1], 'verification changes the transient database', x)
                ok = v.args[0][0] if v.op == 'tup' and v.args[0] else v
                if not gone and not bad: verdicts.setdefault(what, set()).add(show(ok))
                if rule != 'read-only' and ok is TRUE:
                    rep.violate(rule, at[0], at[1], 'a repository with %s is reported as valid' % what, x, key='%s:%s' % (rule, (gone or bad)[0]))
    # a long history: the oldest objects are part of it
    s = mon.store = long_history(BASE)[0]
    with Deep(eng):
        for n, rule, gone, bad in [(n, 'missing', (n,), ()) for n in ('L0', 'tree L0/d', 'x0')] + [('x0', 'hash', (), ('x0',))]:
            what = '%d revisions, %s %s' % (LONG, n, 'missing' if gone else 'damaged'); total += 1
            rep.ob(rule, what)
            for x, v in run_method(eng, RepoWorld.begin(eng.base, s.fs(gone, bad)), VS, [BASE], 'verify_fs', [])[0]:
                if (v.args[0][0] if v.op == 'tup' and v.args[0] else v) is TRUE:
                    rep.violate(rule, at[0], at[1], 'a repository of %s is reported as valid' % what, x, key='%s:%s' % (rule, n))
    if not verdicts: raise AnalysisBroken('verification of an intact repository does not finish')
    rep.info['verdict on an intact repository'] = {k: sorted(v) for k, v in verdicts.items()}
    rep.info['cases'] = total
    return [eng, command(rep, tier)]


def command(rep, tier):
    """bvn_repo verify: what was found in each repository is shown"""
    class Out(Mon):
        def event(self, ev, st):
            if ev.kind == 'print' or ev.kind == 'meth' and ev.name in ('write', 'writelines') or ev.kind == 'call' and any(w in ev.name for w in ('print', 'log', 'write', 'echo')): st = st.mark(*[('out', x) for a in ev.args for x in subterms_c(a)])
            return st
    mon = Out(rep); eng = make_engine(mon); eng.mon = mon; eng.unroll = 24
    verdict = {}
    issue = {n: sym('#issue in ' + n, None, True) for n in ('one', 'two')}

    def verify(e, st, args, kw, node):
        n = [x for x in ('one', 'two') if any(is_str(y) and cval(y) == '/' + x for y in subterms_c(inst(st, args[0])))]
        if len(n) != 1: return None
        st, l = mklist(st, 'issues of ' + n[0], [issue[n[0]]] if not verdict[n[0]] else [])
        return [(st, tup(TRUE if verdict[n[0]] else FALSE, l))]

    def inst(st, o):
        h = st.heap.get(o)
        return h.get(const('base_path')) if h is not None and h.get(const('base_path')) is not None else tup(*h.terms()) if h is not None else o
    eng.intr['bversion.storage.versioned_storage.versioned_storage.verify_fs'] = verify
    st = eng.base
    reps = []
    for n in ('one', 'two'):
        st, d = mkdict(st, 'repo ' + n, [('path', '/' + n)]); reps.append((n, d))
    st, rd = mkdict(st, 'repositories', reps)
    st, c = mkdict(st, 'configuration', [('repositories', rd)])
    init, _ = eng.run(eng.lookup_public('bversion.repo_manager:init'), [c], {}, st, 'init')
    done = 0
    for bad in ((), ('one',), ('two',), ('one', 'two')):
        verdict.update({n: n not in bad for n in ('one', 'two')})
        for st, _ in init:
            st = st.setheap(mk('ext', 'sys.argv'), H(LIST, [const('bvn_repo'), const('verify')]))
            rets, exc = eng.run(eng.lookup_public('bversion.repo_manager:run'), [], {}, st, 'bvn_repo verify')
            for x, v in rets:
                shown = {m[1] for m in x.marks if m[0] == 'out'}
                for n in bad:
                    done += 1; rep.ob('shown', 'bvn_repo verify, issues in %s' % ' and '.join(bad))
                    if issue[n] not in shown: rep.violate('shown', 'bversion/repo_manager.py', 'run', 'the issue found in repository %s is not shown (%s of two repositories damaged)' % (n, len(bad)), x, key='shown:' + n)
    if not done: raise AnalysisBroken('bvn_repo verify does not reach the verification')
    return eng
