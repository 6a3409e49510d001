"""C26: a restore brings back every commit, tree and file before publishing the head."""
from ..remote import *

RULES = {
    'head-last': 'whenever the restored repository has a head, every commit, tree and file of its history is in place with its whole content',
    'complete': 'a restore that ends normally has put the head and the whole history, empty files included, in place',
    'fails': 'a restore from a backup in which an object is missing, and a restore in which an operation failed, publishes no head over an incomplete history and does not end normally without it',
    'restorable': 'what a finished backup has stored can be restored',
}
AT = ('bversion/repo_manager.py', 'restore')


class Restore(Remote):
    repos = {}; case = ''; rule = 'head-last'

    def lacking(self, fs, repo):
        s, commits, need = self.repos[repo]; out = []
        for n in sorted(set().union(*need.values())):
            if fs.get(self.where(repo, n)) is not s.objects[n][1]: out.append(n)
        return out

    def where(self, repo, n):
        s = self.repos[repo][0]; h = cval(oid(n))
        return mkpath([const('/%s_restore' % repo), const(s.objects[n][0]), const(h[:2]), const(h[2:])])

    def head(self, fs, repo):
        """content of the restored head file; None while there is no head"""
        c = fs.get(mkpath([const('/%s_restore/head' % repo)]))
        if c is None or is_str(c) and cval(c) in (b'', '', b'root', 'root'): return None
        return c

    def put(self, eng, st, node, fs, what):
        for repo in self.repos:
            if self.head(fs, repo) is not None:
                w = (eng.loc(node), eng.func.qual if eng.func else '?')
                self.rep.ob(self.rule, '%s: %s' % (self.case, w[1]))
                bad = self.lacking(fs, repo)
                if bad: self.rep.violate(self.rule, w[0], w[1], '%s: the restored repository has a head while %s is not, or not completely, in place' % (self.case, bad[0]), st, key=self.rule + ':' + kind(self.repos[repo][0], bad[0]))
        return super().put(eng, st, node, fs, what)

    def verdict(self, R, X):
        rule = 'complete' if self.rule == 'head-last' else self.rule
        if X: self.rep.ob(rule, '%s: given up' % self.case)
        for st, _ in R:
            for repo, (s, commits, need) in self.repos.items():
                self.rep.ob(rule, '%s: %s' % (self.case, repo))
                fs = self.fs(st); bad = self.lacking(fs, repo); h = self.head(fs, repo)
                if h is None or not is_str(h) or canon_text(h) != cval(s.head): self.rep.violate(rule, AT[0], AT[1], '%s: the restore ends normally but the head of the repository is not that of the backup' % self.case, st, key=rule + ':head')
                if bad: self.rep.violate(rule, AT[0], AT[1], '%s: the restore ends normally but %s is missing or incomplete' % (self.case, bad[0]), st, key=rule + ':' + kind(s, bad[0]))


def canon_text(t): return cval(t).decode('latin1') if isinstance(cval(t), bytes) else cval(t)
def kind(s, n): return 'empty' if n == 'empty' else s.objects[n][0]


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = Restore(rep); eng = engine(mon); total = 0
    one = remote_history('/one', tier == 'thorough')
    t2 = history(const('/two'), [('D0', {'/a': 'a0', '/m/n': 'n', '/m/e': 'empty'})])
    t2[0].objects['empty'] = ('files', const(b''))
    two = (t2[0], ['D0'], {'D0': reachable(t2[0], 'D0')})
    mon.store = Store(const('/'))
    mon.store.hash = dict(one[0].hash); mon.store.hash.update(two[0].hash)

    def config(repos):
        return configure(mon.st, [(n, {'path': '/' + n, 'backup': True}) for n in repos])

    def backup(repos, salted):
        mon.repos = {}
        mon.st = Remote.begin(eng.base, one[0].fs() + two[0].fs(), SALTED if salted else [])
        st, c = config(repos)
        R, X = run_tool(eng, st, c, 'backup')
        return [dict(st.auto['remote']) for st, _ in R]

    def restore(case, rule, remote, repos, errors=0, page=None):
        nonlocal total
        total += 1
        mon.case = case; mon.rule = rule; mon.errors = errors; mon.page = page; mon.repos = repos; mon.seen = set(); mon.snaps = []; mon.effects = []
        mon.st = Remote.begin(eng.base, [], remote.items())
        st, c = config(repos)
        R, X = run_tool(eng, st, c, 'restore')
        mon.verdict(R, X)
        return R, X
    just = {'one': one}; both = {'one': one, 'two': two}
    saved = backup(just, True); saved2 = backup(both, False)
    if not saved or not saved2: raise AnalysisBroken('the backup that is to be restored does not end normally')
    for remote, repos, what in ((saved[0], just, 'complete backup'), (saved2[0], both, 'complete backup of two repositories, salt made by the backup')):
        R, X = restore(what, 'head-last', remote, repos)
        rep.ob('restorable', what)
        if not R: rep.violate('restorable', AT[0], AT[1], '%s: the restore fails: %s' % (what, sorted({show(e) for _, e in X})[:2]), X[0][0] if X else None)
    if rep.violations: return [eng]
    # objects missing from the backup
    for n in sorted(set().union(*one[2].values())):
        if n == 'empty': continue
        k = rkey(one[0], 'one', n)
        remote = {x: v for x, v in saved[0].items() if x != k}
        if len(remote) < len(saved[0]): restore('backup without %s' % n, 'fails', remote, just)
    restore('one failing operation', 'fails', saved[0], just, errors=1)
    # a backup that was never finished: whatever had arrived on the remote
    if tier == 'thorough':
        restore('two failing operations', 'fails', saved2[0], {'two': two}, errors=2)
    rep.info['scenarios'] = total
    return [eng]
