"""C24: a backup marks a commit as done only after uploading all of it."""
from ..remote import *

RULES = {
    'marked': 'when the marker of a commit appears on the remote, the commit, its trees and its files (apart from the empty file) are there with their whole content',
    'complete': 'a backup that ends normally has marked every commit of the history of every repository that is to be backed up, also after earlier, interrupted backups',
    'skip': 'a commit that is already marked is not marked again',
    'failure': 'a backup in which an upload, a listing or the reading of a file failed ends normally only if everything was uploaded all the same',
}
AT = ('bversion/repo_manager.py', 'backup')


class Backup(Remote):
    repos = {}                  # name -> (store, commits, need)
    marked0 = frozenset(); case = ''; rule = 'complete'

    def short(self, st, repo, commit):
        """what a marked commit lacks"""
        s, _, need = self.repos[repo]; r = self.remote(st); out = []
        for n in sorted(need[commit]):
            if n == 'empty': continue
            c = r.get(rkey(s, repo, n))
            if c is None or plain(c) is not s.objects[n][1]: out.append(n)
        return out

    def marker(self, key):
        for repo, (s, commits, need) in self.repos.items():
            for c in commits:
                if key == '%s/commits/%s' % (repo, cval(oid(c))): return repo, c
        return None

    def published(self, e, st, node, key):
        m = self.marker(key)
        if m is None: return
        w = (e.loc(node), e.func.qual if e.func else '?')
        self.rep.ob('marked', '%s: %s of %s' % (self.case, m[1], m[0])); self.rep.ob('skip', '%s: %s of %s' % (self.case, m[1], m[0]))
        bad = self.short(st, *m)
        if bad: self.rep.violate('marked', w[0], w[1], '%s: commit %s is marked as backed up although %s is not, or not completely, on the remote' % (self.case, m[1], bad[0]), st, key='marked:' + kind(self.repos[m[0]][0], bad[0]))
        if key in self.marked0: self.rep.violate('skip', w[0], w[1], '%s: commit %s is marked again' % (self.case, m[1]), st)

    def verdict(self, R, X):
        if any(st.auto.get('faults') for st, _ in X): self.rep.ob('failure', self.case + ': the backup is aborted')
        for st, _ in R:
            failed = bool(st.auto.get('faults')); rule = 'failure' if failed else 'complete'
            for repo, (s, commits, need) in self.repos.items():
                self.rep.ob(rule, '%s: %s' % (self.case, repo))
                for c in commits:
                    if '%s/commits/%s' % (repo, cval(oid(c))) not in self.remote(st):
                        self.rep.violate(rule, AT[0], AT[1], '%s: the backup ends normally but commit %s of %s is not marked' % (self.case, c, repo), st)
                    elif self.short(st, repo, c):
                        self.rep.violate(rule, AT[0], AT[1], '%s: the backup ends normally but %s of commit %s is not on the remote' % (self.case, self.short(st, repo, c)[0], c), st)


def kind(s, n): return s.objects[n][0] if n in s.objects else n


def shape(remote): return frozenset((k, plain(c)) for k, c in remote)


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = Backup(rep); eng = engine(mon); total = 0
    one = remote_history('/one', tier == 'thorough')
    two = history(const('/two'), [('D0', {'/a': 'a0', '/m/n': 'n'})])
    two = (two[0], ['D0'], {'D0': reachable(two[0], 'D0')})
    three = history(const('/three'), [('E0', {'/a': 'secret'})])
    mon.store = Store(const('/'))
    fs = one[0].fs() + two[0].fs() + three[0].fs()

    def go(case, remote, repos, errors=0, page=None):
        nonlocal total
        total += 1
        mon.case = case; mon.errors = errors; mon.page = page; mon.puts = []; mon.seen = set(); mon.snaps = []; mon.effects = []
        mon.repos = repos; mon.marked0 = frozenset(k for k, _ in remote if '/commits/' in k)
        st = Remote.begin(eng.base, fs, remote)
        st, c = configure(st, [(n, {'path': '/' + n, 'backup': True}) for n in repos] + [('three', {'path': '/three'})])
        R, X = run_tool(eng, st, c, 'backup')
        mon.verdict(R, X)
        return R, X, [p[2] for p in mon.puts]
    just = {'one': one}; both = {'one': one, 'two': two}
    R, X, points = go('first backup', SALTED, just)
    if not R: raise AnalysisBroken('a backup without failures does not end normally: %s' % [show(e) for _, e in X][:2])
    full = dict(R[0][0].auto['remote'])
    go('first backup, two repositories', SALTED, both)
    go('first backup, no salt yet', [], just)
    go('nothing new', full.items(), just)
    go('nothing new, listings in pages', full.items(), just, page=1)
    go('first backup, listings in pages', SALTED, just, page=2)
    # continue after a stop at any point, with listings in pages as well
    stops = [frozenset(p.auto['remote']) for p in points]
    for i, r in enumerate(stops): go('after a backup stopped at upload %d' % i, r, just, page=None if i % 2 else 2)
    # all commits but one marked
    for c in one[1]:
        r = {k: v for k, v in full.items() if k != 'one/commits/' + cval(oid(c)) and k not in {rkey(one[0], 'one', n) for n in one[2][c] - set().union(*[one[2][d] for d in one[1] if d != c])}}
        go('all but %s backed up' % c, r.items(), just)
    # one failing operation
    R, X, _ = go('one failing operation', SALTED, just, errors=1)
    known = {shape(r) for r in stops}; n = 0
    for st, _ in X:             # what a failed backup has left on the remote
        if shape(st.auto['remote']) in known: continue
        known.add(shape(st.auto['remote'])); n += 1
        go('after a failed backup', st.auto['remote'], just)
    rep.info['further remote states after a failure'] = n
    if tier == 'thorough':
        for i, r in enumerate(stops): go('after a stop at upload %d, one failing operation' % i, r, just, errors=1, page=1)
        go('two failing operations', SALTED, {'two': two}, errors=2)
    rep.info['scenarios'] = total
    return [eng]
