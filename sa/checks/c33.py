"""C33: a revert gives back exactly the selected files of the requested revision."""
import fnmatch
from .c31 import *

RULES = {
    'restored': 'after a confirmed revert every selected file of the requested revision has exactly the content it has there',
    'others': 'no other file of the working copy is changed, created or removed',
    'recorded': 'the recorded revision does not change; a file not shown as a local change has the content of that revision, and a file reverted to that revision is not shown as one',
    'stopped': 'however a revert ends, a selected file is as before, missing, or as in the requested revision; reverting again completes it',
    'nothing': 'a revert that selects nothing, or a revision that does not exist, changes nothing',
}
RV = ('bversion/client.py', 'revert')
STATES = {
    'no local changes': {},
    'local changes': {'/same': 'm1', '/ch': 'm2', '/d/ch': None, '/d/g/del': None, '/new': None, '/p/q/new': 'm3', '/mine': 'm4', '/d/mine': 'm5', '/del': 'm6', '/d/new': 'n1'},
    'the files of another revision': {'/ch': 'c1', '/back': 'b2', '/d/e/ch': 'c3', '/del': 'e1', '/d/g/del': 'e2', '/new': None},
    'everything deleted': {p: None for n, f in HISTORY for p in f},
}
SELECT = (('/ch',), ('/d/*',), ('*',), ('/same', '/d/e/ch'), ('/del', '/back'), ('ch',), ('d/ch', '*new'), ('/d/?h', '/nowhere'), ('--all',))
NONE_ = (('/nowhere',), ('/d',), ('nothing*',), ('CH',))


class Reverts(Converge):
    """a downloaded file has the time of its download"""
    def download(self, c):
        g = super().download(c)

        def f(e, st, args, kw, node):
            p = self.one(args, kw)
            return [(s.setauto(stamps=(s.auto.get('stamps') or frozenset()) | {p}), v) for s, v in g(e, st, args, kw, node)]
        return f


def selected(files, args, pull):
    out = [p for p in files if not (pull and fnmatch.fnmatchcase(p, pull))]
    if args == ('--all',): return set(out)
    flt = [a if a[0] in '*/' else '/' + a for a in args]
    return {p for p in out if any(fnmatch.fnmatchcase(p, f) for f in flt)}


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    deep = tier == 'thorough'
    c = Run(rep, tier); m = c.mon = Reverts(rep); c.eng = system(m); m.store = c.store
    ended = []

    def argv(which, args): return ('revert',) + ({'-h': ('-h',), None: ()}.get(which) if which in ('-h', None) else ('--v', cval(oid(which)))) + args

    def other_files(rule, label, st, before, sel, everything):
        """files that were not selected; --all may also remove files that are recorded, but not in the requested revision"""
        now = working(st); was = working(before); man = manifest(before)
        for p in sorted(set(was) | set(now)):
            if p.startswith('/.bvn/') or p in sel or was.get(p) is now.get(p): continue
            if everything and p in man and p not in now: continue
            rep.violate(rule, RV[0], RV[1], '%s: %s, which is not selected, is %s' % (label, p, 'removed' if p not in now else 'created' if p not in was else 'changed'), st, key='%s others' % rule)
            return

    def shown(label, st, at, which, sel, pull, before, all_):
        ign = (pull,) if pull else ()
        if revision(st) != revision(before): rep.violate('recorded', RV[0], RV[1], '%s: the recorded revision changes' % label, st, key='recorded revision')
        have = m.stored(st, revision(st)); ch = m.local_changes(st, ign); now = working(st)
        if have is None: return
        man = manifest(st); was = manifest(before)
        for p in sorted(set(have) | set(now)):
            if pull and fnmatch.fnmatchcase(p, pull) or p.startswith('/.bvn') or p in ch or have.get(p) is now.get(p) or p not in have and p not in man: continue
            rep.violate('recorded', RV[0], RV[1], '%s: %s is not what the revision of the working copy has, but is not shown as a local change' % (label, p), st, key='recorded'); return
        for p in sorted(set(man) | set(was)):
            if p not in sel and man.get(p) != was.get(p) and not (all_ and p in was and p not in now): rep.violate('recorded', RV[0], RV[1], '%s: what is recorded about %s, which is not selected, changes' % (label, p), st, key='recorded others'); return
        return ch

    def revert(at, name, which, args, pull, moved=False):
        label = 'bvn %s at %s with %s%s' % (' '.join('<id of %s>' % which if a == (cval(oid(which)) if which not in (None, '-h') else None) else a for a in argv(which, args)), at, name, ', pull-ignoring %s' % pull if pull else '')
        before = c.begin(at, STATES[name], pull=pull)
        rev = {None: at, '-h': HEAD}.get(which, which)
        files = {p: content(n) for p, n in c.files[rev].items()}; sel = selected(files, args, pull)
        if not sel: return nothing(label, before, argv(which, args))
        for x, v in c.go(before, argv(which, args), ('yes',)):
            if v is not None:
                rep.ob('restored', label); rep.violate('restored', RV[0], RV[1], '%s: it fails with %s' % (label, System.cause(v)), x, key='restored fails'); continue
            now = working(x); ended.append(1)
            rep.ob('restored', label); rep.ob('others', label); rep.ob('recorded', label)
            for p in sorted(sel):
                if now.get(p) is not files[p]: rep.violate('restored', RV[0], RV[1], '%s: %s %s' % (label, p, 'is not restored' if p not in now else 'is not what the revision has'), x, key='restored'); break
            other_files('others', label, x, before, sel, args == ('--all',))
            ch = shown(label, x, at, which, sel, pull, before, args == ('--all',))
            if rev == at and ch is not None:
                left = sorted(sel & set(ch))
                if left: rep.violate('recorded', RV[0], RV[1], '%s: afterwards %s is shown as a local change (%s)' % (label, left[0], ch[left[0]]), x, key='recorded shown')

    def nothing(label, before, av):
        rep.ob('nothing', label)
        for x, v in c.go(before, av, ('yes',)):
            if working(x) != working(before) or manifest(x) != manifest(before) or revision(x) != revision(before): rep.violate('nothing', RV[0], RV[1], '%s: nothing is selected, but the working copy changes' % label, x, key='nothing')

    def ends(label, x, before, files, sel, pull, all_, av, again=True):
        rep.ob('stopped', label)
        now = working(x); was = working(before)
        for p in sorted(sel):
            if p in now and now[p] is not was.get(p) and now[p] is not files[p]: rep.violate('stopped', RV[0], RV[1], '%s: %s is neither as before nor as in the requested revision' % (label, p), x, key='stopped'); return
        other_files('stopped', label, x, before, sel, all_)
        shown(label, x, None, None, sel, pull, before, all_)
        if not again: return
        for y, v in c.go(x, av, ('yes',)):
            if v is not None: rep.violate('stopped', RV[0], RV[1], '%s: reverting again fails with %s' % (label, System.cause(v)), y, key='stopped again fails'); continue
            now = working(y)
            bad = [p for p in sorted(sel) if now.get(p) is not files[p]]
            if bad: rep.violate('stopped', RV[0], RV[1], '%s: reverting again does not restore %s' % (label, bad[0]), y, key='stopped again')
            other_files('stopped', label, y, before, sel, all_)
            shown(label, y, None, None, sel, pull, before, all_)

    jobs = []
    for at in ('K1', 'K2', HEAD):
        for name in STATES:
            for which in (None, '-h', 'K1', 'K2') if deep or at == 'K2' or name == 'local changes' else (None, '-h'):
                for args in SELECT:
                    for pull in (None, '/d/*') if deep or name == 'local changes' else (None,): jobs.append((revert, (at, name, which, args, pull)))
    for which in (None, '-h', 'K1'):
        for args in NONE_: jobs.append((nothing, ('bvn %s' % ' '.join(argv(which, args)), c.begin('K2', STATES['local changes']), argv(which, args))))
    for bad in ('0' * 64, 'root', '../head', ''): jobs.append((nothing, ('bvn revert --v %r *' % bad, c.begin('K2', STATES['local changes']), ('revert', '--v', bad, '*'))))
    for st in (c.begin('root', {'/mine': 'm1', '/ch': 'm2'}),): jobs.append((nothing, ('bvn revert * before the first update', st, ('revert', '*'))))

    # ---- cut off, stopped, failing
    for at, which, args, pull in (('K2', None, ('*',), None), ('K2', '-h', ('/ch', '/d/*'), None), ('K2', 'K1', ('--all',), None), (HEAD, '-h', ('*',), '/d/*')):
        av = argv(which, args); mk_ = lambda: c.begin(at, STATES['local changes'], pull=pull)
        rev = {None: at, '-h': HEAD}.get(which, which); files = {p: content(n) for p, n in c.files[rev].items()}; sel = selected(files, args, pull); rest = (mk_(), files, sel, pull, args == ('--all',), av)
        what = 'bvn %s at %s' % (' '.join(a[:8] for a in av), at)
        for label, x in interrupted(c, what, mk_, av, ('yes',)): jobs.append((ends, (label, x) + rest))
        c.go(mk_(), av, ('yes',)); stopped = {}
        for fs, db, loc, func, w, sx, ph in m.snaps: stopped.setdefault((fs, db), ('%s stops at %s (%s)' % (what, loc, w), sx))
        for (fs, db), (label, sx) in sorted(stopped.items(), key=lambda kv: kv[1][0]): jobs.append((ends, (label, settle(m, c.eng, sx.setauto(fs=fs, db=(db, db)))) + rest))
        m.errors = 1
        for x, v in c.go(mk_(), av, ('yes',)): jobs.append((ends, ('%s, a local operation fails' % what, x) + rest))
        m.errors = 0
        rep.info['stops, ' + what] = len(stopped)

    # ---- the head moves meanwhile
    st = c.as_(c.begin(HEAD), 'B', HEAD, {'/ch': 'o1', '/d/new': None, '/back': 'o3', '/d/e/ch': 'o5', '/p/other': 'o4', '/d/other': 'o6'})
    r = [x for x, v in c.go(st, ('commit',)) if v is None]
    if r:
        newer = dict(m.peek(r[0], 'server'))['fs']; later_ = m.stored(r[0], m.head(r[0]))
        old = {p: content(n) for p, n in c.files[HEAD].items()}

        def moves(args, n):
            label = 'bvn revert -h %s, another working copy commits before request %d' % (' '.join(args), n); hit = []
            def between(s, op, k):
                if k != n: return s
                hit.append(op); return m.poke(s, 'server', fs=newer)
            before = c.begin('K2', STATES['local changes'])
            m.between = between
            rr = c.go(before, ('revert', '-h') + args, ('yes',))
            m.between = None
            for x, v in rr if hit else ():
                if v is not None: continue
                now = working(x); rep.ob('restored', label)
                fits = []
                for files in (old, later_):
                    sel = selected(files, args, None)
                    fits.append(all(now.get(p) is files[p] for p in sel))
                if not any(fits): rep.violate('restored', RV[0], RV[1], '%s: the files are neither those of the revision before nor those of the one after' % label, x, key='restored moved')
                else: shown(label, x, None, None, selected(old if fits[0] else later_, args, None), None, before, args == ('--all',))
        for args in (('*',), ('/ch', '/d/*'), ('--all',)):
            for n in range(1, 12): jobs.append((moves, (args, n)))

    def one(f, *a):
        ended.clear(); f(*a); return len(ended)
    done = sum(x or 0 for x in parallel(rep, c.eng, [(one, (f,) + tuple(a)) for f, a in jobs]))
    if not done: raise AnalysisBroken('no confirmed revert ends normally')
    rep.info['reverts completed'] = done; rep.info['scenarios'] = len(jobs)
    return [c.eng]
