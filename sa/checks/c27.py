"""C27: local files are destroyed only after an explicit confirmation."""
import fnmatch
from .update import *

RULES = {
    'revert': 'a revert removes or replaces no local file before the question was answered with yes',
    'revert other': 'any other accepted answer to a revert, and none at all, leave every local file alone',
    'pull-ignore': 'bvn pull-ignore removes no local file before the question was answered with delete, and then none that does not match the filters',
    'pull-ignore other': 'any other accepted answer to bvn pull-ignore, and none at all, leave every local file alone',
    'accepted': 'the confirming answer is accepted in upper and lower case, also after answers that are not accepted, and then acted on',
    'uncommitted': 'bvn pull-ignore is refused while there are uncommitted local changes, unless forced',
}
RV = ('bversion/client.py', 'revert'); PI = ('bversion/client.py', 'pull_ignore')


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    c = Case(rep, tier); m = c.mon

    def confirmed(st, yes, no):
        """the answers given so far: True when the confirming one was the first accepted"""
        for a in m.answers[:st.auto.get('answers') or 0]:
            s = cval(a).strip().lower()
            if s == yes: return True
            if s in no: return False
        return False

    def untouched(st, initial): return [(p, 'removed' if p not in now else 'replaced') for now in [working(st)] for p in sorted(initial) if not p.startswith('/.bvn') and now.get(p) is not initial[p]]

    def watcher(rule, label, initial, yes, no, only=None):
        def watch(eng, st, node):
            rep.ob(rule, label)
            ok = confirmed(st, yes, no)
            for p, how in untouched(st, initial):
                if ok and (only is None or only(p)): continue
                w = (eng.loc(node), eng.func.qual if eng.func else '?')
                if ok: rep.violate(rule, w[0], w[1], '%s: %s is %s, which does not match the filters' % (label, p, how), st, key=rule + ':other file')
                else: rep.violate(rule, w[0], w[1], '%s: %s is %s %s' % (label, p, how, 'although the answer was not %s' % yes if st.auto.get('answers') else 'before anything was asked'), st, key=rule + ':' + how)
        return watch

    # 1. revert
    everything = dict(PULL, **GONE, **LOCAL, **AGREE, **CONF)
    ANS = [('yes',), ('YES',), ('Yes',), ('no',), ('NO',), ('No',), ('nope', 'no'), ('', 'no'), ('maybe', 'yes'), ('y', 'no'), ('n', 'no'), ('ok', 'y', 'no'), ('yess', 'no'), ('', ''), ('ye',), ('no', 'yes'), ('x', 'NO', 'yes'), ('noyes', 'no'), ('yes no', 'no'), ('1', 'no'), ('true', 'no'), ('delete', 'no'), ()]
    fs, rows = c.begin(everything, '/big/*\n'); initial = working_fs(fs); acted = {}
    for argv in (('--all',), ('-h', '--all'), ('/l-ch', '/d/l-new', '/same'), ('-h', '*')):
        for ans in ANS:
            label = 'bvn revert %s, answers: %s' % (' '.join(argv), ', '.join(repr(a) for a in ans) or 'none')
            st, X = c.go(label, fs, rows, ans, argv=('revert',) + argv, watch=watcher('revert', label, initial, 'yes', ('no',)))
            good = any(a.lower() == 'yes' for a in ans) and not any(a.lower() == 'no' for a in ans)
            rep.ob('accepted' if good else 'revert other', label)
            for x in st + [x for x, _ in X]:
                d = untouched(x, initial)
                if good: continue
                for p, how in d: rep.violate('revert other', RV[0], RV[1], '%s: %s is %s' % (label, p, how), x, key='revert other:' + how)
            if good:
                if not st and X: rep.violate('accepted', RV[0], RV[1], '%s: it ends with %s' % (label, show(X[0][1])[:100]), X[0][0], key='accepted:revert')
                for x in st:
                    acted[argv] = True
                    if not untouched(x, initial): rep.violate('accepted', RV[0], RV[1], '%s: no file is reverted' % label, x, key='accepted:nothing')
    if not acted: raise AnalysisBroken('no confirmed revert ends normally')
    label = 'bvn revert --all, a local operation fails'
    for ans in (('no',), ('yes',)):
        c.go(label, fs, rows, ans, errors=1, argv=('revert', '--all'), watch=watcher('revert', label + ', answer ' + ans[0], initial, 'yes', ('no',)))
    for refuse in ({'list_files': FAIL}, {'list_files': BROKEN}):
        label = 'bvn revert --all, the server refuses to list the files'
        c.go(label, fs, rows, ('yes',), refuse, argv=('revert', '--all'), watch=watcher('revert', label, initial, 'never', ()))

    # 2. pull-ignore
    TRACKED = {'/big/a': (0, 1, 0), '/big/d/b': (0, 0, 0), '/big/z': (0, 0, 0), '/d/v.iso': (0, 1, 0), '/only/d/e/b': (0, 0, 0), '/only/z': (0, 0, 0), '/keep': (0, 0, 0), '/d/keep2': (0, 1, 0), '/bigger': (0, 0, 0), '/big.iso/c': (0, 0, 0)}
    MORE = {'/big/l': (0, 0, 'mine'), '/big/n': (None, None, 'mine'), '/d/l': (0, 0, 'mine'), '/d/e/n': (None, None, 'mine'), '/d/gone': (0, 0, None)}
    ANS = [('delete',), ('DELETE',), ('Delete',), ('nothing',), ('NOTHING',), ('Nothing',), ('yes', 'nothing'), ('', 'nothing'), ('x', 'delete'), ('d', 'nothing'), ('del', 'n', 'nothing'), ('deleted', 'nothing'), ('nothing', 'delete'), ('y',), ('', ''), ('no', 'nothing'), ('keep', 'NOTHING'), ()]
    acted = 0
    for force in (False, True):
        fs, rows = c.begin(dict(TRACKED, **(MORE if force else {})), '/none\n'); initial = working_fs(fs)
        for args in (['/big/*'], ['/only/*'], ['/big/*', '*.iso'], ['big/*', '/nothing'], ['/nothing'], ['/d/v.iso']):
            flt = ['/' + a if a[0] not in '/*' else a for a in args]; only = lambda p: any(fnmatch.fnmatchcase(p, f) for f in flt)
            there = [p for p in initial if only(p) and p in m.paths and m.paths[p][0] is not None]
            for ans in ANS:
                if not there and len(ans) > 1: continue
                label = 'bvn pull-ignore %s%s, answers: %s%s' % ('-f ' if force else '', ' '.join(args), ', '.join(repr(a) for a in ans) or 'none', ', with local changes' if force else '')
                st, X = c.go(label, fs, rows, ans, argv=['pull-ignore'] + ['-f'] * force + args, watch=watcher('pull-ignore', label, initial, 'delete', ('nothing',), only))
                good = any(a.lower() == 'delete' for a in ans) and not any(a.lower() == 'nothing' for a in ans)
                rep.ob('accepted' if good else 'pull-ignore other', label)
                for x in st + [x for x, _ in X]:
                    if good: continue
                    for p, how in untouched(x, initial): rep.violate('pull-ignore other', PI[0], PI[1], '%s: %s is %s' % (label, p, how), x, key='pull-ignore other:' + how)
                if good or any(a.lower() == 'nothing' for a in ans):
                    if not st and X: rep.violate('accepted', PI[0], PI[1], '%s: it ends with %s' % (label, show(X[0][1])[:100]), X[0][0], key='accepted:pull-ignore')
                if good:
                    for x in st:
                        acted += 1; now = working(x)
                        for p in there:
                            if p in now: rep.violate('accepted', PI[0], PI[1], '%s: %s is not deleted' % (label, p), x, key='accepted:not deleted')
    if not acted: raise AnalysisBroken('no confirmed bvn pull-ignore ends normally')

    # 3. uncommitted changes
    for name, change in (('a changed file', {'/l': (0, 0, 'mine')}), ('a new file', {'/d/e/n': (None, None, 'mine')}), ('a deleted file', {'/d/gone': (0, 0, None)}), ('a changed file that matches', {'/big/l': (0, 0, 'mine')}), ('a new file that matches', {'/big/n': (None, None, 'mine')}),
                         ('a deleted file that matches', {'/big/gone': (0, 0, None)}), ('changes of every kind', MORE)):
        fs, rows = c.begin(dict(TRACKED, **change), None); initial = working_fs(fs)
        for args in (['/big/*'], ['/big/*', '*.iso'], ['/nothing'], ['*']):
            for ans in ('delete', 'nothing'):
                label = 'bvn pull-ignore %s with %s, answer %s' % (' '.join(args), name, ans); rep.ob('uncommitted', label)
                st, X = c.go(label, fs, rows, (ans,), argv=['pull-ignore'] + args, watch=watcher('uncommitted', label, initial, 'never', ()))
                before = start(m, c.eng, fs, rows)
                for x in st: rep.violate('uncommitted', PI[0], PI[1], '%s: it is not refused' % label, x, key='uncommitted:accepted')
                for x, e in X:
                    if working(x) != initial: rep.violate('uncommitted', PI[0], PI[1], '%s: the working copy is changed all the same' % label, x, key='uncommitted:changed')
                    if manifest(x) != manifest(before): rep.violate('uncommitted', PI[0], PI[1], '%s: the manifest is changed all the same' % label, x, key='uncommitted:manifest')
                st, X = c.go(label, fs, rows, (ans,), argv=['pull-ignore', '-f'] + args)
                if not st and X and args != ['*']: rep.violate('uncommitted', PI[0], PI[1], '%s, forced: it ends with %s' % (label, show(X[0][1])[:100]), X[0][0], key='uncommitted:forced')
    rep.info['scenarios'] = c.total
    return [c.eng]
