"""C34: commands that only look show exactly what is there and change nothing."""
import fnmatch, re
from .c31 import *
from ..repoworld import history

RULES = {
    'files': 'bvn list-files shows exactly the files of the revision asked for, with -i exactly those of them that are not pulled',
    'changes': 'bvn list-changes shows exactly the changes of the revision asked for, each with its kind',
    'versions': 'bvn list-versions shows every revision, the oldest first, each followed by its own author, date and message',
    'ignored': 'bvn list-ignored-files shows exactly the files of the working copy that match an ignore or pull-ignore filter',
    'unchanged': 'none of these commands, nor bvn status, changes a file of the working copy, the manifest, the recorded revision or the repository, whether they succeed, fail or are cut off',
    'refused': 'for a revision that does not exist nothing is shown and the command fails',
}
CL = 'bversion/client.py'
EDITS = {'/same': 'm1', '/d/ch': None, '/mine': 'm4', '/d/mine': 'm5', '/x.tmp': 't1', '/d/y.tmp': 't2', '/d/e/z.tmp.txt': 't3', '/big/v': 't4'}


class Looking(Converge):
    def event(self, ev, st):
        if st.auto.get('said') is not None and st.auto.get('side') != 'server':
            t = spoken(ev)
            if t is not None: return [(st.setauto(said=st.auto['said'] + (t,)), NONE)]
        return super().event(ev, st)


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    c = Run(rep, tier); m = c.mon = Looking(rep); c.eng = system(m); m.store = c.store
    store, log, files = history(const(BASE), HISTORY)
    paths = {p for f in files.values() for p in f} | set(EDITS)
    total = 0

    def begin(at, pull=None, ignore=None):
        st = c.begin(at, EDITS, pull=pull)
        if ignore is not None: st = edit(st, {}, ignore)
        return st.setauto(said=())

    def same(label, cmd, x, st):
        rep.ob('unchanged', label)
        a, b = dict(x.auto['fs']), dict(st.auto['fs'])
        diff = sorted(show(p) for p in set(a) | set(b) if a.get(p) is not b.get(p) and not any(is_str(q) and 'lock' in str(cval(q)) for q in path_parts(p)))
        if diff: rep.violate('unchanged', CL, cmd, '%s: %s changes' % (label, diff[0]), x, key='unchanged files ' + cmd)
        if manifest(x) != manifest(st) or revision(x) != revision(st): rep.violate('unchanged', CL, cmd, '%s: the manifest or the recorded revision changes' % label, x, key='unchanged manifest ' + cmd)
        a, b = m.peek(x, 'server'), m.peek(st, 'server')
        if a['fs'] != b['fs'] or {r for r in a['db'][0] if r[0] not in ('tokens', 'session_tokens')} != {r for r in b['db'][0] if r[0] not in ('tokens', 'session_tokens')}:
            rep.violate('unchanged', CL, cmd, '%s: the repository changes' % label, x, key='unchanged repository ' + cmd)

    def run(label, cmd, st, argv, drop=None):
        nonlocal total
        total += 1
        r = c.go(st, argv, (), drop)
        for x, v in r: same(label, cmd, x, st)
        return r

    def shown(x): return printed(x.auto['said'])

    def exact(rule, cmd, label, x, want, got):
        if any(UNKNOWN in s for s in x.auto['said']): return
        rep.ob(rule, label)
        more = sorted(set(got) - set(want)); less = sorted(set(want) - set(got)); twice = sorted({g for g in got if got.count(g) > 1})
        say = lambda v: v if isinstance(v, str) else ' '.join(v)
        if less: rep.violate(rule, CL, cmd, '%s: %s is not shown' % (label, say(less[0])), x, key=rule + ' less')
        elif more: rep.violate(rule, CL, cmd, '%s: %s is shown' % (label, say(more[0])), x, key=rule + ' more')
        elif twice: rep.violate(rule, CL, cmd, '%s: %s is shown more than once' % (label, say(twice[0])), x, key=rule + ' twice')

    def asked(which): return {None: (), '-h': ('-h',)}.get(which) if which in (None, '-h') else ('--v', cval(oid(which)))

    def list_files(at, which, pull, i):
        argv = ('list-files',) + (('-i',) if i == 1 else ()) + asked(which) + (('-i',) if i == 2 else ())
        label = 'bvn %s at %s%s' % (' '.join(a if len(a) < 20 else '<id of %s>' % which for a in argv), at, ', pull-ignoring ' + pull if pull else '')
        rev = {None: at, '-h': HEAD}.get(which, which)
        want = [p for p in files[rev] if not i or pull and fnmatch.fnmatchcase(p, pull)]
        for x, v in run(label, 'list_remote_files', begin(at, pull), argv):
            if v is not None: rep.ob('files', label); rep.violate('files', CL, 'list_remote_files', '%s: it fails with %s' % (label, System.cause(v)), x, key='files fails'); continue
            exact('files', 'list_remote_files', label, x, want, [l for l in shown(x) if l in paths])

    def list_changes(at, which):
        argv = ('list-changes',) + asked(which)
        label = 'bvn %s at %s' % (' '.join(a if len(a) < 20 else '<id of %s>' % which for a in argv), at)
        rev = {None: at, '-h': HEAD}.get(which, which)
        want = [(k, p) for p, (f, k) in log[rev].items()]
        for x, v in run(label, 'list_changes_in_revision', begin(at), argv):
            if v is not None: rep.ob('changes', label); rep.violate('changes', CL, 'list_changes_in_revision', '%s: it fails with %s' % (label, System.cause(v)), x, key='changes fails'); continue
            got = []
            for l in shown(x):
                p = next((q for q in sorted(paths, key=len, reverse=True) if l.endswith(q) and (l == q or not l[-len(q) - 1].isalnum())), None)
                if p: got.append((next((k for k in ('new', 'changed', 'deleted') if re.search(r'\b%s\b' % k, l[:-len(p)])), '?'), p))
            exact('changes', 'list_changes_in_revision', label, x, want, got)

    def list_versions(at, empty):
        label = 'bvn list-versions at %s%s' % (at, ' of an empty repository' if empty else '')
        st = begin(at)
        if empty: st = m.poke(st, 'server', fs=frozenset(), db=((), ()))
        for x, v in run(label, 'list_versions', st, ('list-versions',)):
            rep.ob('versions', label)
            if v is not None: rep.violate('versions', CL, 'list_versions', '%s: it fails with %s' % (label, System.cause(v)), x, key='versions fails'); continue
            text = ''.join(x.auto['said'])
            if UNKNOWN in text: continue
            names = [] if empty else [n for n, f in HISTORY]
            at_ = [(text.find(cval(oid(n))), n) for n in names]
            if any(i < 0 or text.count(cval(oid(n))) > 1 for i, n in at_): rep.violate('versions', CL, 'list_versions', '%s: %s is not shown once' % (label, [n for i, n in at_ if i < 0 or text.count(cval(oid(n))) > 1][0]), x, key='versions missing'); continue
            if [n for i, n in sorted(at_)] != names: rep.violate('versions', CL, 'list_versions', '%s: the revisions are not in the order in which they were made' % label, x, key='versions order'); continue
            for (i, n), (j, _) in zip(at_, at_[1:] + [(len(text), None)]):
                for what in ('author of ', 'time of ', 'message of '):
                    if (what + n) not in text[i:j]: rep.violate('versions', CL, 'list_versions', '%s: %s%s is not shown with it' % (label, what, n), x, key='versions ' + what); break

    def ignored(at, ignore, pull):
        label = 'bvn list-ignored-files, ignoring %s, pull-ignoring %s' % (ignore and ignore.split(), pull)
        st = begin(at, pull, ignore)
        flt = (ignore or '').splitlines() + ([pull] if pull else [])
        want = [p for p in working(st) if p in paths and any(fnmatch.fnmatchcase(p, f) for f in flt)]
        for x, v in run(label, 'list_ignored_files', st, ('list-ignored-files',)):
            if v is not None: rep.ob('ignored', label); rep.violate('ignored', CL, 'list_ignored_files', '%s: it fails with %s' % (label, System.cause(v)), x, key='ignored fails'); continue
            exact('ignored', 'list_ignored_files', label, x, want, [l for l in shown(x) if l in paths])

    def refused(at, cmd, argv):
        label = 'bvn %s' % ' '.join(repr(a) if not a or a[0] == '0' else a for a in argv); rep.ob('refused', label)
        for x, v in run(label, cmd, begin(at), argv):
            got = [l for l in shown(x) if any(l.endswith(p) for p in paths)]
            if v is None: rep.violate('refused', CL, cmd, '%s: it does not fail' % label, x, key='refused ' + cmd)
            elif got: rep.violate('refused', CL, cmd, '%s: %s is shown' % (label, got[0]), x, key='refused shows ' + cmd)

    def cut(at, cmd, argv):
        n = 0
        while True:
            n += 1; hit = []
            for when in ('request', 'answer'):
                def drop(op, k, hd):
                    if k == n: hit.append(op); return when
                run('bvn %s cut off at the %s %d' % (argv[0], when, n), cmd, begin(at), argv, drop)
            if not hit: return

    jobs = [(list_files, (at, which, pull, i)) for at in ('K1', 'K2', HEAD) for which in (None, '-h', 'K1', HEAD) for pull in (None, '/d/*', '*ch') for i in (0, 1, 2) if i < 2 or which]
    jobs += [(list_changes, (at, which)) for at in ('K1', 'K2', HEAD) for which in (None, '-h', 'K1', 'K2', HEAD)]
    jobs += [(list_versions, a) for a in (('K1', False), (HEAD, False), ('root', False), ('root', True))]
    jobs += [(ignored, ('K2', i, p)) for i in (None, '*.tmp\n', '/big/*\n/d/*.tmp\n', '/same\n', '*', '/nothing\n\n/mine') for p in (None, '/d/*')]
    jobs += [(refused, ('K2', f, (k, '--v', bad))) for k, f in (('list-files', 'list_remote_files'), ('list-changes', 'list_changes_in_revision')) for bad in ('0' * 64, 'root')]
    jobs += [(refused, ('K2', f, (k,) + more)) for k, f in (('list-files', 'list_remote_files'), ('list-changes', 'list_changes_in_revision')) for more in (('--v',), ('-h', '--v', cval(oid('K1'))), ('--v', cval(oid('K1')), '-h'))]
    jobs += [(cut, ('K2', f, a)) for f, a in (('list_remote_files', ('list-files', '-h')), ('list_changes_in_revision', ('list-changes',)), ('list_versions', ('list-versions',)))]
    jobs += [(lambda at: run('bvn status at %s' % at, 'display_status', begin(at), ('status',)) and None, (at,)) for at in ('root', 'K1', HEAD)]

    def one(f, *a):
        nonlocal total
        total = 0; f(*a); return total
    rep.info['commands interpreted'] = sum(x or 0 for x in parallel(rep, c.eng, [(one, (f,) + a) for f, a in jobs]))
    return [c.eng]
