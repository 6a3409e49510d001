"""C20: pull-ignored files are left out of the working copy and left alone on the server."""
import fnmatch
from .update import *

RULES = {
    'fetch': 'no update or revert requests a file that matches a pull-ignore filter',
    'write': 'no update or revert writes a file that matches a pull-ignore filter',
    'upload': 'no commit uploads a file that matches a pull-ignore filter, nor deletes one on the server that is not recorded here',
    'left alone': 'after bvn pull-ignore no command fetches, uploads or deletes the files that match, and the others are still treated as before',
    'considered': 'a revert restores exactly the files of the revision that match the filters given and are not pull-ignored',
    'recorded': 'files restored to the revision held are recorded as unchanged, files restored to another one stay local changes',
    'restored': 'a confirmed revert gives each of these files the content of the revision',
}
RV = ('bversion/client.py', 'revert')
BIG = {'/big/new': (None, 1, None), '/big/d/ch': (0, 1, 'never'), '/big/del': (0, None, 'never'), '/big/kept': (0, 0, 'kept'), '/big/kept ch': (0, 1, 'kept'), '/big/local': (None, None, 'kept'), '/big/same': (0, 0, 'never'), '/big/back': (0, 'back', 'never'), '/big/local too': (None, 1, 'kept')}
OTHER = {'/x.iso': (None, 1, None), '/d/y.iso': (0, 1, 'never'), '/d/z.iso': (None, None, 'kept'), '/exact/one': (0, 1, 'kept'), '/last': (None, 1, None), '/first/a': (None, 1, None), '/d/q1.bin': (0, 1, 'never')}
NEAR = {'/bigger': (None, 1, None), '/d/big/x': (0, 1, 0), '/x.iso.txt': (None, 1, None), '/exact/one more': (0, 1, 0), '/exact/on': (None, None, 'mine'), '/latest': (None, None, 'mine'), '/d/q12.bin': (0, 1, 0)}
CASES = [('one directory', '/big/*\n', BIG), ('one directory, no line end', '/big/*', BIG), ('several filters', '/first/*\n/big/*\n\n*.iso\n/exact/one\n/d/q?.bin\n/last', dict(BIG, **OTHER)), ('other line ends', '/first/*\r\n/big/*\r\n*.iso\r\n/exact/one\r\n/d/q[0-9].bin\r\n/last\r\n', dict(BIG, **OTHER)),
         ('everything', '*', dict(BIG, **OTHER))]


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    c = Case(rep, tier); m = c.mon; decided = 0
    AT20 = ('bversion/client.py', 'update')

    def hidden(filters): return lambda p: any(fnmatch.fnmatchcase(p, f) for f in filters.splitlines())

    def requests(st, *ops): return [(o, dict(h), dict(b)) for o, h, b in st.auto['net'] if o in ops]

    def fetched(label, st, hid, rule='fetch', loc=AT20):
        rep.ob(rule, label)
        for o, h, b in requests(st, 'pull_file'):
            p = cval(h['path']) if is_str(h.get('path', NONE)) else None
            if p is not None and hid(p): rep.violate(rule, loc[0], loc[1], '%s: the pull-ignored file %s is fetched' % (label, p), st, key=rule + ':fetch')

    def uploaded(label, st, hid, rule='upload', recorded=()):
        rep.ob(rule, label)
        for o, h, b in requests(st, 'push_file'):
            p = cval(h['path']) if is_str(h.get('path', NONE)) else None
            if p is not None and hid(p): rep.violate(rule, 'bversion/client.py', 'commit', '%s: the pull-ignored file %s is uploaded' % (label, p), st, key=rule + ':push')
        for o, h, b in requests(st, 'delete_files'):
            d = parse(b.get('files', NONE))
            for x in d if isinstance(d, list) else ():
                p = x.get('path') if isinstance(x, dict) else None
                if isinstance(p, str) and hid(p) and p not in recorded: rep.violate(rule, 'bversion/client.py', 'commit', '%s: the pull-ignored file %s is deleted on the server' % (label, p), st, key=rule + ':delete')

    def watcher(label, hid, initial, rule='write'):
        changes = m.changes('C0')
        def watch(eng, st, node):
            now = working(st)
            rep.ob(rule, label)
            for p in set(initial) | set(now):
                if p.startswith('/.bvn') or not hid(p): continue
                if now.get(p) is initial.get(p): continue
                if p not in now and changes.get(p, ('',))[0] == 'deleted': continue
                rep.violate(rule, eng.loc(node), eng.func.qual if eng.func else '?', '%s: the pull-ignored file %s is %s' % (label, p, 'removed' if p not in now else 'written'), st, key=rule + ':' + ('rm' if p not in now else 'wr'))
        return watch

    # 1. update and commit
    for name, flt, ign in CASES:
        hid = hidden(flt); rest = {} if flt == '*' else dict(PULL, **GONE, **LOCAL, **AGREE, **NEAR)
        for conf in ({}, CONF) if flt != '*' else ({},):
            fs, rows = c.begin(dict(rest, **ign, **conf), flt); initial = working_fs(fs)
            for argv in (('update',), ('update', '-f')):
                for choice in ('server', 'client') if conf else (None,):
                    label = '%s, bvn %s%s' % (name, ' '.join(argv), ', conflicts resolved to ' + choice if choice else '')
                    st, X = c.go(label, fs, rows, [choice] if choice else (), argv=argv, watch=watcher(label, hid, initial))
                    for x in st + [x for x, _ in X]: fetched(label, x, hid)
                    for x in st:
                        if revision(x) == 'C1': decided += 1
                        # and the commit after it
                        lb = label + ', then bvn commit'
                        st2, X2 = c.go(lb, x.auto['fs'], x.auto['db'][0], argv=('commit',), watch=watcher(lb, hid, working(x)))
                        for y in st2 + [y for y, _ in X2]: uploaded(lb, y, hid); fetched(lb, y, hid)
        label = '%s, bvn commit' % name; st, X = c.go(label, fs, rows, argv=('commit',), watch=watcher(label, hid, initial))
        for x in st + [x for x, _ in X]: uploaded(label, x, hid)
    if not decided: raise AnalysisBroken('no update ends normally')

    # 2. revert
    n = 0
    for name, flt, ign in CASES:
        hid = hidden(flt); fs, rows = c.begin(dict({} if flt == '*' else dict(PULL, **GONE, **LOCAL, **AGREE, **NEAR, **CONF), **ign), flt); initial = working_fs(fs)
        for argv, idx, filters in ((('--all',), 0, None), (('--v', 'C1', '--all'), 1, None), (('-h', '--all'), 1, None), (('--all', '-h'), 1, None), (('*',), 0, ['*']), (('/d/*',), 0, ['/d/*']), (('-h', '*'), 1, ['*']), (('--v', 'C1', '/d/*', '/big/*'), 1, ['/d/*', '/big/*']), (('--v', 'C0', '/big/d/ch', '/l-ch'), 0, ['/big/d/ch', '/l-ch']),
                                   (('s-*', 'big/*', 'c-dc'), 0, ['/s-*', '/big/*', '/c-dc']), (('/nothing',), 0, ['/nothing']), (('l-del',), 0, ['/l-del'])):
            rev = {p: value(p, t[idx]) for p, t in m.paths.items() if value(p, t[idx]) is not None}
            want = {p: v for p, v in rev.items() if not hid(p) and (filters is None or any(fnmatch.fnmatchcase(p, f) for f in filters))}
            for refuse in (None, 'pull'):
                label = '%s, bvn revert %s%s' % (name, ' '.join(argv), ', one file refused' if refuse else '')
                if refuse and not want: continue
                bad = sorted(want)[len(want) // 2] if refuse else None
                st, X = c.go(label, fs, rows, ['yes'], {('pull_file', bad): FAIL} if bad else None, argv=('revert',) + argv, watch=watcher(label, hid, initial))
                for x in st + [x for x, _ in X]: fetched(label, x, hid, loc=RV)
                for x in st:
                    n += 1; rep.ob('considered', label); rep.ob('restored', label); now = working(x)
                    for p in sorted(set(initial) | set(now) | set(want)):
                        if p.startswith('/.bvn') or p == bad or hid(p) and p in initial and now.get(p) is not initial[p]: continue
                        if p in want:
                            if now.get(p) is not want[p]: rep.violate('restored', RV[0], RV[1], '%s: %s %s' % (label, p, 'is missing' if p not in now else 'is cut short' if now[p] is PART else 'still has its earlier content' if now[p] is initial.get(p) else 'has %s' % show(now[p])), x, key='restored:' + ('missing' if p not in now else 'other'))
                        elif now.get(p) is not initial.get(p):
                            if '--all' in argv and p not in now and p not in rev and p in m.paths and m.paths[p][0] is not None: continue       # announced as to be deleted
                            rep.violate('considered', RV[0], RV[1], '%s: %s is %s, which is not one of the files to revert' % (label, p, 'removed' if p not in now else 'written'), x, key='considered')
                    man = manifest(x); rep.ob('recorded', label)
                    for p, v in want.items():
                        if p == bad or now.get(p) is not v: continue
                        seen = p in man and not isinstance(man[p][0], T) and man[p][0] == m.when(wc(p), v)
                        held = value(p, m.paths[p][0])
                        if seen and (v is not held or canon_str(man[p][1]) is not hash_of(v)): rep.violate('recorded', RV[0], RV[1], '%s: %s now has another content than in the revision held, but is recorded as unchanged' % (label, p), x, key='recorded:hidden')
                        elif idx == 0 and not seen: rep.violate('recorded', RV[0], RV[1], '%s: %s has been restored to the revision held, but is taken for a local change' % (label, p), x, key='recorded:change')
                for x, e in X:
                    if not want and e.op == 'exc' and e.args[0] == 'SystemExit': continue
                    if e.op == 'exc' and e.args[0] == 'EOFError': continue
                    rep.violate('restored', RV[0], RV[1], '%s: it ends with %s' % (label, show(e)[:100]), x, key='restored:raises')
    if not n: raise AnalysisBroken('no revert ends normally')

    # 3. after bvn pull-ignore
    TRACKED = {'/big/a': (0, 1, 0), '/big/d/b': (0, 0, 0), '/big/c': (0, 'back', 0), '/d/v.iso': (0, 1, 0)}
    n = 0
    for args, flt in ((['/big/*'], '/big/*'), (['/big/*', '*.iso'], '/big/*\n*.iso'), (['big/*'], '/big/*'), (['*.iso'], '*.iso')):
        for before in (None, '/none\n', '/none', '/big/d/*'):
            if before and tier != 'thorough' and args != (['*.iso'] if before == '/big/d/*' else ['/big/*', '*.iso']): continue
            hid = hidden(flt + '\n' + (before or '')); fs, rows = c.begin(dict(PULL, **dict({p: t[:2] + ('kept',) if before and hidden(before)(p) else t for p, t in TRACKED.items()}, **NEAR)), before)
            for ans in ('delete', 'nothing'):
                label = 'bvn pull-ignore -f %s, answer %s%s' % (' '.join(args), ans, ', some filters before' if before else '')
                st, X = c.go(label, fs, rows, [ans], argv=['pull-ignore', '-f'] + args)
                for x in st:
                    for cmds in ((('update',), ('commit',)), (('update', '-f'), ('commit',)), (('commit',),), (('revert', '--all'),), (('update',), ('revert', '-h', '*')), (('update', '-f'), ('update', '-f'))):
                        f, d = x.auto['fs'], x.auto['db'][0]; lb = label
                        for argv in cmds:
                            lb += ', then bvn ' + ' '.join(argv); n += 1
                            st2, X2 = c.go(lb, f, d, ['yes'], argv=argv, watch=watcher(lb, hid, working_fs(f), 'left alone'))
                            for y in st2 + [y for y, _ in X2]: fetched(lb, y, hid, 'left alone'); uploaded(lb, y, hid, 'left alone')
                            if len(st2) != 1: break
                            f, d = st2[0].auto['fs'], st2[0].auto['db'][0]
                            if argv[0] == 'update' and revision(st2[0]) == 'C1':
                                now = working(st2[0])
                                for p, v in [(p, c.resolved(p, 'client')) for p in m.paths]:
                                    if not hid(p) and now.get(p) is not v: rep.violate('left alone', AT20[0], AT20[1], '%s: %s, which is not pull-ignored, is not brought up to date' % (lb, p), st2[0], key='left alone:others')
    if not n: raise AnalysisBroken('bvn pull-ignore never ends normally')
    rep.info['scenarios'] = c.total
    return [c.eng]
