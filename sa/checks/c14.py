"""C14: an update records a revision only when all of it has been applied."""
from .update import *

RULES = {
    'complete': 'whenever the revision is recorded as held, every file it adds or changes is in place with its content and every file it deletes is gone',
    'recorded': 'the manifest describes the fetched files as they were stored',
    'incomplete': 'an update during which something could not be fetched or stored leaves the recorded revision as it was',
    'retry': 'the next update, from whatever an incomplete or interrupted one left behind, completes the revision and keeps the local changes',
}


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    c = Case(rep, tier); m = c.mon
    BIG = {'/big/s-new': (None, 1, None), '/big/d/s-ch': (0, 1, 'never'), '/big/s-del': (0, None, 'never'), '/big/had': (0, 1, 'never')}

    def exempt(p): return p.startswith('/big/')

    def wanted():
        return {p: v for p, v in ((p, c.resolved(p, None)) for p in m.paths) if v is not None}

    def complete(label, st, loc=AT, extra=''):
        """judge a state in which the revision is recorded"""
        rep.ob('complete', label)
        for p, how in differences(c, st, wanted()):
            if exempt(p) or p in LOCAL or p not in m.paths: continue
            rep.violate('complete', loc[0], loc[1], '%s: the revision is recorded although %s %s%s' % (label, p, how, extra), st, key='complete:' + how.split(' ')[0])

    def consistent(label, st):
        rep.ob('recorded', label)
        now = working(st); man = manifest(st); sv = m.changes('C0')
        for p, (s, v) in sorted(sv.items()):
            if exempt(p): continue
            if s == 'deleted':
                if p in man and p not in AGREE and revision(st) == 'C1': rep.violate('recorded', AT[0], AT[1], '%s: %s was deleted on the server, but is still in the manifest' % (label, p), st, key='recorded:deleted')
                continue
            if now.get(p) is not v: continue
            if p not in man: rep.violate('recorded', AT[0], AT[1], '%s: %s has been fetched, but is not in the manifest' % (label, p), st, key='recorded:missing'); continue
            lm, h = man[p]
            if canon_str(h) is not hash_of(v): rep.violate('recorded', AT[0], AT[1], '%s: the manifest records %s for %s instead of the hash of what was fetched' % (label, show(h)[:60], p), st, key='recorded:hash')
            w = m.when(wc(p), v)
            if not isinstance(lm, T) and w is not None and lm != w: rep.violate('recorded', AT[0], AT[1], '%s: the manifest records another modification time for %s than the file has' % (label, p), st, key='recorded:time')

    def watcher(label):
        def watch(eng, st, node):
            if revision(st) == 'C1': complete(label + ', while it runs', st, (eng.loc(node), eng.func.qual if eng.func else '?'))
        return watch

    everything = dict(PULL, **GONE, **LOCAL, **AGREE, **BIG)
    small = {p: PULL[p] for p in ('/s-new', '/d/s-ch')}
    sets = [('all kinds of changes', everything), ('two files to fetch', dict(small, **{'/same': LOCAL['/same']})), ('one deletion', {'/s-del': GONE['/s-del'], '/same': LOCAL['/same']}),
            ('nothing to fetch', dict(LOCAL)), ('only ignored files to fetch', dict(BIG, **{'/same': LOCAL['/same']}))]
    decided = 0; total = 0
    for name, paths in sets:
        fs, rows = c.begin(paths, '/big/*\n'); pulled = [p for p, (s, v) in sorted(m.changes('C0').items()) if s != 'deleted' and not exempt(p)]
        for argv in (('update',), ('update', '-f')):
            label = '%s, bvn %s' % (name, ' '.join(argv)); first = argv == ('update',)
            st, X = c.go(label, fs, rows, argv=argv, watch=watcher(label))
            for x in st:
                if revision(x) == 'C1': decided += 1; complete(label, x); consistent(label, x)
                for p, v in wanted().items():
                    if p in LOCAL and working(x).get(p) is not v: rep.violate('complete', AT[0], AT[1], '%s: the local change of %s is lost' % (label, p), x, key='complete:local')
            # ---- what goes wrong on the way
            faults = []
            for bad in (FAIL, BROKEN):
                faults += [({('pull_file', p): bad}, '%s of %s' % ('refusal' if bad is FAIL else 'connection breaks at the request', p)) for p in pulled]
                if len(pulled) > 1: faults.append(({'pull_file': bad}, 'refusal of every file' if bad is FAIL else 'connection breaks at the first request'))
                faults.append(({'find_changed': bad}, 'refusal of the comparison' if bad is FAIL else 'connection breaks at the comparison'))
            faults += [({('download', p): 1}, 'connection breaks in the middle of %s' % p) for p in pulled]
            if not first and tier != 'thorough': faults = faults[:len(pulled)]
            left = {}
            for refuse, what in faults:
                lb = '%s, %s' % (label, what); rep.ob('incomplete', lb)
                st, X = c.go(lb, fs, rows, argv=argv, refuse=refuse, watch=watcher(lb))
                for x in st + [x for x, _ in X]:
                    if revision(x) == 'C1': rep.violate('incomplete', AT[0], AT[1], '%s: the revision is recorded' % lb, x, key='incomplete:refused')
                    left.setdefault((x.auto['fs'], x.auto['db'][0]), what)
                if first:
                    for f, d, loc, func, w, sx, ph in m.snaps: left.setdefault((f, d), 'stop at %s' % loc)
            if first:
                lb = label + ', a local operation fails'
                st, X = c.go(lb, fs, rows, argv=argv, errors=1, watch=watcher(lb))
                for x in st + [x for x, _ in X]:
                    if revision(x) == 'C1': complete(lb, x); consistent(lb, x)
                    left.setdefault((x.auto['fs'], x.auto['db'][0]), 'a local operation fails')
                st, X = c.go(label, fs, rows, argv=argv)
                for f, d, loc, func, w, sx, ph in m.snaps: left.setdefault((f, d), 'stop at %s' % loc)
            # ---- and the update after it
            n = 0
            for (f, d), what in list(left.items()):
                n += 1; total += 1
                if tier != 'thorough' and n > 120: break
                lb = '%s, %s, then another update' % (label, what); rep.ob('retry', lb)
                st, X = c.go(lb, f, d, ['server'] * 3, argv=('update',), watch=watcher(lb))
                for x, e in X:
                    if e.op == 'exc' and e.args[0] == 'EOFError': continue
                    rep.violate('retry', AT[0], AT[1], '%s: it ends with %s' % (lb, show(e)[:100]), x, key='retry:raises')
                for x in st:
                    if revision(x) != 'C1':
                        if m.changes('C0'): rep.violate('retry', AT[0], AT[1], '%s: the revision is not reached' % lb, x, key='retry:revision')
                        continue
                    complete(lb, x); consistent(lb, x)
                    for p, v in wanted().items():
                        if p in LOCAL and working(x).get(p) is not v: rep.violate('retry', AT[0], AT[1], '%s: the local change of %s is lost' % (lb, p), x, key='retry:local')
    if not decided: raise AnalysisBroken('no update ends normally with the revision recorded')
    rep.info['scenarios'] = c.total; rep.info['continued after interruption'] = total
    return [c.eng]
