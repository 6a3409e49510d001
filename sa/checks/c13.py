"""C13: conflicts are settled by the user before anything is changed."""
import itertools, re
from .update import *

RULES = {
    'unresolved': 'while a conflict is unresolved an update changes no file of the working copy, no manifest entry and not the recorded revision',
    'server': "a conflict resolved to 'server' ends with the server's version of the file, or with its deletion",
    'client': "a conflict resolved to 'client' leaves the local state of the file alone",
    'others': 'the other changes of the server are applied and the other local changes are left alone, whatever the resolution',
    'refused': 'a resolution file that does not name exactly the conflicting paths, each with a valid choice, is refused',
}


def edited(text, choices):
    """fill in the resolution file: choices in the order of its blocks"""
    out = []; i = 0
    for line in text.split('\n'):
        if re.match(r'\s*resolution\s*:', line, re.I):
            if i < len(choices): line = line.rstrip() + ' ' + choices[i]
            i += 1
        out.append(line)
    return '\n'.join(out), i


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    c = Case(rep, tier); RES = ('bversion/client.py', 'resolve_update_conflicts')

    def untouched(label, fs, rows):
        """a watcher: nothing has changed"""
        st0 = start(c.mon, c.eng, fs, rows); w0 = working(st0); m0 = (manifest(st0), revision(st0))

        def watch(eng, st, node):
            rep.ob('unresolved', label + ': while it runs')
            w = working(st); loc = (eng.loc(node), eng.func.qual if eng.func else '?')
            for p in sorted(set(w) | set(w0)):
                if w.get(p) is not w0.get(p): rep.violate('unresolved', loc[0], loc[1], '%s: %s is %s although the conflicts are not resolved' % (label, p, 'removed' if p not in w else 'written'), st)
            if (manifest(st), revision(st)) != m0: rep.violate('unresolved', loc[0], loc[1], '%s: the %s changes although the conflicts are not resolved' % (label, 'recorded revision' if revision(st) != m0[1] else 'manifest'), st)
        return watch

    def final(label, states, choices):
        confl = c.conflicts()
        want = {p: c.resolved(p, choices.get(p)) for p in c.mon.paths}
        want = {p: v for p, v in want.items() if v is not None}
        for p in confl: rep.ob(choices[p], '%s: %s' % (label, p))
        rep.ob('others', label)
        for st in states:
            if revision(st) != 'C1': continue
            for p, how in differences(c, st, want):
                rule = choices[p] if p in confl else 'others'
                rep.violate(rule, AT[0], AT[1], '%s: %s %s' % (label, p, how) + (', although the conflict was resolved to %s' % choices[p] if p in confl else ''), st, key='%s:%s' % (rule, how if 'content' not in how else 'content'))
            man = manifest(st)
            for p in confl:
                sv = c.mon.changes('C0')[p]
                if choices[p] == 'server':
                    if sv[0] == 'deleted' and p in man: rep.violate('server', AT[0], AT[1], '%s: %s was deleted on the server, but is still in the manifest' % (label, p), st, key='server:manifest')
                    if sv[0] != 'deleted' and (p not in man or canon_str(man[p][1]) is not hash_of(sv[1])): rep.violate('server', AT[0], AT[1], "%s: the manifest does not record the server's version of %s" % (label, p), st, key='server:manifest')
                else:
                    w = working(st).get(p)
                    if w is not None and p in man and not isinstance(man[p][0], T) and man[p][0] == c.mon.when(wc(p), w): rep.violate('client', AT[0], AT[1], '%s: the local change of %s is no longer seen' % (label, p), st, key='client:hidden')
                    if w is None and value(p, c.mon.paths[p][0]) is not None and p not in man: rep.violate('client', AT[0], AT[1], '%s: the local deletion of %s is no longer seen' % (label, p), st, key='client:hidden')

    everything = dict(PULL, **GONE, **LOCAL, **CONF, **AGREE)
    sets = [('all kinds of changes', everything), ('changed back on the server', dict(CONF, **BACK, **LOCAL))] + [('only ' + p, {p: t, '/same': LOCAL['/same']}) for p, t in list(CONF.items()) + list(BACK.items())]
    decided = 0
    for name, paths in sets:
        fs, rows = c.begin(paths); confl = c.conflicts(); big = len(paths) > 2
        for choice in ('server', 'client', 'SERVER', 'Client'):
            label = '%s, answer %s' % (name, choice)
            st, X = c.go(label, fs, rows, [choice])
            done = [s for s in st if revision(s) == 'C1']; decided += len(done)
            final(label, st, {p: choice.lower() for p in confl})
        # invalid answers are asked again; without an answer nothing happens
        label = name + ', no valid answer'
        st, X = c.go(label, fs, rows, ['', 'yes', 'both'], watch=untouched(label, fs, rows))
        label = name + ', invalid answer, then server'
        st, X = c.go(label, fs, rows, ['neither', 'server']); final(label, st, {p: 'server' for p in confl})
        # manual
        files = []
        for dl in ('y', 'n', 'Y'):
            label = '%s, answer manual, download %s' % (name, dl)
            rep.ob('unresolved', label)
            st, X = c.go(label, fs, rows, ['manual', dl], watch=untouched(label, fs, rows))
            for s in st: rep.violate('unresolved', RES[0], RES[1], '%s: the update goes on' % label, s) if revision(s) == 'C1' else None
            files += [(s, dl) for s in st + [x for x, _ in X]]
        if big: 
            for bad in (FAIL, BROKEN):
                label = '%s, answer manual, the download fails' % name
                c.go(label, fs, rows, ['manual', 'y'], refuse={'pull_file': bad}, watch=untouched(label, fs, rows))
            label = '%s, answer manual, a local operation fails' % name
            c.go(label, fs, rows, ['manual', 'y'], errors=1, watch=untouched(label, fs, rows))
        # the resolution file of the manual choice, filled in
        seen = set()
        for s, dl in files:
            t = dict(s.auto['fs']).get(wc('/.bvn/conflict_resolution'))
            if t is None: continue
            if not is_str(t): rep.info['resolution file'] = 'not decided'; continue
            if s.auto['fs'] in seen: continue
            seen.add(s.auto['fs'])
            text = cval(t) if isinstance(cval(t), str) else cval(t).decode()
            blocks = edited(text, [])[1]
            if blocks != len(confl): rep.violate('refused', RES[0], RES[1], '%s: the resolution file has %d entries for %d conflicts' % (name, blocks, len(confl)), s); continue
            order = sorted(confl, key=lambda p: text.find(p + '\n') if p + '\n' in text else text.find(p))
            def with_file(content):
                f = dict(s.auto['fs']); f[wc('/.bvn/conflict_resolution')] = const(content.encode())
                return frozenset(f.items())
            if dl != 'y' and big: continue
            for ch in itertools.product(('client', 'server'), repeat=blocks):
                if big and tier != 'thorough' and len(set(ch)) == 2 and ch[0] == ch[1] == ch[-1]: continue
                label = '%s, resolution file %s' % (name, '/'.join(ch))
                st, X = c.go(label, with_file(edited(text, ch)[0]), s.auto['db'][0])
                for x, e in X: rep.violate('refused', RES[0], RES[1], '%s: a complete resolution file is refused: %s' % (label, show(e)[:80]), x, key='refused:complete')
                final(label, st, dict(zip(order, ch)))
                # what the update leaves behind settles no later conflict
                for x in st:
                    if revision(x) != 'C1': continue
                    left = frozenset((p, v) for p, v in x.auto['fs'] if p not in dict(fs) and tuple(path_parts(p))[:2] == tuple(path_parts(wc('/.bvn')))[:2])
                    if left and left not in seen:
                        seen.add(left)
                        again = fs | left; lb = label + ', then the same conflicts again'
                        rep.ob('unresolved', lb)
                        c.go(lb, again, rows, [], watch=untouched(lb, again, rows))
            good = ['client', 'server'] * blocks
            bad = [('unfilled', edited(text, [])[0]), ('an invalid choice', edited(text, ['both'] + good)[0]), ('an invalid last choice', edited(text, good[:blocks - 1] + ['clients'])[0]), ('one entry unfilled', edited(text, [''] + good)[0])]
            if blocks > 1: bad.append(('the last entry unfilled', edited(text, good[:blocks - 1])[0]))
            full = edited(text, good)[0]
            for p in (order if tier == 'thorough' else order[:1] + order[-1:]): bad.append(('another path instead of ' + p, full.replace(p + '\n', p + 'x\n', 1)))
            seps = [i for i, l in enumerate(full.split('\n')) if l and set(l) == {'-'}]
            if seps and len(seps) == blocks:
                lines = full.split('\n'); one = lines[seps[-1]:]
                bad.append(('an additional entry', '\n'.join(lines + [l.replace(order[-1], '/other') for l in one])))
                if blocks > 1: bad += [('the last entry missing', '\n'.join(lines[:seps[-1]])), ('the first entry missing', '\n'.join(lines[:seps[0]] + lines[seps[1]:]))]
                bad.append(('no entry', '\n'.join(lines[:seps[0]])))
            bad.append(('empty', ''))
            for what, txt in bad:
                label = '%s, resolution file with %s' % (name, what)
                f = with_file(txt); rep.ob('refused', label)
                st, X = c.go(label, f, s.auto['db'][0], ['server'], watch=untouched(label, f, s.auto['db'][0]))
                for x in st: rep.violate('refused', RES[0], RES[1], '%s: the update ends normally' % label, x, key='refused:' + what.split(' /')[0])
    if not decided: raise AnalysisBroken('no update with conflicts ends normally')
    rep.info['scenarios'] = c.total
    return [c.eng]
