"""C18: a working-copy file and its manifest entry change together or not at all."""
from .journal import *

RULES = {
    'together': 'wherever an operation stops, after recovery file and manifest are both in the old or both in the new state',
    'error': 'an operation in which anything fails restores the file, discards the manifest change and reports the error',
    'success': 'an operation that returns has changed file and manifest durably, and nothing is left pending',
}
FLOC = 'bversion/storage/client_filesystem_interface.py'
HASH = T_('server_hash')
CASES = [('fs_put', 'p'), ('fs_put w', 'p'), ('fs_move', 'p', 'q'), ('fs_delete', 'p')]


def rowset(init):
    """manifest rows for the files of the initial state, and the description of the working copy"""
    h = {FULL['p']: T_('hash_p'), FULL['q']: T_('hash_q')}; n = {FULL[x]: NAMES[x] for x in NAMES}
    rows = [('meta', 1, frozenset([('have_revision', const('root')), ('format_version', const('3'))]))]
    for i, p in enumerate(sorted(dict(init), key=show)):
        rows.append(('files', i + 1, frozenset([('path', n[p]), ('last_mod', T_('old_mod')), ('created', T_('old_created')), ('server_file_hash', h[p])])))
    return tuple(rows)


def wanted(init, rows, case):
    k, names = case[0], case[1:]
    man = dict(manifest(rows))
    if k.startswith('fs_put'):
        man[NAMES['p']] = HASH
        return effect(init, ('put', 'p')), frozenset(man.items())
    if k == 'fs_move':
        fs = effect(init, ('move', 'p', 'q'))
        if fs is not None: man[NAMES['q']] = man.pop(NAMES['p'])
        return fs, frozenset(man.items())
    man.pop(NAMES['p'], None)
    return effect(init, ('del', 'p')), frozenset(man.items())


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    d = Driver(rep); n = 0; memo = {}
    bound = 3 if tier == 'thorough' else 2

    def recovered(fs, rows):
        if (fs, rows) not in memo: memo[(fs, rows)] = d.recover(fs, rows); d.snapshots()
        return memo[(fs, rows)]
    state = lambda fs, rows: (tracked(fs), manifest(rows))
    for init in initial():
        rows = rowset(init)
        for left in (frozenset(), LEFT) if tier == 'thorough' else (LEFT,):
            for case in CASES:
                old = (init, manifest(rows)); want, man = wanted(init, rows, case)
                new = (want, man) if want is not None else old
                k = case[0].split()[0]; name = '%s%s' % (k, '' if want is not None else ' of a file that does not exist')
                for st, cdb, o in d.open(init | left, rows, top=True):
                    d.snapshots(); d.mon.errors = bound
                    a = [NAMES[x] for x in case[1:]]; s = st
                    if k == 'fs_put':
                        s, extra = obj(s, 'extra', H(DICT, [(const('server_file_hash'), HASH)]))
                        rets, exc = d.call(s, o, k, [a[0], mk('ext', 'writer') if case[0] != k else NEW], {'additional_manifest_data': extra})
                    else: rets, exc = d.call(s, o, k, a)
                    d.mon.errors = 0
                    snaps = d.snapshots()
                    if not rets and want is not None: rep.violate('success', FLOC, k, name + ' never succeeds', st, key=k)
                    for x, v in rets:
                        dur, pend = x.auto['db']; f = x.auto.get('faults', 0)
                        rep.ob('success', name)
                        if want is None: rep.violate('error', FLOC, k, name + ' is reported as success', x, key=k + 'missing'); continue
                        if state(x.auto['fs'], dur) != new:
                            rep.violate('error' if f else 'success', FLOC, k, name + (': an error is not reported' if f else ' returns without having changed both file and manifest durably'), x, key='%s%d' % (k, bool(f)))
                        elif journal(dur): rep.violate('success', FLOC, k, name + ' returns with an open transaction', x, key=k + 'open')
                        elif dur != pend: rep.violate('success', FLOC, k, name + ' returns with manifest changes that are not durable', x, key=k + 'pending')
                    for x, e in exc:
                        f = x.auto.get('faults', 0); dur, pend = x.auto['db']
                        rep.ob('error', name)
                        if f > 1: snaps.append((x.auto['fs'], dur, FLOC, k, 'rolling back fails as well', x, '')); continue
                        if f == 0 and want is not None: rep.violate('success', FLOC, k, name + ' fails although nothing went wrong', x, key=k + 'fails'); continue
                        got = state(x.auto['fs'], dur)
                        if got not in (old, new): rep.violate('error', FLOC, k, name + ': after an error %s' % ('the file is not restored' if got[0] != init else 'the manifest is not restored'), x, key='%s %d' % (k, got[0] != init))
                        elif got == old and dur != pend: rep.violate('error', FLOC, k, name + ': after an error the manifest change is still pending', x, key=k + 'pending')
                        elif journal(dur) and not f: rep.violate('error', FLOC, k, name + ': the transaction is still open after an error', x, key=k + 'open')
                    for fs, rw, loc, func, what, x, ph in snaps:
                        n += 1
                        rep.ob('together', '%s %s' % (func, loc))
                        for r in recovered(fs, rw):
                            if r is None: rep.violate('together', loc, func, '%s stopped while %s: recovery fails' % (name, what), x, key='%s %s fails' % (loc, k))
                            elif state(*r) not in (old, new): rep.violate('together', loc, func, '%s stopped while %s: file and manifest do not agree after recovery' % (name, what), x, key='%s %s' % (loc, k))
    rep.info['stopping_points'] = n; rep.info['recoveries'] = len(memo)
    return [d.eng]
