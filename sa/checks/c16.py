"""C16: every mutation of the working copy can be undone from the durable journal at every instant."""
from .journal import *

RULES = {
    'undoable': 'wherever a transaction stops, the next one finds the working copy as it was before (recovery from the durable journal and the preserved content, whatever an earlier transaction left behind)',
    'rollback': 'rolling back a transaction restores the working copy',
    'effect': 'a completed operation has the effect it is meant to have',
}


def sequences(tier):
    one = [(o,) for o in OPS]
    two = [(a, b) for a in OPS for b in OPS if 'puts' not in (a[0], b[0])]
    three = [(a, b, c) for a in OPS for b in OPS for c in OPS if 'puts' not in (a[0], b[0], c[0])] if tier == 'thorough' else []
    return one + two + three


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    d = Driver(rep); done = {}

    def recovered(fs, rows):
        k = (fs, rows)
        if k not in done:
            done[k] = d.recover(fs, rows); d.snapshots()
        return done[k]
    n = 0
    for init in initial():
        for left in (frozenset(), LEFT):
            for seq in sequences(tier):
                if left and len(seq) > 1 and tier != 'thorough': continue
                if not canonical(init, seq): continue
                want = init; wants = []
                for o in seq:
                    want = effect(want, o) if want is not None else None; wants.append(want)
                missing = want is None
                if missing and (None in wants[:-1] or left): continue
                name = 'after ' + ', '.join(text(o) for o in seq)
                cur = [(st, j) for st, cdb, j in d.open(init | left, ())]
                base = cur[0][0].auto['db'][0]
                cur = [(s, j) for st, j in cur for s, _ in d.call(st, j, 'begin', [])[0]]
                d.snapshots()
                failed = None; fails = []
                for o in seq:
                    nxt = []
                    for st, j in cur:
                        rets, exc = d.op(st, j, o)
                        nxt += [(s, j) for s, _ in rets]
                        if exc: failed = exc[0][0]; fails += [(s, j) for s, _ in exc]
                    cur = nxt
                if missing:
                    rep.ob('effect', text(seq[-1]) + ' that does not exist')
                    if cur or failed is None: rep.violate('effect', LOC, text(seq[-1]), 'the operation succeeds although its source does not exist', failed, key=text(seq[-1]) + 'missing'); continue
                    for s in fails: cur.append((s[0], s[1]))
                elif failed is not None or not cur:
                    rep.violate('effect', LOC, text(seq[-1]), 'the operation fails although its source exists', failed, key=text(seq[-1]) + 'fails'); continue
                for st, j in cur:
                    rep.ob('effect', text(seq[-1]))
                    if not missing and tracked(d.mon.fs(st)) != want: rep.violate('effect', LOC, text(seq[-1]), 'the operation does not have its effect on the working copy', st, key=text(seq[-1]))
                    rets, exc = d.call(st, j, 'rollback', [])
                    rep.ob('rollback', name)
                    if exc and not rets: rep.violate('rollback', LOC, 'rollback', name + ': rolling back fails', exc[0][0], key=name)
                    for s, _ in rets:
                        if tracked(d.mon.fs(s)) != init: rep.violate('rollback', LOC, 'rollback', name + ': rolling back does not restore the working copy', s, key=text(seq[-1]))
                for fs, rows, loc, func, what, st, ph in d.snapshots():
                    n += 1
                    rep.ob('undoable', '%s %s' % (func, loc))
                    for r in recovered(fs, rows):
                        if r is None: rep.violate('undoable', loc, func, 'stopped while %s (%s): recovery fails' % (what, name[6:]), st, key='%s %s fails' % (loc, seq[-1][0]))
                        elif tracked(r[0]) != init: rep.violate('undoable', loc, func, 'stopped while %s (%s): recovery does not restore the working copy' % (what, name[6:]), st, key='%s %s' % (loc, seq[-1][0]))
    rep.info['stopping_points'] = n; rep.info['recoveries'] = len(done)
    return [d.eng]
