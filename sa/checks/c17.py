"""C17: an interrupted transaction is rolled back completely before the next one."""
from .journal import *

RULES = {
    'recovery': 'a recovery that returns has restored the working copy and left no journal entry, also if an operation failed during it',
    'restartable': 'wherever a recovery stops or fails, the next one still restores the working copy',
    'finish': 'a transaction stopped while finishing is afterwards either finished or undone as a whole',
    'finished': 'a finished transaction has its effect and leaves no journal entry',
}


def sequences(tier):
    one = [(o,) for o in OPS]
    two = [(a, b) for a in OPS for b in OPS if 'puts' not in (a[0], b[0])]
    return one + (two if tier == 'thorough' else [(a, b) for a, b in two if a[-1] == b[1] or a[0] == 'move'])


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    d = Driver(rep); depth = 3 if tier == 'thorough' else 1
    n = [0]; memo = {}

    def begin(fs, rows):
        """recovery with every stop and every failing operation: ([(files, rows)] of returns, [stops])"""
        if (fs, rows) not in memo:
            d.mon.errors = 0; done = []; fails = []
            for st, cdb, j in d.open(fs, rows):
                d.snapshots(); d.mon.errors = 1
                rets, exc = d.call(st, j, 'begin', [])
                done += [(s.auto['fs'], s.auto['db'][0], s) for s, _ in rets]
                fails += [(s.auto['fs'], s.auto['db'][0], LOC, 'begin', 'an operation fails', s, '') for s, e in exc if e.op == 'exc' and e.args[1] is const('injected')]
                hard = [(s, e) for s, e in exc if not (e.op == 'exc' and e.args[1] is const('injected'))]
                if hard: done.append((None, hard[0][1], hard[0][0]))
                d.mon.errors = 0
            memo[(fs, rows)] = done, d.snapshots() + fails
        return memo[(fs, rows)]

    def explore(points, allowed, name, rule, op):
        seen = set(); todo = [(p, 0) for p in points]
        while todo:
            (fs, rows, loc, func, what, st, ph), k = todo.pop(0)
            if (fs, rows) in seen: continue
            seen.add((fs, rows)); n[0] += 1
            done, stops = begin(fs, rows)
            where = '%s, then stopped while %s' % (name, what) if k == 0 else '%s, interrupted, and recovery stopped while %s' % (name, what)
            r = rule if k == 0 else 'restartable'
            rep.ob(r, '%s %s' % (func, loc)); rep.ob('recovery', '%s %s' % (func, loc))
            for f2, r2, s2 in done:
                if f2 is None: rep.violate(r, loc, func, where + ': the next recovery fails with %s' % show(r2), s2, key='%s %s' % (loc, op))
                elif tracked(f2) not in allowed: rep.violate(r, loc, func, where + ': the next recovery does not restore the working copy', s2, key='%s %s' % (loc, op))
                elif journal(r2): rep.violate('recovery', loc, func, where + ': the recovery leaves journal entries behind', s2, key='%s %s' % (loc, op))
            if k < depth: todo += [(p, k + 1) for p in stops]
    for init in initial():
        for seq in sequences(tier):
            if not canonical(init, seq): continue
            want = init
            for o in seq:
                want = effect(want, o)
                if want is None: break
            if want is None: continue
            name = ' and '.join(text(o) for o in seq)
            cur = [(s, j) for st, cdb, j in d.open(init, ()) for s, _ in d.call(st, j, 'begin', [])[0]]
            d.snapshots()
            for o in seq: cur = [(s, j) for st, j in cur for s, _ in d.op(st, j, o)[0]]
            stops = d.snapshots()
            explore(stops, {init}, name, 'recovery', seq[-1][0])
            for st, j in cur:
                d.snapshots(); d.mon.errors = 1
                rets, exc = d.call(st, j, 'commit', [])
                d.mon.errors = 0
                ends = d.snapshots() + [(s.auto['fs'], s.auto['db'][0], LOC, 'commit', 'finishing fails', s, '') for s, e in exc]
                rep.ob('finished', name)
                if not rets: rep.violate('finished', LOC, 'commit', name + ': the transaction cannot be finished', st, key=seq[-1][0])
                for s, _ in rets:
                    if tracked(s.auto['fs']) != want: rep.violate('finished', LOC, 'commit', name + ': finishing the transaction does not keep its effect', s, key=seq[-1][0])
                    if journal(s.auto['db'][0]): rep.violate('finished', LOC, 'commit', name + ': a finished transaction leaves journal entries behind', s, key='j' + seq[-1][0])
                    ends.append((s.auto['fs'], s.auto['db'][0], LOC, 'commit', 'after finishing', s, ''))
                explore(ends[:-1], {init, want}, 'finishing after ' + name, 'finish', seq[-1][0])
                explore(ends[-1:], {want}, 'finishing after ' + name, 'finished', seq[-1][0])
    rep.info['stopping_points'] = n[0]; rep.info['recoveries'] = len(memo)
    return [d.eng]
