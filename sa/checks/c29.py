"""C29: garbage collection never removes reachable or pending objects."""
from ..repoworld import *
from .c11 import example, BASE, VS, STRAY

RULES = {
    'keeps': 'collection deletes no object that is reachable from the head or that an unfinished commit added or names',
    'exists': 'collection deletes or changes nothing but unreferenced objects of the store',
    'locked': 'objects are only deleted while the exclusive lock of the repository is held, and not at all if it is held elsewhere',
    'fresh': 'what is reachable is determined after the lock was obtained',
    'released': 'the lock is released when collection ends, whatever the outcome',
}
AT = ('bversion/storage/versioned_storage.py', 'versioned_storage.garbage_collect')


def pending_store(stray):
    """the example plus the objects of an unfinished commit: logged additions, uploads that were in the store before, a half-finished tree"""
    s = example(stray)
    for f in ('added file', 'uploaded again'): s.file(f)
    s.tree('added tree', [])
    rows = [row('gc_log', 1, item_type='file', item_hash=oid('added file')), row('gc_log', 2, item_type='tree', item_hash=oid('added tree')),
            row('gc_log', 3, item_type='commit', item_hash=oid('missing commit')),
            row('active_commit_changes', 1, path='/added', hash=oid('added file'), status='new'),
            row('active_commit_changes', 2, path='/again', hash=oid('uploaded again'), status='changed'),
            row('active_commit_changes', 3, path='/gone', hash=NONE, status='deleted')]
    return s, rows


class GC(RepoWorld):
    keep = frozenset(); lockpath = None

    def removed(self, e, st, node, p):
        w = (e.loc(node), e.func.qual if e.func else '?')
        self.rep.ob('locked', w[1])
        if not any(x[1] and x[2] is self.lockpath for x in st.auto.get('locked') or ()): self.rep.violate('locked', w[0], w[1], 'an object is deleted while the lock of the repository is not held', st)

    def put(self, eng, st, node, fs, what):
        old = self.fs(st); w = (eng.loc(node), eng.func.qual if eng.func else '?')
        for p in old:
            if p is self.lockpath: continue
            if p not in fs or fs[p] is not old[p]:
                self.removed(eng, st, node, p)
                n = self.name(p)
                if n in self.keep: self.rep.violate('keeps', w[0], w[1], '%s: the object %s, which is %s, is deleted or changed' % (self.case, n, self.keep[n]), st, key='keeps:' + self.keep[n])
                elif n is None: self.rep.violate('exists', w[0], w[1], '%s: %s, which is no object, is deleted or changed' % (self.case, show(p)), st)
                elif p in fs: self.rep.violate('exists', w[0], w[1], '%s: the object %s is changed' % (self.case, n), st)
        return super().put(eng, st, node, fs, what)

    def name(self, p):
        for n in self.store.objects:
            if self.store.path(n) is p: return n
        return None

    def i_listdir(self, e, st, args, kw, node):
        self.fail(e, st)
        return super().i_listdir(e, st, args, kw, node)

    def sql(self, ev, st):
        if ev.sql is not None and ev.sql.verb in ('insert', 'delete', 'update') and ev.sql.table in self.TABLES + ('active_commit_exists',):
            self.rep.violate('exists', ev.loc, ev.func, '%s: collection changes the table %s' % (self.case, ev.sql.table), st)
        return super().sql(ev, st)


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = GC(rep); eng = make_engine(mon); eng.mon = mon; eng.unroll = 24; eng.reclimit = 6
    done = 0; removed = set()
    # the file that is locked for writing to the repository
    mon.store = Store(BASE); mon.keep = {}; mon.case = 'lock'; mon.lockpath = None
    for x, v in run_method(eng, RepoWorld.begin(eng.base, []), VS, [BASE], 'lock', [])[0]:
        for h, ex, p in x.auto.get('locked') or (): mon.lockpath = p
    if mon.lockpath is None: raise AnalysisBroken('versioned_storage.lock() locks no file')
    rep.violations.clear()

    def run(case, st):
        nonlocal done
        mon.case = case; mon.effects = []; mon.snaps = []; mon.seen = set()
        rets, exc = run_method(eng, st, VS, [BASE], 'garbage_collect', [])
        for x in [s for s, v in rets] + [s for s, e in exc]:
            done += 1
            for r in ('keeps', 'exists', 'released'): rep.ob(r, case)
            if x.auto.get('locked'): rep.violate('released', AT[0], AT[1], '%s: the lock is still held when collection ends' % case, x)
        return rets

    for stray in (True, False):
        for pend in (False, True):
            if pend: s, rows = pending_store(stray)
            else: s, rows = example(stray), []
            mon.store = s
            keep = {n: 'reachable from the head' for n in s.objects if n not in STRAY}
            if pend: keep.update({n: 'part of an unfinished commit' for n in ('added file', 'added tree', 'uploaded again')})
            mon.keep = keep
            what = 'unreachable objects %spresent, %s commit' % ('' if stray else 'not ', 'unfinished' if pend else 'no unfinished')
            for errors in (0, 1):
                mon.errors = errors; mon.lockable = True; mon.switch = None
                for x, v in run(what + (', errors injected' if errors else ''), RepoWorld.begin(eng.base, s.fs(), rows)):
                    if not errors: removed |= {n for n in s.objects if s.path(n) not in mon.fs(x)}
            mon.errors = 0
            # damaged: something reachable is missing
            for n in [n for n in s.objects if n not in STRAY and n[0] in 'CT'][: None if tier == 'thorough' else 3]:
                run(what + ', %s missing' % n, RepoWorld.begin(eng.base, s.fs(without=(n,)), rows))
            # held elsewhere
            mon.lockable = False
            for x, v in run(what + ', lock held elsewhere', RepoWorld.begin(eng.base, s.fs(), rows)): pass
            mon.lockable = True
            # what another process does until the lock is obtained: it finishes a commit; it adds to a commit and is cut off
            head = mkpath([BASE, const('head')])
            before = [(p, c) for p, c in s.fs() if p is not head] + [(head, const(cval(oid('Cmid')).encode()))]
            new = [n for n in s.objects if n in ('C1', 'T1', 'Tdir', 'Tdeep', 'a1', 'deep')]
            logged = rows or [row('gc_log', i + 1, item_type='file' if s.objects[n][0] == 'files' else 'tree', item_hash=oid(n)) for i, n in enumerate(new)]
            mon.switch = (s.fs(), rows)
            rep.ob('fresh', what)
            run(what + ', a commit finishes before the lock is obtained', RepoWorld.begin(eng.base, before, logged))
            if pend:
                mon.switch = (s.fs(), rows)
                run(what + ', begun before the lock is obtained', RepoWorld.begin(eng.base, s.fs(without=('added file', 'added tree')), []))
            mon.switch = None
    # a long history
    s = mon.store = long_history(BASE)[0]; mon.keep = {n: 'reachable from the head' for n in s.objects}
    with Deep(eng): run('%d revisions' % LONG, RepoWorld.begin(eng.base, s.fs(), []))
    # empty repository; head lost although commits exist
    s = mon.store = Store(BASE); mon.keep = {}
    run('empty repository', RepoWorld.begin(eng.base, s.fs(), []))
    if not done: raise AnalysisBroken('garbage collection does not finish')
    rep.info['removed in the example'] = sorted(removed)
    return [eng]
