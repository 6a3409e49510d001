"""C31: working copies at the same revision without local changes are identical."""
from ..system import *
import fnmatch

RULES = {
    'recorded': 'whatever happened, a file without a local change has exactly the content it has in the revision the working copy reports',
    'untouched': 'a file which an interrupted operation has left as it was is not shown as a local change',
    'same': 'two working copies that report the same revision and no local changes contain the same files with the same content',
    'settles': 'after any interruption, updating and committing again gets both working copies to the same revision without local changes',
}
CL = 'bversion/client.py'
HISTORY = [
    ('K1', {'/same': 's1', '/d/same': 's2', '/ch': 'c1', '/d/ch': 'c2', '/d/e/ch': 'c3', '/del': 'e1', '/d/g/del': 'e2', '/back': 'b1'}),
    ('K2', {'/same': 's1', '/d/same': 's2', '/ch': 'c1b', '/d/ch': 'c2b', '/d/e/ch': 'c3', '/d/g/del': 'e2', '/back': 'b2', '/d/new': 'n1'}),
    ('K3', {'/same': 's1', '/d/same': 's2', '/ch': 'c1c', '/d/ch': 'c2b', '/d/e/ch': 'c3c', '/back': 'b1', '/d/new': 'n1', '/new': 'n2', '/p/q/new': 'n3'}),
]
HEAD = 'K3'
OTHER = const('10.0.0.2')


class Converge(System):
    """modification times: one for each content of each path, the same in all histories"""
    def when(self, p, c): return self.mtimes.setdefault((p, c), 1000.0 + len(self.mtimes))
    mtimes = {}


class Run:
    def __init__(self, rep, tier):
        self.rep = rep; self.tier = tier; self.mon = Converge(rep); self.eng = system(self.mon); self.total = 0; self.compared = 0; self.cuts = 0
        self.store, log, self.files = history(const(BASE), HISTORY); self.mon.store = self.store
        self.every = self.store.fs()

    def copy(self, at, changes=(), ignore=None, pull=None):
        """files and database of a working copy at a revision; its clean files have the recorded times"""
        fl = dict(self.files[at]) if at in self.files else {}
        man = {}; wcf = {}
        for i, (p, n) in enumerate(sorted(fl.items())):
            if pull and fnmatch.fnmatch(p, pull): continue
            c = content(n); t = self.mon.when(wc(p), c); man[p] = (t, oid(n)); wcf[p] = c
        for p, n in dict(changes).items():
            if pull and fnmatch.fnmatch(p, pull): continue
            wcf.pop(p, None)
            if n is not None: wcf[p] = content(n)
        return frozenset(setup(wcf, ignore, pull and pull + '\n')), tuple(self.mon.rows(man, oid(at) if at in files_of(self) else 'root'))

    def begin(self, at, changes=(), server=None, srows=(), **kw):
        self.mon.drop = None
        fs, rows = self.copy(at, changes, **kw)
        return begin(self.mon, self.eng, self.every if server is None else server, fs, rows, srows).setauto(who='A')

    addresses = {'A': IP, 'B': OTHER}

    def as_(self, st, who, at=None, changes=(), **kw):
        """the other client's turn"""
        known = 'client ' + who in dict(st.auto.get('stash') or ())
        fresh = None if known or at is None else self.copy(at, changes, **kw)
        return self.mon.turn(st, who, fresh)

    @staticmethod
    def key(st):
        """everything that survives the end of the processes"""
        stash = dict(st.auto.get('stash') or ())
        return st.auto['who'], st.auto['fs'], st.auto['db'][0], frozenset((w, dict(d)['fs'], dict(d)['db'][0]) for w, d in stash.items())

    # ---- commands
    def go(self, st, argv, answers=(), drop=None):
        """[(state, how it ended or None)] of one command"""
        self.total += 1; m = self.mon; m.address = self.addresses.get(st.auto['who'], OTHER); m.answers = tuple(const(a) for a in answers); m.drop = drop; m.snaps = []; m.seen = set()
        R, X = command(self.eng, st, *argv)
        m.drop = None
        return [(settle(m, self.eng, x), None) for x, _ in R] + [(settle(m, self.eng, x), v) for x, v in X]

    def step(self, label, st, argv, answers=(), drop=None, partial=False, pull=None):
        """one command and what must hold afterwards; the states after it"""
        out = []
        for x, v in self.go(st, argv, answers, drop):
            self.holds(label, x, partial or v is not None and argv[0] == 'update', pull); out.append((x, v))
        return out

    # ---- what must hold
    def holds(self, label, st, partial=False, pull=None):
        rep, m = self.rep, self.mon; rev = revision(st); at = m.stored(st, rev)
        rep.ob('recorded', label)
        if at is None:
            if isinstance(rev, str): rep.violate('recorded', CL, 'update', '%s: the revision of the working copy is not stored completely' % label, st, key='stored')
            return
        changed = m.local_changes(st, (pull,) if pull else ()); now = working(st); skip = set(changed)
        if partial: skip |= m.touched(st, rev) or set()
        for p in sorted(set(at) | set(now)):
            if pull and fnmatch.fnmatch(p, pull) or p in skip or p.startswith('/.bvn') or at.get(p) is now.get(p) or p not in at and p not in manifest(st): continue
            rep.violate('recorded', CL, 'commit' if 'commit' in label else 'update', '%s: %s %s without being shown as a local change' % (label, p, 'is missing' if p not in now else 'is not in the revision' if p not in at else 'is not what the revision has'), st, key='recorded %s' % label[:60])
            return

    def clean(self, label, st, answers=('client',), rounds=2, pull=None):
        """update and commit until nothing is left to do"""
        for i in range(rounds):
            for argv, a in ((('update',), answers), (('commit',), ())):
                r = self.step('%s, then %s' % (label, argv[0]), st, argv, a, pull=pull)
                ok = [x for x, v in r if v is None]
                if not ok: self.rep.ob('settles', label); self.rep.violate('settles', CL, argv[0], '%s: %s fails with %s' % (label, argv[0], System.cause(r[0][1]) if r else 'no result'), r[0][0] if r else st, key='settles %s %s' % (argv[0], System.cause(r[0][1]) if r else '')); return None
                st = ok[0]
            if not self.mon.local_changes(st, (pull,) if pull else ()) and revision(st) == self.mon.head(st): break
        return st

    def compare(self, label, st, pull=None, fresh='B'):
        """client B, made from an earlier revision, updates: both must be the same"""
        rep, m = self.rep, self.mon
        self.compared += 1
        st = self.clean(label, st, pull=pull)
        if st is None: return
        rep.ob('settles', label)
        ign = (pull,) if pull else ()
        if m.local_changes(st, ign): rep.violate('settles', CL, 'commit', '%s: local changes are left after a commit: %s' % (label, ', '.join(sorted(m.local_changes(st, ign)))), st, key='settles left'); return
        a = (revision(st), working(st))
        st = self.as_(st, fresh, 'K1', pull=pull)
        r = [x for x, v in self.step('%s, then the update of another working copy' % label, st, ('update',), ('server',), pull=pull) if v is None]
        if not r: rep.violate('settles', CL, 'update', '%s: the other working copy cannot update' % label, st, key='settles other'); return
        b = (revision(r[0]), working(r[0]))
        rep.ob('same', label)
        if m.local_changes(r[0], ign): rep.violate('settles', CL, 'update', '%s: the other working copy has local changes after its update' % label, r[0], key='settles B'); return
        if a[0] != b[0]: rep.violate('settles', CL, 'update', '%s: the working copies do not get to the same revision' % label, r[0], key='settles rev'); return
        diff = sorted(p for p in set(a[1]) | set(b[1]) if a[1].get(p) is not b[1].get(p) and not (pull and fnmatch.fnmatch(p, pull)) and not p.startswith('/.bvn'))
        if diff: rep.violate('same', CL, 'commit', '%s: two working copies at the same revision without local changes differ in %s' % (label, ', '.join(diff)), r[0], key='same %s' % label[:60])


def files_of(run): return run.files


LOCAL = {
    'none': {},
    'edits': {'/same': 'm1', '/d/e/ch': 'm2', '/mine': 'm3', '/d/new2': 'm4'},
    'deletions': {'/same': None, '/back': None, '/d/g/del': None},
    'mixed': {'/ch': 'm1', '/d/ch': None, '/del': 'm2', '/d/g/del': None, '/new': 'm3', '/p/q/new': 'n3', '/back': 'm4', '/d/same': None, '/z/y/x': 'm5'},
}
CUTS = {'/same': 'm1', '/d/e/ch': None, '/mine': 'm3'}
LATER = {
    'nothing': {},
    'the edited file restored': {'/same': 's1'},
    'the edited file deleted': {'/same': None},
    'the edited file edited again': {'/same': 'm9'},
    'the deleted file restored': {'/d/e/ch': 'c3c'},
    'the deleted file made anew': {'/d/e/ch': 'm8'},
    'the new file removed': {'/mine': None},
    'the new file changed': {'/mine': 'm7'},
    'everything undone': {'/same': 's1', '/d/e/ch': 'c3c', '/mine': None},
    'everything undone but a further file': {'/same': 's1', '/d/e/ch': 'c3c', '/mine': None, '/more': 'm6'},
    'a further file': {'/more': 'm6'},
}


def edit(st, changes, ignore=None):
    fs = dict(st.auto['fs'])
    for p, n in changes.items():
        fs.pop(wc(p), None)
        if n is not None: fs[wc(p)] = content(n)
    if ignore is not None: fs[wc('/.bvn_ignore')] = const(ignore.encode())
    return st.setauto(fs=frozenset(fs.items()), stamps=frozenset(p for p in st.auto.get('stamps') or () if p not in {wc(q) for q in changes}))


def interrupted(c, what, start_, argv, answers=()):
    """[(label, state)]: the command cut off at each of its requests; a request can be lost on its way, its answer on the way back"""
    out = []; n = 0
    while True:
        n += 1; hit = []
        for when in ('request', 'answer'):
            def drop(op, k, hd):
                if k == n: hit.append(op); return when
            r = c.go(start_(), argv, answers, drop)
            if not hit: return out
            if hit[0] in ('begin_auth', 'authenticate'): break
            c.cuts += 1
            out += [('%s cut off at the %s of %s (%d)' % (what, when, hit[0], n), x) for x, v in r if v is not None]


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    c = Run(rep, tier); m = c.mon
    deep = tier == 'thorough'
    jobs = []; seen = set()

    def later(label, x, edits, f=None, **kw):
        for name in edits:
            y = edit(x, LATER[name]); k = c.key(y), f, tuple(sorted(kw.items()))
            if k not in seen: seen.add(k); jobs.append((f or c.compare, ('%s, %s' % (label, name), y)))

    # ---- updates, without interruption
    def updates(at, name, ch, a, argv, pull):
        label = '%s at %s with %s, answering %s%s' % (' '.join(argv), at, name, a[0], ', pull-ignoring %s' % pull if pull else '')
        for x, v in c.step(label, c.begin(at, ch, pull=pull), argv, a, pull=pull):
            if v is None: c.compare(label, x, pull=pull)
            else: rep.violate('settles', CL, 'update', '%s: fails with %s' % (label, System.cause(v)), x, key='settles ' + System.cause(v))
    for at in ('root', 'K1', 'K2', HEAD):
        for name, ch in LOCAL.items():
            if at == 'root': ch = {p: n for p, n in ch.items() if n}
            for a in (('client',), ('server',)) if name == 'mixed' else (('client',),):
                for argv in (('update',), ('update', '-f')) if deep or name == 'none' else (('update',),):
                    for pull in (None, '/d/*') if deep or name == 'mixed' else (None,): jobs.append((updates, (at, name, ch, a, argv, pull)))

    # ---- a commit that is cut off at each request, what is done to the files meanwhile, and the next commit
    cuts = interrupted(c, 'commit', lambda: c.begin(HEAD, CUTS), ('commit',))
    for label, x in cuts:
        c.holds(label, x); later(label, x, LATER)
    # ---- the same, with another working copy of the same user on the same machine committing first
    def neighbour(label, st):
        c.addresses = {'A': IP, 'B': IP}
        for pull, ch in ((None, {'/ch': 'o1', '/other': 'o2'}), ('/d/*', {'/ch': 'o1'}), ('/same', {'/other': 'o2'})):
            y = c.as_(st, 'B', HEAD, ch, pull=pull)
            l = '%s, commit from another working copy of the user%s' % (label, ' pull-ignoring %s' % pull if pull else '')
            r = [x for x, v in c.step(l, y, ('commit',), pull=pull) if v is None]
            if not r:                  # somebody else has committed: it has to update first
                x = c.clean(l, y, pull=pull)
                if x is not None: c.compare(l, c.as_(x, 'A'), fresh='C')
                continue
            before = {p: v for p, v in m.stored(y, revision(y)).items()}; after = m.stored(r[0], revision(r[0]))
            rep.ob('recorded', l)
            for p in sorted(set(before) | set(after or {})):
                if after is not None and p not in ch and before.get(p) is not after.get(p):
                    rep.violate('recorded', CL, 'commit', '%s: the commit changes %s, which is not changed in this working copy' % (l, p), r[0], key='recorded neighbour')
            c.compare(l, c.as_(r[0], 'A'), fresh='C')
        c.addresses = {'A': IP}
    for label, x in cuts: later(label, x, ('nothing',), neighbour)
    # ---- the server stops at any point of a commit
    m.server_snaps = {}; st = c.begin(HEAD, CUTS); c.go(st, ('commit',)); stops = m.server_snaps; m.server_snaps = None
    st = c.begin(HEAD, CUTS).setauto(randoms=100)
    for (n, fs, db), what in sorted(stops.items(), key=lambda kv: (kv[0][0], kv[1])):
        later('the server stops at %s during a commit' % what, m.poke(st, 'server', fs=fs, db=(db, db)), LATER if deep else ('nothing', 'everything undone but a further file'))
    rep.info['stops of the server'] = len(stops)

    # ---- an update that is cut off at each request, the other working copy commits meanwhile or not
    def resumed(label, st):
        c.holds(label, st, True); c.compare(label, st)

    def overtaken(label, st):
        y = c.as_(st, 'B', HEAD, {'/ch': 'o1', '/d/new': None, '/back': 'o3', '/p/other': 'o4'})
        r = [x for x, v in c.step(label + ', commit from another working copy', y, ('commit',)) if v is None]
        if r: c.compare(label + ', commit from another working copy', c.as_(r[0], 'A'), fresh='C')

    def instead(label, st):
        for x, v in c.step(label + ', commit', st, ('commit',), partial=True): c.compare(label + ', commit', x)
    for name, a in (('none', 'client'), ('mixed', 'client'), ('mixed', 'server')) if deep else (('mixed', 'server'),):
        for label, x in interrupted(c, 'update with %s' % name, lambda: c.begin('K1', LOCAL[name]), ('update',), (a,)):
            for f in (resumed, overtaken, instead): later(label, x, ('nothing',), f)
    # ---- the client stops at any point of an update or a commit
    for what, at, ch, argv in (('update', 'K1', LOCAL['mixed'], ('update',)), ('commit', HEAD, CUTS, ('commit',))):
        for x, v in c.go(c.begin(at, ch), argv, ('server',)): pass
        snaps = list(m.snaps); stopped = {}
        for fs, db, loc, func, w, sx, ph in snaps: stopped.setdefault((fs, db), ('%s stops at %s (%s)' % (what, loc, w), sx))
        rep.info['stops of the client, ' + what] = len(stopped)
        for i, ((fs, db), (label, sx)) in enumerate(sorted(stopped.items(), key=lambda kv: kv[1][0])):
            if not deep and what == 'update' and i % 3: continue
            x = settle(m, c.eng, sx.setauto(fs=fs, db=(db, db)))
            later(label, x, ('nothing',), after_stop(c, argv, at, ch))
    # ---- another working copy commits while this one updates or is about to commit
    st = c.as_(c.begin(HEAD, {}), 'B', HEAD, {'/ch': 'o1', '/d/new': None, '/back': 'o3', '/d/e/ch': 'o5', '/p/other': 'o4'})
    r = [x for x, v in c.go(st, ('commit',)) if v is None]
    if r:
        newer = dict(m.peek(r[0], 'server'))['fs']

        def meanwhile(argv, at, ch, n, ans):
            label = '%s at %s, another working copy commits before request %d' % (argv[0], at, n); hit = []

            def between(s, op, k):
                if k != n: return s
                hit.append(op)
                return m.poke(s, 'server', fs=newer)
            m.between = between
            rr = c.go(c.begin(at, ch), argv, ans)
            m.between = None
            for x, v in rr if hit and hit[0] in ('find_changed', 'pull_file', 'begin_commit') else ():
                c.holds(label, x, v is not None); c.compare(label, x)
        for n in range(2, 14): jobs.append((meanwhile, (('update',), 'K1', LOCAL['mixed'], n, ('server',))))
        for n in range(1, 5): jobs.append((meanwhile, (('commit',), HEAD, CUTS, n, ())))
    counts = parallel(rep, c.eng, [(counted, (c, f, a)) for f, a in jobs])
    rep.info['commands interpreted'] = sum(x[0] for x in counts if x); rep.info['interruptions'] = c.cuts; rep.info['histories compared'] = sum(x[1] for x in counts if x)
    return [c.eng]


def after_stop(c, argv, at, ch):
    def stopped(label, st):
        before = c.begin(at, ch); was = c.mon.local_changes(before); old = working(before)
        for x, v in c.go(st, ('status',)):
            now = working(x); is_ = c.mon.local_changes(x)
            c.rep.ob('untouched', label)
            for p in sorted(set(old) & set(now)):
                if now[p] is old[p] and is_.get(p) != was.get(p) and manifest(x).get(p) == manifest(before).get(p):
                    c.rep.violate('untouched', CL, argv[0], '%s: afterwards %s is shown as %s, although it is as it was' % (label, p, is_.get(p, 'unchanged')), x, key='untouched %s' % label[:60]); break
        c.compare(label, st)
    return stopped


def counted(c, f, a):
    c.total = c.compared = 0
    f(*a)
    return c.total, c.compared
