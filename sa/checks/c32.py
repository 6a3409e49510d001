"""C32: reading requests are answered from one committed state and change nothing."""
from .c31 import *
from . import c31
from .c11 import VS

RULES = {
    'stopped': 'at every point of a commit, an abandoned commit being cleaned up, or a garbage collection, the answer to a reading request is the one before or the one after it',
    'meanwhile': 'a reading request during which a commit becomes current is answered as a whole from the state before it or after it',
    'unblocked': 'reading requests are answered the same way while another process holds the lock of the repository',
    'only-reads': 'a reading request changes nothing in the repository, and nothing in its database but the sessions',
}
AUTH = ('tokens', 'session_tokens')
SV = 'bversion/server.py'
WRITE = {'/same': 'm1', '/d/e/ch': None, '/mine': 'm3', '/z/y': 'm4', '/back': 'b9'}


class Readers(Converge):
    newer = None; at = 0; reads = 0

    def fs(self, st):
        if self.newer is not None and st.auto.get('side') == 'server':
            self.reads += 1
            if self.reads > self.at: return dict(self.newer)
        return dict(st.auto['fs'])

    record = None

    def serve(self, e, st, node, w, op, hdr, body):
        if self.record is not None: self.record.append((op, hdr, body, self.peek(st, 'server')))
        return super().serve(e, st, node, w, op, hdr, body)


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    deep = tier == 'thorough'
    c = Run(rep, tier); m = c.mon = Readers(rep); c.eng = system(m); m.store = c.store
    asked = 0; undecided = set()

    # ---- a session, and what real clients ask
    def recorded(st, argv, answers=()):
        m.record = []
        c.go(st, argv, answers)
        r, m.record = m.record, None
        return r
    first = recorded(c.begin('K1', LOCAL['mixed']), ('update',), ('server',))
    full = recorded(c.begin('K1'), ('update', '-f'))
    started = [x for x in first if x[0] == 'find_changed']
    if not started: raise AnalysisBroken('an update sends no find_changed request')
    hdr0 = started[0][1]; session = {k: hdr0[k] for k in hdr0 if k in ('session_token', 'repository')}
    db0 = started[0][3]['db'][0]
    mine = tuple(r for r in db0 if r[0] == 'session_tokens')
    if not mine: raise AnalysisBroken('the session of a client is not recorded in the database')
    J = (doc(fdict([])),)
    readers = [('find_changed from %s%s' % (n, ' with unchanged files' if x[1]['include_unchanged'] is const('1') else ''), 'find_changed', dict(x[1], previous_revision=const('root') if n == 'root' else oid(n)), x[2])
               for x in started + [y for y in full if y[0] == 'find_changed'] for n in ('root', 'K1', HEAD)]
    for flag, op in (('show_head', 'list_changes'), ('show_head', 'list_files'), ('use_head', 'pull_file')):
        for p in ('/same', '/mine', '/d/e/ch', '/d/new') if op == 'pull_file' else (None,):
            for n in (None, 'K1', HEAD):
                h = dict(session, **{flag: const('1' if n is None else '0')})
                if n: h['version_id'] = oid(n)
                if p: h['path'] = const(p)
                readers.append(('%s%s of %s' % (op, ' ' + p if p else '', n or 'the head'), op, h, J))
    readers.append(('list_versions', 'list_versions', dict(session), J))

    def ask(reader, fs, db):
        """[(answer, files, rows)]"""
        nonlocal asked
        asked += 1
        what, op, hdr, body = reader
        rows = tuple(r for r in db if r[0] != 'session_tokens') + mine
        st = m.poke(c.begin('K1'), 'server', fs=fs, db=(rows, rows)).setauto(randoms=200)
        out = []
        m.reads = 0
        for s, h, b in m.serve(c.eng, st, None, (SV, op), op, hdr, body):
            d = m.peek(s, 'server')
            out.append(((None if h is None else frozenset((k, canon_str(v)) for k, v in h.items()), b), d['fs'], frozenset(r for r in d['db'][0] if r[0] not in AUTH), s, frozenset(r for r in rows if r[0] not in AUTH)))
        return out

    def answers(reader, fs, db):
        r = ask(reader, fs, db)
        a = {x[0] for x in r}
        for x in r:
            rep.ob('only-reads', reader[0])
            if x[1] != fs: rep.violate('only-reads', SV, reader[1], '%s changes the files of the repository' % reader[0], x[3], key='only-reads ' + reader[1])
            elif x[2] != x[4]: rep.violate('only-reads', SV, reader[1], '%s changes the database of the repository' % reader[0], x[3], key='only-reads db ' + reader[1])
        return a, r

    def show_answer(x):
        h, b = x
        return 'the connection is closed' if h is None else ', '.join('%s: %s' % (k, show(v)[:40]) for k, v in sorted(h)[:3])

    # ---- writers: (name, state before, states in between, state after)
    def stops(st, argv):
        m.server_snaps = {}
        before = m.peek(st, 'server')
        r = c.go(st, argv); s = m.server_snaps; m.server_snaps = None
        if len(r) != 1: return None
        after = m.peek(r[0][0], 'server')
        return (before['fs'], before['db'][0]), sorted(((fs, db, what) for (n, fs, db), what in s.items()), key=lambda x: x[2]), (after['fs'], after['db'][0]), r[0][1]
    writers = []
    w = stops(c.begin(HEAD, WRITE), ('commit',))
    if w is None or w[3] is not None: raise AnalysisBroken('a commit does not end normally')
    writers.append(('a commit',) + w[:3])
    cut = [x for x, v in c.go(c.begin(HEAD, WRITE), ('commit',), drop=lambda op, n, hd: 'request' if op == 'commit' else None)]
    if cut:
        w = stops(edit(cut[0], {'/same': 's1', '/d/e/ch': 'c3c', '/mine': None, '/z/y': None, '/back': 'b1', '/more': 'm6'}), ('commit',))
        if w: writers.append(('a commit after an abandoned one',) + w[:3])
    # another client's commit is refused and cleans up after a commit that was stopped: once it was current, and before
    for label, cur in (('a refused commit after one that was stopped once it was current', True), ('a refused commit after one that was stopped', False)):
        head = lambda fs: dict(fs).get(mkpath([const(BASE), const('head')]))
        for fs, db, what in writers[0][2]:
            if bool(db) and any(r[0] == 'active_commit_changes' for r in db) and (head(fs) is not head(writers[0][1][0])) == cur:
                st = m.poke(c.begin(HEAD, WRITE), 'server', fs=fs, db=(db, db)).setauto(randoms=100)
                w = stops(c.as_(st, 'B', 'K1', {'/mine': 'm7'}), ('commit',))
                if w: writers.append((label,) + w[:3]); break
    w = stops(m.poke(c.begin('root', WRITE), 'server', fs=frozenset(), db=((), ())), ('commit',))
    if w and w[3] is None: writers.append(('the first commit',) + w[:3])
    # garbage collection
    stray = Store(const(BASE)); stray.objects = dict(c.store.objects); stray.head = c.store.head; stray.file('stray file'); stray.tree('stray tree', [])
    m.store = stray
    gst = m.poke(c.begin(HEAD), 'server', fs=frozenset(stray.fs()), db=((), ()))
    m.server_snaps = {}
    fs0 = m.peek(gst, 'server')['fs']
    R, X = run_method(c.eng, m.swap(gst, 'server'), VS, [const(BASE)], 'garbage_collect', [])
    s = m.server_snaps; m.server_snaps = None
    if R: writers.append(('a garbage collection', (fs0, ()), sorted(((fs, db, what) for (n, fs, db), what in s.items()), key=lambda x: x[2]), (R[0][0].auto['fs'], R[0][0].auto['db'][0])))
    rep.info['states in between'] = {w[0]: len(w[2]) for w in writers}

    def disturb(w, reader):
        name, before, mid, after = w
        if name == 'the first commit' and not ('root' in reader[0] or 'head' in reader[0] or 'list_versions' in reader[0]): return
        a, ra = answers(reader, *before); b, rb = answers(reader, *after); allowed = a | b
        if len(ra) != 1 or len(rb) != 1: return
        if name.startswith(('a garbage', 'a refused')):   # what makes no revision changes no answer
            allowed = a
            rep.ob('stopped', '%s: %s, afterwards' % (name, reader[0]))
            if a != b: rep.violate('stopped', SV, reader[1], 'after %s: %s is answered differently than before it (%s)' % (name, reader[0], show_answer(next(iter(b)))), rb[0][3], key='stopped ' + reader[1])
        seen = set()
        for fs, db, what in mid:
            if (fs, db) in seen: continue
            seen.add((fs, db))
            rep.ob('stopped', '%s: %s' % (name, reader[0]))
            for x, f, d, s, o in answers(reader, fs, db)[1]:
                if x not in allowed: rep.violate('stopped', SV, reader[1], '%s, at %s: %s is answered differently than before and after it (%s)' % (name, what, reader[0], show_answer(x)), s, key='stopped ' + reader[1]); break
        if name == 'a garbage collection': return
        m.newer = after[0]
        for m.at in range(1, 400):
            r = ask(reader, *before)
            rep.ob('meanwhile', '%s: %s' % (name, reader[0]))
            for x, f, d, s, o in r:
                if x not in allowed: rep.violate('meanwhile', SV, reader[1], '%s becomes current while %s is answered: the answer is neither that of before nor of after (%s)' % (name, reader[0], show_answer(x)), s, key='meanwhile ' + reader[1]); break
            if m.reads <= m.at: break
        m.newer = None
        m.busy = True
        for fs, db in (before, after):
            rep.ob('unblocked', '%s: %s' % (name, reader[0]))
            x = {y[0] for y in ask(reader, fs, db)}
            if len(x) == 1 and x != (a if (fs, db) == before else b): rep.violate('unblocked', SV, reader[1], '%s is not answered the same way while the repository is locked by another process' % reader[0], None, key='unblocked ' + reader[1])
        m.busy = False

    def one(*a):
        nonlocal asked
        asked = 0; disturb(*a); return asked
    rep.info['requests answered'] = sum(x or 0 for x in parallel(rep, c.eng, [(one, (w, r)) for w in writers for r in readers]))
    return [c.eng]
