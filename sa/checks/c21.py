"""C21: only one client works on a working copy at a time."""
from .update import *
from ..state import *

RULES = {
    'before': 'every command takes the lock before it opens the manifest database',
    'tracked': 'every tracked file is read or changed only while the lock is held',
    'kept': 'the lock is exclusive and the handle that carries it is neither closed nor dropped while the client goes on working',
    'busy': 'a client that does not get the lock gives up at once and has touched nothing',
    'same': 'all commands lock the same file of the working copy, from every directory, and no command removes or replaces it',
}


class Locking(Upd):
    label = ''; initial = None; lockfiles = frozenset()

    def intrinsics(self):
        r = super().intrinsics()
        r['fcntl.lockf'] = r['fcntl.flock'] = self.i_flock
        r['fcntl.fcntl'] = lambda e, st, a, k, node: [(st, const(0))]
        return r

    # ---- holding the lock
    def alive(self, e, st, h):
        """is the handle still referred to by a variable or a reachable object"""
        seen = set(); todo = []
        def terms(t):
            if isinstance(t, (tuple, frozenset, list)):
                for x in t: terms(x)
            elif isinstance(t, T):
                for x in subterms_c(t):
                    if x not in seen: seen.add(x); todo.append(x)
        for d in list(st.frames.values()) + list(e.static.values()):
            for v in d.values(): terms(v)
        while todo:
            x = todo.pop()
            if x is h: return True
            o = st.heap.get(x)
            if o is not None: terms(list(o.terms()))
        return h in seen

    def held(self, e, st):
        """'' while the lock is held, otherwise what is wrong"""
        if st.auto.get('odd'): return ''
        l = st.auto.get('locked') or ()
        if not l: return 'the lock has been released by closing its file or unlocking it' if st.auto.get('had') else 'nothing is locked'
        if not any(x for _, x, _ in l): return 'the lock is a shared one'
        if not any(self.alive(e, st, h) for h, x, _ in l if x): return 'the only reference to the file that carries the lock has gone, which releases it'
        return ''

    def i_flock(self, e, st, args, kw, node):
        if len(args) < 2 and 'operation' in kw: args = [args[0], kw['operation']]
        if args and args[0].op == 'call' and args[0].args[0].endswith('fileno'): args = [args[0].args[1][0]] + list(args[1:])
        if not args or args[0].op != 'handle': return [(st.setauto(odd=True), NONE)]
        out = super().i_flock(e, st, args, kw, node)
        return [(s.setauto(had=True), v) for s, v in out]

    def handle(self, ev, st):
        if ev.name == 'fileno': return [(st, ev.recv)]
        return super().handle(ev, st)

    def require(self, e, st, node, rule, what):
        if self.initial is None: return
        self.rep.ob(rule, '%s: %s' % (self.label, what))
        how = self.held(e, st)
        if st.auto.get('had'): self.rep.ob('kept', self.label)
        if how:
            r = 'kept' if st.auto.get('locked') or st.auto.get('had') else rule
            self.rep.violate(r, e.loc(node), e.func.qual if e.func else '?', '%s: %s while %s' % (self.label, what, how), st, key='%s:%s' % (r, how))

    def tracked(self, p):
        q = [cval(x) if is_str(x) else '?' for x in path_parts(p)]; n = len(WC.strip('/').split('/'))
        return q[:n] == WC.strip('/').split('/') and len(q) > n and not q[n].startswith(('.bvn', '.shttpfs'))

    # ---- what needs it
    def put(self, eng, st, node, fs, what):
        before = dict(st.auto['fs'])
        st = super().put(eng, st, node, fs, what)
        if self.initial is not None:
            for p in set(before) | set(fs):
                if before.get(p) is not fs.get(p) and self.tracked(p): self.require(eng, st, node, 'tracked', '%s is changed' % show(p))
            for p in {p for h, x, p in st.auto.get('locked') or ()} | self.lockfiles:
                if isinstance(p, T) and p is not NONE and p in before and p not in fs: self.rep.violate('same', eng.loc(node), eng.func.qual if eng.func else '?', '%s: the lock file, which another client may have locked, is removed; yet another client can then lock a new one' % self.label, st, key='same:removed')
        return st

    def i_hash(self, e, st, args, kw, node):
        if self.tracked(self.one(args, kw)): self.require(e, st, node, 'tracked', 'a tracked file is read')
        return super().i_hash(e, st, args, kw, node)

    def i_mtime(self, which):
        f = super().i_mtime(which)
        def g(e, st, args, kw, node):
            if self.tracked(self.one(args, kw)): self.require(e, st, node, 'tracked', 'the times of a tracked file are read')
            return f(e, st, args, kw, node)
        return g

    def i_send(self, e, st, args, kw, node):
        self.require(e, st, node, 'tracked', 'a tracked file is sent')
        return super().i_send(e, st, args, kw, node)

    def i_connect(self, e, st, args, kw, node):
        self.require(e, st, node, 'before', 'the manifest is opened')
        return [(s.setauto(touched=True), v) for s, v in super().i_connect(e, st, args, kw, node)]

    def sql(self, ev, st):
        self.require(ev.eng, st, ev.node, 'before', 'the manifest is used')
        return super().sql(ev, st)


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    c = Case(rep, tier); c.mon = m = Locking(rep); c.eng = client_engine(m)
    paths = dict(PULL, **dict(GONE, **LOCAL)); conf = dict(paths, **CONF)
    TRACKED = {'/big/a': (0, 0, 0), '/big/d/b': (0, 0, 0)}
    runs = [(('update',), paths, ()), (('update', '-f'), paths, ()), (('update',), conf, ('server',)), (('update',), conf, ('client',)), (('update',), conf, ('manual', 'y')), (('status',), paths, ()), (('commit', '-m', 'x'), paths, ()), (('commit',), LOCAL, ()),
            (('revert', '--all'), paths, ('yes',)), (('revert', '-h', '*'), paths, ('yes',)), (('pull-ignore', '/big/*'), TRACKED, ('delete',)), (('pull-ignore', '-f', '/big/*'), dict(TRACKED, **LOCAL), ('nothing',)), (('list-ignored-files',), paths, ()), (('list-versions',), paths, ()),
            (('list-files',), paths, ()), (('list-files', '-i'), paths, ()), (('list-changes',), paths, ()), (('list-changes', '-h'), paths, ())]
    m.server.over.update(list_versions=lambda w, e, st, h, b: ({'status': 'ok'}, doc(fdict([('versions', flist([]))]))))
    locks = {}; free = 0

    def note(label, states):
        for x in states:
            for h, e, p in x.auto.get('locked') or ():
                locks.setdefault(p, label)
                for y in subterms_c(p):
                    if y.op in ('call', 'ext') and any(w in str(y.args[0]) for w in ('getpid', 'uuid', 'time.', 'random', 'tempfile', 'get_ident', 'urandom', 'secrets.')): rep.violate('same', 'bversion/client.py', 'init', '%s: every process locks a file of its own: %s' % (label, show(p)), x, key='same:own')
        m.lockfiles = frozenset(p for p in locks if p is not NONE)

    for argv, ps, ans in runs:
        for cwd in (WC, WC + '/d'):
            for name in ('', 'with the old names') if cwd == WC else ('',):
                m.initial = None; fs, rows = c.begin(ps, '/ign/*\n'); fs |= {(p, const(b'')) for p in m.lockfiles}
                if name: fs = frozenset((mkpath([const(show_path(p).replace('/.bvn', '/.shttpfs'))]) if all(is_str(x) for x in path_parts(p)) else p, v) for p, v in fs)
                label = 'bvn %s%s%s' % (' '.join(argv), ' in a sub-directory' if cwd != WC else '', ' ' + name if name else '')
                m.cwd = cwd; m.label = label; m.initial = fs
                st, X = c.go(label, fs, rows, ans, argv=argv)
                note(label, st + [x for x, _ in X]); free += len(st); rep.ob('same', label); m.label = label
                if tier == 'thorough' or argv[0] in ('update', 'commit', 'revert'): c.go(label + ', a local operation fails', fs, rows, ans, errors=1, argv=argv)
                # somebody else has it
                lb = label + ', the lock is held elsewhere'; rep.ob('busy', lb)
                m.initial = None; real = m.lockable
                st, X = busy(c, lb, fs, rows, ans, argv)
                if not st and not X: rep.violate('busy', 'bversion/client.py', 'init', '%s: the client waits for the lock' % lb, None, key='busy:waits'); continue
                for x in st: rep.violate('busy', 'bversion/client.py', 'init', '%s: the command goes on' % lb, x, key='busy:goes on')
                for x, e in X:
                    if x.auto.get('touched'): rep.violate('busy', 'bversion/client.py', 'init', '%s: the manifest has been opened' % lb, x, key='busy:opened')
                    if x.auto['net']: rep.violate('busy', 'bversion/client.py', 'init', '%s: the server has been contacted' % lb, x, key='busy:net')
                    a, b = ({p: v for p, v in f if m.tracked(p)} for f in (fs, x.auto['fs']))
                    if a != b or x.auto['db'] != (tuple(rows), tuple(rows)): rep.violate('busy', 'bversion/client.py', 'init', '%s: the working copy has been changed' % lb, x, key='busy:changed')
                m.cwd = WC
    if not free: raise AnalysisBroken('no command ends normally')
    if not locks and not any(True for _ in rep.violations): raise AnalysisBroken('no lock is taken by any command')
    ps = {p for p in locks if isinstance(p, T) and p is not NONE}
    if len(ps) > 1: rep.violate('same', 'bversion/client.py', 'init', 'different files are locked: %s' % ', '.join('%s by %s' % (show(p), locks[p]) for p in sorted(ps, key=show)), None)
    rep.info['scenarios'] = c.total
    return [c.eng]


def show_path(p): return '/' + '/'.join(cval(x) for x in path_parts(p))


def busy(c, label, fs, rows, answers, argv):
    m = c.mon
    st = start(m, c.eng, fs, rows); m.lockable = False; m.label = label; m.refuse = {}; m.answers = tuple(const(a) for a in answers); m.errors = 0; c.total += 1
    R, X = command(c.eng, st, *argv)
    m.lockable = True
    return [s for s, _ in R], X
