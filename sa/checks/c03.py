"""C03: repository writes happen only on a connection holding that repository's exclusive lock; the lock is always released."""
from ..framework import *
from ..server_env import *

RULES = {
    'held': 'begin_commit changes the repository only after its exclusive, non-blocking lock was obtained',
    'exclusive': 'the lock is an exclusive flock that does not wait, on a file of the repository that is never removed',
    'claim': 'the connection is noted as holding the lock of the repository only after the lock was obtained',
    'kept': 'the locked file stays referenced by the connection until it is released',
    'other-routes': 'a route that changes the repository first established that this connection holds the lock of that repository',
    'finish': 'finishing or aborting a commit releases the lock, after the last change',
    'release': "the connection's shutdown handler releases the lock and the note of holding it",
    'no-leak': 'an earlier lock of the connection is released before its shutdown handler is replaced',
    'connection': 'however a connection ends, its shutdown handler is called',
}
OPTIONAL = ('no-leak',)
TABLES = ('active_commit_changes', 'active_commit_exists', 'gc_log')
WRITES = ('openw', 'rename', 'copy', 'remove', 'rmdir', 'rmtree', 'link')
START, FINISH = 'begin_commit', 'commit'


def names(t): return ' '.join(str(x.args[0]) + ' ' + (str(x.args[1]) if len(x.args) > 1 and isinstance(x.args[1], str) else '') for x in subterms_c(t) if x.op in ('ext', 'attr', 'glob'))


class M(Mon):
    route = ''

    def __init__(self, rep, cfg): super().__init__(rep); self.cfg = cfg; self.claims = {}; self.lockpaths = set()

    def rel(self, t): return t.op == 'attr' and t.args[0] is CTX

    def bad(self, rule, ev, st, msg, key=None): self.rep.violate(rule, ev.loc, ev.func, msg, st, key=key or '%s:%s' % (self.route, ev.func))

    def write(self, ev, st, key, what):
        if self.route == START:
            self.rep.ob('held', '%s: %s' % (ev.func, what))
            if not any(m[0] == 'locked' and key in m[2] for m in st.marks): self.bad('held', ev, st, '%s in route %s without holding the lock of the repository' % (what, self.route))
        else:
            self.rep.ob('other-routes', '%s: %s: %s' % (self.route, ev.func, what))
            if not self.holds(st, key): self.bad('other-routes', ev, st, '%s in route %s although this connection is not known to hold the lock of the repository' % (what, self.route))
            if st.has(('released',)): self.bad('finish', ev, st, '%s in route %s after the lock was released' % (what, self.route))

    def holds(self, st, key):
        def idx(t): return any(x.op == 'attr' and x.args[0] is CTX and x.args[1] in self.claims for x in subterms_c(t))
        for a in true_facts(st):
            if a.op in ('cmp', 'in') and (a.op == 'in' or a.args[0] == 'eq'):
                ops = [x for x in a.args if isinstance(x, T)]
                if any(idx(x) for x in ops) and any(not idx(x) and key in subterms_c(x) for x in ops): return True
        return any(idx(a) and key in subterms_c(b) or idx(b) and key in subterms_c(a) for a, b in st.eqs.items())

    def event(self, ev, st):
        if ev.kind == 'call' and ev.name in ('fcntl.flock', 'fcntl.lockf'):
            fl = names(ev.args[1]) if len(ev.args) > 1 else ''
            f = ev.args[0]
            keys = frozenset(repo_keys(f, self.cfg))
            if 'LOCK_UN' in fl:
                return st.unmark(*[m for m in st.marks if m[0] == 'locked' and m[1] is f])
            self.rep.ob('exclusive', ev.func)
            paths = [x for x in subterms_c(f) if x.op == 'path']
            ok = ev.name == 'fcntl.flock' and 'LOCK_EX' in fl and 'LOCK_NB' in fl and paths
            if ok and any(not is_const(c) for p in paths for c in path_parts(p)[1:]): ok = False
            if not ok: self.bad('exclusive', ev, st, 'the lock taken is not an exclusive flock that fails at once, on a fixed file of the repository: %s(%s)' % (ev.name, ', '.join(show(a)[:60] for a in ev.args)), key='lock')
            self.lockpaths |= set(paths)
            if self.holds_any(st): st = st.mark(('relcalled',))
            return st.mark(('locked', f, keys)) if ok else st
        if ev.kind == 'meth' and ev.name == 'close': return st.unmark(*[m for m in st.marks if m[0] == 'locked' and m[1] is ev.recv])
        if ev.kind == 'meth' and ev.name == 'shutdown_handler' and ev.recv is CTX or ev.kind == 'call' and ev.recv is not None and ev.recv.op == 'attr' and ev.recv.args[0] is CTX:
            return st.mark(('released',)) if self.route != START else st.mark(('relcalled',))
        if ev.kind == 'setattr' and ev.recv is CTX: return self.note(ev, st)
        if ev.kind == 'sql' and ev.sql is not None and ev.sql.table in TABLES and ev.sql.verb in ('insert', 'update', 'delete', '?'):
            for k in repo_keys(ev.recv, self.cfg): self.write(ev, st, k, '%s %s' % (ev.sql.verb, ev.sql.table))
        for e in model.effects(ev):
            if e[0] not in WRITES: continue
            for p in path_value(ev, e):
                if e[0] == 'openw' and self.route == START and not any(m[0] == 'locked' for m in st.marks) and self.islock(p): continue
                if e[0] in ('rename', 'remove', 'openw') and e[0] != 'openw' and any(mkpath([p]) is q for q in self.lockpaths): self.bad('exclusive', ev, st, 'the lock file itself is removed or replaced', key='lockfile')
                for k in repo_keys(p, self.cfg): self.write(ev, st, k, e[0])
        return st

    def islock(self, p): return mkpath([p]) in self.known_locks

    def note(self, ev, st):
        v = ev.args[0]
        if ev.name == 'shutdown_handler' or v.op == 'func':
            self.rep.ob('no-leak', ev.func)
            a = mk('attr', CTX, 'lock')
            if not st.has(('relcalled',)) and not self.holds_any(st): self.bad('no-leak', ev, st, 'the shutdown handler of the connection is replaced although it may still hold the lock of another repository')
            return st
        if is_const(v) and not cval(v): return st
        keys = repo_keys(v, self.cfg) | ({REPO_KEY} if REPO_KEY in subterms_c(v) else set())
        if self.route == START:
            self.rep.ob('claim', ev.func)
            if not any(m[0] == 'locked' for m in st.marks): self.bad('claim', ev, st, 'the connection is noted as holding the lock (%s) although it was not obtained' % ev.name)
            self.claims.setdefault(ev.name, set()).add(v)
        else:
            self.rep.ob('claim', ev.func); self.bad('claim', ev, st, 'route %s notes the connection as holding a lock (%s) without obtaining it' % (self.route, ev.name))
        return st

    def holds_any(self, st):
        # known to hold this repository's lock already, or none at all
        def idx(t): return t.op == 'attr' and t.args[0] is CTX
        for a, v in st.facts.items():
            if idx(a) and v is False: return True
            if a.op == 'cmp' and a.args[0] == 'eq' and v is True and any(idx(x) for x in a.args[1:]): return True
        return any(idx(a) or idx(b) for a, b in st.eqs.items())


class At:
    def __init__(self, loc, func): self.loc, self.func = loc, func


def reaches(eng, st, t, target):
    seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        for y in subterms_c(x):
            if y is target: return True
            if y in seen: continue
            seen.add(y)
            if y in st.heap: todo += list(st.heap[y].cand())
            if y.op == 'func':
                for z in y.args:
                    if isinstance(z, tuple):
                        todo += [w for w in z if isinstance(w, T)]
                fid = y.args[1]
                while fid is not None:
                    fr = st.frames.get(fid)
                    if fr: todo += [v for v in fr.values() if isinstance(v, T)]
                    fid = eng.parent_of.get(fid)
            if y.op == 'bound': todo += [z for z in y.args if isinstance(z, T)]
    return False


class Conn(Mon):
    raises = True
    noraise = ('app.release', 'close')

    def rel(self, t): return False

    def event(self, ev, st):
        if ev.kind == 'call' and ev.name == 'app.endpoint':
            for a in ev.args:
                h = st.heap.get(a)
                if h is not None and h.kind == INST and h.get(const('shutdown_handler')) is not None:
                    st = st.setheap(a, h.put(const('shutdown_handler'), mk('ext', 'app.release')))
                    st = st.unmark(('released',)).mark(('open',))
            if not st.has(('open',)): st = st.mark(('noctx',))
        if ev.kind == 'call' and ev.name == 'app.release': st = st.mark(('released',)).unmark(('open',))
        return st


def check_connection(rep, tier):
    eng = make_engine(intr=dict(model.READ, **http_summaries()))
    st, fv, args = connection_entry(eng, mk('ext', 'app.endpoint'))
    m = Conn(rep); eng.mon = m
    rets, exc = eng.run(fv, args, {}, st, 'connection')
    n = 0
    for st, v in rets + exc:
        n += 1
        if st.has(('noctx',)): rep.violate('connection', 'bversion/http/http_server.py', 'handle_connection', 'the request handler is not given the connection context', st, key='ctx')
        if st.has(('open',)):
            rep.violate('connection', 'bversion/http/http_server.py', 'handle_connection', 'the connection can end (%s) after a request was handled without its shutdown handler being called' % (show(v) if v is not NONE else 'normally'), st)
    rep.ob('connection', 'handle_connection: %d ways to end' % n)
    if not n: raise AnalysisBroken('no way for a connection to end was found')
    return eng


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    eng = make_engine(intr=model.READ); setup_alias(eng); cfg = config(eng)
    hs = handlers(eng)
    for n in (START, FINISH):
        if n not in hs: raise AnalysisBroken('route %s is not registered' % n)

    class Find(Monitor):
        """the files locks are taken on"""
        def __init__(s): s.p = set()
        def event(s, ev, st):
            if ev.kind == 'call' and ev.name in ('fcntl.flock', 'fcntl.lockf'): s.p |= {x for x in subterms_c(ev.args[0]) if x.op == 'path'}
            return st
    fi = Find(); eng.mon = fi
    run_handler(eng, START, hs[START])
    m = M(rep, cfg); m.known_locks = fi.p; m.raises = tier == 'thorough'; eng.mon = m
    m.route = START
    rets, exc = run_handler(eng, START, hs[START])
    at = At('bversion/server.py', START)
    done = set()
    for st, v in rets:
        locks = [x for x in st.marks if x[0] == 'locked']
        if not locks:
            rep.ob('held', 'begin_commit answer without the lock')
            if response_status(st, v) != 'fail': m.bad('held', at, st, 'begin_commit succeeds without holding the lock')
            continue
        h = st.heap.get(CTX)
        sh = h.get(const('shutdown_handler')) if h is not None else None
        rep.ob('kept', 'begin_commit answer %s' % response_status(st, v))
        if sh is None:
            m.bad('release', at, st, 'the lock is obtained but the connection gets no shutdown handler that releases it'); continue
        for lk in locks:
            if not any(reaches(eng, st, x, lk[1]) for x in h.cand()): m.bad('kept', at, st, 'the locked file is no longer referenced once the request is answered, so the lock is lost')
        k = (sh, tuple(sorted((str(a), b) for a, b in st.facts.items() if any(x is CTX for x in subterms_c(a)))))
        if k in done: continue
        done.add(k)
        m.raises, save = False, m.raises
        r2, x2 = eng.run(sh, [], {}, st, 'shutdown')
        m.raises = save
        rep.ob('release', 'shutdown handler set by begin_commit')
        for s2, v2 in r2 + x2:
            if any(x[0] == 'locked' for x in s2.marks): m.bad('release', at, s2, 'the shutdown handler can end without releasing the lock')
            h2 = s2.heap.get(CTX)
            for a in m.claims:
                val = h2.get(const(a)) if h2 is not None else None
                if val is None or not (is_const(val) and not cval(val)): m.bad('release', at, s2, 'after the shutdown handler ran the connection is still noted as holding the lock (%s)' % a)
        if not r2: m.bad('release', at, st, 'the shutdown handler never completes')
    if not m.claims: raise AnalysisBroken('begin_commit notes nowhere on the connection context which lock it holds')
    for name, fv in hs.items():
        if name in LOGIN or name == START: continue
        m.route = name; eng.mon = m
        rets, exc = run_handler(eng, name, fv)
        if name == FINISH:
            for st, v in rets:
                if response_status(st, v) == 'fail': continue
                rep.ob('finish', 'route commit answers')
                if not st.has(('released',)): m.bad('finish', At('bversion/server.py', name), st, 'the commit route succeeds without releasing the lock')
    e2 = check_connection(rep, tier)
    return [eng, e2]
