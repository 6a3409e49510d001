"""C01: every request other than the login steps reads or changes repository data only for a live session of that repository."""
from ..framework import *
from ..server_env import *

RULES = {
    'session': 'a session row for the presented token and the requesting address is known to exist',
    'expiry': 'expired sessions were removed (or excluded) before that row was looked up; only the session owning the unfinished commit is exempt',
    'user-repo': "the session's user is known to be configured for the very repository accessed",
    'dispatch': 'the endpoint passes the request and connection context it was given to the registered handler',
    'extend': 'the life of a session is only extended once the session is established as live',
    'db-cache': 'the per-thread database handle belongs to the repository it was requested for',
}
FREE = ('tokens',)


class M(Mon):
    def __init__(self, rep, cfg):
        super().__init__(rep); self.cfg = cfg; self.route = ''

    def rel(self, t):
        return t.op in ('rows', 'row1') and t.args[1] == 'session_tokens' or t.op == 'sub' and t.args[1] is const('uses_repositories')

    def authorised(self, st, key):
        rows = session_rows(st, key, self.cfg)
        live = [r for r in rows if st.has(('live', r)) or live_by_test(st, r)]
        users = authorised_users(st, key, self.cfg, live or rows)
        return rows, live, users

    def require(self, ev_loc, func, st, key, what):
        rows, live, users = self.authorised(st, key)
        c = '%s: %s' % (self.route, what)
        for rule, ok, msg in (('session', rows, 'no session for the presented token and address is known to exist'),
                              ('expiry', live or not rows, 'the session may have expired'),
                              ('user-repo', users or not live, "the session's user is not known to be configured for repository %s" % show(key))):
            if ok: self.rep.ob(rule, c)
            else: self.rep.violate(rule, ev_loc, func, '%s in route %s: %s' % (what, self.route, msg), st, key='%s:%s' % (self.route, func))

    def event(self, ev, st):
        if ev.kind == 'sql' and ev.sql is not None:
            q = ev.sql; keys = repo_keys(ev.recv, self.cfg)
            if q.table == 'session_tokens':
                st = expiry_marks(ev, st, 'session_tokens', self.exempt)
                if q.verb == 'update' and any(c == 'expires' for c, _ in q.sets):
                    for k in keys:
                        rows, live, users = self.authorised(st, k)
                        if live: self.rep.ob('extend', '%s: %s' % (self.route, ev.func))
                        else: self.rep.violate('extend', ev.loc, ev.func, 'route %s extends the expiry of a session before it is known to be live' % self.route, st)
                return st
            if q.table in FREE: return st
            if q.table == 'active_commit_exists' and q.verb == 'select': return st
            for k in keys: self.require(ev.loc, ev.func, st, k, '%s of %s' % (q.verb, q.table))
            return st
        effs = model.effects(ev)
        for e in effs:
            for p in path_value(ev, e):
                for k in repo_keys(p, self.cfg): self.require(ev.loc, ev.func, st, k, e[0])
        if ev.kind == 'call' and ev.name.startswith('os.path.') and ev.name.split('.')[-1] in ('isfile', 'exists', 'isdir', 'getsize', 'getmtime'):
            for k in repo_keys(ev.args[0], self.cfg): self.require(ev.loc, ev.func, st, k, 'probe')
        p = served_file(ev)
        if p is not None:
            for k in repo_keys(p, self.cfg): self.require(ev.loc, ev.func, st, k, 'serve file')
        return st

    def exempt(self, c, op, v, db): return c == 'token' and op == '!=' and self.is_commit_owner(v, db)

    def is_commit_owner(self, v, db):
        return isinstance(v, T) and any(x.op in ('rows', 'row1') and x.args[1] == 'active_commit_exists' and x.args[0] is db for x in subterms_c(v)) \
            and v.op == 'sub' and v.args[1] is const('session_token')


def check_dispatch(rep, eng):
    f = eng.lookup_public('bversion.server:endpoint')
    cfg = config(eng)

    class D(Mon):
        hits = 0
    hs = handlers(eng)
    seen = []

    def spy(name):
        def i(e, st, args, kw, node):
            seen.append((name, tuple(args)))
            return [(st, mk('sym', 'response', None, False))]
        return i
    save = dict(eng.intr)
    for n, h in hs.items():
        q = h.args[0] if h.op == 'func' else None
        if q: eng.intr[q] = spy(n)
    eng.mon = D(rep)
    rets, _ = eng.run(f, [REQ, CTX], {}, eng.base, 'endpoint')
    eng.intr.clear(); eng.intr.update(save)
    names = {n for n, _ in seen}
    for n, args in seen:
        if len(args) >= 2 and args[0] is REQ and args[1] is CTX: rep.ob('dispatch', 'endpoint -> ' + n)
        else: rep.violate('dispatch', 'bversion/server.py', 'endpoint', 'handler %s is called with %s instead of the request and context of this connection' % (n, show(tuple(args))))
    if not seen: rep.ob('dispatch', 'endpoint (handlers reached through an opaque table)')


def check_db_cache(rep, eng):
    """get_server_db_instance_for_thread: the cached instance is returned only for the path it was made for"""
    from . import dbcache
    dbcache.check(rep, eng, 'db-cache')


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    eng = make_engine(intr=model.READ); setup_alias(eng)
    cfg = config(eng)
    m = M(rep, cfg); m.raises = tier == 'thorough'
    for name, fv in handlers(eng).items():
        if name in LOGIN: continue
        eng.mon = m; m.route = name
        rets, exc = run_handler(eng, name, fv)
        for st, v in rets:
            s = response_status(st, v)
            if s == 'fail': continue
            m.require('bversion/server.py', name, st, REPO_KEY, 'answer ' + (s or 'unknown'))
    rep.info['routes'] = sorted(handlers(eng))
    check_dispatch(rep, eng)
    check_db_cache(rep, eng)
    return [eng]
