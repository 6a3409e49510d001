"""C04: a commit starts or resumes only from the head read under the lock; only its owner resumes an unfinished one."""
from ..framework import *
from ..server_env import *
from .. import storage

RULES = {
    'head-current': 'a commit is started or resumed only if the declared revision equals the head read while the lock is held',
    'refusal': 'a refusal because of an outdated revision leaves no unfinished commit behind',
    'resume-owner': 'an unfinished commit is resumed only for the authenticated user and the address that began it',
    'rollback-first': 'a new commit is only begun when no unfinished commit is left (there was none, or it was rolled back)',
    'owner-recorded': 'what is recorded as owner of the commit is the authenticated user, the requesting address and the presented session',
    'partial': "the files of an unfinished commit are only disclosed to its owner",
    'started': 'a successful answer means a commit was started or resumed',
}
START = 'begin_commit'
PREV = header('previous_revision')


class M(Mon):
    raises = False

    def __init__(self, rep, cfg): super().__init__(rep); self.cfg = cfg

    def rel(self, t):
        return t is PREV or t.op in ('rows', 'row1') and t.args[1] in ('active_commit_exists', 'session_tokens')

    def bad(self, rule, ev, st, msg): self.rep.violate(rule, ev.loc, ev.func, msg, st, key=rule + ':' + ev.func)

    def owner_known(self, st):
        rows = session_rows(st, REPO_KEY, self.cfg)
        def act(t, col):
            t = canon_str(t)
            return t.op == 'sub' and t.args[1] is const(col) and any(x.op in ('rows', 'row1') and x.args[1] == 'active_commit_exists' and x.args[3] != 'init' for x in subterms_c(t))
        pairs = [(a.args[1], a.args[2]) for a, v in st.facts.items() if v is True and a.op == 'cmp' and a.args[0] == 'eq'] + list(st.eqs.items())
        user = any(act(x, 'user') and user_of(y, rows) or act(y, 'user') and user_of(x, rows) for x, y in pairs)
        ip = any(act(x, 'ip') and y is ADDR or act(y, 'ip') and x is ADDR for x, y in pairs)
        # compared as a whole: (user, ip) == (user, address)
        for x, y in pairs:
            if x.op == y.op == 'tup' and len(x.args[0]) == len(y.args[0]):
                for p, q in zip(x.args[0], y.args[0]):
                    user = user or act(p, 'user') and user_of(q, rows) or act(q, 'user') and user_of(p, rows)
                    ip = ip or act(p, 'ip') and q is ADDR or act(q, 'ip') and p is ADDR
        return user, ip

    def none_active(self, st, db=None):
        for a, v in st.facts.items():
            if a.op == 'nonempty' and v is False and any(x.op in ('rows', 'row1') and x.args[1] == 'active_commit_exists' and not x.args[2] and x.args[3] != 'init' for x in subterms_c(a)): return True
            if a.op == 'cmp' and a.args[0] == 'eq' and v is True and NONE in a.args[1:] and any(x.op == 'row1' and x.args[1] == 'active_commit_exists' and not x.args[2] and x.args[3] != 'init' for x in a.args[1:]): return True
        return any(a.op == 'row1' and a.args[1] == 'active_commit_exists' and not a.args[2] and a.args[3] != 'init' and b is NONE for a, b in st.eqs.items())

    def head_ok(self, st):
        for a, v in list(st.facts.items()):
            if v is True and a.op == 'cmp' and a.args[0] == 'eq' and PREV in a.args[1:]:
                o = a.args[1] if a.args[2] is PREV else a.args[2]
                if self.is_head(o): return True
        return any(a is PREV and self.is_head(b) or b is PREV and self.is_head(a) for a, b in st.eqs.items())

    def is_head(self, t):
        t = canon_str(t)
        if is_const(t): return True          # no head file: the initial revision
        return t.op == 'content' and model.under(t.args[0], 'head') and REPO_KEY in repo_keys(t, self.cfg) and t.args[1] == 'locked'

    def event(self, ev, st):
        if ev.kind == 'call' and ev.name in ('fcntl.flock', 'fcntl.lockf') and len(ev.args) > 1 and 'LOCK_UN' not in show(ev.args[1]):
            st = st.clone(); st.epochs = dict(st.epochs); st.epochs[('fs', '*')] = 'locked'; st.epochs[('db', '*')] = 'locked'
            return st.mark(('locked',))
        if ev.kind == 'sql' and ev.sql is not None and ev.sql.table == 'active_commit_exists' and REPO_KEY in repo_keys(ev.recv, self.cfg):
            q = ev.sql
            if q.verb == 'delete' and not q.where: return st.mark(('cleared',))
            if q.verb in ('insert', 'update'):
                self.rep.ob('head-current', ev.func)
                if not self.head_ok(st): self.bad('head-current', ev, st, 'a commit is %s without the declared revision being known to equal the head read under the lock' % ('started' if q.verb == 'insert' else 'resumed'))
                vals = dict(zip(q.cols, q.values)) if q.verb == 'insert' else dict(q.sets)
                rows = session_rows(st, REPO_KEY, self.cfg)
                self.rep.ob('owner-recorded', ev.func)
                if 'user' in vals and not user_of(vals['user'], rows) or 'ip' in vals and canon_str(vals['ip']) is not ADDR or \
                   'session_token' in vals and canon_str(vals['session_token']) is not canon_str(TOKEN) or q.verb == 'insert' and not {'user', 'ip', 'session_token'} <= set(vals):
                    self.bad('owner-recorded', ev, st, 'the recorded owner is not the authenticated user, requesting address and presented session: %s' % ', '.join('%s=%s' % (k, show(v)[:80]) for k, v in vals.items()))
                own = all(self.owner_known(st))
                if q.verb == 'insert':
                    self.rep.ob('rollback-first', ev.func)
                    if not (st.has(('cleared',)) or self.none_active(st)): self.bad('rollback-first', ev, st, 'a new commit is begun although an unfinished one may exist and was not rolled back')
                else:
                    self.rep.ob('resume-owner', ev.func)
                    if not own: self.bad('resume-owner', ev, st, "an unfinished commit is resumed without establishing that the authenticated user and the requesting address began it (user %s, address %s)" % self.owner_known(st))
                st = st.mark(('begun',))
        return st


class At:
    def __init__(self, loc, func): self.loc, self.func = loc, func


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    eng = make_engine(intr=dict(model.READ, **storage.TREE_READ)); setup_alias(eng); cfg = config(eng)
    hs = handlers(eng)
    if START not in hs: raise AnalysisBroken('route %s is not registered' % START)
    m = M(rep, cfg); eng.mon = m; m.raises = tier == 'thorough'
    rets, _ = run_handler(eng, START, hs[START])
    at = At('bversion/server.py', START)
    for st, v in rets:
        s = response_status(st, v)
        if s == 'fail':
            if st.has(('locked',)) and not st.has(('begun',)) and any(v2 is False and PREV in subterms_c(a) and a.op == 'cmp' for a, v2 in st.facts.items()):
                rep.ob('refusal', 'refused begin_commit')
                if not (st.has(('cleared',)) or m.none_active(st)): m.bad('refusal', at, st, 'begin_commit is refused for an outdated revision although an unfinished commit may remain')
            continue
        rep.ob('started', 'begin_commit answer')
        if not st.has(('begun',)): m.bad('started', at, st, 'begin_commit answers successfully without a commit having been started or resumed')
        b = inst_attr(st, v, 'body')
        rep.ob('partial', 'begin_commit answer')
        if b is not None and any(x.op in ('rows', 'row1') and x.args[1] == 'active_commit_changes' for x in subterms_c(b)) and not all(m.owner_known(st)):
            m.bad('partial', at, st, 'the pending files of an unfinished commit are sent to a client that is not known to be its owner')
    return [eng]
