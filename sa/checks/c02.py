"""C02: a login yields a session only for a verified, unexpired, single-use challenge of this address and an authorised user."""
from ..framework import *
from ..server_env import *

RULES = {
    'verified': "the challenge's signature was verified under the configured public key of the user the session is for",
    'challenge': 'the challenge is on record for the requesting address and expired challenges were removed before the look-up',
    'user-repo': 'the user is configured for the requested repository',
    'spent': 'the challenge is removed, durably, before the login succeeds',
    'session-row': 'the recorded session is for the verified user and the requesting address, expires, and is what the client is told',
    'resume': 'an existing session is only confirmed if it is on record for the address and has not expired',
    'random': 'challenges and session tokens come whole from a cryptographic generator (at least 32 bytes)',
    'issue': 'a challenge is recorded for the requesting address with an expiry time and is the one sent',
}
OPTIONAL = ('resume',)
CSPRNG = ('pysodium.randombytes', 'os.urandom', 'secrets.token_bytes', 'secrets.token_hex', 'secrets.token_urlsafe', 'nacl.utils.random')
CODEC = ('base64.b64encode', 'base64.urlsafe_b64encode', 'binascii.hexlify', 'str', 'bytes', 'base64.standard_b64encode')


def random_bytes(t):
    """number of random bytes the term is a pure encoding of, else 0"""
    t = canon_str(t)
    while True:
        if t.op == 'call' and t.args[0] in CODEC and t.args[1]: t = canon_str(t.args[1][0]); continue
        if t.op == 'meth' and t.args[1] in ('decode', 'encode', 'hex'): t = canon_str(t.args[0]); continue
        break
    if t.op in ('call', 'fresh') and t.args[0] in CSPRNG:
        n = [a for x in t.args[1:] for a in (x if isinstance(x, tuple) else (x,)) if isinstance(a, T) and is_const(a) and type(cval(a)) is int]
        if n: return cval(n[0])
        return 32 if t.args[0].startswith('secrets.') else 0
    return 0


def now_plus(t):
    """expiry = current time plus a positive bounded amount"""
    if not is_now(t): return False
    if t.op == 'bin' and t.args[0] in ('add', '+'): return True
    return any(x.op == 'bin' for x in subterms_c(t)) or t.op not in ('fresh', 'call')


class M(Mon):
    route = ''

    def __init__(self, rep, cfg): super().__init__(rep); self.cfg = cfg

    def rel(self, t):
        return t.op in ('rows', 'row1') and t.args[1] in ('tokens', 'session_tokens') or t.op == 'sub' and t.args[1] is const('uses_repositories')

    def bad(self, rule, ev, st, msg): self.rep.violate(rule, ev.loc, ev.func, msg, st, key=self.route + ':' + rule)

    def verified(self, st): return [m for m in st.marks if m[0] == 'sig']

    def event(self, ev, st):
        if ev.kind in ('call', 'meth') and 'verify' in str(ev.name) and (str(ev.name).startswith('pysodium') or 'sign' in str(ev.name) or ev.kind == 'meth'):
            users = mk('sub', self.cfg, const('users'))
            al = list(ev.args) + list(ev.kw.values()) + ([ev.recv] if ev.recv is not None else [])
            for u in al:
                for x in subterms_c(u):
                    if x.op == 'sub' and x.args[1] is const('public_key') and x.args[0].op == 'sub' and x.args[0].args[0] is users:
                        for c in al:
                            if c is not u: st = st.mark(('sig', canon_str(c), canon_str(x.args[0].args[1])))
            return st
        if ev.kind == 'meth' and ev.name == 'commit':
            db = ev.eng.dbroot(ev.recv)
            for m in st.marks:
                if m[0] == 'deleted' and m[1] is db: st = st.mark(('spent', m[2]))
            return st
        if ev.kind != 'sql' or ev.sql is None: return st
        q = ev.sql
        if q.table == 'tokens' and q.verb == 'delete' and not q.complex and len(q.where) == 1 and q.where[0][0] == 'token' and q.where[0][1] == '=' and REPO_KEY in repo_keys(ev.recv, self.cfg):
            st = st.mark(('deleted', ev.recv, canon_str(q.where[0][2])))
        st = expiry_marks(ev, expiry_marks(ev, st, 'tokens'), 'session_tokens')
        if q.verb == 'insert':
            v = dict(zip(q.cols, q.values))
            if q.table == 'session_tokens': self.session(ev, st, v); st = st.mark(('session', canon_str(v.get('token', NONE))))
            if q.table == 'tokens':
                n = random_bytes(v.get('token', NONE))
                self.rep.ob('random', ev.func)
                if n < 32: self.bad('random', ev, st, 'the challenge %s is not at least 32 bytes of a cryptographic generator' % show(v.get('token', NONE))[:120])
                self.rep.ob('issue', ev.func)
                if v.get('ip') is None or canon_str(v['ip']) is not ADDR: self.bad('issue', ev, st, 'the challenge is not recorded for the requesting address')
                if 'expires' not in v or not now_plus(v['expires']): self.bad('issue', ev, st, 'the challenge has no expiry time in the future')
                st = st.mark(('issued', canon_str(v.get('token', NONE))))
        return st

    def session(self, ev, st, v):
        rep = self.rep
        for r in ('verified', 'challenge', 'user-repo', 'spent', 'session-row', 'random'): rep.ob(r, 'authenticate: ' + ev.func)
        user = canon_str(v.get('username', NONE))
        if REPO_KEY not in repo_keys(ev.recv, self.cfg): self.bad('session-row', ev, st, 'the session is recorded for another repository than the requested one')
        if v.get('ip') is None or canon_str(v['ip']) is not ADDR: self.bad('session-row', ev, st, 'the session is not tied to the requesting address')
        if 'expires' not in v or not now_plus(v['expires']): self.bad('session-row', ev, st, 'the session has no expiry time in the future')
        if random_bytes(v.get('token', NONE)) < 32: self.bad('random', ev, st, 'the session token %s is not at least 32 bytes of a cryptographic generator' % show(v.get('token', NONE))[:120])
        self.login(ev, st, user)

    def login(self, ev, st, user):
        ch = {m[1] for m in self.verified(st) if user is None or m[2] is user}
        if not ch:
            self.bad('verified', ev, st, 'a session is created for %s without a completed signature verification under the public key configured for that user' % (show(user) if user is not None else 'a user'))
            return
        good = [c for c in ch for r in known_rows(st, 'tokens', REPO_KEY, self.cfg, {'token': c, 'ip': ADDR})]
        live = [c for c in ch for r in known_rows(st, 'tokens', REPO_KEY, self.cfg, {'token': c, 'ip': ADDR}) if st.has(('live', r)) or live_by_test(st, r)]
        if not good: self.bad('challenge', ev, st, 'the signed challenge is not known to be on record for the requesting address')
        elif not live: self.bad('challenge', ev, st, 'the signed challenge may have expired')
        users = mk('sub', self.cfg, const('users'))
        lst = mk('sub', mk('sub', users, user), const('uses_repositories')) if user is not None else None
        ok = any(a.op == 'in' and a.args[0] is REPO_KEY and a.args[1] is lst for a in true_facts(st)) or \
            any(b.op == 'cmp' and b.args[0] == 'eq' and REPO_KEY in b.args[1:] and v and any(o.op == 'elem' and o.args[0] is lst for o in b.args[1:])
                for a in true_facts(st) if a.op == 'exists' for b, v in a.args[0])
        if user is not None and not ok: self.bad('user-repo', ev, st, 'the user is not known to be configured for the requested repository')


class At:
    def __init__(self, loc, func): self.loc, self.func = loc, func


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    eng = make_engine(intr=model.READ); setup_alias(eng); cfg = config(eng)
    hs = handlers(eng)
    m = M(rep, cfg); m.raises = True; eng.mon = m
    for name in LOGIN:
        if name not in hs: raise AnalysisBroken('login step %s is not registered' % name)
    m.route = 'begin_auth'
    rets, _ = run_handler(eng, 'begin_auth', hs['begin_auth'])
    at = At('bversion/server.py', 'begin_auth')
    for st, v in rets:
        if response_status(st, v) == 'fail': continue
        h = response_headers(st, v); tok = h.get(const('auth_token')) if h is not None else None
        rep.ob('issue', 'begin_auth answer')
        if tok is None or not st.has(('issued', canon_str(tok))): m.bad('issue', at, st, 'the challenge sent is not the one recorded')
    m.route = 'authenticate'
    rets, _ = run_handler(eng, 'authenticate', hs['authenticate'])
    at = At('bversion/server.py', 'authenticate')
    for st, v in rets:
        if response_status(st, v) == 'fail': continue
        new = [x for x in st.marks if x[0] == 'session']
        h = response_headers(st, v); tok = h.get(const('session_token')) if h is not None else None
        if new:
            rep.ob('session-row', 'authenticate answer')
            if tok is None or canon_str(tok) is not new[0][1]: m.bad('session-row', at, st, 'the session token sent is not the one recorded')
            rep.ob('spent', 'authenticate answer')
            if not any(x[0] == 'spent' and any(y[0] == 'sig' and y[1] is x[1] for y in st.marks) for x in st.marks):
                m.bad('spent', at, st, 'the login succeeds although the challenge is still on record')
        else:
            rep.ob('resume', 'authenticate answer without a new session')
            rows = session_rows(st, REPO_KEY, cfg)
            if not rows: m.bad('resume', at, st, 'a login succeeds without a new session and without an existing one on record for the address')
            elif not any(st.has(('live', r)) or live_by_test(st, r) for r in rows): m.bad('resume', at, st, 'an existing session is confirmed although it may have expired')
    return [eng]
