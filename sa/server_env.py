"""Analysis environment of the server's request handlers."""
from .terms import *
from .state import *
from .program import AnalysisBroken
from . import model

REQ = sym('request', 'bversion.http.http_server.Request')
CTX = sym('context', 'bversion.http.http_server.ConnectionContext')
HDR = mk('attr', REQ, 'headers')
ADDR = mk('attr', REQ, 'remote_addr')


def header(name): return mk('sub', HDR, const(name))


REPO_KEY = header('repository')
TOKEN = header('session_token')
LOGIN = ('begin_auth', 'authenticate')


def handlers(eng):
    v = eng.lookup_public('bversion.server:routes')
    h = eng.base.heap.get(v)
    if h is None or not h.known: raise AnalysisBroken('the route registry bversion.server.routes is empty')
    out = {}
    for k, f in h.known:
        if is_str(k): out[cval(k)] = f
    return out


def config(eng):
    return eng.lookup_public('bversion.server:config')


def setup_alias(eng):
    c = config(eng)
    ALIASES[mk('sub', mk('sub', c, const('repositories')), REPO_KEY)] = 'REPO'


def run_handler(eng, name, fv, st=None):
    return eng.run(fv, [REQ, CTX], {}, st or eng.base, 'route ' + name)


def repo_keys(t, cfg):
    """repository names whose configuration the term is built from"""
    reps = mk('sub', cfg, const('repositories'))
    return {x.args[1] for x in subterms_c(t) if x.op == 'sub' and x.args[0] is reps} | \
           {x for x in subterms_c(t) if x.op == 'elem' and (x.args[0] is reps or x.args[0].op in ('view', 'meth', 'call') and reps in x.args[0].args)}


def repo_path(cfg, key): return mk('sub', mk('sub', mk('sub', cfg, const('repositories')), key), const('path'))


def response_status(st, v):
    """'ok', 'fail', or None if unknown"""
    h = st.heap.get(v)
    if h is None: return None
    hd = h.get(const('headers'))
    hh = st.heap.get(hd) if hd is not None else None
    if hh is None: return None
    s = hh.get(const('status'))
    return cval(s) if s is not None and is_str(s) else None


def inst_attr(st, obj, name):
    h = st.heap.get(obj)
    if h is not None and h.kind == INST: return h.get(const(name))
    return None


def response_headers(st, v):
    hd = inst_attr(st, v, 'headers')
    return st.heap.get(hd) if hd is not None else None


def where_eq(where, col, val):
    return any(c == col and op in ('=', '==', 'is') and canon_str(v) is canon_str(val) for c, op, v in where if isinstance(v, T))


def true_facts(st):
    for a, v in st.facts.items():
        if v is True: yield a


def known_rows(st, table, key, cfg, conds):
    """row sets of `table` of repository `key` known to be non-empty and selected by all of conds = {column: value}"""
    out = []

    def ok(r):
        return r.op in ('rows', 'row1') and r.args[1] == table and (key is None or key in repo_keys(r.args[0], cfg)) \
            and all(where_eq(r.args[2], c, v) for c, v in conds.items())
    for a in true_facts(st):
        if a.op == 'nonempty': out += [r for r in subterms_c(a) if ok(r)]
        if a.op == 'cmp' and a.args[0] == 'eq' and any(is_const(x) and type(cval(x)) is int and cval(x) > 0 for x in a.args[1:]):
            out += [r for x in a.args[1:] if x.op == 'call' and x.args[0] == 'len' for r in subterms_c(x) if ok(r)]
    for a, v in st.facts.items():           # fetchone() is not None
        if v is False and a.op == 'cmp' and a.args[0] == 'eq' and NONE in a.args[1:]:
            out += [r for r in a.args[1:] if r.op == 'row1' and ok(r)]
    return out


def session_rows(st, key, cfg):
    """row sets of the session table of repository `key` known to be non-empty, matching presented token and address"""
    return known_rows(st, 'session_tokens', key, cfg, {'token': TOKEN, 'ip': ADDR})


def rows_pair(r):
    """the fetchall and the fetchone view of one select"""
    return (r, mk('row1' if r.op == 'rows' else 'rows', *r.args))


def expiry_marks(ev, st, table, exempt=None):
    """typestate of expiry: ('gc', db) after expired rows were deleted; ('live', rows) for rows selected after that"""
    q = ev.sql
    if q.table != table: return st
    if q.verb == 'delete':
        exp = [x for x in q.where if x[0] == 'expires' and x[1] in ('<', '<=') and isinstance(x[2], T) and is_now(x[2])]
        others = [x for x in q.where if x not in exp]
        if exp and not q.complex and all(exempt is not None and exempt(c, op, v, ev.recv) for c, op, v in others):
            st = st.mark(('gc', ev.recv, table))
    elif q.verb == 'select':
        fresh = any(c == 'expires' and op in ('>', '>=') and isinstance(v, T) and is_now(v) for c, op, v in q.where)
        if fresh or st.has(('gc', ev.recv, table)):
            for x in subterms_c(ev.result):
                if x.op in ('rows', 'row1'): st = st.mark(*[('live', y) for y in rows_pair(x)])
    return st


def live_by_test(st, r):
    """a comparison of the row's expiry with the current time established that it has not expired"""
    for a, v in st.facts.items():
        if a.op == 'cmp' and a.args[0] in ('lt', 'le', 'gt', 'ge') and len(a.args) == 3:
            x, y = a.args[1:]
            if a.args[0] in ('gt', 'ge'): x, y = y, x          # x < y
            e = lambda t: t.op == 'sub' and t.args[1] is const('expires') and any(q in subterms_c(t) for q in rows_pair(r))
            if v is True and is_now(x) and e(y) or v is False and e(x) and is_now(y): return True
    return False


def user_of(t, rows):
    """is t the username column of one of these rows?"""
    t = canon_str(t)
    return t.op == 'sub' and t.args[1] is const('username') and any(r in subterms_c(t.args[0]) for r in rows)


def authorised_users(st, key, cfg, rows):
    users = mk('sub', cfg, const('users'))
    out = []
    for a in true_facts(st):
        if a.op == 'in' and a.args[0] is key:
            c = a.args[1]
            if c.op == 'sub' and c.args[1] is const('uses_repositories') and c.args[0].op == 'sub' and c.args[0].args[0] is users \
                    and user_of(c.args[0].args[1], rows): out.append(c.args[0].args[1])
        if a.op == 'exists':             # any(x == repository for x in ...uses_repositories)
            for b, v in a.args[0]:
                if v is True and b.op == 'cmp' and b.args[0] == 'eq' and key in b.args[1:]:
                    o = b.args[1] if b.args[2] is key else b.args[2]
                    if o.op == 'elem' and o.args[0].op == 'sub' and o.args[0].args[1] is const('uses_repositories') and \
                            o.args[0].args[0].op == 'sub' and user_of(o.args[0].args[0].args[1], rows): out.append(o.args[0].args[0].args[1])
    return out


def is_now(t):
    return any(x.op in ('fresh', 'call', 'meth') and any(w in str(x.args[0] if x.op != 'meth' else x.args[1]) for w in ('time', 'now', 'monotonic'))
               for x in subterms_c(t))


def path_value(ev, eff):
    """path terms a file-system effect acts on"""
    return [x for x in eff[1:] if isinstance(x, T)][:2 if eff[0] in ('rename', 'copy', 'link') else 1]


def served_file(ev):
    """path of a ServeFile response being constructed"""
    if ev.kind == 'new' and str(ev.name).split('.')[-1] == 'ServeFile':
        return ev.args[0] if ev.args else next(iter(ev.kw.values()), None)
    return None


# ---------------------------------------------------------------- the connection loop of the HTTP server
def opaque(name):
    def i(eng, st, args, kw, node):
        eng.maybe_raise(st, name)
        return eng.emit2('call', name, args, kw, None, mk('fresh', name, eng.site(node)), node, st)
    return i


def connection_entry(eng, handler):
    """(state, function, args) with which HTTPServer starts the thread of a connection"""
    from .engine import Monitor
    got = []

    class S(Monitor):
        def event(self, ev, st):
            if ev.kind == 'call' and ('start_new_thread' in ev.name): got.append((st, ev.args[0], ev.args[1]))
            elif ev.kind in ('call', 'new') and str(ev.name).split('.')[-1] in ('Thread', 'Timer') and 'target' in ev.kw:
                got.append((st, ev.kw['target'], ev.kw.get('args', tup())))
            elif ev.kind == 'meth' and ev.name == 'submit' and ev.args: got.append((st, ev.args[0], tup(*ev.args[1:])))
            return st
    old, eng.mon = eng.mon, S()
    f = eng.lookup_public('bversion.http.http_server:HTTPServer')
    eng.run(f, [sym('host'), sym('port'), handler], {}, eng.base, 'HTTPServer')
    eng.mon = old
    if not got: raise AnalysisBroken('HTTPServer starts no connection thread that can be analysed')
    st, fv, a = got[0]
    h = st.heap.get(a)
    args = list(a.args[0]) if a.op == 'tup' else list(h.known) if h is not None else []
    return st, fv, args


def http_summaries():
    d = {'bversion.http.http_common.parse_http_request_preamble': opaque('parse_http_request_preamble')}
    for n in ('read', 'read_all', 'dump'): d['bversion.http.http_common.read_body.' + n] = opaque('read_body.' + n)
    return d
