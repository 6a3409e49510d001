"""Clients and the server together: the commands of the client are interpreted over small working copies (clientworld.py), and every
request they make is answered by interpreting the real request handler of the server over a small repository (repoworld.py).  Both
sides live in one abstract state; the side that is not running is kept apart."""
from .clientworld import *
import fnmatch as _fn

BASE = '/srv/repo'
SIDE = ('fs', 'db', 'op', 'conn', 'locked', 'switched', 'gone', 'faults', 'stamps')
CLOCK = 10000000.0
IP = const('10.0.0.1')
BODY = 'bversion.http.http_common.read_body.'
PUBLIC = const('public key')


def textual(v):
    """can this value be sent as a header?  None: unknown"""
    if is_const(v): return is_str(v)
    if v.op in ('obj', 'tup', 'fdict', 'flist', 'exc', 'cls', 'func', 'bound'): return False
    return True


class System(ClientWorld):
    """mon.side: who is running.  Problems found at the interface are reported by `wrong(kind, where, message, state)`"""
    def __init__(self, rep):
        super().__init__(rep); self.server = self; self.label = ''; self.drop = None; self.users = {'alice': ['repo']}; self.address = IP; self.op_in = None; self.log = []

    def intrinsics(self):
        r = super().intrinsics()
        r.update({'time.time': lambda e, st, a, k, node: [(st, const(self.clock()))], 'pysodium.randombytes': self.i_random, 'pysodium.crypto_sign_verify_detached': self.i_verify,
                  'os.urandom': self.i_random, 'secrets.token_bytes': self.i_random,
                  BODY + 'read': self.i_bread, BODY + 'read_all': self.i_breadall, BODY + 'dump': self.i_bdump, BODY + '__init__': lambda e, st, a, k, node: [(st, NONE)]})
        return r

    def clock(self): return CLOCK

    def i_random(self, e, st, args, kw, node):
        n = (st.auto.get('randoms') or 0) + 1
        return [(st.setauto(randoms=n), sym('#random %d' % n, None, True))]

    def i_verify(self, e, st, args, kw, node):
        sig = canon_str(args[0])
        while sig.op == 'call' and sig.args[0] in ('base64.b64decode', 'base64.b64encode') and sig.args[1]: sig = canon_str(sig.args[1][0])
        if sig.op == 'call' and sig.args[0] == 'signature' and canon_str(sig.args[1][0]) is canon_str(args[1]): return [(st, NONE)]
        e.raise_(st, mk('exc', 'ValueError', NONE)); return []

    between = None           # f(state, operation, number of the request) -> state: what others do before the server gets a request
    busy = False             # another process holds the repository's lock

    def i_flock(self, e, st, args, kw, node):
        self.lockable = not (self.busy and st.auto.get('side') == 'server')
        return super().i_flock(e, st, args, kw, node)

    # ---- the body of a request
    def i_bread(self, e, st, args, kw, node):
        rest = st.auto.get('body'); n = args[1] if len(args) > 1 else kw.get('length', NONE)
        if not rest: return [(st, NONE)]
        c, more = self.take(rest, None if n is NONE else n) if hasattr(self, 'cut') else (rest[0], rest[1:])
        return [(st.setauto(body=more), c)]

    def i_breadall(self, e, st, args, kw, node):
        rest = st.auto.get('body') or ()
        return [(st.setauto(body=()), rest[0] if len(rest) == 1 else const(b'') if not rest else cat(*rest))]

    def i_bdump(self, e, st, args, kw, node): return [(st.setauto(body=()), NONE)]

    # ---- switching sides
    def swap(self, st, to):
        side = st.auto.get('side') or 'client'
        if side == to: return st
        stash = dict(st.auto.get('stash') or ())
        stash[side] = tuple((k, st.auto.get(k)) for k in SIDE)
        new = dict(stash.pop(to))
        return st.setauto(side=to, stash=frozenset(stash.items()), **new)

    def fail(self, eng, st):
        if st.auto.get('side') != 'server': super().fail(eng, st)

    def snap(self, eng, st, node, what):
        if st.auto.get('side') != 'server': super().snap(eng, st, node, what)
        elif self.server_snaps is not None:
            k = (len(st.auto['net']), st.auto['fs'], st.auto['db'][0])
            if k not in self.server_snaps: self.server_snaps[k] = '%s (%s)' % (eng.loc(node), what)
    server_snaps = None

    def peek(self, st, side):
        """the autos of a side: dict"""
        if (st.auto.get('side') or 'client') == side: return {k: st.auto.get(k) for k in SIDE}
        return dict(dict(st.auto.get('stash') or ())[side])

    def poke(self, st, side, **kw):
        if (st.auto.get('side') or 'client') == side: return st.setauto(**kw)
        stash = dict(st.auto.get('stash')); d = dict(stash[side]); d.update(kw); stash[side] = tuple((k, d.get(k)) for k in SIDE)
        return st.setauto(stash=frozenset(stash.items()))

    def turn(self, st, name, fresh=None):
        """let another client run: its working copy and database; `fresh` (fs, rows) if it has not run yet"""
        now = st.auto.get('who') or 'A'
        if now == name: return st
        stash = dict(st.auto.get('stash') or ())
        stash['client ' + now] = tuple((k, st.auto.get(k)) for k in SIDE)
        d = stash.pop('client ' + name, None)
        if d is None:
            fs, rows = fresh
            d = tuple(dict(fs=frozenset(fs), db=(tuple(rows), tuple(rows)), op=frozenset(), conn=None, locked=frozenset(), switched=False, gone=frozenset(), faults=None, stamps=frozenset()).items())
        return st.setauto(who=name, stash=frozenset(stash.items()), **dict(d))

    # ---- the repository as it is stored
    def head(self, st):
        c = dict(self.peek(st, 'server')['fs']).get(mkpath([const(BASE), const('head')]))
        return 'root' if c is None else cval(c).decode() if is_str(c) and isinstance(cval(c), bytes) else cval(c) if is_str(c) else None

    def stored(self, st, rev):
        """{path: content} of a revision, None if something of it is missing or not understood"""
        if rev == 'root': return {}
        fs = dict(self.peek(st, 'server')['fs'])

        def read(h, kind):
            c = fs.get(mkpath([const(BASE), const(kind), const(h[:2]), const(h[2:])]))
            if c is None or kind == 'files': return c
            c = canon_str(c)
            return {cval(k): v for k, v in c.args[1][0].args[0] if is_str(k)} if c.op == 'call' and c.args[0] == 'json.dumps' and c.args[1][0].op == 'fdict' else None
        out = {}

        def walk(h, pre):
            t = read(h, 'index')
            if t is None or any(t.get(k) is None or t[k].op != 'fdict' for k in ('files', 'dirs')): return False
            for k, v in t['files'].args[0]:
                f = {cval(a): b for a, b in v.args[0] if is_str(a)} if v.op == 'fdict' else {}
                c = read(cval(f['hash']), 'files') if f.get('hash') is not None and is_str(f['hash']) else None
                if c is None or not is_str(k): return False
                out[pre + '/' + cval(k)] = c
            return all(is_str(k) and is_str(v) and walk(cval(v), pre + '/' + cval(k)) for k, v in t['dirs'].args[0])
        if not isinstance(rev, str): return None
        c = read(rev, 'index')
        if c is None or c.get('tree_root') is None or not is_str(c['tree_root']) or not walk(cval(c['tree_root']), ''): return None
        return out

    def touched(self, st, rev):
        """paths changed by the commits after a revision"""
        fs = dict(self.peek(st, 'server')['fs']); out = set(); h = self.head(st)
        while isinstance(h, str) and h not in ('root', rev):
            c = fs.get(mkpath([const(BASE), const('index'), const(h[:2]), const(h[2:])]))
            d = {cval(k): v for k, v in canon_str(c).args[1][0].args[0] if is_str(k)} if c is not None and canon_str(c).op == 'call' else None
            if d is None or d['changes'].op not in ('flist', 'tup') or not is_str(d['parent']): return None
            for e in d['changes'].args[0]:
                f = {cval(a): b for a, b in e.args[0] if is_str(a)} if e.op == 'fdict' else {}
                if is_str(f.get('path', NONE)): out.add(cval(f['path']))
            h = cval(d['parent'])
        return out

    def local_changes(self, st, ignored=()):
        """{path: 'new', 'changed' or 'deleted'}: what differs from the manifest"""
        man = manifest(st); now = working(st); out = {}
        for p in set(man) | set(now):
            if p in ('/.bvn_ignore', '/.bvn_pull_ignore') and p not in man or any(_fn.fnmatch(p, i) for i in ignored) and p not in man: continue
            if p not in now: out[p] = 'deleted'
            elif p not in man: out[p] = 'new'
            elif self.time_of(st, wc(p), now[p]) != man[p][0]: out[p] = 'changed'
        return out

    # ---- the network
    def wrong(self, kind, w, msg, st): pass

    def answered(self, w, op, s, hdr, body): pass

    def exchange(self, e, st, node, url, headers, data, gen, sent):
        hdr = self.fields(st, headers)
        if not is_str(url) or hdr is None: raise AnalysisBroken('a request of the client is not understood: %s' % show(url)[:80])
        op = cval(url); w = (e.loc(node), e.func.qual if e.func else '?')
        for k, v in hdr.items():
            if textual(v) is False:
                self.wrong('sent', w, 'the request %s sends a header %s that is not text: %s' % (op, k, show(v)[:40]), st)
                e.raise_(st, mk('exc', 'TypeError', NONE)); return []
        hdr = {k.lower() if isinstance(k, str) else k.decode().lower(): const((cval(v).decode() if isinstance(cval(v), bytes) else cval(v)).strip()) if is_str(v) else v for k, v in hdr.items()}
        self.log.append((op, frozenset(hdr)))
        st = st.setauto(net=st.auto['net'] + ((op, frozenset(hdr.items())),))
        self.fail(e, st)
        if sent: body = (sent[1],)
        elif data is NONE: body = (doc(fdict([])),)
        else: body = (doc(e.freeze(data, st)),)
        if self.between: st = self.between(st, op, len(st.auto['net']))
        cut = self.drop(op, len(st.auto['net']), hdr) if self.drop else None
        if cut == 'request': e.raise_(self.closed(e, st, node), mk('exc', 'Exception', const('Socket closed'))); return []
        out = []
        for s, h, b in self.serve(e, st, node, w, op, hdr, body):
            if cut == 'answer' or h is None:
                if h is not None: s = self.closed(e, s, node)
                e.raise_(s, mk('exc', 'Exception', const('Socket closed'))); continue
            self.n += 1; n = self.n
            s, hd = mkdict(s, 'answer%d' % n, sorted(h.items()))
            if gen:
                name = 'download:%d' % n
                e.intr[name] = self.download(b); b = mk('ext', name)
            out.append((s, tup(b, hd)))
        return out

    def serve(self, e, st, node, w, op, hdr, body):
        """interpret the server's handler: [(state, headers, body)], headers None: the connection is closed by the server"""
        st = self.swap(st, 'server')
        st, ctx = self.context(e, st, node)
        self.n += 1
        st, hd = mkdict(st, 'headers%d' % self.n, sorted([(k, v) for k, v in hdr.items()] + [('content-length', '10'), ('content-type', 'application/octet-stream'), ('host', 'localhost'), ('user-agent', 'BVersion'), ('accept-encoding', 'identity')], key=lambda x: x[0]))
        st = st.setauto(body=body)
        out = []
        for s, rd in e.call_value(e.lookup_public('bversion.http.http_common:read_body'), [mk('ext', 'recv'), const(10), const(b'')], {}, st, node):
            for s, rq in e.call_value(e.lookup_public('bversion.http.http_server:Request'), [self.address, const(40000), const('/' + op), hd, rd], {}, s, node):
                mark = len(e.exc)
                for s2, v in e.call_value(e.lookup_public('bversion.server:endpoint'), [rq, ctx], {}, s, node): out += self.response(e, s2, node, w, op, v)
                raised = e.exc[mark:]; del e.exc[mark:]
                for s2, x in raised:
                    self.wrong('handler', w, 'the handler of %s ends with %s' % (op, self.cause(x)), s2)
                    out.append((self.closed(e, s2, node), None, None))
        return [(self.swap(s, 'client'), h, b) for s, h, b in out]

    @staticmethod
    def cause(x):
        if x.op == 'exc': return str(x.args[0]) + ('' if len(x.args) < 2 or x.args[1] is NONE else ' %s' % show(x.args[1])[:60])
        return show(x)[:60]

    def response(self, e, st, node, w, op, v):
        h = response_headers(st, v); b = inst_attr(st, v, 'body')
        if h is None or b is None or h.rest or h.base is not None: raise AnalysisBroken('the answer of %s is not understood: %s' % (op, show(v)[:60]))
        out = {}
        for k, x in h.known:
            if textual(k) is False or textual(x) is False:
                self.wrong('answered', w, 'the answer of %s has a header %s that is not text: %s' % (op, show(k), show(x)[:40]), st)
                return [(self.closed(e, st, node), None, None)]
            k = cval(k); k = (k if isinstance(k, str) else k.decode()).lower()
            out[k] = const((cval(x).decode() if isinstance(cval(x), bytes) else cval(x)).strip()) if is_str(x) else canon_str(x)
        p = inst_attr(st, b, 'path')
        if p is not None and not is_str(b):
            fs = self.fs(st); q = mkpath([p])
            if q not in fs:
                self.wrong('answered', w, 'the answer of %s sends a file that does not exist: %s' % (op, show(q)), st)
                return [(self.closed(e, st, node), None, None)]
            b = fs[q]
        elif st.heap.get(b) is not None or is_const(b) and not isinstance(cval(b), bytes):
            self.wrong('answered', w, 'the body of the answer of %s is not a byte string: %s' % (op, show(b)[:60]), st)
            return [(self.closed(e, st, node), None, None)]
        self.answered(w, op, st, out, b)
        return [(st, out, canon_str(b))]

    # ---- connections
    def context(self, e, st, node):
        c = st.auto.get('context')
        if c is not None: return st, c
        (st, c), = e.call_value(e.lookup_public('bversion.http.http_server:ConnectionContext'), [], {}, st, node)[:1]
        return st.setauto(context=c), c

    def closed(self, e, st, node):
        """the server notices that the connection is gone"""
        side = st.auto.get('side') or 'client'
        c = st.auto.get('context')
        if c is None: return st
        st = self.swap(st, 'server').setauto(context=None)
        f = inst_attr(st, c, 'shutdown_handler')
        if f is not None:
            mark = len(e.exc)
            r = e.call_value(f, [], {}, st, node)
            more = e.exc[mark:]; del e.exc[mark:]
            st = r[0][0] if r else more[0][0]
        st = self.forget(st)
        return self.swap(st, side)

    @staticmethod
    def forget(st):
        """the thread of a connection ends"""
        for t, h in list(st.heap.items()):
            if t.op == 'fresh' and t.args[0] == 'threading.local': st = st.setheap(t, H(INST, extra='threading.local'))
        d, p = st.auto['db']
        return st.setauto(op=frozenset(), locked=frozenset(), db=(d, d))


def server_config(users):
    return [('repositories', [('repo', [('path', BASE), ('transient_db_path_override', None)])]),
            ('users', [(u, [('public_key', PUBLIC), ('uses_repositories', list(r))]) for u, r in sorted(users.items())])]


def build(st, v, name):
    """a Python description as heap values: lists of pairs are dictionaries"""
    if isinstance(v, list) and v and isinstance(v[0], tuple):
        known = []
        for i, (k, x) in enumerate(v):
            st, y = build(st, x, '%s.%s' % (name, k)); known.append((k, y))
        return mkdict(st, name, known)
    if isinstance(v, list):
        out = []
        for i, x in enumerate(v):
            st, y = build(st, x, '%s.%d' % (name, i)); out.append(y)
        return mklist(st, name, out)
    return st, v if isinstance(v, T) else const(v)


def system(mon):
    """engine whose base state has an initialised server"""
    eng = client_engine(mon); eng.thread_locals = True
    eng.intr.pop('bversion.storage.server_db.get_server_db_instance_for_thread', None)          # the real one
    st = RepoWorld.begin(eng.base, [], []).setauto(side='server', gone=frozenset(), stash=frozenset(), net=(), body=(), context=None, randoms=0)
    st, cfg = build(st, server_config(mon.users), 'server configuration')
    R, X = eng.run(eng.lookup_public('bversion.server:init_server'), [cfg], {}, st, 'init_server')
    if len(R) != 1: raise AnalysisBroken('the server cannot be initialised: %s' % ', '.join(show(x)[:60] for _, x in X))
    eng.base = mon.forget(R[0][0])
    return eng


def begin(mon, eng, server_fs, client_fs, client_rows, server_rows=()):
    """a server repository and one working copy"""
    mon.seen = set(); mon.snaps = []; mon.effects = []; mon.lockable = True; mon._auto = {}; mon.log = []
    st = RepoWorld.begin(eng.base, server_fs, server_rows).setauto(side='server', stash=frozenset(), context=None, body=(), randoms=0, gone=frozenset())
    stash = tuple((k, st.auto.get(k)) for k in SIDE)
    st = start(mon, eng, client_fs, client_rows)
    return st.setauto(side='client', stash=frozenset({('server', stash)}), context=None, body=(), randoms=0)


def settle(mon, eng, st):
    """the client process has ended: its connection is closed, what was not committed is gone"""
    st = mon.closed(eng, st, None)
    d, p = st.auto['db']
    st = st.setauto(op=frozenset(), locked=frozenset(), db=(d, d), net=(), answers=0, faults=None).clone()
    st.frames = {k: v if k == 'm:bversion.server' or not str(k).startswith('m:') else eng.base.frames.get(k, v) for k, v in st.frames.items()}
    st.facts = {}; st.eqs = {}
    return st
