"""One working copy with concrete file names and symbolic contents, and a server that answers from a small history: the commands of
the client are interpreted over it from the command line on.  Modification times are numbers, one per content."""
import fnmatch as _fn
from .remote import *

WC = '/w'
NOW = 5000.0
USER, REPO, TOKEN_, AUTH = const('alice'), const('repo'), sym('#session', None, True), sym('#challenge', None, True)
KEY = b1('secret key', size=64)


def wc(path): return mkpath([const(WC + path)])
def content(name): return sym('#content of ' + name, None, True)


UNKNOWN = '<?>'


def text(a):
    """what is printed for a value; UNKNOWN if it is not understood"""
    if is_str(a): return cval(a) if isinstance(cval(a), str) else repr(cval(a))
    if is_const(a): return str(cval(a))
    a = canon_str(a)
    if a.op == 'cat': return ''.join(text(x) for x in a.args[0])
    return '<%s>' % show(a) if a.op == 'sym' else UNKNOWN


def spoken(ev):
    """what an event writes to the standard output, None if it is not about that"""
    if ev.kind == 'print':
        if 'file' in ev.kw: return None
        given = lambda k, d: text(ev.kw[k]) if ev.kw.get(k, NONE) is not NONE else d
        return given('sep', ' ').join(text(a) for a in ev.args) + given('end', '\n')
    if ev.kind in ('meth', 'call') and ev.name.split('.')[-1] in ('write', 'writelines') and (ev.recv is not None and 'stdout' in show(ev.recv) or 'stdout' in ev.name):
        return text(ev.args[0]) if ev.args and ev.name.endswith('write') else UNKNOWN
    if ev.kind in ('meth', 'call') and 'pprint' in ev.name: return UNKNOWN
    return None


def printed(said): return [l.strip() for l in ''.join(said).split('\n') if l.strip()]


class Server:
    """what the server answers; subclasses or instances override single operations"""
    def __init__(self, **over): self.over = over

    def answer(self, w, e, st, op, hdr, body):
        """[(state, headers, body)]; headers None: the connection breaks"""
        f = self.over.get(op) or getattr(self, 'op_' + op, None)
        if f is None: return [(st, {'status': 'fail', 'msg': 'unknown operation'}, const(b''))]
        r = f(w, e, st, hdr, body) if callable(f) else f
        if isinstance(r, list): return r
        return [(st,) + tuple(r)]

    def op_begin_auth(self, w, e, st, hdr, body): return {'status': 'ok', 'auth_token': AUTH}, const(b'')
    def op_authenticate(self, w, e, st, hdr, body): return {'status': 'ok', 'session_token': TOKEN_, 'server_version': '1000'}, const(b'')


FAIL = ({'status': 'fail', 'msg': 'refused'}, const(b''))
BROKEN = (None, None)


class ClientWorld(Remote):
    answers = (); server = Server(); cwd = WC
    times = {}               # (path, content) -> modification time given by the case

    class TABLES_:
        def __contains__(self, t): return True
    TABLES = TABLES_()

    def intrinsics(self):
        r = super().intrinsics()
        C = 'bversion.http.client_http_request.client_http_request.'
        r.update({C + '__init__': lambda e, st, a, k, node: [(st, NONE)], C + 'request': self.i_request, C + 'send_file': self.i_send,
                  'os.getcwd': lambda e, st, a, k, node: [(st, const(self.cwd))], 'input': self.said('answers'), 'getpass.getpass': self.said('answers'),
                  'fnmatch.fnmatch': self.i_fnmatch('fnmatch'), 'fnmatch.fnmatchcase': self.i_fnmatch('fnmatchcase'), 'fnmatch.filter': self.i_filter, 'float': self.i_float,
                  'shutil.copy': self.i_copies(False), 'shutil.copyfile': self.i_copies(False), 'shutil.copy2': self.i_copies(True), 'shutil.copystat': self.i_copystat,
                  'os.path.getmtime': self.i_mtime(0), 'os.path.getctime': self.i_mtime(1), 'os.path.getsize': self.i_size, 'os.stat': self.i_osstat, 'os.lstat': self.i_osstat,
                  'pysodium.crypto_sign_detached': lambda e, st, a, k, node: [(st, mk('call', 'signature', tuple(a), ()))], 'os.rmdir': self.i_rmdirs(False), 'os.removedirs': self.i_rmdirs(True),
                  'termcolor.colored': lambda e, st, a, k, node: [(st, a[0])], 'os.access': lambda e, st, a, k, node: self.i_anyexists(e, st, a[:1], {}, node), 'os.path.relpath': self.i_relpath, 'os.path.realpath': self.i_same, 'os.path.abspath': self.i_same, 'os.path.normpath': self.i_same})
        return r

    def i_relpath(self, e, st, args, kw, node):
        a = path_parts(args[0]); b = path_parts(args[1]) if len(args) > 1 else path_parts(const(self.cwd))
        if not all(is_str(x) for x in tuple(a) + tuple(b)): return None
        return [(st, const(os.path.relpath('/' + '/'.join(cval(x) for x in a), '/' + '/'.join(cval(x) for x in b))))]

    def event(self, ev, st):
        if ev.kind == 'meth' and ev.recv is not None and ev.name in ('is_dir', 'is_file', 'is_symlink', 'stat'):
            h = st.heap.get(ev.recv); p = h.get(const('path')) if h is not None and h.kind == INST else None
            if p is not None:
                if ev.name == 'is_symlink': return [(st, FALSE)]
                return {'is_dir': self.i_isdir, 'is_file': self.i_exists, 'stat': self.i_osstat}[ev.name](ev.eng, st, [p], {}, ev.node)
        return super().event(ev, st)

    # ---- files whose time is that of their copying (`stamps`), not that of their content
    fresh_times = frozenset()

    def put(self, eng, st, node, fs, what):
        old = st.auto.get('stamps')
        if old or self.fresh_times:
            before = dict(st.auto['fs'])
            st = st.setauto(stamps=frozenset(p for p in old or () if p in fs and fs[p] is before.get(p)) | frozenset(p for p in self.fresh_times if p in fs))
            self.fresh_times = frozenset()
        return super().put(eng, st, node, fs, what)

    def i_copies(self, keep):
        def f(e, st, args, kw, node):
            a, b = self.two(args, kw); out = []
            for s, v in self.i_copy(e, st, args, kw, node):
                stamps = s.auto.get('stamps') or frozenset()
                out.append((s.setauto(stamps=stamps - {b} if keep and a not in stamps else stamps | {b}), v))
            return out
        return f

    def i_copystat(self, e, st, args, kw, node):
        a, b = self.two(args, kw); stamps = st.auto.get('stamps') or frozenset()
        return [(st.setauto(stamps=stamps | {b} if a in stamps else stamps - {b}), NONE)]

    def i_move(self, e, st, args, kw, node):
        a, b = self.two(args, kw); fs = self.fs(st); n = len(path_parts(a))
        below = [p for p in fs if path_parts(p)[:n] == path_parts(a) and p is not a]
        if a in fs or not below:
            if a in (st.auto.get('stamps') or ()): self.fresh_times = frozenset({b})
            try: return super().i_move(e, st, args, kw, node)
            finally: self.fresh_times = frozenset()
        self.fail(e, st)
        if self.occupied(st, tuple(path_parts(b))): e.raise_(st, mk('exc', 'OSError', mk('ext', 'errno.ENOTEMPTY'))); return []
        for p in below: fs[mkpath(list(path_parts(b)) + list(path_parts(p)[n:]))] = fs.pop(p)
        return [(self.put(e, st, node, fs, 'moving %s to %s' % (show(a), show(b))), b)]

    def i_same(self, e, st, args, kw, node): return [(st, args[0])] if args and (is_str(args[0]) or args[0].op == 'path') else None

    # ---- the user
    def said(self, what):
        def f(e, st, args, kw, node):
            n = st.auto.get(what) or 0; seq = getattr(self, what)
            if n >= len(seq): e.raise_(st, mk('exc', 'EOFError', NONE)); return []
            return [(st.setauto(**{what: n + 1}), seq[n])]
        return f

    def i_fnmatch(self, name):
        def f(e, st, args, kw, node):
            if len(args) == 2 and all(is_str(a) and isinstance(cval(a), str) for a in args): return [(st, TRUE if getattr(_fn, name)(cval(args[0]), cval(args[1])) else FALSE)]
            return None
        return f

    def i_filter(self, e, st, args, kw, node):
        h = st.heap.get(args[0])
        if h is None or h.kind not in (LIST, SET) or h.rest or h.base is not None or not is_str(args[1]) or not all(is_str(x) for x in h.known): return None
        self.n += 1
        return [mklist(st, 'filtered%d' % self.n, [x for x in h.known if _fn.fnmatch(cval(x), cval(args[1]))])]

    def i_float(self, e, st, args, kw, node):
        if args and is_const(args[0]):
            try: return [(st, const(float(cval(args[0]))))]
            except (ValueError, TypeError): e.raise_(st, mk('exc', 'ValueError', NONE)); return []
        return None

    # ---- file times
    def when(self, p, c):
        k = (p, c)
        if k in self.times: return self.times[k]
        k = c
        if k not in self._auto: self._auto[k] = NOW + len(self._auto)
        return self._auto[k]
    _auto = {}

    def time_of(self, st, p, c):
        t = self.when(p, c)
        if p not in (st.auto.get('stamps') or ()): return t
        return tuple(x + 0.125 for x in t) if isinstance(t, tuple) else t + 0.125

    def i_mtime(self, which):
        def f(e, st, args, kw, node):
            a = self.one(args, kw); fs = self.fs(st)
            if a not in fs: return self.i_dirtime(e, st, a)
            self.fail(e, st)
            t = self.time_of(st, a, fs[a])
            return [(st, const(t[which] if isinstance(t, tuple) else t - 500 * which))]
        return f

    def i_dirtime(self, e, st, a):
        (s, v), = self.i_isdir(e, st, [a], {}, None)
        return [(st, const(1.0))] if v is TRUE else self.missing(e, st)

    def i_size(self, e, st, args, kw, node):
        a = self.one(args, kw); fs = self.fs(st)
        if a not in fs: return self.missing(e, st)
        return [(st, mk('call', 'len', (fs[a],), ()))]

    def i_osstat(self, e, st, args, kw, node):
        a = self.one(args, kw); fs = self.fs(st)
        if a not in fs: return self.missing(e, st)
        self.fail(e, st); self.n += 1; t = self.time_of(st, a, fs[a]); t, c = t if isinstance(t, tuple) else (t, t - 500)
        return [obj(st, 'stat%d' % self.n, H(INST, [(const('st_mtime'), const(t)), (const('st_ctime'), const(c)), (const('st_mtime_ns'), const(int(t * 10 ** 9))), (const('st_ctime_ns'), const(int(c * 10 ** 9))),
                                                    (const('st_size'), mk('call', 'len', (fs[a],), ()))]))]

    def i_isdir(self, e, st, args, kw, node):
        a = list(path_parts(self.one(args, kw)))
        for p in self.fs(st):
            q = list(path_parts(p))
            if q[:len(a)] == a: return [(st, TRUE if len(q) > len(a) else FALSE)]
        return [(st, TRUE if not a or any(cval(x) == '' for x in a if is_str(x)) else FALSE)]

    def occupied(self, st, a): return any(tuple(path_parts(p)[:len(a)]) == tuple(a) for p in self.fs(st))

    def i_rmdirs(self, up):
        """empty directories exist only as long as nobody removes them"""
        def f(e, st, args, kw, node):
            a = tuple(path_parts(self.one(args, kw))); gone = st.auto['gone']
            if self.occupied(st, a): e.raise_(st, mk('exc', 'OSError', mk('ext', 'errno.ENOTEMPTY'))); return []
            if a in gone: return self.missing(e, st)
            gone |= {a}
            while up and len(a) > 1:
                a = a[:-1]
                if self.occupied(st, a): break
                gone |= {a}
            return [(st.setauto(gone=gone), NONE)]
        return f

    def i_listdir(self, e, st, args, kw, node):
        a = tuple(path_parts(args[0]))
        return self.missing(e, st) if a in st.auto['gone'] and not self.occupied(st, a) else super().i_listdir(e, st, args, kw, node)

    # ---- the network
    def i_request(self, e, st, args, kw, node):
        a = self.positional(args[1:], kw, ('url', 'headers', 'data', 'gen'))
        gen = a[3] is not NONE and not (is_const(a[3]) and not cval(a[3]))
        return self.exchange(e, st, node, a[0], a[1], a[2], gen, None)

    def i_send(self, e, st, args, kw, node):
        a = self.positional(args[1:], kw, ('url', 'headers', 'file_path'))
        p = mkpath([a[2]]); fs = self.fs(st)
        if p not in fs: return self.missing(e, st)
        return self.exchange(e, st, node, a[0], a[1], NONE, False, (p, fs[p]))

    def fields(self, st, d):
        h = st.heap.get(d)
        if h is None: return {} if d is NONE else None
        return {cval(k): v for k, v in h.known} if h.kind == DICT and not h.rest and h.base is None and all(is_str(k) for k, _ in h.known) else None

    def exchange(self, e, st, node, url, headers, data, gen, sent):
        hdr, body = self.fields(st, headers), self.fields(st, data)
        if not is_str(url) or hdr is None or body is None: raise AnalysisBroken('a request of the client is not understood: %s' % show(url)[:80])
        op = cval(url); body = {k: e.freeze(v, st) for k, v in body.items()}
        if sent: body['#file'] = sent
        w = (e.loc(node), e.func.qual if e.func else '?')
        self.requested(e, st, w, op, hdr, body)
        st = st.setauto(net=st.auto['net'] + ((op, frozenset(hdr.items()), frozenset(body.items())),))
        self.fail(e, st)
        out = []
        for s, h, b in self.server.answer(self, e, st, op, hdr, body):
            if h is None: e.raise_(s, mk('exc', 'Exception', const('Socket closed'))); continue
            self.n += 1; n = self.n
            s, hd = mkdict(s, 'answer%d' % n, [(k, v if isinstance(v, T) else const(v)) for k, v in h.items()])
            if gen:
                name = 'download:%d' % n
                e.intr[name] = self.download(b)
                b = mk('ext', name)
            out.append((s, tup(b, hd)))
        return out

    def requested(self, e, st, w, op, hdr, body): pass

    def download(self, c):
        def f(e, st, args, kw, node):
            p = self.one(args, kw); fs = self.fs(st)
            self.fail(e, st)
            fs[p] = PART; st = self.put(e, st, node, fs, 'writing %s' % show(p))
            if c is BROKEN: e.raise_(st, mk('exc', 'Exception', const('Socket closed'))); return []
            self.fail(e, st)
            fs[p] = c
            return [(self.put(e, st, node, fs, 'writing %s' % show(p)), NONE)]
        return f

    # ---- database rows a case starts from
    @staticmethod
    def rows(manifest, revision='C0'):
        out = [row('meta', 1, format_version='3', have_revision=revision)]
        for i, (p, m) in enumerate(sorted(manifest.items())): out.append(row('files', i + 1, path=p, last_mod=str(m[0]), created=str(m[2] if len(m) > 2 else m[0] - 500), server_file_hash=m[1]))
        return out


def setup(files, ignore=None, pull_ignore=None):
    """files of a working copy: {path: content}"""
    cfg = doc(fdict([('server_domain', 'http://localhost:8090'), ('user', USER), ('repository', REPO), ('private_key', mk('call', 'base64.b64encode', (cat(const(b'n'), KEY),), ()))]))
    fs = [(wc('/.bvn/client_configuration.json'), cfg), (wc('/.bvn/manifest.db'), sym('#database', None, True))] + [(wc(p), c) for p, c in files.items()]
    if ignore is not None: fs.append((wc('/.bvn_ignore'), const(ignore.encode())))
    if pull_ignore is not None: fs.append((wc('/.bvn_pull_ignore'), const(pull_ignore.encode())))
    return fs


def client_engine(mon):
    eng = engine(mon)
    st = eng.initial.clone(); st.facts = {}; st.eqs = {}; st.auto = {}
    eng.base = st
    eng.consts.update({k: const(v) for k, v in {'os.path.sep': '/', 'os.sep': '/', 'os.linesep': '\n', 'os.curdir': '.', 'os.pardir': '..'}.items()})
    return eng


def start(mon, eng, fs, rows):
    mon.seen = set(); mon.snaps = []; mon.effects = []; mon.lockable = True; mon._auto = {}
    return RepoWorld.begin(eng.base, fs, rows).setauto(remote=frozenset(), mpu=frozenset(), mem=frozenset(), streams=frozenset(), net=(), answers=0, gone=frozenset(), stamps=frozenset())


def command(eng, st, *argv):
    """bvn <argv>"""
    st = st.setheap(mk('ext', 'sys.argv'), H(LIST, [const('bvn')] + [const(a) for a in argv]))
    return eng.run(eng.lookup_public('bversion.client:run'), [], {}, st, 'bvn ' + ' '.join(argv))


def manifest(st, durable=True):
    """{path: (last_mod, hash)} of the database"""
    out = {}
    for t, n, r in st.auto['db'][0 if durable else 1]:
        if t == 'files':
            r = dict(r); p = canon_str(r.get('path', NONE)); lm = r.get('last_mod', NONE)
            out[cval(p) if is_str(p) else p] = (float(cval(lm)) if is_const(lm) and cval(lm) is not None else lm, r.get('server_file_hash', NONE))
    return out


def revision(st, durable=True):
    for t, n, r in st.auto['db'][0 if durable else 1]:
        if t == 'meta':
            v = dict(r).get('have_revision', NONE)
            return cval(v) if is_const(v) else v
    return None


def working(st):
    """{path: content} of the working copy without the control directory"""
    return working_fs(st.auto['fs'])


def working_fs(fs):
    n = len(path_parts(const(WC))); out = {}
    for p, c in fs:
        q = path_parts(p)
        if [cval(x) if is_str(x) else None for x in q[:n]] != WC.strip('/').split('/'): out['OUTSIDE ' + show(p)] = c; continue
        r = [cval(x) if is_str(x) else show(x) for x in q[n:]]
        if r and r[0] == '.bvn': continue
        out['/' + '/'.join(r)] = c
    return out
