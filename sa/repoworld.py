"""Small abstract repositories: a store of commit, tree and file objects with symbolic content, over the file-system domain of world.py.
Object names are constants; the hash of a content is a fixed table, so that comparing names and hashes is decided."""
from .world import *
from .server_env import *

_ids = {}


def oid(name):
    """the (constant) object name of the thing called `name`"""
    if name not in _ids:
        n = len(_ids)
        _ids[name] = const('%02x' % (n // 3 % 256) + ('%02x' % (n % 256)) * 31)          # some share their directory
    return _ids[name]


def fdict(items): return mk('fdict', tuple((const(k) if not isinstance(k, T) else k, v if isinstance(v, T) else const(v)) for k, v in items))
def flist(items): return mk('flist', tuple(items))
def doc(d): return mk('call', 'json.dumps', (d,), ())


class Store:
    """objects: name -> (directory, content)"""
    def __init__(self, base): self.base = base; self.objects = {}; self.head = None; self.hash = {}; self.info = {}

    def put(self, kind, name, content):
        self.objects[name] = (kind, content); self.hash[content] = oid(name)
        return oid(name)

    def file(self, name): return self.put('files', name, sym('#content of ' + name, None, True))

    def entry(self, name, path=None, status='new'):
        """what a tree or change log records for a file"""
        return fdict([('path', path or name), ('hash', oid(name)), ('status', status)])

    def tree(self, name, files, dirs=()):
        return self.put('index', name, doc(fdict([('type', 'tree'), ('files', fdict(files)), ('dirs', fdict(dirs))])))

    def commit(self, name, parent, root, changes):
        return self.put('index', name, doc(fdict([('type', 'commit'), ('parent', parent), ('utc_date_time', mk('sym', 'time of ' + name, None, False)), ('commit_by', mk('sym', 'author of ' + name, None, False)),
                                                  ('commit_message', mk('sym', 'message of ' + name, None, False)), ('tree_root', root), ('changes', flist(changes))])))

    def path(self, name):
        h = cval(oid(name))
        return mkpath([self.base, const(self.objects[name][0]), const(h[:2]), const(h[2:])])

    def fs(self, without=(), damaged=()):
        """file system contents; objects missing / with other content than their name says"""
        out = [(self.path(n), mk('sym', '#damaged ' + n, None, True) if n in damaged else c) for n, (k, c) in self.objects.items() if n not in without]
        for n in damaged:
            if self.objects[n][0] == 'index':       # another, well-formed document
                d = self.objects[n][1].args[1][0]
                c = doc(mk('fdict', d.args[0] + ((const('more'), sym('#more of ' + n, None, True)),)))
                out = [(p, c if p is self.path(n) else x) for p, x in out]
        if self.head is not None: out.append((mkpath([self.base, const('head')]), const(cval(self.head).encode())))
        return out

    def hash_of(self, content):
        r = self.hash.get(content)
        return r if r is not None else oid(('content', content))       # different content, different hash


class RepoWorld(World):
    """the server's (or a local tool's) view of one repository"""
    TABLES = ('active_commit_changes', 'gc_log')

    def __init__(self, rep, errors=0):
        super().__init__(rep, errors); self.store = None; self.switch = None; self.lockable = True; self.effects = []; self.listing = True

    def intrinsics(self):
        r = super().intrinsics()
        r['bversion.common.hash_file'] = self.i_hash
        r['fcntl.flock'] = self.i_flock
        r['os.walk'] = self.i_walk
        for n in ('os.rmdir', 'os.removedirs'): r[n] = self.i_nop
        r['os.path.basename'] = self.i_basename; r['os.path.dirname'] = self.i_dirname; r['os.path.split'] = self.i_psplit
        del r['writer']
        return r

    def i_basename(self, e, st, args, kw, node):
        q = path_parts(args[0])
        return [(st, q[-1])] if (args[0].op == 'path' or is_str(args[0])) and q else None

    def i_dirname(self, e, st, args, kw, node):
        q = path_parts(args[0])
        return [(st, mkpath(q[:-1]))] if (args[0].op == 'path' or is_str(args[0])) and q else None

    def i_psplit(self, e, st, args, kw, node):
        q = path_parts(args[0])
        return [(st, tup(mkpath(q[:-1]), q[-1]))] if (args[0].op == 'path' or is_str(args[0])) and q else None

    def i_hash(self, e, st, args, kw, node):
        p = self.one(args, kw); fs = self.fs(st)
        self.fail(e, st)
        if p not in fs: return self.missing(e, st)
        return [(st, self.store.hash_of(fs[p]))]

    def i_loads(self, e, st, args, kw, node):
        a = canon_str(args[0])
        if a.op == 'call' and a.args[0] == 'json.dumps': return [self.thaw(st, a.args[1][0])]
        if a in st.heap and st.heap[a].kind in (LIST, DICT, SET) or is_const(a) and not is_str(a): e.raise_(st, mk('exc', 'TypeError', NONE)); return []
        if a.op == 'sym' and a.args[2] or a is PART or is_const(a): e.raise_(st, mk('exc', 'ValueError', NONE)); return []
        return None

    def i_walk(self, e, st, args, kw, node):
        """directory tree of the abstract file system: list of (directory, sub-directories, files)"""
        top = path_parts(args[0]); out = []; dirs = {tuple(top)}
        for p in self.fs(st):
            q = tuple(path_parts(p))
            if q[:len(top)] == tuple(top):
                for i in range(len(top), len(q)): dirs.add(q[:i])
        for d in sorted(dirs, key=lambda x: [show(y) for y in x]):
            fl = sorted({path_parts(p)[len(d)] for p in self.fs(st) if tuple(path_parts(p)[:len(d)]) == d and len(path_parts(p)) == len(d) + 1}, key=show)
            sd = sorted({x[len(d)] for x in dirs if x[:len(d)] == d and len(x) == len(d) + 1}, key=show)
            self.n += 1
            st, a = obj(st, 'dirs%d' % self.n, H(LIST, sd)); st, b = obj(st, 'files%d' % self.n, H(LIST, fl))
            out.append(tup(mkpath(d), a, b))
        self.n += 1
        st, l = obj(st, 'walk%d' % self.n, H(LIST, out))
        return [(st, l)]

    def i_flock(self, e, st, args, kw, node):
        fl = flags(args[1]) if len(args) > 1 else set()
        o = [x for x in st.auto['op'] if x[0] is args[0]]
        if 'LOCK_UN' in fl: return [(st.setauto(locked=frozenset(x for x in st.auto.get('locked') or () if x[0] is not args[0])), NONE)]
        if not self.lockable:
            if 'LOCK_NB' in fl: e.raise_(st, mk('exc', 'BlockingIOError', const('held elsewhere')))
            return []
        st = st.setauto(locked=frozenset(st.auto.get('locked') or ()) | {(args[0], 'LOCK_EX' in fl, o[0][1] if o else NONE)})
        if self.switch is not None and not st.auto.get('switched'):      # what another process did until it released the lock
            fs = dict(self.switch[0]); fs.update({p: c for p, c in self.fs(st).items() if o and p is o[0][1]})
            st = st.setauto(fs=frozenset(fs.items()), switched=True, db=(tuple(self.switch[1]), tuple(self.switch[1])))
        return [(st, NONE)]

    def close(self, ev, st):
        st = super().close(ev, st)
        return st.setauto(locked=frozenset(x for x in st.auto.get('locked') or () if x[0] is not ev.recv)) if st.auto.get('locked') else st

    def sql(self, ev, st):
        if ev.sql is None or ev.sql.table not in self.TABLES: return st
        return super().sql(ev, st)

    def event(self, ev, st):
        if ev.kind == 'meth' and ev.name in ('hexdigest', 'digest') and ev.recv is not None:
            d = sha_input(ev.recv)
            if d is not None and self.store is not None: return [(st, self.store.hash_of(canon_str(d)))]
        return super().event(ev, st)

    def put(self, eng, st, node, fs, what):
        self.effects.append((eng.loc(node), eng.func.qual if eng.func else '?', what, st))
        return super().put(eng, st, node, fs, what)

    @staticmethod
    def begin(st, fs, rows=()): return World.start(st, fs, rows).setauto(locked=frozenset(), switched=False)


def flags(t):
    out = set()
    for x in subterms_c(t):
        for a in x.args:
            if isinstance(a, str) and a.split('.')[-1].startswith('LOCK_'): out.add(a.split('.')[-1])
    return out


def sha_input(r):
    """the only input of a SHA-256 object created with its data"""
    if r.op in ('call', 'fresh') and r.args[0] == 'hashlib.sha256':
        a = r.args[1] if r.op == 'call' else r.args[2:]
        if len(a) == 1: return a[0]
    return None


def row(table, n, **kw): return (table, n, frozenset((k, v if isinstance(v, T) else const(v)) for k, v in kw.items()))


def run_method(eng, st, cls, init, name, args, kw=None):
    """create an object and call a method: (returns, raises)"""
    R, X = [], []
    rets, exc = eng.run(eng.lookup_public(cls), init, {}, st, cls.split(':')[-1] + '()')
    X += exc
    for s, o in rets:
        fv = eng.attr_of(s, o, name, None)[0][1]
        if fv.op != 'bound': raise AnalysisBroken('%s.%s is gone' % (cls, name))
        r, x = eng.run(fv, args, kw or {}, s, name)
        R += r; X += x
    return R, X


def history(base, revisions):
    """a store with one commit per (name, {path: file name}); returns (store, {commit: changes}, {commit: files})"""
    s = Store(base); prev = {}; parent = const('root'); log = {}; allf = {}
    seen = {}

    def tree(fl, label):
        dirs = {}; here = []
        for p, f in sorted(fl.items()):
            c = p.split('/', 1)
            if len(c) == 1: here.append((c[0], s.entry(f, c[0], 'new')))
            else: dirs.setdefault(c[0], {})[c[1]] = f
        sub = [(d, tree(x, label + '/' + d)) for d, x in sorted(dirs.items())]
        k = (tuple(here), tuple(sub))
        if k not in seen: seen[k] = s.tree('tree ' + label, here, sub)
        return seen[k]

    for name, fl in revisions:
        if 'empty' in fl.values(): _ids['empty'] = const('e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855')
        for f in fl.values():
            if f not in s.objects: s.file(f)
        ch = {}
        for p in fl:
            if p not in prev: ch[p] = (fl[p], 'new')
            elif prev[p] != fl[p]: ch[p] = (fl[p], 'changed')
        for p in prev:
            if p not in fl: ch[p] = (prev[p], 'deleted')
        parent = s.head = s.commit(name, parent, tree({p[1:]: f for p, f in fl.items()}, name), [s.entry(f, p, k) for p, (f, k) in sorted(ch.items())])
        log[name] = ch; allf[name] = dict(fl); prev = fl
    return s, log, allf


def long_history(base, n=110):
    """more revisions than any small number which may be written in the code; each changes one file"""
    return history(base, [('L%d' % i, {'/a': 'v%d' % i, '/d/x': 'x%d' % i}) for i in range(n)])


LONG = 110


class Deep:
    """the engine follows this many steps of a loop while in here"""
    def __init__(self, eng, n=LONG + 12): self.eng = eng; self.n = n
    def __enter__(self): self.old = self.eng.unroll, self.eng.reclimit; self.eng.unroll = self.n; self.eng.reclimit = self.n
    def __exit__(self, *a): self.eng.unroll, self.eng.reclimit = self.old
