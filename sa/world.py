"""A small abstract domain of one working copy: which files exist with which (symbolic) content, and the rows of the client's
database, durable and pending.  External calls of the analysed code are transfer functions on it.  Every effect adds the abstract
states a stop at that point can leave behind (`snaps`), including half-written files."""
from .framework import *
from . import model
from .generic import obj

PART = mk('partial', 'content cut short')
ENOENT = mk('exc', 'FileNotFoundError', NONE)


def files(*ps): return frozenset((mkpath([p]), c) for p, c in ps)


class All:
    def __contains__(self, x): return True


class World(Mon):
    noraise = All()          # errors are raised by the transfer functions below only

    def __init__(self, rep, errors=0):
        super().__init__(rep); self.errors = errors; self.snaps = []; self.n = 0; self.seen = set(); self.phase = ''

    # ---- state access
    @staticmethod
    def fs(st): return dict(st.auto['fs'])
    @staticmethod
    def durable(st): return st.auto['db'][0]
    @staticmethod
    def start(st, fs, rows): return st.setauto(faults=None, fs=frozenset(fs), db=(tuple(rows), tuple(rows)), op=frozenset(), conn=None)

    def put(self, eng, st, node, fs, what):
        """new file state, reached atomically"""
        st = st.setauto(fs=frozenset(fs.items()))
        self.snap(eng, st, node, what)
        return st

    def snap(self, eng, st, node, what):
        k = (st.auto['fs'], st.auto['db'][0], self.phase)
        if k in self.seen: return
        self.seen.add(k)
        self.snaps.append((k[0], k[1], eng.loc(node), eng.func.qual if eng.func else '?', what, st, self.phase))

    def fail(self, eng, st):
        n = st.auto.get('faults', 0)
        if n < self.errors: eng.raise_(st.setauto(faults=n + 1), mk('exc', 'PermissionError', const('injected')))

    # ---- intrinsics
    def intrinsics(self):
        r = {}
        for n in ('os.rename', 'os.replace', 'shutil.move', 'os.renames'): r[n] = self.i_move
        for n in ('shutil.copy', 'shutil.copy2', 'shutil.copyfile'): r[n] = self.i_copy
        for n in ('os.remove', 'os.unlink'): r[n] = self.i_remove
        r['os.path.isfile'] = self.i_exists
        for n in ('os.path.exists', 'os.path.lexists'): r[n] = self.i_anyexists
        r['os.path.isdir'] = self.i_isdir; r['shutil.copyfileobj'] = self.i_copyobj; r['os.scandir'] = self.i_scandir
        for n in ('open', 'io.open'): r[n] = self.i_open
        for n in ('os.makedirs', 'os.mkdir', 'os.utime', 'shutil.copystat', 'shutil.copymode', 'os.chmod', 'os.fsync', 'os.sync'): r[n] = self.i_nop
        for n in ('os.path.getmtime', 'os.path.getctime', 'os.path.getsize', 'os.stat'): r[n] = self.i_stat
        r.update({'shutil.rmtree': self.i_rmtree, 'os.link': self.i_link, 'os.listdir': self.i_listdir, 'writer': self.i_writer, 'callable': self.i_callable,
                  'json.dumps': self.i_dumps, 'json.loads': self.i_loads, 'sqlite3.connect': self.i_connect, 'int': self.i_int})
        return r

    def two(self, args, kw): return mkpath([args[0] if args else kw['src']]), mkpath([args[1] if len(args) > 1 else kw['dst']])
    def one(self, args, kw): return mkpath([args[0] if args else next(iter(kw.values()))])

    def i_nop(self, e, st, args, kw, node): return [(st, NONE)]

    def missing(self, e, st):
        e.raise_(st, ENOENT); return []

    def i_move(self, e, st, args, kw, node):
        a, b = self.two(args, kw); fs = self.fs(st)
        self.fail(e, st)
        if a not in fs: return self.missing(e, st)
        c = fs.pop(a); fs[b] = c
        return [(self.put(e, st, node, fs, 'moving %s to %s' % (show(a), show(b))), b)]

    def i_copy(self, e, st, args, kw, node):
        a, b = self.two(args, kw); fs = self.fs(st)
        self.fail(e, st)
        if a not in fs: return self.missing(e, st)
        c = fs[a]; fs[b] = PART
        st = self.put(e, st, node, fs, 'copying %s to %s' % (show(a), show(b)))
        self.fail(e, st)
        fs[b] = c
        return [(self.put(e, st, node, fs, 'copying %s to %s' % (show(a), show(b))), b)]

    def i_link(self, e, st, args, kw, node):
        a, b = self.two(args, kw); fs = self.fs(st)
        self.fail(e, st)
        if a not in fs: return self.missing(e, st)
        if b in fs: e.raise_(st, mk('exc', 'FileExistsError', NONE)); return []
        fs[b] = fs[a]
        return [(self.put(e, st, node, fs, 'linking %s to %s' % (show(a), show(b))), NONE)]

    def i_remove(self, e, st, args, kw, node):
        a = self.one(args, kw); fs = self.fs(st)
        self.fail(e, st)
        if a not in fs: return self.missing(e, st)
        fs.pop(a)
        return [(self.put(e, st, node, fs, 'removing %s' % show(a)), NONE)]

    def i_rmtree(self, e, st, args, kw, node):
        a = path_parts(args[0]); fs = self.fs(st)
        for p in sorted([p for p in fs if path_parts(p)[:len(a)] == a], key=show):
            fs = dict(fs); fs.pop(p); st = self.put(e, st, node, fs, 'removing %s' % show(p))
        return [(st, NONE)]

    def i_exists(self, e, st, args, kw, node): return [(st, TRUE if self.one(args, kw) in self.fs(st) else FALSE)]

    def i_anyexists(self, e, st, args, kw, node):
        (s, v), = self.i_exists(e, st, args, kw, node)
        if v is TRUE: return [(s, v)]
        a = path_parts(self.one(args, kw))
        return [(s, TRUE if any(path_parts(p)[:len(a)] == a for p in self.fs(st)) else FALSE)]

    def i_listdir(self, e, st, args, kw, node):
        a = list(path_parts(args[0])); names = []
        for p in sorted(self.fs(st), key=show):
            q = list(path_parts(p))
            if q[:len(a)] == a and len(q) > len(a) and q[len(a)] not in names: names.append(q[len(a)])
        self.n += 1
        st, l = obj(st, 'listing%d' % self.n, H(LIST, names))
        return [(st, l)]

    def i_isdir(self, e, st, args, kw, node):
        a = list(path_parts(self.one(args, kw)))
        for p in self.fs(st):
            q = list(path_parts(p))
            if q[:len(a)] == a: return [(st, TRUE if len(q) > len(a) else FALSE)]
        return [(st, TRUE if len(a) < 4 and all(is_const(x) for x in a) else FALSE)]

    def i_scandir(self, e, st, args, kw, node):
        (st, l), = self.i_listdir(e, st, args, kw, node)
        ents = []
        for nm in st.heap[l].known:
            self.n += 1
            st, o = obj(st, 'entry%d' % self.n, H(INST, [(const('name'), nm), (const('path'), mkpath([args[0], nm]))])); ents.append(o)
        return [(st.setheap(l, H(LIST, ents)), l)]

    def i_copyobj(self, e, st, args, kw, node):
        a = [x for x in st.auto['op'] if x[0] is args[0]]; b = [x for x in st.auto['op'] if x[0] is args[1]]
        if not a or not b: return None
        a, b = a[0], b[0]; self.fail(e, st)
        fs = self.fs(st); fs[b[1]] = PART
        st = self.put(e, st, node, fs, 'copying to %s' % show(b[1]))
        self.fail(e, st)
        return [(st.setauto(op=(st.auto['op'] - {b}) | {(b[0], b[1], a[2] if b[2] is const(b'') else PART, 'w')}), NONE)]

    PATHM = {'exists': 'os.path.exists', 'is_file': 'os.path.isfile', 'unlink': 'os.remove', 'rename': 'os.rename', 'replace': 'os.replace', 'is_dir': 'os.path.isdir',
             'open': 'open', 'stat': 'os.stat', 'mkdir': 'os.makedirs', 'touch': 'os.utime'}

    def i_stat(self, e, st, args, kw, node):
        a = self.one(args, kw); fs = self.fs(st)
        if a not in fs: return self.missing(e, st)
        self.fail(e, st)
        return [(st, mk('call', 'mtime', (a, fs[a]), ()))]

    def i_open(self, e, st, args, kw, node):
        p = mkpath([args[0] if args else kw['file']]); mode = args[1] if len(args) > 1 else kw.get('mode', const('r'))
        m = cval(mode) if is_str(mode) else 'w'; fs = self.fs(st)
        self.fail(e, st)
        self.n += 1
        h = mk('handle', self.n)
        if not set(m) & set('wax+'):
            if p not in fs: return self.missing(e, st)
            return [(st.setauto(op=st.auto['op'] | {(h, p, fs[p], 'r')}), h)]
        if 'x' in m and p in fs: e.raise_(st, mk('exc', 'FileExistsError', NONE)); return []
        if 'r' in m and p not in fs: return self.missing(e, st)
        written = const(b'') if 'w' in m or 'x' in m or p not in fs else PART
        if 'r' not in m and ('a' not in m or p not in fs): fs[p] = const(b'')
        st = st.setauto(op=st.auto['op'] | {(h, p, written, 'w')})
        return [(self.put(e, st, node, fs, 'opening %s for writing' % show(p)), h)]

    def i_writer(self, e, st, args, kw, node):
        """the caller's function that writes a downloaded file to the path it is given"""
        p = self.one(args, kw); fs = self.fs(st)
        self.fail(e, st)
        fs[p] = PART; st = self.put(e, st, node, fs, 'writing %s' % show(p))
        self.fail(e, st)
        fs[p] = sym('#new', None, True)
        return [(self.put(e, st, node, fs, 'writing %s' % show(p)), NONE)]

    def i_callable(self, e, st, args, kw, node): return [(st, TRUE if args[0].op in ('ext', 'func', 'bound', 'cls') else FALSE)]

    def i_int(self, e, st, args, kw, node):
        a = args[0] if args else NONE
        if is_const(a):
            try: return [(st, const(int(cval(a))))]
            except (ValueError, TypeError): pass
        if a is PART or is_const(a): e.raise_(st, mk('exc', 'ValueError', NONE)); return []

    def i_dumps(self, e, st, args, kw, node): return [(st, mk('call', 'json.dumps', (e.freeze(args[0], st),), ()))]

    def i_loads(self, e, st, args, kw, node):
        a = canon_str(args[0])
        if a.op != 'call' or a.args[0] != 'json.dumps': return None
        return [self.thaw(st, a.args[1][0])]

    def thaw(self, st, t):
        self.n += 1; name = 'json%d' % self.n
        if t.op in ('flist', 'tup'):
            out = []
            for x in t.args[0]:
                st, v = self.thaw(st, x); out.append(v)
            return obj(st, name, H(LIST, out))
        if t.op == 'fdict':
            out = []
            for k, v in t.args[0]:
                st, v = self.thaw(st, v); out.append((k, v))
            return obj(st, name, H(DICT, out))
        return st, t

    def i_connect(self, e, st, args, kw, node):
        self.n += 1
        auto = 'isolation_level' in kw and kw['isolation_level'] is NONE or 'autocommit' in kw and kw['autocommit'] is TRUE
        return [(st.setauto(conn=auto), mk('conn', self.n))]

    # ---- events: file handles, database
    def event(self, ev, st):
        k = ev.kind
        if k == 'sql': return self.sql(ev, st)
        if k == 'meth' and ev.recv is not None and ev.recv.op == 'handle': return self.handle(ev, st)
        if k == 'meth' and ev.recv is not None and ev.recv.op == 'path' and ev.name in self.PATHM:
            return self.intrinsics()[self.PATHM[ev.name]](ev.eng, st, [ev.recv] + ev.args, ev.kw, ev.node) or ([] if ev.name != 'is_dir' else st)
        if k == 'exit' and ev.recv.op == 'handle': return self.close(ev, st)
        if k == 'meth' and ev.name in ('commit', 'rollback') or k == 'exit':
            r = ev.recv
            if r is not None and r.op == 'conn':
                bad = ev.name == 'rollback' or k == 'exit' and cval(ev.args[0]) is True
                return self.end(ev.eng, st, ev.node, not bad)
        if k == 'meth' and ev.name == 'executescript': return self.end(ev.eng, st, ev.node, True)
        return st

    def end(self, e, st, node, commit):
        d, p = st.auto['db']
        if commit:
            self.fail(e, st)
            st = st.setauto(db=(p, p)); self.snap(e, st, node, 'committing the database')
        else: st = st.setauto(db=(d, d))
        return st

    def handle(self, ev, st):
        e = ev.eng; h = ev.recv
        o = [x for x in st.auto['op'] if x[0] is h]
        if not o: return st
        o = o[0]
        if ev.name in ('write', 'writelines') and o[3] == 'w':
            self.fail(e, st)
            fs = self.fs(st); fs[o[1]] = PART
            st = self.put(e, st, ev.node, fs, 'writing %s' % show(o[1]))
            c = canon_str(ev.args[0]) if o[2] is const(b'') and ev.name == 'write' else PART
            return st.setauto(op=(st.auto['op'] - {o}) | {(h, o[1], c, 'w')})
        if ev.name == 'close': return self.close(ev, st)
        if ev.name == 'flush': return st
        if ev.name == 'read' and o[3] == 'r': return [(st, o[2])]
        if ev.name == 'truncate':
            fs = self.fs(st); fs[o[1]] = PART
            return self.put(e, st.setauto(op=(st.auto['op'] - {o}) | {(h, o[1], PART, 'w')}), ev.node, fs, 'truncating %s' % show(o[1]))
        return st

    def close(self, ev, st):
        o = [x for x in st.auto['op'] if x[0] is ev.recv]
        if not o: return st
        st = st.setauto(op=st.auto['op'] - {o[0]})
        if o[0][3] == 'w':
            fs = self.fs(st)
            if o[0][1] in fs and fs[o[0][1]] is not o[0][2]:
                fs[o[0][1]] = o[0][2] if not (ev.kind == 'exit' and cval(ev.args[0]) is True and o[0][2] is const(b'')) else PART
                st = self.put(ev.eng, st, ev.node, fs, 'closing %s' % show(o[0][1]))
        return st

    def sql(self, ev, st):
        q = ev.sql; e = ev.eng
        if q is None: return st
        d, p = st.auto['db']
        t = q.table

        def match(row):
            r = dict(row[2])
            for c, op, v in q.where:
                x = r.get(c, NONE) if c != 'rowid' else const(row[1])
                if c == 'rowid' and isinstance(v, T) and is_str(v) and cval(v).isdigit(): v = const(int(cval(v)))
                if op == '=' and canon_str(x) is not canon_str(v): return False
                if op == '!=' and canon_str(x) is canon_str(v): return False
                if op == 'in' and not any(canon_str(x) is canon_str(y) for y in v): return False
                if op in ('<', '>', '<=', '>='):
                    if not (is_const(x) and is_const(v)): continue
                    a, b = int(cval(x)), int(cval(v))
                    if not {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]: return False
            return True
        if q.verb == 'select':
            rows = [r for r in p if r[0] == t and match(r)]
            if q.order:
                col, di = q.order
                if all(col == 'rowid' or is_const(dict(r[2]).get(col, NONE)) for r in rows): rows.sort(key=lambda r: (r[1] if col == 'rowid' else str(cval(dict(r[2]).get(col, NONE)))), reverse=di == 'desc')
            if q.limit: rows = rows[:1]
            self.n += 1; n = self.n; out = []
            for i, r in enumerate(rows):
                st, o = obj(st, 'row%d.%d' % (n, i), H(DICT, [(const(c), v) for c, v in sorted(r[2], key=lambda x: x[0])] + [(const('rowid'), const(r[1]))]))
                out.append(o)
            res = mk('rows', mk('dbn', n), t, (), '', '', ())
            return [(st.setheap(res, H(LIST, out)), res)]
        if q.verb in ('insert', 'delete', 'update'): self.fail(e, st)
        if q.verb == 'insert':
            vals = frozenset(zip(q.cols, [canon_str(v) for v in q.values]))
            if q.orreplace or q.conflict:
                key = dict(vals).get('path')
                same = [r for r in p if r[0] == t and key is not None and dict(r[2]).get('path') is key]
                if same and not q.orreplace: return st
                p = tuple(r for r in p if r not in same)
            p = p + ((t, 1 + max([r[1] for r in p if r[0] == t], default=0), vals),)
        elif q.verb == 'delete': p = tuple(r for r in p if not (r[0] == t and match(r)))
        elif q.verb == 'update': p = tuple((r[0], r[1], frozenset({**dict(r[2]), **{c: canon_str(v) for c, v in q.sets}}.items())) if r[0] == t and match(r) else r for r in p)
        elif q.verb == 'commit': return self.end(e, st, ev.node, True)
        elif q.verb == 'rollback': return self.end(e, st, ev.node, False)
        else: return st
        st = st.setauto(db=(p if st.auto.get('conn') else d, p))
        if st.auto.get('conn'): self.snap(e, st, ev.node, 'writing the database')
        return st
