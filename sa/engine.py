"""Interprocedural path-sensitive abstract interpretation of the parsed program.

Repository functions are analysed in the context of their callers (inlined, recursion cut after two
levels); loops are solved by fixpoint iteration over one generic element; states are merged at joins.
External calls become events that the monitor (property automaton) of a check sees in program order."""
import ast, builtins, os, re, time
from .terms import *
from .state import *
from .program import Program, AnalysisBroken
from . import sqlparse

IMPURE = {'time.time', 'input', 'builtins.input', 'getpass.getpass', 'pysodium.randombytes', 'os.urandom',
          'random.random', 'datetime.datetime.utcnow', 'datetime.datetime.now', 'socket.socket', 'os.listdir',
          'os.getcwd', 'secrets.token_bytes', 'uuid.uuid4', 'pysodium.crypto_sign_keypair', 'open', 'io.BytesIO',
          'threading.local', 'object', 'sqlite3.connect', 'os.open', 'fcntl.flock', 'os.scandir', 'hashlib.sha256', 'os.walk',
          'pysodium.crypto_secretstream_xchacha20poly1305_init_push', 'pysodium.crypto_secretstream_xchacha20poly1305_push', 'tempfile.mkstemp',
          'tempfile.NamedTemporaryFile', 'os.stat', 'os.path.getmtime', 'os.path.getctime', 'os.path.getsize', 'collections.deque', 'os.dup'}
IMPURE_METH = {'recv', 'read', 'readline', 'readlines', 'recv_into', 'accept', 'sendall', 'send', 'sendfile', 'write', 'popitem', 'cursor',
               'begin', 'upload_part', 'create_multipart_upload', 'complete_multipart_upload', 'next_chunk', 'stat', 'popleft'}
NORAISE = {'print', 'len', 'isinstance', 'callable', 'colored', 'termcolor.colored', 'str', 'bool', 'repr', 'type', 'range',
           'os.path.join', 'os.path.dirname', 'os.path.basename', 'os.path.isfile', 'os.path.isdir', 'os.path.exists', 'os.path.splitext',
           'time.time', 'list', 'tuple', 'dict', 'set', 'sorted', 'reversed', 'enumerate', 'zip', 'getattr3', 'hasattr', 'id', 'bytes', 'pprint.pprint',
           'fnmatch.fnmatch', 'iter', 'typing.cast', 'cast'}
NORAISE_METH = {'startswith', 'endswith', 'strip', 'lower', 'upper', 'split', 'splitlines', 'keys', 'values', 'items', 'get', 'append', 'extend',
                'add', 'update', 'copy', 'encode', 'join', 'format', 'fetchall', 'fetchone', 'close', 'hexdigest', 'digest', 'sort', 'reverse', 'setdefault',
                'strftime', 'replace', 'lstrip', 'rstrip', 'isdigit', 'clear', 'discard', 'issubset', 'union', 'difference', 'intersection', 'flush'}
BUILTIN = {n for n in dir(builtins)}
ALLOC_LIMIT = 200000


class OutOfTime(Exception): pass


class Event:
    __slots__ = ('kind', 'name', 'args', 'kw', 'recv', 'result', 'node', 'loc', 'func', 'sql', 'eng', 'stack', 'extra')

    def arg(self, i, name=None):
        if i is not None and i < len(self.args): return self.args[i]
        if name is not None and name in self.kw: return self.kw[name]
        return None

    def __repr__(self):
        return '%s %s(%s)%s' % (self.kind, (show(self.recv) + '.' if self.recv is not None else '') + self.name,
                                ', '.join([show(a) for a in self.args] + ['%s=%s' % (k, show(v)) for k, v in self.kw.items()]), '')


class Monitor:
    raises = False          # generate exceptional outcomes everywhere (not only inside try)
    keep_rel = None
    noraise = ()            # calls that never raise in this analysis
    tagraise = ()           # calls whose exceptions keep the name of the call

    def event(self, ev, st): return st
    def relevant(self, atom): return False
    def intrinsics(self): return {}
    def on_return(self, func, st, val): return st
    def on_enter(self, func, st, env): return st


_GR = {}


def ground(t):
    """path components of a string made of constants and tracked symbols only (at least one of them), else None"""
    if t.op != 'cat': return None
    r = _GR.get(t, 0)
    if r == 0:
        r = None
        if all(is_str(p) or p.op == 'sym' and p.args[2] and p.args[0].startswith('#') for p in t.args[0]) and any(p.op == 'sym' for p in t.args[0]):
            q = path_parts(t)
            if all(is_const(x) or x.op == 'sym' for x in q): r = q
        _GR[t] = r
    return r


class Out:
    __slots__ = ('norm', 'ret', 'brk', 'cont')
    def __init__(self): self.norm = []; self.ret = []; self.brk = []; self.cont = []


class Engine:
    MAXSTATES = 48
    thread_locals = False; eager_iter = False; reclimit = 1; unroll = 0; soft = time.time() + 150; deadline = time.time() + float(os.environ.get('VERIF_BUDGET', '720'))

    def __init__(self, prog=None, monitor=None):
        self.prog = prog or Program()
        self.mon = monitor or Monitor()
        self.consts = {}       # values of constants of external modules
        self.ctx = (); self.stack = []; self.ctxids = {}; self.ctxlist = []
        self.exc = []            # current exception collector
        self.trydepth = 0
        self.static = {}         # module -> env
        self.loading = set()
        self.captured = set()
        self.yield_handlers = []
        self.nodeids = {}; self.nodelist = []
        self.stats = {'calls': 0, 'functions': set(), 'events': 0, 'states': 0, 'merges': 0, 'externals': set(), 'unresolved': set(), 'branches': 0}
        self.intr = {}
        self.curmod = None
        self.quiet = True
        st = State()
        for m in self.prog.mods:
            if not m.startswith('cli_tools.'): st = self.load_module(m, st)
        self.initial = st           # a process that has just been started
        self.base = self.generalise(st)
        self.quiet = False

    # ---------------------------------------------------------------- modules
    def load_module(self, name, st):
        if name in self.static or name in self.loading: return st
        self.loading.add(name)
        m = self.prog.mods[name]
        self.static[name] = {}
        save = self.curmod, self.ctx, self.stack, self.exc, self.trydepth
        self.curmod = m; self.ctx = ('m:' + name,); self.stack = [(name, 0)]; self.exc = []; self.trydepth = 0
        fid = 'm:' + name
        st = st.clone(); st.frames = dict(st.frames); st.frames[fid] = {}
        self.fid, savefid = fid, getattr(self, 'fid', None)
        self.func, savefunc = None, getattr(self, 'func', None)
        out = self.block(m.tree.body, [st])
        st = out.norm[0] if out.norm else st
        env = st.frames.get(fid, {})
        self.static[name].update({k: v for k, v in env.items() if k not in m.globals_rebound})
        keep = {k: v for k, v in env.items() if k in m.globals_rebound}
        st = st.clone(); st.frames = dict(st.frames); st.frames[fid] = keep
        self.curmod, self.ctx, self.stack, self.exc, self.trydepth = save
        self.fid = savefid; self.func = savefunc
        self.loading.discard(name)
        return st

    def generalise(self, st):
        """after loading: rebindable globals become opaque; empty module-level containers become open"""
        st = st.clone(); st.frames = dict(st.frames)
        for name, m in self.prog.mods.items():
            f = dict(st.frames.get('m:' + name, {}))
            for g in m.globals_rebound:
                cls = None
                if g in m.annotations: cls = self.annot_class(m.annotations[g], m)
                f[g] = mk('glob', name, g, cls)
            st.frames['m:' + name] = f
        heap = {}
        for t, h in st.heap.items():
            if h.kind in (DICT, LIST, SET) and not h.known and not h.rest: h = h.with_(base=mk('open', t))
            heap[t] = h
        st.heap = heap; st.facts = {}; st.eqs = {}; st.auto = {}
        return st

    def annot_class(self, node, mod):
        if node is None: return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try: node = ast.parse(node.value, mode='eval').body
            except SyntaxError: return None
        if isinstance(node, ast.Subscript):
            if isinstance(node.value, ast.Name) and node.value.id == 'Optional': return self.annot_class(node.slice, mod)
            return None
        if isinstance(node, ast.Name):
            v = self.static.get(mod.name, {}).get(node.id)
            if v is not None and v.op == 'cls' and v.args[0] in self.prog.classes:
                c = self.prog.classes[v.args[0]]
                if c.methods: return v.args[0]
        if isinstance(node, ast.Attribute):
            for q in self.prog.classes:
                if q.endswith('.' + node.attr) and self.prog.classes[q].methods: return q
        return None

    def module_attr(self, name, attr, st):
        m = self.prog.mods.get(name)
        f = st.frames.get('m:' + name, {})
        if attr in f: return f[attr]
        if attr in self.static.get(name, {}): return self.static[name][attr]
        if name + '.' + attr in self.prog.mods: return mk('mod', name + '.' + attr)
        return None

    def lookup_public(self, dotted, st=None):
        """value of a public name 'pkg.mod:attr.attr'; AnalysisBroken if it is gone"""
        st = st or self.base
        mod, _, attr = dotted.partition(':')
        if mod not in self.prog.mods: raise AnalysisBroken('anchor module %s is gone' % mod)
        v = mk('mod', mod)
        for a in attr.split('.'):
            if v.op == 'mod': n = self.module_attr(v.args[0], a, st)
            elif v.op == 'cls': n = self.class_attr(v.args[0], a)
            else: n = None
            if n is None: raise AnalysisBroken('anchor %s is gone' % dotted)
            v = n
        return v

    # ---------------------------------------------------------------- sites
    def ctxid(self):
        i = self.ctxids.get(self.ctx)
        if i is None: i = self.ctxids[self.ctx] = len(self.ctxlist); self.ctxlist.append(self.ctx)
        return i

    def nid(self, node):
        i = self.nodeids.get(node)
        if i is None: i = self.nodeids[node] = len(self.nodelist); self.nodelist.append(node)
        return i

    def site(self, node): return (self.nid(node), self.ctxid())
    def loc(self, node): return '%s:%d' % (self.curmod.path.replace(self.prog.repo + '/', ''), getattr(node, 'lineno', 0))

    def new(self, st, node, h, tag=''):
        t = mk('obj', '%s:%d%s' % (self.curmod.name.split('.')[-1], getattr(node, 'lineno', 0), tag), self.nid(node), self.ctxid(), tag)
        if t in st.heap: pass
        return st.setheap(t, h), t

    def fresh(self, kind, node, *info): return mk('fresh', kind, self.site(node), *info)

    # ---------------------------------------------------------------- joins
    def join(self, states):
        seen = {}
        for s in states:
            k = s.key()
            if k not in seen: seen[k] = s
        states = list(seen.values())
        if len(states) <= self.MAXSTATES // 3: return states
        rel = self.mon.relevant
        fid = self.fid

        def relf(s): return (frozenset((a, v) for a, v in s.facts.items() if rel(a)), frozenset((a, v) for a, v in s.eqs.items() if rel(a)))

        def consts(s): return frozenset((n, v) for n, v in s.frames.get(fid, {}).items() if is_const(v) and n[0] != '$')

        def g1(s): return (frozenset(s.auto.items()), relf(s), frozenset((n, v) for n, v in s.frames.get(fid, {}).items()), s.pending, frozenset(s.univ.items()))
        def g2(s): return (frozenset(s.auto.items()), relf(s), consts(s), s.frames.get(fid, {}).get('$ret'), s.pending)
        def g3(s): return (frozenset(s.auto.items()), relf(s), s.pending)
        def g4(s): return (frozenset(s.auto.items()), s.pending)
        for lim, g in ((self.MAXSTATES // 3, g1), (self.MAXSTATES, g2), (self.MAXSTATES, g3), (self.MAXSTATES * 2, g4)):
            if len(states) <= lim: break
            groups = {}
            for s in states:
                k = g(s)
                if k in groups: groups[k] = merge(groups[k], s); self.stats['merges'] += 1
                else: groups[k] = s
            seen = {}
            for s in groups.values(): seen.setdefault(s.key(), s)
            states = list(seen.values())
        return states

    # ---------------------------------------------------------------- statements
    def block(self, body, states):
        out = Out(); cur = self.join(states)
        for stmt in body:
            if not cur: break
            o = self.stmt(stmt, cur)
            out.ret += o.ret; out.brk += o.brk; out.cont += o.cont
            cur = self.join(o.norm)
        out.norm = cur
        return out

    def stmt(self, n, states):
        now = time.time()
        if now > self.deadline or now > self.soft and self.mon.__dict__.get('rep') is not None and self.mon.rep.violations: raise OutOfTime
        self.stats['states'] += len(states)
        m = getattr(self, 's_' + type(n).__name__, None)
        out = Out()
        if m is None:
            out.norm = states
            return out
        for st in states:
            o = m(n, st)
            if isinstance(o, list): out.norm += o
            else:
                out.norm += o.norm; out.ret += o.ret; out.brk += o.brk; out.cont += o.cont
        return out

    def s_Expr(self, n, st): return [s for s, _ in self.eval(n.value, st)]
    def s_Pass(self, n, st): return [st]
    def s_Global(self, n, st): return [st]
    def s_Nonlocal(self, n, st): return [st]

    def s_Assert(self, n, st):
        t, f = self.branch(n.test, st)
        for s in f: self.raise_(s, mk('exc', 'AssertionError', NONE))
        return t

    def s_Assign(self, n, st):
        out = []
        for s, v in self.eval(n.value, st):
            cur = [s]
            for tgt in n.targets:
                cur = [x for c in cur for x in self.assign(tgt, v, c)]
            out += cur
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None: return [st]
        out = []
        for s, v in self.eval(n.value, st): out += self.assign(n.target, v, s)
        return out

    def s_AugAssign(self, n, st):
        out = []
        tgt = n.target
        load = self.as_load(tgt)
        for s, a in self.eval(load, st):
            for s2, b in self.eval(n.value, s):
                h = s2.heap.get(a)
                if isinstance(n.op, ast.Add) and h is not None and h.kind == LIST:
                    out += [x for x, _ in self.list_extend(s2, a, b, n)]
                    continue
                if h is not None and h.kind == SET and isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
                    for s3, v in self.binop(n.op, a, b, s2, n):
                        out.append(s3.setheap(a, s3.heap[v]))
                    continue
                for s3, v in self.binop(n.op, a, b, s2, n): out += self.assign(tgt, v, s3)
        return out

    def as_load(self, t):
        if isinstance(t, ast.Name): r = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute): r = ast.Attribute(t.value, t.attr, ast.Load())
        else: r = ast.Subscript(t.value, t.slice, ast.Load())
        return ast.copy_location(r, t)

    def s_Delete(self, n, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    f = dict(s.frames.get(self.fid, {})); f.pop(t.id, None)
                    s = s.clone(); s.frames = dict(s.frames); s.frames[self.fid] = f; nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, r in self.eval(t.value, s):
                        for s3, k in self.eval_index(t.slice, s2):
                            if is_str(r) and isinstance(cval(r), bytes) and isinstance(t.slice, ast.Slice) and isinstance(t.value, (ast.Name, ast.Attribute)):
                                b = self.bytes_deleted(cval(r), k)
                                if b is not None: nxt += self.assign(t.value, const(b), s3); continue
                            res = self.container_method(s3, r, 'pop', [k, NONE] if s3.heap.get(r) is None or s3.heap[r].kind == DICT else [k], {}, n, True)
                            nxt += [s3] if res is None else [x for x, _ in res]
                else: nxt.append(s)
            cur = nxt
        return cur

    @staticmethod
    def bytes_deleted(b, k):
        if k.op != 'slc' or not all(is_const(x) for x in k.args if isinstance(x, T)): return None
        x = bytearray(b); v = [cval(y) if isinstance(y, T) else y for y in k.args]
        try: del x[slice(*v)]
        except (TypeError, ValueError): return None
        return bytes(x)

    def s_Match(self, n, st):
        """a match statement with patterns that are not translated: any case may apply"""
        out = Out(); out.norm = [st]
        for s, v in self.eval(n.subject, st):
            for c in n.cases:
                s2 = s
                for p in ast.walk(c.pattern):
                    for x in (getattr(p, 'name', None), getattr(p, 'rest', None)):
                        if isinstance(x, str): s2 = s2.setvar(self.fid, x, mk('opaque', self.nid(p)))
                o = self.block(c.body, [s2])
                out.norm += o.norm; out.ret += o.ret; out.brk += o.brk; out.cont += o.cont
        return out

    def s_If(self, n, st):
        self.stats['branches'] += 1
        t, f = self.branch(n.test, st)
        out = Out()
        for body, sts in ((n.body, t), (n.orelse, f)):
            if not sts: continue
            o = self.block(body, sts) if body else None
            if o is None: out.norm += sts
            else:
                out.norm += o.norm; out.ret += o.ret; out.brk += o.brk; out.cont += o.cont
        return out

    def s_Return(self, n, st):
        out = Out()
        if n.value is None: out.ret.append((st, NONE))
        else: out.ret += self.eval(n.value, st)
        return out

    def s_Break(self, n, st):
        o = Out(); o.brk.append(st); return o

    def s_Continue(self, n, st):
        o = Out(); o.cont.append(st); return o

    def s_Raise(self, n, st):
        out = Out()
        if n.exc is None:
            self.raise_(st, st.frames.get(self.fid, {}).get('$exc', mk('exc', 'any', NONE)))
            return out
        for s, v in self.eval(n.exc, st):
            if v.op == 'ext' or v.op == 'cls': v = mk('exc', v.args[0], NONE)
            elif v.op == 'call': v = mk('exc', v.args[0], tup(*v.args[1]))
            elif v.op == 'obj' and v in s.heap and s.heap[v].kind == INST: v = mk('exc', str(s.heap[v].extra), v)
            elif v.op != 'exc': v = mk('exc', 'any', v)
            self.raise_(s, v)
        return out

    def raise_(self, st, exc):
        self.exc.append((st, exc))

    def s_FunctionDef(self, n, st):
        out = []
        for s, f in self.make_func(n, st):
            cur = [(s, f)]
            for d in reversed(n.decorator_list):
                nxt = []
                for s1, f1 in cur:
                    dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
                    if dn in ('staticmethod', 'classmethod', 'property', 'contextmanager', 'wraps', 'abstractmethod', 'lru_cache', 'cache'):
                        nxt.append((s1, f1)); continue
                    for s2, dv in self.eval(d, s1):
                        if dv.op in ('ext', 'call', 'attr', 'sym'): nxt.append((s2, f1)); continue
                        nxt += self.call(dv, [f1], {}, s2, d)
                cur = nxt
            for s1, f1 in cur: out.append(self.setname(s1, n.name, f1))
        return out
    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, n, st):
        f = n._func
        cur = [(st, [])]
        for d in list(n.args.defaults) + [k for k in n.args.kw_defaults if k is not None]:
            cur = [(s2, vs + [v]) for s, vs in cur for s2, v in self.eval(d, s)]
        self.captured.add(self.fid)
        return [(s, mk('func', f.qual, self.fid, tuple(vs))) for s, vs in cur]

    def s_ClassDef(self, n, st):
        return [self.setname(st, n.name, mk('cls', n._qual))]

    def s_Import(self, n, st):
        for a in n.names:
            base = a.name if a.asname else a.name.split('.')[0]
            if a.name in self.prog.mods: st = self.load_module(a.name, st)
            v = mk('mod', base) if base in self.prog.mods else mk('ext', base)
            st = self.setname(st, a.asname or base, v)
        return [st]

    def s_ImportFrom(self, n, st):
        base = n.module or ''
        if n.level:
            pk = self.curmod.name.split('.')
            if not self.curmod.path.endswith('__init__.py'): pk = pk[:-1]
            pk = pk[:len(pk) - (n.level - 1)]
            base = '.'.join(pk + ([base] if base else []))
        if base in self.prog.mods: st = self.load_module(base, st)
        for a in n.names:
            full = base + '.' + a.name
            if full in self.prog.mods:
                st = self.load_module(full, st); v = mk('mod', full)
            elif base in self.prog.mods:
                v = self.module_attr(base, a.name, st)
                if v is None: v = mk('ext', full)
            else: v = mk('ext', full)
            st = self.setname(st, a.asname or a.name, v)
        return [st]

    def s_With(self, n, st): return self.with_items(n, 0, st)
    s_AsyncWith = s_With

    def with_items(self, n, i, st):
        if i == len(n.items): return self.block(n.body, [st])
        it = n.items[i]; out = Out()

        def bindrun(s, v):
            sts = self.assign(it.optional_vars, v, s) if it.optional_vars is not None else [s]
            o = Out()
            for s2 in sts:
                oo = self.with_items(n, i + 1, s2)
                o.norm += oo.norm; o.ret += oo.ret; o.brk += oo.brk; o.cont += oo.cont
            return o
        # generator based context manager of the repository
        if isinstance(it.context_expr, ast.Call):
            for s, fv, args, kw in self.eval_callee(it.context_expr, st):
                f = self.func_of(fv)
                if f is not None and f.is_gen:
                    fr = self.frame_state()

                    def handler(s2, v, fr=fr):
                        cur = self.frame_state(); self.set_frame(fr)
                        o = bindrun(s2, v)
                        self.set_frame(cur)
                        res = [(x, NONE) for x in o.norm]
                        for kind, lst in (('brk', o.brk), ('cont', o.cont)):
                            for x in lst:
                                x = x.clone(); x.pending = (kind, None); res.append((x, NONE))
                        for x, rv in o.ret:
                            x = x.clone(); x.pending = ('ret', rv); res.append((x, NONE))
                        return res
                    for s2, _ in self.call_gen(fv, args, kw, s, it.context_expr, handler):
                        if s2.pending is None: out.norm.append(s2)
                        else:
                            k, rv = s2.pending; s2 = s2.clone(); s2.pending = None
                            if k == 'ret': out.ret.append((s2, rv))
                            else: getattr(out, k).append(s2)
                    continue
                for s2, v in self.call_value(fv, args, kw, s, it.context_expr):
                    self.with_value(n, it, s2, v, bindrun, out)
            return out
        for s, v in self.eval(it.context_expr, st): self.with_value(n, it, s, v, bindrun, out)
        return out

    def with_value(self, n, it, s, v, bindrun, out):
        cls = self.class_of(v, s)
        ent = self.class_attr(cls, '__enter__') if cls else None
        ex = self.class_attr(cls, '__exit__') if cls else None
        if v.op == 'call' and v.args[0] == 'contextlib.suppress':
            save, self.exc = self.exc, []
            self.trydepth += 1
            o = bindrun(s, v)
            self.trydepth -= 1
            mine, self.exc = self.exc, save
            out.norm += o.norm; out.ret += o.ret; out.brk += o.brk; out.cont += o.cont
            for s2, e in mine:
                m = self.exc_match(e, list(v.args[1]))
                if m is not False: out.norm.append(s2)
                if m is not True: self.raise_(s2, e)
            return
        if v.op == 'call' and v.args[0] == 'contextlib.closing' and v.args[1]: bound = v.args[1][0]
        else: bound = v
        entered = [(s, bound)]
        if ent is not None: entered = self.call(mk('bound', ent, v), [], {}, s, n)
        for s1, b in entered:
            hidden = '$with%d.%d' % (n.lineno, n.items.index(it)) if v.op == 'handle' else None
            if hidden: s1 = s1.setvar(self.fid, hidden, v)
            save, self.exc = self.exc, []
            o = bindrun(s1, b)
            mine, self.exc = self.exc, save

            def leave(s2, exceptional):
                if hidden:
                    fr = dict(s2.frames.get(self.fid, {})); fr.pop(hidden, None)
                    s2 = s2.clone(); s2.frames = dict(s2.frames); s2.frames[self.fid] = fr
                if ex is not None:
                    return [x for x, _ in self.call(mk('bound', ex, v), [NONE, NONE, NONE], {}, s2, n)]
                return self.emit('exit', '__exit__', [mk('const', 'bool', exceptional)], {}, v, NONE, n, s2)
            out.norm += [y for x in o.norm for y in leave(x, False)]
            out.brk += [y for x in o.brk for y in leave(x, False)]
            out.cont += [y for x in o.cont for y in leave(x, False)]
            out.ret += [(y, rv) for x, rv in o.ret for y in leave(x, False)]
            for x, e in mine:
                for y in leave(x, True): self.raise_(y, e)

    def frame_state(self): return (self.fid, self.func, self.curmod, self.ctx, self.stack)
    def set_frame(self, f): self.fid, self.func, self.curmod, self.ctx, self.stack = f

    def s_Try(self, n, st):
        out = Out()
        save, self.exc = self.exc, []
        self.trydepth += 1
        o = self.block(n.body, [st])
        self.trydepth -= 1
        raised, self.exc = self.exc, save
        res = Out()
        inner_exc = []
        res.ret += o.ret; res.brk += o.brk; res.cont += o.cont
        save, self.exc = self.exc, inner_exc
        if n.finalbody: self.trydepth += 1
        if n.orelse and o.norm:
            oe = self.block(n.orelse, o.norm)
            res.norm += oe.norm; res.ret += oe.ret; res.brk += oe.brk; res.cont += oe.cont
        else: res.norm += o.norm
        # dedupe raised states (merge by exception)
        groups = {}
        for s, e in raised: groups.setdefault(e, []).append(s)
        for e, ss in groups.items():
            for s in self.join(ss):
                self.handle(n, s, e, res)
        if n.finalbody: self.trydepth -= 1
        self.exc = save
        if not n.finalbody:
            self.exc += inner_exc
            return res

        def fin(states, tag):
            oo = self.block(n.finalbody, states)
            out.ret += oo.ret; out.brk += oo.brk; out.cont += oo.cont
            return oo.norm
        out.norm += fin(res.norm, 'n') if res.norm else []
        out.brk += fin(res.brk, 'b') if res.brk else []
        out.cont += fin(res.cont, 'c') if res.cont else []
        byval = {}
        for s, v in res.ret: byval.setdefault(v, []).append(s)
        for v, ss in byval.items(): out.ret += [(s, v) for s in fin(ss, 'r')]
        byexc = {}
        for s, e in inner_exc: byexc.setdefault(e, []).append(s)
        for e, ss in byexc.items():
            for s in fin(ss, 'e'): self.raise_(s, e)
        return out
    s_TryStar = s_Try

    def handle(self, n, s, e, res):
        for h in n.handlers:
            if h.type is None: m = True; types = None
            else:
                types = []
                tn = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in tn:
                    r = self.eval(t, s)
                    if r:
                        if r[0][1].op == 'tup': types += list(r[0][1].args[0])
                        else: types.append(r[0][1])
                m = self.exc_match(e, types)
            if m is False: continue
            s2 = s.setvar(self.fid, '$exc', e)
            if h.name: s2 = s2.setvar(self.fid, h.name, e)
            o = self.block(h.body, [s2])
            res.norm += o.norm; res.ret += o.ret; res.brk += o.brk; res.cont += o.cont
            if m is True: return
        self.raise_(s, e)

    def exc_class(self, name):
        name = name.split('.')[-1]
        if name == 'error': name = 'OSError'
        c = getattr(builtins, name, None)
        return c if isinstance(c, type) and issubclass(c, BaseException) else None

    def exc_match(self, e, types):
        """True: certainly caught, False: certainly not, None: maybe"""
        if not types: return None
        res = False
        for t in types:
            tn = t.args[0] if t.op in ('ext', 'cls') else None
            if tn is None: res = None if res is False else res; continue
            tc = self.exc_class(tn)
            en = e.args[0] if e.op == 'exc' else 'any'
            if tc is BaseException: return True
            if en == 'any':
                if tc is Exception: return True
                if tc is not None and not issubclass(tc, Exception): r = False
                else: r = None
            else:
                ec = self.exc_class(en)
                if tc is None or ec is None:
                    if tn.split('.')[-1] == en.split('.')[-1]: return True
                    if tc is Exception: return True
                    r = False if (tc is not None and tc is not OSError) or ec is not None else None
                elif issubclass(ec, tc): return True
                else: r = None if issubclass(tc, ec) and ec is not Exception else False
            if r is None and res is False: res = None
        return res

    # ---------------------------------------------------------------- loops
    def s_While(self, n, st):
        out = Out()
        tag = ('w', self.nid(n))
        save = self.ctx; self.ctx = self.ctx + (tag,)
        heads = [st]; seen = {}; exits = []; early = []
        if self.unroll:      # a loop over tracked data whose test is decided is followed step by step
            todo = heads; heads = []
            for i in range(self.unroll):
                nxt = []
                for h in todo:
                    self.ctx = save + (('w', self.nid(n), i),)
                    t, f = self.branch(n.test, h)
                    self.ctx = save + (tag,)
                    if t and f: heads.append(h); continue
                    early += f
                    if t:
                        self.ctx = save + (('w', self.nid(n), i),)
                        o = self.block(n.body, t)
                        self.ctx = save + (tag,)
                        out.ret += o.ret; out.brk += o.brk; nxt += o.norm + o.cont
                todo = self.join(nxt)
                if not todo: break
            heads += todo
        rounds = 0
        while heads and rounds < 14:
            rounds += 1
            nxt = []
            body_in = []
            for h in heads:
                t, f = self.branch(n.test, h)
                exits += f; body_in += t
            if body_in:
                o = self.block(n.body, body_in)
                out.ret += o.ret; out.brk += o.brk
                nxt = o.norm + o.cont
            heads = self.loop_heads(nxt, seen, tag, st, None, rounds)
            out.ret = self.dedupe_ret(out.ret); out.brk = self.join(out.brk)
            exits = self.join(exits)
        self.ctx = save
        exits += early
        if n.orelse and exits:
            o = self.block(n.orelse, exits)
            exits = o.norm; out.ret += o.ret; out.brk += o.brk; out.cont += o.cont
        out2 = Out(); out2.norm = exits + out.brk; out2.ret = out.ret; out2.cont = out.cont
        return out2

    def dedupe_ret(self, rets):
        seen = {}
        for s, v in rets: seen.setdefault((s.key(), v), (s, v))
        return list(seen.values())

    def loop_heads(self, states, seen, tag, entry, elems, rounds):
        """states at the back edge -> states at the loop head (next iteration), widened"""
        res = []
        for s in states:
            s = self.end_iteration(s, tag, entry, elems)
            res.append(s)
        res = self.join(res)
        if rounds >= 3 and seen:
            # widen: join with an already seen head state of the same automaton state and relevant facts
            wid = []
            for s in res:
                g = (frozenset(s.auto.items()), s.pending) if rounds >= 6 else self.relkey(s)
                old = seen.get(('g', g))
                if old is not None:
                    m = merge(old, s)
                    wid.append(m)
                else: wid.append(s)
            res = wid
        new = []
        for s in res:
            k = s.key()
            if k in seen: continue
            seen[k] = s
            g = (frozenset(s.auto.items()), s.pending) if rounds >= 6 else self.relkey(s)
            seen[('g', g)] = s
            new.append(s)
        return new

    def relkey(self, s):
        rel = self.mon.relevant
        fr = s.frames.get(self.fid, {})
        return (frozenset(s.auto.items()), frozenset((a, v) for a, v in s.facts.items() if rel(a)),
                frozenset((a, v) for a, v in s.eqs.items() if rel(a)),
                frozenset((k, v) for k, v in fr.items() if is_const(v) and type(cval(v)) in (bool, type(None))), s.pending, frozenset(s.univ.items()))

    def end_iteration(self, s, tag, entry, elems):
        """generalise over the iteration just finished: elements appended become summary members, objects and
        fresh values of this iteration become summaries, facts about them are dropped"""
        kills = set(elems or ())
        lists = [t for t in s.heap if t.op == 'obj' and self.has_tag(t.args[2], tag)]

        def doomed(t):
            for x in subterms_c(t):
                if x in kills: return True
                if x.op == 'fresh' and self.has_tag(x.args[1][1], tag): return True
            return False
        guards = None

        def guardset():
            g = set()
            for a, v in s.facts.items():
                if a.op != 'exists' and any(k in subterms_c(a) for k in kills): g.add((a, v))
            for a, c in s.eqs.items():
                if any(k in subterms_c(a) for k in kills): g.add((eqatom(a, c), True))
            return frozenset(list(sorted(g, key=lambda p: p[0].id))[:12])
        heap = None
        for t, h in s.heap.items():
            old = entry.heap.get(t)
            if old is None and t.op == 'obj' and t in lists: continue
            if h.kind in (LIST, SET):
                oldk = old.known if old is not None else ()
                if h.known != oldk and (old is not None or t.op != 'obj'):
                    keep = []; rest = h.rest; rem = list(oldk)
                    for v in h.known:
                        if v in rem: rem.remove(v); keep.append(v)
                        else:
                            if guards is None: guards = guardset()
                            rest = H(LIST, (), rest).weak(None, v, guards).rest
                    heap = heap or dict(s.heap); heap[t] = h.with_(known=tuple(keep), rest=rest)
                elif old is None: pass
            elif h.kind == DICT:
                ch = [(k, v) for k, v in h.known if doomed(k)]
                if ch:
                    if guards is None: guards = guardset()
                    nh = h.with_(known=tuple((k, v) for k, v in h.known if not doomed(k)))
                    for k, v in ch: nh = nh.weak(k, v, guards)
                    heap = heap or dict(s.heap); heap[t] = nh
        if heap is not None:
            s = s.clone(); s.heap = heap
        # overlays on the loop element itself
        dead = [t for t in s.heap if t.op != 'obj' and doomed(t)]
        if dead:
            s = s.clone(); s.heap = {t: h for t, h in s.heap.items() if t not in dead}
        if lists:
            m = {}
            for t in lists:
                if not str(t.args[3]).endswith('*'): m[t] = mk('obj', t.args[0] + '*', t.args[1], t.args[2], t.args[3] + '*')
            if m: s = s.rename(m)
        def gone(a):
            if a.op == 'exists' and s.facts.get(a) is False:      # a statement about all elements outlives the iteration
                return any(x.op == 'fresh' and self.has_tag(x.args[1][1], tag) for x in subterms_c(a))
            return doomed(a)
        return s.kill(gone)

    def has_tag(self, cid, tag): return tag in self.ctxlist[cid]

    def s_For(self, n, st):
        out = Out()
        # generator function of the repository used as iterable
        if isinstance(n.iter, ast.Call):
            callee = None
            try_static = self.static_callee(n.iter, st)
            if try_static is not None and try_static.is_gen:
                return self.for_gen(n, st)
        for s, it in self.eval(n.iter, st):
            o = self.for_over(n, s, it)
            out.norm += o.norm; out.ret += o.ret; out.brk += o.brk; out.cont += o.cont
        return out
    s_AsyncFor = s_For

    def static_callee(self, call, st):
        save, self.exc = self.exc, []
        q = self.quiet; self.quiet = True
        try:
            f = call.func
            if isinstance(f, ast.Name): r = self.eval(f, st)
            elif isinstance(f, ast.Attribute): r = self.eval(f, st)
            else: return None
        finally: self.exc = save; self.quiet = q
        return self.func_of(r[0][1]) if r else None

    def for_gen(self, n, st):
        out = Out()
        for s, fv, args, kw in self.eval_callee(n.iter, st):
            fr = self.frame_state()

            def handler(s2, v, fr=fr):
                if s2.pending is not None: return [(s2, NONE)]
                cur = self.frame_state(); self.set_frame(fr)
                sts = self.assign(n.target, v, s2)
                o = self.block(n.body, sts)
                self.set_frame(cur)
                for x in o.brk: out.norm.append(x)
                out.ret.extend(o.ret)
                return [(x, NONE) for x in self.join(o.norm + o.cont)]
            for s2, _ in self.call_gen(fv, args, kw, s, n.iter, handler): out.norm.append(s2)
        if n.orelse:
            o = self.block(n.orelse, out.norm); o.ret += out.ret; return o
        out.norm = self.join(out.norm)
        return out

    def split_phi(self, v, st):
        if v.op == 'phi' and any(a in st.heap or a.op in ('tup', 'const') for a in v.args[1]):
            return [(st, a) for a in sorted(v.args[1], key=lambda x: x.id)]
        return [(st, v)]

    def iter_plan(self, it, st):
        """(ordered known elements or None, [(generic element, guards)]): what iterating over `it` yields"""
        if it.op == 'tup': return list(it.args[0]), []
        if it.op == 'const':
            v = cval(it)
            if isinstance(v, str) and len(v) <= 8: return [const(c) for c in v], []
            if isinstance(v, bytes) and self.unroll and len(v) <= self.unroll: return [const(c) for c in v], []
            return [], ([] if v in (None, '', b'') else [(elem(it), frozenset())])
        if it.op == 'call' and it.args[0] in ('list', 'tuple', 'sorted', 'iter', 'set', 'frozenset', 'reversed', 'enumerate') and it.args[1]:
            inner = it.args[1][0]
            if inner in st.heap or inner.op in ('tup', 'meth', 'call', 'view'):
                k, r = self.iter_plan(inner, st)
                if it.args[0] == 'reversed': k = k[::-1]
                if it.args[0] == 'enumerate':
                    return [tup(const(i), x) for i, x in enumerate(k)] if not r else [tup(sym('idx'), x) for x in k], [(tup(mk('index', inner), x), g) for x, g in r]
                return k, r
        if it.op == 'call' and it.args[0] == 'range' and it.args[1] and all(is_const(a) for a in it.args[1]):
            r = range(*[cval(a) for a in it.args[1]])
            if len(r) <= max(6, self.unroll): return [const(i) for i in r], []
        if it.op == 'view':
            base, what = it.args
            h = st.heap.get(base)
            f = {'keys': lambda k, v: k, 'values': lambda k, v: v, 'items': lambda k, v: tup(k, v)}[what]
            if h is None: return [], [(elem(mk('meth', base, what, (), ())), frozenset())]
            known = [f(k, v) for k, v in h.known]
            rest = [(f(k, v), g) for k, v, g in sorted(h.rest, key=lambda r: (r[0].id if r[0] is not None else 0, r[1].id))]
            if h.base is not None: rest.append((f(mk('key', h.base), mk('sub', h.base, mk('key', h.base))), frozenset()))
            return known, rest
        h = st.heap.get(it)
        if h is not None and h.kind == DICT: return self.iter_plan(mk('view', it, 'keys'), st)
        if h is not None and h.kind in (LIST, SET):
            rest = [(v, g) for k, v, g in sorted(h.rest, key=lambda r: r[1].id)]
            if h.base is not None: rest.append((elem(h.base), frozenset()))
            return list(h.known), rest
        return [], [(elem(it), frozenset())]

    @staticmethod
    def elem_kills(t):
        """element-like sub-terms that are rebound when a generic element is drawn"""
        return {x for x in subterms_c(t) if x.op in ('elem', 'key', 'index') or (x.op == 'sym' and x.args[0].startswith('~'))}

    def for_over(self, n, st, it):
        out = Out()
        for s, i in self.split_phi(it, st): 
            o = self.for_one(n, s, i)
            out.norm += o.norm; out.ret += o.ret; out.brk += o.brk; out.cont += o.cont
        return out

    def loop(self, st, known, rest, body, node, univkey, it=None):
        """generic iteration: body(st, element) -> Out.  rest*, k1, rest*, k2, ... rest*"""
        out = Out()
        cur = [st]
        tagbase = self.nid(node)
        save = self.ctx

        def run_rest(states, phase):
            if not rest: return states
            allheads = []; seen = {}
            for s in states: seen[s.key()] = s
            heads = list(states); allheads = list(states); rounds = 0
            entry = states[0] if states else None
            while heads and rounds < 12:
                rounds += 1
                back = []
                for v, guards in rest:
                    tag = ('it', tagbase, 'r')
                    kills = self.elem_kills(v)
                    sin = []
                    for s in heads:
                        s2 = self.begin_elem(s, kills, guards)
                        if s2 is not None: sin.append(s2)
                    self.ctx = save + (tag,)
                    for s in sin:
                        o = body(s, v)
                        out.ret += [(self.note_exists(x, kills, v), rv) for x, rv in o.ret]
                        out.brk += [self.note_exists(x, kills, v) for x in o.brk]
                        for x in o.norm + o.cont: back.append((self.note_univ(x, kills, univkey, v), kills))
                    self.ctx = save
                nxt = []
                for x, kills in back:
                    nxt.append(self.end_iteration(x, ('it', tagbase, 'r'), states_entry(states), kills))
                heads = self.loop_heads_plain(nxt, seen, rounds)
                allheads = self.join(allheads + heads) if rounds > 2 else allheads + heads
                out.ret = self.dedupe_ret(out.ret); out.brk = self.join(out.brk)
            return self.join(allheads)

        def states_entry(states): return states[0]
        cur = run_rest(cur, 0)
        for i, v in enumerate(known):
            self.ctx = save + (('it', tagbase, i),)
            nxt = []
            for s in cur:
                o = body(s, v)
                out.ret += o.ret; out.brk += o.brk; nxt += o.norm + o.cont
            self.ctx = save
            cur = run_rest(self.join(nxt), i + 1) if nxt else []
        self.ctx = save
        res = []; zero = []
        vac = {}
        for s in cur:
            if univkey not in s.univ and rest and not known:
                zero.append(s); continue
            before = s
            s = self.finish_univ(s, univkey, bool(known))
            res.append(s)
            for a, v in s.facts.items():
                if v is False and a.op == 'exists' and before.facts.get(a) is not False: vac[a] = False
        for s in zero:                      # no iteration took place: universal facts hold vacuously
            if it is not None:
                s = self.assume(mk('nonempty', it), False, s)
                if s is None: continue
            if vac:
                s = s.clone(); s.facts = dict(s.facts)
                for a in vac: s.facts.setdefault(a, False)
            res.append(s)
        out.norm = res
        return out

    def loop_heads_plain(self, states, seen, rounds):
        res = self.join(states)
        if rounds >= 3:
            wid = []
            for s in res:
                old = seen.get(('g', (frozenset(s.auto.items()), s.pending) if rounds >= 6 else self.relkey(s)))
                wid.append(merge(old, s) if old is not None else s)
            res = wid
        new = []
        for s in res:
            k = s.key()
            if k in seen: continue
            seen[k] = s
            seen[('g', (frozenset(s.auto.items()), s.pending) if rounds >= 6 else self.relkey(s))] = s
            new.append(s)
        return new

    def begin_elem(self, s, kills, guards):
        if kills:
            ks = kills
            s = s.kill(lambda a: any(k in subterms_c(a) for k in ks) and a.op != 'exists')
        for a, v in guards:
            s = self.assume(a, v, s)
            if s is None: return None
        return s

    def elem_facts(self, s, kills):
        f = set()
        for a, v in s.facts.items():
            if a.op != 'exists' and any(k in subterms_c(a) for k in kills): f.add((a, v))
        for a, c in s.eqs.items():
            if any(k in subterms_c(a) for k in kills): f.add((eqatom(a, c), True))
        return f

    def note_exists(self, s, kills, v):
        f = self.elem_facts(s, kills)
        if not f: return s
        s = s.clone(); s.facts = dict(s.facts)
        for a, b in f: s.facts[exists_atom([(a, b)])] = True
        if 1 < len(f) <= 5: s.facts[exists_atom(f)] = True
        return s

    def note_univ(self, s, kills, key, v):
        f = frozenset(self.elem_facts(s, kills))
        s = self.note_exists(s, kills, v) if f else s
        f = frozenset(frozenset([(a, not b)]) for a, b in f)         # sets of conditions no element satisfies together
        s = s.clone(); s.univ = dict(s.univ)
        s.univ[key] = f if key not in s.univ else both_impossible(s.univ[key], f)
        return s

    def finish_univ(self, s, key, had_known):
        f = s.univ.get(key)
        if f is None: return s
        s = s.clone(); s.univ = {k: v for k, v in s.univ.items() if k != key}; s.facts = dict(s.facts)
        for S in f:
            ea = exists_atom(S)
            if s.facts.get(ea) is not True: s.facts[ea] = False
        return s

    def for_sentinel(self, n, st, it):
        """for x in iter(f, end), step by step while the comparison with `end` is decided; None if it is not"""
        out = Out(); todo = [st]; save = self.ctx; fin = []
        for i in range(self.unroll):
            nxt = []
            self.ctx = save + (('w', self.nid(n), i),)
            for h in todo:
                for s, v in self.call_value(it.args[0], [], {}, h, n):
                    for s2, c in self.compare('eq', v, it.args[1], s, n):
                        if c is TRUE: fin.append(s2)
                        elif c is FALSE:
                            o = self.block(n.body, self.assign(n.target, v, s2))
                            out.ret += o.ret; out.brk += o.brk; nxt += o.norm + o.cont
                        else: self.ctx = save; return None
            todo = self.join(nxt)
            if not todo: break
        self.ctx = save
        if todo: return None
        if n.orelse and fin:
            oe = self.block(n.orelse, fin)
            fin = oe.norm; out.ret += oe.ret; out.brk += oe.brk; out.cont += oe.cont
        out.norm = self.join(fin + out.brk); out.brk = []
        return out

    def for_one(self, n, st, it):
        if it.op == 'iter2' and self.unroll:
            mark = len(self.exc)
            o = self.for_sentinel(n, st, it)
            if o is not None: return o
            del self.exc[mark:]
        known, rest = self.iter_plan(it, st)
        self.emit_iter(it, n, st)

        def body(s, v):
            o = Out()
            for s2 in self.assign(n.target, v, s):
                for s3 in self.emit('each', 'for', [it, v], {}, None, NONE, n, s2):
                    oo = self.block(n.body, [s3])
                    for x in oo.norm + oo.cont: o.norm += self.emit('eachend', 'for', [it, v], {}, None, NONE, n, x)
                    o.ret += oo.ret; o.brk += oo.brk
            return o
        out = Out()
        for s in self.emit('iter', 'for', [it], {}, None, NONE, n, st):
            o = self.loop(s, known, rest, body, n, ('u', self.nid(n), self.ctxid()), it)
            ends = []
            for x in o.norm: ends += self.emit('iterend', 'for', [it], {}, None, NONE, n, x)
            if n.orelse and ends:
                oe = self.block(n.orelse, ends)
                ends = oe.norm; out.ret += oe.ret; out.brk += oe.brk; out.cont += oe.cont
            out.norm += ends + o.brk; out.ret += o.ret
        return out

    def emit_iter(self, it, n, st): pass

    def eval_eager(self, n, st):
        save, self.eager_iter = self.eager_iter, True
        try: return self.eval(n, st)
        finally: self.eager_iter = save

    # comprehension: runs like a loop appending to a new container
    def comp(self, n, st, kind):
        st, res = self.new(st, n, H(kind if kind != 'gen' else LIST))
        key = ('u', self.nid(n), self.ctxid())

        def gen(i, s):
            if i == len(n.generators):
                o = Out()
                if kind == DICT:
                    for s1, k in self.eval(n.key, s):
                        for s2, v in self.eval(n.value, s1): o.norm += self.store_sub(s2, res, k, v)
                else:
                    for s1, v in self.eval(n.elt, s):
                        h = s1.heap[res]
                        o.norm.append(s1.setheap(res, h.with_(known=h.known + (v,)) if not (kind == SET and v in h.known) else h))
                return o
            g = n.generators[i]; out = Out()
            for s1, it in self.eval_eager(g.iter, s):
                for s2, it2 in self.split_phi(it, s1):
                    known, rest = self.iter_plan(it2, s2)

                    def body(s3, v):
                        o = Out()
                        for s4 in self.assign(g.target, v, s3):
                            cur = [s4]
                            for c in g.ifs:
                                nxt = []
                                for x in cur:
                                    t, f = self.branch(c, x); nxt += t; o.norm += f
                                cur = nxt
                            for x in cur: o.norm += gen(i + 1, x).norm
                        return o
                    oo = self.loop(s2, known, rest, body, g.target, key + (i,), it2)
                    out.norm += oo.norm
            return out
        fr = dict(st.frames.get(self.fid, {}))
        names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        outs = []
        for s in self.join(gen(0, st).norm):
            f = dict(s.frames.get(self.fid, {}))
            for nm in names:
                if nm in fr: f[nm] = fr[nm]
                else: f.pop(nm, None)
            s = s.clone(); s.frames = dict(s.frames); s.frames[self.fid] = f
            outs.append((s, res))
        return outs

    def e_ListComp(self, n, st): return self.comp(n, st, LIST)
    def e_SetComp(self, n, st): return self.comp(n, st, SET)
    def e_DictComp(self, n, st): return self.comp(n, st, DICT)
    def e_GeneratorExp(self, n, st): return self.comp(n, st, 'gen')

    def exists_genexp(self, gen, st, mode):
        """next/any/all over a generator expression: list of (state, ('yield', value) | ('end',))"""
        key = ('u', self.nid(gen), self.ctxid())
        results = []

        def run(i, s):
            o = Out()
            if i == len(gen.generators):
                for s1, v in self.eval(gen.elt, s):
                    if mode == 'next': o.ret.append((s1, v))
                    else:
                        for s2, b in self.truth(v, s1):
                            if b == (mode == 'any'): o.ret.append((s2, v))
                            else: o.norm.append(s2)
                return o
            g = gen.generators[i]
            for s1, it in self.eval_eager(g.iter, s):
                for s2, it2 in self.split_phi(it, s1):
                    known, rest = self.iter_plan(it2, s2)

                    def body(s3, v):
                        ob = Out()
                        for s4 in self.assign(g.target, v, s3):
                            cur = [s4]
                            for c in g.ifs:
                                nxt = []
                                for x in cur:
                                    t, f = self.branch(c, x); nxt += t; ob.norm += f
                                cur = nxt
                            for x in cur:
                                oo = run(i + 1, x); ob.norm += oo.norm; ob.ret += oo.ret
                        return ob
                    oo = self.loop(s2, known, rest, body, g.target, key + (i,), it2)
                    o.norm += oo.norm; o.ret += oo.ret
            return o
        fr = dict(st.frames.get(self.fid, {}))
        names = {x.id for g in gen.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}

        def restore(s):
            f = dict(s.frames.get(self.fid, {}))
            for nm in names:
                if nm in fr: f[nm] = fr[nm]
                else: f.pop(nm, None)
            s = s.clone(); s.frames = dict(s.frames); s.frames[self.fid] = f
            return s
        o = run(0, st)
        return [(restore(s), ('yield', v)) for s, v in o.ret] + [(restore(s), ('end',)) for s in self.join(o.norm)]

    # ---------------------------------------------------------------- assignment
    def setname(self, st, name, v):
        f = self.func
        if f is None: return st.setvar(self.fid, name, v)
        if name in f.globals: return st.setvar('m:' + f.mod.name, name, v)
        if name in f.nonlocals:
            fid = self.find_frame(name, st)
            return st.setvar(fid, name, v)
        return st.setvar(self.fid, name, v)

    def find_frame(self, name, st):
        fid = self.parent_of.get(self.fid)
        while fid is not None:
            if name in st.frames.get(fid, {}): return fid
            fid = self.parent_of.get(fid)
        return self.fid
    parent_of = {}

    def assign(self, tgt, v, st):
        if isinstance(tgt, ast.Name): return [self.setname(st, tgt.id, v)]
        if isinstance(tgt, ast.Starred): return self.assign(tgt.value, v, st)
        if isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            out = []
            for s, v in self.split_phi(v, st):
                h = s.heap.get(v)
                if v.op == 'tup': items = list(v.args[0])
                elif h is not None and h.kind == LIST and not h.rest and h.base is None: items = list(h.known)
                else: items = None
                star = next((i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)), None)
                cur = [s]
                for i, e in enumerate(tgt.elts):
                    if items is not None and star is None and len(items) == n: x = items[i]
                    elif items is not None and star is not None and i < star and i < len(items): x = items[i]
                    elif items is not None and star is not None and i > star and len(items) >= n - 1: x = items[i - n]
                    elif items is not None and star == i and len(items) >= n - 1:
                        s1, x = self.new(cur[0], e, H(LIST, items[i:len(items) - (n - 1 - i)]), ':star'); cur = [c.setheap(x, s1.heap[x]) for c in cur]
                    elif star is not None and i == star: x = mk('slice', v, const(i), NONE)
                    elif star is not None and i > star: x = mk('sub', v, const(i - n))
                    else: x = mk('sub', v, const(i))
                    cur = [y for c in cur for y in self.assign(e, x, c)]
                out += cur
            return out
        if isinstance(tgt, ast.Attribute):
            out = []
            for s, r in self.eval(tgt.value, st):
                for s1, r1 in self.split_phi(r, s):
                    if r1.op == 'mod':
                        out.append(s1.setvar('m:' + r1.args[0], tgt.attr, v)); continue
                    for s2 in self.emit('setattr', tgt.attr, [v], {}, r1, NONE, tgt, s1):
                        out.append(self.set_attr(s2, r1, tgt.attr, v))
            return out
        if isinstance(tgt, ast.Subscript):
            out = []
            for s, r in self.eval(tgt.value, st):
                for s2, k in self.eval_index(tgt.slice, s):
                    for s3, r1 in self.split_phi(r, s2):
                        for s4 in self.emit('setitem', '[]=', [k, v], {}, r1, NONE, tgt, s3):
                            out += self.store_sub(s4, r1, k, v)
            return out
        return [st]

    def set_attr(self, st, r, name, v):
        h = st.heap.get(r)
        k = const(name)
        if h is None: h = H(INST, base=r, extra=self.class_of(r, st))
        st = st.setheap(r, h.put(k, v))
        a = mk('attr', r, name)
        return st.kill(lambda x: a in subterms_c(x))

    def store_sub(self, st, r, k, v):
        h = st.heap.get(r)
        if h is None: h = H(DICT, base=r)
        if h.kind == INST: h = H(DICT, base=r)
        if h.kind == LIST:
            if is_const(k) and type(cval(k)) is int and not h.rest and h.base is None and -len(h.known) <= cval(k) < len(h.known):
                kn = list(h.known); kn[cval(k)] = v
                return [st.setheap(r, h.with_(known=tuple(kn)))]
            return [st.setheap(r, h.weak(None, v))]
        # entries that the store may overwrite: non-constant keys that could be equal
        nh = h.put(k, v)
        if not is_const(k) and h.get(k) is None:
            kn = []
            for kk, vv in nh.known:
                if kk is not k and not self.distinct(kk, k, st): kn.append((kk, phi('ow', vv, v)))
                else: kn.append((kk, vv))
            nh = nh.with_(known=tuple(kn))
        st = st.setheap(r, nh)
        return [self.touched(st, r, k)]

    def distinct(self, a, b, st):
        if a is b: return False
        if is_const(a) and is_const(b): return cval(a) != cval(b)
        if a.op == 'sym' and b.op == 'sym' and a.args[2] and b.args[2]: return True
        if a.op == 'sym' and a.args[2] and is_const(b) or b.op == 'sym' and b.args[2] and is_const(a): return True
        if a.op == 'sym' and a.args[2] and a.args[0].startswith('#'):
            # tracked symbol: distinct from generic terms unless these are built from it
            return not mentions(b, a) and not st.facts.get(eqatom(a, b))
        if b.op == 'sym' and b.args[2] and b.args[0].startswith('#'): return self.distinct(b, a, st)
        ga, gb = ground(a), ground(b)
        if ga is not None and gb is not None: return ga != gb
        if ga is not None or gb is not None:
            g, o = (ga, b) if ga is not None else (gb, a)
            return not any(mentions(o, x) for x in g if not is_const(x)) and not st.facts.get(eqatom(a, b))
        return st.facts.get(eqatom(a, b)) is False

    def touched(self, st, r, k=None):
        """contents of container r changed: drop facts about its emptiness / membership"""
        def p(a):
            return a.op in ('nonempty', 'truthy', 'in') and r in a.args or (a.op == 'sub' and a.args[0] is r and (k is None or a.args[1] is k)) or \
                (a.op == 'cmp' and any(isinstance(x, T) and x.op == 'call' and x.args[0] == 'len' and r in x.args[1] for x in a.args[1:]))
        return st.kill(p)
