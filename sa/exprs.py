"""Expression evaluation, branching, calls and library models of the abstract interpreter."""
import ast, re
from .terms import *
from .state import *
from .engine import *
from .engine import Event, Out
from . import sqlparse

CMP = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Is: 'eq', ast.IsNot: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.In: 'in', ast.NotIn: 'notin'}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.FloorDiv: '//', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^',
       ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
FOLD_METH = {'split', 'rsplit', 'partition', 'rpartition', 'find', 'rfind', 'count', 'index', 'isalnum', 'isalpha', 'casefold', 'removeprefix', 'removesuffix', 'capitalize', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'encode', 'decode', 'replace', 'splitlines', 'isdigit', 'hex', 'title', 'join', 'format', 'zfill'}
COPYLIKE = {'copy.copy', 'copy.deepcopy'}
TRANSPARENT_EXT = {'typing.cast': 1, 'os.fspath': 0, 'os.fsencode': 0, 'os.fsdecode': 0, 'sys.intern': 0}


OSERR = {'os.rename', 'os.replace', 'shutil.move', 'os.remove', 'os.unlink', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.rmtree', 'os.rmdir', 'os.makedirs', 'os.mkdir', 'os.link', 'os.removedirs', 'os.listdir', 'os.stat', 'os.path.getsize', 'os.path.getmtime', 'os.path.getctime'}


ARITH = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y, '//': lambda x, y: x // y, '%': lambda x, y: x % y,
         '**': lambda x, y: x ** y if abs(y) < 64 else 1 / 0, '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y, '<<': lambda x, y: x << y if y < 256 else 1 / 0, '>>': lambda x, y: x >> y}


class Undecided(Exception): pass


def _pure():
    import fnmatch, posixpath, base64, itertools, operator, json, string
    d = {n: getattr(__builtins__, n, None) or (__builtins__[n] if isinstance(__builtins__, dict) else None) for n in ('sum', 'hex', 'oct', 'bin', 'repr', 'ascii', 'float', 'divmod', 'pow', 'format')}
    d.update({'fnmatch.fnmatch': fnmatch.fnmatch, 'fnmatch.fnmatchcase': fnmatch.fnmatchcase, 'fnmatch.filter': lambda a, b: list(fnmatch.filter(a, b)), 'dict.fromkeys': dict.fromkeys, 'bytes.fromhex': bytes.fromhex,
              'int': lambda *a, **k: int(*a, **k), 'math.fsum': __import__('math').fsum, 're.escape': re.escape,
              'itertools.product': lambda *a: list(itertools.product(*a)), 'itertools.islice': lambda *a: list(itertools.islice(*a)), 'itertools.groupby': lambda a: [(k, list(g)) for k, g in itertools.groupby(a)],
              'collections.Counter': lambda *a: {k: v for k, v in __import__('collections').Counter(*a).items()}})
    for n in ('normpath', 'basename', 'dirname', 'split', 'splitext', 'isabs', 'commonpath', 'commonprefix'): d['os.path.' + n] = getattr(posixpath, n)
    d['os.path.relpath'] = lambda a, b: posixpath.relpath(a, b) if posixpath.isabs(a) and posixpath.isabs(b) else 1 / 0
    d['os.path.abspath'] = lambda a: posixpath.normpath(a) if posixpath.isabs(a) else None + 1
    return d


PURE = _pure()

SUBERR = {'ENOENT': 'FileNotFoundError', 'EEXIST': 'FileExistsError', 'EACCES': 'PermissionError', 'EPERM': 'PermissionError', 'ENOTDIR': 'NotADirectoryError', 'EISDIR': 'IsADirectoryError'}
ERRNO = {'FileNotFoundError': 'ENOENT', 'FileExistsError': 'EEXIST', 'PermissionError': 'EACCES', 'ConnectionResetError': 'ECONNRESET', 'BrokenPipeError': 'EPIPE', 'BlockingIOError': 'EAGAIN', 'NotADirectoryError': 'ENOTDIR', 'IsADirectoryError': 'EISDIR'}


class Interp(Engine):
    # ------------------------------------------------------------ evaluation
    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: return [(st, mk('opaque', self.nid(n)))]
        return m(n, st)

    def evs(self, nodes, st):
        cur = [(st, [])]
        for n in nodes:
            cur = [(s2, vs + [v]) for s, vs in cur for s2, v in self.eval(n, s)]
        return cur

    def e_Constant(self, n, st): return [(st, const(n.value))]

    def e_Name(self, n, st):
        v = self.lookup(n.id, st)
        return [(st, v)]

    def lookup(self, name, st):
        f = self.func
        if f is None or name not in f.globals:
            fr = st.frames.get(self.fid, {})
            if name in fr: return fr[name]
            fid = self.parent_of.get(self.fid)
            while fid is not None:
                fr = st.frames.get(fid, {})
                if name in fr: return fr[name]
                fid = self.parent_of.get(fid)
        v = self.module_attr(self.curmod.name, name, st)
        if v is not None: return v
        if name in ('True', 'False', 'None'): return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
        if name in BUILTIN: return mk('ext', name)
        return mk('sym', 'unbound:' + name, None, False)

    def e_NamedExpr(self, n, st):
        return [(s2, v) for s, v in self.eval(n.value, st) for s2 in self.assign(n.target, v, s)]

    def e_Attribute(self, n, st):
        out = []
        for s, r in self.eval(n.value, st):
            for s2, r2 in self.split_attr(r, s):
                out += self.attr_of(s2, r2, n.attr, n)
        return out

    def split_attr(self, v, st):
        if v.op == 'phi' and any(a in st.heap or a.op in ('func', 'bound', 'cls', 'mod') for a in v.args[1]):
            return [(st, a) for a in sorted(v.args[1], key=lambda x: x.id)]
        return [(st, v)]

    def attr_of(self, st, r, name, node):
        if r.op == 'mod':
            v = self.module_attr(r.args[0], name, st)
            return [(st, v if v is not None else mk('ext', r.args[0] + '.' + name))]
        if r.op == 'ext': return [(st, self.consts.get(r.args[0] + '.' + name) or mk('ext', r.args[0] + '.' + name))]
        if r.op == 'cls':
            f = self.class_attr(r.args[0], name)
            if f is not None and f.op == 'func' and any((d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None)) == 'classmethod' for d in getattr(self.prog.funcs[f.args[0]].node, 'decorator_list', [])):
                return [(st, mk('bound', f, r))]
            return [(st, f if f is not None else mk('attr', r, name))]
        if r.op == 'exc' and name == 'errno' and len(r.args) > 1 and isinstance(r.args[1], T):
            n = r.args[1]
            if n.op == 'tup' and n.args[0]: n = n.args[0][0]
            if n.op == 'ext' and str(n.args[0]).startswith('errno.'): return [(st, n)]
        if r.op == 'exc' and name == 'errno' and r.args[0] in ERRNO: return [(st, mk('ext', 'errno.' + ERRNO[r.args[0]]))]
        if r.op == 'exc' and len(r.args) > 1 and isinstance(r.args[1], T) and r.args[1] in st.heap and st.heap[r.args[1]].kind == INST: return self.attr_of(st, r.args[1], name, node)
        if r.op == 'exc' and name == 'args' and len(r.args) > 1 and isinstance(r.args[1], T) and r.args[1].op == 'tup': return [(st, r.args[1])]
        if r.op == 'exc' : return [(st, mk('attr', r, name))]
        h = st.heap.get(r)
        if h is not None and h.kind == INST:
            v = h.get(const(name))
            if v is not None: return [(st, v)]
        c = self.class_of(r, st)
        if c:
            f = self.class_attr(c, name)
            if f is not None:
                if f.op == 'func':
                    fn = self.prog.funcs.get(f.args[0])
                    decs = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None) for d in getattr(fn.node, 'decorator_list', [])]
                    if 'staticmethod' in decs: return [(st, f)]
                    if 'classmethod' in decs: return [(st, mk('bound', f, mk('cls', c)))]
                    if 'property' in decs: return self.call(mk('bound', f, r), [], {}, st, node)
                    return [(st, mk('bound', f, r))]
                return [(st, f)]
        if h is not None and h.kind == INST and h.base is not None: return [(st, mk('attr', h.base, name))]
        if h is not None and h.kind in (DICT, LIST, SET): return [(st, mk('bm', r, name))]
        return [(st, mk('attr', r, name))]

    def class_of(self, r, st):
        h = st.heap.get(r)
        if h is not None and h.kind == INST and isinstance(h.extra, str): return h.extra
        if r.op == 'sym' and r.args[1]: return r.args[1]
        if r.op == 'glob' and len(r.args) > 2 and r.args[2]: return r.args[2]
        if r.op == 'sdb': return 'bversion.storage.server_db.server_db'
        return None

    def class_attr(self, cls, name, depth=0):
        c = self.prog.classes.get(cls)
        if c is None or depth > 5: return None
        if name in c.methods:
            f = c.methods[name]
            return mk('func', f.qual, 'm:' + c.mod.name, self.cls_defaults(f))
        for b in c.node.body:
            if isinstance(b, (ast.Assign, ast.AnnAssign)) and b.value is not None:
                tg = b.targets if isinstance(b, ast.Assign) else [b.target]
                if any(isinstance(t, ast.Name) and t.id == name for t in tg):
                    if isinstance(b.value, ast.Constant): return const(b.value.value)
                    return mk('attr', mk('cls', cls), name)
        for b in c.node.bases:
            v = None
            if isinstance(b, ast.Name): v = self.static.get(c.mod.name, {}).get(b.id)
            if v is not None and v.op == 'cls':
                r = self.class_attr(v.args[0], name, depth + 1)
                if r is not None: return r
        return None

    def cls_defaults(self, f):
        d = []
        for x in list(f.node.args.defaults) + [k for k in f.node.args.kw_defaults if k is not None]:
            if isinstance(x, ast.Constant): d.append(const(x.value))
            elif isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant): d.append(const(-x.operand.value))
            elif isinstance(x, ast.Name):
                v = self.static.get(f.mod.name, {}).get(x.id)
                d.append(v if v is not None else mk('ext', x.id))
            elif isinstance(x, (ast.List, ast.Dict, ast.Tuple)) and not list(ast.iter_child_nodes(x))[1:]: d.append(mk('call', 'list', (), ()))
            else: d.append(mk('opaque', self.nid(x)))
        return tuple(d)

    def e_Subscript(self, n, st):
        out = []
        for s, r in self.eval(n.value, st):
            if isinstance(n.slice, ast.Slice):
                for s2, (lo, hi, step) in self.eval_slice(n.slice, s):
                    for s3, r3 in self.split_phi(r, s2): out.append(self.slice_of(s3, r3, lo, hi, step, n))
            else:
                for s2, k in self.eval(n.slice, s):
                    for s3, r3 in self.split_phi(r, s2):
                        out += self.sub_of(s3, r3, k, n)
        return out

    def eval_index(self, sl, st):
        if isinstance(sl, ast.Slice):
            return [(s, mk('slc', lo, hi)) for s, (lo, hi, _) in self.eval_slice(sl, st)]
        return self.eval(sl, st)

    def eval_slice(self, sl, st):
        cur = [(st, [])]
        for p in (sl.lower, sl.upper, sl.step):
            if p is None: cur = [(s, v + [NONE]) for s, v in cur]
            else: cur = [(s2, v + [x]) for s, v in cur for s2, x in self.eval(p, s)]
        return cur

    def slice_of(self, st, r, lo, hi, step, node):
        if r.op in ('cat', 'bytes1'):
            h = getattr(self.mon, 'slice_hook', None); v = h(r, lo, hi, step) if h else None
            if v is not None: return st, v
        cst = all(is_const(x) and type(cval(x)) in (int, type(None)) for x in (lo, hi, step))
        if cst:
            sl = slice(cval(lo), cval(hi), cval(step))
            if is_str(r): return st, const(cval(r)[sl])
            if r.op == 'tup': return st, tup(*r.args[0][sl])
            h = st.heap.get(r)
            if h is not None and h.kind == LIST:
                if not h.rest and h.base is None: return self.new(st, node, H(LIST, h.known[sl]))
                if cval(lo) is None and cval(hi) is None:
                    return self.new(st, node, h.with_(known=h.known[::-1] if cval(step) == -1 else h.known))
                return self.new(st, node, H(LIST, (), [(None, v, frozenset()) for v in h.known] + list(h.rest), h.base))
            if cval(lo) is None and cval(hi) is None:
                if cval(step) is None: return st, r
                if cval(step) == -1: return st, mk('call', 'reversed', (r,), ())
            if r.op == 'slice' and cval(hi) is None and cval(step) is None and is_const(r.args[1]) and r.args[2] is NONE \
                    and type(cval(lo)) is int and cval(lo) >= 0 and type(cval(r.args[1])) is int and cval(r.args[1]) >= 0:
                return st, mk('slice', r.args[0], const(cval(lo) + cval(r.args[1])), NONE)
        if step is NONE:
            if lo is NONE: lo = const(0)
            return st, mk('slice', r, lo, hi)
        return st, mk('slice3', r, lo, hi, step)

    def sub_of(self, st, r, k, node):
        h = st.heap.get(r)
        for e in self.emit('sub', '[]', [k], {}, r, NONE, node, st): st = e
        if self.trydepth or self.mon.raises:
            exact = h is not None and h.kind == LIST and not h.rest and h.base is None and is_const(k) and type(cval(k)) is int
            if not (h is not None and h.get(k) is not None) and not (r.op == 'tup') and not exact:
                self.raise_(st, mk('exc', 'KeyError', NONE))
        if h is not None and h.kind == INST:
            c = self.class_of(r, st); f = self.class_attr(c, '__getitem__') if c else None
            if f is not None: return self.inline(f, [r, k], {}, st, node)
        if h is None or h.kind == INST:
            if r.op == 'tup' and is_const(k) and type(cval(k)) is int and -len(r.args[0]) <= cval(k) < len(r.args[0]):
                return [(st, r.args[0][cval(k)])]
            if is_str(r) and is_const(k) and type(cval(k)) is int and -len(cval(r)) <= cval(k) < len(cval(r)):
                return [(st, const(cval(r)[cval(k)]))]
            if r.op == 'cat' and is_const(k) and type(cval(k)) is int and is_str(r.args[0][0]) and 0 <= cval(k) < len(cval(r.args[0][0])):
                first = cval(r.args[0][0])
                if any(x.op == 'bytes1' for x in r.args[0]) and isinstance(first, str): first = first.encode()
                return [(st, const(first[cval(k)]))]
            if r.op == 'fdict':
                for kk, v in r.args[0]:
                    if kk is k: return [(st, v)]
            return [(st, mk('sub', r, k))]
        if h.kind == LIST or h.kind == SET:
            if is_const(k) and type(cval(k)) is int and not h.rest and h.base is None:
                if -len(h.known) <= cval(k) < len(h.known): return [(st, h.known[cval(k)])]
                self.raise_(st, mk('exc', 'IndexError', NONE)); return []
            alts = list(h.known) + [v for _, v, _ in h.rest] + ([mk('sub', h.base, k)] if h.base is not None else [])
            if not alts:
                self.raise_(st, mk('exc', 'IndexError', NONE)); return []
            return [(st, phi('item', *alts))]
        v = h.get(k)
        if v is not None: return [(st, v)]
        same = [vv for kk, vv, g in h.rest if kk is k]
        if same: return [(st, phi('item', *same))]
        alts = [vv for kk, vv in h.known if not self.distinct(kk, k, st)]
        alts += [vv for kk, vv, g in h.rest if not self.distinct(kk, k, st)]
        if h.base is not None: alts.append(mk('sub', h.base, k))
        if isinstance(h.extra, T) and h.kind == DICT:          # defaultdict
            s2, nv = self.default_value(st, h.extra, node)
            s2 = s2.setheap(r, s2.heap[r].put(k, nv))
            return [(s2, nv)] + ([(st, a) for a in alts] if alts else [])
        if not alts:
            self.raise_(st, mk('exc', 'KeyError', NONE)); return []
        return [(st, phi('item', *alts))]

    def default_value(self, st, factory, node):
        nm = factory.args[0] if factory.op == 'ext' else ''
        if nm == 'list': return self.new(st, node, H(LIST), 'dd')
        if nm == 'dict': return self.new(st, node, H(DICT), 'dd')
        if nm == 'set': return self.new(st, node, H(SET), 'dd')
        if nm == 'int': return st, const(0)
        return st, mk('opaque', self.nid(node))

    def e_Starred(self, n, st): return [(s, mk('star', v)) for s, v in self.eval(n.value, st)]

    def e_Tuple(self, n, st): return [(s, tup(*self.expand(vs, s))) for s, vs in self.evs(n.elts, st)]

    def expand(self, vs, st):
        out = []
        for v in vs:
            if v.op == 'star':
                x = v.args[0]; h = st.heap.get(x)
                if x.op == 'tup': out += x.args[0]; continue
                if h is not None and h.kind in (LIST, SET) and not h.rest and h.base is None: out += h.known; continue
            out.append(v)
        return out

    def e_List(self, n, st):
        out = []
        for s, vs in self.evs(n.elts, st):
            vs = self.expand(vs, s)
            known = [v for v in vs if v.op != 'star']
            rest = []; base = None
            for v in vs:
                if v.op == 'star':
                    k, r = self.iter_plan(v.args[0], s)
                    known += k; rest += [(None, x, g) for x, g in r]
            out.append(self.new(s, n, H(LIST, known, rest, base)))
        return out

    def e_Set(self, n, st):
        out = []
        for s, vs in self.evs(n.elts, st):
            out.append(self.new(s, n, H(SET, tuple(dict.fromkeys(self.expand(vs, s))))))
        return out

    def e_Dict(self, n, st):
        cur = [(st, [], [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, items, stars in cur:
                if k is None:
                    for s2, vv in self.eval(v, s): nxt.append((s2, items + [('**', vv)], stars))
                else:
                    for s2, kk in self.eval(k, s):
                        for s3, vv in self.eval(v, s2): nxt.append((s3, items + [(kk, vv)], stars))
            cur = nxt
        out = []
        for s, items, _ in cur:
            h = H(DICT)
            for k, v in items:
                if k == '**':
                    hh = s.heap.get(v)
                    if hh is not None and hh.kind == DICT:
                        for a, b in hh.known: h = h.put(a, b)
                        h = h.with_(rest=h.rest | hh.rest, base=h.base or hh.base)
                    else: h = h.with_(base=v)
                else: h = h.put(k, v)
            out.append(self.new(s, n, h))
        return out

    def e_Lambda(self, n, st): return self.make_func(n, st)

    def e_JoinedStr(self, n, st):
        cur = [(st, const(''))]
        for v in n.values:
            nxt = []
            for s, acc in cur:
                if isinstance(v, ast.Constant): nxt.append((s, cat(acc, const(v.value))))
                else:
                    for s2, x in self.eval(v.value, s):
                        if v.conversion in (114, 97) and is_const(x): x = const(repr(cval(x)))
                        if v.format_spec is not None:
                            for s2, sp in self.eval(v.format_spec, s2):
                                try: x = const(format(self.py(x, s2), self.py(sp, s2)))
                                except (Undecided, ValueError, TypeError): pass
                        x = canon_str(x)
                        if is_const(x) and not is_str(x): x = const(str(cval(x)))
                        nxt.append((s2, cat(acc, x)))
            cur = nxt
        return cur

    def e_FormattedValue(self, n, st): return self.eval(n.value, st)
    def e_Await(self, n, st): return self.eval(n.value, st)

    def e_IfExp(self, n, st):
        t, f = self.branch(n.test, st)
        return [x for s in t for x in self.eval(n.body, s)] + [x for s in f for x in self.eval(n.orelse, s)]

    def e_BoolOp(self, n, st):
        cur = [st]; out = []
        isand = isinstance(n.op, ast.And)
        for i, v in enumerate(n.values):
            nxt = []
            for s in cur:
                for s2, val in self.eval(v, s):
                    if i == len(n.values) - 1: out.append((s2, val)); continue
                    for s3, b in self.truth(val, s2):
                        if b == isand: nxt.append(s3)
                        else: out.append((s3, val if not self.isboolish(val) else mk('const', 'bool', b)))
            cur = nxt
        return out

    @staticmethod
    def isboolish(v): return v.op in ('cmp', 'not', 'in', 'exists', 'nonempty', 'truthy')

    def e_UnaryOp(self, n, st):
        out = []
        for s, v in self.eval(n.operand, st):
            if isinstance(n.op, ast.Not):
                for s2, b in self.truth(v, s): out.append((s2, mk('const', 'bool', not b)))
            elif is_const(v) and type(cval(v)) in (int, float):
                out.append((s, const(-cval(v)) if isinstance(n.op, ast.USub) else const(~cval(v)) if isinstance(n.op, ast.Invert) and type(cval(v)) is int else v))
            else: out.append((s, mk('un', type(n.op).__name__, v)))
        return out

    def e_BinOp(self, n, st):
        return [r for s, (a, b) in self.evs([n.left, n.right], st) for r in self.binop(n.op, a, b, s, n)]

    def binop(self, op, a, b, st, node):
        o = BIN.get(type(op), '?')
        ha, hb = st.heap.get(a), st.heap.get(b)
        if o in ('|', '-', '&', '^') and (self.setlike(a, st) or self.setlike(b, st)):
            return [self.set_op(st, o, a, b, node)]
        if o == '+':
            if ha is not None and ha.kind == LIST or hb is not None and hb.kind == LIST:
                k1, r1 = self.iter_plan(a, st); k2, r2 = self.iter_plan(b, st)
                return [self.new(st, node, H(LIST, k1 + k2, [(None, x, g) for x, g in r1 + r2]))]
            if a.op == 'tup' and b.op == 'tup': return [(st, tup(*(a.args[0] + b.args[0])))]
            if is_str(a) and is_str(b) and type(cval(a)) is type(cval(b)): return [(st, const(cval(a) + cval(b)))]
            if self.strlike(a) or self.strlike(b): return [(st, cat(canon_keep(a), canon_keep(b)))]
        if o == '|' and ha is not None and hb is not None and ha.kind == hb.kind == DICT:
            nh = ha.with_(extra=ha.extra)
            for x, y in hb.known: nh = nh.put(x, y)
            for x, y, g in hb.rest: nh = nh.weak(x, y, g)
            if hb.base is not None: nh = nh.with_(base=hb.base if nh.base is None else mk('upd', nh.base, b))
            return [self.new(st, node, nh)]
        if o == '*':
            x, y = (a, b) if not (is_const(a) and type(cval(a)) is int) else (b, a)
            if is_const(y) and type(cval(y)) is int and cval(y) <= 200:
                hx = st.heap.get(x)
                if is_str(x): return [(st, const(cval(x) * cval(y)))]
                if x.op == 'tup': return [(st, tup(*(x.args[0] * cval(y))))]
                if hx is not None and hx.kind == LIST and not hx.rest and hx.base is None: return [self.new(st, node, H(LIST, hx.known * cval(y)))]
        if o == '%' and is_str(a):
            try: return [(st, const(cval(a) % self.py(b, st)))]
            except (Undecided, TypeError, ValueError, KeyError): pass
        if o == '%' and is_str(a) and isinstance(cval(a), str):
            args = list(b.args[0]) if b.op == 'tup' else [b]
            parts = cval(a).split('%')
            acc = const(parts[0]); ok = True
            for p in parts[1:]:
                if not p or not args: ok = False; break
                x = args.pop(0)
                if is_const(x) and not is_str(x): x = const(str(cval(x)))
                acc = cat(cat(acc, canon_str(x)), const(p[1:]))
            if ok: return [(st, acc)]
        if is_const(a) and is_const(b) and type(cval(a)) in (int, float) and type(cval(b)) in (int, float) and o in ARITH:
            if not self.inloop():
                try: return [(st, const(ARITH[o](cval(a), cval(b))))]
                except Exception: pass
        return [(st, mk('bin', o, a, b))]

    def py(self, t, st, depth=0):
        """the Python value of a term that is known completely; Undecided otherwise"""
        if is_const(t): return cval(t)
        if depth > 8: raise Undecided
        if t.op == 'tup': return tuple(self.py(x, st, depth + 1) for x in t.args[0])
        if t.op in ('cat', 'path'):
            c = canon_str(t)
            if is_const(c): return cval(c)
        h = st.heap.get(t)
        if h is not None and not h.rest and h.base is None and h.kind != INST and not (h.kind == DICT and isinstance(h.extra, T)):
            try:
                if h.kind == LIST: return [self.py(x, st, depth + 1) for x in h.known]
                if h.kind == SET: return {self.py(x, st, depth + 1) for x in h.known}
                if h.kind == DICT: return {self.py(k, st, depth + 1): self.py(v, st, depth + 1) for k, v in h.known}
            except TypeError: pass
        elif t.op == 'view' or t.op == 'call' and t.args[0] in ('set', 'frozenset', 'list', 'tuple', 'reversed', 'enumerate', 'range', 'iter', 'dict') and t.args[1]:
            k, r = self.iter_plan(t, st)
            if not r: return [self.py(x, st, depth + 1) for x in k]
        raise Undecided

    def back(self, v, st, node, tag=':f'):
        """term of a Python value"""
        if isinstance(v, tuple):
            xs = []
            for i, x in enumerate(v): st, y = self.back(x, st, node, tag + '.%d' % i); xs.append(y)
            return st, tup(*xs)
        if isinstance(v, (list, set, frozenset)):
            xs = []
            for i, x in enumerate(sorted(v, key=repr) if not isinstance(v, list) else v): st, y = self.back(x, st, node, tag + '.%d' % i); xs.append(y)
            return self.new(st, node, H(LIST if isinstance(v, list) else SET, xs), tag)
        if isinstance(v, dict):
            h = H(DICT)
            for i, (k, x) in enumerate(v.items()):
                st, a = self.back(k, st, node, tag + '.k%d' % i); st, y = self.back(x, st, node, tag + '.v%d' % i); h = h.put(a, y)
            return self.new(st, node, h, tag)
        if v is None or isinstance(v, (str, bytes, int, float, bool)): return st, const(v)
        raise Undecided

    def fold_call(self, f, args, kw, st, node):
        try:
            a = [self.py(x, st) for x in args]; k = {n: self.py(x, st) for n, x in kw.items()}
        except Undecided: return None
        try: v = f(*a, **k)
        except Exception as e:
            if type(e).__module__ != 'builtins' or isinstance(e, (TypeError, AttributeError)): return None
            self.raise_(st, mk('exc', type(e).__name__, tup(const(str(e))))); return []
        try: return [self.back(v, st, node)]
        except Undecided: return None

    def value_eq(self, a, b, st, depth=0):
        """True / False / None: equality of two values, containers that are known completely are compared by content"""
        if a is b: return True
        if depth > 6: return None
        def parts(t):
            h = st.heap.get(t)
            if t.op == 'tup': return 'tup', list(t.args[0])
            if h is not None and h.kind != INST:
                if h.rest or h.base is not None: return h.kind, None
                return h.kind, list(h.known)
            if self.setlike(t, st):
                k, r = self.set_parts(t, st)
                return SET, None if r else list(k)
            return None, None
        ka, xa = parts(a); kb, xb = parts(b)
        if ka is None or kb is None:
            if ka is None and kb is None: return self.decide(eqatom(canon_keep(a), canon_keep(b)), st)
            x = b if ka is None else a
            if is_const(x) or x.op in ('cat', 'path') or x in st.heap: return False
            return None
        if ka != kb: return False
        if xa is None or xb is None: return None
        if ka == SET:
            def isin(x, ys):
                r = [self.value_eq(x, y, st, depth + 1) for y in ys]
                return True if True in r else None if None in r else False
            r = [isin(x, xb) for x in xa] + [isin(y, xa) for y in xb]
            return False if False in r else None if None in r else True
        if ka == DICT:
            r = []
            for (x, v), ys, w in [(kv, xb, True) for kv in xa] + [(kv, xa, False) for kv in xb]:
                m = [(y, v2) for y, v2 in ys if y is x]
                if m:
                    if w: r.append(self.value_eq(v, m[0][1], st, depth + 1))
                elif all(self.distinct(x, y, st) for y, _ in ys): return False
                else: r.append(None)
            return False if False in r else None if None in r else True
        if len(xa) != len(xb): return False
        r = [self.value_eq(x, y, st, depth + 1) for x, y in zip(xa, xb)]
        return False if False in r else None if None in r else True

    def sort_known(self, known, k, st, node):
        """[(state, sorted elements)] or None if the order is not known"""
        key = k.get('key', NONE); rev = k.get('reverse', FALSE)
        if not is_const(rev): return None
        vals = []
        if len(known) > 1 or key is not NONE:
            for x in known:
                if key is not NONE:
                    r = self.call_value(key, [x], {}, st, node)
                    if len(r) != 1: return None
                    st, y = r[0]
                else: y = x
                try: vals.append(self.py(y, st))
                except Undecided: return None
        else: vals = [0] * len(known)
        try: order = sorted(range(len(known)), key=lambda i: vals[i], reverse=bool(cval(rev)))
        except TypeError: return None
        return [(st, [known[i] for i in order])]

    def inloop(self): return any(isinstance(c, tuple) and c and (c[0] == 'w' and len(c) == 2 or c[0] == 'it' and c[2] == 'r') for c in self.ctx)

    @staticmethod
    def strlike(t):
        return is_str(t) or t.op in ('cat', 'path', 'bytes1') or (t.op == 'call' and t.args[0] in ('str', 'bytes', 'json.dumps', 'base64.b64encode', 'struct.pack')) \
            or (t.op == 'meth' and t.args[1] in ('encode', 'decode', 'hexdigest', 'strip', 'lower', 'join')) or t.op == 'slice'

    def setlike(self, t, st):
        h = st.heap.get(t)
        return (h is not None and h.kind == SET) or (t.op == 'call' and t.args[0] in ('set', 'frozenset')) or (t.op == 'view' and t.args[1] in ('keys', 'items'))

    def set_parts(self, t, st):
        if t.op == 'call' and t.args[0] in ('set', 'frozenset'):
            if not t.args[1]: return (), ()
            t = t.args[1][0]
        k, r = self.iter_plan(t, st)
        return tuple(dict.fromkeys(k)), tuple(r)

    def set_op(self, st, o, a, b, node):
        ka, ra = self.set_parts(a, st); kb, rb = self.set_parts(b, st)

        def maybe_in(x, ks, rs):
            """True / False / None: is x in the set with definite members ks and possible members rs"""
            if x in ks: return True
            if any(not self.distinct(x, k, st) for k in ks): return None
            if any(not self.distinct(x, r, st) for r, _ in rs): return None
            return False
        known, rest = [], []
        if o == '|':
            known = list(dict.fromkeys(ka + kb)); rest = list(ra) + list(rb)
        else:
            def take(ks, rs, ks2, rs2, want):
                for x in ks:
                    m = maybe_in(x, ks2, rs2)
                    if m is want: known.append(x)
                    elif m is None: rest.append((x, frozenset()))
                for x, g in rs:
                    m = maybe_in(x, ks2, rs2)
                    if m is want or m is None: rest.append((x, g | {(mk('in', x, b if ks2 is kb else a), want)}))
            if o == '-': take(ka, ra, kb, rb, False)
            elif o == '&': take(ka, ra, kb, rb, True)
            else:
                take(ka, ra, kb, rb, False); take(kb, rb, ka, ra, False)
        return self.new(st, node, H(SET, known, [(None, x, g) for x, g in rest]))

    def e_Compare(self, n, st):
        cur = [(s, v, None) for s, v in self.eval(n.left, st)]
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            nxt = []
            for s, left, acc in cur:
                for s2, right in self.eval(c, s):
                    for s3, v in self.compare(CMP[type(op)], left, right, s2, n):
                        if acc is None: nxt.append((s3, right, v))
                        else:
                            for s4, b in self.truth(acc, s3):
                                nxt.append((s4, right, v if b else FALSE))
            cur = nxt
        return [(s, v) for s, _, v in cur]

    def is_empty_const(self, t, st):
        h = st.heap.get(t)
        if h is not None: return h.kind in (DICT, LIST, SET) and not h.known and not h.rest and h.base is None
        if t.op == 'tup': return not t.args[0]
        if t.op == 'call' and t.args[0] in ('list', 'dict', 'set', 'tuple') and not t.args[1]: return True
        return is_const(t) and cval(t) in ('', b'') and cval(t) is not None and type(cval(t)) in (str, bytes)

    def compare(self, op, a, b, st, node):
        if op in ('ne', 'notin'):
            out = []
            for s, v in self.compare('eq' if op == 'ne' else 'in', a, b, st, node):
                if v is TRUE: out.append((s, FALSE))
                elif v is FALSE: out.append((s, TRUE))
                else: out.append((s, mk('not', v)))
            return out
        if op in ('gt', 'ge'): return self.compare({'gt': 'lt', 'ge': 'le'}[op], b, a, st, node)
        if op == 'eq':
            if a is b: return [(st, TRUE)]
            if (a.op == 'tup' or a in st.heap or self.setlike(a, st)) and (b.op == 'tup' or b in st.heap or self.setlike(b, st)):
                ha = st.heap.get(a)
                if ha is not None and ha.kind == INST:
                    c = self.class_of(a, st); f = self.class_attr(c, '__eq__') if c else None
                    if f is not None: return self.inline(f, [a, b], {}, st, node)
                v = self.value_eq(a, b, st)
                if v is not None: return [(st, mk('const', 'bool', v))]
            for x, y in ((a, b), (b, a)):
                if is_const(y) and type(cval(y)) is bool and (self.isboolish(x) or x.op == 'const' and type(cval(x)) is bool):
                    return [(s, mk('const', 'bool', v == cval(y))) for s, v in self.truth(x, st)]
                if self.is_empty_const(y, st):
                    if is_str(y) and not is_const(x) or not is_str(y):
                        if is_const(x) : return [(st, mk('const', 'bool', not cval(x) and type(cval(x)) in (str, bytes) and is_str(y)))]
                        if is_str(y) and not self.lenlike(x): break
                        return [(s, mk('const', 'bool', not v)) for s, v in self.nonempty(x, st)]
                if is_const(y) and cval(y) == 0 and type(cval(y)) is int and x.op == 'call' and x.args[0] == 'len':
                    return [(s, mk('const', 'bool', not v)) for s, v in self.nonempty(x.args[1][0], st)]
            for s, x in self.split_small(a, st):
                pass
            at = eqatom(canon_keep(a), canon_keep(b))
            d = self.decide(at, st)
            return [(st, mk('const', 'bool', d) if d is not None else at)]
        if op in ('lt', 'le'):
            if all(x.op == 'call' and x.args[0] in ('set', 'frozenset') and x.args[1] and is_str(x.args[1][0]) for x in (a, b)):
                x, y = (set(cval(z.args[1][0])) for z in (a, b))
                return [(st, mk('const', 'bool', x < y if op == 'lt' else x <= y))]
            if is_const(a) and is_const(b) or a.op == 'tup' and b.op == 'tup':
                try: return [(st, mk('const', 'bool', self.py(a, st) < self.py(b, st) if op == 'lt' else self.py(a, st) <= self.py(b, st)))]
                except (TypeError, Undecided): pass
            if self.setlike(a, st) and self.setlike(b, st):
                ka, ra = self.set_parts(a, st); kb, rb = self.set_parts(b, st)
                if not ra and not rb:
                    isin = lambda x, ys: True if any(y is x for y in ys) else False if all(self.distinct(x, y, st) for y in ys) else None
                    r = [isin(x, kb) for x in ka]
                    if False in r: return [(st, FALSE)]
                    if None not in r: return [(st, mk('const', 'bool', op == 'le' or len(ka) < len(kb)))]
            # len(x) > 0, len(x) >= 1
            if b.op == 'call' and b.args[0] == 'len' and is_const(a) and ((op == 'lt' and cval(a) == 0) or (op == 'le' and cval(a) == 1)):
                return [(s, mk('const', 'bool', v)) for s, v in self.nonempty(b.args[1][0], st)]
            if a.op == 'call' and a.args[0] == 'len' and is_const(b) and ((op == 'lt' and cval(b) == 1) or (op == 'le' and cval(b) == 0)):
                return [(s, mk('const', 'bool', not v)) for s, v in self.nonempty(a.args[1][0], st)]
            at = mk('cmp', op, a, b)
            d = self.decide(at, st)
            return [(st, mk('const', 'bool', d) if d is not None else at)]
        # membership
        if is_str(a) and is_str(b) and type(cval(a)) is type(cval(b)): return [(st, mk('const', 'bool', cval(a) in cval(b)))]
        for s, b2 in self.split_phi(b, st):
            if b2 is not b: return [r for s2, b3 in self.split_phi(b, st) for r in self.compare('in', a, b3, s2, node)]
        if b.op == 'view' and b.args[1] == 'keys' or b.op == 'meth' and b.args[1] == 'keys': b = b.args[0]
        h = st.heap.get(b)
        if b.op == 'call' and b.args[0] in ('set', 'frozenset', 'list', 'tuple') and b.args[1]:
            return self.compare('in', a, b.args[1][0], st, node)
        if h is not None and h.kind == INST:
            c = self.class_of(b, st); f = self.class_attr(c, '__contains__') if c else None
            if f is not None: return [(s2, mk('const', 'bool', t)) for s, v in self.inline(f, [b, a], {}, st, node) for s2, t in self.truth(v, s)]
        if b.op == 'tup' or (h is not None and h.kind != INST):
            if b.op == 'tup': members = list(b.args[0]); rest = (); base = None
            else:
                members = [k for k, _ in h.known] if h.kind == DICT else list(h.known)
                rest = [k if h.kind == DICT else v for k, v, _ in h.rest]; base = h.base
            if a in members: return [(st, TRUE)]
            out = []; cur = st
            for m in members:
                if cur is None: break
                if self.distinct(a, m, cur): continue
                at = eqatom(canon_keep(a), canon_keep(m))
                d = self.decide(at, cur)
                if d is None and (a in cur.heap or a.op == 'tup'): d = self.value_eq(a, m, cur)
                if d is True: out.append((cur, TRUE)); cur = None; break
                if d is False: continue
                t = self.assume(at, True, cur)
                if t is not None: out.append((t, TRUE))
                cur = self.assume(at, False, cur)
            if cur is None: return out
            poss = [r for r in rest if not self.distinct(a, r, cur)]
            if not poss and base is None: return out + [(cur, FALSE)]
            if not poss and base is not None: return out + [(s, v) for s, v in self.compare('in', a, base, cur, node)]
            if base is None and h is not None and not members and len(poss) <= 3:
                ents = [(k if h.kind == DICT else v, g) for k, v, g in h.rest if (k if h.kind == DICT else v) in poss]
                if all(any(x.op in ('elem', 'key') for x in subterms_c(v)) for v, g in ents):
                    # membership in a collection built from elements: some / no element satisfies the conditions it was added under
                    for s, v in self.split(mk('in', a, b), cur):
                        sets = [exists_atom(list(g) + [(eqatom(canon_keep(a), canon_keep(x)), True)]) for x, g in ents]
                        s = s.clone(); s.facts = dict(s.facts)
                        for S in sets:
                            if not v: s.facts[S] = False
                            elif len(sets) == 1: s.facts[S] = True
                        out.append((s, mk('const', 'bool', v)))
                    return out
            return out + [(cur, mk('in', a, b))]
        at = mk('in', a, b)
        d = self.decide(at, st)
        return [(st, mk('const', 'bool', d) if d is not None else at)]

    def lenlike(self, x):
        return False

    def split_small(self, a, st): return ()

    # ------------------------------------------------------------ truth
    def branch(self, node, st):
        t, f = [], []
        for s, v in self.eval(node, st):
            for s2, b in self.truth(v, s): (t if b else f).append(s2)
        return self.join(t), self.join(f)

    def nonempty(self, x, st):
        """list of (state, bool)"""
        while True:
            if x.op == 'call' and x.args[0] in ('list', 'tuple', 'sorted', 'set', 'reversed', 'frozenset') and x.args[1]: x = x.args[1][0]
            elif x.op == 'view': x = x.args[0]
            elif x.op == 'meth' and x.args[1] in ('keys', 'values', 'items'): x = x.args[0]
            else: break
        if x.op == 'tup': return [(st, bool(x.args[0]))]
        if is_const(x): return [(st, bool(cval(x)))]
        if x.op == 'bytes1' or x.op == 'cat' and any(y.op == 'bytes1' for y in x.args[0]): return [(st, True)]
        if x.op == 'phi' and any(a in st.heap for a in x.args[1]):
            return [r for a in sorted(x.args[1], key=lambda y: y.id) for r in self.nonempty(a, st)]
        h = st.heap.get(x)
        if h is not None and h.kind in (DICT, LIST, SET):
            if h.known: return [(st, True)]
            if not h.rest and h.base is None: return [(st, False)]
            if h.base is None and len(h.rest) <= 3 and all(g and any(y.op in ('elem', 'key') for a, _ in g for y in subterms_c(a)) for k, v, g in h.rest):
                # emptiness of a collection of the elements that satisfy some conditions
                out = []
                for s, b in self.split(mk('nonempty', x), st):
                    s = s.clone(); s.facts = dict(s.facts)
                    for k, v, g in h.rest:
                        if not b: s.facts[exists_atom(g)] = False
                        elif len(h.rest) == 1: s.facts[exists_atom(g)] = True
                    out.append((s, b))
                return out
        at = mk('nonempty', x)
        return self.split(at, st)

    def split(self, at, st):
        d = self.decide(at, st)
        if d is not None: return [(st, d)]
        out = []
        for v in (True, False):
            s = self.assume(at, v, st)
            if s is not None: out.append((s, v))
        return out

    def truth(self, t, st):
        o = t.op
        if o == 'const': return [(st, bool(cval(t)))]
        if o == 'not': return [(s, not b) for s, b in self.truth(t.args[0], st)]
        if o == 'tup': return [(st, bool(t.args[0]))]
        if o in ('func', 'cls', 'ext', 'mod', 'bound', 'bm', 'exc', 'path', 'bytes1'): return [(st, True)]
        if o == 'call' and t.args[0] == 'bool' and t.args[1]: return self.truth(t.args[1][0], st)
        if o == 'call' and t.args[0] == 'len' and t.args[1]: return self.nonempty(t.args[1][0], st)
        if o == 'call' and t.args[0] in ('list', 'sorted', 'tuple', 'set') : return self.nonempty(t, st)
        h = st.heap.get(t)
        if h is not None:
            if h.kind == INST: return [(st, True)] if t.op == 'obj' else self.split(mk('truthy', t), st)
            return self.nonempty(t, st)
        if isrow(t): return [(st, True)]
        if o == 'rows' or o == 'view' or (o == 'call' and t.args[0] in ('os.listdir',)): return self.nonempty(t, st)
        if o == 'phi':
            d = self.decide(mk('truthy', t), st)
            if d is not None: return [(st, d)]
            groups = {True: [], False: []}
            res = []
            for a in sorted(t.args[1], key=lambda x: x.id):
                q, self.quiet = self.quiet, True
                vals = {b for _, b in self.truth(a, st)}
                self.quiet = q
                for b in vals: groups[b].append(a)
            for b in (True, False):
                if groups[b]:
                    new = phi(t.args[0], *groups[b])
                    if new is t: s = self.assume(mk('truthy', t), b, st)
                    else:
                        s = st.rename({t: new})
                        if not is_const(new): s = self.assume(mk('truthy', new), b, s) if new.op == 'phi' or not self.isboolish(new) and new not in s.heap else s
                        if s is not None and self.isboolish(new): s = self.assume(new, b, s)
                    if s is not None: res.append((s, b))
            return res
        if o in ('cmp', 'in', 'exists', 'nonempty', 'truthy'): return self.split(t, st)
        return self.split(mk('truthy', t), st)

    def decide(self, at, st):
        v = st.facts.get(at)
        if v is not None: return v
        o = at.op
        if o == 'cmp' and at.args[0] == 'eq':
            a, b = at.args[1], at.args[2]
            if a is b: return True
            if is_const(a): a, b = b, a
            if is_const(a) and is_const(b): return type(cval(a)) is type(cval(b)) and cval(a) == cval(b) or (not isinstance(cval(a), (str, bytes, type(None))) and not isinstance(cval(b), (str, bytes, type(None))) and cval(a) == cval(b))
            if is_const(b):
                c = st.eqs.get(a)
                if c is not None: return c is b or (cval(c) == cval(b) and type(cval(c)) is type(cval(b)))
                if a.op in ('tup', 'func', 'cls', 'path', 'cat', 'bound', 'rows', 'fdict', 'view', 'exc', 'ext', 'mod', 'handle', 'conn') and cval(b) in (None, True, False): return False
                if isrow(a) and cval(b) in (None, False): return False
                if (a.op == 'bytes1' or a.op == 'cat' and any(y.op == 'bytes1' for y in a.args[0])) and not cval(b): return False
                if (a.op == 'obj' or a in st.heap and st.heap[a].kind != INST): return False
                if a.op in ('fresh',) and a.args[0] in ('os.listdir', 'open', 'sqlite3.connect') and cval(b) is None: return False
                tr = st.facts.get(mk('truthy', a))
                if tr is True and not cval(b): return False
                ne = st.facts.get(mk('nonempty', a))
                if ne is True and cval(b) in (None, False, '', b''): return False
                if a.op == 'phi':
                    ds = {self.decide(eqatom(x, b), st) for x in a.args[1]}
                    if ds == {True}: return True
                    if ds == {False}: return False
                if cval(b) is None and a.op in ('call', 'meth'):
                    nm = a.args[0] if a.op == 'call' else a.args[1]
                    if nm in ('base64.b64encode', 'base64.b64decode', 'str', 'bytes', 'int', 'len', 'bool', 'json.dumps', 'encode', 'decode', 'split', 'hexdigest', 'strip', 'lower', 'set', 'list', 'sorted', 'fnmatch.fnmatch', 'os.path.isfile'): return False
            if a.op == 'sym' and b.op == 'sym' and a.args[2] and b.args[2]: return False
            if a.op == 'ext' and b.op == 'ext' and a.args[0].startswith('errno.') and b.args[0].startswith('errno.'): return False
            ga, gb = ground(a), ground(b)
            if ga is not None and (is_const(b) or gb is not None): return ga == gb
            if a.op == 'sym' and a.args[2] and a.args[0][0] == '#' and is_const(b): return False
            ca, cb = st.eqs.get(a), st.eqs.get(b)
            if ca is not None and cb is not None: return ca is cb
            return None
        if o == 'truthy':
            x = at.args[0]
            c = st.eqs.get(x)
            if c is not None: return bool(cval(c))
            ne = st.facts.get(mk('nonempty', x))
            if ne is False: return False
            if ne is True: return True
            if st.facts.get(eqatom(x, TRUE)) is True: return True
            return None
        if o == 'nonempty':
            x = at.args[0]
            tr = st.facts.get(mk('truthy', x))
            if tr is not None: return tr
            c = st.eqs.get(x)
            if c is not None: return bool(cval(c)) if type(cval(c)) in (str, bytes) else None
            return None
        if o == 'exists':
            for a, v in at.args[0]:
                for k in self.elem_kills(a):
                    if k.op in ('elem', 'key') and st.facts.get(mk('nonempty', k.args[0])) is False: return False
            return None
        if o == 'in':
            if st.facts.get(mk('nonempty', at.args[1])) is False: return False
        return None

    def assume(self, at, v, st):
        """state in which atom at has truth value v, or None if contradictory"""
        if at.op == 'not': return self.assume(at.args[0], not v, st)
        if at.op == 'const': return st if bool(cval(at)) == v else None
        d = self.decide(at, st)
        if d is not None: return st if d == v else None
        if at.op != 'exists' and st.facts.get(exists_atom([(at, v)])) is False: return None
        s = st.clone(); s.facts = dict(s.facts); s.facts[at] = v
        if at.op == 'cmp' and at.args[0] == 'eq' and v:
            a, b = at.args[1], at.args[2]
            if is_const(a): a, b = b, a
            if is_const(b):
                s.eqs = dict(s.eqs); s.eqs[a] = b
                if a.op == 'phi':
                    keep = [x for x in a.args[1] if self.decide(eqatom(x, b), st) is not False]
                    if not keep: return None
                    if len(keep) < len(a.args[1]):
                        n = phi(a.args[0], *keep)
                        s.eqs.pop(a); s.facts.pop(at)
                        s = s.rename({a: n})
                        if not is_const(n): s = self.assume(eqatom(n, b), True, s)
        elif at.op == 'cmp' and at.args[0] == 'eq' and not v:
            a, b = at.args[1], at.args[2]
            if is_const(a): a, b = b, a
            if is_const(b) and a.op == 'phi':
                keep = [x for x in a.args[1] if self.decide(eqatom(x, b), st) is not True]
                if not keep: return None
                if len(keep) < len(a.args[1]):
                    n = phi(a.args[0], *keep); s.facts.pop(at)
                    s = s.rename({a: n})
        return s

    # ------------------------------------------------------------ calls
    def func_of(self, fv):
        if fv.op == 'bound': fv = fv.args[0]
        if fv.op == 'func': return self.prog.funcs.get(fv.args[0])
        return None

    def eval_callee(self, n, st):
        out = []
        for s, fv in self.eval(n.func, st):
            cur = [(s, [], {})]
            for a in n.args:
                nxt = []
                for s1, args, kw in cur:
                    for s2, v in self.eval(a, s1): nxt.append((s2, self.expand(args + [v], s2), kw))
                cur = nxt
            for k in n.keywords:
                nxt = []
                for s1, args, kw in cur:
                    for s2, v in self.eval(k.value, s1):
                        kw2 = dict(kw)
                        if k.arg is None:
                            h = s2.heap.get(v)
                            if h is not None and h.kind == DICT:
                                for a, b in h.known:
                                    if is_str(a): kw2[cval(a)] = b
                                if h.base is not None: kw2['**'] = h.base
                            else: kw2['**'] = v
                        else: kw2[k.arg] = v
                        nxt.append((s2, args, kw2))
                cur = nxt
            out += [(s1, fv, args, kw) for s1, args, kw in cur]
        return out

    def e_Call(self, n, st):
        f = n.func
        # lazily evaluated generator expressions
        if isinstance(f, ast.Name) and f.id in ('any', 'all', 'next') and n.args and isinstance(n.args[0], ast.GeneratorExp):
            fv = self.lookup(f.id, st)
            if fv.op == 'ext':
                return self.lazy(n, f.id, st)
        if isinstance(f, ast.Name) and f.id == 'super':
            return [(st, mk('super', self.func.cls or (self.func.parent.cls if self.func and self.func.parent else None) or '', st.frames.get(self.fid, {}).get('self', NONE)))]
        out = []
        for s, fv, args, kw in self.eval_callee(n, st):
            if isinstance(f, ast.Attribute) and isinstance(f.value, (ast.Name, ast.Attribute)) and f.attr in ('extend', 'append', 'clear') and fv.op in ('bm', 'attr') and is_str(fv.args[0]) and isinstance(cval(fv.args[0]), bytes):
                # a bytearray (its contents are tracked as a constant held by the variable)
                new = self.bytes_changed(cval(fv.args[0]), f.attr, args)
                if new is not None: out += [(s2, NONE) for s2 in self.assign(f.value, const(new), s)]; continue
            out += self.call_value(fv, args, kw, s, n)
        return self.join_vals(out)

    @staticmethod
    def bytes_changed(b, name, args):
        if name == 'clear': return b''
        if len(args) != 1 or not is_const(args[0]): return None
        v = cval(args[0])
        if name == 'append' and type(v) is int and 0 <= v < 256: return b + bytes([v])
        if name == 'extend' and isinstance(v, bytes): return b + v
        return None

    def lazy(self, n, mode, st):
        out = []
        for s, r in self.exists_genexp(n.args[0], st, mode):
            if mode == 'any': out.append((s, TRUE if r[0] == 'yield' else FALSE))
            elif mode == 'all': out.append((s, FALSE if r[0] == 'yield' else TRUE))
            elif r[0] == 'yield': out.append((s, r[1]))
            elif len(n.args) > 1: out += self.eval(n.args[1], s)
            else: self.raise_(s, mk('exc', 'StopIteration', NONE))
        return self.join_vals(out)

    def join_vals(self, out):
        if len(out) <= 12:
            seen = {}
            for s, v in out: seen.setdefault((s.key(), v), (s, v))
            return list(seen.values())
        byv = {}
        for s, v in out: byv.setdefault(v, []).append(s)
        res = []
        for v, ss in byv.items():
            for s in self.join(ss): res.append((s, v))
        if len(res) > self.MAXSTATES:
            tmp = [s.setvar(self.fid, '$ret', v) for s, v in res]
            save = self.MAXSTATES
            tmp = self.join(tmp)
            res = []
            for s in tmp:
                v = s.frames[self.fid]['$ret']
                f = dict(s.frames[self.fid]); del f['$ret']
                s = s.clone(); s.frames = dict(s.frames); s.frames[self.fid] = f
                res.append((s, v))
        return res

    def call(self, fv, args, kw, st, node): return self.call_value(fv, list(args), dict(kw), st, node)

    def call_value(self, fv, args, kw, st, node):
        o = fv.op
        if o == 'phi':
            return [r for a in sorted(fv.args[1], key=lambda x: x.id) for r in self.call_value(a, args, kw, st, node)]
        if o == 'func': return self.inline(fv, args, kw, st, node)
        if o == 'bound': return self.inline(fv.args[0], [fv.args[1]] + args, kw, st, node)
        if o == 'cls': return self.instantiate(fv, args, kw, st, node)
        if o == 'ext': return self.ext_call(fv.args[0], args, kw, st, node)
        if o == 'partial':
            return self.call_value(fv.args[0], list(fv.args[1]) + args, dict(dict(fv.args[2]), **kw), st, node)
        if o == 'bm': return self.method(fv.args[0], fv.args[1], args, kw, st, node)
        if o == 'attr':
            return self.method(fv.args[0], fv.args[1], args, kw, st, node)
        if o == 'obj' and st.heap.get(fv) is not None and st.heap[fv].kind == INST and isinstance(st.heap[fv].extra, str):
            m = self.class_attr(st.heap[fv].extra, '__call__')
            if m is not None: return self.inline(m, [fv] + args, kw, st, node)
        if o == 'call' and fv.args[0] in ('operator.itemgetter', 'operator.attrgetter') and args and not kw and all(is_str(x) or is_const(x) for x in fv.args[1]):
            get = (lambda s, x: self.sub_of(s, args[0], x, node)) if fv.args[0].endswith('itemgetter') else (lambda s, x: self.attr_of(s, args[0], cval(x), node))
            cur = [(st, ())]
            for x in fv.args[1]: cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in get(s, x)]
            return [(s, vs[0] if len(vs) == 1 else tup(*vs)) for s, vs in cur]
        if o == 'call' and fv.args[0] == 'operator.methodcaller' and args and is_str(fv.args[1][0]): return self.method(args[0], cval(fv.args[1][0]), list(fv.args[1][1:]), dict(fv.args[2]), st, node)
        if o == 'call' and fv.args[0] == 'collections.namedtuple' and len(fv.args[1]) == 2:
            try: fields = self.py(fv.args[1][1], st)
            except Undecided:
                fields = [cval(x) for x in fv.args[1][1].args[0]] if fv.args[1][1].op == 'flist' and all(is_str(x) for x in fv.args[1][1].args[0]) else []
            if isinstance(fields, str): fields = fields.replace(',', ' ').split()
            if fields and len(args) + len(kw) == len(fields):
                h = H(INST, extra='namedtuple')
                for f, v in list(zip(fields, args)) + list(kw.items()): h = h.put(const(f), v)
                return [self.new(st, node, h, ':nt')]
        res = mk('call', '()', (fv,) + tuple(args), tuple(sorted(kw.items())))
        out = []
        self.maybe_raise(st, '()', True)
        for s in self.emit2('call', '()', args, kw, fv, res, node, st): out.append(s)
        return out

    def instantiate(self, cv, args, kw, st, node):
        q = cv.args[0]
        intr = self.intr_for(q)
        if intr is not None:
            r = intr(self, st, args, kw, node)
            if r is not None: return r
        c = self.prog.classes.get(q)
        st, obj = self.new(st, node, H(INST, extra=q), ':' + q.split('.')[-1])
        if c is not None and any(isinstance(b, ast.Name) and b.id in ('TypedDict', 'dict') for b in c.node.bases) and not c.methods:
            h = H(DICT)
            for k, v in kw.items(): h = h.put(const(k), v)
            return [(st.setheap(obj, h), obj)]
        for e in self.emit('new', q, args, kw, obj, obj, node, st): st = e
        init = self.class_attr(q, '__init__')
        if init is None and c is not None:
            decs = [(d.func if isinstance(d, ast.Call) else d) for d in c.node.decorator_list]
            if any((d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '')) == 'dataclass' for d in decs) or any((b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '')) == 'NamedTuple' for b in c.node.bases):
                return self.fields(c, obj, args, kw, st, node)
        if init is None:
            if args and 'Exception' in str(self.bases(q)): st = st.setheap(obj, st.heap[obj].put(const('args'), tup(*args)))
            return [(st, obj)]
        return [(s, obj) for s, _ in self.inline(init, [obj] + args, kw, st, node)]

    def fields(self, c, obj, args, kw, st, node):
        names = [(b.target.id, b.value) for b in c.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
        vals = dict(zip([n for n, _ in names], args)); vals.update(kw)
        for n, d in names:
            if n in vals or d is None: continue
            if isinstance(d, ast.Constant): vals[n] = const(d.value)
            elif isinstance(d, ast.Call) and any(k.arg == 'default_factory' for k in d.keywords):
                f = next(k.value for k in d.keywords if k.arg == 'default_factory')
                st, vals[n] = self.default_value(st, mk('ext', f.id if isinstance(f, ast.Name) else '?'), node)
            elif isinstance(d, ast.Call) and any(k.arg == 'default' and isinstance(k.value, ast.Constant) for k in d.keywords): vals[n] = const(next(k.value.value for k in d.keywords if k.arg == 'default'))
            else: vals[n] = mk('opaque', self.nid(d))
        h = st.heap[obj]
        for n, v in vals.items(): h = h.put(const(n), v)
        st = st.setheap(obj, h)
        post = self.class_attr(str(h.extra), '__post_init__')
        return [(s, obj) for s, _ in self.inline(post, [obj], {}, st, node)] if post is not None else [(st, obj)]

    def intr_for(self, qual):
        return self.intr.get(qual)

    def inline(self, ft, args, kw, st, node):
        q = ft.args[0]
        intr = self.intr_for(q)
        if intr is not None:
            r = intr(self, st, args, kw, node)
            if r is not None: return r
        f = self.prog.funcs[q]
        if f.is_gen:
            items = []

            def handler(s, v):
                return [(s, NONE)]
            s0, res = self.new(st, node, H(LIST), ':gen')

            def handler(s, v, res=res):
                return [(s.setheap(res, s.heap[res].with_(known=s.heap[res].known + (v,)) if self.unroll and not self.inloop() else s.heap[res].weak(None, v, frozenset())), NONE)]
            return [(s, res) for s, _ in self.call_gen(ft, args, kw, s0, node, handler)]
        return self.run_func(ft, f, args, kw, st, node)

    def call_gen(self, fv, args, kw, st, node, handler):
        if fv.op == 'bound': ft = fv.args[0]; args = [fv.args[1]] + list(args)
        else: ft = fv
        self.yield_handlers.append(handler)
        try: return self.run_func(ft, self.prog.funcs[ft.args[0]], args, kw, st, node)
        finally: self.yield_handlers.pop()

    def e_Yield(self, n, st):
        out = []
        h = self.yield_handlers[-1] if self.yield_handlers else None
        for s, v in (self.eval(n.value, st) if n.value is not None else [(st, NONE)]):
            if h is None: out.append((s, NONE)); continue
            self.yield_handlers.append(None)
            try: out += h(s, v)
            finally: self.yield_handlers.pop()
        return out

    def e_YieldFrom(self, n, st):
        out = []
        h = self.yield_handlers[-1] if self.yield_handlers else None
        for s, it in self.eval(n.value, st):
            if h is None: out.append((s, NONE)); continue
            known, rest = self.iter_plan(it, s)

            def body(s2, v):
                o = Out(); o.norm = [x for x, _ in h(s2, v)]; return o
            o = self.loop(s, known, rest, body, n, ('u', self.nid(n), self.ctxid()), it)
            out += [(x, NONE) for x in o.norm]
        return out

    def bind(self, f, ft, args, kw, st, node):
        """parameter environment, or None if the call does not fit"""
        env = {}
        params = f.params
        args = list(args)
        if any(a.op == 'star' for a in args):
            i = next(i for i, a in enumerate(args) if a.op == 'star')
            src = args[i].args[0]; n = len(params) - (len(args) - 1)
            args = args[:i] + [mk('sub', src, const(j)) for j in range(max(0, n))] + args[i + 1:]
        for p, a in zip(params, args): env[p] = a
        extra = args[len(params):]
        if f.vararg: env[f.vararg] = tup(*extra)
        kws = {}
        for k, v in kw.items():
            if k in params or k in f.kwonly: env[k] = v
            else: kws[k] = v
        defaults = ft.args[2] if len(ft.args) > 2 else ()
        nd = len(f.node.args.defaults)
        for p, d in zip(params[len(params) - nd:], defaults[:nd]): env.setdefault(p, d)
        ko = [k.arg for k, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if d is not None]
        for p, d in zip(ko, defaults[nd:]): env.setdefault(p, d)
        for p in params + f.kwonly:
            if p not in env:
                env[p] = mk('sub', kw['**'], const(p)) if '**' in kw else mk('sym', 'missing:' + p, None, False)
        if f.kwarg:
            st, d = self.new(st, f.node, H(DICT, [(const(k), v) for k, v in kws.items()]), ':kw')
            env[f.kwarg] = d
        return st, env

    def run_func(self, ft, f, args, kw, st, node):
        depth = sum(1 for q, _ in self.stack if q == f.qual)
        if depth >= self.reclimit or len(self.stack) > 40:
            res = mk('call', 'rec:' + f.qual, tuple(args), tuple(sorted(kw.items())))
            return self.emit2('recurse', f.qual, args, kw, None, res, node, st)
        self.stats['calls'] += 1; self.stats['functions'].add(f.qual)
        fr = self.frame_state()
        self.ctx = self.ctx + ((self.nid(node) if isinstance(node, ast.AST) else 0, f.qual),)
        fid = ('f', self.ctxid())
        st, env = self.bind(f, ft, args, kw, st, node)
        self.parent_of[fid] = ft.args[1] if not str(ft.args[1]).startswith('m:') else None
        st = st.clone(); st.frames = dict(st.frames)
        # closures bind methods' class for super()
        st.frames[fid] = env
        self.fid, self.func, self.curmod = fid, f, f.mod
        self.stack = self.stack + [(f.qual, getattr(node, 'lineno', 0))]
        save, self.exc = self.exc, []
        sts = self.mon.on_enter(f, st, env)
        sts = [sts] if isinstance(sts, State) else sts
        o = self.block(f.body, sts)
        rets = o.ret + [(s, NONE) for s in o.norm]
        raised, self.exc = self.exc, save
        outs = []
        drop = fid not in self.captured
        for s, v in rets:
            r = self.mon.on_return(f, s, v)
            for s2 in ([r] if isinstance(r, State) else (r or [])): outs.append((self.leave(s2, fid, v, drop, self.ctx), v))
        myctx = self.ctx
        self.set_frame(fr)
        # dedupe exceptions
        seen = {}
        for s, e in raised:
            s = self.leave(s, fid, e, drop, myctx)
            seen.setdefault((s.key(), e), (s, e))
        ex = list(seen.values())
        if len(ex) > 24:
            g = {}
            for s, e in ex: g.setdefault(e, []).append(s)
            ex = [(s, e) for e, ss in g.items() for s in self.join(ss)]
        self.exc += ex
        return self.join_vals(outs)

    def leave(self, s, fid, val, drop, ctx):
        s = s.clone()
        if drop:
            s.frames = dict(s.frames); s.frames.pop(fid, None)
        else:
            # a captured frame stays alive only while something refers to it
            f = {k: v for k, v in s.frames.get(fid, {}).items() if k[0] != '$'}
            s.frames = dict(s.frames); s.frames[fid] = f
            if not self.refers_frame(s, fid, val): s.frames.pop(fid)
        return self.gc(s, val, ctx)

    def refers_frame(self, s, fid, val):
        def uses(t): return any(x.op == 'func' and x.args[1] == fid for x in subterms_c(t))
        if isinstance(val, T) and uses(val): return True
        for f, d in s.frames.items():
            if f != fid and any(uses(v) for v in d.values()): return True
        for t, h in s.heap.items():
            if any(uses(x) for x in h.terms()): return True
        return any(uses(v) for v in s.auto.values() if isinstance(v, T))

    def gc(self, s, val, ctx):
        """drop abstract objects allocated by the call just left that nothing refers to, and facts about them"""
        n = len(ctx)
        live = set(); todo = []

        def reach(t):
            if isinstance(t, (tuple, frozenset)):
                for a in t: reach(a)
                return
            if not isinstance(t, T): return
            for x in subterms_c(t):
                if x in s.heap and x not in live: live.add(x); todo.append(x)
        hk = s.heap.keys()

        def more(c):
            for x in ([x for x in hk if x in c] if len(hk) < len(c) else [x for x in c if x in hk]):
                if x not in live: live.add(x); todo.append(x)
        reach(val)
        for d in s.frames.values():
            if d: more(frame_cand(d))
        for v in s.auto.values(): reach(v)
        for t in s.heap:
            if t not in live and (t.op != 'obj' or self.ctxlist[t.args[2]][:n] != ctx): live.add(t); todo.append(t)
        for f in self.static.values():
            for v in f.values():
                if v.op == 'obj': reach(v)
        while todo: more(s.heap[todo.pop()].cand())
        if len(live) == len(s.heap): return s
        s = s.clone(); s.heap = {t: h for t, h in s.heap.items() if t in live}
        dead = lambda a: any(x.op == 'obj' and x not in s.heap for x in subterms_c(a))
        return s.kill(dead)

    # ------------------------------------------------------------ events
    def emit(self, kind, name, args, kw, recv, result, node, st):
        return [s for s, _ in self.emit2(kind, name, args, kw, recv, result, node, st)]

    def emit2(self, kind, name, args, kw, recv, result, node, st, sql=None):
        if self.quiet: return [(st, result)]
        ev = Event()
        ev.kind, ev.name, ev.args, ev.kw, ev.recv, ev.result, ev.node = kind, name, list(args), dict(kw), recv, result, node
        ev.loc = self.loc(node) if self.curmod else '?'; ev.func = self.func.qual if self.func else '<module>'; ev.sql = sql
        ev.eng = self; ev.stack = self.stack; ev.extra = None
        self.stats['events'] += 1
        r = self.mon.event(ev, st)
        if r is None: return []
        if isinstance(r, State): r = [r]
        return [(s if not isinstance(s, tuple) else s[0], ev.result if not isinstance(s, tuple) else s[1]) for s in r]

    def maybe_raise(self, st, name, meth=False):
        if self.quiet: return
        if not (self.trydepth or self.mon.raises): return
        if (name in NORAISE_METH) if meth else (name in NORAISE): return
        if name in self.mon.noraise: return
        self.raise_(st, mk('exc', 'OSError' if name in OSERR else 'any', const(name) if name in self.mon.tagraise else NONE))

    def freeze(self, t, st, depth=0):
        if depth > 6: return t
        h = st.heap.get(t)
        if h is None:
            if t.op == 'tup': return tup(*[self.freeze(x, st, depth + 1) for x in t.args[0]])
            return t
        if h.kind == DICT:
            return mk('fdict', tuple((self.freeze(k, st, depth + 1), self.freeze(v, st, depth + 1)) for k, v in h.known),
                      frozenset((self.freeze(k, st, depth + 1), self.freeze(v, st, depth + 1)) for k, v, _ in h.rest), h.base if h.base is not None else NONE)
        if h.kind in (LIST, SET):
            return mk('flist', tuple(self.freeze(v, st, depth + 1) for v in h.known), frozenset(self.freeze(v, st, depth + 1) for _, v, _ in h.rest), h.base if h.base is not None else NONE)
        return t

    def copy_obj(self, st, t, node, deep=False, depth=0, tag=':copy'):
        h = st.heap.get(t)
        if h is None:
            if t.op in ('tup', 'const', 'cat', 'path'): return st, t
            return self.new(st, node, H(DICT, base=t), tag + str(depth) + ('.%d' % t.id))
        if h.kind == INST: return st, t
        if deep and depth < 4:
            known = []
            for i, x in enumerate(h.known):
                if h.kind == DICT:
                    k, v = x
                    if v in st.heap and st.heap[v].kind != INST: st, v = self.copy_obj(st, v, node, True, depth + 1, tag + '.%d' % i)
                    known.append((k, v))
                else:
                    if x in st.heap and st.heap[x].kind != INST: st, x = self.copy_obj(st, x, node, True, depth + 1, tag + '.%d' % i)
                    known.append(x)
            h = h.with_(known=tuple(known))
        return self.new(st, node, h, tag + str(depth))

    def ext_call(self, name, args, kw, st, node):
        name = name[9:] if name.startswith('builtins.') else name
        m = getattr(self, 'x_' + name.replace('.', '_'), None)
        intr = self.intr_for(name)
        if intr is not None:
            r = intr(self, st, args, kw, node)
            if r is not None: return r
        if m is not None:
            r = m(args, kw, st, node)
            if r is not None: return r
        if name.split('.')[0] in ('str', 'bytes', 'dict', 'list', 'set') and name.count('.') == 1 and args and name not in PURE and name not in ('bytes.fromhex', 'dict.fromkeys'): return self.method(args[0], name.split('.')[1], list(args[1:]), kw, st, node)
        if name == 'json.loads' and len(args) == 1 and not kw and is_str(args[0]) and self.unroll:
            r = self.fold_call(__import__('json').loads, args, kw, st, node) if not isinstance(cval(args[0]), type(None)) else None
            if r is not None: return r
            try: __import__('json').loads(cval(args[0]))
            except ValueError: self.raise_(st, mk('exc', 'ValueError', NONE)); return []
            except TypeError: pass
        if name in PURE and args and PURE[name] is not None:
            r = self.fold_call(PURE[name], args, kw, st, node)
            if r is not None: return r
        if name in COPYLIKE and args:
            s, v = self.copy_obj(st, args[0], node, name.endswith('deepcopy'))
            return [(s, v)]
        if name.startswith('re.') and args:
            r = self.regex(name[3:], args, kw, st, node)
            if r is not None: return r
        if name in TRANSPARENT_EXT and len(args) > TRANSPARENT_EXT[name]: return [(st, args[TRANSPARENT_EXT[name]])]
        self.stats['externals'].add(name)
        if name in self.FS_WRITE and (self.trydepth or self.mon.raises):        # a failing call was at least attempted
            out = []
            for s in self.emit('attempt', name, args, kw, None, NONE, node, st): out += self.ext_call2(name, args, kw, s, node)
            return out
        return self.ext_call2(name, args, kw, st, node)

    def regex(self, fn, args, kw, st, node):
        """regular expressions over constants are folded; splitting at separators works on strings with opaque components"""
        if kw or not is_str(args[0]): return None
        if fn in ('split', 'search', 'match', 'fullmatch', 'findall', 'sub') and all(is_const(a) for a in args):
            try: v = getattr(re, fn)(*[cval(a) for a in args])
            except Exception: return None
            if v is None: return [(st, NONE)]
            if isinstance(v, re.Match): return [self.new(st, node, H(INST, [(const('match'), const(v.group(0)))]))]
            if isinstance(v, list): return [self.new(st, node, H(LIST, [const(x) for x in v]))] if all(x is None or isinstance(x, (str, bytes)) for x in v) else None
            return [(st, const(v))]
        if fn == 'split' and len(args) == 2 and args[1].op == 'cat':
            p = cval(args[0]); parts = [canon_str(x) for x in args[1].args[0]]
            try:
                if re.search(p, 'a') or re.match(p, ''): return None
            except Exception: return None
            if not all(is_str(x) or x.op == 'sym' and x.args[2] for x in parts): return None
            out = [const('')]
            for x in parts:
                if is_str(x):
                    for i, c in enumerate(re.split(p, cval(x))):
                        if c is None: return None
                        if i == 0: out[-1] = cat(out[-1], const(c))
                        else: out.append(const(c))
                else: out[-1] = cat(out[-1], x)
            return [self.new(st, node, H(LIST, out))]
        return None

    def ext_call2(self, name, args, kw, st, node):
        self.maybe_raise(st, name)
        if self.exc_class(name) is not None and name in BUILTIN:
            if name in ('OSError', 'IOError', 'EnvironmentError') and len(args) > 1 and args[0].op == 'ext' and str(args[0].args[0]).startswith('errno.'):
                name = SUBERR.get(str(args[0].args[0])[6:], name)
            return [(st, mk('exc', name, tup(*args)))]
        fargs = tuple(self.freeze(a, st) for a in args)
        if name in IMPURE and not (name == 'hashlib.sha256' and args):
            res = mk('fresh', name, self.site(node)) if not fargs else mk('fresh', name, self.site(node), *fargs)
            st = st.kill(lambda a, r=res: r in subterms_c(a)) if not self.quiet else st
            if res in st.heap:
                st = st.clone(); st.heap = {t: h for t, h in st.heap.items() if t is not res}
        else: res = mk('call', name, fargs, tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items())))
        out = []
        for s, v in self.emit2('call', name, args, kw, None, res, node, st):
            s = self.fs_effects(name, args, s)
            out.append((s, v))
        return out

    FS_WRITE = {'os.rename': (0, 1), 'os.replace': (0, 1), 'shutil.move': (0, 1), 'os.remove': (0,), 'os.unlink': (0,), 'shutil.copy': (1,), 'shutil.copyfile': (1,),
                'shutil.copy2': (1,), 'shutil.rmtree': (0,), 'os.rmdir': (0,), 'open': (0,), 'os.makedirs': (0,), 'os.mkdir': (0,), 'os.link': (1,), 'os.removedirs': (0,)}

    def fs_effects(self, name, args, st):
        w = self.FS_WRITE.get(name)
        if not w: return st
        if name == 'open' and (len(args) < 2 or (is_str(args[1]) and not set(cval(args[1])) & set('wax+'))): return st
        paths = [path_parts(args[i]) for i in w if i < len(args)]

        def p(a):
            for x in subterms_c(a):
                if x.op == 'call' and x.args[0] in ('os.path.isfile', 'os.path.exists', 'os.path.isdir', 'os.path.lexists') and x.args[1]:
                    if path_parts(x.args[1][0]) in paths: return True
            return False
        return st.kill(p)

    # ---- modelled builtins (all return list of (state, value) or None)
    def x_print(self, a, k, st, n): return [(s, NONE) for s in self.emit('print', 'print', a, k, None, NONE, n, st)]
    def x_pprint_pprint(self, a, k, st, n): return [(st, NONE)]

    def x_bool(self, a, k, st, n):
        if not a: return [(st, FALSE)]
        return [(s, mk('const', 'bool', b)) for s, b in self.truth(a[0], st)]

    def x_int(self, a, k, st, n):
        if a and is_const(a[0]):
            try: return [(st, const(int(cval(a[0]), *[cval(x) for x in a[1:]])))]
            except Exception: pass
        if a and a[0].op in ('cmp', 'in', 'not'): return [(s, const(int(b))) for s, b in self.truth(a[0], st)]

    def x_str(self, a, k, st, n):
        if not a: return [(st, const(''))]
        if is_const(a[0]) and not isinstance(cval(a[0]), bytes): return [(st, const(str(cval(a[0]))))]
        if a[0].op == 'exc' and len(a[0].args) > 1 and a[0].args[1].op == 'tup' and len(a[0].args[1].args[0]) == 1 and is_str(a[0].args[1].args[0][0]) and a[0].args[0] != 'KeyError': return [(st, a[0].args[1].args[0][0])]
        if is_str(a[0]) and isinstance(cval(a[0]), bytes) and (len(a) > 1 or k): return [(st, const(cval(a[0]).decode('utf8', 'replace')))]
        return [(st, mk('call', 'str', (self.freeze(a[0], st),), ()))]

    def x_ord(self, a, k, st, n):
        if a and is_str(a[0]) and len(cval(a[0])) == 1: return [(st, const(ord(cval(a[0]))))]

    def x_chr(self, a, k, st, n):
        if a and is_const(a[0]) and type(cval(a[0])) is int and 0 <= cval(a[0]) < 0x110000: return [(st, const(chr(cval(a[0]))))]

    def x_bytes(self, a, k, st, n):
        if not a: return [(st, const(b''))]
        if is_str(a[0]) and isinstance(cval(a[0]), str): return [(st, const(cval(a[0]).encode()))]
        if is_str(a[0]) and self.unroll: return [(st, a[0])]
        if is_const(a[0]) and type(cval(a[0])) is int and 0 <= cval(a[0]) < 4096: return [(st, const(bytes(cval(a[0]))))]
        return [(st, mk('call', 'bytes', (a[0],), ()))]

    def x_bytearray(self, a, k, st, n):
        if self.unroll and (not a or is_str(a[0])): return self.x_bytes(a, k, st, n)
        return [(st, mk('call', 'bytearray', tuple(a), ()))]

    def x_memoryview(self, a, k, st, n):
        if self.unroll and a and is_str(a[0]): return [(st, a[0])]
        return [(st, mk('call', 'memoryview', tuple(a), ()))]

    def x_len(self, a, k, st, n):
        t = a[0]; h = st.heap.get(t)
        if t.op == 'tup': return [(st, const(len(t.args[0])))]
        if h is not None and h.kind == INST:
            c = self.class_of(t, st); f = self.class_attr(c, '__len__') if c else None
            if f is not None: return self.inline(f, [t], {}, st, n)
        if t.op == 'view':
            known, rest = self.iter_plan(t, st)
            if not rest: return [(st, const(len(known)))]
        if is_str(t): return [(st, const(len(cval(t))))]
        if h is not None and h.kind in (DICT, LIST, SET) and not h.rest and h.base is None: return [(st, const(len(h.known)))]
        return [(st, mk('call', 'len', (t,), ()))]

    def x_isinstance(self, a, k, st, n):
        t, c = a[0], a[1]
        names = set()
        for x in (c.args[0] if c.op == 'tup' else (c,)):
            names.add(x.args[0] if x.op in ('ext', 'cls') else '?')
        h = st.heap.get(t)
        kind = None
        if is_const(t): kind = type(cval(t)).__name__
        elif h is not None and t.op == 'obj': kind = h.kind if h.kind != INST else h.extra
        elif t.op == 'bytes1' or t.op == 'cat' and any(y.op == 'bytes1' for y in t.args[0]): kind = 'bytes'
        elif t.op in ('cat', 'path'): kind = None
        elif t.op == 'tup': kind = 'tuple'
        elif t.op == 'call' and t.args[0] in ('str', 'bytes', 'json.dumps'): kind = 'str' if t.args[0] != 'bytes' else 'bytes'
        elif t.op == 'meth' and t.args[1] == 'encode': kind = 'bytes'
        if kind is not None:
            if h is not None and h.kind == INST: names |= {'object'} if names & self.bases(kind) else set()
            if kind in names or (kind == 'bool' and 'int' in names) or 'object' in names: return [(st, TRUE)]
            if '?' not in names and not any(x.endswith('Mapping') for x in names): return [(st, FALSE)]
            if kind == DICT and any(x.endswith('Mapping') for x in names): return [(st, TRUE)]
            if kind in ('str', 'bytes', 'int', 'bool', 'NoneType', 'float') and '?' not in names: return [(st, FALSE)]
        return None

    def bases(self, cls, depth=0):
        out = {cls}; c = self.prog.classes.get(cls)
        if c is None or depth > 5: return out
        for b in c.node.bases:
            v = self.static.get(c.mod.name, {}).get(b.id) if isinstance(b, ast.Name) else None
            if v is not None and v.op == 'cls': out |= self.bases(v.args[0], depth + 1)
            elif isinstance(b, ast.Name): out.add(b.id)
        return out

    def x_type(self, a, k, st, n):
        if len(a) != 1: return None
        if is_const(a[0]) and cval(a[0]) is not None: return [(st, mk('ext', type(cval(a[0])).__name__))]
        h = st.heap.get(a[0])
        if h is not None: return [(st, mk('cls', h.extra) if h.kind == INST else mk('ext', h.kind))] if h.kind != INST or h.extra in self.prog.classes else None
        if a[0].op == 'tup': return [(st, mk('ext', 'tuple'))]

    def x_callable(self, a, k, st, n):
        t = a[0]
        if t.op in ('func', 'bound', 'cls', 'ext', 'netwriter'): return [(st, TRUE)]
        if is_const(t) or t.op in ('cat', 'path', 'tup'): return [(st, FALSE)]
        return None

    def x_list(self, a, k, st, n, kind=LIST):
        if not a: return [self.new(st, n, H(kind))]
        t = a[0]
        if t in st.heap and st.heap[t].kind == INST and self.class_of(t, st):
            f = self.class_attr(self.class_of(t, st), '__iter__')
            if f is not None: return [r for s, x in self.inline(f, [t], {}, st, n) for r in self.x_list([x], k, s, n, kind)]
        if t.op == 'phi': return [r for s, x in self.split_phi(t, st) if x is not t for r in self.x_list([x], k, s, n, kind)] or [(st, mk('call', kind, (t,), ()))]
        if t in st.heap and st.heap[t].kind != INST or t.op in ('tup', 'view') or (t.op == 'call' and t.args[0] in ('reversed', 'sorted', 'list', 'set', 'tuple', 'enumerate') and t.args[1]
                                               and (t.args[1][0] in st.heap or t.args[1][0].op == 'view')):
            known, rest = self.iter_plan(t, st)
            if kind == SET: known = list(dict.fromkeys(known))
            return [self.new(st, n, H(kind, known, [(None, v, g) for v, g in rest]))]
        return [(st, mk('call', kind, (t,), ()))]

    def x_set(self, a, k, st, n): return self.x_list(a, k, st, n, SET)
    def x_frozenset(self, a, k, st, n): return self.x_list(a, k, st, n, SET)

    def x_tuple(self, a, k, st, n):
        if not a: return [(st, tup())]
        known, rest = self.iter_plan(a[0], st)
        if not rest: return [(st, tup(*known))]
        return self.x_list(a, k, st, n)

    def x_sorted(self, a, k, st, n):
        t = a[0]
        if t in st.heap and st.heap[t].kind != INST or t.op in ('tup', 'view') or t.op == 'call' and t.args[0] in ('set', 'frozenset', 'list', 'tuple', 'reversed', 'enumerate', 'range') and not self.iter_plan(t, st)[1]:
            known, rest = self.iter_plan(t, st)
            for s in self.emit('sorted', 'sorted', a, k, None, t, n, st):
                if not rest:
                    r = self.sort_known(known, k, s, n)
                    if r is not None: s, known = r[0]
                return [self.new(s, n, H(LIST, known, [(None, v, g) for v, g in rest]))]
        return [(st, mk('call', 'sorted', (t,), tuple(sorted(k.items()))))]

    def x_reversed(self, a, k, st, n):
        h = st.heap.get(a[0])
        if h is not None and h.kind == LIST and not h.rest and h.base is None: return [self.new(st, n, H(LIST, h.known[::-1]), ':rev')]
        return [(st, mk('call', 'reversed', (a[0],), ()))]
    def x_iter(self, a, k, st, n):
        if len(a) == 2:
            if self.unroll and isinstance(n, ast.Call) and self.eager_iter:
                vals = []; mark = len(self.exc); s = st
                for i in range(self.unroll):
                    r = self.call_value(a[0], [], {}, s, n)
                    if len(r) != 1: break
                    s, v = r[0]
                    c = True if v is a[1] else False if is_const(v) and is_const(a[1]) and cval(v) != cval(a[1]) else None
                    if c is None: break
                    if c: return [self.new(s, n, H(LIST, vals).with_(extra='iter'), ':iter')]
                    vals.append(v)
                del self.exc[mark:]
            return [(st, mk('iter2', a[0], a[1]))]
        if self.unroll and not (a[0] in st.heap and st.heap[a[0]].kind == LIST and st.heap[a[0]].extra == 'iter'):
            h = st.heap.get(a[0])
            if h is not None and h.kind == INST:
                c = self.class_of(a[0], st); f = self.class_attr(c, '__iter__') if c else None
                if f is not None: return self.inline(f, [a[0]], {}, st, n)
            elif h is not None or a[0].op in ('tup', 'view', 'call'):
                known, rest = self.iter_plan(a[0], st)
                if not rest: return [self.new(st, n, H(LIST, known).with_(extra='iter'), ':iter')]
        return [(st, a[0])]
    def x_enumerate(self, a, k, st, n):
        start = a[1] if len(a) > 1 else k.get('start')
        if start is not None and is_const(start) and type(cval(start)) is int and cval(start) and not self.iter_plan(a[0], st)[1]:
            return [self.new(st, n, H(LIST, [tup(const(i), x) for i, x in enumerate(self.iter_plan(a[0], st)[0], cval(start))]))]
        return [(st, mk('call', 'enumerate', (a[0],), ()))]
    def x_range(self, a, k, st, n): return [(st, mk('call', 'range', tuple(a), ()))]
    def x_zip(self, a, k, st, n):
        plans = [self.iter_plan(x, st) for x in a]
        if all(not r for _, r in plans) and plans:
            return [self.new(st, n, H(LIST, [tup(*x) for x in zip(*[p for p, _ in plans])]))]
        return [(st, mk('call', 'zip', tuple(a), ()))]

    def x_dict(self, a, k, st, n):
        if a:
            t = a[0]
            h = st.heap.get(t)
            if h is not None and h.kind == DICT: st, d = self.new(st, n, h)
            elif h is not None and h.kind == LIST or t.op == 'tup':
                known, rest = self.iter_plan(t, st); hh = H(DICT)
                for x in known: hh = hh.put(x.args[0][0], x.args[0][1]) if x.op == 'tup' else hh.weak(mk('sub', x, const(0)), mk('sub', x, const(1)))
                for x, g in rest: hh = hh.weak(x.args[0][0], x.args[0][1], g) if x.op == 'tup' else hh.weak(mk('sub', x, const(0)), mk('sub', x, const(1)), g)
                st, d = self.new(st, n, hh)
            else: st, d = self.new(st, n, H(DICT, base=t))
        else: st, d = self.new(st, n, H(DICT))
        for kk, v in k.items(): st = st.setheap(d, st.heap[d].put(const(kk), v))
        return [(st, d)]

    def x_collections_defaultdict(self, a, k, st, n): return [self.new(st, n, H(DICT, extra=a[0] if a else NONE))]
    def x_collections_OrderedDict(self, a, k, st, n): return self.x_dict(a, k, st, n)

    def x_any(self, a, k, st, n): return self.anyall(a, st, n, True)
    def x_all(self, a, k, st, n): return self.anyall(a, st, n, False)

    def anyall(self, a, st, n, isany):
        known, rest = self.iter_plan(a[0], st)
        out = []

        def body(s, v):
            o = Out()
            for s2, b in self.truth(v, s):
                if b == isany: o.ret.append((s2, TRUE))
                else: o.norm.append(s2)
            return o
        o = self.loop(st, known, rest, body, n, ('u', self.nid(n), self.ctxid()), a[0])
        return [(s, mk('const', 'bool', isany)) for s, _ in o.ret] + [(s, mk('const', 'bool', not isany)) for s in o.norm]

    def x_next(self, a, k, st, n):
        known, rest = self.iter_plan(a[0], st)
        out = []
        if a[0] in st.heap or a[0].op in ('tup', 'view') or a[0].op == 'call':
            if known and not rest:
                h = st.heap.get(a[0])
                if h is not None and h.kind == LIST and self.unroll: st = st.setheap(a[0], h.with_(known=h.known[1:]))
                return [(st, known[0])]
            for v in known[:1]: out.append((st, v))
            for v, g in rest:
                s = self.begin_elem(st, self.elem_kills(v), g)
                if s is not None: out.append((s, v))
            if not known:
                if len(a) > 1:
                    s = self.assume(mk('nonempty', a[0]), False, st) if not (a[0] in st.heap and not rest) else st
                    if s is not None: out.append((s, a[1]))
                else: self.raise_(st, mk('exc', 'StopIteration', NONE))
            return out
        return None

    def x_getattr(self, a, k, st, n):
        if len(a) >= 2 and is_str(a[1]):
            r = self.attr_of(st, a[0], cval(a[1]), n)
            if len(a) == 3 and r and r[0][1].op == 'attr' and self.whole_instance(a[0], st): return [(st, a[2])]
            if len(a) == 3 and r and r[0][1].op == 'attr': return [(st, phi('getattr', r[0][1], a[2]))] if is_const(a[2]) else r
            return r

    def whole_instance(self, o, st):
        """an object created by the analysed code, all attributes of which are known"""
        h = st.heap.get(o)
        if o.op == 'fresh' and o.args[0] == 'threading.local' and self.thread_locals: return True
        return h is not None and h.kind == INST and h.base is None and not h.rest and isinstance(h.extra, str) and h.extra in self.prog.classes and self.class_attr(h.extra, '__getattr__') is None

    def x_hasattr(self, a, k, st, n):
        if len(a) == 2 and is_str(a[1]) and (a[0] in st.heap or self.whole_instance(a[0], st)):
            r = self.attr_of(st, a[0], cval(a[1]), n)
            if r and r[0][1].op != 'attr': return [(st, TRUE)]
            if self.whole_instance(a[0], st): return [(st, FALSE)]

    def x_setattr(self, a, k, st, n):
        if len(a) == 3 and is_str(a[1]): return [(self.set_attr(s, a[0], cval(a[1]), a[2]), NONE) for s in self.emit('setattr', cval(a[1]), [a[2]], {}, a[0], NONE, n, st)]

    def x_functools_partial(self, a, k, st, n): return [(st, mk('partial', a[0], tuple(a[1:]), tuple(sorted(k.items()))))]

    def x_map(self, a, k, st, n):
        if len(a) != 2: return None
        st, res = self.new(st, n, H(LIST), ':map')

        def body(s, v):
            o = Out()
            for s2, r in self.call_value(a[0], [v], {}, s, n):
                h = s2.heap[res]; o.norm.append(s2.setheap(res, h.with_(known=h.known + (r,))))
            return o
        known, rest = self.iter_plan(a[1], st)
        o = self.loop(st, known, rest, body, n, ('u', self.nid(n), self.ctxid()), a[1])
        return [(s, res) for s in o.norm]

    def x_filter(self, a, k, st, n):
        st, res = self.new(st, n, H(LIST), ':filter')

        def body(s, v):
            o = Out()
            for s1, r in ([(s, v)] if a[0] is NONE else self.call_value(a[0], [v], {}, s, n)):
                for s2, b in self.truth(r, s1):
                    if b:
                        h = s2.heap[res]; s2 = s2.setheap(res, h.with_(known=h.known + (v,)))
                    o.norm.append(s2)
            return o
        known, rest = self.iter_plan(a[1], st)
        o = self.loop(st, known, rest, body, n, ('u', self.nid(n), self.ctxid()), a[1])
        return [(s, res) for s in o.norm]

    def x_itertools_takewhile(self, a, k, st, n):
        known, rest = self.iter_plan(a[1], st)
        if rest: return None
        cur = [(st, ())]; out = []
        for x in known:
            nxt = []
            for s, vs in cur:
                for s1, r in self.call_value(a[0], [x], {}, s, n):
                    for s2, b in self.truth(r, s1): (nxt if b else out).append((s2, vs + (x,) if b else vs))
            cur = nxt
        return [self.new(s, n, H(LIST, vs), ':tw') for s, vs in cur + out]

    def x_collections_deque(self, a, k, st, n):
        if k or len(a) > 1: return None
        return self.x_list(a, k, st, n)

    def x_itertools_chain_from_iterable(self, a, k, st, n):
        known, rest = self.iter_plan(a[0], st)
        return None if rest else self.x_itertools_chain(known, k, st, n)

    def x_sum(self, a, k, st, n):
        known, rest = self.iter_plan(a[0], st) if a[0] in st.heap or a[0].op in ('tup', 'view') else ([], [1])
        if rest or self.inloop(): return None
        acc = a[1] if len(a) > 1 else const(0); cur = [(st, acc)]
        for x in known: cur = [r for s, v in cur for r in self.binop(ast.Add(), v, x, s, n)]
        return cur

    def x_functools_reduce(self, a, k, st, n):
        known, rest = self.iter_plan(a[1], st)
        if rest or not known and len(a) < 3: return None
        if len(a) > 2: cur = [(st, a[2])]
        else: cur = [(st, known[0])]; known = known[1:]
        for x in known: cur = [r for s, v in cur for r in self.call_value(a[0], [v, x], {}, s, n)]
        return cur

    def x_itertools_chain(self, a, k, st, n):
        known, rest = [], []
        for x in a:
            kk, r = self.iter_plan(x, st); known += kk; rest += r
        return [self.new(st, n, H(LIST, known, [(None, v, g) for v, g in rest]), ':chain')]

    def fold(self, f, a, k, st):
        if a and not k and all(is_const(x) and type(cval(x)) in (int, float, bool) for x in a):
            try: return [(st, const(f(*[cval(x) for x in a])))]
            except Exception: return None

    def x_abs(self, a, k, st, n): return self.fold(abs, a, k, st)
    def x_round(self, a, k, st, n): return self.fold(round, a, k, st)
    def x_math_floor(self, a, k, st, n): return self.fold(__import__('math').floor, a, k, st)
    def x_math_ceil(self, a, k, st, n): return self.fold(__import__('math').ceil, a, k, st)
    def x_math_isclose(self, a, k, st, n): return self.fold(lambda x, y: __import__('math').isclose(x, y, **{n: cval(v) for n, v in k.items()}), a, {}, st) if all(is_const(v) for v in k.values()) else None
    def minmax(self, f, a, k, st, n):
        r = None if k else self.fold_call(f, a, {}, st, n)
        if r is not None: return r
        if len(a) == 1 and (a[0] in st.heap or a[0].op in ('tup', 'view')):
            known, rest = self.iter_plan(a[0], st)
            if rest: return None
            if not known:
                if 'default' in k: return [(st, k['default'])]
                self.raise_(st, mk('exc', 'ValueError', NONE)); return []
            r = self.sort_known(known, {x: y for x, y in k.items() if x == 'key'}, st, n)
            if r is None: return None
            s, o = r[0]
            if f is min: return [(s, o[0])]
            r = self.sort_known(known, dict({x: y for x, y in k.items() if x == 'key'}, reverse=TRUE), st, n)
            return [(r[0][0], r[0][1][0])] if r else None

    def x_min(self, a, k, st, n): return self.minmax(min, a, k, st, n) or (self.fold(min, a, k, st) if len(a) > 1 else None) or [(st, mk('call', 'min', tuple(sorted(a, key=lambda x: x.id)), ()))]
    def x_max(self, a, k, st, n): return self.minmax(max, a, k, st, n) or (self.fold(max, a, k, st) if len(a) > 1 else None) or [(st, mk('call', 'max', tuple(sorted(a, key=lambda x: x.id)), ()))]

    def x_os_path_join(self, a, k, st, n): return [(st, mkpath(a))]
    def x_pathlib_Path(self, a, k, st, n): return [(st, mkpath(a))]
    def x_typing_cast(self, a, k, st, n): return [(st, a[1])]
    def x_typing_Dict(self, a, k, st, n): return None

    # ---- methods of opaque values and containers
    def method(self, r, name, args, kw, st, node):
        if r.op == 'phi' and any(a in st.heap or is_const(a) or a.op in ('tup', 'func') for a in r.args[1]):
            out = []
            for a in sorted(r.args[1], key=lambda x: x.id):
                for s, fv in self.attr_of(st, a, name, node):
                    if fv.op in ('attr', 'bm'): out += self.method(a, name, args, kw, s, node)
                    else: out += self.call_value(fv, args, kw, s, node)
            return out
        if r.op == 'super':
            c = self.prog.classes.get(r.args[0])
            if c is not None:
                for b in c.node.bases:
                    v = self.static.get(c.mod.name, {}).get(b.id) if isinstance(b, ast.Name) else None
                    if v is not None and v.op == 'cls':
                        f = self.class_attr(v.args[0], name)
                        if f is not None: return self.inline(f, [r.args[1]] + args, kw, st, node)
            return [(st, NONE)]
        h0 = st.heap.get(r)
        if name in ('__getitem__', '__contains__', '__setitem__') and h0 is not None and h0.kind != INST and len(args) == (2 if name == '__setitem__' else 1) and not kw:
            if name == '__getitem__': return self.sub_of(st, r, args[0], node)
            if name == '__contains__': return self.compare('in', args[0], r, st, node)
            return [(self.store_sub(st, r, args[0], args[1]), NONE)]
        if is_str(r) and name in FOLD_METH and all(is_const(a) for a in args) and not kw:
            try:
                v = getattr(cval(r), name)(*[cval(a) for a in args])
                if isinstance(v, list): return [self.new(st, node, H(LIST, [const(x) for x in v]))]
                if isinstance(v, tuple): return [(st, tup(*[const(x) for x in v]))]
                return [(st, const(v))]
            except UnicodeError as x:
                self.raise_(st, mk('exc', type(x).__name__, const(str(x)))); return []
            except Exception: pass
        if is_str(r) and name in FOLD_METH and any(a.op == 'tup' or a in st.heap for a in args) and name != 'join':
            v = self.fold_call(getattr(cval(r), name), args, kw, st, node)
            if v is not None: return v
        if name in ('startswith', 'endswith') and len(args) == 1 and not kw and is_str(args[0]) and canon_str(r).op == 'cat':
            end = canon_str(r).args[0][0 if name == 'startswith' else -1]
            if is_str(end):
                x, y = [cval(t).encode('utf8', 'replace') if isinstance(cval(t), str) else cval(t) for t in (end, args[0])]
                if getattr(x, name)(y): return [(st, TRUE)]
                n = min(len(x), len(y))
                if (x[:n] != y[:n]) if name == 'startswith' else (x[len(x) - n:] != y[len(y) - n:]): return [(st, FALSE)]
        if r.op == 'call' and r.args[0] == 're.compile' and len(r.args[1]) == 1 and not kw:
            v = self.regex(name, [r.args[1][0]] + list(args), kw, st, node)
            if v is not None: return v
        if name == 'replace' and len(args) == 2 and not kw and r.op == 'cat' and all(is_str(a) and isinstance(cval(a), str) and len(cval(a)) == 1 for a in args) and not cval(args[0]).isalnum() \
                and all(is_str(x) or x.op == 'sym' and x.args[2] for x in r.args[0]):
            acc = const('')
            for x in r.args[0]: acc = cat(acc, const(cval(x).replace(cval(args[0]), cval(args[1]))) if is_str(x) else x)
            return [(st, acc)]
        if name == 'split' and len(args) == 1 and is_str(args[0]) and cval(args[0]) == '/' and not kw and r.op == 'cat':
            v = self.split_path(r)
            if v is not None: return [self.new(st, node, H(LIST, v))]
        if name in ('split', 'rsplit') and len(args) == 1 and is_str(args[0]) and cval(args[0]) == '/' and not kw and r.op == 'path' and self.unroll:
            return [self.new(st, node, H(LIST, r.args[0]))]
        if is_str(r) and name == 'join' and args:
            known, rest = self.iter_plan(args[0], st)
            if not rest and not (args[0] not in st.heap and args[0].op != 'tup'):
                acc = const('' if isinstance(cval(r), str) else b'')
                for i, x in enumerate(known):
                    if i: acc = cat(acc, r)
                    acc = cat(acc, x)
                return [(st, acc)]
        if is_str(r) and name == 'format' and isinstance(cval(r), str):
            parts = re.split(r'\{([^}]*)\}', cval(r)); acc = const(parts[0]); i = 0
            ok = True
            for j in range(1, len(parts), 2):
                key = parts[j].split(':')[0].split('!')[0]
                if key == '': x = args[i] if i < len(args) else None; i += 1
                elif key.isdigit(): x = args[int(key)] if int(key) < len(args) else None
                else: x = kw.get(key)
                if x is None: ok = False; break
                if is_const(x) and not is_str(x): x = const(str(cval(x)))
                acc = cat(cat(acc, canon_str(x)), const(parts[j + 1]))
            if ok: return [(st, acc)]
        # SQL
        if name in ('execute', 'executemany') and args and is_str(args[0]) and isinstance(cval(args[0]), str):
            return self.sql(r, args, kw, st, node, name)
        if name in ('fetchall', 'fetchone', 'fetchmany') and r.op != 'rows':
            last = st.epochs.get(('last', self.dbroot(r)))
            if isinstance(last, T) and last.op == 'rows': r = last
        if r.op == 'rows':
            if name == 'fetchall' or name == '__iter__': return [(st, r)]
            if name == 'fetchone':
                h = st.heap.get(r)
                if h is not None and h.base is None and not h.rest: return [(st, h.known[0] if h.known else NONE)]
                return [(st, mk('row1', r))]
            if name == 'fetchmany': return [(st, r)]
        res = self.container_method(st, r, name, args, kw, node)
        if res is not None: return res
        if name in ('items', 'keys', 'values') and not args: return [(st, mk('meth', r, name, (), ()))]
        if name == 'copy' and not args: return [self.copy_obj(st, r, node)]
        if name == 'get' and args and r not in st.heap:
            # opaque mapping .get(k[, d]): subscript or default
            ina = mk('in', args[0], r)
            out = []
            for s, b in self.split(ina, st):
                out.append((s, mk('sub', r, args[0]) if b else (args[1] if len(args) > 1 else NONE)))
            for s, v in out:
                for e in self.emit('sub', '.get', [args[0]], {}, r, NONE, node, s): pass
            return out
        self.maybe_raise(st, name, True)
        fargs = tuple(self.freeze(a, st) for a in args)
        kws = tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items()))
        if name in IMPURE_METH:
            v = mk('fresh', '.' + name, self.site(node), r, *fargs)
            st = st.kill(lambda a, v=v: v in subterms_c(a))
            if v in st.heap:
                st = st.clone(); st.heap = {t: h for t, h in st.heap.items() if t is not v}
        else: v = mk('meth', r, name, fargs, kws)
        return self.emit2('meth', name, args, kw, r, v, node, st)

    @staticmethod
    def split_path(t):
        """components of a concatenation of constants and tracked symbols (these contain no separator)"""
        out = [[]]
        for p in t.args[0]:
            if is_str(p) and isinstance(cval(p), str):
                for i, c in enumerate(cval(p).split('/')):
                    if i: out.append([])
                    if c: out[-1].append(const(c))
            elif p.op == 'sym' and p.args[2] and p.args[0].startswith('#'): out[-1].append(p)
            else: return None
        res = []
        for ps in out:
            v = const('')
            for p in ps: v = cat(v, p)
            res.append(v)
        return res

    @staticmethod
    def dbroot(r):
        while True:
            if r.op == 'attr' and r.args[1] in ('con', 'cur', 'conn', 'cursor', 'connection', 'db'): r = r.args[0]
            elif r.op in ('meth',) and r.args[1] == 'cursor': r = r.args[0]
            elif r.op == 'fresh' and r.args[0] == '.cursor': r = r.args[2]
            else: return r

    def sql(self, r, args, kw, st, node, name):
        params = None
        if len(args) > 1:
            p = args[1]; h = st.heap.get(p)
            if p.op == 'tup': params = list(p.args[0])
            elif h is not None and h.kind == LIST and not h.rest and h.base is None: params = list(h.known)
            elif h is not None and h.kind == DICT: params = {cval(k): v for k, v in h.known if is_str(k)}
        else: params = []
        q = sqlparse.parse(cval(args[0]), params)
        if q is None: return None
        db = self.dbroot(r)
        self.maybe_raise(st, 'execute', True)
        def nv(v):
            if v[0] == 'param': return v[1]
            if v[0] == 'lit': return const(v[1])
            return sym('sql:' + str(v[1]))
        q.where = tuple((c, o, tuple(nv(x) for x in v) if o == 'in' else nv(v)) for c, o, v in q.where)
        q.sets = tuple((c, nv(v)) for c, v in q.sets)
        q.values = tuple(nv(v) for v in q.values)
        if q.verb == 'select':
            wk = q.where
            res = mk('rows', db, q.table, wk, str(st.epochs.get((db, q.table), st.epochs.get(('db', '*'), 'init'))), q.order or '', tuple(c.lower() for c in q.cols))
        else: res = mk('sqlres', self.site(node))
        out = []
        for s, v in self.emit2('sql', q.verb, args, kw, db, res, node, st, q):
            if q.verb in ('insert', 'update', 'delete', '?') and q.table:
                s = s.clone(); s.epochs = dict(s.epochs); s.epochs[(db, q.table)] = 'w%d.%d' % self.site(node)
            elif q.verb == 'select' and s.epochs.get(('last', db)) is not v:
                s = s.clone(); s.epochs = dict(s.epochs); s.epochs[('last', db)] = v
            out.append((s, v))
        return out

    def list_extend(self, st, r, other, node):
        known, rest = self.iter_plan(other, st)
        h = st.heap.get(r) or H(LIST, base=r)
        nh = h.with_(known=h.known + tuple(known))
        for v, g in rest: nh = nh.weak(None, v, g)
        out = []
        for s in self.emit('append', 'extend', [other], {}, r, NONE, node, st):
            out.append((self.touched(s.setheap(r, nh), r), NONE))
        return out

    def container_method(self, st, r, name, args, kw, node, isdel=False):
        h = st.heap.get(r)
        if h is None:
            if r.op == 'tup' or is_const(r): return None
            if name == 'append' and len(args) == 1: h = H(LIST, base=r)
            elif name in ('extend',) and len(args) == 1: h = H(LIST, base=r)
            elif name == 'update' and len(args) == 1 and r.op != 'fresh' and (args[0] in st.heap): h = H(DICT, base=r)
            elif name in ('add',) and len(args) == 1 and r.op in ('call',) and r.args[0] == 'set': h = H(SET, base=r)
            elif isdel or name == 'pop' and args:
                # removing a key of an opaque mapping
                k = args[0]
                nh = H(DICT, base=mk('minus', r, k))
                out = []
                for s in self.emit('pop', name, [k], {}, r, NONE, node, st):
                    out.append((self.touched(s, r, k), mk('sub', r, k)))
                return out
            else: return None
        if h.kind == INST: return None
        k = args[0] if args else None
        if h.kind == DICT:
            if name == 'get':
                v = h.get(k)
                if v is not None: return [(st, v)]
                dflt = args[1] if len(args) > 1 else NONE
                out = []
                for s, b in [(s2, b2) for s1, v1 in self.compare('in', k, r, st, node) for s2, b2 in self.truth(v1, s1)]:
                    if b: out += self.sub_of(s, r, k, node)
                    else: out.append((s, dflt))
                return out
            if isdel and not h.rest and h.base is None and h.get(k) is None and all(self.distinct(kk, k, st) for kk, _ in h.known):
                self.raise_(st, mk('exc', 'KeyError', NONE)); return []
            if name in ('items', 'keys', 'values'): return [(st, mk('view', r, name))]
            if name == 'copy': return [self.new(st, node, h, ':copy')]
            if name == 'clear': return [(self.touched(st.setheap(r, H(DICT, extra=h.extra)), r), NONE)]
            if name == 'pop':
                for s in self.emit('pop', name, [k], {}, r, NONE, node, st): st = s
                v = h.get(k)
                if v is not None: return [(self.touched(st.setheap(r, h.drop(k)), r, k), v)]
                poss = [vv for kk, vv, _ in h.rest if not self.distinct(kk, k, st)] + [vv for kk, vv in h.known if not self.distinct(kk, k, st)]
                if h.base is not None: poss.append(mk('sub', h.base, k))
                maybe = [kk for kk, vv in h.known if not self.distinct(kk, k, st)]
                nh = h
                for kk in maybe: nh = nh.drop(kk).weak(kk, h.get(kk))
                if len(args) > 1: poss.append(args[1])
                if not poss:
                    self.raise_(st, mk('exc', 'KeyError', NONE)); return []
                if (self.trydepth or self.mon.raises) and len(args) == 1: self.raise_(st, mk('exc', 'KeyError', NONE))
                return [(self.touched(st.setheap(r, nh), r, k), phi('pop', *poss))]
            if name == 'setdefault':
                v = h.get(k)
                if v is not None: return [(st, v)]
                d = args[1] if len(args) > 1 else NONE
                alts = [vv for kk, vv, _ in h.rest if not self.distinct(kk, k, st)]
                res = phi('sd', d, *alts) if alts else d
                return [(self.touched(st.setheap(r, h.put(k, res)), r, k), res)]
            if name == 'update':
                out = []
                for s in self.emit('update', name, args, kw, r, NONE, node, st):
                    nh = h
                    for o in args:
                        ho = s.heap.get(o)
                        if ho is not None and ho.kind == DICT:
                            for a, b in ho.known: nh = nh.put(a, b)
                            for a, b, g in ho.rest: nh = nh.weak(a, b, g)
                            if ho.base is not None: nh = nh.with_(base=ho.base if nh.base is None else mk('mix', tuple(sorted(leaves(ho.base) | leaves(nh.base), key=lambda x: x.id)[:8])))
                        elif o.op != 'const': nh = nh.with_(base=o if nh.base is None else mk('upd', nh.base, o))
                    for a, b in kw.items(): nh = nh.put(const(a), b)
                    out.append((self.touched(s.setheap(r, nh), r), NONE))
                return out
            return None
        if name in ('append', 'add', 'insert', 'appendleft') and args:
            v = args[-1]
            out = []
            for s in self.emit('append', name, [v], {}, r, NONE, node, st):
                if h.kind == SET and v in h.known: out.append((s, NONE)); continue
                if name == 'insert' and is_const(args[0]) and type(cval(args[0])) is int and not h.rest and h.base is None:
                    kn = list(h.known); kn.insert(cval(args[0]), v); kn = tuple(kn)
                else: kn = (v,) + h.known if name == 'appendleft' or name == 'insert' and is_const(args[0]) and cval(args[0]) == 0 else h.known + (v,)
                out.append((self.touched(s.setheap(r, h.with_(known=kn)), r), NONE))
            return out
        SETM = {'difference': '-', 'intersection': '&', 'symmetric_difference': '^', 'union': '|'}
        if name in SETM and args or name.endswith('_update') and name[:-7] in SETM and args:
            s, v = st, r
            for o in args: s, v = self.set_op(s, SETM[name.removesuffix('_update')], v, o, node)
            if not name.endswith('_update'): return [(s, v)]
            return [(self.touched(s.setheap(r, s.heap[v].with_(kind=h.kind)), r), NONE)]
        if name in ('extend', 'update') and args:
            if len(args) > 1:
                out = [(st, NONE)]
                for o in args: out = [x for s, _ in out for x in self.list_extend(s, r, o, node)]
                return out
            return self.list_extend(st, r, args[0], node)
        if name in ('remove', 'discard'):
            kn = list(h.known)
            if k in kn: kn.remove(k)
            else:
                mb = [x for x in kn if not self.distinct(x, k, st)]
                kn = [x for x in kn if x not in mb]
                h = h.with_(rest=h.rest | {(None, x, frozenset()) for x in mb})
            return [(self.touched(s.setheap(r, h.with_(known=tuple(kn))), r), NONE) for s in self.emit('pop', name, [k], {}, r, NONE, node, st)]
        if name in ('pop', 'popleft'):
            if name == 'popleft': args = (const(0),); k = const(0)
            if not h.rest and h.base is None and h.known and (not args or is_const(k)):
                i = cval(k) if args else -1
                if type(i) is int and -len(h.known) <= i < len(h.known):
                    kn = list(h.known); v = kn.pop(i)
                    return [(self.touched(st.setheap(r, h.with_(known=tuple(kn))), r), v)]
            alts = list(h.known) + [v for _, v, _ in h.rest] + ([mk('sub', h.base, k or const(-1))] if h.base is not None else [])
            if not alts:
                self.raise_(st, mk('exc', 'KeyError' if h.kind == SET else 'IndexError', NONE)); return []
            nh = H(h.kind, (), list(h.rest) + [(None, v, frozenset()) for v in h.known], h.base)
            return [(self.touched(st.setheap(r, nh), r), phi('pop', *alts))]
        if name in ('sort', 'reverse'):
            if name == 'reverse': h = h.with_(known=h.known[::-1])
            elif not h.rest and h.base is None:
                r2 = self.sort_known(list(h.known), kw, st, node)
                if r2 is not None: st, kn = r2[0]; h = h.with_(known=tuple(kn))
            return [(st.setheap(r, h), NONE)]
        if name == 'clear': return [(self.touched(st.setheap(r, H(h.kind)), r), NONE)]
        if name == 'copy': return [self.new(st, node, h, ':copy')]
        if name in ('issubset', 'issuperset', 'isdisjoint') and args:
            s2, o = (st, args[0]) if self.setlike(args[0], st) else self.x_set([args[0]], {}, st, node)[0]
            if name == 'isdisjoint':
                s2, v = self.set_op(s2, '&', r, o, node)
                return [(s, mk('const', 'bool', not b)) for s, b in self.nonempty(v, s2)]
            return self.compare('le', *((r, o) if name == 'issubset' else (o, r)), s2, node)
        if name == 'count' and len(args) == 1 and not h.rest and h.base is None:
            ds = [self.value_eq(x, args[0], st) for x in h.known]
            if None not in ds: return [(st, const(ds.count(True)))]
        if name == 'index' and len(args) == 1 and not h.rest and h.base is None:
            for i, x in enumerate(h.known):
                d = self.value_eq(x, args[0], st)
                if d is True: return [(st, const(i))]
                if d is None: break
            else:
                self.raise_(st, mk('exc', 'ValueError', NONE)); return []
        if name in ('index', 'count'): return [(st, mk('meth', r, name, tuple(args), ()))]
        return None

    # ------------------------------------------------------------ driving
    def run(self, fv, args, kw, st, label='entry'):
        """abstractly execute a callable; returns (returns [(state, value)], raises [(state, exc)])"""
        save, self.exc = self.exc, []
        self.curmod = self.curmod or next(iter(self.prog.mods.values()))
        self.ctx = ('e:' + label,); self.stack = [(label, 0)]; self.fid = ('entry', label); self.func = None
        f = self.func_of(fv)
        if f is not None: self.curmod = f.mod
        node = f.node if f is not None else self.curmod.tree
        rets = self.call_value(fv, list(args), dict(kw), st, node)
        exc, self.exc = self.exc, save
        return rets, exc


def isrow(t):
    """one row of a query result"""
    return t.op == 'elem' and t.args[0].op == 'rows' or t.op == 'sub' and t.args[0].op == 'rows' and is_const(t.args[1])


def canon_keep(t):
    """canonical form for comparisons: text and bytes of the same data are identified"""
    if is_str(t):
        v = cval(t)
        return const(v.decode('utf8', 'replace')) if isinstance(v, bytes) else t
    return canon_str(t)
