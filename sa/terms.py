"""Provenance terms: hash-consed descriptions of where a value comes from.

A term never denotes a concrete run-time value; two equal terms denote the same value in
one abstract state.  There is no solver anywhere: the only reasoning is structural equality,
constant folding and the finite fact tables of state.py."""

MAXDEPTH = 14
MAXREF = 5
_table = {}
_TRANSPARENT_METHODS = {'encode', 'decode'}


class T:
    __slots__ = ('op', 'args', 'depth', 'rd', 'id', '_leaves')

    def __repr__(self): return show(self)
    def __reduce__(self): raise TypeError('terms are process-local')


def _depth(args):
    d = r = 0
    for a in args:
        if isinstance(a, T): x, y = a.depth, a.rd
        elif isinstance(a, (tuple, frozenset)) and a: x, y = _depth(a)
        else: continue
        if x > d: d = x
        if y > r: r = y
    return d, r


def _digest(op, args):
    """results whose origin is kept in full: serialised documents and digests (nested at most MAXREF times)"""
    return op == 'meth' and args[1] in ('hexdigest',) or op == 'call' and args[0] in ('json.dumps', 'read_dir_tree')


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        d, r = _depth(args); d += 1
        if _digest(op, args): d = 1; r += 1
        if (d > MAXDEPTH or r > MAXREF) and op not in ('mix', 'const', 'tup', 'fdict', 'flist', 'phi', 'obj'):
            return mk('mix', tuple(sorted({l for a in args for l in leaves(a)}, key=lambda x: x.id)[:12]))
        t = T.__new__(T)
        t.op = op; t.args = args; t.depth = d; t.rd = r; t.id = len(_table); t._leaves = None
        _table[k] = t
    return t


def const(v): return mk('const', type(v).__name__, v)
NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t): return t.op == 'const'
def cval(t): return t.args[1]
def is_str(t): return t.op == 'const' and isinstance(t.args[1], (str, bytes))


def sym(name, cls=None, uniq=False): return mk('sym', name, cls, uniq)
def tup(*items): return mk('tup', tuple(items))


def subterms(t, seen=None):
    """every term inside t (t included)"""
    if seen is None: seen = set()
    if isinstance(t, tuple) or isinstance(t, frozenset):
        for a in t: subterms(a, seen)
        return seen
    if not isinstance(t, T) or t in seen: return seen
    seen.add(t)
    for a in t.args:
        if isinstance(a, (T, tuple, frozenset)): subterms(a, seen)
    return seen


def mentions(t, what):
    if t is what: return True
    return what in _subs_cached(t)


_subs = {}


def subterms_c(t): return _subs_cached(t)


def eqatom(a, b):
    if a.id > b.id: a, b = b, a
    return mk('cmp', 'eq', a, b)


def exists_atom(conds):
    return mk('exists', frozenset(conds))



def _subs_cached(t):
    r = _subs.get(t)
    if r is None: r = _subs[t] = frozenset(subterms(t))
    return r


def leaves(t):
    if isinstance(t, (tuple, frozenset)):
        return frozenset().union(*[leaves(a) for a in t]) if t else frozenset()
    if not isinstance(t, T): return frozenset()
    if t._leaves is None:
        if t.op in ('const', 'sym', 'glob', 'fresh', 'obj', 'func', 'cls', 'ext', 'mod'):
            t._leaves = frozenset() if t.op == 'const' else frozenset([t])
        elif t.op == 'mix': t._leaves = frozenset(t.args[0])
        else: t._leaves = leaves(t.args)
    return t._leaves


def subst(t, m, memo=None):
    """replace sub-terms by map m (dict T->T)"""
    if memo is None: memo = {}
    if isinstance(t, tuple): return tuple(subst(a, m, memo) for a in t)
    if isinstance(t, frozenset): return frozenset(subst(a, m, memo) for a in t)
    if not isinstance(t, T): return t
    if t in m: return m[t]
    if t in memo: return memo[t]
    if not any(isinstance(a, (T, tuple, frozenset)) for a in t.args): r = t
    else:
        na = tuple(subst(a, m, memo) for a in t.args)
        r = t if na == t.args else mk(t.op, *na)
    memo[t] = r
    return r


def elem(t):
    """generic element of iterable t (order- and copy-insensitive)"""
    while t.op == 'call' and t.args[0] in ('list', 'tuple', 'sorted', 'reversed', 'iter', 'set', 'frozenset') and t.args[1]:
        t = t.args[1][0]
    if t.op == 'meth' and t.args[1] == 'keys': return mk('key', t.args[0])
    if t.op == 'meth' and t.args[1] == 'values': return mk('sub', t.args[0], mk('key', t.args[0]))
    if t.op == 'meth' and t.args[1] == 'items':
        return tup(mk('key', t.args[0]), mk('sub', t.args[0], mk('key', t.args[0])))
    if t.op == 'call' and t.args[0] == 'enumerate' and t.args[1]:
        return tup(mk('index', t.args[1][0]), elem(t.args[1][0]))
    if t.op == 'call' and t.args[0] == 'zip':
        return tup(*[elem(a) for a in t.args[1]])
    return mk('elem', t)


def cat(a, b):
    parts = []
    for x in (a, b):
        parts.extend(x.args[0] if x.op == 'cat' else (x,))
    out = []
    for p in parts:
        if is_str(p) and out and is_str(out[-1]) and type(cval(p)) is type(cval(out[-1])):
            out[-1] = const(cval(out[-1]) + cval(p))
        elif is_str(p) and len(cval(p)) == 0 and (out or len(parts) > 1): continue
        else: out.append(p)
    if len(out) == 1: return out[0]
    if not out: return a
    if len(out) > 24: return mk('mix', tuple(sorted({l for x in out for l in leaves(x)}, key=lambda x: x.id)[:12]))
    return mk('cat', tuple(out))


def canon_str(t):
    """strip encode/decode/str/bytes conversions"""
    while True:
        if t.op == 'meth' and t.args[1] in _TRANSPARENT_METHODS: t = t.args[0]
        elif t.op == 'call' and t.args[0] in ('str', 'bytes') and t.args[1]: t = t.args[1][0]
        else: return t


def path_parts(t):
    """canonical tuple of path components of a path-like term; constants are split on '/'"""
    t = canon_str(t)
    if t.op == 'path':
        out = ()
        for p in t.args[0]: out += path_parts(p)
        return out
    if t.op == 'cat':
        out = []; glue = False        # glue: next part is glued to the previous component
        for p in t.args[0]:
            p = canon_str(p)
            if is_str(p):
                s = cval(p)
                if isinstance(s, bytes): s = s.decode('latin1')
                comps = s.split('/')
                for i, c in enumerate(comps):
                    if i == 0:
                        if c:
                            if glue and out: out[-1] = mk('cat', (out[-1], const(c)))
                            else: out.append(const(c))
                            glue = True
                    else:
                        glue = False
                        if c: out.append(const(c)); glue = True
            else:
                pp = path_parts(p) if p.op in ('path', 'cat') else (p,)
                for q in pp:
                    if glue and out: out[-1] = mk('cat', (out[-1], q)); glue = False
                    else: out.append(q)
                glue = True
        return tuple(out)
    if is_str(t):
        s = cval(t)
        if isinstance(s, bytes): s = s.decode('latin1')
        return tuple(const(c) for c in s.split('/') if c)
    if t.op == 'call' and t.args[0] in ('os.path.normpath', 'os.path.abspath', 'os.path.realpath', 'os.fspath', 'pathlib.Path') and t.args[1]:
        return path_parts(t.args[1][0])
    return (t,)


def mkpath(parts):
    out = []
    for p in parts: out.extend(path_parts(p))
    return mk('path', tuple(out))


ALIASES = {}


def show(t, d=0):
    if isinstance(t, T) and t in ALIASES: return ALIASES[t]
    if isinstance(t, tuple): return '(' + ', '.join(show(a, d) for a in t) + ')'
    if isinstance(t, frozenset): return '{' + ', '.join(sorted(show(a, d) for a in t)) + '}'
    if not isinstance(t, T): return repr(t)
    if d > 9: return '..'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == 'const': return repr(a[1])
    if o == 'sym': return a[0]
    if o == 'glob': return a[0].split('.')[-1] + '.' + a[1]
    if o == 'attr': return s(a[0]) + '.' + a[1]
    if o == 'sub': return s(a[0]) + '[' + s(a[1]) + ']'
    if o == 'slice': return s(a[0]) + '[' + s(a[1]) + ':' + s(a[2]) + ']'
    if o == 'call': return a[0] + '(' + ', '.join(s(x) for x in a[1]) + ')'
    if o == 'meth': return s(a[0]) + '.' + a[1] + '(' + ', '.join(s(x) for x in a[2]) + ')'
    if o == 'elem': return 'each(' + s(a[0]) + ')'
    if o == 'key': return 'key(' + s(a[0]) + ')'
    if o == 'tup': return '(' + ', '.join(s(x) for x in a[0]) + ')'
    if o == 'cat': return '+'.join(s(x) for x in a[0])
    if o == 'path': return '<' + '/'.join(s(x) for x in a[0]) + '>'
    if o == 'cmp': return '(' + s(a[1]) + ' ' + a[0] + ' ' + s(a[2]) + ')'
    if o == 'bin': return '(' + s(a[1]) + ' ' + a[0] + ' ' + s(a[2]) + ')'
    if o == 'phi': return 'phi(' + a[0] + ': ' + '|'.join(sorted(s(x) for x in a[1])) + ')'
    if o == 'obj': return 'new:%s' % (a[0],)
    if o == 'func': return 'def ' + a[0]
    if o == 'cls': return 'class ' + a[0]
    if o in ('ext', 'mod'): return a[0]
    if o == 'fresh': return a[0] + '#' + str(a[1])[:0] + (('(' + ', '.join(s(x) for x in a[2:]) + ')') if len(a) > 2 else '')
    return o + '(' + ', '.join(s(x) for x in a) + ')'


_short = {}


def show_short(t):
    r = _short.get(t)
    if r is None: r = _short[t] = show(t)[:80]
    return r
