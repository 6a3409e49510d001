"""C09: client-supplied strings cannot steer server file access."""
from .store import *

RULES = {
    'paths': 'no path the server opens, serves, probes, creates, renames or deletes is built from a client-supplied string that was not checked to consist of hexadecimal digits',
    'dots': 'a pushed path with a "." or ".." component, separated by either slash, is refused before anything is stored',
}
MERGE = 'bversion.merge_client_and_server_changes.merge_client_and_server_changes'      # pure: decided by C12
HEX = set('0123456789abcdefABCDEF')
KEYS = ('path', 'commit_message')          # stored strings that came from a client
PROBES = ('isfile', 'exists', 'lexists', 'isdir', 'getsize', 'getmtime', 'islink')
CLEAN_ROOT = ('sdb', 'obj', 'func', 'cls', 'ext', 'mod', 'glob', 'key')


def hexset(t):
    """is t a collection of hexadecimal digits only?"""
    t = canon_str(t)
    if t.op == 'call' and t.args[0] in ('set', 'frozenset', 'list', 'tuple', 'sorted') and t.args[1]: return hexset(t.args[1][0])
    if is_str(t): v = cval(t); return set(v.decode('latin1') if isinstance(v, bytes) else v) <= HEX
    if t.op == 'ext' and t.args[0] == 'string.hexdigits' or t.op == 'attr' and t.args[1] == 'hexdigits': return True
    if t.op in ('tup', 'fset', 'flist') and all(isinstance(x, T) for x in t.args[0]): return all(hexset(x) for x in t.args[0])
    return False


def charset(t, x):
    """is t the collection of the characters of x (or x itself)?"""
    t = canon_str(t)
    if t.op == 'call' and t.args[0] in ('set', 'frozenset', 'list', 'tuple', 'sorted') and t.args[1]: return charset(t.args[1][0], x)
    return t is x


def hexpattern(p):
    """does the regular expression accept hexadecimal digits only?"""
    try:
        from re import _parser
        def ok(items):
            for op, av in items:
                n = str(op)
                if n == 'LITERAL':
                    if chr(av) not in HEX: return False
                elif n == 'IN':
                    for o, a in av:
                        if str(o) == 'LITERAL' and chr(a) in HEX: continue
                        if str(o) == 'RANGE' and all(chr(i) in HEX for i in range(a[0], a[1] + 1)): continue
                        if str(o) == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT': continue
                        return False
                elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                    if not ok(av[2]): return False
                elif n == 'SUBPATTERN':
                    if not ok(av[3]): return False
                elif n == 'BRANCH':
                    if not all(ok(b) for b in av[1]): return False
                elif n != 'AT': return False
            return True
        return ok(_parser.parse(p))
    except Exception: return False


def anchored(p): return p.endswith('$') or p.endswith('\\Z') or p.endswith('\\z')


def checked(st, x):
    """is the string x known to consist of hexadecimal digits?"""
    x = canon_str(x)
    for a, v in st.facts.items():
        if v not in (True, False) or not mentions(a, x): continue
        if v is True and a.op == 'cmp' and a.args[0] in ('le', 'lt') and charset(a.args[1], x) and hexset(a.args[2]): return True
        if v is True and a.op == 'cmp' and a.args[0] in ('ge', 'gt') and charset(a.args[2], x) and hexset(a.args[1]): return True
        for y in subterms_c(a):
            if y.op == 'meth' and y.args[1] == 'issubset' and charset(y.args[0], x) and y.args[2] and hexset(y.args[2][0]) and v is True: return True
            if y.op == 'meth' and y.args[1] == 'issuperset' and hexset(y.args[0]) and y.args[2] and charset(y.args[2][0], x) and v is True: return True
            if y.op == 'bin' and y.args[0] == 'sub' and charset(y.args[1], x) and hexset(y.args[2]) and v is False: return True
            if y.op == 'meth' and y.args[1] == 'difference' and charset(y.args[0], x) and y.args[2] and hexset(y.args[2][0]) and v is False: return True
            if y.op == 'meth' and y.args[1] == 'strip' and canon_str(y.args[0]) is x and y.args[2] and hexset(y.args[2][0]):
                if a.op == 'cmp' and v is True and any(is_str(z) and not cval(z) for z in a.args[1:]) or a.op in ('truthy', 'nonempty') and v is False: return True
            f = pat = s = None
            if y.op == 'call' and y.args[0] in ('re.fullmatch', 're.match') and len(y.args[1]) >= 2: f, (pat, s) = y.args[0][3:], y.args[1][:2]
            if y.op == 'meth' and y.args[1] in ('fullmatch', 'match') and y.args[0].op == 'call' and y.args[0].args[0] == 're.compile' and y.args[2]: f, pat, s = y.args[1], y.args[0].args[1][0], y.args[2][0]
            if f and canon_str(s) is x and is_str(pat) and isinstance(cval(pat), str) and hexpattern(cval(pat)) and (f == 'fullmatch' or anchored(cval(pat))):
                if a.op in ('truthy', 'nonempty') and v is True or a.op == 'cmp' and NONE in a.args[1:] and v is False or a is y and v is True: return True
        if a.op == 'exists' and v is False:          # no character outside the digits
            for b, w in a.args[0]:
                if w is False and b.op == 'in' and b.args[0].op == 'elem' and charset(b.args[0].args[0], x) and hexset(b.args[1]): return True
    for u in st.univ:
        for b, w in (u[1] if isinstance(u, tuple) and len(u) > 1 and isinstance(u[1], (tuple, frozenset)) else ()):
            if isinstance(b, T) and b.op == 'in' and w is True and b.args[0].op == 'elem' and charset(b.args[0].args[0], x) and hexset(b.args[1]): return True
    return False


def taint(t, st, seen=None):
    """a client-supplied string the value t is built from, or None"""
    seen = seen if seen is not None else {}
    if not isinstance(t, T): return None
    if t in seen: return seen[t]
    seen[t] = None
    r = seen[t] = taint1(t, st, seen)
    return r


def taint1(t, st, seen):
    o = t.op
    if o == 'const': return None
    c = canon_str(t)
    if rooted(c) is not None:
        x = c
        while isinstance(x, T) and x is not REQ:          # a part of a checked string is as good as the string
            if x is ADDR or checked(st, x): return None
            x = x.args[1][0] if x.op == 'call' else x.args[2] if x.op == 'fresh' else x.args[0]
        return c
    if checked(st, c): return None
    if o == 'sub':
        if is_str(t.args[1]) and cval(t.args[1]) in KEYS and stored(t.args[0]): return t
        return taint(t.args[0], st, seen)
    if o == 'key': return t if stored(t.args[0]) else taint(t.args[0], st, seen)
    if o in ('rows', 'row1', 'content', 'sdb', 'func', 'cls', 'ext', 'mod', 'glob', 'obj', 'hash_file', 'sym', 'mix'): return None
    if o == 'call' and (t.args[0] in ('hash_file', 'os.listdir', 'len', 'int', 'hash', 'build_dir_tree') or str(t.args[0]).startswith(('rec:', 'hashlib.'))): return None
    if o == 'meth' and t.args[1] in ('hexdigest', 'digest', 'hex'): return None
    if o == 'fresh' and t.args[0] in ('open', 'io.open', 'hashlib.sha256'): return None
    if o == 'slice': return taint(t.args[0], st, seen)
    for a in sub_values(t.args):
        r = taint(a, st, seen)
        if r is not None: return r
    return None


def sub_values(args):
    for a in args:
        if isinstance(a, T): yield a
        elif isinstance(a, (tuple, frozenset)): yield from sub_values(a)


def rooted(t):
    """t is (part of) the client's request"""
    x = t
    while x.op in ('attr', 'sub', 'slice', 'meth', 'elem', 'key', 'call', 'fresh', 'view'):
        if x is REQ: return t
        if x.op == 'call':
            if x.args[0] in ('json.loads', 'json.load', 'str', 'bytes') and x.args[1]: x = x.args[1][0]; continue
            return None
        if x.op == 'fresh':
            if x.args[0].startswith('.') and len(x.args) > 2: x = x.args[2]; continue
            return None
        x = x.args[0]
    return t if x is REQ else None


def stored(t):
    """a row or stored document, whose strings may come from a client"""
    x = t
    while isinstance(x, T):
        if x.op in ('rows', 'row1', 'content'): return True
        if x.op == 'call':
            if x.args[0] in ('json.loads', 'json.load', 'flatten_dir_tree', 'read_dir_tree', 'list', 'dict', 'sorted', 'reversed') and x.args[1]: x = x.args[1][0]; continue
            return str(x.args[0]).startswith('rec:') and False
        if x.op in ('sub', 'elem', 'key', 'view', 'slice', 'meth', 'attr'): x = x.args[0]; continue
        return False
    return False


def digits(t): return is_str(t) and len(cval(t)) > 5 and (hexset(t) or isinstance(cval(t), str) and hexpattern(cval(t)))


def asks(t):
    """is the atom about a string of the request, not about something looked up under it?"""
    if isinstance(t, (tuple, frozenset)): return any(asks(x) for x in t)
    if not isinstance(t, T) or t.op in ('content', 'rows', 'row1', 'path', 'mix'): return False
    return t is REQ or any(asks(x) for x in t.args)


class M(StoreMon):
    def relevant(self, atom):
        r = self._rc.get(atom)
        if r is None: r = self._rc[atom] = mentions(atom, REQ) and any(digits(x) for x in subterms_c(atom)) and asks(atom)
        return r

    def paths(self, ev):
        for e in model.effects(ev):
            if e[0] in ('hwrite',): continue
            for p in path_value(ev, e): yield e[0], p
        if ev.kind == 'call' and ev.name.startswith('os.path.') and ev.name.split('.')[-1] in PROBES and ev.args: yield 'probe', ev.args[0]
        p = served_file(ev)
        if p is not None: yield 'serve', p
        if ev.kind == 'sql' and ev.sql is not None and ev.recv.op == 'sdb': yield 'database', ev.recv.args[0]

    def event(self, ev, st):
        for what, p in self.paths(ev):
            self.rep.ob('paths', '%s %s' % (ev.func, what))
            x = taint(p, st)
            if x is not None:
                self.rep.violate('paths', ev.loc, ev.func, 'route %s: %s of a path built from the client-supplied %s, which was not checked to be hexadecimal: %s' % (self.route, what, show(x)[:80], show(p)[:160]), st, key='%s:%s' % (ev.func, what))
        return st


# ---------------------------------------------------------------- pushed paths with dots
class Dots(Mon):
    def __init__(self, rep): super().__init__(rep); self.path = None; self.hits = []

    def rel(self, t): return t is self.path or t is header('path')

    def event(self, ev, st):
        eff = [e for e in model.effects(ev) if e[0] in ('openw', 'copy', 'link', 'rename', 'remove', 'rmdir', 'rmtree')]
        if eff or ev.kind == 'sql' and ev.sql is not None and ev.sql.verb in ('insert', 'update', 'delete', 'replace') and ev.sql.table == 'active_commit_changes':
            und = [a for a in st.facts if any(x in LEAVES for x in subterms_c(a))]
            if not und and ev.loc not in [h[0] for h in self.hits]: self.hits.append((ev.loc, ev.func, eff[0][0] if eff else ev.sql.verb, st))
        return st


A = sym('#first', None, True)
B = sym('#last', None, True)
LEAVES = {A, B}


def forms():
    """paths with one '.' or '..' component in every kind of position, between either kind of slash"""
    for dot in ('..', '.'):
        for a in ('/', '\\'):
            for b in ('/', '\\'):
                for whole in ('sAsDtB', 'AsDtB', 'DtB', 'sDtB', 'sAsD', 'sD', 'D', 'AsD', 'sAtsDtBs', 'sAsDtDtB'):
                    yield whole, {'s': const(a), 't': const(b), 'D': const(dot)}, dot


def build(whole, m, ab):
    acc = const('')
    for c in whole: acc = cat(acc, m[c] if c in m else ab[c])
    return acc


def check_dots(rep, eng):
    done = set()
    for whole, m, dot in forms():
        path = build(whole, m, {'A': A, 'B': B})
        if path in done: continue
        done.add(path)
        for ab in ({'A': A, 'B': B}, {'A': const('some'), 'B': const('thing')}):
            path = build(whole, m, ab)
            d = Dots(rep); d.path = path; eng.mon = d
            st = eng.base.setheap(HDR, H(DICT, ((const('path'), path),), (), HDR))
            run_handler(eng, 'push_file', handlers(eng)['push_file'], st)
            rep.ob('dots', 'push_file ' + show(path))
            if d.hits:
                loc, func, what, s = d.hits[0]
                rep.violate('dots', loc, func, 'push_file goes on to %s for the pushed path %s, which has a "%s" component' % (what, show(path), dot), s, key='dots:' + dot)
                break


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    eng = make_engine(intr=dict(model.READ, **storage.SUMMARY, **{MERGE: opaque('merge')})); setup_alias(eng)
    m = M(rep, config(eng)); m.rules = set(RULES)
    run_routes(rep, m, eng, sorted(handlers(eng)), tier)
    check_dots(rep, eng)
    return [eng]
