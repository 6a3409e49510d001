"""Shared vocabulary of the repository-store checks: object paths, content of freshly written files, atomic publication."""
from .terms import *
from .state import *
from . import model

TREE = 'bversion.storage.versioned_storage.versioned_storage.'


def i_build_dir_tree(eng, st, args, kw, node):
    """build_dir_tree(files): opaque here, decided on its own by C08"""
    f = args[-1] if args else next(iter(kw.values()))
    return [(st, mk('call', 'build_dir_tree', (f,), ()))]


def i_flatten(eng, st, args, kw, node):
    return [(st, mk('call', 'flatten_dir_tree', (args[-1],), ()))]


def i_read_tree(eng, st, args, kw, node):
    a = args[-1] if args else next(iter(kw.values()))
    return [(st, mk('call', 'read_dir_tree', (a,), ()))]


SUMMARY = {TREE + 'build_dir_tree': i_build_dir_tree}
TREE_READ = {TREE + 'flatten_dir_tree': i_flatten, TREE + 'read_dir_tree': i_read_tree}


def obj_path(p):
    """(store directory, hash term, root components) if p is <root>/(index|files)/<H[:2]>/<H[2:]>; (dir, None, root) if it lies
    below a store directory in any other shape; None otherwise"""
    q = path_parts(p)
    for i, c in enumerate(q):
        if is_str(c) and cval(c) in ('index', 'files') and i > 0:
            root = q[:i]; rest = q[i + 1:]
            if not rest: return None
            if len(rest) == 2 and all(x.op == 'slice' for x in rest):
                a, b = rest
                if a.args[0] is b.args[0] and a.args[1] in (NONE, const(0)) and b.args[2] is NONE and a.args[2] is b.args[1] and is_const(a.args[2]) and cval(a.args[2]) == 2:
                    return (cval(c), canon_str(a.args[0]), root)
            if len(rest) == 1: return (cval(c), None, root) if not (rest[0].op == 'slice') else None
            return (cval(c), None, root)
    return None


def sha256_of(t):
    """the bytes a hash term is the hexadecimal SHA-256 of (a term), or None"""
    t = canon_str(t)
    if t.op == 'meth' and t.args[1] == 'hexdigest':
        o = t.args[0]
        if o.op in ('call', 'fresh') and o.args[0] == 'hashlib.sha256':
            a = o.args[1] if o.op == 'call' else o.args[2:]
            if len(a) == 1: return canon_str(a[0])
        if o.op == 'call' and o.args[0] == 'hashlib.new' and len(o.args[1]) == 2 and is_str(o.args[1][0]) and str(cval(o.args[1][0])).lower() in ('sha256', 'sha-256'): return canon_str(o.args[1][1])
    return None


def hash_of_file(t):
    t = canon_str(t)
    return path_parts_path(t.args[1][0]) if t.op == 'call' and t.args[0] == 'hash_file' else None


def path_parts_path(p): return mkpath([p])


class FileTrack:
    """typestate of files written by the code: what was written, and whether the file is complete (closed)"""

    def track(self, ev, st):
        if ev.kind == 'exit' or ev.kind == 'meth' and ev.name in ('close', '__exit__'):
            h = ev.recv
            if any(m[0] == 'fopen' and m[2] is h for m in st.marks): st = st.mark(('fclosed', h))
        if ev.kind == 'meth' and ev.name == 'seek' and any(m[0] == 'fopen' and m[2] is ev.recv for m in st.marks): st = st.mark(('fbad', ev.recv))
        for e in model.effects(ev):
            if e[0] == 'openw':
                p = mkpath([e[1]]); st = self.forget(st, p)
                st = st.unmark(*[m for m in st.marks if m[0] in ('wrote', 'fclosed', 'fbad') and m[1] is e[2]]).mark(('fopen', p, e[2]))
                if e[3:] and e[3]: st = st.mark(('fbad', e[2]))
                st = st.unmark(('hashed', p))
            elif e[0] == 'hwrite':
                old = [m for m in st.marks if m[0] == 'wrote' and m[1] is e[1]]
                v = canon_str(e[2]) if not old else mk('sym', 'several writes', None, False)
                st = st.unmark(*old).mark(('wrote', e[1], v))
                st = st.unmark(*[m for m in st.marks if m[0] == 'hashed' and any(x[0] == 'fopen' and x[2] is e[1] and x[1] is m[1] for x in st.marks)])
            elif e[0] == 'hash':
                p = mkpath([e[1]])
                opn = [m for m in st.marks if m[0] == 'fopen' and m[1] is p]
                if all(st.has(('fclosed', m[2])) for m in opn): st = st.mark(('hashed', p))
        return st

    def moved(self, ev, st):
        """call after judging: the source of a rename is gone"""
        for e in model.effects(ev):
            if e[0] == 'rename': st = self.forget(st, mkpath([e[1]]))
            if e[0] == 'remove': st = self.forget(st, mkpath([e[1]]))
        return st

    def forget(self, st, p):
        return st.unmark(*[m for m in st.marks if m[0] == 'fopen' and m[1] is p], ('hashed', p))

    def complete(self, st, p):
        """value of the completely written, closed file p: a term, None if it is not known to be complete"""
        p = mkpath([p])
        for m in st.marks:
            if m[0] == 'fopen' and m[1] is p:
                if not st.has(('fclosed', m[2])) or st.has(('fbad', m[2])): return None
                w = [x for x in st.marks if x[0] == 'wrote' and x[1] is m[2]]
                return w[0][2] if w else const(b'')
        return None


def exists_facts(st, p, value):
    """is the (non-)existence of path p established?"""
    p = mkpath([p])
    for a, v in st.facts.items():
        if v is not value: continue
        for x in subterms_c(a):
            if x.op == 'call' and x.args[0] in ('os.path.isfile', 'os.path.exists', 'os.path.lexists') and mkpath([x.args[1][0]]) is p: return True
    return False
