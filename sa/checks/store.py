"""Monitor shared by the repository-store checks (C05-C07): objects published, logged, removed; head replaced."""
from ..framework import *
from ..server_env import *
from .. import storage
from ..storage import *

PENDING = ('active_commit_changes', 'gc_log', 'active_commit_exists')


def alts(t):
    t = canon_str(t)
    if t.op == 'phi': return [y for x in t.args[1] for y in alts(x)]
    return [t]


def fget(fd, key):
    """value of a constant key of a frozen dictionary term"""
    if fd is None or fd.op != 'fdict': return None
    for k, v in fd.args[0]:
        if k is const(key): return v
    return None


def document(h):
    """the json document (fdict) whose hash `h` is, or None"""
    d = sha256_of(h)
    if d is not None and d.op == 'call' and d.args[0] == 'json.dumps' and d.args[1] and d.args[1][0].op == 'fdict': return d.args[1][0]
    return None


def is_gcrow(t, col):
    t = canon_str(t)
    return t.op == 'sub' and t.args[1] is const(col) and any(x.op in ('rows', 'row1') and x.args[1] == 'gc_log' for x in subterms_c(t.args[0]))


class StoreMon(FileTrack, Mon):
    route = ''

    def __init__(self, rep, cfg): super().__init__(rep); self.cfg = cfg; self.rules = set()

    def rel(self, t):
        return t.op == 'call' and t.args[0] in ('os.path.isfile', 'os.path.exists', 'os.path.lexists') or t.op in ('rows', 'row1') and t.args[1] in ('gc_log',) \
            or t.op == 'content' or t is header('mode')

    def bad(self, rule, ev, st, msg, key=None):
        if rule in self.rules: self.rep.violate(rule, ev.loc, ev.func, msg, st, key=key or '%s:%s' % (rule, ev.func))

    def ok(self, rule, what):
        if rule in self.rules: self.rep.ob(rule, what)

    def inrepo(self, t): return bool(repo_keys(t, self.cfg))

    def is_head(self, p):
        q = path_parts(p)
        return len(q) > 1 and is_const(q[-1]) and cval(q[-1]) == 'head' and self.inrepo(p) and all(not is_const(c) for c in q[:-1])

    def stored(self, st, h, kind='index'):
        """is the object named h in the store on this path?"""
        for x in alts(h):
            if x.op == 'call' and x.args[0].startswith('rec:'): continue
            if st.has(('pub', kind, x)): continue
            if any(self.names(a, x, kind) for a, v in st.facts.items() if v is True): continue
            return False
        return True

    def names(self, atom, h, kind):
        for x in subterms_c(atom):
            if x.op == 'call' and x.args[0] in ('os.path.isfile', 'os.path.exists', 'os.path.lexists'):
                o = obj_path(x.args[1][0])
                if o and o[1] is h and o[0] == kind: return True
        return False

    def absent(self, st, h, kind):
        for a, v in st.facts.items():
            if v is False and a.op in ('truthy', 'call') and self.names(a, h, kind): return True
        return False

    def event(self, ev, st):
        for e in model.effects(ev): st = self.effect(ev, e, st)
        st = self.db(ev, st)
        st = self.track(ev, st)
        return self.moved(ev, st)

    # ---- file system
    def effect(self, ev, e, st):
        op = e[0]
        if op in ('openw', 'copy', 'link', 'rename', 'remove', 'rmdir', 'rmtree'):
            dst = e[2] if op in ('copy', 'link', 'rename') else e[1]
            src = e[1] if op in ('copy', 'link', 'rename') else None
            if self.is_head(dst) or op == 'rename' and self.is_head(src): st = self.head(ev, op, src, dst, st)
            o = obj_path(dst)
            if o and self.inrepo(dst): st = self.object(ev, op, src, dst, o, st)
            o = obj_path(src) if src is not None else None
            if o and op == 'rename' and self.inrepo(src): self.bad('names', ev, st, 'an object is moved out of the store: %s' % show(src)[:120])
        return st

    def head(self, ev, op, src, dst, st): return st
    def object(self, ev, op, src, dst, o, st): return st
    def db(self, ev, st): return st


class At:
    def __init__(self, loc, func): self.loc, self.func = loc, func


def run_routes(rep, mon, eng, names, tier, after=None):
    hs = handlers(eng)
    for n in names:
        if n not in hs: raise AnalysisBroken('route %s is not registered' % n)
        eng.mon = mon; mon.route = n; mon.raises = tier == 'thorough'
        rets, exc = run_handler(eng, n, hs[n])
        if after:
            for st, v in rets: after(n, st, v)
