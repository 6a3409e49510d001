"""C05: the head moves atomically and only to a completely stored commit."""
from .store import *

RULES = {
    'head-rename': 'the head is only ever replaced by renaming a completely written and closed file of the repository over it',
    'head-stored': 'the new head names a commit object that is already stored',
    'tree-stored': 'that commit names a tree stored before it, and every tree is stored after its sub-trees',
    'cleanup-last': 'the working state of the commit is discarded only after the head was replaced',
    'answer': 'a successful answer to finishing a commit names the head that was made current',
    'content-first': 'a file is recorded as part of a commit only once its content object is stored',
}


class M(StoreMon):
    def head(self, ev, op, src, dst, st):
        self.ok('head-rename', '%s %s' % (ev.func, ev.loc))
        v = self.complete(st, src) if op == 'rename' and src is not None else None
        if op != 'rename': self.bad('head-rename', ev, st, 'the head is changed by %s instead of an atomic rename' % op); return st
        if self.is_head(src): self.bad('head-rename', ev, st, 'the head is moved away'); return st
        if not self.inrepo(src): self.bad('head-rename', ev, st, 'the new head is moved from outside the repository: %s' % show(src)[:100])
        if v is None: self.bad('head-rename', ev, st, 'the file renamed over the head is not known to be completely written and closed'); return st
        if st.has(('cleaned',)): self.bad('cleanup-last', ev, st, 'the head is replaced after the working state of the commit was discarded')
        self.ok('cleanup-last', ev.func)
        self.ok('head-stored', ev.func); self.ok('tree-stored', ev.func)
        for x in alts(v):
            d = document(x)
            if d is None or fget(d, 'type') is None or fget(d, 'type') is not const('commit'):
                self.bad('head-stored', ev, st, 'the new head does not name a commit object written here: %s' % show(x)[:120]); continue
            if not self.stored(st, x): self.bad('head-stored', ev, st, 'the head is replaced before the commit object it names is stored')
            r = fget(d, 'tree_root')
            if r is None or not self.tree(st, r): self.bad('tree-stored', ev, st, 'the head is replaced although the tree of the commit is not known to be stored: %s' % (show(r)[:160] if r is not None else 'no tree'))
            st = st.mark(('moved', x))
        return st

    def tree(self, st, r, depth=0):
        for x in alts(r):
            if x.op == 'call' and x.args[0].startswith('rec:'): self.recs.add(x.args[0][4:]); continue
            d = document(x)
            if d is None or not self.stored(st, x): return False
            sub = fget(d, 'dirs')
            if sub is None or sub.op != 'fdict': return False
            if depth < 3 and not all(self.tree(st, v, depth + 1) for k, v in list(sub.args[0]) + [(a, b) for a, b in sub.args[1]]): return False
        return True

    recs = set()

    def object(self, ev, op, src, dst, o, st):
        if op == 'rename' and o[1] is not None: st = st.mark(('pub', o[0], o[1]))
        return st

    def db(self, ev, st):
        if ev.kind == 'sql' and ev.sql is not None and self.inrepo(ev.recv):
            q = ev.sql
            if q.table in PENDING and q.verb == 'delete' and not q.where and (q.table != 'active_commit_changes' or self.route == 'commit'): st = st.mark(('cleaned',))
            if q.table == 'active_commit_changes' and q.verb in ('insert', 'update') and self.route == 'push_file':
                vals = dict(zip(q.cols, q.values)) if q.verb == 'insert' else dict(q.sets)
                self.ok('content-first', ev.func)
                h = vals.get('hash')
                if h is None or not self.stored(st, h, 'files'): self.bad('content-first', ev, st, 'a file is recorded in the commit before its content object is stored')
        return st

    def on_return(self, f, st, v):
        self.rets.setdefault(f.qual, []).append((st, v)); return st
    rets = {}


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    eng = make_engine(intr=dict(model.READ, **storage.SUMMARY)); setup_alias(eng)
    m = M(rep, config(eng)); m.rules = set(RULES); m.recs = set(); m.rets = {}

    def after(route, st, v):
        if route != 'commit' or response_status(st, v) == 'fail': return
        hd = response_headers(st, v)
        h = hd.get(const('head')) if hd is not None else None
        if h is None: return
        rep.ob('answer', 'route commit')
        for x in alts(h):
            if st.has(('moved', x)): continue
            if any(y[0] == 'moved' for y in st.marks) or not (is_const(x) or x.op == 'content' and m.is_head(x.args[0])):
                m.bad('answer', At('bversion/server.py', 'commit'), st, 'finishing a commit answers with a head that was not made current: %s' % show(x)[:120])
    run_routes(rep, m, eng, ('commit', 'push_file', 'begin_commit', 'delete_files'), tier, after)
    # a recursive call answers with what the function returns: decided once for the function
    for q in m.recs:
        for st, v in m.rets.get(q, []):
            rep.ob('tree-stored', q)
            if not m.tree(st, v): m.bad('tree-stored', At(q, q.split('.')[-1]), st, 'a sub-tree may not be stored before the tree that names it')
    return [eng]
