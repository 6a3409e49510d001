"""C07: rolling back an abandoned commit undoes exactly what it added."""
from .store import *

RULES = {
    'logged-first': 'every object is logged, and the log committed, before the object is stored',
    'log-only-new': 'only objects that are not in the store yet are logged',
    'log-type': 'the log records which store an object is in, and which object is the commit',
    'only-logged': 'a rollback removes only objects named by the log, from the store the log records',
    'head-safe': 'a rollback removes nothing unless no logged commit is the head',
    'forget-first': 'the list of uploaded files is durably forgotten before the first object is removed',
    'all-logged': 'the log is only discarded once every logged object was removed, or the logged commit is known to be the head',
    'tolerant': 'an object that is already gone does not stop the rollback',
    'no-head': 'aborting a commit never changes the head',
    'ends-clean': 'aborting a commit durably ends with no pending changes, no log and no unfinished commit',
}
OPTIONAL = ('no-head',)
MODE = mk('cmp', 'eq', *sorted((header('mode'), const('commit')), key=lambda x: x.id))


def gcrows(t): return [x for x in subterms_c(t) if x.op in ('rows', 'row1') and x.args[1] == 'gc_log']


class M(StoreMon):
    tagraise = ('os.remove', 'os.unlink', 'os.rmdir')

    def aborting(self, st): return self.route == 'begin_commit' or self.route == 'commit' and st.facts.get(MODE) is False

    # ---- objects
    def head(self, ev, op, src, dst, st):
        if self.aborting(st): self.bad('no-head', ev, st, 'the head is changed (%s) although the commit is not being finished' % op)
        return st.mark(('moved',))

    def object(self, ev, op, src, dst, o, st):
        kind, h, root = o
        if op == 'rename' and h is not None:
            self.ok('logged-first', '%s %s' % (ev.func, kind))
            types = [m[1] for m in st.marks if m[0] == 'durable' and m[2] is h]
            if not types: self.bad('logged-first', ev, st, 'an object is stored before it was durably logged')
            self.ok('log-type', '%s %s' % (ev.func, kind))
            d = document(h); dt = fget(d, 'type') if d is not None else None
            for t in types:
                v = cval(t) if is_str(t) else None
                if kind == 'files' and v != 'file' or kind == 'index' and (v in ('file', None) or dt is not None and (v == 'commit') != (dt is const('commit'))):
                    self.bad('log-type', ev, st, 'an object of type %s in the %s store is logged as %s' % (show(dt) if dt is not None else '?', kind, show(t)))
        if op in ('remove', 'rmdir', 'rmtree'): st = self.removal(ev, op, dst, kind, h, st)
        return st

    def effect(self, ev, e, st):
        st = super().effect(ev, e, st)
        if e[0] in ('remove', 'rmtree') and self.inrepo(e[1]) and not obj_path(e[1]) and (gcrows(e[1]) or self.aborting(st) and not self.tmp(e[1])):
            self.bad('only-logged', ev, st, 'aborting a commit removes something that is not a logged object: %s' % show(e[1])[:140])
        if e[0] in ('rmdir',) and self.inrepo(e[1]) and obj_path(e[1]) is None: pass
        return st

    def tmp(self, p):
        q = path_parts(p)
        return is_const(q[-1]) and cval(q[-1]) in self.temps

    temps = ('tmp_file', 'index_tmp', 'new_head')

    def removal(self, ev, op, p, kind, h, st):
        if op == 'rmdir': return st
        self.ok('only-logged', '%s %s' % (ev.func, kind)); self.ok('head-safe', ev.func); self.ok('forget-first', ev.func)
        if op == 'rmtree' or h is None or not is_gcrow(h, 'item_hash'):
            if self.route in ('commit', 'begin_commit', 'push_file', 'delete_files'): self.bad('only-logged', ev, st, '%s of a stored object that is not taken from the log: %s' % (op, show(p)[:140]))
            return st
        row = canon_str(h).args[0]
        t = eqatom(mk('sub', row, const('item_type')), const('file'))
        isfile = st.facts.get(t)
        if isfile is not (kind == 'files'): self.bad('only-logged', ev, st, 'a logged object is removed from the %s store without its recorded type saying that it is there' % kind)
        if not self.head_safe(st, row): self.bad('head-safe', ev, st, 'a logged object is removed although a logged commit may be the head')
        if not st.has(('forgotten',)): self.bad('forget-first', ev, st, 'an object is removed before the list of uploaded files was durably forgotten')
        return st.mark(('removed', row))

    def head_eq(self, a):
        """is atom a 'row[item_hash] == head'?  returns the row"""
        if a.op == 'cmp' and a.args[0] == 'eq':
            for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                x, y = canon_str(x), canon_str(y)
                if is_gcrow(x, 'item_hash') and all(z.op == 'content' and self.is_head(z.args[0]) or is_const(z) for z in alts(y)): return x.args[0]
        return None

    def weak_set(self, conds):
        """conditions at most as strong as {type == commit, hash == head} of one row"""
        rows = {self.head_eq(a) for a, v in conds if v is True} - {None}
        def typ(a, what): return a.op == 'cmp' and a.args[0] == 'eq' and const(what) in a.args[1:] and any(is_gcrow(x, 'item_type') for x in a.args[1:])
        return len(rows) <= 1 and all(v is True and (self.head_eq(a) is not None or typ(a, 'commit')) or v is False and typ(a, 'file') for a, v in conds)

    def head_safe(self, st, row):
        for a, v in st.facts.items():
            if a.op == 'exists' and v is False and self.weak_set(a.args[0]): return True
            if a.op == 'in' and v is False:
                x = canon_str(a.args[0])
                if (x.op == 'content' and self.is_head(x.args[0]) or is_const(x)) and gcrows(a.args[1]) and not any(y.op in ('cmp',) for y in subterms_c(a.args[1])): return True
        return False

    def head_named(self, st):
        for a, v in st.facts.items():
            if v is True and (a.op == 'exists' and any(self.head_eq(x) is not None and w is True for x, w in a.args[0]) or self.head_eq(a) is not None): return True
            if a.op == 'in' and v is True and gcrows(a.args[1]) and canon_str(a.args[0]).op == 'content': return True
        return any(is_gcrow(a, 'item_hash') and canon_str(b).op == 'content' or is_gcrow(b, 'item_hash') and canon_str(a).op == 'content' for a, b in st.eqs.items())

    # ---- database and iteration
    def db(self, ev, st):
        if ev.kind == 'attempt' and ev.name in ('os.remove', 'os.unlink'):
            o = obj_path(ev.args[0])
            if o and o[1] is not None and is_gcrow(o[1], 'item_hash'): st = st.mark(('removed', canon_str(o[1]).args[0]))
        if ev.kind == 'each' and gcrows(ev.args[0]): return st.unmark(('removed', ev.args[1]))
        if ev.kind == 'eachend' and gcrows(ev.args[0]):
            if not st.has(('removed', ev.args[1])): st = st.mark(('skipped',))
            return st.unmark(('removed', ev.args[1])).mark(('undoing',))
        if ev.kind == 'iterend' and gcrows(ev.args[0]):
            return (st.mark(('undone',)) if st.has(('undoing',)) and not st.has(('skipped',)) else st).unmark(('undoing',), ('skipped',))
        if ev.kind == 'meth' and ev.name == 'commit' and self.inrepo(ev.recv):
            for m in list(st.marks):
                if m[0] == 'logged': st = st.unmark(m).mark(('durable',) + m[1:])
                if m[0] == 'cleared': st = st.mark(('dclear', m[1]))
                if m == ('cleared', 'active_commit_changes'): st = st.mark(('forgotten',))
            return st
        if ev.kind == 'sql' and ev.sql is not None and self.inrepo(ev.recv):
            q = ev.sql
            if q.table in PENDING and q.verb == 'delete' and not q.where:
                if q.table == 'gc_log' and not st.has(('moved',)):
                    self.ok('all-logged', ev.func)
                    empty = any(a.op == 'nonempty' and v is False and gcrows(a) for a, v in st.facts.items())
                    if not (empty or st.has(('undone',)) or self.head_named(st)): self.bad('all-logged', ev, st, 'the log is discarded although a logged object may not have been removed')
                return st.mark(('cleared', q.table))
            if q.table in PENDING and q.verb in ('insert', 'update'):
                if q.table == 'gc_log' and q.verb == 'insert':
                    vals = dict(zip(q.cols, q.values)); h, t = vals.get('item_hash'), vals.get('item_type')
                    if h is not None and t is not None:
                        h = canon_str(h); kind = 'files' if t is const('file') else 'index'
                        self.ok('log-only-new', '%s %s' % (ev.func, show(t)))
                        if not self.absent(st, h, kind): self.bad('log-only-new', ev, st, 'an object is logged without establishing that it is not in the %s store yet' % kind)
                        st = st.mark(('logged', t, h))
                if q.table == 'active_commit_exists' and q.verb == 'insert' and (st.has(('cleared', 'active_commit_exists')) or st.has(('undone',))):
                    self.clean(ev, st, 'before the next commit is begun', durable=False)
                st = st.unmark(('cleared', q.table), ('dclear', q.table), *([('forgotten',)] if q.table == 'active_commit_changes' else []))
        return st

    def clean(self, ev, st, when, durable=True):
        self.ok('ends-clean', '%s: %s' % (self.route, when))
        left = [t for t in PENDING if not st.has(('dclear' if durable else 'cleared', t))]
        if left: self.bad('ends-clean', ev, st, '%s the abandoned commit is not%s cleared: %s' % (when, ' durably' if durable else '', ', '.join(left)), key='ends-clean:' + self.route)


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    eng = make_engine(intr=dict(model.READ, **storage.SUMMARY)); setup_alias(eng)
    m = M(rep, config(eng)); m.rules = set(RULES)
    at = At('bversion/server.py', '')

    def after(route, st, v):
        at.func = route
        if response_status(st, v) == 'ok' and route == 'commit' and st.facts.get(MODE) is False: m.clean(at, st, 'when the abort is confirmed')
        if response_status(st, v) == 'fail' and route == 'begin_commit' and (st.has(('cleared', 'active_commit_exists')) or st.has(('undone',))): m.clean(at, st, 'when the request is refused')
    run_routes(rep, m, eng, ('commit', 'push_file', 'begin_commit', 'delete_files'), tier, after)
    rep.ob('no-head', 'routes commit (abort), begin_commit')
    # exceptions of the removals themselves
    hs = handlers(eng); m2 = M(rep, config(eng)); m2.rules = set(); m2.raises = True; eng.mon = m2
    for n in ('begin_commit', 'commit'):
        m2.route = n
        rets, exc = run_handler(eng, n, hs[n])
        rep.ob('tolerant', 'route ' + n)
        for st, x in exc:
            if x.op == 'exc' and any(is_str(y) and cval(y) in M.tagraise for y in subterms_c(x)):
                rep.violate('tolerant', 'bversion/server.py', n, 'a removal that fails (object already gone) stops the rollback', st, key=n)
    return [eng]
