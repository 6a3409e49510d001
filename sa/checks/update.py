"""Shared by C13, C14, C20: updates of a small working copy against a server with two revisions, in every relation between the
local and the server side of a file."""
from ..clientworld import *
from .c19 import parse

AT = ('bversion/client.py', 'update')


def hash_of(c): return const('hash of ' + show(c))
def old(p): return content('C0' + p)
def new(p): return content('C1' + p)
def mine(p): return content('mine' + p)


# path -> (content at C0, content at C1, local content); local 'same': as recorded
PULL = {'/s-new': (None, 1, None), '/d/s-ch': (0, 1, 0), '/d/e/s-new2': (None, 1, None)}
GONE = {'/s-del': (0, None, 0), '/d/never': (0, None, 'never'), '/x/y/s-del2': (0, None, 0)}
LOCAL = {'/l-ch': (0, 0, 'mine'), '/d/l-new': (None, None, 'mine'), '/l-del': (0, 0, None), '/same': (0, 0, 0)}
CONF = {'/c-cc': (0, 1, 'mine'), '/d/c-cd': (0, None, 'mine'), '/c-dc': (0, 1, None), '/d/c-new': (None, 1, 'mine')}
AGREE = {'/both-del': (0, None, None)}
BACK = {'/c-back': (0, 'back', 'mine'), '/d/c-back2': (0, 'back', None)}          # changed on the server and changed back: as recorded, but local differs


def value(p, v): return {None: None, 0: old(p), 1: new(p), 'back': old(p), 'mine': mine(p), 'never': None, 'kept': mine(p)}[v]


class Upd(ClientWorld):
    """the server of one case: `refuse` {(op, path) or op: FAIL or BROKEN}; ('download', path): the connection breaks during the transfer"""
    def __init__(self, rep):
        super().__init__(rep); self.refuse = {}; self.paths = {}; self.label = ''; self.watch = None
        self.server = Server(find_changed=self.find, pull_file=self.pull, list_files=self.list, list_changes=FAIL, begin_commit=({'status': 'ok'}, doc(fdict([('partial_commit', flist([]))]))), push_file=self.push,
                             delete_files=({'status': 'ok'}, const(b'')), commit=({'status': 'ok', 'head': 'C2'}, const(b'')))

    def i_hash(self, e, st, args, kw, node):
        p = self.one(args, kw); fs = self.fs(st)
        if p not in fs: return self.missing(e, st)
        self.fail(e, st)
        return [(st, hash_of(fs[p]))]

    def put(self, eng, st, node, fs, what):
        st = super().put(eng, st, node, fs, what)
        if self.watch: self.watch(eng, st, node)
        return st

    def end(self, e, st, node, commit):
        st = super().end(e, st, node, commit)
        if self.watch: self.watch(e, st, node)
        return st

    def changes(self, prev):
        """what the server changed since a revision: {path: (status, content)}"""
        if prev != 'C0': return {}
        out = {}
        for p, (a, b, l) in self.paths.items():
            if b == 'back': out[p] = ('changed', old(p))
            elif value(p, a) is not value(p, b): out[p] = ('new' if a is None else 'deleted' if b is None else 'changed', value(p, b) or value(p, a))
        return out

    def find(self, w, e, st, h, b):
        bad = self.refuse.get('find_changed')
        if bad: return [(st,) + tuple(bad)]
        prev = cval(h['previous_revision']) if is_str(h.get('previous_revision', NONE)) else None
        client = parse(b['client_changes']); full = is_str(h['include_unchanged']) and cval(h['include_unchanged']) not in ('0', b'0')
        sv = self.changes(prev)
        if full:
            for p, (a, b2, l) in self.paths.items():
                if p not in sv and value(p, b2) is not None: sv[p] = ('unchanged', value(p, b2))
        if not isinstance(client, dict) or any(not isinstance(v, dict) for v in client.values()): return []       # not decided
        r = {k: [] for k in ('client_push_files', 'client_pull_files', 'to_delete_on_client', 'to_delete_on_server', 'conflict_files', 'error_files', 'no_op')}
        info = lambda p: fdict([('path', p), ('hash', hash_of(sv[p][1])), ('status', sv[p][0])])
        for p in sorted(sv):
            s = sv[p][0]; c = client[p]['status'] if p in client else None
            if s == 'unchanged' and c is not None: k = {'new': 'client_push_files', 'changed': 'client_push_files', 'deleted': 'to_delete_on_server', 'unchanged': 'no_op'}[c]
            elif c in (None, 'unchanged'): k = 'to_delete_on_client' if s == 'deleted' else 'client_pull_files'
            elif c == 'deleted' and s == 'deleted': k = 'to_delete_on_client'
            else:
                r['conflict_files'].append(fdict([('client_status', 'Deleted' if c == 'deleted' else 'Changed'), ('server_status', 'Deleted' if s == 'deleted' else 'Changed'), ('file_info', info(p))])); continue
            r[k].append(info(p))
        for p in sorted(client):
            if p not in sv:
                k = {'new': 'client_push_files', 'changed': 'client_push_files', 'deleted': 'to_delete_on_server', 'unchanged': 'error_files'}[client[p]['status']]
                r[k].append(fdict([('path', p), ('status', client[p]['status'])]))
        body = doc(fdict([('head', 'C1'), ('commit_by', 'someone'), ('commit_time', 'some time'), ('commit_msg', 'some message'), ('sorted_changes', fdict([(k, flist(v)) for k, v in r.items()]))]))
        return [(st, {'status': 'ok'}, body)]

    def pull(self, w, e, st, h, b):
        p = cval(h['path']) if is_str(h.get('path', NONE)) else None
        bad = self.refuse.get(('pull_file', p)) or self.refuse.get('pull_file')
        if bad: return [(st,) + tuple(bad)]
        v = h.get('version_id', NONE); v = cval(v) if is_str(v) else None
        head = is_str(h.get('use_head', NONE)) and cval(h['use_head']) not in ('0', b'0')
        t = self.paths.get(p)
        if t is None: return [(st,) + FAIL]
        c = content('later' + p) if head else value(p, t[0]) if v == 'C0' else value(p, t[1]) if v == 'C1' else None
        if c is None: return [(st,) + FAIL]
        if self.refuse.get(('download', p)): return [(st, {'status': 'ok'}, BROKEN)]
        return [(st, {'status': 'ok', 'file_info_json': doc(fdict([('path', p), ('hash', hash_of(c)), ('status', 'new')]))}, c)]

    def push(self, w, e, st, h, b): return {'status': 'ok', 'file_info_json': doc(fdict([('path', h['path']), ('hash', hash_of(b['#file'][1])), ('status', 'new')]))}, const(b'')

    def list(self, w, e, st, h, b):
        bad = self.refuse.get('list_files')
        if bad: return [(st,) + tuple(bad)]
        head = is_str(h.get('show_head', NONE)) and cval(h['show_head']) not in ('0', b'0')
        v = 'C1' if head else cval(h['version_id']) if is_str(h.get('version_id', NONE)) else None
        i = {'C0': 0, 'C1': 1}.get(v)
        if i is None: return [(st,) + FAIL]
        fl = [(p, fdict([('path', p), ('hash', hash_of(value(p, t[i]))), ('status', 'new')])) for p, t in sorted(self.paths.items()) if value(p, t[i]) is not None]
        return [(st, {'status': 'ok', 'version_id': v}, doc(fdict([('files', fdict(fl))])))]


class Case:
    def __init__(self, rep, tier):
        self.rep = rep; self.tier = tier; self.mon = Upd(rep); self.eng = client_engine(self.mon); self.total = 0

    def begin(self, paths, pull_ignore=None, more=()):
        """the working copy and database of a client at C0"""
        m = self.mon; m.paths = dict(paths); m.times = {}; files = {}; man = {}
        for i, (p, (a, b, l)) in enumerate(sorted(m.paths.items())):
            m.times[wc(p), old(p)] = 1000.0 + i; m.times[wc(p), mine(p)] = 3000.25 + i; m.times[wc(p), new(p)] = 1500.5 + i
            c = value(p, l)
            if c is not None: files[p] = c
            if a is not None and l not in ('never', 'kept'): man[p] = (1000.0 + i, hash_of(old(p)))
        fs = setup(files, None, pull_ignore) + [(wc(p), c) for p, c in more]
        return frozenset(fs), m.rows(man)

    def go(self, label, fs, rows, answers=(), refuse=None, errors=0, argv=('update',), watch=None):
        self.total += 1; m = self.mon
        m.errors = 0; m.watch = None
        st = start(m, self.eng, fs, rows)
        m.label = label; m.refuse = refuse or {}; m.answers = tuple(const(a) for a in answers); m.errors = errors; m.watch = watch
        R, X = command(self.eng, st, *argv)
        m.errors = 0; m.watch = None
        return [s for s, _ in R], X

    def resolved(self, p, choice):
        """the content a path has to have after the update, 'keep': as it was"""
        a, b, l = self.mon.paths[p]
        sv = self.mon.changes('C0').get(p)
        local = value(p, l); changed = l == 'mine' or l is None and a is not None
        if sv is None: return local
        if changed and not (sv[0] == 'deleted' and l is None):          # conflict
            if choice == 'client': return local
        return None if sv[0] == 'deleted' else sv[1]

    def conflicts(self):
        out = []
        for p, (a, b, l) in sorted(self.mon.paths.items()):
            sv = self.mon.changes('C0').get(p); changed = l == 'mine' or l is None and a is not None
            if sv and changed and not (sv[0] == 'deleted' and l is None): out.append(p)
        return out


def differences(case, st, want, skip=()):
    """[(path, how)]: files whose content is not the wanted one"""
    now = working(st); out = []
    for p in sorted(set(want) | set(now)):
        if p in skip or p.startswith('/.bvn'): continue
        w, g = want.get(p), now.get(p)
        if w is g: continue
        a = case.mon.paths.get(p)
        if w is None: out.append((p, 'is still there' if a is None or g is value(p, a[2]) else 'is there with %s' % show(g)))
        elif g is None: out.append((p, 'is missing'))
        else: out.append((p, 'still has its earlier content' if a is not None and g is value(p, a[2]) else 'is cut short' if g is PART else 'has %s' % show(g)))
    return out
