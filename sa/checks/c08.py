"""C08: a commit records exactly the pending changes on top of its parent."""
from .store import *
from ..generic import *

RULES = {
    'parent-files': 'starting or resuming a commit takes exactly the files of the head revision as the starting point (none if there is no revision)',
    'deletions': 'every requested deletion replaces what was pending for its path, and is recorded exactly if the parent revision has the file, whatever the other deletions are',
    'additions': 'a stored upload replaces what was pending for its path, with its own content hash, as changed exactly if the parent revision has the path',
    'file-set': 'the tree of a new revision holds the parent\'s files with every pending addition, change and deletion applied, and nothing else',
    'change-log': 'the change log of a new revision lists every pending change as it was recorded',
    'lineage': 'the parent of a new revision is the head it replaces and its author is the authenticated user',
    'tree-form': 'a file list turned into a tree, stored, read back and flattened again names the same files with the same content',
    'requested': 'the files pushed and deleted are those the request names',
}
VS = 'bversion.storage.versioned_storage:versioned_storage'
BASE = sym('base')
SDB = mk('sdb', BASE, NONE)
T_ = lambda n: sym('#' + n, None, True)
P, Q, F, G, D = T_('p'), T_('q'), T_('f'), T_('g'), T_('d')
PP, QP = cat(const('/'), P), cat(const('/'), Q)
LOC = 'bversion/storage/versioned_storage.py'


def instance(eng):
    rets, exc = eng.run(eng.lookup_public(VS), [BASE], {}, eng.base, 'versioned_storage()')
    if not rets: raise AnalysisBroken('versioned_storage cannot be created')
    return rets[0]


def method(eng, st, vs, name, args, label, kw=None):
    fv = eng.attr_of(st, vs, name, None)[0][1]
    if fv.op != 'bound': raise AnalysisBroken('versioned_storage.%s is gone' % name)
    return eng.run(fv, args, kw or {}, st, label)


def with_files(st, known, generic=True):
    """active_files of the server database object: tracked entries and an arbitrary rest"""
    st, ref = mkdict(st, 'active_files', known, rest=others('~parent_files') if generic else ())
    return st.setheap(SDB, H(INST, [(const('active_files'), ref)], (), SDB, 'bversion.storage.server_db.server_db')), ref


def info(st, name, path, **kw):
    return mkdict(st, name, [('path', path)] + [(k, const(v) if isinstance(v, str) else v) for k, v in kw.items()])


def row(st, t):
    """fields of a dictionary value"""
    h = st.heap.get(t)
    if h is not None and h.kind == DICT: return {cval(k): v for k, v in h.known if is_str(k)}
    if t.op == 'fdict': return {cval(k): v for k, v in t.args[0] if is_str(k)}
    return None


class Pending(Mon):
    """typestate of the pending row of the tracked paths"""
    def __init__(self, rep): super().__init__(rep); self.tracked = (PP, QP)

    def event(self, ev, st):
        if ev.kind == 'sql' and ev.sql is not None and ev.sql.table == 'active_commit_changes':
            q = ev.sql
            w = {c: v for c, op, v in q.where if op in ('=', '==')}
            for p in self.tracked:
                if q.verb == 'delete' and not q.complex and (not q.where or set(w) == {'path'} and canon_str(w['path']) is p and len(q.where) == 1):
                    st = st.unmark(*[m for m in st.marks if m[0] in ('row', 'old') and m[1] is p]).mark(('empty', p))
                if q.verb == 'insert':
                    vals = dict(zip(q.cols, q.values))
                    if canon_str(vals.get('path', NONE)) is p:
                        fresh = st.has(('empty', p)) or q.orreplace
                        st = st.unmark(('empty', p), *[m for m in st.marks if m[0] == 'row' and m[1] is p])
                        if q.conflict == 'ignore' and not fresh: continue
                        st = st.mark(('row', p, canon_str(vals.get('hash', NONE)), vals.get('status', NONE), fresh))
                if q.verb == 'update' and 'path' in w and canon_str(w['path']) is p and not any(m[0] == 'empty' and m[1] is p for m in st.marks):
                    s = dict(q.sets); old = [m for m in st.marks if m[0] == 'row' and m[1] is p]
                    o = old[0] if old else ('row', p, None, None, False)
                    st = st.unmark(*old).mark(('row', p, canon_str(s['hash']) if 'hash' in s else o[2], s.get('status', o[3]), o[4]))
            st = st.unmark(('durable',))
        if ev.kind == 'meth' and ev.name == 'commit' and ev.recv.op in ('attr', 'sdb'): st = st.mark(('durable',))
        return st


def rows_of(st, p):
    for m in st.marks:
        if m[0] == 'row' and m[1] is p: return m
        if m[0] == 'empty' and m[1] is p: return 'empty'
    return None


def deletions(rep, eng0, tier):
    eng = make_engine(Pending(rep), intr=dict(model.READ, **storage.SUMMARY))
    st, vs = instance(eng)
    f = At(LOC, 'fs_delete')
    cases = [('%s%s' % (a, b), a, b) for a in ('+', '-') for b in ('+', '-')]
    for label, a, b in cases:
        s = st; known = []
        for ch, n, path in ((a, 'p', PP), (b, 'q', QP)):
            if ch == '+': s, i = info(s, 'parent_' + n, path, hash=T_('old_' + n), status='new'); known.append((path, i))
        s, _ = with_files(s, known)
        s, r1 = info(s, 'request_p', PP); s, r2 = info(s, 'request_q', QP)
        s, lst = mklist(s, 'requested', [r1, r2]); s = s.setheap(lst, H(LIST, [r1, r2], [(None, elem(sym('~more')), frozenset())]))
        rets, exc = method(eng, s, vs, 'fs_delete', [lst], 'fs_delete ' + label)
        done = [x for x, v in rets]
        started = [x for x, e in exc if any(m[0] in ('row', 'empty') for m in x.marks)]
        text = 'deleting two files, the first %s and the second %s in the parent revision' % tuple('is' if c == '+' else 'is not' for c in label)
        if not done or started:
            rep.violate('deletions', f.loc, f.func, text + ': the processing fails', started[0] if started else None, key=label)
        for x in done:
            rep.ob('deletions', text)
            for ch, n, path in ((a, 'p', PP), (b, 'q', QP)):
                m = rows_of(x, path)
                if m is None: rep.violate('deletions', f.loc, f.func, text + ': a deletion is not processed, what was pending for the path stays', x, key=label + n)
                elif ch == '-' and m != 'empty': rep.violate('deletions', f.loc, f.func, text + ': a deletion of a file the parent does not have is recorded', x, key=label + n)
                elif ch == '+':
                    if m == 'empty': rep.violate('deletions', f.loc, f.func, text + ': a deletion is not recorded', x, key=label + n)
                    elif not m[4]: rep.violate('deletions', f.loc, f.func, text + ': what was pending for the path is not superseded', x, key=label + n)
                    elif is_str(m[3]) and cval(m[3]) != 'deleted': rep.violate('deletions', f.loc, f.func, text + ': a deletion is recorded as %s' % show(m[3]), x, key=label + n)
            if not x.has(('durable',)): rep.violate('deletions', f.loc, f.func, text + ': the deletions are not durably recorded', x, key=label)
    return eng


def additions(rep):
    eng = make_engine(Pending(rep), intr=dict(model.READ, **storage.SUMMARY))
    st, vs = instance(eng)
    f = At(LOC, 'fs_put_from_file'); src = sym('upload')
    for inparent in (True, False):
        s = st; known = []
        if inparent: s, i = info(s, 'parent_p', PP, hash=T_('old_p'), status='new'); known = [(PP, i)]
        s, _ = with_files(s, known)
        s, fi = info(s, 'pushed', PP)
        rets, exc = method(eng, s, vs, 'fs_put_from_file', [src, fi], 'fs_put %s' % inparent)
        text = 'pushing a file the parent %s' % ('has' if inparent else 'does not have')
        for x, v in rets:
            rep.ob('additions', text)
            m = rows_of(x, PP)
            if m is None or m == 'empty': rep.violate('additions', f.loc, f.func, text + ' is not recorded', x, key=str(inparent)); continue
            if not m[4]: rep.violate('additions', f.loc, f.func, text + ': what was pending for the path is not superseded', x, key=str(inparent))
            if is_str(m[3]) and cval(m[3]) != ('changed' if inparent else 'new'): rep.violate('additions', f.loc, f.func, text + ' is recorded as %s' % show(m[3]), x, key=str(inparent))
            h = m[2]
            if h is not None and not (storage.hash_of_file(h) is mkpath([src])) and h.op != 'meth': rep.violate('additions', f.loc, f.func, text + ': the recorded hash is not that of the uploaded file: %s' % show(h)[:80], x, key=str(inparent))
            if not x.has(('durable',)): rep.violate('additions', f.loc, f.func, text + ': the change is not durably recorded', x, key=str(inparent))
        if not rets: raise AnalysisBroken('fs_put_from_file never returns')
    return eng


def begin(rep):
    """active_files after begin() is the flattened tree of the head"""
    H0, H1 = T_('root_tree'), T_('sub_tree')
    eng = make_engine(Mon(rep), intr=dict(model.READ)); eng.reclimit = 4; eng.unroll = 24
    f = At(LOC, 'begin')
    V = 'bversion.storage.versioned_storage.versioned_storage.'
    asked = []

    def read(e, st, args, kw, node):
        h = args[1] if len(args) > 1 else kw['object_hash']; typ = args[2] if len(args) > 2 else kw.get('expected_object_type')
        k = 'read:' + show(h)[:40]
        if h is H0 or h is H1:
            st, i = info(st, 'tree_file' + k, sym('stored_name'), hash=F if h is H0 else G, status='new')
            st, fs = mkdict(st, 'tree_files' + k, [(P if h is H0 else Q, i)])
            st, ds = mkdict(st, 'tree_dirs' + k, [(D, H1)] if h is H0 else [])
            return [mkdict(st, 'tree' + k, [('type', 'tree'), ('files', fs), ('dirs', ds)])]
        asked.append(h)
        return [mkdict(st, 'commit' + k, [('type', 'commit'), ('tree_root', H0), ('parent', sym('parent')), ('changes', sym('changes'))])]
    eng.intr[V + 'read_index_object'] = read
    st, vs = instance(eng)
    want = {PP: F, cat(cat(cat(const('/'), D), const('/')), Q): G}
    if 'get_head' not in eng.prog.classes[VS.replace(':', '.')].methods: raise AnalysisBroken('versioned_storage.get_head is gone')
    for resume, head in ((False, const('root')), (False, T_('head')), (True, const('root')), (True, T_('head'))):
        eng.intr[V + 'get_head'] = lambda e, st, args, kw, node: [(st, head)]
        text = '%s a commit %s' % ('resuming' if resume else 'beginning', 'on top of the head revision' if not is_const(head) else 'without a revision')
        del asked[:]
        rets, exc = method(eng, st, vs, 'begin', [sym('user'), sym('ip'), sym('token')], text, {'resume': const(True)} if resume else {})
        if not rets: rep.violate('parent-files', f.loc, f.func, text + ' fails', exc[0][0] if exc else None, key=text)
        for x, v in rets:
            rep.ob('parent-files', text)
            h = x.heap.get(SDB); ref = h.get(const('active_files')) if h is not None else None
            if ref is None: rep.violate('parent-files', f.loc, f.func, text + ' does not take over the files of the parent', x, key=text); continue
            fh = x.heap.get(ref)
            if fh is None or fh.base is not None: continue
            got = {k: (row(x, i) or {}).get('hash') for k, i in fh.known}
            if got != (want if not is_const(head) else {}) or fh.rest:
                rep.violate('parent-files', f.loc, f.func, text + ' starts from %s' % (', '.join('%s=%s' % (show(k), show(v2) if v2 is not None else '?') for k, v2 in got.items())[:200] or 'no files'), x, key=text)
        for h in asked:
            if h is not head: rep.violate('parent-files', f.loc, f.func, text + ': the files are not taken from the head revision but from %s' % show(h)[:80], key=text + 'head')
    return eng


class Head(StoreMon):
    """captures the commit document the head is moved to"""
    def inrepo(self, t): return mentions(t, BASE) or bool(repo_keys(t, self.cfg))

    def head(self, ev, op, src, dst, st):
        v = self.complete(st, src) if op == 'rename' and src is not None else None
        if v is not None: self.got.append((ev, st, v))
        return st


def finishing(rep):
    eng = make_engine(intr=dict(model.READ)); eng.reclimit = 4; eng.unroll = 24
    m = Head(rep, config(eng)); m.rules = set(); eng.mon = m
    st, vs = instance(eng)
    f = At(LOC, 'commit')
    ROWS = None
    # what get_active_commit_changes() reads
    r, _ = method(eng, st, vs, 'get_active_commit_changes', [], 'changes')
    ROWS = r[0][1] if r else None
    if ROWS is None or ROWS.op != 'rows': raise AnalysisBroken('the pending changes are not read from the database')
    for status, inparent in (('new', False), ('changed', True), ('deleted', True)):
        s = st; known = []; m.got = []
        if inparent: s, i = info(s, 'parent_p', PP, hash=T_('old_p'), status='new'); known.append((PP, i))
        s, i = info(s, 'parent_q', QP, hash=T_('old_q'), status='new'); known.append((QP, i))
        s, _ = with_files(s, known, generic=False)
        s, i = mkdict(s, 'pending_p', [('hash', T_('new_p')), ('path', PP), ('status', status)])
        s = s.setheap(ROWS, H(LIST, [i]))
        text = 'finishing a commit with a pending change of status %s' % status
        rets, exc = method(eng, s, vs, 'commit', [sym('message'), sym('author')], text)
        if not rets or not m.got:
            bad = [x for x, e in exc]
            if bad and not rets: rep.violate('file-set', f.loc, f.func, text + ' fails', bad[0], key=status); continue
            raise AnalysisBroken('commit: no head written')
        for ev, x, v in m.got:
            for y in alts(v):
                d = document(y)
                if d is None: continue
                rep.ob('lineage', f.func); rep.ob('change-log', text)
                par = fget(d, 'parent')
                if par is None or not all(z.op == 'content' and m.is_head(z.args[0]) or z is const('root') for z in alts(par)):
                    rep.violate('lineage', ev.loc, ev.func, 'the parent of the new revision is not the head it replaces: %s' % (show(par)[:80] if par is not None else 'nothing'), x, key='parent')
                by = fget(d, 'commit_by')
                if by is None or canon_str(by) is not sym('author'): rep.violate('lineage', ev.loc, ev.func, 'the author of the new revision is not the given user', x, key='author')
                ch = fget(d, 'changes')
                if ch is not None and ch.op == 'flist':
                    rs = [row(x, c) for c in ch.args[0]]
                    ok = len(rs) == 1 and not ch.args[1] and rs[0] is not None and rs[0].get('path') is PP and rs[0].get('hash') is T_('new_p') and rs[0].get('status') is const(status)
                    if not ok: rep.violate('change-log', ev.loc, ev.func, text + ': the change log says %s' % show(ch)[:160], x, key=status)
                elif ch is None or ch is not ROWS: rep.violate('change-log', ev.loc, ev.func, text + ': the change log is %s' % (show(ch)[:120] if ch is not None else 'missing'), x, key=status)
                for t in alts(fget(d, 'tree_root') or NONE):
                    td = document(t)
                    rep.ob('file-set', text)
                    if td is None: rep.violate('file-set', ev.loc, ev.func, text + ': the revision has no tree', x, key=status); continue
                    fs = fget(td, 'files')
                    if fs is None or fs.op != 'fdict' or fs.args[2] is not NONE: continue
                    got = {k: (row(x, i2) or {}).get('hash') for k, i2 in fs.args[0]}
                    want = {Q: T_('old_q')}
                    if status != 'deleted': want[P] = T_('new_p')
                    if got != want: rep.violate('file-set', ev.loc, ev.func, text + ': the tree holds %s' % ', '.join('%s=%s' % (show(k), show(h) if h is not None else '?') for k, h in got.items()), x, key=status)
    return eng


def forms(rep):
    """build_dir_tree / write_dir_tree / read_dir_tree / flatten_dir_tree on a tree with two levels of directories"""
    eng = make_engine(Mon(rep), intr=dict(model.READ)); eng.reclimit = 4; eng.unroll = 24
    V = 'bversion.storage.versioned_storage.versioned_storage.'
    docs = {}

    def write(e, st, args, kw, node):
        h = e.freeze(args[2] if len(args) > 2 else kw['contents'], st)
        k = T_('doc%d' % len(docs)) if h not in docs.values() else [a for a, b in docs.items() if b is h][0]
        docs[k] = h
        return [(st, k)]

    def read(e, st, args, kw, node):
        h = args[1] if len(args) > 1 else kw['object_hash']
        d = docs.get(h)
        if d is None: return [(st, mk('fresh', 'object', h))]
        return [thaw(st, d, 'doc:' + show(h))]

    def thaw(st, t, name):
        if t.op == 'fdict':
            kn = []
            for i, (k, v) in enumerate(t.args[0]):
                st, v = thaw(st, v, name + '.%d' % i); kn.append((k, v))
            return obj(st, name, H(DICT, kn, [(k, v, frozenset()) for k, v in t.args[1]], None if t.args[2] is NONE else t.args[2]))
        return st, t
    eng.intr[V + 'write_index_object'] = write; eng.intr[V + 'read_index_object'] = read
    st, vs = instance(eng)
    names = [T_(x) for x in 'abcde']; d1, d2 = T_('d1'), T_('d2')
    sl = const('/')
    path = lambda *c: cat_all([x for p in c for x in (sl, p)])
    paths = [path(names[0]), path(d1, names[1]), path(T_('d3'), T_('d4'), T_('f')), path(names[2]), path(d1, d2, names[3]), path(d1, names[4])]
    f = At(LOC, 'build_dir_tree / write_dir_tree / read_dir_tree / flatten_dir_tree')
    s = st; known = []
    for i, p in enumerate(paths):
        s, x = info(s, 'form%d' % i, p, hash=T_('content%d' % i), status='new'); known.append((p, x))
    s, files = mkdict(s, 'files', known)
    cur = [(s, files)]
    for name in ('build_dir_tree', 'write_dir_tree', 'read_dir_tree', 'flatten_dir_tree'):
        nxt = []
        for x, v in cur: nxt += method(eng, x, vs, name, [v], name)[0]
        if not nxt:
            rep.violate('tree-form', f.loc, f.func, '%s fails on a tree of files in nested directories' % name, cur[0][0], key=name); return eng
        cur = nxt
        rep.ob('tree-form', name)
    for x, v in cur:
        h = x.heap.get(v)
        if h is None: continue
        got = {k: row(x, i) or {} for k, i in h.known}
        for i, p in enumerate(paths):
            g = got.get(p)
            if g is None: rep.violate('tree-form', f.loc, f.func, 'a file in %s does not survive the conversion to and from the stored tree' % ('a sub-directory of a directory' if len(path_parts(p)) == 3 else 'a directory' if len(path_parts(p)) == 2 else 'the top directory'), x, key='lost%d' % i); continue
            if g.get('hash') is not T_('content%d' % i): rep.violate('tree-form', f.loc, f.func, 'a file gets the content of another one: %s' % show(p), x, key='content%d' % i)
            if g.get('path') is not None and canon_str(g['path']) is not p: rep.violate('tree-form', f.loc, f.func, 'a file read back names another path: %s' % show(g['path']), x, key='path%d' % i)
        if len(got) > len(paths) or h.rest: rep.violate('tree-form', f.loc, f.func, 'the tree read back names files nobody put there', x, key='more')
    return eng


def cat_all(ps):
    r = ps[0]
    for p in ps[1:]: r = cat(r, p)
    return r


class Routes(Head):
    def db(self, ev, st):
        if ev.kind == 'sql' and ev.sql is not None and ev.sql.table == 'active_commit_changes' and ev.sql.verb == 'insert' and self.route == 'push_file':
            vals = dict(zip(ev.sql.cols, ev.sql.values)); p = vals.get('path')
            self.ok('requested', 'push_file')
            if p is not None and canon_str(p) is not header('path'): self.bad('requested', ev, st, 'the change is recorded for %s, not for the path of the request' % show(p)[:80])
        return st


def routes(rep, tier):
    eng = make_engine(intr=dict(model.READ, **storage.SUMMARY)); setup_alias(eng); cfg = config(eng)
    m = Routes(rep, cfg); m.rules = set(RULES); m.got = []
    run_routes(rep, m, eng, ('commit', 'push_file'), 'quick')
    for ev, st, v in m.got:
        rows = session_rows(st, REPO_KEY, cfg)
        for y in alts(v):
            d = document(y); by = fget(d, 'commit_by') if d is not None else None
            rep.ob('lineage', 'route commit')
            if by is not None and not any(user_of(by, rows_pair(r)) for r in rows): rep.violate('lineage', ev.loc, 'commit', 'the author of the revision is not the authenticated user: %s' % show(by)[:80], st, key='route')
    got = []

    def delete(e, st, args, kw, node):
        a = args[1] if len(args) > 1 else next(iter(kw.values()), NONE)
        got.append((a, st, e.curmod.path.replace(e.prog.repo + '/', '') + ':%d' % getattr(node, 'lineno', 0)))
        return [(st, NONE)]
    eng.intr['bversion.storage.versioned_storage.versioned_storage.fs_delete'] = delete
    m.rules = set(); run_routes(rep, m, eng, ('delete_files',), 'quick')
    for a, st, loc in got:
        rep.ob('requested', 'delete_files')
        if not (mentions(a, REQ) and any(x is const('files') for x in subterms_c(a))) and a not in st.heap:
            rep.violate('requested', loc, 'delete_files', 'the files deleted are not those the request names: %s' % show(a)[:80], st, key='delete')
    return eng


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    return [deletions(rep, None, tier), additions(rep), begin(rep), finishing(rep), forms(rep), routes(rep, tier)]
