"""C15: the client believes only what the server acknowledged, and hides no later edit."""
from ..clientworld import *
from .c19 import parse

RULES = {
    'unconfirmed': 'without a confirmed commit neither the manifest nor the recorded revision changes, durably or at any point at which the client could be stopped',
    'abort': 'if a push or a deletion fails, the commit is aborted and never confirmed',
    'recorded': 'after a confirmed commit the recorded revision is the one the server named, and the manifest names exactly the files and hashes the server accepted',
    'later edit': 'a file that was edited or removed during or after its upload is still seen as changed afterwards',
    'resumed': 'when a partial commit is resumed, a file counts as uploaded only if its content is what the server already has',
}
AT = ('bversion/client.py', 'commit')
FILES = {'/ch': (1000.5, 1000.0), '/d/new': (1001.5, None), '/u': (1002.5, 1002.5), '/gone': (None, 1003.0), '/d/ch2': (900.0, 1004.0)}
OK_ = ({'status': 'ok'}, const(b''))


def local_hash(c): return const('hash of ' + show(c))


class Commit(ClientWorld):
    """the server of one case: `refuse` {op or (op, path): FAIL or BROKEN}, `edits` {(op, path or None): [(path, content or None)]}"""
    refuse = {}; edits = {}; partial = (); label = ''; before = None

    def __init__(self, rep): super().__init__(rep); self.server = Server(**{op: self.serve(op) for op in ('begin_commit', 'delete_files', 'push_file', 'commit')})

    def i_hash(self, e, st, args, kw, node):
        p = self.one(args, kw); fs = self.fs(st)
        if p not in fs: return self.missing(e, st)
        self.fail(e, st)
        return [(st, local_hash(fs[p]))]

    def serve(self, op):
        def f(w, e, st, h, b):
            path = cval(h['path']) if 'path' in h and is_str(h['path']) else None
            for k in ((op, path), (op, None)):
                for p, c in self.edits.get(k, ()):
                    fs = self.fs(st); fs.pop(wc(p), None)
                    if c is not None: fs[wc(p)] = c
                    st = st.setauto(fs=frozenset(fs.items()))
            mode = cval(h['mode']) if op == 'commit' and is_str(h.get('mode', NONE)) else None
            bad = self.refuse.get((op, path)) or self.refuse.get((op, mode)) or self.refuse.get(op)
            if bad: return [(st,) + tuple(bad)]
            if op == 'begin_commit': return [(st, {'status': 'ok'}, doc(fdict([('partial_commit', flist(self.partial))])))]
            if op == 'push_file': return [(st, {'status': 'ok', 'file_info_json': doc(fdict([('path', h['path']), ('hash', local_hash(b['#file'][1])), ('status', 'new')]))}, const(b''))]
            if op == 'commit':
                if mode == 'commit': st = st.setauto(acked=True)
                return [(st, {'status': 'ok', 'head': 'C1'}, const(b''))]
            return [(st, {'status': 'ok'}, const(b''))]
        return f

    def snap(self, eng, st, node, what):
        super().snap(eng, st, node, what)
        if self.before is not None and not st.auto.get('acked'):
            self.rep.ob('unconfirmed', self.label + ': while it runs')
            if (manifest(st), revision(st)) != self.before:
                self.rep.violate('unconfirmed', eng.loc(node), eng.func.qual if eng.func else '?', '%s: the %s is changed before the server confirmed the commit' % (self.label, 'recorded revision' if revision(st) != self.before[1] else 'manifest'), st)


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = Commit(rep); eng = client_engine(mon); total = 0
    base = {p: content(p) for p, (m, r) in FILES.items() if m is not None}
    EDIT = {p: sym('#edited ' + p, None, True) for p in FILES}

    def begin():
        mon.times = {(wc(p), base[p]): FILES[p][0] for p in base}
        for i, p in enumerate(FILES): mon.times[wc(p), EDIT[p]] = 2000.0 + i
        rows = mon.rows({p: (r, 'old hash of ' + p) for p, (m, r) in FILES.items() if r is not None})
        st = start(mon, eng, setup(base), rows).setauto(acked=False)
        mon.before = (manifest(st), revision(st))
        return st

    def go(label, refuse=None, edits=None, partial=(), *argv, errors=0):
        nonlocal total
        total += 1
        mon.before = None; st = begin(); mon.label = label; mon.refuse = refuse or {}; mon.edits = edits or {}; mon.partial = partial; mon.errors = errors
        R, X = command(eng, st, *(argv or ('commit', '-m', 'message')))
        mon.errors = 0
        return R, X

    def requests(st, op): return [(dict(h), dict(b)) for o, h, b in st.auto['net'] if o == op]
    def modes(st): return [cval(h['mode']) if is_str(h.get('mode', NONE)) else None for h, b in requests(st, 'commit')]

    def pushed(st):
        """path -> content of the uploads, None if not decided"""
        out = {}
        for h, b in requests(st, 'push_file'):
            if not is_str(h.get('path', NONE)): return None
            out[cval(h['path'])] = b['#file'][1]
        return out

    def unconfirmed(label, R, X, broken=None):
        rep.ob('unconfirmed', label)
        for st in [s for s, _ in R + X]:
            if st.auto.get('acked'): continue
            if (manifest(st), revision(st)) != mon.before:
                rep.violate('unconfirmed', AT[0], AT[1], '%s: afterwards the %s has changed' % (label, 'recorded revision' if revision(st) != mon.before[1] else 'manifest'), st, key='unconfirmed:' + ('rev' if revision(st) != mon.before[1] else 'man'))

    def recorded(label, R, X, already=None):
        rep.ob('recorded', label)
        for st in [s for s, _ in R]:
            if not st.auto.get('acked'): continue
            up = pushed(st)
            if up is None: continue
            dele = set()
            for h, b in requests(st, 'delete_files'):
                for d in parse(b.get('files', NONE)): dele.add(d.get('path'))
            want = dict(mon.before[0])
            for p in dele: want.pop(p, None)
            got = manifest(st)
            if revision(st) != 'C1': rep.violate('recorded', AT[0], AT[1], '%s: the recorded revision is %s, the server confirmed C1' % (label, revision(st)), st, key='recorded:rev')
            hashes = {p: local_hash(c) for p, c in up.items()}
            for p, c in (already or {}).items(): hashes.setdefault(p, local_hash(c))
            for p in sorted(set(want) | set(got) | set(hashes), key=str):
                g = got.get(p)
                if p in hashes and p not in dele:
                    if g is None: rep.violate('recorded', AT[0], AT[1], '%s: %s was accepted by the server but is not in the manifest' % (label, p), st, key='recorded:missing')
                    elif canon_str(g[1]) is not hashes[p]: rep.violate('recorded', AT[0], AT[1], '%s: the manifest records the hash %s for %s, the server accepted %s' % (label, show(g[1])[:60], p, cval(hashes[p])), st, key='recorded:hash')
                elif (g is None) != (p not in want) or g is not None and g != want[p]:
                    rep.violate('recorded', AT[0], AT[1], '%s: the manifest entry of %s is %s' % (label, p, 'there although the server accepted its deletion' if p in dele else 'missing' if g is None else 'changed although it was not part of the commit'), st, key='recorded:other')
            later(label, st, got, dict(already or {}, **up))

    def later(label, st, got, up):
        now = working(st)
        for p, c in up.items():
            rep.ob('later edit', label)
            if p not in got or now.get(p) is c: continue
            if p in now and not isinstance(got[p][0], T) and got[p][0] == mon.when(wc(p), now[p]):
                rep.violate('later edit', AT[0], AT[1], '%s: %s was edited after its upload began, but the manifest has the time of the edited file' % (label, p), st, key='later edit')

    # 1. everything is accepted
    R, X = go('everything is accepted')
    if not R or not any(s.auto.get('acked') for s, _ in R): raise AnalysisBroken('a commit does not end normally: %s' % [show(e) for _, e in X][:2])
    for st, _ in R:
        up = pushed(st)
        if up is not None and set(up) != {'/ch', '/d/new', '/d/ch2'}: rep.violate('recorded', AT[0], AT[1], 'the files uploaded are %s' % sorted(up), st)
    recorded('everything is accepted', R, X)
    # 2. refusals and broken connections
    paths = [p for p in base if p != '/u']
    for bad, how in ((FAIL, 'refused'), (BROKEN, 'the connection breaks')):
        for op, key in [('begin_commit', 'begin_commit'), ('deletion', 'delete_files'), ('confirmation', ('commit', 'commit'))] + [('push of ' + p, ('push_file', p)) for p in paths]:
            label = '%s: %s' % (op, how)
            R, X = go(label, {key: bad})
            unconfirmed(label, R, X)
            if op not in ('begin_commit', 'confirmation'):
                rep.ob('abort', label)
                for st, _ in R + X:
                    m = modes(st)
                    if 'commit' in m: rep.violate('abort', AT[0], AT[1], '%s: the commit is confirmed nevertheless' % label, st, key='abort:commit')
                    elif 'abort' not in m and bad is FAIL: rep.violate('abort', AT[0], AT[1], '%s: the commit is not aborted' % label, st, key='abort:none')
            elif op == 'begin_commit':
                for st, _ in R + X:
                    if requests(st, 'push_file') or requests(st, 'delete_files') or requests(st, 'commit'): rep.violate('abort', AT[0], AT[1], '%s: the client goes on with the commit' % label, st)
    for a in paths + ['deletion']:
        for m in (FAIL, BROKEN):
            label = '%s refused, and the abort %s' % (a, 'refused' if m is FAIL else 'fails')
            R, X = go(label, {('push_file', a) if a != 'deletion' else 'delete_files': FAIL, ('commit', 'abort'): m}); unconfirmed(label, R, X)
    # several refusals
    R, X = go('everything is refused', {'delete_files': FAIL, 'push_file': FAIL}); unconfirmed('everything is refused', R, X)
    # 3. edits
    for p in paths:
        for c in (EDIT[p], None):
            for op in (('push_file', p), ('commit', None)) + ((('push_file', paths[-1]),) if p != paths[-1] and tier == 'thorough' else ()):
                label = '%s is %s during %s' % (p, 'removed' if c is None else 'edited', ' '.join(str(x) for x in op if x))
                R, X = go(label, None, {op: [(p, c)]})
                recorded(label, R, X)
                for st, _ in X:
                    if st.auto.get('acked'): rep.violate('recorded', AT[0], AT[1], '%s: the client fails after the server confirmed the commit' % label, st)
    R, X = go('all files are edited at the end', None, {('commit', None): [(p, EDIT[p]) for p in paths]}); recorded('all files are edited at the end', R, X)
    # 4. resuming
    def part(p, c): return fdict([('path', p), ('hash', local_hash(c)), ('status', 'new')])
    for label, parts, edits in (('resumed, one file is there already', [('/ch', base['/ch'])], None), ('resumed, all files are there already', [(p, base[p]) for p in paths], None),
                                ('resumed, one file has changed since', [('/ch', sym('#earlier ch', None, True)), ('/d/new', base['/d/new'])], None), ('resumed, an earlier file is gone', [('/left', content('left')), ('/ch', base['/ch'])], None),
                                ('resumed, a file there already is edited during the commit', [('/ch', base['/ch'])], {('commit', None): [('/ch', EDIT['/ch'])]}),
                                ('resumed, the files there already are edited during the deletion', [(p, base[p]) for p in paths], {('delete_files', None): [(p, EDIT[p]) for p in paths]}),
                                ('resumed, the files there already are removed during the deletion', [(p, base[p]) for p in paths], {('delete_files', None): [(p, None) for p in paths]}),
                                ('resumed, files there already are edited during the first upload', [(p, base[p]) for p in paths[1:]], {('push_file', paths[0]): [(p, EDIT[p]) for p in paths[1:]]}),
                                ('resumed, a file there already is edited during another upload', [('/ch', base['/ch'])], {('push_file', '/d/new'): [('/ch', EDIT['/ch'])]})):
        R, X = go(label, None, edits, [part(p, c) for p, c in parts])
        recorded(label, R, X, {p: c for p, c in parts if base.get(p) is c})
        rep.ob('resumed', label)
        for st, _ in R:
            up = pushed(st)
            if up is None: continue
            have = dict(parts)
            for p in paths:
                if p not in up and have.get(p) is not base[p]: rep.violate('resumed', AT[0], AT[1], '%s: %s is not uploaded, although the server does not have its content' % (label, p), st)
            gone = {d.get('path') for h, b in requests(st, 'delete_files') for d in parse(b.get('files', NONE))}
            for p, c in parts:
                if p not in base and p not in gone and st.auto.get('acked'): rep.violate('resumed', AT[0], AT[1], '%s: %s, which no longer exists, is committed' % (label, p), st)
        for bad in (FAIL, BROKEN):
            for op in ('delete_files', 'push_file', ('commit', 'commit')):
                l2 = '%s; %s %s' % (label, op if isinstance(op, str) else 'confirmation', 'refused' if bad is FAIL else 'breaks')
                R, X = go(l2, {op: bad}, edits, [part(p, c) for p, c in parts]); unconfirmed(l2, R, X)
    # 5. nothing but deletions / nothing but uploads, and local errors
    R, X = go('a local operation fails', errors=1); unconfirmed('a local operation fails', R, X)
    if tier == 'thorough':
        for p in paths:
            for bad in (FAIL, BROKEN):
                for q in paths:
                    R, X = go('two faults', {('push_file', p): bad}, {('push_file', q): [(q, EDIT[q])]}); unconfirmed('%s fails, %s is edited' % (p, q), R, X)
    rep.info['scenarios'] = total
    return [eng]
