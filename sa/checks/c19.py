"""C19: local changes are detected for every file that is not ignored."""
import fnmatch
from ..clientworld import *

RULES = {
    'update': 'the changes sent to the server for a comparison are exactly the new, changed and deleted files that are not ignored',
    'full': 'a full comparison additionally names every unchanged file, and nothing else',
    'commit': 'a commit uploads exactly the new and changed files and deletes exactly the deleted ones',
    'status': 'the status command lists exactly the changed files, each with its status',
}
AT = ('bversion/client.py', 'find_local_changes')
# name -> (modification time on disk or None, creation time, time in the manifest or None)
STATES = {'unchanged': (1000.25, 500.0, 1000.25), 'newer': (1000.5, 500.0, 1000.25), 'much newer': (99999.0, 500.0, 3.0), 'older': (1000.0, 500.0, 1000.25), 'much older': (3.0, 2.0, 99999.0), 'older by little': (1000.249999, 500.0, 1000.25),
          'newer by little': (1000.250001, 500.0, 1000.25), 'other creation time': (1000.25, 777.0, 1000.25), 'new': (1000.25, 500.0, None), 'deleted': (None, None, 1000.25), 'dated 1970': (0.0, 0.0, 1000.25), 'unchanged 1970': (0.0, 0.0, 0.0),
          'new, dated 1970': (0.0, 0.0, None)}
NAMES = {'unchanged': '/u', 'newer': '/ch', 'much newer': '/d/ch', 'older': '/old', 'much older': '/d/e/old', 'older by little': '/d/little', 'newer by little': '/little more', 'other creation time': '/d/ctime', 'new': '/d/new/deep', 'deleted': '/d/gone',
         'dated 1970': '/epoch', 'unchanged 1970': '/epoch same', 'new, dated 1970': '/epoch new'}


def case_all(extra=(), ignore=None, pull=None):
    return [(NAMES[s], s) for s in STATES] + list(extra), ignore, pull


ODD = [('/.hidden', 'new'), ('/d/.hidden', 'newer'), ('/bvn', 'new'), ('/d/.bvn/x', 'new'), ('/d/.bvn_pull_ignore', 'new'), ('/.bvnx', 'new'), ('/.bvn2/y', 'new'), ('/a file with blanks', 'new'), ('/lock_file', 'new'), ('/manifest.db', 'newer'), ('/d/manifest.db', 'new'), ('/CAPS.TMP', 'new'), ('/x.tmpx', 'new'), ('/download_tmp', 'new')]
CASES = [
    ('every state', *case_all()), ('in a sub-directory', *case_all([('/d/sub', 'new')], '/none\n', '/d/none*')), ('unusual names', *case_all(ODD)), ('nothing recorded', [('/a', 'new'), ('/d/b', 'new')], None, None), ('nothing on disk', [('/a', 'deleted'), ('/d/b', 'deleted')], None, None), ('empty', [], None, None),
    ('nothing changed', [('/a', 'unchanged'), ('/d/b', 'unchanged')], None, None),
    ('extension ignored', *case_all([('/x.tmp', 'new'), ('/d/y.tmp', 'new'), ('/d/y.tmp.txt', 'new')] + ODD, '*.tmp\n')),
    ('directory ignored', *case_all([('/dir/x', 'new'), ('/dir/e/x', 'new'), ('/dirx/x', 'new'), ('/d/dir/x', 'new')], '/dir/*')),
    ('several filters', *case_all([('/one', 'new'), ('/two', 'new'), ('/three', 'new'), ('/xa', 'new'), ('/xb', 'new'), ('/xc', 'newer'), ('/x', 'new')], '/one\n\n/two\n/x[ab]\n/?\n')),
    ('pull-ignored', *case_all([('/big/x', 'new'), ('/big2', 'new')], None, '/big/*\n')),
    ('both kinds of filters', *case_all([('/big/x', 'new'), ('/tmp/x', 'new'), ('/keep', 'newer')], '/tmp/*', '/big/*\n/none')),
    ('recorded before it was ignored', *case_all([('/late', 'unchanged'), ('/late2', 'newer')], '/late*')),
]


class Local(ClientWorld):
    pass


def expected(files, ignore, pull):
    filters = ['/.bvn/*', '/.bvn_pull_ignore'] + (ignore or '').splitlines() + (pull or '').splitlines()
    if ignore is not None: files = files + [('/.bvn_ignore', 'new')]
    out = {}
    for p, s in files:
        m, c, r = STATES[s]
        if any(fnmatch.fnmatchcase(p, f) for f in filters): m = None
        if m is None and r is None: continue
        out[p] = 'deleted' if m is None else 'new' if r is None else 'unchanged' if m == r else 'changed'
    return out


def documents(st, ops):
    return [(op, dict(h), dict(b)) for op, h, b in st.auto['net'] if op in ops]


def parse(t):
    """json.dumps term of a dict of dicts -> {path: {field: value}}; of a list -> [..]"""
    t = canon_str(t)
    if t.op == 'call' and t.args[0] == 'json.dumps': t = t.args[1][0]
    if t.op == 'fdict': return {cval(k): parse(v) for k, v in t.args[0]}
    if t.op in ('flist', 'tup'): return [parse(x) for x in t.args[0]]
    return cval(t) if is_const(t) else t


def compare(rep, rule, label, got, want, st):
    if any(isinstance(x, T) or '(' in x for x in got) or any(isinstance(x, T) for x in got.values()): return          # not decided
    rep.ob(rule, label)
    for p in sorted(set(got) | set(want)):
        g, w = got.get(p), want.get(p)
        if g != w: rep.violate(rule, AT[0], AT[1], '%s: %s is %s, but was %s' % (label, p, w or 'not to be reported', 'reported as %s' % (g,) if g else 'not reported'), st, key='%s:%s:%s' % (rule, w, g))


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = Local(rep); eng = client_engine(mon); total = 0
    said = []; orig = mon.event

    def event(ev, st):
        t = spoken(ev) if st.auto.get('said') is not None else None
        if t is not None: st = st.setauto(said=st.auto['said'] + (t,))
        r = orig(ev, st)
        return r
    mon.event = event
    cases = list(CASES)
    if tier == 'thorough':          # every state on its own, and every pair in one directory
        cases += [('only ' + a, [('/x', a)], None, None) for a in STATES] + [('%s next to %s' % (a, b), [('/d/x', a), ('/d/y', b)], None, None) for a in STATES for b in STATES]

    def begin(files, ignore, pull):
        mon.times = {}; fs = {}; man = {}
        for i, (p, s) in enumerate(files):
            m, c, r = STATES[s]
            if m is not None: fs[p] = content(p); mon.times[wc(p), fs[p]] = (m, c)
            if r is not None: man[p] = (r, 'hash of ' + p, 500.0)
        return start(mon, eng, setup(fs, ignore, pull), mon.rows(man)).setauto(said=())

    def go(files, ignore, pull, *argv):
        nonlocal total
        total += 1
        R, X = command(eng, begin(files, ignore, pull), *argv)
        return [s for s, _ in R] + [s for s, _ in X], X

    for label, files, ignore, pull in cases:
        mon.cwd = WC + '/d' if label.startswith('in a sub-directory') else WC
        want = expected(files, ignore, pull); changed = {p: s for p, s in want.items() if s != 'unchanged'}
        for rule, argv in (('update', ['update']), ('full', ['update', '-f'])):
            mon.server = Server(find_changed=lambda *a: FAIL)
            for st in go(files, ignore, pull, *argv)[0]:
                reqs = documents(st, ('find_changed',))
                if not reqs: raise AnalysisBroken('%s: no comparison is asked for' % label)
                got = parse(reqs[-1][2].get('client_changes', NONE))
                if isinstance(got, dict) and not all(isinstance(v, dict) for v in got.values()): continue          # not decided
                if not isinstance(got, dict): raise AnalysisBroken('the changes sent to the server are not understood: %s' % (got,))
                compare(rep, rule, label, {(v.get('path') if v.get('path') == k or isinstance(v.get('path'), T) else '%s under the name %s' % (v.get('path'), k)): v.get('status') for k, v in got.items()}, want if rule == 'full' else changed, st)
        mon.server = Server(begin_commit=lambda w, e, st, h, b: ({'status': 'ok'}, doc(fdict([('partial_commit', flist([]))]))), delete_files=lambda *a: ({'status': 'ok'}, const(b'')),
                            push_file=lambda w, e, st, h, b: ({'status': 'ok', 'file_info_json': doc(fdict([('path', h['path']), ('hash', oid('pushed'))]))}, const(b'')), commit=lambda *a: ({'status': 'ok', 'head': 'C1'}, const(b'')))
        for st in go(files, ignore, pull, 'commit')[0]:
            got = {}
            for op, h, b in documents(st, ('delete_files', 'push_file')):
                if op == 'push_file':
                    p = cval(h['path']) if is_str(h.get('path', NONE)) else show(h.get('path', NONE)); f = b.get('#file')
                    got[p] = 'new or changed' if f is not None and f[0] is wc(p) else 'uploaded from %s' % (show(f[0]) if f is not None else None)
                else:
                    for d in parse(b.get('files', NONE)): got[d.get('path')] = 'deleted'
            compare(rep, 'commit', label, got, {p: 'deleted' if s == 'deleted' else 'new or changed' for p, s in changed.items()}, st)
        mon.server = Server()
        for st in go(files, ignore, pull, 'status')[0]:
            rep.ob('status', label); lines = printed(st.auto['said'])
            if UNKNOWN in ''.join(st.auto['said']): continue
            for p, s in changed.items():
                if not any(x.rstrip().endswith(p) and s in x for x in lines): rep.violate('status', AT[0], AT[1], '%s: %s is not listed as %s' % (label, p, s), st, key='status:' + s)
            for x in lines:
                if any(w in x for w in ('new', 'changed', 'deleted')) and '/' in x and not any(x.rstrip().endswith(p) and s in x for p, s in changed.items()):
                    rep.violate('status', AT[0], AT[1], '%s: "%s" is listed' % (label, x.strip()), st, key='status:more')
    rep.info['scenarios'] = total
    return [eng]
