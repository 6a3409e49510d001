"""C12: every path gets the disposition its two-sided status calls for."""
from ..framework import *
from ..server_env import *
from ..generic import *
from .. import storage

RULES = {
    'disposition': 'a path with a given pair of statuses ends up, in every result, in exactly the list that pair calls for',
    'conflict-sides': 'a conflict names the path and says which side changed and which side deleted it',
    'both-sides': 'the server compares the changes since the revision the client holds with the changes the client sent',
    'unchanged-added': 'unchanged files are added only when they are asked for, and never replace a change of the server',
}
MERGE = 'bversion.merge_client_and_server_changes:merge_client_and_server_changes'
P = sym('#P', None, True)
LISTS = ('client_push_files', 'client_pull_files', 'to_delete_on_client', 'to_delete_on_server', 'conflict_files')
CH = ('new', 'changed')


def expected(s, c):
    """lists one of which must hold the path ('-' : none of the lists that lead to an action)"""
    if s in CH + ('deleted',):
        if c in CH: return ('conflict_files',)
        if c == 'deleted': return ('to_delete_on_client', '-') if s == 'deleted' else ('conflict_files',)
        return ('to_delete_on_client',) if s == 'deleted' else ('client_pull_files',)
    if c in CH: return ('client_push_files',)
    if c == 'deleted': return ('to_delete_on_server',)
    if s == 'unchanged' and c is None: return ('client_pull_files',)
    return ('-',)


def about(st, t, seen=()):
    """does this list item concern the tracked path?"""
    if t in seen: return False
    if mentions(t, P): return True
    h = st.heap.get(t)
    return h is not None and any(about(st, v, seen + (t,)) for v in h.terms())


def table(rep, eng, quick):
    f = eng.lookup_public(MERGE)
    where = At('bversion/merge_client_and_server_changes.py', 'merge_client_and_server_changes')
    for s in (None,) + CH + ('deleted', 'unchanged'):
        for c in (None,) + CH + ('deleted', 'unchanged'):
            if s is None and c is None: continue
            st = eng.base; sk, ck = [], []
            if s: st, i = mkdict(st, 'server_info', [('path', P), ('status', s), ('hash', sym('hash'))]); sk = [(P, i)]
            if c: st, i = mkdict(st, 'client_info', [('path', P), ('status', c), ('last_mod', sym('mtime'))]); ck = [(P, i)]
            st, S = mkdict(st, 'server', sk, rest=others('~server'))
            st, C = mkdict(st, 'client', ck, rest=others('~client'))
            rets, exc = eng.run(f, [S, C], {}, st, 'merge %s/%s' % (s, c))
            want = expected(s, c); pair = 'server %s, client %s' % (s or 'no change', c or 'no change')
            for x, e in exc:
                rep.violate('disposition', where.loc, where.func, '%s: the comparison fails (%s)' % (pair, show(e)[:60]), x, key=pair)
            for x, v in rets:
                rep.ob('disposition', pair)
                h = x.heap.get(v)
                if h is None or h.base is not None: continue
                got = {}
                unknown = False
                for n in LISTS:
                    l = h.get(const(n)); lh = x.heap.get(l) if l is not None else None
                    if lh is None:
                        unknown = unknown or l is not None and l.op != 'const'; continue
                    sure = [e for e in lh.known if about(x, e)]; maybe = [e for k, e, g in lh.rest if about(x, e)]
                    if sure or maybe: got[n] = (sure, maybe)
                if unknown: continue
                sure = [n for n in got if got[n][0]]
                if len(got) > 1 or len(sure) > 1 or any(len(a) > 1 for a, b in got.values()):
                    rep.violate('disposition', where.loc, where.func, '%s: the path may get more than one disposition: %s' % (pair, ', '.join(got)), x, key=pair); continue
                n = next(iter(got), '-')
                if n not in want:
                    rep.violate('disposition', where.loc, where.func, '%s: the path goes to %s instead of %s' % (pair, n if n != '-' else 'no list', ' or '.join(want)), x, key=pair); continue
                if n != '-' and not sure:
                    rep.violate('disposition', where.loc, where.func, '%s: the path does not always reach %s' % (pair, n), x, key=pair); continue
                if n == 'conflict_files':
                    it = x.heap.get(got[n][0][0])
                    rep.ob('conflict-sides', pair)
                    if it is None or it.kind != DICT: continue
                    for side, val in (('server_status', s), ('client_status', c)):
                        t = it.get(const(side)); w = 'Deleted' if val == 'deleted' else 'Changed'
                        if t is None or is_str(t) and cval(t) != w:
                            rep.violate('conflict-sides', where.loc, where.func, '%s: the conflict says %s = %s' % (pair, side, show(t) if t is not None else 'nothing'), x, key=pair)
                    fi = it.get(const('file_info'))
                    fh = x.heap.get(fi) if fi is not None else None
                    if fi is None or fh is not None and fh.get(const('path')) is not P:
                        rep.violate('conflict-sides', where.loc, where.func, '%s: the conflict does not name the path' % pair, x, key=pair)
                elif n != '-':
                    it = x.heap.get(got[n][0][0])
                    if it is not None and it.get(const('path')) is not P:
                        rep.violate('disposition', where.loc, where.func, '%s: the entry does not carry the path' % pair, x, key=pair)


class At:
    def __init__(self, loc, func): self.loc, self.func = loc, func


def route(rep, tier):
    """what find_changed hands to the comparison"""
    eng = make_engine(Mon(rep), intr=dict(model.READ, **storage.SUMMARY)); setup_alias(eng)
    cfg = config(eng)
    case = {}

    def changes(e, st, args, kw, node):
        """get_changes_since(version, head)"""
        case['since'] = args[1] if len(args) > 1 else kw.get('version_id')
        known = []
        if case['s']:
            st, i = mkdict(st, 'since_info', [('path', P), ('status', case['s'])]); known = [(P, i)]
        return [mkdict(st, 'since', known, rest=others('~since'))]

    def files(e, st, args, kw, node):
        known = []
        if case['f']:
            st, i = mkdict(st, 'file_info', [('path', P), ('status', 'new')]); known = [(P, i)]
        return [mkdict(st, 'commit_files', known, rest=others('~files'))]

    def merge_(e, st, args, kw, node):
        a = args + [kw[k] for k in ('server', 'client') if k in kw]
        where = At('%s:%d' % (e.curmod.path.replace(e.prog.repo + '/', ''), getattr(node, 'lineno', 0)), 'find_changed')
        rep.ob('both-sides', where.func + ' ' + where.loc)
        if len(a) < 2: return None
        h = st.heap.get(a[0])
        if h is None or mentions(a[0], REQ): rep.violate('both-sides', where.loc, where.func, 'the first argument of the comparison is not the server\'s list of changes: %s' % show(a[0])[:100], st)
        if not any(x is const('client_changes') for x in subterms_c(a[1])) or not mentions(a[1], REQ):
            if a[1] not in st.heap: rep.violate('both-sides', where.loc, where.func, 'the second argument of the comparison is not the list of changes the client sent: %s' % show(a[1])[:100], st)
        if case.get('since') is not None and canon_str(case['since']) is not header('previous_revision'):
            rep.violate('both-sides', where.loc, where.func, 'the changes are not those since the revision the client holds, but since %s' % show(case['since'])[:100], st)
        if h is not None and h.kind == DICT:
            rep.ob('unchanged-added', 'find_changed with server status %s, file %spresent' % (case['s'], '' if case['f'] else 'not '))
            inc = [v for a_, v in st.facts.items() if mentions(a_, header('include_unchanged')) and a_.op in ('truthy', 'cmp', 'call')]
            e_ = h.get(P); ih = st.heap.get(e_) if e_ is not None else None
            status = ih.get(const('status')) if ih is not None else None
            if case['s'] is not None:
                if status is None or is_str(status) and cval(status) != case['s']:
                    rep.violate('unchanged-added', where.loc, where.func, 'a path that is %s on the server is passed on as %s' % (case['s'], show(status) if status is not None else 'nothing'), st)
            else:
                if status is not None and is_str(status) and cval(status) != 'unchanged': rep.violate('unchanged-added', where.loc, where.func, 'an unchanged file is passed on as %s' % show(status), st)
                if e_ is not None and not case['f']: rep.violate('unchanged-added', where.loc, where.func, 'a file that does not exist is passed on', st)
        case['done'] = True
        return [(st, mk('fresh', 'sorted_changes', 0))]
    V = 'bversion.storage.versioned_storage.versioned_storage.'
    eng.intr[V + 'get_changes_since'] = changes; eng.intr[V + 'get_commit_files'] = files
    eng.intr['bversion.merge_client_and_server_changes.merge_client_and_server_changes'] = merge_
    hs = handlers(eng)
    if 'find_changed' not in hs: raise AnalysisBroken('route find_changed is not registered')
    for s, f in (('new', True), ('deleted', False), ('changed', True), (None, True)):
        case.clear(); case.update(s=s, f=f)
        run_handler(eng, 'find_changed', hs['find_changed'])
        if not case.get('done'): raise AnalysisBroken('find_changed does not reach the comparison')
    return eng


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    eng = make_engine(Mon(rep))
    table(rep, eng, tier == 'quick')
    return [eng, route(rep, tier)]
