"""C10: history queries answer for the requested revision, newest change last."""
from ..repoworld import *
from .. import storage

RULES = {
    'list-changes': 'the change list answered is that of the revision asked for, or of the head when the head is asked for',
    'list-files': 'the file list answered is exactly that of the revision asked for, or of the head',
    'pull': 'a fetched file is the stored content which that revision (or the head) names for that path, and a path the revision does not have is not answered',
    'since': 'the changes between two revisions are those of every commit in between, a later change to a path superseding an earlier one',
    'which': 'the answer says which revision it is for',
}
MERGE = 'bversion.merge_client_and_server_changes.merge_client_and_server_changes'
REVISIONS = [
    ('K1', {'/x': 'x1', '/z': 'z1', '/d/x': 'dx1', '/d/e/f': 'f1', '/gone': 'g1'}),
    ('K2', {'/x': 'x2', '/z': 'z1', '/d/x': 'dx1', '/d/e/f': 'f1', '/y': 'y2', '/gone': 'g2'}),
    ('K3', {'/z': 'z1', '/d/x': 'dx3', '/d/e/f': 'f3', '/y': 'y3', '/d/d/x': 'x1'}),
    ('K4', {'/x': 'x4', '/d/x': 'dx3', '/d/e/f': 'f1', '/y': 'y3', '/d/d/x': 'x4', '/new': 'x1', '/m/d/x': 'm4'}),
]


def fields(t):
    return {cval(k): v for k, v in t.args[0] if is_str(k)} if t is not None and t.op == 'fdict' else None


def heapfields(st, t):
    h = st.heap.get(t)
    if h is not None and h.kind == DICT: return {cval(k): v for k, v in h.known if is_str(k)}
    return fields(t)


class Q(RepoWorld):
    served = ()

    def event(self, ev, st):
        p = served_file(ev)
        if p is not None: st = st.mark(('served', mkpath([p])))
        return super().event(ev, st)


def body(st, v):
    b = inst_attr(st, v, 'body')
    if b is None: return None
    b = canon_str(b)
    return fields(b.args[1][0]) if b.op == 'call' and b.args[0] == 'json.dumps' and b.args[1] else None


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = Q(rep); eng = make_engine(mon); setup_alias(eng); eng.mon = mon; eng.unroll = 24; eng.reclimit = 6
    base = repo_path(config(eng), REPO_KEY)
    s, log, files = history(base, REVISIONS); mon.store = s
    hs = handlers(eng)
    names = [n for n, _ in REVISIONS]; headname = names[-1]
    loc = 'bversion/server.py'

    def ask(route, **headers):
        if route not in hs: raise AnalysisBroken('route %s is not registered' % route)
        mon.effects = []; mon.snaps = []; mon.seen = set()
        st = RepoWorld.begin(eng.base, s.fs())
        st = st.setheap(HDR, H(DICT, [(const(k), v if isinstance(v, T) else const(v)) for k, v in headers.items()], (), HDR))
        rets, exc = run_handler(eng, route, hs[route], st)
        return [(x, v) for x, v in rets if response_status(x, v) != 'fail']

    def bad(rule, func, msg, st, key): rep.violate(rule, loc, func, msg, st, key=key)
    answered = {}

    def version(route, flag):
        for n in names:
            for h in (False, True):
                if h and n not in ('K1', headname): continue
                yield n, h, headname if h else n, '%s of %s' % (route, 'the head' if h else n), {flag: '1' if h else '0', 'version_id': oid(n)}

    def which(x, v, func, want, what):
        hd = response_headers(x, v)
        t = hd.get(const('version_id')) if hd is not None else None
        if t is None: return
        rep.ob('which', what)
        if canon_str(t) is not oid(want): bad('which', func, '%s is labelled as revision %s' % (what, show(t)[:20]), x, func)

    for n, h, want, what, hd in version('list_changes', 'show_head'):
        for x, v in ask('list_changes', **hd):
            d = body(x, v); rep.ob('list-changes', what)
            if d is None or 'changes' not in d or d['changes'].op not in ('flist', 'tup'): continue
            answered['list-changes'] = 1
            got = {(f.get('path'), f.get('hash'), f.get('status')) for f in (fields(e) for e in d['changes'].args[0]) if f}
            exp = {(const(p), oid(f), const(k)) for p, (f, k) in log[want].items()}
            if got != exp: bad('list-changes', 'list_changes', '%s answers with other changes: %s' % (what, diff(got, exp)), x, 'head' if h else 'revision')
            which(x, v, 'list_changes', want, what)

    for n, h, want, what, hd in version('list_files', 'show_head'):
        for x, v in ask('list_files', **hd):
            d = body(x, v); rep.ob('list-files', what)
            fl = fields(d['files']) if d and 'files' in d else None
            if fl is None: continue
            answered['list-files'] = 1
            got = {(const(p), f.get('path'), f.get('hash')) for p, f in ((p, fields(i)) for p, i in fl.items()) if f}
            exp = {(const(p), const(p), oid(f)) for p, f in files[want].items()}
            if got != exp: bad('list-files', 'list_files', '%s answers with other files: %s' % (what, diff(got, exp)), x, 'head' if h else 'revision')
            which(x, v, 'list_files', want, what)

    every = sorted({p for f in files.values() for p in f}) + ['/d', '/d/e', '/d/nothing', '/absent', '/e/f', '/d/e/f/x']
    for n, h, want, what, hd in version('pull_file', 'use_head'):
        for p in every:
            w = 'fetching %s from %s' % (p, 'the head' if h else n)
            for x, v in ask('pull_file', path=p, **hd):
                rep.ob('pull', w)
                sv = {m[1] for m in x.marks if m[0] == 'served'}
                exp = {s.path(files[want][p])} if p in files[want] else None
                if exp is None:
                    bad('pull', 'pull_file', '%s, which that revision does not have, is answered with %s' % (w, ', '.join(show(q)[-80:] for q in sv)), x, 'absent'); continue
                if not sv: continue
                answered['pull'] = 1
                if sv != exp: bad('pull', 'pull_file', '%s is answered with another file: %s' % (w, ', '.join(name(s, q) for q in sv)), x, 'head' if h else 'revision')
                hdr = response_headers(x, v)
                t = canon_str(hdr.get(const('file_info_json'))) if hdr is not None and hdr.get(const('file_info_json')) is not None else None
                f = fields(t.args[1][0]) if t is not None and t.op == 'call' and t.args[0] == 'json.dumps' else None
                if f is not None and f.get('hash') is not oid(files[want][p]): bad('pull', 'pull_file', '%s is described as other content than it is' % w, x, 'info')

    # ---- changes between two revisions
    got = []

    def merge_(e, st, args, kw, node):
        got.append((st, args[0] if args else kw.get('server')))
        return [(st, mk('fresh', 'sorted changes', 0))]
    eng.intr[MERGE] = merge_
    for prev in ['root'] + names:
        for unch in (0, 1):
            del got[:]
            since = names[names.index(prev) + 1:] if prev != 'root' else names
            exp = {}
            for n in since: exp.update({p: (oid(f), k) for p, (f, k) in log[n].items()})
            what = 'changes since %s%s' % (prev, ', with unchanged files' if unch else '')
            rets = ask('find_changed', previous_revision=const('root') if prev == 'root' else oid(prev), include_unchanged=str(unch))
            if unch:
                for p, f in files[headname].items():
                    if p not in exp: exp[p] = (oid(f), 'unchanged')
            for x, t in got:
                d = heapfields(x, t); rep.ob('since', what)
                if d is None: continue
                answered['since'] = 1
                g = {}
                for p, i in d.items():
                    f = heapfields(x, i) or {}
                    g[p] = (f.get('hash'), cval(f['status']) if f.get('status') is not None and is_str(f['status']) else None)
                a, b = {(p,) + q for p, q in g.items()}, {(p,) + q for p, q in exp.items()}
                if a != b: bad('since', 'find_changed', '%s are wrong: %s' % (what, diff(a, b)), x, 'since%d' % unch)
            for x, v in rets:
                d = body(x, v)
                if d and d.get('head') is not None:
                    rep.ob('which', what)
                    if canon_str(d['head']) is not s.head: bad('which', 'find_changed', 'the answer names %s as the head' % show(d['head'])[:60], x, 'find_changed')
    # ---- a long history
    base0 = s; s, log, files = long_history(base); mon.store = s
    with Deep(eng):
        for prev in ('root', 'L0'):
            del got[:]
            ask('find_changed', previous_revision=const('root') if prev == 'root' else oid(prev), include_unchanged='0')
            last = 'L%d' % (LONG - 1); what = 'changes since %s, %d revisions' % (prev, LONG)
            exp = {p: (oid(f), log[last][p][1]) for p, f in files[last].items()}
            for x, t in got:
                d = heapfields(x, t); rep.ob('since', what)
                if d is None: continue
                g = {p: heapfields(x, i) or {} for p, i in d.items()}
                g = {(p, f.get('hash')) for p, f in g.items()}; e = {(p, q[0]) for p, q in exp.items()}
                if g != e: bad('since', 'find_changed', '%s are wrong: %s' % (what, diff(g, e)), x, 'long')
    for r in ('list-changes', 'list-files', 'pull', 'since'):
        if r not in answered: rep.info.setdefault('answers not understood', []).append(r)
    if len(answered) < 2: raise AnalysisBroken('the answers of the history queries could not be followed')
    return [eng]


def name(s, p):
    for n in s.objects:
        if s.path(n) is p: return n
    return show(p)[-70:]


def diff(got, exp):
    f = lambda x: '/'.join((show(y) if isinstance(y, T) else str(y))[:14] for y in x)
    return 'missing %s; not expected %s' % (sorted(map(f, exp - got))[:3], sorted(map(f, got - exp))[:3])
