"""C23: client and server agree on operations and their fields."""
from ..system import *

RULES = {
    'requested': 'every request a command makes names an operation the server has, and its handler finds every header and body field it needs, in the form it needs',
    'accepted': 'what a valid user asks for in a valid way is not refused',
    'answered': 'every answer is well-formed: it has a status, text headers and a body of bytes, and a refusal says why',
    'used': 'the command finds every header and body field it goes on to use',
}
HISTORY = [
    ('K1', {'/x': 'x1', '/z': 'z1', '/d/x': 'dx1', '/d/e/f': 'f1', '/gone': 'g1', '/same': 's1'}),
    ('K2', {'/x': 'x2', '/z': 'z1', '/d/x': 'dx1', '/d/e/f': 'f1', '/y': 'y2', '/same': 's1'}),
    ('K3', {'/x': 'x3', '/d/x': 'dx3', '/d/e/f': 'f3', '/y': 'y2', '/big/new': 'b3', '/same': 's1'}),
]
OPS = ('begin_auth', 'authenticate', 'find_changed', 'pull_file', 'list_versions', 'list_changes', 'list_files', 'begin_commit', 'push_file', 'delete_files', 'commit')


class Agree(System):
    normal = True

    def wrong(self, kind, w, msg, st):
        if kind == 'handler':
            if self.normal: self.rep.violate('requested', w[0], w[1], '%s: %s' % (self.label, msg), st, key=msg)
        else: self.rep.violate('requested' if kind == 'sent' else 'answered', w[0], w[1], '%s: %s' % (self.label, msg), st, key=msg)

    def answered(self, w, op, st, hdr, body):
        self.ops.add(op); rep = self.rep
        rep.ob('requested', '%s: %s' % (self.label, op)); rep.ob('answered', '%s: %s' % (self.label, op))
        s = hdr.get('status')
        if s is None: rep.violate('answered', w[0], w[1], '%s: the answer of %s has no status' % (self.label, op), st, key='status ' + op); return
        if s is const('ok'): self.oks.add(op)
        elif is_str(s):
            if 'msg' not in hdr: rep.violate('answered', w[0], w[1], '%s: %s is refused without a message' % (self.label, op), st, key='msg ' + op)
            self.refused.append((op, st, w, hdr.get('msg')))


def check(rep, tier):
    for r, t in RULES.items(): rep.rule(r, t)
    mon = Agree(rep); mon.ops = set(); mon.oks = set(); eng = system(mon)
    s, log, files = history(const(BASE), HISTORY); mon.store = s
    mon.total = 0
    h = lambda n: cval(oid(n))
    full = dict(mon=mon, eng=eng)

    def copy(at, changes=(), ignore=None, more=(), fs0=None):
        """working copy and manifest of a client at a revision with local changes {path: content or None}"""
        fl = dict(files[at]) if at in files else {}
        mon.times = {}; man = {}; wcf = {}
        for i, (p, n) in enumerate(sorted(fl.items())):
            c = content(n); mon.times[wc(p), c] = 1000.0 + i; man[p] = (1000.0 + i, oid(n)); wcf[p] = c
        for p, n in dict(changes).items():
            wcf.pop(p, None)
            if n is not None: wcf[p] = content(n)
        return setup(wcf, None, ignore) + list(more), mon.rows(man, oid(at) if at in files else 'root')

    def run(label, st, argv, answers=(), normal=True, settle_=True):
        mon.total += 1; mon.label = label; mon.normal = normal; mon.answers = tuple(const(a) for a in answers); mon.refused = []
        R, X = command(eng, st, *argv)
        rep.ob('used', label)
        for x, v in X:
            if v.op == 'exc' and v.args[0] in ('EOFError',): continue
            if v.op == 'exc' and v.args[0] == 'SystemExit' or v.op == 'exc' and 'Socket closed' in show(v): continue
            rep.violate('used', 'bversion/client.py', 'run', '%s: the command ends with %s' % (label, System.cause(v)), x, key='used ' + System.cause(v))
        if normal:
            rep.ob('accepted', label)
            for op, x, w, msg in mon.refused: rep.violate('accepted', w[0], w[1], '%s: %s is refused: %s' % (label, op, show(msg)[:60]), x, key='accepted ' + op)
        return [settle(mon, eng, x) for x, _ in R], [(settle(mon, eng, x), v) for x, v in X]

    def fresh(server, client, srows=()): return begin(mon, eng, server, client[0], client[1], srows)

    every = s.fs(); HEAD = HISTORY[-1][0]
    local = {'/x': 'mine', '/new': 'n', '/d/n/new': 'n2', '/same': None}
    conflict = {'/x': 'mine', '/y': 'mine2', '/d/x': None, '/z': 'mine3'}

    # ---- update
    for at in ('root', 'K1', 'K2', HEAD):
        for name, ch in (('', {}), (' with local changes', {'/new': 'n', '/same': None, '/same2': 'q'})):
            for argv in (('update',), ('update', '-f')):
                run('bvn %s at %s%s' % (' '.join(argv), at, name), fresh(every, copy(at, ch if at != 'root' else {'/new': 'n'})), argv)
    run('bvn update with filters', fresh(every, copy('K1', {}, '/big/*\n')), ('update',))
    run('bvn update of an empty server', fresh([], copy('root')), ('update',))
    run('bvn update of an empty server with local files', fresh([], copy('root', {'/new': 'n'})), ('update', '-f'))
    for a in (('server',), ('client',), ('manual', 'y'), ('manual', 'n')):
        for at in ('K1', 'K2'):
            run('bvn update with conflicts at %s, answering %s' % (at, ', '.join(a)), fresh(every, copy(at, conflict)), ('update',), a)
    for at in ('K1', 'K2'):
        for x, v in run('bvn update with conflicts at %s' % at, fresh(every, copy(at, conflict)), ('update',), ('manual', 'y'))[1]:
            fs = mon.fs(x); p = wc('/.bvn/conflict_resolution'); c = fs.get(p)
            if c is None or not is_str(c): continue
            for word in ('client', 'server'):
                f2 = dict(fs); f2[p] = const(cval(c).replace(b'Resolution: ', b'Resolution: ' + word.encode()))
                run('bvn update resolving every file to the %s at %s' % (word, at), x.setauto(fs=frozenset(f2.items())), ('update',))

    # ---- commit
    for name, ch in (('everything', local), ('a new file', {'/new': 'n'}), ('a change', {'/x': 'mine'}), ('a deletion', {'/same': None}), ('nothing', {}), ('an existing content', {'/copy': 's1'})):
        for argv in (('commit',), ('commit', '-m', 'a message')):
            ok, _ = run('bvn %s of %s' % (' '.join(argv), name), fresh(every, copy(HEAD, ch)), argv)
            for x in ok[:1]: run('bvn update after a commit of %s' % name, x, ('update',))
    run('a first commit', fresh([], copy('root', {'/new': 'n', '/d/new': 'n2'})), ('commit', '-m', 'first'))
    run('bvn commit at an old revision', fresh(every, copy('K1', local)), ('commit',), normal=False)
    mon.busy = True
    run('bvn commit while another one is going on', fresh(every, copy(HEAD, local)), ('commit',), normal=False)
    mon.busy = False
    other = [row('active_commit_exists', 1, user='someone else', ip=IP, session_token='token'), row('active_commit_changes', 1, path='/other', hash=oid('x1'), status='new')]
    run('bvn commit after the abandoned one of another user', fresh(every, copy(HEAD, local), other), ('commit',))
    # a commit that is cut off, and the next one
    for op in ('begin_commit', 'push_file', 'delete_files', 'commit'):
        for when in ('request', 'answer'):
            seen = []
            mon.drop = lambda o, n, hd: when if o == op and not seen and not seen.append(1) else None
            ok, bad = run('bvn commit, connection lost at the %s of %s' % (when, op), fresh(every, copy(HEAD, local)), ('commit',))
            mon.drop = None
            for x, v in bad[:1]:
                if op == 'commit' and when == 'answer': run('bvn commit after that', x, ('commit',), normal=False); run('bvn update after that', x, ('update',), ('client',)); continue
                run('bvn commit after losing the connection at the %s of %s' % (when, op), x, ('commit',))
                fs = mon.fs(x); fs.pop(wc('/new'), None); fs[wc('/x')] = content('other')
                run('bvn commit after losing the connection at the %s of %s and further changes' % (when, op), x.setauto(fs=frozenset(fs.items())), ('commit',))

    # ---- history
    for at in ('K1', HEAD):
        for cmd in ('list-changes', 'list-files'):
            more = [(), ('-h',), ('--v', h('K1')), ('--v', h('K2'))] + ([('-i',), ('-h', '-i'), ('-i', '--v', h('K3'))] if cmd == 'list-files' else [])
            for m in more: run('bvn %s %s at %s' % (cmd, ' '.join(m)[:12], at), fresh(every, copy(at, {}, '/big/*\n')), (cmd,) + m)
            for bad in ('ffff', 'no revision'): run('bvn %s --v %s' % (cmd, bad), fresh(every, copy(at)), (cmd, '--v', bad), normal=False)
        run('bvn list-versions at %s' % at, fresh(every, copy(at)), ('list-versions',))
    for srv, nm in ((every, ''), ([], ' of an empty server')): run('bvn list-versions of a new working copy' + nm, fresh(srv, copy('root')), ('list-versions',))
    run('bvn status', fresh(every, copy('K1', local)), ('status',))
    run('bvn list-ignored-files', fresh(every, copy('K1', local, '/big/*\n')), ('list-ignored-files',))

    # ---- revert, pull-ignore
    for m in (('/x',), ('--all',), ('-h', '/x'), ('--v', h('K1'), '/x'), ('--v', h('K1'), '--all'), ('-h', '--all'), ('/d/*', '/x')):
        for a in ('yes', 'no'):
            run('bvn revert %s, answering %s' % (' '.join(m).replace(h('K1'), 'K1'), a), fresh(every, copy('K2', local)), ('revert',) + m, (a, a[0]))
    run('bvn revert --v of an unknown revision', fresh(every, copy('K2', local)), ('revert', '--v', 'ffff', '/x'), ('yes', 'y'), normal=False)
    for a in ('delete', 'nothing'): run('bvn pull-ignore, answering %s' % a, fresh(every, copy('K2')), ('pull-ignore', '/d/*'), (a,))
    run('bvn pull-ignore -f', fresh(every, copy('K2', local)), ('pull-ignore', '-f', '/d/*'), ('nothing',))

    # ---- working copies of earlier versions
    def earlier(at):
        fs, rows = copy(at); fl = files[at]
        old = doc(fdict([('have_revision', oid(at)), ('format_version', 2), ('files', fdict([(p, fdict([('path', p), ('created', 500.0), ('last_mod', mon.times[wc(p), content(n)])])) for p, n in sorted(fl.items())]))]))
        return fs + [(wc('/.bvn/manifest.json'), old)], [r for r in rows if r[0] == 'meta']
    for cmd in (('update',), ('list-versions',)): run('bvn %s with a manifest of an earlier version' % cmd, fresh(every, earlier('K1')), cmd)

    # ---- logging in
    mon.users = {'bob': ['repo']}
    for users, what in (({'bob': ['repo']}, 'an unknown user'), ({'alice': []}, 'a user without access')):
        st = fresh(every, copy('K1'))
        st, cfg = build(st, server_config(users), 'config of ' + what)
        for x, _ in eng.run(eng.lookup_public('bversion.server:init_server'), [cfg], {}, mon.swap(st, 'server'), 'init_server')[0][:1]:
            run('bvn update by %s' % what, mon.swap(mon.forget(x), 'client'), ('update',), normal=False)
    mon.users = {'alice': ['repo']}
    missing = sorted(set(OPS) - mon.oks)
    rep.info['commands interpreted against the server'] = mon.total
    rep.info['operations'] = sorted(mon.ops)
    if missing and not rep.violations: raise AnalysisBroken('no command reaches a successful answer of %s' % ', '.join(missing))
    return [eng]
