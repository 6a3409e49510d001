"""Shared by C16, C17, C18: every sequence of working-copy operations, stopped at every point, followed by recovery (again stopped
at every point), over the abstract file system and database of world.py."""
from ..world import *

DATA, CONF = '/w/', '.bvn'
T_ = lambda n: sym('#' + n, None, True)
NAMES = {'p': T_('p'), 'q': T_('q')}
FULL = {n: mkpath([const('/w'), s]) for n, s in NAMES.items()}
NEW = T_('new')
JFS = 'bversion.storage.journaling_filesystem:journaling_filesystem'
CDB = 'bversion.storage.client_db:client_db'
CFI = 'bversion.storage.client_filesystem_interface:client_filesystem_interface'
LOC = 'bversion/storage/journaling_filesystem.py'


def tracked(fs):
    """the working-copy files among the files of an abstract file system"""
    ctl = path_parts(mkpath([const('/w'), const(CONF)]))
    return frozenset((p, c) for p, c in (fs.items() if isinstance(fs, dict) else fs) if tuple(path_parts(p)[:len(ctl)]) != tuple(ctl))


def journal(rows): return [r for r in rows if r[0] == 'journal']


def manifest(rows): return frozenset((canon_str(dict(r[2])['path']), dict(r[2]).get('server_file_hash', NONE)) for r in rows if r[0] == 'files' and 'path' in dict(r[2]))


class Driver:
    def __init__(self, rep, errors=0):
        self.mon = World(rep, errors); self.rep = rep
        self.eng = make_engine(self.mon); self.eng.unroll = 24; self.eng.mon = self.mon
        self.meta = None

    def open(self, fs, rows, top=False):
        """a process starts: opens the database and the file system; list of (state, cdb, jfs or interface)"""
        eng = self.eng; out = []
        st = World.start(eng.base, fs, rows)
        er, self.mon.errors = self.mon.errors, 0
        rets, exc = eng.run(eng.lookup_public(CDB), [const(DATA + CONF + '/manifest.db')], {}, st, 'open database')
        for s, cdb in rets:
            r2, _ = eng.run(eng.lookup_public(JFS), [cdb, const(DATA), const(CONF)], {}, s, 'open file system')
            for s2, j in r2:
                if not top: out.append((s2, cdb, j)); continue
                r3, _ = eng.run(eng.lookup_public(CFI), [cdb, j], {}, s2, 'open interface')
                out += [(s3, cdb, i) for s3, i in r3]
        self.mon.errors = er
        if not out: raise AnalysisBroken('the client database or the journaling file system cannot be opened')
        return out

    def call(self, st, o, name, args, kw=None):
        fv = self.eng.attr_of(st, o, name, None)[0][1]
        if fv.op != 'bound': raise AnalysisBroken('%s is gone' % name)
        return self.eng.run(fv, args, kw or {}, st, name)

    def op(self, st, o, op):
        k, a = op[0], [NAMES[x] for x in op[1:]]
        if k == 'put': return self.call(st, o, 'file_put_contents', [a[0], NEW])
        if k == 'puts': return self.call(st, o, 'file_put_contents', [a[0], mk('ext', 'writer')])
        if k == 'move': return self.call(st, o, 'move_file', a)
        return self.call(st, o, 'delete_file', a)

    def recover(self, fs, rows):
        """the next process begins a transaction; [(files, rows)] afterwards, None for a failing recovery"""
        out = []
        er, self.mon.errors = self.mon.errors, 0
        for st, cdb, j in self.open(fs, rows):
            rets, exc = self.call(st, j, 'begin', [])
            out += [(s.auto['fs'], s.auto['db'][0]) for s, v in rets]
            if exc or not rets: out.append(None)
        self.mon.errors = er
        return out

    def snapshots(self):
        s, self.mon.snaps = self.mon.snaps, []
        self.mon.seen = set()
        return s


def effect(fs, op):
    """what an operation is meant to do to the working-copy files; None if it must fail"""
    fs = dict(fs); k = op[0]; p = [FULL[x] for x in op[1:]]
    if k in ('put', 'puts'): fs[p[0]] = NEW
    elif p[0] not in fs: return None
    elif k == 'move': fs[p[1]] = fs.pop(p[0])
    else: fs.pop(p[0])
    return frozenset(fs.items())


def initial():
    out = []
    for a in (0, 1):
        for b in (0, 1):
            out.append(frozenset(([(FULL['p'], T_('A'))] if a else []) + ([(FULL['q'], T_('B'))] if b else [])))
    return out


def ctl(*c): return mkpath([const('/w'), const(CONF)] + [const(x) for x in c])


LEFT = frozenset([(ctl('tmp', 'tmp_%d' % i), T_('stale%d' % i)) for i in (1, 2, 3)] + [(ctl('downloading'), T_('stale')), (ctl('back', '.bk_idx'), const(b'3'))])
OPS = [('put', 'p'), ('put', 'q'), ('puts', 'p'), ('move', 'p', 'q'), ('move', 'q', 'p'), ('del', 'p'), ('del', 'q')]


def text(op): return {'put': 'putting %s', 'puts': 'putting %s by a writer function', 'move': 'moving %s to %s', 'del': 'deleting %s'}[op[0]] % op[1:]


def canonical(init, seq):
    """p and q are interchangeable: keep one of each pair of mirrored cases"""
    sw = {'p': 'q', 'q': 'p'}
    a = tuple(tuple(o) for o in seq); b = tuple((o[0],) + tuple(sw[x] for x in o[1:]) for o in seq)
    ia = (FULL['p'] in dict(init), FULL['q'] in dict(init))
    return (a, ia) <= (b, ia[::-1])
