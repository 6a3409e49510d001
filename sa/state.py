"""Abstract states: variable stores, an abstract heap, finite fact tables and the property
automaton of the running check.  States are merged (joined) at control-flow joins."""
from .terms import *

DICT, LIST, SET, INST = 'dict', 'list', 'set', 'inst'


class H:
    """abstract heap object (immutable).
    known: tuple of (key, value) (dict, inst) or of values (list, set), definitely present
    rest:  frozenset of (key, value, guards), possibly present any number of times
    base:  opaque term whose further contents are unknown, or None if the object is closed
    extra: class name (inst) / default factory term (dict)"""
    __slots__ = ('kind', 'known', 'rest', 'base', 'extra', '_k', '_h', '_c')

    def __init__(self, kind, known=(), rest=frozenset(), base=None, extra=None):
        self.kind, self.known, self.rest, self.base, self.extra = kind, tuple(known), frozenset(rest), base, extra
        self._k = (self.kind, self.known, self.rest, self.base, self.extra); self._h = hash(self._k); self._c = None

    def key(self): return self._k
    def __eq__(self, o): return self is o or isinstance(o, H) and self._h == o._h and self._k == o._k
    def __hash__(self): return self._h

    def cand(self):
        """all sub-terms of the contents (what the object may refer to)"""
        if self._c is None:
            c = set()
            for t in self.terms(): c |= subterms_c(t)
            if isinstance(self.extra, T): c |= subterms_c(self.extra)
            for k, v, g in self.rest:
                for a, b in g: c |= subterms_c(a)
            self._c = frozenset(x for x in c if x.op != 'const')
        return self._c
    def __repr__(self): return '%s%r+%r%s' % (self.kind, self.known, set(self.rest), ' base' if self.base else '')

    def get(self, k):
        if self.kind not in (DICT, INST): return None
        for kk, v in self.known:
            if kk is k: return v
        return None

    def put(self, k, v):
        out = []; done = False
        for kk, vv in self.known:
            if kk is k: out.append((k, v)); done = True
            else: out.append((kk, vv))
        if not done: out.append((k, v))
        return H(self.kind, out, self.rest, self.base, self.extra)

    def drop(self, k):
        return H(self.kind, [x for x in self.known if x[0] is not k], self.rest, self.base, self.extra)

    def weak(self, k, v, guards=frozenset()):
        rest = self.rest
        if len(rest) < 24: rest = rest | {(k, v, guards)}
        elif (k, v) not in {(a, b) for a, b, _ in rest}:
            rest = rest | {(k, mk('mix', tuple(sorted(leaves(v), key=lambda x: x.id)[:8])), frozenset())}
        else: rest = rest | {(k, v, frozenset())}
        return H(self.kind, self.known, rest, self.base, self.extra)

    def with_(self, **kw):
        d = dict(kind=self.kind, known=self.known, rest=self.rest, base=self.base, extra=self.extra)
        d.update(kw)
        return H(**d)

    def terms(self):
        if self.kind in (DICT, INST):
            for k, v in self.known: yield k; yield v
        else: yield from self.known
        for k, v, g in self.rest:
            if k is not None: yield k
            yield v
        if self.base is not None: yield self.base


_FK = {}


def _frame(d):
    r = _FK.get(id(d))
    if r is None or len(r[3]) != len(d):
        if len(_FK) > 40000: _FK.clear()
        c = set()

        def cand(t):
            if isinstance(t, (tuple, frozenset)):
                for a in t: cand(a)
            elif isinstance(t, T): c.update(subterms_c(t))
        for v in d.values(): cand(v)
        r = _FK[id(d)] = (d, frozenset(d.items()), frozenset(x for x in c if x.op != 'const'), d)
    return r


_FSK = {}


def frames_key(fs):
    r = _FSK.get(id(fs))
    if r is None:
        if len(_FSK) > 40000: _FSK.clear()
        r = _FSK[id(fs)] = (fs, frozenset([(f, frame_key(d)) for f, d in fs.items() if d]))
    return r[1]


def frame_key(d): return _frame(d)[1]
def frame_cand(d): return _frame(d)[2]


class State:
    __slots__ = ('frames', 'heap', 'facts', 'eqs', 'auto', 'univ', 'epochs', 'trace', 'pending', '_key')

    def __init__(self):
        self.frames = {}; self.heap = {}; self.facts = {}; self.eqs = {}; self.auto = {}
        self.univ = {}; self.epochs = {}; self.trace = None; self.pending = None; self._key = None

    def clone(self):
        s = State.__new__(State)
        s.frames = self.frames; s.heap = self.heap; s.facts = self.facts; s.eqs = self.eqs
        s.auto = self.auto; s.univ = self.univ; s.epochs = self.epochs; s.trace = self.trace
        s.pending = self.pending; s._key = None
        return s

    # copy-on-write updates -----------------------------------------------------------
    def setvar(self, fid, name, v):
        s = self.clone()
        f = dict(s.frames.get(fid, ())); f[name] = v
        s.frames = dict(s.frames); s.frames[fid] = f
        return s

    def setheap(self, t, h):
        s = self.clone(); s.heap = dict(s.heap); s.heap[t] = h
        return s

    def setauto(self, **kw):
        s = self.clone(); s.auto = dict(s.auto)
        for k, v in kw.items():
            if v is None: s.auto.pop(k, None)
            else: s.auto[k] = v
        return s

    def mark(self, *tags):
        m = self.auto.get('marks', frozenset())
        n = m | frozenset(tags)
        return self if n == m else self.setauto(marks=n)

    def unmark(self, *tags):
        m = self.auto.get('marks', frozenset())
        return self.setauto(marks=m - frozenset(tags)) if m & frozenset(tags) else self

    def has(self, tag): return tag in self.auto.get('marks', ())
    @property
    def marks(self): return self.auto.get('marks', frozenset())

    def step(self, loc):
        s = self.clone(); s.trace = (s.trace, loc)
        return s

    def tracelist(self, n=40):
        out = []; t = self.trace
        while t is not None and len(out) < n: out.append(t[1]); t = t[0]
        return out[::-1]

    def key(self):
        if self._key is None:
            self._key = (frames_key(self.frames),
                         frozenset(self.heap.items()), frozenset(self.facts.items()),
                         frozenset(self.eqs.items()), frozenset(self.auto.items()),
                         frozenset(self.univ.items()), frozenset(self.epochs.items()), self.pending)
        return self._key

    # facts ---------------------------------------------------------------------------
    def kill(self, pred):
        """drop all facts about which pred(atom) holds"""
        nf = {a: v for a, v in self.facts.items() if not pred(a)}
        ne = {a: v for a, v in self.eqs.items() if not (pred(a) or pred(v))}
        if len(nf) == len(self.facts) and len(ne) == len(self.eqs): return self
        s = self.clone(); s.facts = nf; s.eqs = ne
        return s

    def rename(self, m):
        s = self.clone(); memo = {}
        r = lambda t: subst(t, m, memo)
        s.frames = {f: {n: r(v) for n, v in d.items()} for f, d in self.frames.items()}
        s.heap = {}
        for t, h in self.heap.items():
            if h.kind in (DICT, INST): known = [(r(k), r(v)) for k, v in h.known]
            else: known = [r(v) for v in h.known]
            nh = H(h.kind, known, [(r(k) if k is not None else None, r(v), frozenset((r(a), b) for a, b in g)) for k, v, g in h.rest],
                   r(h.base) if h.base is not None else None, r(h.extra) if isinstance(h.extra, T) else h.extra)
            nt = r(t)
            s.heap[nt] = merge_h(s.heap[nt], nh, '') if nt in s.heap else nh
        s.facts = {r(a): v for a, v in self.facts.items()}
        s.eqs = {r(a): r(v) for a, v in self.eqs.items()}
        s.univ = {k: frozenset(frozenset((r(a), v) for a, v in S) for S in u) for k, u in self.univ.items()}
        s.auto = {k: subst(v, m, memo) if isinstance(v, (T, tuple, frozenset)) else v for k, v in self.auto.items()}
        return s


# ---------------------------------------------------------------------------------------
def phi(name, *vals):
    alts = set()
    for v in vals:
        if v.op == 'phi': alts |= v.args[1]
        else: alts.add(v)
    if len(alts) == 1: return next(iter(alts))
    if len(alts) > 1:                   # a value accumulated piecewise: a repetition of its pieces
        grown = [a for a in alts if a.op in ('bin', 'cat') and any(b is not a and b.op != 'const' and b in subterms_c(a) for b in alts)]
        if grown or any(a.op == 'acc' for a in alts) and any(a.op == 'acc' or any(x.op == 'acc' for x in subterms_c(a)) for a in alts):
            accs = [a for a in alts if a.op == 'acc' or a in grown or any(x.op == 'acc' and x.args[0] == name for x in subterms_c(a))]
            if len(accs) > 1 or grown:
                pieces = set()

                def pc(t):
                    if t.op == 'acc': pieces.update(t.args[1])
                    elif t.op in ('bin', 'cat') and t.args[0] in ('add', '+') and len(t.args) == 3: pc(t.args[1]); pc(t.args[2])
                    elif t.op == 'cat':
                        for x in t.args:
                            for y in (x if isinstance(x, tuple) else (x,)):
                                if isinstance(y, T): pc(y)
                    elif t.op == 'phi':
                        for x in t.args[1]: pc(x)
                    else: pieces.add(t)
                inner = set()
                for a in accs: pc(a); inner |= {x for x in subterms_c(a) if x is not a}
                alts = {a for a in alts if a not in accs and not (a in inner and not is_const(a))} | {mk('acc', name, frozenset(pieces))}
    if len(alts) == 1: return next(iter(alts))
    if len(alts) > 10:
        alts = {mk('mix', tuple(sorted({l for a in alts for l in leaves(a)}, key=lambda x: x.id)[:12]))}
    ints = [a for a in alts if is_const(a) and type(cval(a)) is int]
    if len(ints) > 2: alts = (alts - set(ints)) | {sym('int:any')}
    return mk('phi', name, frozenset(alts))


def merge_h(a, b, name):
    if a == b: return a
    if a.kind != b.kind: return a
    base = a.base if a.base is not None else b.base
    rest = set(a.rest | b.rest)
    if a.kind in (DICT, INST):
        da, db = dict(a.known), dict(b.known)
        known = []
        for k, v in a.known:
            if k in db: known.append((k, v if v is db[k] else phi(name + '.' + (str(cval(k)) if is_const(k) else '*'), v, db[k])))
            elif a.kind == INST: known.append((k, v))
            else: rest.add((k, v, frozenset()))
        for k, v in b.known:
            if k not in da:
                if a.kind == INST: known.append((k, v))
                else: rest.add((k, v, frozenset()))
    else:
        if a.known == b.known: known = a.known
        else:
            known = [v for v in a.known if v in b.known]
            for v in list(a.known) + list(b.known):
                if v not in known: rest.add((None, v, frozenset()))
    if len(rest) > 24:
        rest = {(k, v, frozenset()) for k, v, _ in rest}
    return H(a.kind, known, rest, base, a.extra if a.extra is not None else b.extra)


def both_impossible(m, n):
    """minimal sets of conditions excluded by m as well as by n (each a family of excluded sets, upward closed)"""
    com = m & n
    out = set(com)
    x = sorted((S for S in m - com), key=lambda S: (len(S), sorted(a.id for a, _ in S)))[:10]
    y = sorted((S for S in n - com), key=lambda S: (len(S), sorted(a.id for a, _ in S)))[:10]
    for p in x:
        for q in y:
            u = p | q
            if len(u) > 3 or any((a, not b) in u for a, b in u) or any(c <= u for c in com): continue
            out.add(u)
    out = {S for S in out if not any(o < S for o in out)}
    if len(out) > 40: out = set(sorted(out, key=lambda S: (len(S), sorted(a.id for a, _ in S)))[:40])
    return frozenset(out)


def merge(a, b):
    s = State()
    for fid in set(a.frames) | set(b.frames):
        fa, fb = a.frames.get(fid), b.frames.get(fid)
        if fa is None or fb is None: s.frames[fid] = fa or fb; continue
        if fa is fb or fa == fb: s.frames[fid] = fa; continue
        f = dict(fa)
        for n, v in fb.items():
            if n in f and f[n] is not v: f[n] = phi(n, f[n], v)
            else: f[n] = v
        s.frames[fid] = f
    if a.heap is b.heap: s.heap = a.heap
    else:
        s.heap = dict(a.heap)
        for t, h in b.heap.items():
            if t in s.heap: s.heap[t] = merge_h(s.heap[t], h, show_short(t))
            elif t.op == 'obj': s.heap[t] = h
            else: s.heap[t] = H(h.kind, (), list(h.rest) + ([(k, v, frozenset()) for k, v in h.known] if h.kind in (DICT, INST) else [(None, v, frozenset()) for v in h.known]), h.base or t, h.extra)
        for t, h in a.heap.items():
            if t not in b.heap and t.op != 'obj':
                s.heap[t] = H(h.kind, (), list(h.rest) + ([(k, v, frozenset()) for k, v in h.known] if h.kind in (DICT, INST) else [(None, v, frozenset()) for v in h.known]), h.base or t, h.extra)
    s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
    if a.facts is not b.facts:
        ea = [(k, v) for k, v in a.facts.items() if k.op == 'exists']; eb = [(k, v) for k, v in b.facts.items() if k.op == 'exists']
        if ea and eb:               # 'no element satisfies S' implies the same for every stronger S, dually for 'some element does'
            for k, v in ea + eb:
                if k in s.facts: continue
                o = eb if k in a.facts else ea
                if any(w is v and (k2.args[0] <= k.args[0] if v is False else k2.args[0] >= k.args[0]) for k2, w in o): s.facts[k] = v
    s.eqs = {k: v for k, v in a.eqs.items() if b.eqs.get(k) is v}
    s.auto = a.auto
    s.univ = {k: both_impossible(a.univ[k], b.univ[k]) for k in a.univ if k in b.univ}
    s.epochs = a.epochs
    if a.epochs != b.epochs:
        s.epochs = {k: (a.epochs.get(k) if a.epochs.get(k) == b.epochs.get(k) else ('%s|%s' % tuple(sorted((str(a.epochs.get(k)), str(b.epochs.get(k))))))[:400]) for k in set(a.epochs) | set(b.epochs)}
    s.trace = a.trace
    s.pending = a.pending
    return s
