"""Conformance of the interpreter with Python on small constant programs: `python3 tools/conform.py [n]`.
Every function of the corpus is run by Python and by the interpreter; a different result is reported as WRONG, several or
undetermined results as IMPRECISE.  (Development aid: no check runs it.)"""
import os, sys, tempfile, shutil, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.setrecursionlimit(12000)
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, 'conform_corpus.py')).read()
d = tempfile.mkdtemp()
os.makedirs(d + '/bversion')
open(d + '/bversion/__init__.py', 'w').close(); open(d + '/bversion/corpus.py', 'w').write(src)
from sa.program import Program
from sa.terms import *
from sa.state import *
from sa.framework import make_engine
from sa.engine import Monitor, H, LIST, SET, DICT, INST
class All:
    def __contains__(self, x): return True
class M(Monitor): noraise = All()
eng = make_engine(M(), None, Program(d))
eng.unroll = 40; eng.reclimit = 8
ns = {}; exec(compile(src, 'corpus', 'exec'), ns)


class Und(Exception): pass


def val(t, st):
    if t.op in ('cat', 'path'): t = canon_str(t) if t.op == 'cat' else canon_str(mk('cat', (t,))) if False else const('/'.join(str(val(x, st)) for x in t.args[0]))
    if is_const(t): return cval(t)
    if t.op == 'tup': return tuple(val(x, st) for x in t.args[0])
    h = st.heap.get(t)
    if h is not None:
        if h.rest or h.base is not None: raise Und(show(t))
        if h.kind == LIST: return [val(x, st) for x in h.known]
        if h.kind == SET: return {val(x, st) for x in h.known}
        if h.kind == DICT: return {val(k, st): val(v, st) for k, v in h.known}
    if t.op == 'call' and t.args[0] in ('set', 'frozenset', 'list', 'tuple', 'sorted', 'reversed', 'iter', 'range', 'enumerate') or t.op in ('view', 'meth'):
        try: k, r = eng.iter_plan(t, st)
        except Exception: raise Und(show(t))
        if r: raise Und(show(t))
        f = {'set': set, 'frozenset': frozenset, 'tuple': tuple}.get(t.args[0] if t.op == 'call' else '', list)
        return f(val(x, st) for x in k)
    if t.op in ('cmp', 'not'):
        v = eng.decide(t, st)
        if v is not None: return v
    raise Und(show(t)[:200])


def norm(v):
    if isinstance(v, (list, tuple)): return ('seq', [norm(x) for x in v])
    if isinstance(v, dict): return ('dict', [(k, norm(x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)): return ('set', sorted(map(repr, v)))
    if type(v) is bool: return v
    return v


only = sys.argv[1:]; bad = 0; n = 0
for name, f in sorted(eng.prog.funcs.items()):
    nm = name.split('.')[-1]
    if not nm.startswith('t_') or only and nm not in only: continue
    n += 1
    try: want = ('v', norm(ns[nm]()))
    except Exception as e: want = ('x', type(e).__name__)
    try:
        fv = eng.lookup_public('bversion.corpus:' + nm)
        R, X = eng.run(fv, [], {}, eng.base or State(), nm)
        got = []
        for st, v in R:
            try: g = ('v', norm(val(v, st)))
            except Und as u: g = ('?', str(u))
            if g not in got: got.append(g)
        for st, e in X:
            g = ('x', e.args[0] if e.op == 'exc' else show(e))
            if g not in got: got.append(g)
        if got == [want]: continue
        bad += 1
        kind = 'IMPRECISE' if want in got or any(g[0] == '?' for g in got) else 'WRONG'
        print('%-9s %-22s want %s got %s' % (kind, nm, str(want)[:120], str(got)[:300]))
    except Exception as e:
        bad += 1; print('ERROR     %-22s %r' % (nm, e)); 
        if only: traceback.print_exc()
print('%d of %d differ' % (bad, n))
shutil.rmtree(d)
