"""The copy rule: every chunk read from a source reaches the sink whole and in order, and reading only stops at the end of it."""
from .terms import *
from .state import *
from .framework import Mon


def is_eof(st, c, size=None):
    if c is NONE or is_const(c) and cval(c) in (b'', ''): return True
    for a, v in st.facts.items():
        if v is False and a.op in ('nonempty', 'truthy') and a.args[0] is c: return True
        if v is True and a.op == 'cmp' and a.args[0] == 'eq' and c in a.args[1:] and any(is_const(x) and cval(x) in (None, b'', '') for x in a.args[1:]): return True
        if a.op == 'cmp' and any(x.op == 'call' and x.args[0] == 'len' and x.args[1][0] is c for x in a.args[1:] if isinstance(x, T)):
            l, r = a.args[1], a.args[2]
            if v is True and a.args[0] == 'eq' and const(0) in (l, r): return True
            if size is not None and size in (l, r) and (v is True and a.args[0] == 'lt' and r is size or v is False and a.args[0] in ('le', 'ge') and l is size and a.args[0] == 'le'): return True
    e = st.eqs.get(c)
    return e is not None and is_const(e) and cval(e) in (None, b'', '')


class Copy(Mon):
    """subclass hooks: reads(ev, st) -> (chunk term, size term or None, whole?) ; sinks(ev, st) -> list of terms handed on"""
    short_is_eof = False

    def __init__(self, rep, rule, what):
        super().__init__(rep); self.rule, self.what = rule, what; self.nread = 0

    def rel(self, t): return t.op == 'fresh' and t.args[0] in ('.read', '.recv')

    def bad(self, ev, st, msg): self.rep.violate(self.rule, ev.loc, ev.func, '%s: %s' % (self.what, msg), st, key='%s:%s' % (self.what, msg[:40]))

    def reads(self, ev, st): return None
    def sinks(self, ev, st): return None

    def event(self, ev, st):
        r = self.reads(ev, st)
        if r is not None:
            c, size, whole = r; self.nread += 1
            self.rep.ob(self.rule, '%s %s' % (ev.func, ev.loc))
            if any(m[0] == 'pend' for m in st.marks): self.bad(ev, st, 'the next part is read although the previous one was not handed on')
            if st.has(('whole',)) and not whole: return st
            return st.unmark(*[m for m in st.marks if m[0] in ('pend', 'last')]).mark(('pend', c), ('last', c, size), *([('whole',)] if whole else []))
        s = self.sinks(ev, st)
        if s is not None:
            pend = [m for m in st.marks if m[0] == 'pend']
            for t in s:
                t = canon_str(t)
                for m in pend:
                    if t is m[1]: st = st.unmark(m)
                    elif m[1] in subterms_c(t) and t.op in ('slice', 'sub', 'meth'): self.bad(ev, st, 'only a part or a changed form of what was read is handed on (%s)' % show(t)[:80])
                    elif m[1] in subterms_c(t): st = st.unmark(m)
                if not pend and any(m[0] == 'last' and m[1] in subterms_c(t) for m in st.marks): self.bad(ev, st, 'a part that was read once is handed on twice')
        return st

    def finish(self, at, st, need=True):
        last = [m for m in st.marks if m[0] == 'last']
        if not last:
            if need: self.bad(at, st, 'nothing is read')
            return
        for m in last:
            eof = is_eof(st, m[1], m[2] if self.short_is_eof else None)
            if not eof and not st.has(('whole',)): self.bad(at, st, 'reading stops before the end of the data is known to be reached')
            if not eof and st.has(('pend', m[1])): self.bad(at, st, 'the last part that was read is not handed on')
