"""Parser for the small SQL dialect used by the repository (constant statements only)."""
import re

TOK = re.compile(r"\s*('(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|[A-Za-z_][A-Za-z_0-9.]*|\?\d*|:[A-Za-z_]+|\d+(?:\.\d+)?|<>|!=|<=|>=|==|[(),=<>*;+\-|/])")


class Sql:
    def __init__(self, verb, table, cols=(), values=(), where=(), sets=(), order=None, orreplace=False, complex=False, raw='', conflict=None, limit=False):
        self.verb, self.table, self.cols, self.values, self.where, self.sets = verb, table, tuple(cols), tuple(values), tuple(where), tuple(sets)
        self.order, self.orreplace, self.complex, self.raw, self.conflict, self.limit = order, orreplace, complex, raw, conflict, limit

    def __repr__(self): return '%s %s where %s' % (self.verb, self.table, self.where)


def tokens(s):
    out = []; i = 0
    s = re.sub(r'--[^\n]*', ' ', s)
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            return None
        out.append(m.group(1)); i = m.end()
    return out


def parse(s, params):
    """params: list of terms for the placeholders in order, or None if unknown; names for ':x'"""
    t = tokens(s)
    if not t: return None
    low = [x.lower() for x in t]
    pos = [0]; idx = [0]

    def value(i):
        """(value, next) where value is ('param', term) / ('lit', python) / ('expr', text)"""
        x = t[i]
        if x.startswith('?'):
            k = idx[0]; idx[0] += 1
            if params is not None and not isinstance(params, dict) and k < len(params): return ('param', params[k]), i + 1
            return ('unknown', None), i + 1
        if x.startswith(':'):
            if isinstance(params, dict) and x[1:] in params: return ('param', params[x[1:]]), i + 1
            return ('unknown', None), i + 1
        if x[0] in '\'"': return ('lit', x[1:-1]), i + 1
        if re.match(r'\d', x): return ('lit', x), i + 1
        return ('expr', x), i + 1

    def conds(i):
        out = []; comp = False
        if i < len(t) and low[i] == 'where':
            i += 1
            while i < len(t) and low[i] not in ('order', 'limit', ';', 'group'):
                if low[i] in ('and',): i += 1; continue
                if low[i] in ('or', '(', ')', 'not', 'exists', 'select'): comp = True; i += 1; continue
                if i + 2 < len(t) and low[i + 1] in ('=', '==', '<', '>', '<=', '>=', '!=', '<>', 'is', 'like'):
                    col, op = t[i], {'==': '=', '<>': '!=', 'is': '='}.get(low[i + 1], low[i + 1])
                    j = i + 2
                    if low[j] == 'not': op = '!='; j += 1
                    v, j = value(j)
                    if col.startswith('?'): comp = True
                    out.append((col.lower(), op, v)); i = j
                elif i + 2 < len(t) and low[i + 1] == 'in':
                    j = i + 2; vals = []
                    if low[j] == '(':
                        j += 1
                        while j < len(t) and t[j] != ')':
                            if t[j] == ',': j += 1; continue
                            if low[j] == 'select': comp = True
                            v, j = value(j); vals.append(v)
                        j += 1
                    out.append((t[i].lower(), 'in', tuple(vals))); i = j
                else: comp = True; i += 1
        order = None; limit = False
        while i < len(t):
            if low[i] == 'order' and i + 2 < len(t):
                order = (t[i + 2].lower(), 'desc' if i + 3 < len(t) and low[i + 3] == 'desc' else 'asc'); i += 3
            elif low[i] == 'limit': limit = True; i += 1
            else: i += 1
        return out, comp, order, limit

    try:
        if low[0] == 'select':
            f = low.index('from'); cols = [x for x in t[1:f] if x != ',']
            w, comp, order, limit = conds(f + 2)
            rest = low[f + 2:f + 3]
            if rest and rest[0] not in ('where', 'order', 'limit', ';'): comp = True
            return Sql('select', low[f + 1], cols, (), w, (), order, raw=s, complex=comp, limit=limit)
        if low[0] == 'delete':
            w, comp, _, _ = conds(3)
            return Sql('delete', low[2], (), (), w, raw=s, complex=comp)
        if low[0] == 'update':
            i = 1; rep = False
            if low[1] == 'or': rep = low[2] == 'replace'; i = 3
            table = low[i]; i += 2; sets = []
            while i < len(t) and low[i] != 'where':
                if t[i] == ',': i += 1; continue
                col = t[i].lower(); v, j = value(i + 2); sets.append((col, v)); i = j
            w, comp, _, _ = conds(i)
            return Sql('update', table, (), (), w, sets, raw=s, complex=comp)
        if low[0] in ('insert', 'replace'):
            i = 1; rep = low[0] == 'replace'; confl = None
            if low[1] == 'or': rep = low[2] == 'replace'; confl = low[2]; i = 3
            i += 1; table = low[i]; i += 1; cols = []
            if i < len(t) and t[i] == '(':
                i += 1
                while t[i] != ')':
                    if t[i] != ',': cols.append(t[i].lower())
                    i += 1
                i += 1
            vals = []
            if i < len(t) and low[i] == 'values':
                i += 2
                while t[i] != ')':
                    if t[i] == ',': i += 1; continue
                    v, i = value(i); vals.append(v)
                i += 1
            if 'conflict' in low[i:] and 'update' in low[i:]: rep = True
            elif 'conflict' in low[i:]: confl = 'ignore'
            return Sql('insert', table, cols, vals, (), orreplace=rep, raw=s, conflict=confl)
        if low[0] in ('create', 'drop', 'alter', 'pragma', 'begin', 'commit', 'rollback', 'vacuum', 'savepoint', 'release'):
            tb = None
            if low[0] == 'create' and 'table' in low:
                i = low.index('table') + 1
                while low[i] in ('if', 'not', 'exists'): i += 1
                tb = low[i]
            return Sql(low[0], tb, raw=s)
    except (IndexError, ValueError): pass
    return Sql('?', None, raw=s, complex=True)
