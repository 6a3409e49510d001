"""Loads the analysed program: every module of /repo/bversion (and the cli_tools scripts) is parsed
from the current working tree on every run."""
import ast, os, sys, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """the code under analysis cannot be analysed (missing anchor, syntax error)"""


class Mod:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.globals_rebound = set()
        self.annotations = {}


class Func:
    def __init__(self, qual, node, mod, cls, parent):
        self.qual, self.node, self.mod, self.cls, self.parent = qual, node, mod, cls, parent
        args = node.args
        self.params = [a.arg for a in args.posonlyargs + args.args]
        self.kwonly = [a.arg for a in args.kwonlyargs]
        self.vararg = args.vararg.arg if args.vararg else None
        self.kwarg = args.kwarg.arg if args.kwarg else None
        self.annot = {a.arg: a.annotation for a in args.posonlyargs + args.args + args.kwonlyargs if a.annotation is not None}
        body = node.body if isinstance(node.body, list) else [ast.Return(node.body, lineno=node.lineno, col_offset=0)]
        self.body = body
        self.is_gen = False; self.locals = set(self.params + self.kwonly)
        if self.vararg: self.locals.add(self.vararg)
        if self.kwarg: self.locals.add(self.kwarg)
        self.globals = set(); self.nonlocals = set()
        self._scan(body)
        self.locals -= self.globals | self.nonlocals

    def _scan(self, body):
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name); todo.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda): continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)): self.is_gen = True
            if isinstance(n, ast.Global): self.globals.update(n.names)
            if isinstance(n, ast.Nonlocal): self.nonlocals.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): self.locals.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name: self.locals.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names: self.locals.add((a.asname or a.name).split('.')[0])
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # comprehension targets are local to it (handled by the interpreter); walrus leaks
                inner = set()
                for g in n.generators:
                    inner |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                keep = set(self.locals)
                for c in ast.iter_child_nodes(n): todo_c(c, self)
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr): keep.add(w.target.id)
                self.locals = keep
                continue
            todo.extend(ast.iter_child_nodes(n))


def todo_c(c, f):
    for n in ast.walk(c):
        if isinstance(n, (ast.Yield, ast.YieldFrom)): f.is_gen = True


class Desugar(ast.NodeTransformer):
    """for x in iter(f, end): body   ->   while True: x = f(); if x == end: break; body
    match statements of values, alternatives, sequences of values, captures   ->   if chains"""
    count = 0

    def visit_Match(self, n):
        self.generic_visit(n)
        self.count += 1
        var = '$match%d' % self.count
        load = lambda: ast.Name(id=var, ctx=ast.Load())

        def test(p, subj):
            """(condition or None if it always holds, [(name, expression)]); ValueError: not handled"""
            if isinstance(p, ast.MatchValue): return ast.Compare(left=subj(), ops=[ast.Eq()], comparators=[p.value]), []
            if isinstance(p, ast.MatchSingleton): return ast.Compare(left=subj(), ops=[ast.Is()], comparators=[ast.Constant(value=p.value)]), []
            if isinstance(p, ast.MatchOr):
                ts = [test(x, subj) for x in p.patterns]
                if any(b for _, b in ts): raise ValueError
                return (None if any(t is None for t, _ in ts) else ast.BoolOp(op=ast.Or(), values=[t for t, _ in ts])), []
            if isinstance(p, ast.MatchAs):
                t, b = (None, []) if p.pattern is None else test(p.pattern, subj)
                return t, b + ([(p.name, subj())] if p.name else [])
            if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
                ts = []; bs = []
                ts.append(ast.Compare(left=ast.Call(func=ast.Name(id='len', ctx=ast.Load()), args=[subj()], keywords=[]), ops=[ast.Eq()], comparators=[ast.Constant(value=len(p.patterns))]))
                for i, x in enumerate(p.patterns):
                    t, b = test(x, lambda i=i: ast.Subscript(value=subj(), slice=ast.Constant(value=i), ctx=ast.Load()))
                    if t is not None: ts.append(t)
                    bs += b
                return ast.BoolOp(op=ast.And(), values=ts) if len(ts) > 1 else ts[0], bs
            raise ValueError
        try:
            chain = []
            for c in n.cases:
                t, b = test(c.pattern, load)
                if c.guard is not None:
                    if b: raise ValueError
                    t = c.guard if t is None else ast.BoolOp(op=ast.And(), values=[t, c.guard])
                body = [ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=v) for x, v in b] + c.body
                chain.append((t or ast.Constant(value=True), body))
        except ValueError: return n
        orelse = []
        for t, body in reversed(chain): orelse = [ast.If(test=t, body=body, orelse=orelse)]
        out = [ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())], value=n.subject)] + orelse
        for o in out:
            for k in ast.walk(o):
                if not hasattr(k, 'lineno') and isinstance(k, (ast.stmt, ast.expr)): ast.copy_location(k, n)
        return out

    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'iter' and len(c.args) == 2 and not c.keywords and not n.orelse and isinstance(n.target, ast.Name):
            f = c.args[0]
            call = f.body if isinstance(f, ast.Lambda) and not f.args.args else ast.Call(func=f, args=[], keywords=[])
            x = lambda ctx: ast.Name(id=n.target.id, ctx=ctx)
            w = ast.While(test=ast.Constant(value=True), orelse=[], body=[
                ast.Assign(targets=[x(ast.Store())], value=call),
                ast.If(test=ast.Compare(left=x(ast.Load()), ops=[ast.Eq()], comparators=[c.args[1]]), body=[ast.Break()], orelse=[])] + n.body)
            for k in ast.walk(w):
                if not hasattr(k, 'lineno') and isinstance(k, (ast.stmt, ast.expr)): ast.copy_location(k, n)
            return w
        return n


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}; self.funcs = {}; self.classes = {}; self.digest = hashlib.sha256()
        self.nodes = 0
        root = os.path.join(self.repo, 'bversion')
        if not os.path.isdir(root): raise AnalysisBroken('no package bversion in ' + self.repo)
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    name = os.path.relpath(p, self.repo)[:-3].replace('/', '.')
                    if name.endswith('.__init__'): name = name[:-9]
                    self.load(name, p)
        ct = os.path.join(self.repo, 'cli_tools')
        if os.path.isdir(ct):
            for f in sorted(os.listdir(ct)):
                p = os.path.join(ct, f)
                if os.path.isfile(p):
                    with open(p, errors='replace') as fh: first = fh.readline()
                    if 'python' in first: self.load('cli_tools.' + f, p)
        for m in self.mods.values(): self.index(m)

    def load(self, name, p):
        with open(p, encoding='utf8') as f: src = f.read()
        self.digest.update(src.encode())
        try: tree = ast.parse(src, p)
        except SyntaxError as e: raise AnalysisBroken('cannot parse %s: %s' % (p, e))
        tree = ast.fix_missing_locations(Desugar().visit(tree))
        for i, n in enumerate(ast.walk(tree)): self.nodes += 1
        self.mods[name] = Mod(name, p, tree, src)

    def index(self, m):
        def walk(node, prefix, cls, parent):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = self.uniq(prefix + '.' + ch.name)
                    f = Func(q, ch, m, cls, parent); ch._func = f
                    self.funcs[q] = f
                    m.globals_rebound |= f.globals
                    walk(ch, q, None, f)
                elif isinstance(ch, ast.Lambda):
                    q = self.uniq(prefix + '.<lambda>')
                    f = Func(q, ch, m, None, parent); ch._func = f; self.funcs[q] = f
                    walk(ch, q, None, f)
                elif isinstance(ch, ast.ClassDef):
                    q = self.uniq(prefix + '.' + ch.name); ch._qual = q
                    self.classes[q] = C(q, ch, m)
                    walk(ch, q, q, parent)
                else: walk(ch, prefix, cls, parent)
        walk(m.tree, m.name, None, None)
        for c in self.classes.values():
            if c.mod is m:
                for ch in c.node.body:
                    if isinstance(ch, ast.FunctionDef): c.methods[ch.name] = ch._func
        for n in m.tree.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name): m.annotations[n.target.id] = n.annotation

    def uniq(self, q):
        if q not in self.funcs and q not in self.classes: return q
        i = 2
        while q + '~%d' % i in self.funcs: i += 1
        return q + '~%d' % i

    def find_func(self, qual):
        f = self.funcs.get(qual)
        if f is None: raise AnalysisBroken('anchor function %s not found' % qual)
        return f


class C:
    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod, self.methods = qual, node, mod, {}
