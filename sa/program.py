"""Front end: parses the analysed tree and resolves names, classes and types.

Nothing of the analysed program is imported or executed; everything below
works on `ast` trees of the files found under ``src_py`` on this run.
"""

import ast
import hashlib
import os
from pathlib import Path


class AnalysisError(Exception):
    """An anchor vanished or the analyser met something it cannot decide"""


BUILTIN_EXC = {
    'BaseException': None,
    'Exception': 'BaseException',
    'GeneratorExit': 'BaseException',
    'KeyboardInterrupt': 'BaseException',
    'SystemExit': 'BaseException',
    'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError',
    'AssertionError': 'Exception',
    'AttributeError': 'Exception',
    'EOFError': 'Exception',
    'ImportError': 'Exception',
    'LookupError': 'Exception',
    'IndexError': 'LookupError',
    'KeyError': 'LookupError',
    'NameError': 'Exception',
    'OSError': 'Exception',
    'ConnectionError': 'OSError',
    'ConnectionResetError': 'ConnectionError',
    'BrokenPipeError': 'ConnectionError',
    'FileNotFoundError': 'OSError',
    'TimeoutError': 'OSError',
    'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError',
    'StopIteration': 'Exception',
    'TypeError': 'Exception',
    'ValueError': 'Exception',
    'UnicodeError': 'ValueError',
    'asyncio.CancelledError': 'BaseException',
    'asyncio.TimeoutError': 'Exception',
    'asyncio.QueueEmpty': 'Exception',
    'hat.aio.QueueClosedError': 'Exception',
    'hat.aio.QueueEmptyError': 'Exception',
    'hat.aio.QueueFullError': 'Exception',
    'hat.aio.CancelledWithResultError': 'asyncio.CancelledError',
}

import builtins as _b
BUILTINS = set(dir(_b))


class Func:
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_lambda = isinstance(node, ast.Lambda)
        self.decorators = ([] if self.is_lambda
                           else [ast.unparse(d) for d in node.decorator_list])
        self.is_property = any(d == 'property' or d.endswith('.getter')
                               for d in self.decorators)
        self.is_static = 'staticmethod' in self.decorators
        self.is_classmethod = 'classmethod' in self.decorators
        self.is_abstract = any('abstractmethod' in d for d in self.decorators)
        self.is_gen = (False if self.is_lambda else _has_yield(node))
        self.locals = _local_names(node)

    @property
    def name(self):
        return self.qual.rsplit('.', 1)[-1]

    @property
    def loc(self):
        return f'{self.module.rel}:{self.node.lineno}'

    @property
    def params(self):
        a = self.node.args
        return [i.arg for i in (*a.posonlyargs, *a.args)]

    def all_params(self):
        a = self.node.args
        r = [*a.posonlyargs, *a.args, *a.kwonlyargs]
        if a.vararg:
            r.append(a.vararg)
        if a.kwarg:
            r.append(a.kwarg)
        return r

    def __repr__(self):
        return f'<Func {self.qual}>'


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.methods = {}
        self.bases = []
        self.is_namedtuple = False
        self.is_enum = False
        self.fields = []        # namedtuple (name, annotation, default)
        self.members = {}       # enum name -> ast value
        self.attr_types = {}
        self.ctor_attrs = set()
        self.mutable_attrs = set()

    @property
    def name(self):
        return self.qual.rsplit('.', 1)[-1]

    def __repr__(self):
        return f'<Class {self.qual}>'


class Module:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.is_pkg = is_pkg
        self.bindings = {}      # name -> ('g', qual) | ('expr', ast)
        self.stars = []


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _local_names(node):
    names = set()
    a = node.args
    for i in (*a.posonlyargs, *a.args, *a.kwonlyargs):
        names.add(i.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    if isinstance(node, ast.Lambda):
        todo = [node.body]
    else:
        todo = list(node.body)
    outer = set()
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            outer.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, ast.alias):
            names.add((n.asname or n.name).split('.')[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return names - outer


class Program:

    def __init__(self, root, extra=()):
        self.root = Path(root)
        # module name -> statements analysed as if they were at its end
        self.extra = dict(extra)
        self.modules = {}
        self.functions = {}     # qual -> Func
        self.classes = {}       # qual -> Class
        self.func_of_node = {}  # nid -> Func
        self._next_nid = 0
        self.nodes = {}
        self._canon_cache = {}
        self._load()
        self._index()
        self._resolve_classes()
        self._infer_attrs()

    # loading ------------------------------------------------------------

    def _load(self):
        base = self.root / 'src_py'
        if not base.is_dir():
            raise AnalysisError(f'missing source root {base}')
        h = hashlib.sha256()
        for dirpath, dirnames, filenames in sorted(os.walk(base)):
            dirnames.sort()
            for fn in sorted(filenames):
                if not fn.endswith('.py'):
                    continue
                path = Path(dirpath) / fn
                rel = path.relative_to(self.root).as_posix()
                parts = list(path.relative_to(base).with_suffix('').parts)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                text = path.read_text(encoding='utf-8')
                h.update(rel.encode())
                h.update(text.encode())
                tree = ast.parse(text, filename=str(path))
                if name in self.extra:
                    more = ast.parse(self.extra[name])
                    tree.body.extend(more.body)
                self.add_module(name, path, rel, tree, is_pkg)
        self.digest = h.hexdigest()

    def add_module(self, name, path, rel, tree, is_pkg=False):
        m = Module(name, path, rel, tree, is_pkg)
        self.modules[name] = m
        for n in ast.walk(tree):
            n._nid = self._next_nid
            n._mod = m
            self.nodes[self._next_nid] = n
            self._next_nid += 1
        return m

    def _index(self):
        for m in self.modules.values():
            self._index_module(m)
        # star imports (iterate to a fixpoint)
        changed = True
        while changed:
            changed = False
            for m in self.modules.values():
                for src in m.stars:
                    sm = self.modules.get(src)
                    if not sm:
                        continue
                    names = self._exports(sm)
                    for k in names:
                        if k not in m.bindings:
                            m.bindings[k] = ('g', f'{src}.{k}')
                            changed = True

    def _exports(self, m):
        b = m.bindings.get('__all__')
        if b and b[0] == 'expr' and isinstance(b[1], (ast.List, ast.Tuple)):
            return [e.value for e in b[1].elts
                    if isinstance(e, ast.Constant)]
        return [k for k in m.bindings if not k.startswith('_')]

    def _index_module(self, m):

        def visit(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.bindings[a.asname] = ('g', a.name)
                        else:
                            top = a.name.split('.')[0]
                            m.bindings[top] = ('g', top)
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ''
                    if s.level:
                        pkg = m.name.split('.')
                        if not m.is_pkg:
                            pkg = pkg[:-1]
                        pkg = pkg[:len(pkg) - (s.level - 1)]
                        base = '.'.join(pkg + ([s.module] if s.module else []))
                    for a in s.names:
                        if a.name == '*':
                            m.stars.append(base)
                        else:
                            m.bindings[a.asname or a.name] = (
                                'g', f'{base}.{a.name}')
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f'{m.name}.{s.name}'
                    m.bindings[s.name] = ('g', q)
                    self._add_func(q, s, m)
                elif isinstance(s, ast.ClassDef):
                    q = f'{m.name}.{s.name}'
                    if q in self.classes:
                        continue
                    m.bindings[s.name] = ('g', q)
                    self._add_class(q, s, m)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.bindings[t.id] = ('expr', s.value)
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        m.bindings[s.target.id] = ('expr', s.value)
                elif isinstance(s, ast.If):
                    visit(s.orelse)
                    visit(s.body)
                elif isinstance(s, ast.Try):
                    visit(s.body)
                    saved = dict(m.bindings)
                    for h in s.handlers:
                        visit(h.body)
                    # a handler providing None is "feature not available"
                    for k, v in saved.items():
                        nv = m.bindings.get(k)
                        if nv is not v and not (
                                nv[0] == 'expr' and
                                isinstance(nv[1], ast.Constant) and
                                nv[1].value is None):
                            pass
                    visit(s.orelse)
                    visit(s.finalbody)
                elif isinstance(s, (ast.With, ast.For, ast.While)):
                    visit(s.body)

        visit(m.tree.body)
        # lambdas / nested functions
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Lambda):
                f = Func(f'{m.name}.<lambda:{n.lineno}:{n.col_offset}>', n, m)
                self.func_of_node[n._nid] = f
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if n._nid not in self.func_of_node:
                    f = Func(f'{m.name}.<local>.{n.name}', n, m)
                    self.func_of_node[n._nid] = f
        todo = [(m.tree, None)]
        while todo:
            n, up = todo.pop()
            f = self.func_of_node.get(getattr(n, '_nid', None)) if isinstance(
                n, (ast.FunctionDef, ast.AsyncFunctionDef,
                    ast.Lambda)) else None
            if f is not None and up is not None and f.parent is None:
                f.parent = up
            todo += [(c, f or up) for c in ast.iter_child_nodes(n)]

    def _add_func(self, q, node, m, cls=None):
        f = Func(q, node, m, cls)
        if q not in self.functions or not f.is_abstract:
            self.functions[q] = f
        self.func_of_node[node._nid] = f
        return f

    def _add_class(self, q, node, m):
        c = Class(q, node, m)
        self.classes[q] = c

        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._add_func(f'{q}.{s.name}', s, m, c)
                    c.methods[s.name] = f
                elif isinstance(s, ast.AnnAssign) and isinstance(
                        s.target, ast.Name):
                    c.fields.append((s.target.id, s.annotation, s.value))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.members[t.id] = s.value
        body(node.body)
        return c

    # name resolution ----------------------------------------------------

    def canon(self, qual, _depth=0):
        """Canonical dotted name following re-exports and aliases"""
        if qual in self._canon_cache:
            return self._canon_cache[qual]
        r = self._canon(qual, _depth)
        self._canon_cache[qual] = r
        return r

    def _canon(self, qual, depth):
        if depth > 30:
            return qual
        if (qual in self.modules or qual in self.functions or
                qual in self.classes):
            return qual
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            prefix = '.'.join(parts[:i])
            if prefix in self.modules:
                m = self.modules[prefix]
                rest = parts[i:]
                b = m.bindings.get(rest[0])
                if b is None:
                    if f'{prefix}.{rest[0]}' in self.modules:
                        continue
                    return qual
                if b[0] == 'g':
                    nq = '.'.join([b[1], *rest[1:]])
                    if nq == qual:
                        return qual
                    return self.canon(nq, depth + 1)
                d = self._alias_expr(m, b[1])
                if d:
                    nq = '.'.join([d, *rest[1:]])
                    if nq == qual:
                        return qual
                    return self.canon(nq, depth + 1)
                return qual
            if prefix in self.classes:
                c = self.classes[prefix]
                rest = parts[i:]
                f = self.find_method(c, rest[0])
                if f and len(rest) == 1:
                    return f.qual
                return qual
        return qual

    def _alias_expr(self, m, expr):
        d = dotted(expr)
        if not d:
            return None
        top = d.split('.')[0]
        b = m.bindings.get(top)
        if b and b[0] == 'g':
            return '.'.join([b[1], *d.split('.')[1:]])
        if b and b[0] == 'expr' and top != d:
            q = self._alias_expr(m, b[1])
            if q:
                return '.'.join([q, *d.split('.')[1:]])
        return None

    def resolve_name(self, m, name):
        """Canonical global bound to `name` in module `m` (or None)"""
        b = m.bindings.get(name)
        if b is None:
            if name in BUILTINS:
                return name
            return None
        if b[0] == 'g':
            return self.canon(b[1])
        return self.canon(f'{m.name}.{name}')

    def resolve_dotted(self, m, expr):
        d = dotted(expr)
        if d is None:
            return None
        top, *rest = d.split('.')
        q = self.resolve_name(m, top)
        if q is None:
            return None
        return self.canon('.'.join([q, *rest])) if rest else q

    def global_expr(self, qual):
        """AST of a module level (or enum) constant"""
        mod, _, name = qual.rpartition('.')
        m = self.modules.get(mod)
        if m:
            b = m.bindings.get(name)
            if b and b[0] == 'expr':
                return m, b[1]
        return None

    # classes -------------------------------------------------------------

    def _resolve_classes(self):
        for c in self.classes.values():
            for b in c.node.bases:
                e = b.value if isinstance(b, ast.Subscript) else b
                q = self.resolve_dotted(c.module, e) or ast.unparse(e)
                c.bases.append(q)
            c.is_namedtuple = any(b in ('typing.NamedTuple',
                                        'collections.namedtuple')
                                  for b in c.bases)
            c.is_enum = any(b in ('enum.Enum', 'enum.IntEnum', 'enum.Flag')
                            for b in c.bases)

    def mro(self, c):
        seen = [c]
        todo = list(c.bases)
        while todo:
            b = todo.pop(0)
            bc = self.classes.get(b)
            if bc and bc not in seen:
                seen.append(bc)
                todo.extend(bc.bases)
        return seen

    def ext_bases(self, c):
        r = []
        for i in self.mro(c):
            r.extend(b for b in i.bases if b not in self.classes)
        return r

    def find_method(self, c, name):
        for i in self.mro(c):
            if name in i.methods:
                return i.methods[name]
        return None

    def is_subclass(self, q, base):
        if q == base:
            return True
        c = self.classes.get(q)
        if c:
            return any(self.is_subclass(b, base) for b in c.bases)
        p = BUILTIN_EXC.get(q, '?')
        if p is None or p == '?':
            return False
        return self.is_subclass(p, base)

    def subclasses(self, q):
        return [c for c in self.classes.values()
                if c.qual != q and self.is_subclass(c.qual, q)]

    # types ----------------------------------------------------------------

    def ann_type(self, m, ann):
        """annotation AST -> ('cls', qual) | ('gen', name, args) | None"""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann2 = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
            return self.ann_type(m, ann2)
        if isinstance(ann, ast.Constant):
            return ('none',)
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            ts = [self.ann_type(m, ann.left), self.ann_type(m, ann.right)]
            ts = [t for t in ts if t is not None and t != ('none',)]
            flat = []
            for t in ts:
                if t[0] == 'union':
                    flat.extend(t[1])
                else:
                    flat.append(t)
            if len(flat) == 1:
                return flat[0]
            if not flat:
                return None
            return ('union', tuple(flat))
        if isinstance(ann, ast.Subscript):
            q = self.resolve_dotted(m, ann.value)
            if q in ('typing.Optional',):
                return self.ann_type(m, ann.slice)
            sl = ann.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if q and q in self.classes:
                return ('cls', q)
            return ('gen', q or '?',
                    tuple(self.ann_type(m, e) for e in elts))
        q = self.resolve_dotted(m, ann)
        if q is None:
            return None
        if q in self.classes:
            return ('cls', q)
        ge = self.global_expr(q)
        if ge:
            m2, e = ge
            if isinstance(e, (ast.BinOp, ast.Subscript, ast.Name,
                              ast.Attribute)):
                if e is ann:
                    return None
                return self.ann_type(m2, e)
        return ('ext', q)

    def param_type(self, f, name):
        for a in f.all_params():
            if a.arg == name:
                if a.annotation is not None:
                    return self.ann_type(f.module, a.annotation)
        return None

    def return_type(self, f):
        if f.is_lambda:
            return None
        if f.node.returns is not None:
            return self.ann_type(f.module, f.node.returns)
        busy = self.__dict__.setdefault('_returning', set())
        if f.qual in busy:
            # recursion tells nothing that other returns don't
            return None
        busy.add(f.qual)
        ts = set()
        try:
            for n in walk_own(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    ts.add(self.static_type(f, n.value))
        finally:
            busy.discard(f.qual)
        ts.discard(None)
        if len(ts) == 1:
            return next(iter(ts))
        return None

    def static_type(self, f, e, _d=0):
        if _d > 6 or e is None:
            return None
        if isinstance(e, ast.Await):
            return self.static_type(f, e.value, _d + 1)
        if isinstance(e, ast.Constant):
            return (('ext', type(e.value).__name__)
                    if e.value is not None else None)
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ('ext', 'dict')
        if isinstance(e, (ast.Set, ast.SetComp)):
            return ('ext', 'set')
        if isinstance(e, (ast.List, ast.ListComp)):
            return ('ext', 'list')
        if isinstance(e, ast.Name):
            t = self.param_type(f, e.id)
            if t:
                return t
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == e.id
                        for t in n.targets):
                    t = self.static_type(f, n.value, _d + 1)
                    if t:
                        return t
            if e.id == 'self' and f.cls:
                return ('cls', f.cls.qual)
            return None
        if isinstance(e, ast.Attribute):
            bt = self.static_type(f, e.value, _d + 1)
            if bt and bt[0] == 'cls':
                return self.attr_type(bt[1], e.attr)
            return None
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                t = self.static_type(f, v, _d + 1)
                if t:
                    return t
            return None
        if isinstance(e, ast.Call):
            q = self.resolve_dotted(f.module, e.func)
            if q in self.classes:
                return ('cls', q)
            if q in self.functions:
                return self.return_type(self.functions[q])
            if q and q[:1].islower() is False:
                return ('ext', q)
            if q in EXT_RETURNS:
                return ('ext', EXT_RETURNS[q])
            if isinstance(e.func, ast.Attribute):
                bt = self.static_type(f, e.func.value, _d + 1)
                if e.func.attr in ('execute', 'spawn') and e.args:
                    q2 = self.resolve_dotted(f.module, e.args[0])
                    if q2 in self.functions:
                        return self.return_type(self.functions[q2])
                if bt and bt[0] == 'cls':
                    c = self.classes[bt[1]]
                    mth = self.find_method(c, e.func.attr)
                    if mth:
                        return self.return_type(mth)
                if e.func.attr == 'create_future':
                    return ('ext', 'asyncio.Future')
            if q and '.' in q and q.rsplit('.', 1)[1][:1].isupper():
                return ('ext', q)
            if q:
                return ('ext', q) if q in ('dict', 'set', 'list',
                                           'collections.deque',
                                           'collections.defaultdict') else None
        return None

    def attr_type(self, cq, attr):
        c = self.classes.get(cq)
        if not c:
            return None
        for i in self.mro(c):
            for n, ann, _ in i.fields:
                if n == attr:
                    return self.ann_type(i.module, ann)
            if attr in i.attr_types:
                return i.attr_types[attr]
            if attr in i.methods and i.methods[attr].is_property:
                return self.return_type(i.methods[attr])
        return None

    def _infer_attrs(self):
        writes = []
        for f in list(self.func_of_node.values()):
            if f.is_lambda:
                continue
            fresh = {}      # local name -> class qual (constructed here)
            for n in walk_own(f.node):
                if (isinstance(n, ast.Assign) and len(n.targets) == 1 and
                        isinstance(n.targets[0], ast.Name) and
                        isinstance(n.value, ast.Call)):
                    q = self.resolve_dotted(f.module, n.value.func)
                    if q in self.classes:
                        fresh[n.targets[0].id] = q
            for n in walk_own(f.node):
                for tgt, val in _attr_writes(n):
                    if not isinstance(tgt.value, ast.Name):
                        writes.append((None, tgt.attr, None, f, False))
                        continue
                    b = tgt.value.id
                    if b in fresh:
                        writes.append((fresh[b], tgt.attr, val, f, True))
                    elif f.cls and f.params and b == f.params[0]:
                        writes.append((f.cls.qual, tgt.attr, val, f,
                                       f.name == '__init__'))
                    else:
                        writes.append((None, tgt.attr, None, f, False))
        for cq, attr, val, f, ctor in writes:
            if cq:
                c = self.classes[cq]
                (c.ctor_attrs if ctor else c.mutable_attrs).add(attr)
            else:
                for c in self.classes.values():
                    if attr in c.ctor_attrs or attr in c.mutable_attrs:
                        c.mutable_attrs.add(attr)
        for _ in range(3):
            for cq, attr, val, f, ctor in writes:
                if cq and val is not None:
                    c = self.classes[cq]
                    if attr not in c.attr_types:
                        t = self.static_type(f, val)
                        if t:
                            c.attr_types[attr] = t
        # class level annotations without value
        self.all_attr_writes = writes

    # lookup helpers ---------------------------------------------------------

    def func(self, qual):
        q = self.canon(qual)
        f = self.functions.get(q)
        if f is None:
            raise AnalysisError(f'anchor function vanished: {qual}')
        return f

    def cls(self, qual):
        q = self.canon(qual)
        c = self.classes.get(q)
        if c is None:
            raise AnalysisError(f'anchor class vanished: {qual}')
        return c

    def method(self, cqual, name):
        c = self.cls(cqual)
        f = self.find_method(c, name)
        if f is None:
            raise AnalysisError(f'anchor method vanished: {cqual}.{name}')
        return f


EXT_RETURNS = {
    'asyncio.get_running_loop': 'asyncio.AbstractEventLoop',
    'hat.drivers.chatter.listen': 'hat.drivers.chatter.Server',
    'hat.drivers.chatter.connect': 'hat.drivers.chatter.Connection',
    'collections.deque': 'collections.deque',
    'collections.defaultdict': 'collections.defaultdict',
    'dict': 'dict', 'set': 'set', 'list': 'list',
}


def _attr_writes(n):
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                yield t, n.value
            elif isinstance(t, (ast.Tuple, ast.List)):
                vals = (n.value.elts
                        if isinstance(n.value, (ast.Tuple, ast.List)) and
                        len(n.value.elts) == len(t.elts)
                        else [None] * len(t.elts))
                for e, v in zip(t.elts, vals):
                    if isinstance(e, ast.Attribute):
                        yield e, v
    elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
        yield n.target, None
    elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
        yield n.target, n.value
    elif isinstance(n, ast.Delete):
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                yield t, None
    elif isinstance(n, (ast.For, ast.AsyncFor)) and isinstance(
            n.target, ast.Attribute):
        yield n.target, None


def walk_own(node):
    """Nodes of a function body without nested functions/lambdas/classes"""
    todo = (list(node.body) if isinstance(node.body, list) else [node.body])
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return f'{b}.{e.attr}' if b else None
    return None
