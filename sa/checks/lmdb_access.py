"""LMDB backend: where the database may be used and what may be shared."""

import ast

from ..check import check
from ..program import AnalysisError, dotted
from ..terms import *   # NOQA
from .util import *     # NOQA
from .clients import self_attr_term
from .eventer_server2 import THROW
from .runners import outside, cancelled, failure, at_calls, awaited
from .syncing import done_of
from .lmdb_backend import LM, own_args

ENV = LM + 'environment.'
OPS = {'begin', 'cursor', 'open_db'}
LAZY = {'map', 'filter', 'zip', 'iter', 'reversed', 'enumerate'}
MUTATE = {'append', 'appendleft', 'add', 'pop', 'popleft', 'popitem',
          'extend', 'extendleft', 'update', 'clear', 'remove', 'discard',
          'setdefault', 'insert', 'sort', 'reverse', 'rotate',
          'difference_update', 'intersection_update'}

GENERIC = MUTATE | {'get', 'items', 'keys', 'values', 'close', 'count',
                    'index', 'copy', 'next', 'put'}


def body(f):
    """nodes of a function, lambdas and comprehensions included"""
    todo = (list(f.node.body) if isinstance(f.node.body, list)
            else [f.node.body])
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Access:

    def __init__(self, prog):
        self.prog = prog
        self.funcs = {q: f for q, f in prog.functions.items()
                      if q.startswith(LM) and not q.startswith(
                          (LM + 'manager', LM + 'convert'))}
        self.by_name = {}
        for f in self.funcs.values():
            if f.cls:
                self.by_name.setdefault(f.name, []).append(f)
        self.calls = {q: [n for n in body(f) if isinstance(n, ast.Call)]
                      for q, f in self.funcs.items()}
        self.edges = {q: [(n, t) for n in cs for t in self.targets(
            self.funcs[q], n.func)] for q, cs in self.calls.items()}
        self.direct = {q: [n for n in cs if self.is_op(self.funcs[q], n)]
                       for q, cs in self.calls.items()}
        self.touch = {q for q, ns in self.direct.items()
                      if ns and not self.funcs[q].is_async}
        while True:
            more = {q for q, es in self.edges.items()
                    if q not in self.touch and not self.funcs[q].is_async and
                    any(t.qual in self.touch for _, t in es)}
            if not more:
                break
            self.touch |= more

    def local(self, f, name):
        q = f
        while q is not None:
            t = self.prog.functions.get(f'{q.qual}.{name}')
            if t:
                return t
            q = q.parent if not isinstance(q.parent, str) else \
                self.prog.functions.get(q.parent)
        return None

    def targets(self, f, e, deep=0):
        """functions an expression may stand for"""
        prog = self.prog
        if isinstance(e, ast.Call) and e.args and (
                dotted(e.func) or '').split('.')[-1] == 'partial':
            return self.targets(f, e.args[0])
        if isinstance(e, ast.Lambda):
            return []
        if isinstance(e, ast.Name):
            t = self.local(f, e.id)
            if t:
                return [t]
            if e.id in f.locals and deep < 3:
                r = []
                for n in body(f):
                    if isinstance(n, ast.Assign) and any(
                            isinstance(x, ast.Name) and x.id == e.id
                            for x in n.targets) and not isinstance(
                                n.value, ast.Call):
                        r += self.targets(f, n.value, deep + 1)
                return r
        q = prog.resolve_dotted(f.module, e) if not (
            isinstance(e, ast.Name) and e.id in f.locals) else None
        if q in prog.functions:
            return [prog.functions[q]]
        if q in prog.classes:
            m = prog.find_method(prog.classes[q], '__init__')
            return [m] if m else []
        if isinstance(e, ast.Attribute):
            t = prog.static_type(f, e.value)
            if t and t[0] == 'cls':
                m = prog.find_method(prog.classes[t[1]], e.attr)
                r = [m] if m else []
                for s in prog.subclasses(t[1]):
                    c = prog.classes.get(s) if isinstance(s, str) else s
                    if c and e.attr in c.methods:
                        r.append(c.methods[e.attr])
                return [x for x in r if x]
            if t and t[0] == 'ext':
                return []
            return ([] if e.attr in GENERIC else
                    list(self.by_name.get(e.attr, [])))
        return []

    def is_op(self, f, n):
        q = self.prog.resolve_dotted(f.module, n.func)
        if q and q.startswith('lmdb.'):
            return True
        if not isinstance(n.func, ast.Attribute):
            return False
        t = self.prog.static_type(f, n.func.value)
        if t and t[0] == 'ext' and t[1].startswith('lmdb.'):
            return True
        return t is None and n.func.attr in OPS

    def executed(self):
        """(place, calling function, function) given to an executor"""
        r = []
        for q, cs in self.calls.items():
            f = self.funcs[q]
            for n in cs:
                if not isinstance(n.func, ast.Attribute) or not n.args:
                    continue
                t = self.prog.static_type(f, n.func.value)
                if n.func.attr == 'execute' or n.func.attr == 'spawn' and t \
                        and t[1].endswith('aio.Executor') or \
                        n.func.attr == 'spawn' and 'executor' in ast.unparse(
                            n.func.value):
                    for x in self.targets(f, n.args[0]):
                        if not x.is_async:
                            r.append((n, f, x))
        return r

    def closure(self, quals):
        seen, todo = set(), list(quals)
        while todo:
            q = todo.pop()
            if q in seen or q not in self.funcs:
                continue
            seen.add(q)
            for _, t in self.edges[q]:
                todo.append(t.qual)
        return seen

    def kept(self):
        """classes whose instances outlive the function that makes them"""
        prog = self.prog
        r = set()
        for f in prog.functions.values():
            mine = {}
            for n in body(f):
                if isinstance(n, ast.Call):
                    q = prog.resolve_dotted(f.module, n.func)
                    if q in prog.classes and q.startswith(LM):
                        mine[id(n)] = q
            if not mine:
                continue
            names = {}
            for n in body(f):
                v = getattr(n, 'value', None)
                q = mine.get(id(v))
                if isinstance(n, ast.Assign) and q:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            names.setdefault(t.id, set()).add(q)
                        else:
                            r.add(q)
            for n in body(f):
                v = getattr(n, 'value', None)
                if isinstance(n, (ast.Return, ast.Yield)) and v is not None:
                    out = [v]
                elif isinstance(n, ast.Assign) and any(
                        not isinstance(t, ast.Name) for t in n.targets):
                    out = [v]
                elif isinstance(n, ast.Call) and (
                        id(n) in mine or isinstance(n.func, ast.Attribute)
                        and n.func.attr in MUTATE):
                    out = [*n.args, *(k.value for k in n.keywords)]
                else:
                    continue
                for e in out:
                    for x in (e, *getattr(e, 'elts', ())):
                        if id(x) in mine:
                            r.add(mine[id(x)])
                        elif isinstance(x, ast.Name):
                            r |= names.get(x.id, set())
        return r

    def accesses(self, f):
        """(class, attribute, write, node) of objects not made here"""
        fresh = set()
        for n in body(f):
            if isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Call) and self.prog.resolve_dotted(
                        f.module, n.value.func) in self.prog.classes:
                fresh |= {t.id for t in n.targets
                          if isinstance(t, ast.Name)}
        writes = {}
        def root(e):
            """innermost attribute of an object of a known class"""
            r = None
            while True:
                if isinstance(e, ast.Attribute):
                    t = self.prog.static_type(f, e.value)
                    if t and t[0] == 'cls' and t[1].startswith(LM):
                        c = self.prog.classes[t[1]]
                        if not c.is_namedtuple or r is None:
                            r = e
                    e = e.value
                elif isinstance(e, ast.Subscript):
                    e = e.value
                else:
                    return r
        for n in body(f):
            tg = []
            if isinstance(n, (ast.Assign, ast.Delete)):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in MUTATE:
                tg = [n.func.value]
            for t in tg:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List))
                          else [t]):
                    a = root(x)
                    if a is not None:
                        writes[id(a)] = a
        for n in body(f):
            if not isinstance(n, ast.Attribute):
                continue
            if isinstance(n.value, ast.Name) and n.value.id in fresh:
                continue
            t = self.prog.static_type(f, n.value)
            if not t or t[0] != 'cls' or not t[1].startswith(LM):
                continue
            c = self.prog.classes[t[1]]
            if c.is_enum or self.prog.find_method(c, n.attr):
                continue
            yield t[1], n.attr, id(n) in writes, n


@check('C23')
def access(ctx):
    prog = ctx.prog
    a = Access(prog)
    ctx.count('functions scanned', len(a.funcs))
    ctx.need('functions that use the database', len(a.touch))
    loc = lambda f, n: f'{f.module.rel}:{n.lineno}'
    # ------------------------------------------------ confinement
    n_calls = 0
    for q, f in sorted(a.funcs.items()):
        if not f.is_async:
            continue
        bad = list(a.direct[q])
        for n, t in a.edges[q]:
            n_calls += 1
            if t.qual in a.touch:
                bad.append(n)
        ctx.ob('database-only-in-executor', short(q), not bad,
               loc(f, bad[0]) if bad else f.loc,
               'the database is used on the event loop' + (
                   f': {ast.unparse(bad[0])[:60]}' if bad else ''))
    ctx.need('calls of coroutines', n_calls)
    # callbacks of the loop
    bad = []
    for q, cs in a.calls.items():
        f = a.funcs[q]
        for n in cs:
            nm = (dotted(n.func) or '').split('.')[-1]
            if nm not in ('call_soon', 'call_later', 'call_at',
                          'call_soon_threadsafe', 'add_done_callback',
                          'call', 'call_on_done', 'call_on_cancel'):
                continue
            for x in n.args:
                if isinstance(x, (ast.Name, ast.Attribute)) and any(
                        t.qual in a.touch for t in a.targets(f, x)):
                    bad.append((f, n))
    ctx.ob('database-only-in-executor', 'loop callbacks', not bad,
           loc(*bad[0]) if bad else '',
           'a function that uses the database is run by the event loop')
    # other modules
    bad = []
    for q, f in prog.functions.items():
        if q in a.funcs or q.startswith((LM + 'manager', LM + 'convert')) \
                or not q.startswith(EV):
            continue
        for n in body(f):
            if isinstance(n, ast.Call):
                t = prog.resolve_dotted(f.module, n.func)
                if t in a.touch:
                    bad.append((f, n))
    bad = [(f, n) for f, n in bad if 'manager' not in f.qual]
    ctx.ob('database-only-in-executor', 'other modules', not bad,
           loc(*bad[0]) if bad else '',
           'the database is used outside of the backend')
    # ------------------------------------------------ what leaves it
    ex = a.executed()
    ctx.need('functions given to the executor', len(ex))
    for f in {t.qual: t for _, _, t in ex}.values():
        ctx.ob('results-are-complete', short(f.qual), not lazy(a, f), f.loc,
               'the executor returns a result that is worked out later')
    # ------------------------------------------------ shared state
    kept = a.kept()
    made = set()
    for n, f, t in ex:
        if f.cls is None and f.parent is None and t.cls is not None and any(
                prog.resolve_dotted(f.module, c.func) == t.cls.qual
                for c in a.calls[f.qual]):
            made.add(t.qual)
    first = {t.qual for n, f, t in ex if t.qual in made or (
        f.cls is None and f.parent is None)}
    side = a.closure({t.qual for _, _, t in ex} - first)
    loop = a.closure({q for q, f in a.funcs.items() if f.is_async and not (
        f.cls is None and f.name == 'create')})
    for q, f in a.funcs.items():
        # methods other modules call
        if f.cls and not f.is_async and not f.name.startswith('_') and \
                q not in a.touch and f.name != '__init__':
            loop |= a.closure({q})
    acc = {q: list(a.accesses(a.funcs[q])) for q in side | loop
           if a.funcs[q].name != '__init__'}
    off = {}
    for q in side:
        for c, at, w, n in acc.get(q, ()):
            off.setdefault((c, at), []).append((a.funcs[q], w, n))
    on = {}
    for q in loop:
        for c, at, w, n in acc.get(q, ()):
            on.setdefault((c, at), []).append((a.funcs[q], w, n))
    shared = set(off) & set(on)
    ctx.need('attributes used on both sides', len(shared))
    for k in sorted(set(off)):
        if k[0] not in kept:
            # an instance belongs to the one call it is made for
            continue
        ws = [x for x in off[k] if x[1]]
        os = [x for x in on.get(k, ()) if x[1]]
        bad = None
        if ws and k in on:
            bad = ws[0]
        elif os:
            bad = os[0]
        ctx.ob('nothing-shared-with-the-executor',
               f'{k[0].split(".")[-1]}.{k[1]}', bad is None,
               loc(bad[0], bad[2]) if bad else '',
               'an attribute is changed while the executor may use it')
    handed_over(ctx, a, loc)
    environment(ctx)


def handed_over(ctx, a, loc):
    """what a flush has taken is not changed by who still refers to it"""
    prog = ctx.prog

    def attrs_of(e):
        """(class, attribute) an expression is"""
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) \
                and e.value.id == 'self':
            return e.attr
        return None
    taken, dd = set(), set()
    for q, f in a.funcs.items():
        for n in body(f):
            if not isinstance(n, (ast.Assign, ast.AnnAssign)):
                continue
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in tg:
                pairs = [(t, n.value)]
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                        n.value, (ast.Tuple, ast.List)) and len(
                            t.elts) == len(n.value.elts):
                    pairs = list(zip(t.elts, n.value.elts))
                for x, v in pairs:
                    if not isinstance(x, ast.Attribute):
                        continue
                    st = prog.static_type(f, x.value)
                    if not st or st[0] != 'cls':
                        continue
                    k = (st[1], x.attr)
                    if isinstance(v, ast.Call) and (dotted(
                            v.func) or '').endswith('defaultdict'):
                        dd.add(k)
                    if f.cls and attrs_of(x) and f.name != '__init__' and \
                            any(isinstance(r, ast.Return) and
                                r.value is not None for r in body(f)) and \
                            any(isinstance(y, ast.Attribute) and
                                y.attr == x.attr and isinstance(
                                    y.ctx, ast.Load) for y in body(f)):
                        taken.add(k)
    ctx.need('attributes a flush takes', len(taken))
    memo = {}

    def changes(f, names, isdd, d=0):
        """first node of f that changes what one of names refers to"""
        key = (f.qual, frozenset(names), isdd)
        if key in memo or d > 4:
            return memo.get(key)
        memo[key] = None
        hit = None

        def base(e):
            while isinstance(e, (ast.Subscript, ast.Attribute)):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None
        for n in body(f):
            if isinstance(n, ast.Subscript) and base(n) in names:
                if not isinstance(n.ctx, ast.Load) or isdd and isinstance(
                        n.value, ast.Name):
                    hit = hit or n
            elif isinstance(n, ast.Attribute) and not isinstance(
                    n.ctx, ast.Load) and base(n) in names:
                hit = hit or n
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and \
                        n.func.attr in MUTATE and base(n.func) in names:
                    hit = hit or n
                ts = a.targets(f, n.func)
                for t in ts:
                    ps = t.params[1:] if t.cls and not t.is_static else \
                        t.params
                    mine = {p for p, x in zip(ps, n.args)
                            if isinstance(x, ast.Name) and x.id in names} | {
                        k.arg for k in n.keywords if isinstance(
                            k.value, ast.Name) and k.value.id in names}
                    if mine and not t.is_async and changes(
                            t, mine, isdd, d + 1):
                        hit = hit or n
        memo[key] = hit
        return hit
    nr = 0
    for q, f in sorted(a.funcs.items()):
        if not f.is_async or not f.cls:
            continue
        for k in sorted(taken):
            if not prog.is_subclass(f.cls.qual, k[0]) and \
                    f.cls.qual != k[0]:
                continue
            names = set()
            for n in body(f):
                if isinstance(n, ast.Assign) and attrs_of(n.value) == k[1]:
                    names |= {t.id for t in n.targets
                              if isinstance(t, ast.Name)}
            if not names:
                continue
            nr += 1
            waits = [n for n in body(f) if isinstance(n, ast.Await)]
            hit = changes(f, names, k in dd) if waits else None
            ctx.ob('handed-over-is-not-changed',
                   f'{short(q)} {k[0].split(".")[-1]}.{k[1]}', hit is None,
                   loc(f, hit) if hit is not None else f.loc,
                   'changes a flush may be writing get another entry')
    ctx.count('references to changes across a wait', nr)


def lazy(a, f):
    """the result of f is (or may be) consumed after f has ended"""
    if f.is_gen:
        return True
    names = {}
    for n in body(f):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    names.setdefault(t.id, []).append(n)

    def of(e, at, d=0):
        if d > 8 or e is None:
            return False
        if isinstance(e, ast.GeneratorExp):
            return True
        if isinstance(e, ast.IfExp):
            return of(e.body, at, d + 1) or of(e.orelse, at, d + 1)
        if isinstance(e, (ast.Tuple, ast.List)):
            return any(of(x, at, d + 1) for x in e.elts)
        if isinstance(e, ast.Name):
            prev = [n for n in names.get(e.id, ()) if n.lineno < at]
            if not prev:
                return False
            # of the ones in the same block, the last one counts
            last = max(prev, key=lambda n: n.lineno)
            c = [last] if last in getattr(f.node, 'body', []) else prev
            return any(of(n.value, n.lineno, d + 1) for n in c)
        if isinstance(e, ast.Call):
            q = dotted(e.func) or ''
            if q.split('.')[0] == 'itertools' or q in LAZY:
                return True
            return any(t.is_gen and not t.is_async
                       for t in a.targets(f, e.func))
        return False
    return any(isinstance(n, ast.Return) and of(n.value, n.lineno)
               for n in body(f))


def environment(ctx):
    prog = ctx.prog
    throw = lambda m: m.kind in THROW
    opq = outside(prog, ENV)
    g = ctx.flow(ENV + 'create', opq)
    where = short(g.func.qual)
    exs = [n for n in g.kind('call') if n.data['callee'].endswith(
        'aio.Executor')]
    ctx.need('executors', len(exs))
    res = []
    for n in exs:
        a = list(n.data['args'][:1]) + [v for k, v in n.data['kws']
                                        if k == 'max_workers']
        res.append((n.loc, None if a == [const(1)] and not n.data.get(
            'many') else [n.id]))
        par = g.reach(n.succ)
        hit = [i for i in par if i in {x.id for x in exs}]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'one-thread', where, res, fg=g,
         msg='the database is used by several threads at once')
    st = [n for n in g.kind('store') if unage(n.data['value']) in {
        unage(n.data['res']) for n in exs}]
    ctx.need('kept executors', len(st))
    attr = {n.data['attr'] for n in st}
    is_ex = lambda t: t is not None and (
        t[0] == 'a' and t[2] in attr or unage(t) in {
            unage(n.data['res']) for n in exs})
    binds = {n.id for n in g.kind('call') if n.data['callee'].split(
        '.')[-1] == 'spawn' and any(
            a[0] == 'g' and a[1].endswith('call_on_cancel')
            for a in n.data['args'])}
    ends = [callee_of(prog, x) for i in binds
            for x in g.nodes[i].data['args'][1:2]]
    ends = [f for f in ends if f]
    ctx.need('what ends an environment', len(ends))
    runs = {n.id for n in g.kind('call') if is_ex(n.data['base']) and
            n.data['callee'].split('.')[-1] == 'spawn' or
            n.kind == 'call' and n.data['callee'].split('.')[-1] == 'spawn'
            and n.data['args'] and any(is_ex(x) for x in (
                n.data['base'] or ('c', 0), *n.data['args'][:1]))}
    offl = {m.id for m in g.kind('suspend') if any(
        x[:2] == ('op', 'offload') for x in subterms(m.data['value']) if x)}
    used = runs | offl
    ctx.need('initialisations', len(used))
    closes = {n.id for n in g.kind('call') if n.data['callee'].split(
        '.')[-1] == 'async_close'}
    cdone = {m.id for m in done_of(g, closes)}
    clost = at_calls(g, closes)
    res = []
    for n in st:
        res.append((n.loc, g.unfollowed(n, lambda m: m.id in binds,
                                        lambda m: g.is_end(m) or
                                        m.id in used, throw)))
        res.append((n.loc, g.unfollowed(n, lambda m: m.id in used,
                                        g.is_return, throw)))
    for i in used:
        res.append((g.nodes[i].loc, g.unfollowed(
            g.nodes[i], lambda m: m.id in cdone,
            lambda m: m.kind == 'uncaught', clost)))
    for m in g.nodes:
        if cancelled(m) and any(g.nodes[p].kind == 'suspend' and any(
                i in closes for i in g.nodes[p].pred) for p in m.pred):
            res.append((m.loc, [m.id]))
    once(ctx, 'created-whole-or-closed', where, res, fg=g,
         msg='an environment that failed to start stays open')
    # ------------------------------------------------ end
    g = ctx.flow(ends[0], opq)
    where = short(g.func.qual)
    stop = {n.id for n in g.kind('call') if is_ex(n.data['base']) and
            n.data['callee'].split('.')[-1] == 'async_close' and (
                n.data['awaited'] or awaited(g, n))}
    ctx.need('ends of the executor', len(stop))
    eg = ctx.flow(ENV + 'create', opq)
    dbenv = {n.data['attr'] for n in eg.kind('store') if n.off and
             n.data['value'][0] == 'r'} | {n.data['attr'] for n in eg.kind(
                 'store') if n.data['value'] == const(None)}
    iscl = lambda t: t is not None and t[0] in ('a', 'm', 'bm') and any(
        x[0] == 'a' and self_attr_term(x) and x[2] in dbenv
        for x in subterms(t) if x) and 'close' in str(t)
    shut = {n.id for n in g.kind('call') if n.off and n.data['callee'].split(
        '.')[-1] == 'close' or any(iscl(x) for x in n.data['args'])}
    ctx.need('closings of the database', len(shut))
    noenv = assume_block(lambda a, b: (
        a[0] == 'truthy' and not b or a[0] == 'none' and b) and
        self_attr_term(a[1]) and a[1][2] in dbenv)
    res = [(g.func.loc, g.unfollowed(
        g.entry, lambda m: m.id in shut, lambda m: m.id in stop or
        g.is_end(m), lambda m: throw(m) or noenv(m)))]
    res.append((g.func.loc, g.unfollowed(
        g.entry, lambda m: m.id in stop, g.is_end, throw)))
    for i in stop:
        par = g.reach(g.nodes[i].succ)
        hit = [j for j in par if j in shut]
        res.append((g.nodes[i].loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'database-is-closed', where, res, fg=g,
         msg='the environment ends and its database stays open, or is '
             'closed outside of the executor')
    # ------------------------------------------------ execution
    g = ctx.flow(ENV + 'Environment.execute', opq)
    where = short(g.func.qual)
    fn = ('p', g.func.params[1])
    runs = [n for n in g.kind('call') if n.data['callee'].split('.')[-1] ==
            'spawn' and any(x == fn for x in n.data['args'])]
    waits = [m for m in g.kind('suspend') if contains(m.data['value'], fn)]
    ctx.need('executions', len(runs) + len(waits))
    is_open = any_lit(
        truthy_lit(lambda t: t[0] == 'a' and t[2] == 'is_open'),
        neg(truthy_lit(lambda t: t[0] == 'a' and t[2] in (
            'is_closing', 'is_closed'))))
    res = [(n.loc, g.unheld(n, is_open, set())) for n in runs + waits]
    shut = assume_block(neg(is_open))
    for n in g.nodes:
        if n.kind == 'assume' and shut(n):
            par = g.reach([n])
            hit = [i for i in par if g.is_return(g.nodes[i])]
            res.append((n.loc, g.path(par, hit[0]) if hit else None))
    wid = {m.id for m in waits} | {n.id for n in runs}
    for m in g.nodes:
        if g.is_return(m):
            res.append((m.loc, g.unpreceded(m, lambda x: x.id in wid)))
            v = m.data['value']
            res.append((m.loc, None if v[0] == 'r' and (
                contains(v, fn) or any(unage(n.data['res']) == unage(v)
                                       for n in g.kind('call') if n.off))
                else [m.id]))
    once(ctx, 'closed-environment-runs-nothing', where, res, fg=g,
         msg='a function is run with a closed database, or its result is '
             'lost')
