"""Path-sensitive dataflow over the syntax tree.

`Flow.run(func)` computes the exploded graph of one entry function: abstract
states (variable -> term, known facts, heap overlay) are propagated through
the statements, in-repo callees are entered at their call sites, loops are
iterated to a fixpoint, equal states are joined.  Graph nodes record what
happens (calls, suspensions, stores, container additions, yields, returns,
raises) together with the facts that hold there.  Nothing is executed and no
solver is consulted; facts are literals over canonical atoms, compared
syntactically (plus the mutual exclusion rules in `Flow.lookup`).
"""

import ast

from .program import AnalysisError, walk_own, dotted, BUILTIN_EXC
from .terms import *   # NOQA
from . import terms as T


class Node:
    __slots__ = ('id', 'kind', 'data', 'facts', 'ast', 'fn', 'frame', 'succ',
                 'pred', 'off', 'exc', 'unc', 'defs')

    def __init__(self, id, kind, data, facts, astn, fn, frame, off, exc, unc):
        self.id = id
        self.kind = kind
        self.data = data
        self.facts = facts
        self.ast = astn
        self.fn = fn
        self.frame = frame
        self.succ = []
        self.pred = []
        self.off = off
        self.exc = exc
        self.unc = unc
        self.defs = ()

    @property
    def line(self):
        return getattr(self.ast, 'lineno', 0)

    @property
    def loc(self):
        m = getattr(self.ast, '_mod', None)
        return f'{m.rel if m else "?"}:{self.line}'

    def __repr__(self):
        return f'<{self.id} {self.kind} {self.loc} {self.describe()}>'

    def describe(self):
        d = self.data
        if self.kind == 'call':
            b = show(d['base']) + ' ' if d.get('base') else ''
            return f"{b}{d['callee']}({', '.join(show(a) for a in d['args'])}"\
                + ''.join(f', {k}={show(v)}' for k, v in d['kws']) + ')'
        if self.kind == 'store':
            return f"{show(d['base'])}.{d['attr']} = {show(d['value'])}"
        if self.kind == 'setitem':
            return (f"{show(d['base'])}[{show(d['key'])}] = "
                    f"{show(d['value'])}")
        if self.kind == 'add':
            return f"{show(d['obj'])} += {show(d['value'])}"
        if self.kind in ('return', 'yield', 'raise', 'suspend', 'iter',
                         'pick'):
            return show(d.get('value'))
        if self.kind in ('enter', 'exit'):
            return d['fn']
        return ''


class Graph:
    def __init__(self):
        self.nodes = []

    def add(self, kind, data, st, astn):
        n = Node(len(self.nodes), kind, data, st.facts, astn, st.fstack[-1],
                 st.frame, st.off, st.exc, st.unc)
        n.defs = st.pend
        self.nodes.append(n)
        if st.node is not None:
            self.edge(st.node, n.id)
        return n.id

    def edge(self, a, b):
        if b not in self.nodes[a].succ:
            self.nodes[a].succ.append(b)
            self.nodes[b].pred.append(a)


class State:
    __slots__ = ('vars', 'heap', 'ver', 'epoch', 'facts', 'node', 'frame',
                 'fstack', 'exc', 'unc', 'off', 'ret', 'pend')

    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.ver = {}
        self.epoch = None
        self.facts = frozenset()
        self.node = None
        self.frame = ()
        self.fstack = ('?',)
        self.exc = None
        self.unc = 0
        self.off = 0
        self.ret = None
        self.pend = ()

    def copy(self):
        s = State.__new__(State)
        s.vars = self.vars
        s.heap = self.heap
        s.ver = self.ver
        s.epoch = self.epoch
        s.facts = self.facts
        s.node = self.node
        s.frame = self.frame
        s.fstack = self.fstack
        s.exc = self.exc
        s.unc = self.unc
        s.off = self.off
        s.ret = self.ret
        s.pend = self.pend
        return s

    def set(self, name, value, frame=None):
        s = self.copy()
        s.vars = dict(s.vars)
        s.vars[(s.frame if frame is None else frame, name)] = value
        return s

    def key(self, facts=True):
        return (frozenset(self.vars.items()), frozenset(self.heap.items()),
                frozenset(self.ver.items()), self.epoch,
                self.facts if facts else None, self.exc, self.unc, self.off,
                self.ret, self.frame)


class Out:
    __slots__ = ('next', 'brk', 'cont', 'ret')

    def __init__(self, next=None):
        self.next = next or []
        self.brk = []
        self.cont = []
        self.ret = []

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret


READ_METHODS = {
    'done', 'cancelled', 'empty', 'get', 'keys', 'values', 'items', 'is_open',
    'matches', 'isdisjoint', 'exists', 'qsize', 'count', 'index',
    'startswith', 'endswith', 'split', 'rsplit', 'encode', 'decode', 'key',
    'value', 'item', 'union', 'intersection', 'copy', 'get_query_types',
    'result', 'hex', 'is_dir', 'is_file', 'total_seconds', 'timestamp',
    'strip', 'lower', 'upper', 'join', 'format', 'stat', 'getLogger',
    'get_conn_infos', 'is_set', 'difference', 'as_posix', 'to_bytes',
    'is_fully_matched', '_asdict', 'encode_key', 'decode_key', 'encode_value',
    'decode_value', 'replace', 'bit_length'}

# reads that do not depend on mutable content
STABLE_METHODS = {
    'matches', 'isdisjoint', 'startswith', 'endswith', 'split', 'rsplit',
    'encode', 'decode', 'hex', 'total_seconds', 'timestamp', 'strip',
    'lower', 'upper', 'join', 'format', 'get_query_types', 'to_bytes',
    'encode_key', 'decode_key', 'encode_value', 'decode_value', '_asdict',
    'replace'}

VOLATILE_ATTRS = {'is_open', 'is_closing', 'is_closed', 'state', 'info',
                  'ready'}

# callables that take time but neither suspend nor raise
NORAISE = {'isinstance', 'len', 'str', 'repr', 'bool', 'range', 'print',
           'logging.getLogger', 'collections.deque', 'dict', 'set', 'list',
           'asyncio.get_running_loop', 'asyncio.Event', 'itertools.count',
           'functools.partial', 'hat.aio.Group', 'hat.aio.Queue',
           'collections.defaultdict', 'enumerate', 'zip', 'tuple', 'id',
           'hat.aio.Resource.close', 'contextlib.suppress'}
NORAISE_METHODS = {'append', 'appendleft', 'extend', 'discard', 'done',
                   'empty', 'get', 'items', 'values', 'keys', 'add', 'close',
                   'debug', 'info', 'warning', 'error', 'create_future',
                   'clear', 'is_set', 'spawn', 'create_subgroup', 'update',
                   'wait_closing', 'set'}

PURE_FUNCS = {
    'str', 'int', 'float', 'bytes', 'bool', 'repr', 'len', 'abs', 'round',
    'tuple', 'frozenset', 'min', 'max', 'sum', 'range', 'memoryview',
    'bytearray', 'type', 'hash', 'ord', 'chr', 'divmod', 'pow',
    'reversed', 'sorted', 'enumerate', 'zip', 'getattr', 'hasattr',
    'hat.json.encode', 'hat.json.decode', 'hat.json.get',
    'struct.pack', 'struct.unpack', 'datetime.datetime',
    'datetime.timedelta', 'pathlib.Path', 'itertools.islice',
    'itertools.takewhile', 'itertools.dropwhile', 'itertools.chain',
    'itertools.chain.from_iterable', 'filter', 'map', 'iter',
    'datetime.datetime.fromtimestamp', 'dict.fromkeys', 'heapq.merge',
    'operator.itemgetter', 'operator.attrgetter', 'math.floor'}

ALLOC = {
    'collections.deque': 'deque', 'list': 'list', 'set': 'set',
    'dict': 'dict', 'collections.defaultdict': 'defaultdict',
    'collections.OrderedDict': 'dict'}

CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
       ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
       ast.In: 'in', ast.NotIn: 'not in'}

BINOP = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
         ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<',
         ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
         ast.MatMult: '@'}

E0 = ('L', (), 'epoch')
EXC = ('c', 'str', 'exc')
EMPTY = ('tset', frozenset())


def lin_apart(a, b):
    """the numbers differ by a constant"""
    def parts(t):
        return (t[2], t[3]) if t[:2] == ('op', 'lin') else (0, ((t, 1), ))
    if ('op', 'lin') not in (a[:2], b[:2]):
        return False
    (i, x), (j, y) = parts(a), parts(b)
    return x == y and i != j


MAX_HEADS = 200
MAX_STATES = 24
MAX_NODES = 150000
MAX_TERM = 24


# canonical arithmetic ----------------------------------------------------

def lin(t):
    """Integer-linear view: (const, {term: coef}) or None"""
    if t[0] == 'c':
        if t[1] == 'int':
            return t[2], {}
        return None
    if t[0] == 'op' and t[1] == 'lin':
        return t[2], dict(t[3])
    if t[0] in ('tup', 'rec', 'o', 'fn', 'cmp', 'exc', 'gx', 'gen', 'coro',
                'bm', 'part'):
        return None
    if t[0] == 'op' and t[1] in ('fstr', 'slice', '+', 'bytes', 'str',
                                 'struct.pack'):
        return None
    return 0, {t: 1}


def mklin(c, terms):
    terms = {k: v for k, v in terms.items() if v}
    if not terms:
        return const(c)
    if c == 0 and len(terms) == 1:
        (k, v), = terms.items()
        if v == 1:
            return k
    return ('op', 'lin', c, tuple(sorted(terms.items(), key=repr)))


def arith(op, a, b):
    if a[0] == 'c' and b[0] == 'c':
        try:
            x, y = a[2], b[2]
            if op == '**' and abs(y) > 256 or op == '<<' and y > 256:
                raise ValueError
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                 '//': lambda: x // y, '%': lambda: x % y,
                 '<<': lambda: x << y, '>>': lambda: x >> y,
                 '|': lambda: x | y, '&': lambda: x & y,
                 '**': lambda: x ** y, '/': lambda: x / y}[op]()
            return const(r)
        except Exception:
            return ('op', op, a, b)
    if op in ('+', '-'):
        la, lb = lin(a), lin(b)
        if la and lb:
            s = 1 if op == '+' else -1
            terms = dict(la[1])
            for k, v in lb[1].items():
                terms[k] = terms.get(k, 0) + s * v
            return mklin(la[0] + s * lb[0], terms)
        if op == '+' and a[0] == 'tup' and b[0] == 'tup':
            return ('tup', a[1] + b[1])
    if op == '*':
        la, lb = lin(a), lin(b)
        if la and lb and not la[1]:
            return mklin(la[0] * lb[0],
                         {k: v * la[0] for k, v in lb[1].items()})
        if la and lb and not lb[1]:
            return mklin(la[0] * lb[0],
                         {k: v * lb[0] for k, v in la[1].items()})
        a, b = sorted((a, b), key=repr)
    return ('op', op, a, b)


def lt_atom(a, b):
    """canonical (atom, polarity) of a < b, or bool"""
    if a[0] == 'c' and b[0] == 'c':
        try:
            return a[2] < b[2]
        except TypeError:
            pass
    special = any((t[0] == 'c' and t[1] == 'int') or
                  (t[0] == 'op' and t[1] in ('lin', 'len')) for t in (a, b))
    la, lb = lin(a), lin(b)
    if special and la and lb:
        terms = dict(lb[1])
        for k, v in la[1].items():
            terms[k] = terms.get(k, 0) - v
        terms = {k: v for k, v in terms.items() if v}
        c = lb[0] - la[0]
        if not terms:
            return 0 < c

        def build(c, terms):
            # 0 < c + terms
            pos = {k: v for k, v in terms.items() if v > 0}
            neg = {k: -v for k, v in terms.items() if v < 0}
            lo = mklin(-c if c < 0 else 0, neg)
            hi = mklin(c if c > 0 else 0, pos)
            return ('lt', lo, hi)
        nterms = {k: -v for k, v in terms.items()}
        forms = [(build(c, terms), True), (build(1 - c, nterms), False)]

        def rank(f):
            at = f[0]
            cc = abs(at[1][2]) if at[1][0] == 'c' else (
                1 if at[1][0] == 'op' and at[1][1] == 'lin' and at[1][2]
                else 0)
            cc2 = (at[2][2] if at[2][0] == 'c' and
                   isinstance(at[2][2], int) else (
                       1 if at[2][0] == 'op' and at[2][1] == 'lin' and
                       at[2][2] else 0))
            return (abs(cc) + abs(cc2), repr(at))
        atom, pol = min(forms, key=rank)
        if atom[1] == const(0) and atom[2][0] == 'op' and \
                atom[2][1] == 'len':
            return ('truthy', atom[2][2]), pol
        return atom, pol
    return ('lt', a, b), True


def cut_site(t, lab, types):
    """forget how older values of a site were made"""
    if not isinstance(t, tuple) or not t or t[0] == 'c':
        return t
    if t[0] == 'r':
        x = t[1]
        while x[0] in ('^', '@'):
            x = x[1]
        if x == lab and len(t[2]) > 2 and t[2][0] == 'call':
            r = ('r', t[1], t[2][:2])
            if t in types and r not in types:
                types[r] = types[t]
            return r
    if not any(x == lab or x[0] in ('^', '@') and x[1] == lab
               for x in labels_of(t)):
        return t
    return tuple(cut_site(i, lab, types) if isinstance(i, tuple) else i
                 for i in t)


class Flow:

    def __init__(self, prog, opaque=(), entry_types=None, sync_raise=True,
                 max_depth=14, models=True, raising=None, no_models=(),
                 inline_spawn=False, stand_ins=()):
        self.p = prog
        self.opaque = set(opaque)
        self.tables = {}
        self.g = Graph()
        self.types = {}
        self.entry_types = entry_types or {}
        self.sync_raise = sync_raise
        self.max_depth = max_depth
        self.gen_stack = {}
        self.sinks = []
        self.try_depth = 0
        self.yield_handlers = []
        self.exits = []         # [(kind, node id, state)]
        self.entered = set()
        self.joins = 0
        self._heads = {}
        self.models = models
        self.inline_spawn = inline_spawn
        self.raising = raising
        self.no_models = set(no_models)
        self._live_cache = {}
        self._memo = {}
        self._yields = {}
        self._model_funcs = _load_models(prog)
        self.stand_ins = dict(stand_ins)

    # ------------------------------------------------------------------
    # entry

    def run(self, func, args=None, self_type=None):
        st = State()
        st.fstack = (func.qual,)
        st.node = self.g.add('entry', {'fn': func.qual}, st, func.node)
        self.func = func
        binds = {}
        for a in func.all_params():
            t = ('p', a.arg)
            if args and a.arg in args:
                t = args[a.arg]
                if self.entry_types.get(a.arg):
                    self.types[t] = self.entry_types[a.arg]
            else:
                ty = (self.entry_types.get(a.arg) or
                      self.p.param_type(func, a.arg))
                if func.cls and func.params and \
                        a.arg == func.params[0] and \
                        not func.is_static and not func.is_classmethod:
                    t = ('p', 'self')
                    ty = ('cls', self_type or func.cls.qual)
                if ty:
                    self.types[t] = ty
            binds[a.arg] = t
        outer = func.parent
        while outer is not None:
            # free variables of a nested function: values of the outer one
            for k in outer.locals:
                if k in binds or k in func.locals:
                    continue
                t = ('p', k)
                if outer.cls and outer.params and k == outer.params[0] and \
                        not outer.is_static and not outer.is_classmethod:
                    t = ('p', 'self')
                    self.types[t] = ('cls', outer.cls.qual)
                binds[k] = t
            for a in outer.all_params():
                ty = self.p.param_type(outer, a.arg)
                if ty and binds.get(a.arg) == ('p', a.arg) and \
                        ('p', a.arg) not in self.types:
                    self.types['p', a.arg] = ty
            outer = outer.parent
        st.vars = {((), k): v for k, v in binds.items()}
        sink = []
        self.sinks.append(sink)
        if func.is_gen:
            self.yield_handlers.append(self._entry_yield)
        out = self.exec_body(func, [st])
        if func.is_gen:
            self.yield_handlers.pop()
        self.sinks.pop()
        for s in out.next:
            s = s.copy()
            s.node = self.g.add('return', {'value': NONE, 'implicit': True},
                                s, func.node)
            self.exits.append(('return', s.node, s))
        for s in out.ret:
            if self.g.nodes[s.node].kind != 'return':
                # cleanup ran after the return statement
                s = s.copy()
                s.node = self.g.add('return', {'value': s.ret}, s, func.node)
            self.exits.append(('return', s.node, s))
        for s in sink:
            s = s.copy()
            s.node = self.g.add('uncaught', {'value': s.exc}, s, func.node)
            self.exits.append(('raise', s.node, s))
        return self.g

    def _entry_yield(self, st, value, node):
        st = st.copy()
        st.node = self.g.add('yield', {'value': value}, st, node)
        return [st]

    def exec_body(self, func, states):
        self.entered.add(func.qual)
        if func.is_lambda:
            out = Out()
            for st in states:
                for s, v in self.ev(func.node.body, st):
                    s = s.copy()
                    s.ret = v
                    out.ret.append(s)
            return out
        return self.block(func.node.body, states)

    # ------------------------------------------------------------------
    # state helpers

    def emit(self, kind, data, st, node):
        if len(self.g.nodes) > MAX_NODES:
            raise AnalysisError(f'graph too large in {st.fstack}')
        st = st.copy()
        st.node = self.g.add(kind, data, st, node)
        st.pend = ()
        if kind in ('setitem', 'merge') and any(
                (data['base'], i) in st.heap for i in ('$elems', '$pairs')):
            # keys are not followed
            st.heap = {k: v for k, v in st.heap.items()
                       if k[0] != data['base'] or
                       k[1] not in ('$elems', '$pairs')}
        return st

    def merge(self, states):
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            groups.setdefault(s.key(), []).append(s)
        if len(groups) == len(states) and len(states) <= MAX_STATES:
            return states
        r = []
        for ss in groups.values():
            if len(ss) == 1:
                r.append(ss[0])
                continue
            nodes = {s.node for s in ss}
            s = ss[0].copy()
            if len(nodes) > 1:
                last = self.g.nodes[ss[0].node]
                s.node = None
                j = self.g.add('join', {}, s, last.ast)
                for n in nodes:
                    self.g.edge(n, j)
                s.node = j
            r.append(s)
        if len(r) > MAX_STATES:
            r = self._widen(r)
        return r

    def _widen(self, states):
        groups = {}
        for s in states:
            groups.setdefault(s.key(False), []).append(s)
        r = []
        for ss in groups.values():
            if len(ss) == 1:
                r.append(ss[0])
                continue
            s = ss[0].copy()
            s.facts = frozenset.intersection(*[i.facts for i in ss])
            s.node = None
            j = self.g.add('join', {'widen': True}, s,
                           self.g.nodes[ss[0].node].ast)
            for i in ss:
                self.g.edge(i.node, j)
            s.node = j
            r.append(s)
        if len(r) > 2 * MAX_STATES:
            r = self._join(r)
        return r

    def _join(self, states):
        """last resort: one state per control context (and per kind of
        value each variable has, while that is few)"""
        def shape(v):
            if v in (NONE, TRUE, FALSE):
                return v
            return ('rec', v[1]) if v[0] == 'rec' else '*'

        groups = {}
        fine = {}
        for s in states:
            k = (s.exc, s.unc, s.off, s.ret, s.frame, s.fstack)
            groups.setdefault(k, []).append(s)
            fine.setdefault((k, frozenset((n, shape(v))
                                          for n, v in s.vars.items())),
                            []).append(s)
        if len(fine) <= MAX_STATES:
            groups = fine
        r = []
        for ss in groups.values():
            if len(ss) == 1:
                r.append(ss[0])
                continue
            self.joins += 1
            last = self.g.nodes[ss[0].node]
            site = last.ast._nid
            s = ss[0].copy()
            s.facts = frozenset.intersection(*[i.facts for i in ss])
            s.vars = {}
            fresh = set()
            for k, v in ss[0].vars.items():
                vs = {i.vars.get(k) for i in ss}
                if None in vs:
                    continue
                if len(vs) == 1:
                    s.vars[k] = v
                    continue
                s.vars[k] = self._join_value(
                    vs, ('L', k[0], ('join', site, k[1])), k[1], fresh)
            s.heap = {}
            keys = {k for i in ss for k in i.heap}
            for k in sorted(keys, key=repr):
                vs = [i.heap.get(k) for i in ss]
                if k[1] == '$elems':
                    # absent: the container does not exist on that path
                    s.heap[k] = ('tset', self.squash(
                        k[0], frozenset().union(*[i[1] for i in vs if i])))
                elif None not in vs and all(i == vs[0] for i in vs):
                    s.heap[k] = vs[0]
            vers = {}
            for i in ss:
                for k, v in i.ver.items():
                    vers.setdefault(k, set()).add(v)
            s.ver = {}
            for k, v in vers.items():
                if len(v) == 1 and all(k in i.ver for i in ss):
                    s.ver[k] = v.pop()
                else:
                    lab = ('L', (), ('join', site, 'ver', len(s.ver)))
                    s.ver[k] = lab
                    fresh.add(lab)
            eps = {i.epoch for i in ss}
            if len(eps) > 1:
                lab = ('L', (), ('join', site, 'epoch'))
                s.epoch = lab
                fresh.add(lab)
            s.facts = frozenset(f for f in s.facts
                                if not (labels_of(f[0]) & fresh))
            s.node = None
            j = self.g.add('join', {'widen': True}, s, last.ast)
            for i in ss:
                self.g.edge(i.node, j)
            s.node = j
            r.append(s)
        return r

    def _join_value(self, vs, lab, name, fresh):
        v = min(vs, key=repr)
        if len(vs) == 1:
            return v
        if all(x[0] == 'rec' and x[1] == v[1] for x in vs):
            return ('rec', v[1], tuple(
                (f, self._join_value(
                    {x[2][i][1] for x in vs},
                    ('L', lab[1], lab[2] + (f,)), f'{name}.{f}', fresh))
                for i, (f, _) in enumerate(v[2])))
        fresh.add(lab)
        w = ('r', lab, ('join', name))
        self._wide_type(w, v)
        return w

    def label(self, st, node):
        return ('L', st.frame, node._nid)

    def fresh(self, st, label):
        """Age every older value of the site"""
        old = ('^', label)
        found = self._mentions(st, label)
        s = st.copy()
        if label not in s.pend:
            s.pend = s.pend + (label,)
        if not found:
            return s
        s.facts = frozenset((subst_label(a, label, old), b)
                            for a, b in s.facts
                            if old not in labels_of(a))

        def sub(t):
            return subst_label(t, label, old)
        s.vars = {k: sub(v) for k, v in s.vars.items()}
        s.heap = {sub(k): sub(v) for k, v in s.heap.items()}
        s.ver = {sub(k): sub(v) for k, v in s.ver.items()}
        if s.ret is not None:
            s.ret = sub(s.ret)
        if s.epoch is not None:
            s.epoch = sub(s.epoch)
        return s

    def _mentions(self, st, label):
        for v in st.vars.values():
            if label in labels_of(v):
                return True
        for k, v in st.heap.items():
            if label in labels_of(k) or label in labels_of(v):
                return True
        for k, v in st.ver.items():
            if label in labels_of(k) or label in labels_of(v):
                return True
        for a, _ in st.facts:
            if label in labels_of(a):
                return True
        return (st.epoch is not None and label in labels_of(st.epoch)) or (
            st.ret is not None and label in labels_of(st.ret))

    def cver(self, st, base):
        """content version of a container"""
        v = st.ver.get(base)
        if self._shared(base):
            return (v, st.epoch)
        return (v,) if v is not None else None

    def _shared(self, base):
        r = root(base)
        return r[0] in ('p', 'g', 'r', 'a') and not (
            r[0] == 'r' and base[0] == 'r' and self._local_res(base))

    def _local_res(self, t):
        return False

    def mutate(self, st, base, node):
        if base is None:
            return st
        lab = self.label(st, node)
        s = self.fresh(st, lab) if st.ver.get(base) == lab else st
        s = s.copy()
        s.ver = dict(s.ver)
        s.ver[base] = lab
        s.heap = {k: v for k, v in s.heap.items()
                  if not (k[0] == base and k[1] == '[]' or
                          k[0] == base and k[1] in ('$items', '$copyof'))}
        return s

    def suspend(self, st, node, value):
        lab = self.label(st, node)
        if st.epoch == lab:
            st = self.fresh(st, lab)
        st = st.copy()
        st.epoch = lab
        st.heap = {k: v for k, v in st.heap.items() if self._survives(k)}
        st = self.emit('suspend', {'value': value}, st, node)
        return st

    def _survives(self, k):
        base, attr = k[0], k[1]
        if attr in ('$elems', '$items', '$cls'):
            return True
        if base[0] == 'o':
            ty = self.ty(base)
            if ty and ty[0] == 'cls':
                c = self.p.classes[ty[1]]
                if attr in c.mutable_attrs:
                    return False
            return True
        ty = self.ty(base)
        if ty and ty[0] == 'cls':
            c = self.p.classes[ty[1]]
            return not any(attr in i.mutable_attrs for i in self.p.mro(c))
        return False

    # ------------------------------------------------------------------
    # types

    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        if any(x[0] in ('^', '@') for x in labels_of(t)):
            t = map_labels(t, lambda x: x[1] if x[0] in ('^', '@') else x)
            r = self.types.get(t)
            if r is not None:
                return r
        k = t[0]
        if k == 'rec':
            return ('cls', t[1])
        if k == 'a':
            b = self.ty(t[1])
            if b and b[0] == 'cls':
                return self.p.attr_type(b[1], t[2])
            if b and b[0] == 'union':
                for i in b[1]:
                    if i[0] == 'cls':
                        r = self.p.attr_type(i[1], t[2])
                        if r:
                            return r
            return None
        if k == 'o':
            if t[1].startswith('inst:'):
                return ('cls', t[1][5:])
            return ('ext', t[1])
        if k == 'el':
            return self.elem_ty(t[1])
        if k == 'i':
            b = self.ty(t[1])
            if b and b[0] == 'gen':
                if b[1] == 'tuple' and t[2][0] == 'c' and \
                        isinstance(t[2][2], int) and \
                        t[2][2] < len(b[2]):
                    return b[2][t[2][2]]
                if b[1] in ('dict', 'collections.defaultdict') and \
                        len(b[2]) == 2:
                    return b[2][1]
                if b[2]:
                    return b[2][0]
            if b and b[0] == 'cls' and t[2][0] == 'c' and \
                    isinstance(t[2][2], int):
                c = self.p.classes[b[1]]
                if c.is_namedtuple and t[2][2] < len(c.fields):
                    return self.p.ann_type(c.module, c.fields[t[2][2]][1])
            return None
        if k == 'm':
            if t[2] == 'get':
                b = self.ty(t[1])
                if b and b[0] == 'gen' and len(b[2]) == 2:
                    return b[2][1]
            if t[2] in ('values', 'keys', 'items'):
                b = self.ty(t[1])
                if b and b[0] == 'gen' and len(b[2]) == 2:
                    kt, vt = b[2]
                    e = {'values': vt, 'keys': kt,
                         'items': ('gen', 'tuple', (kt, vt))}[t[2]]
                    return ('gen', 'list', (e,))
            return None
        if k == 'g':
            c, _, m = t[1].rpartition('.')
            if c in self.p.classes and self.p.classes[c].is_enum:
                return ('cls', c)
            return None
        if k == 'c':
            return ('ext', t[1])
        if k == 'op' and t[1] in ('lin', 'len'):
            return ('ext', 'int')
        return None

    def elem_ty(self, t):
        b = self.ty(t)
        if b and b[0] == 'gen' and b[2]:
            if b[1] in ('dict', 'collections.defaultdict'):
                return b[2][0]
            return b[2][0]
        return None

    def never_falsy(self, t):
        if t[0] in ('rec', 'fn', 'bm', 'part', 'coro', 'gen', 'gx'):
            return True
        ty = self.ty(t)
        if not ty:
            return t[0] == 'r' and t[2][:1] == ('call',) and \
                t[2][1] == '.create_future'
        if ty[0] == 'cls':
            c = self.p.classes[ty[1]]
            if c.is_namedtuple and not c.fields:
                return False
            return not (self.p.find_method(c, '__len__') or
                        self.p.find_method(c, '__bool__'))
        if ty[0] == 'union':
            return all(i[0] == 'cls' and
                       not self.p.find_method(self.p.classes[i[1]],
                                              '__len__') for i in ty[1])
        if ty[0] == 'gen':
            return ty[1] in ('hat.aio.AsyncCallable', 'typing.Callable',
                             'collections.abc.Callable')
        if ty[0] == 'ext':
            return ty[1] in ('asyncio.Future', 'hat.aio.Group',
                             'hat.drivers.chatter.Connection',
                             'asyncio.Event')
        return False

    # ------------------------------------------------------------------
    # facts

    def lookup(self, st, atom):
        facts = st.facts
        if (atom, True) in facts:
            return True
        if (atom, False) in facts:
            return False
        k = atom[0]
        if k == 'eq':
            a, b = atom[1], atom[2]
            if a == b and not any(x[0] == '^' for x in labels_of(a)):
                return True
            ca, cb = self.isconst(a), self.isconst(b)
            if ca and cb:
                return a == b
            for x, y, cy in ((a, b, cb), (b, a, ca)):
                if not cy:
                    continue
                for (f, pol) in facts:
                    if pol and f[0] == 'eq':
                        other = (f[2] if f[1] == x else
                                 f[1] if f[2] == x else None)
                        if other is not None and self.isconst(other):
                            return other == y
                    if f[0] == 'none' and f[1] == x and pol:
                        return False
            if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) != len(b[1]):
                return False
            if (('lt', a, b), True) in facts or (('lt', b, a), True) in facts:
                return False
        elif k == 'lt':
            a, b = atom[1], atom[2]
            if a == b:
                return False
            if (('lt', b, a), True) in facts:
                return False
            e = ('eq', *sorted((a, b), key=repr))
            if (e, True) in facts:
                return False
            if (e, False) in facts and (('lt', b, a), False) in facts:
                return True
        elif k == 'none':
            return self.known_none(st, atom[1])
        elif k == 'truthy':
            t = atom[1]
            if t[0] == 'c':
                return bool(t[2])
            n = self.known_none(st, t)
            if n:
                return False
            for f, pol in facts:
                if f[0] == 'eq' and pol and t in (f[1], f[2]):
                    o = f[2] if f[1] == t else f[1]
                    if o[0] == 'c':
                        return bool(o[2])
                    if self.isconst(o):
                        return True
            if t[0] == 'tup':
                return bool(t[1])
            if t[0] == 'o':
                items = st.heap.get((t, '$items'))
                if items is not None:
                    return bool(items[1])
        elif k == 'isinst':
            t, q = atom[1], atom[2]
            ty = self.ty(t)
            if t[0] in ('rec', 'o') and ty and ty[0] == 'cls':
                return self.p.is_subclass(ty[1], q)
            if t[0] == 'c':
                if t[2] is None:
                    return False
                return t[1] == q or (t[1], q) == ('bool', 'int')
            if self.known_none(st, t):
                return False
            for f, pol in facts:
                if f[0] == 'isinst' and f[1] == t and pol and f[2] != q:
                    if self.p.is_subclass(f[2], q):
                        return True
                    if not self.p.is_subclass(q, f[2]) and \
                            (f[2] in self.p.classes or
                             f[2] in ('str', 'list', 'dict', 'float')) and \
                            (q in self.p.classes or
                             q in ('str', 'list', 'dict', 'float', 'int',
                                   'bool')):
                        return False
        return None

    def known_none(self, st, t):
        if t == NONE:
            return True
        if t[0] in ('c', 'rec', 'o', 'tup', 'fn', 'bm', 'part', 'cmp', 'coro',
                    'gen', 'gx', 'exc'):
            return False
        if t[0] == 'g':
            return False
        if t[0] == 'op' and t[1] not in ('unpacked', 'getattr', 'next',
                                         'hat.json.get', 'ite', 'call'):
            return False
        for f, pol in st.facts:
            if f[0] == 'none' and f[1] == t:
                return pol
            if f[0] == 'truthy' and f[1] == t and pol:
                return False
            if f[0] == 'isinst' and f[1] == t and pol:
                return False
            if f[0] == 'eq' and pol and t in (f[1], f[2]):
                o = f[2] if f[1] == t else f[1]
                if self.isconst(o):
                    return False
        if t[0] == 'el' and t[1][0] == 'm' and t[1][2] in ('keys',):
            return False
        return None

    def isconst(self, t):
        if t[0] == 'c':
            return True
        if t[0] == 'g':
            c = t[1].rpartition('.')[0]
            return (c in self.p.classes and self.p.classes[c].is_enum or
                    t[1] in self.p.classes or t[1] in self.p.functions)
        return False

    def assume(self, st, atom, pol):
        v = self.lookup(st, atom)
        if v is not None:
            return st if v == pol else None
        s = st.copy()
        s.facts = s.facts | {(atom, pol)}
        return s

    def split(self, st, atom, pol=True):
        """-> (states where atom==pol, states where not)"""
        v = self.lookup(st, atom)
        if v is not None:
            return ([st], []) if v == pol else ([], [st])
        return ([self._learn(st, atom, pol)],
                [self._learn(st, atom, not pol)])

    def _learn(self, st, atom, pol):
        s = st.copy()
        s.facts = s.facts | {(atom, pol)}
        s.node = self.g.add('assume', {'atom': atom, 'pol': pol}, s,
                            self.g.nodes[st.node].ast)
        s.pend = ()
        return s

    def eq_atom(self, a, b):
        if a == NONE:
            a, b = b, a
        if b == NONE:
            return ('none', a)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'op' and x[1] == 'len' and y == const(0):
                return ('notruthy', x[2])
        a, b = sorted((a, b), key=repr)
        return ('eq', a, b)

    def cmp_states(self, st, op, a, b):
        """-> (true states, false states)"""
        neg = False
        if op in ('!=', 'is not', 'not in'):
            neg = True
            op = {'!=': '==', 'is not': '==', 'not in': 'in'}[op]
        if op == 'is':
            op = '=='
        if op == '==':
            if b in (TRUE, FALSE) and a[0] == 'cmp':
                t, f = self.truth(st, a)
                if b == FALSE:
                    t, f = f, t
            elif a[0] == 'tup' and b[0] == 'tup' and \
                    len(a[1]) == len(b[1]):
                t, f = [st], []
                for x, y in zip(a[1], b[1]):
                    nt = []
                    for s in t:
                        tt, ff = self.cmp_states(s, '==', x, y)
                        nt += tt
                        f += ff
                    t = nt
            elif lin_apart(a, b):
                t, f = [], [st]
            else:
                atom = self.eq_atom(a, b)
                if atom[0] == 'notruthy':
                    f, t = self.truth(st, atom[1])
                else:
                    t, f = self.split(st, atom)
        elif op in ('<', '>', '<=', '>='):
            if op in ('>', '<='):
                x, y = b, a
            else:
                x, y = a, b
            r = lt_atom(x, y)
            if isinstance(r, bool):
                t, f = ([st], []) if r else ([], [st])
            else:
                atom, pol = r
                if atom[0] == 'truthy':
                    t, f = self.truth(st, atom[1])
                    if not pol:
                        t, f = f, t
                else:
                    t, f = self.split(st, atom, pol)
            if op in ('<=', '>='):
                t, f = f, t
        elif op == 'in':
            items = None
            if b[0] == 'tup':
                items = b[1]
            elif b[0] == 'o':
                it = st.heap.get((b, '$items'))
                if it is not None:
                    items = it[1]
                    if b[1] == 'dict':
                        items = tuple(i[1][0] if i[0] == 'tup' else i
                                      for i in items)
            elif b[0] == 'g':
                it = self.table(st, b)
                if it is not None:
                    items = tuple(i[0] for i in it)
            if items is not None:
                t, rest = [], [st]
                for i in items:
                    nr = []
                    for s in rest:
                        if i[0] == 'op' and i[1] in ('star', 'star2'):
                            tt, ff = self.cmp_states(s, 'in', a, i[2])
                        else:
                            tt, ff = self.cmp_states(s, '==', a, i)
                        t += tt
                        nr += ff
                    rest = nr
                f = rest
            else:
                bb = b
                if b[0] == 'm' and b[2] == 'keys':
                    bb = b[1]
                t, f = self.split(st, ('in', a, bb, self.cver(st, bb)))
        else:
            raise AnalysisError(f'comparison {op}')
        return (f, t) if neg else (t, f)

    def truth(self, st, t):
        """-> (states where t is truthy, states where it is falsy)"""
        if t[0] == 'c':
            return ([st], []) if t[2] else ([], [st])
        if t[0] == 'cmp':
            return self.split(st, t[1], t[2])
        if t[0] == 'op' and t[1] == 'len':
            return self.truth(st, t[2])
        if t[0] == 'op' and t[1] == 'bool' and len(t) == 3:
            return self.truth(st, t[2])
        if t[0] == 'op' and t[1] == 'cmpx':
            return self.cmp_states(st, t[2], t[3], t[4])
        if t[0] == 'op' and t[1] in ('set', 'list', 'tuple', 'copy') and \
                len(t) == 3:
            return self.truth(st, t[2])
        if self.never_falsy(t):
            f, tt = self.split(st, ('none', t))
            return tt, f
        if t[0] == 'o' and (t[1].startswith('inst:')):
            return [st], []
        if t[0] == 'o' and st.heap.get((t, '$elems')) == EMPTY and \
                (t, '$items') not in st.heap:
            return [], [st]
        if t[0] == 'o':
            return self.split(st, ('truthy', ('op', 'content', t,
                                              self.cver(st, t)))) \
                if st.heap.get((t, '$items')) is None else \
                (([st], []) if st.heap[(t, '$items')][1] else ([], [st]))
        if t[0] in ('a', 'r', 'p', 'i', 'el', 'm') and self._container(t):
            return self.split(st, ('truthy', ('op', 'content', t,
                                              self.cver(st, t))))
        return self.split(st, ('truthy', t))

    def _container(self, t):
        ty = self.ty(t)
        return bool(ty and ty[0] == 'ext' and ty[1] in (
            'dict', 'set', 'list', 'collections.deque',
            'collections.defaultdict', 'hat.aio.Queue'))

    # ------------------------------------------------------------------
    # statements

    def block(self, stmts, states):
        out = Out(states)
        for s in stmts:
            if not out.next:
                break
            states = self.prune(s, out.next)
            o = Out()
            handler = getattr(self, 'x_' + type(s).__name__, None)
            if handler is None:
                raise AnalysisError(
                    f'statement {type(s).__name__} not supported '
                    f'({s._mod.rel}:{s.lineno})')
            o = handler(s, states)
            out.absorb(o)
            out.next = o.next
        out.next = self.merge(out.next)
        out.ret = self.merge(out.ret)
        out.brk = self.merge(out.brk)
        out.cont = self.merge(out.cont)
        return out

    def x_Pass(self, s, states):
        return Out(states)

    x_Global = x_Nonlocal = x_Import = x_ImportFrom = x_Pass

    def x_Expr(self, s, states):
        r = []
        for st in states:
            for s2, v in self.ev(s.value, st):
                if v[0] == 'coro':
                    s2 = self.emit('dropped', {'value': v}, s2, s)
                r.append(s2)
        return Out(r)

    def x_Assign(self, s, states):
        r = []
        for st in states:
            for s2, v in self.ev(s.value, st):
                ss = [s2]
                for t in s.targets:
                    ss = [x for y in ss for x in self.assign(t, v, y)]
                r += ss
        return Out(r)

    def x_AnnAssign(self, s, states):
        if s.value is None:
            return Out(states)
        r = []
        for st in states:
            for s2, v in self.ev(s.value, st):
                r += self.assign(s.target, v, s2)
        return Out(r)

    def x_AugAssign(self, s, states):
        r = []
        load = _as_load(s.target)
        for st in states:
            for s2, old in self.ev(load, st):
                for s3, v in self.ev(s.value, s2):
                    op = BINOP[type(s.op)]
                    name = self.in_place(op, old)
                    if name:
                        r += [x for x, _ in self.apply_method(
                            old, name, [v], {}, s3, s, None)]
                        continue
                    if old[0] == 'o' or self._container(old):
                        s3 = self.emit('call', dict(
                            callee=f'.__i{op}__', base=old, args=(v,), kws=(),
                            res=NONE, awaited=False, fn=None), s3, s)
                        s3 = self.mutate(s3, old, s)
                        r.append(s3)
                        continue
                    r += self.assign(s.target, arith(op, old, v), s3)
        return Out(r)

    def in_place(self, op, t):
        """method that an augmented assignment of a container stands for"""
        ty = self.ty(t)
        k = t[1] if t[0] == 'o' else ty[1] if ty and ty[0] in (
            'ext', 'gen') else None
        if op == '+' and k in ('list', 'deque', 'collections.deque'):
            return 'extend'
        if op == '|' and k in ('set', 'dict'):
            return 'update'
        return None

    def x_Delete(self, s, states):
        for t in s.targets:
            r = []
            for st in states:
                if isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, st):
                        for s3, k in self.ev(t.slice, s2):
                            s3 = self.emit('call', dict(
                                callee='.__delitem__', base=b, args=(k,),
                                kws=(), res=NONE, awaited=False, fn=None),
                                s3, s)
                            r.append(self.mutate(s3, b, s))
                elif isinstance(t, ast.Name):
                    st = st.copy()
                    st.vars = dict(st.vars)
                    st.vars.pop((st.frame, t.id), None)
                    r.append(st)
                else:
                    r.append(st)
            states = r
        return Out(states)

    def x_FunctionDef(self, s, states):
        return Out([st.set(s.name, ('fn', s._nid, ('F', st.frame)))
                    for st in states])

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, states):
        return Out([st.set(s.name, ('op', 'localclass', const(s.name)))
                    for st in states])

    def x_Return(self, s, states):
        out = Out()
        for st in states:
            rs = self.ev(s.value, st) if s.value is not None else [(st, NONE)]
            for s2, v in rs:
                s2 = s2.copy()
                s2.ret = v
                s2 = self.emit('return', {'value': v,
                                          'top': len(s2.frame) == 0}, s2, s)
                out.ret.append(s2)
        return out

    def x_Raise(self, s, states):
        for st in states:
            if s.exc is None:
                s2 = self.emit('raise', {'value': st.exc}, st, s)
                self.sinks[-1].append(s2)
                continue
            for s2, v in self.ev(s.exc, st):
                e = self.to_exc(s2, v, s)
                s2 = s2.copy()
                s2.exc = e
                s2 = self.emit('raise', {'value': e, 'term': v}, s2, s)
                self.sinks[-1].append(s2)
        return Out()

    def to_exc(self, st, v, node):
        if v[0] == 'exc':
            return v
        lab = EXC
        if v[0] == 'g':
            return ('exc', v[1], lab, frozenset())
        if v[0] == 'o' and v[1].startswith('inst:'):
            return ('exc', v[1][5:], lab, frozenset())
        if v[0] == 'op' and v[1] == 'newexc':
            return ('exc', v[2][2], lab, frozenset())
        return ('exc', 'Exception?', lab, frozenset())

    def x_Assert(self, s, states):
        r = []
        for st in states:
            t, f = self.branch(s.test, st)
            r += t
        return Out(r)

    def x_If(self, s, states):
        ts, fs = [], []
        for st in states:
            t, f = self.branch(s.test, st)
            ts += t
            fs += f
        o1 = self.block(s.body, self.mark(ts, s, True))
        o2 = self.block(s.orelse, self.mark(fs, s, False))
        out = Out(o1.next + o2.next)
        out.absorb(o1)
        out.absorb(o2)
        return out

    def mark(self, states, node, pol):
        """make the branch visible in the graph"""
        states = self.merge(states)
        return [self.emit('branch', {'pol': pol}, st, node) for st in states]

    def memo(self, node, states, run):
        """loops entered again in the same state behave the same"""
        if not states:
            return run(states)
        y = self._yields.get(node._nid)
        if y is None:
            y = self._yields[node._nid] = any(
                isinstance(n, (ast.Yield, ast.YieldFrom))
                for n in ast.walk(node))
        if y:
            return run(states)
        states = self.merge([self.gc(node, st) for st in states]
                            if isinstance(node, ast.stmt) else states)
        keys = [(st.key(), st.pend, st.fstack) for st in states]
        key = (node._nid, self.try_depth > 0, len(self.sinks),
               frozenset(keys))
        hit = self._memo.get(key)
        if hit is None:
            heads = {}
            ins = []
            for k, st in zip(keys, states):
                pend = st.pend
                st = self.emit('join', {}, st, node)
                heads[k] = st.node
                ins.append(st)
            sink = self.sinks[-1]
            n = len(sink)
            out = run(ins)
            if self.sinks[-1] is not sink:
                raise AnalysisError('unbalanced exception handling')
            if isinstance(out, Out):
                keep = (list(out.next), list(out.brk), list(out.cont),
                        list(out.ret))
            else:
                keep = list(out)
            self._memo[key] = (heads, keep, sink[n:])
            return out
        heads, keep, sunk = hit
        for k, st in zip(keys, states):
            self.g.edge(st.node, heads[k])
        self.sinks[-1].extend(sunk)
        if isinstance(keep, tuple):
            out = Out()
            out.next, out.brk, out.cont, out.ret = map(list, keep)
            return out
        return list(keep)

    def x_While(self, s, states):
        return self.memo(s, states, lambda sts: self._while(s, sts))

    def _while(self, s, states):
        out = Out()
        exits = []
        brk = []

        def step(st):
            t, f = self.branch(s.test, st)
            exits.extend(f)
            o = self.block(s.body, self.mark(t, s, True))
            brk.extend(o.brk)
            out.ret += o.ret
            return o.next + o.cont

        self.fix(s, states, step)
        o = self.block(s.orelse, self.merge(exits))
        out.absorb(o)
        out.next = self.merge(o.next + brk)
        out.next = [self.emit('loopexit', {}, st, s) for st in out.next]
        return out

    def x_For(self, s, states):
        return self.memo(s, states, lambda sts: self._for(s, sts))

    def _for(self, s, states):
        out = Out()
        nxt = []
        for st in states:
            for s2, it in self.ev(s.iter, st):
                brk = []

                def body(st, el, node):
                    sts = self.assign(s.target, el, st)
                    o = self.block(s.body, sts)
                    brk.extend(o.brk)
                    out.ret += o.ret
                    return o.next + o.cont

                done = self.iterate(it, s2, body, s)
                o = self.block(s.orelse, self.merge(done))
                out.absorb(o)
                nxt += o.next + brk
        out.next = self.merge(nxt)
        out.next = [self.emit('loopexit', {}, st, s) for st in out.next]
        out.ret = self.merge(out.ret)
        return out

    x_AsyncFor = x_For

    def fix(self, node, states, step):
        """fixpoint over the states at a loop head"""
        seen = {}
        # kept when an enclosing loop comes back to the same head:
        # variable -> distinct values; what was widened; container -> elements
        hk = (node._nid, states[0].frame if states else ())
        hist, wide, elems = self._heads.setdefault(hk, ({}, {}, {}))
        # values brought in from outside are not changes of the loop
        init = {}
        for st in states:
            for k, v in st.vars.items():
                init.setdefault(('v', k), set()).add(v)
            for k, v in st.heap.items():
                init.setdefault(('h', k), set()).add(v)
        buckets = {}
        base = set()
        for st in states:
            base |= self.gc(node, st).facts
        work = [(st, False) for st in states]
        while work:
            st, again = work.pop(0)
            st = self.gc(node, st)
            # past the first hundred states anything that differs is given up
            coarse = again and len(seen) > MAX_HEADS // 2
            st = self._widen_vars(node, st, hist if again else None, wide,
                                  init, coarse)
            if coarse:
                st = self._forget_heap(node, st)
            st = self._join_elems(st, elems)
            if again and not st.facts <= base:
                b = st.key(False)
                n = buckets.get(b, 0)
                if n >= 2 or len(seen) > MAX_HEADS // 2:
                    st = st.copy()
                    st.facts = st.facts & base
                else:
                    buckets[b] = n + 1
            k = st.key()
            if k in seen:
                self.g.edge(st.node, seen[k])
                continue
            if len(seen) > MAX_HEADS:
                raise AnalysisError(f'loop does not converge at '
                                    f'{node._mod.rel}:{node.lineno}')
            st = self.emit('loop', {}, st, node)
            seen[k] = st.node
            work.extend((i, True) for i in self.merge(step(st)))

    def _join_elems(self, st, elems):
        """what a container may hold accumulates around a loop"""
        upd = {}
        for k, v in st.heap.items():
            if k[1] != '$elems':
                continue
            acc = self.squash(k[0], elems.get(k, frozenset()) | v[1])
            elems[k] = acc
            if acc != v[1]:
                upd[k] = ('tset', acc)
        if not upd:
            return st
        st = st.copy()
        st.heap = dict(st.heap)
        for k, v in upd.items():
            if v is None:
                st.heap.pop(k)
            else:
                st.heap[k] = v
            st.heap.pop((k[0], '$items'), None)
            st.heap.pop((k[0], '$copyof'), None)
        return st

    def _widen_vars(self, node, st, hist, wide, init, coarse=False):
        """terms that keep changing around a loop become unknown"""
        todo = []
        for where, m in (('v', st.vars), ('h', st.heap)):
            for k, v in m.items():
                if where == 'h' and k[1][:1] == '$' or v[0] == 'tset':
                    continue
                if where == 'v' and k[1] == '$closure':
                    continue
                key = (where, k)
                if key in wide:
                    todo.append(key)
                    continue
                if hist is None or v in init.get(key, ()):
                    continue
                lim = 6 if v[0] in ('c', 'g') else 0 if coarse else 2
                h = hist.setdefault(key, set())
                h.add(v)
                if len(h) > lim:
                    fields = set()
                    if all(x[0] == 'rec' and x[1] == v[1] and
                           len(x[2]) == len(v[2]) for x in h):
                        for i, (n, _) in enumerate(v[2]):
                            if len({x[2][i] for x in h}) > 1:
                                fields.add(n)
                    wide[key] = fields
                    todo.append(key)
        if not todo:
            return st
        for where, k in todo:
            m = st.vars if where == 'v' else st.heap
            if k not in m:
                continue
            v = m[k]
            fields = wide[(where, k)]
            if fields and v[0] == 'rec':
                nf = []
                for n, x in v[2]:
                    if n in fields:
                        lab = ('L', st.frame, ('wide', node._nid, k[1], n))
                        w = ('r', lab, ('wide', n))
                        if x != w:
                            self._wide_type(w, x)
                            st = self.fresh(st, lab)
                        nf.append((n, w))
                    else:
                        nf.append((n, x))
                nv = ('rec', v[1], tuple(nf))
                if nv == v:
                    continue
            else:
                lab = ('L', st.frame, ('wide', node._nid, k[1]))
                nv = ('r', lab, ('wide', k[1]))
                if v == nv:
                    continue
                self._wide_type(nv, v)
                st = self.fresh(st, lab)
            st = st.copy()
            if where == 'v':
                st.vars = dict(st.vars)
                st.vars[k] = nv
            else:
                st.heap = dict(st.heap)
                st.heap[k] = nv
        return self.gc_facts(st)

    def _forget_heap(self, node, st):
        """what containers made by earlier rounds hold becomes unknown"""
        old = lambda b: b[0] == 'o' and b[-1][0] in ('^', '@')
        gone = [k for k in st.heap if old(k[0])]
        vers = [b for b in st.ver if old(b)]
        if not gone and not vers:
            return st
        st = st.copy()
        st.heap = {k: v for k, v in st.heap.items() if not old(k[0])}
        st.ver = dict(st.ver)
        for b in vers:
            lab = ('L', st.frame, ('aged', node._nid, b))
            st = self.fresh(st, lab).copy()
            st.ver = dict(st.ver)
            st.ver[b] = lab
        st.facts = frozenset(f for f in st.facts if not any(
            self._content_of(f[0], b) for b in vers))
        return self.gc_facts(st)

    def _wide_type(self, w, x):
        if w not in self.types:
            ty = self.ty(x)
            if ty:
                self.types[w] = ty

    def prune(self, node, states):
        """merge the states before a statement, dead variables forgotten"""
        if len(states) < 2:
            return states
        live = self.live(node)
        if live is not None:
            states = [self._drop_dead(st, live) for st in states]
        states = self.merge(states)
        if len(states) > 8:
            states = self.merge([self.gc_facts(st) for st in states])
        return states

    def _drop_dead(self, st, live):
        fr = st.frame
        if all(k[0] != fr or k[1] in live or k[1][:1] == '$'
               for k in st.vars):
            return st
        st = st.copy()
        st.vars = {k: v for k, v in st.vars.items()
                   if k[0] != fr or k[1] in live or k[1][:1] == '$'}
        return st

    def gc(self, node, st):
        live = self.live(node)
        if live is not None:
            st = self._drop_dead(st, live)
        return self.gc_facts(st)

    def gc_facts(self, st):
        labs = set()
        for v in st.vars.values():
            labs |= labels_of(v)
        if st.ret is not None:
            labs |= labels_of(st.ret)
        if st.exc is not None:
            labs |= labels_of(st.exc)
        heap = st.heap
        changed = True
        reach = dict()
        while changed:
            changed = False
            for k, v in heap.items():
                if k in reach:
                    continue
                b = k[0]
                if b[0] == 'o' and not (labels_of(b) <= labs):
                    continue
                reach[k] = v
                nl = labels_of(v) | labels_of(b)
                if not nl <= labs:
                    labs |= nl
                changed = True
        s = st.copy()
        s.heap = reach
        s.ver = {b: v for b, v in s.ver.items() if labels_of(b) <= labs}
        ok = set(labs)
        if s.epoch is not None:
            ok |= labels_of(s.epoch)
        for b, v in s.ver.items():
            ok |= labels_of(v)
        s.facts = frozenset(f for f in s.facts if labels_of(f[0]) <= ok)
        # versions and suspensions nothing refers to any more
        used = set(labs)
        for f in s.facts:
            used |= labels_of(f[0])
        if s.ver:
            nv = {}
            drop = []
            for b, v in s.ver.items():
                if v in used or self._has_content(labs, s, b):
                    nv[b] = v
                else:
                    drop.append(b)
            if drop:
                s.ver = nv
                s.facts = frozenset(
                    f for f in s.facts
                    if not any(self._content_of(f[0], b) for b in drop))
        if s.epoch is not None and s.epoch != E0 and s.epoch not in used:
            s.facts = frozenset(f for f in s.facts
                                if E0 not in labels_of(f[0]))
            if E0 in labs:
                s = self.fresh(s, E0)
            s.epoch = E0
        return s

    def _has_content(self, labs, s, base):
        for v in s.vars.values():
            if self._content_of(v, base):
                return True
        return any(self._content_of(v, base) for v in s.heap.values())

    def _content_of(self, t, base):
        """does the term read the content of base?"""
        return base in content_bases(t)

    def live(self, node):
        """names of the enclosing function that may be read later"""
        if not isinstance(node, ast.stmt):
            return None
        m = node._mod
        if not hasattr(m, '_live'):
            m._live = {}
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    _liveness(n, m._live)
        return m._live.get(node._nid)

    def _enclosing(self, node):
        m = node._mod
        if not hasattr(m, '_parents'):
            m._parents = {}
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    m._parents[c._nid] = n
        n = node
        while n is not None:
            n = m._parents.get(n._nid)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda)):
                return n
        return None

    def x_With(self, s, states, is_async=False):
        return self._with(s, list(s.items), states,
                          isinstance(s, ast.AsyncWith))

    def x_AsyncWith(self, s, states):
        return self._with(s, list(s.items), states, True)

    def _with(self, s, items, states, is_async):
        if not items:
            return self.block(s.body, states)
        item, rest = items[0], items[1:]
        out = Out()
        entered = []
        for st in states:
            for s2, cm in self.ev(item.context_expr, st):
                if cm[0] == 'coro':
                    cm = ('op', 'cm', cm)
                s2 = self.emit('with', {'value': cm}, s2, s)
                if is_async:
                    s2 = self.suspend(s2, item.context_expr, cm)
                val = cm
                if cm[0] == 'r':
                    val = cm
                if item.optional_vars is not None:
                    for s3 in self.assign(item.optional_vars, val, s2):
                        entered.append((s3, cm))
                else:
                    entered.append((s2, cm))
        for st, cm in entered:
            sink = []
            self.sinks.append(sink)
            sup = self._suppressed(cm)
            if sup is not None:
                self.try_depth += 1
            here = [(st.frame, st.fstack)]
            o = self._with(s, rest, [st], is_async)
            if sup is not None:
                self.try_depth -= 1
            self.sinks.pop()
            sink = self.unwind(sink, here)

            def leave(sts):
                r = []
                for x in self.merge(sts):
                    x = self.emit('withexit', {'value': cm}, x, s)
                    if is_async:
                        x = self.suspend(x, s, cm)
                    r.append(x)
                return r
            out.next += leave(o.next)
            out.brk += leave(o.brk)
            out.cont += leave(o.cont)
            out.ret += leave(o.ret)
            for x in leave(sink):
                if sup is None:
                    self.sinks[-1].append(x)
                    continue
                caught, rem = [], [x]
                for q in sup:
                    nr = []
                    for y in rem:
                        c, n = self.match_exc(y, q)
                        caught += c
                        nr += n
                    rem = nr
                for y in caught:
                    y = y.copy()
                    y.exc = None
                    out.next.append(y)
                for y in rem:
                    self.sinks[-1].append(y)
        return out

    def _suppressed(self, cm):
        if cm[0] == 'op' and cm[1] == 'suppress':
            return [t[1] for t in cm[2:] if t[0] == 'g']
        return None

    def match_exc(self, st, q):
        """-> (caught states, not caught states)"""
        e = st.exc
        if e is None:
            return [st], []
        cls, lab, excl = e[1], e[2], e[3]
        p = self.p
        if cls == 'Exception?':
            if q in ('Exception', 'BaseException'):
                return [st], []
            if not p.is_subclass(q, 'Exception') and q in BUILTIN_EXC:
                return [], [st]
            if any(p.is_subclass(q, x) for x in excl):
                return [], [st]
            a = st.copy()
            a.exc = ('exc', q, lab, frozenset())
            b = st.copy()
            b.exc = ('exc', cls, lab, excl | {q})
            return [a], [b]
        if cls == 'asyncio.CancelledError' and \
                q == 'hat.aio.CancelledWithResultError':
            if q in excl:
                return [], [st]
            a = st.copy()
            a.exc = ('exc', q, lab, frozenset())
            b = st.copy()
            b.exc = ('exc', cls, lab, excl | {q})
            return [a], [b]
        if p.is_subclass(cls, q):
            return [st], []
        return [], [st]

    def unwind(self, sink, here):
        """an exception leaves the frames entered since"""
        if not here:
            return sink
        r = []
        for x in sink:
            f = here[0]
            for i in here:
                if x.frame[:len(i[0])] == i[0]:
                    f = i
                    break
            if (x.frame, x.fstack) != f:
                x = x.copy()
                old = x.frame
                x.frame, x.fstack = f
                x.vars = {k: v for k, v in x.vars.items()
                          if k[0][:len(f[0])] != f[0] or k[0] == f[0] or
                          k[0][:len(old)] != old[:len(k[0])] or
                          self._captured_frame(x, k[0])}
            r.append(x)
        return r

    def _captured_frame(self, s, frame):
        mark = ('F', frame)
        return any(mark in labels_of(x) for k, x in s.vars.items()
                   if k[0] != frame) or any(
                       mark in labels_of(x) for x in s.heap.values())

    def x_Try(self, s, states):
        out = Out()
        sink = []
        self.sinks.append(sink)
        self.try_depth += 1
        here = [(x.frame, x.fstack) for x in states]
        o = self.block(s.body, states)
        self.try_depth -= 1
        self.sinks.pop()
        sink = self.unwind(sink, here)
        outer_exc = {}
        pend = Out()        # before finally
        sink2 = []
        if s.finalbody:
            self.sinks.append(sink2)
            self.try_depth += 1
        pend.absorb(o)
        oe = self.block(s.orelse, o.next)
        pend.absorb(oe)
        pend.next += oe.next
        remaining = self.merge(sink)
        for h in s.handlers:
            if not remaining:
                break
            qs = self.handler_classes(h)
            caught, rem = [], []
            for st in remaining:
                cur = [st]
                for q in qs:
                    nxt = []
                    for y in cur:
                        c, n = self.match_exc(y, q)
                        caught += c
                        nxt += n
                    cur = nxt
                rem += cur
            remaining = rem
            hs = []
            for st in self.merge(caught):
                e = st.exc
                st = self.emit('except', {'value': e, 'classes': tuple(qs)},
                               st, h)
                if h.name:
                    st = st.set(h.name, e)
                hs.append(st)
            ho = self.block(h.body, hs)

            def clear(sts):
                r = []
                for x in sts:
                    x = x.copy()
                    x.exc = None
                    if h.name:
                        x.vars = {k: v for k, v in x.vars.items()
                                  if k != (x.frame, h.name)}
                    r.append(x)
                return r
            pend.next += clear(ho.next)
            pend.brk += clear(ho.brk)
            pend.cont += clear(ho.cont)
            pend.ret += clear(ho.ret)
        if s.finalbody:
            self.try_depth -= 1
            self.sinks.pop()
            raised = self.merge(remaining + self.unwind(sink2, here))
            for kind in ('next', 'brk', 'cont', 'ret'):
                sts = self.merge(getattr(pend, kind))
                if not sts:
                    continue
                sts = [self.emit('finally', {'on': kind}, x, s) for x in sts]
                fo = self.block(s.finalbody, sts)
                getattr(out, kind).extend(fo.next)
                out.absorb(fo)
            if raised:
                rets = {}
                sts = []
                for x in raised:
                    x = self.emit('finally', {'on': 'raise'}, x, s)
                    sts.append(x)
                fo = self.block(s.finalbody, sts)
                for x in fo.next:
                    self.sinks[-1].append(x)
                out.absorb(fo)
        else:
            out.next = pend.next
            out.absorb(pend)
            self.sinks[-1].extend(remaining)
        out.next = self.merge(out.next)
        return out

    def handler_classes(self, h):
        if h.type is None:
            return ['BaseException']
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [self.p.resolve_dotted(h._mod, e) or ast.unparse(e)
                for e in elts]

    def x_Break(self, s, states):
        o = Out()
        o.brk = states
        return o

    def x_Continue(self, s, states):
        o = Out()
        o.cont = states
        return o

    def x_Match(self, s, states):
        out = Out()
        for st in states:
            for s2, v in self.ev(s.subject, st):
                rest = [s2]
                for case in s.cases:
                    nxt = []
                    matched = []
                    for x in rest:
                        t, f = self.match_pattern(case.pattern, v, x)
                        if case.guard is not None:
                            for y in t:
                                a, b = self.branch(case.guard, y)
                                matched += a
                                f = f + b
                        else:
                            matched += t
                        nxt += f
                    rest = nxt
                    o = self.block(case.body, self.mark(matched, s, True))
                    out.absorb(o)
                    out.next += o.next
                out.next += rest
        return out

    def match_pattern(self, pat, v, st):
        if isinstance(pat, ast.MatchValue):
            r = ([], [])
            for s2, x in self.ev(pat.value, st):
                t, f = self.cmp_states(s2, '==', v, x)
                r[0].extend(t)
                r[1].extend(f)
            return r
        if isinstance(pat, ast.MatchSingleton):
            return self.cmp_states(st, '==', v, const(pat.value))
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is None:
                if pat.name:
                    st = st.set(pat.name, v)
                return [st], []
            t, f = self.match_pattern(pat.pattern, v, st)
            if pat.name:
                t = [x.set(pat.name, v) for x in t]
            return t, f
        if isinstance(pat, ast.MatchOr):
            t, rest = [], [st]
            for p in pat.patterns:
                nr = []
                for x in rest:
                    a, b = self.match_pattern(p, v, x)
                    t += a
                    nr += b
                rest = nr
            return t, rest
        if isinstance(pat, ast.MatchClass):
            q = self.p.resolve_dotted(pat._mod, pat.cls)
            t, f = self.split(st, ('isinst', v, q or '?'))
            return t, f
        if isinstance(pat, ast.MatchSequence):
            ts, fs = [st], []
            for i, p in enumerate(pat.patterns):
                nt = []
                for x in ts:
                    comp = (v[1][i] if v[0] == 'tup' and i < len(v[1])
                            else ('i', v, const(i), None))
                    a, b = self.match_pattern(p, comp, x)
                    nt += a
                    fs += b
                ts = nt
            return ts, fs
        raise AnalysisError('match pattern not supported')

    # ------------------------------------------------------------------
    # assignment

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if depth(v) > MAX_TERM:
                v = ('r', self.label(st, t), ('wide',))
            fr = self.owner_frame(st, t.id)
            return [st.set(t.id, v, fr)]
        if isinstance(t, ast.Attribute):
            r = []
            for s2, b in self.ev(t.value, st):
                r.append(self.store_attr(s2, b, t.attr, v, t))
            return r
        if isinstance(t, ast.Subscript):
            r = []
            for s2, b in self.ev(t.value, st):
                for s3, k in self.ev(t.slice, s2):
                    s3 = self.emit('setitem', dict(base=b, key=k, value=v),
                                   s3, t)
                    s3 = self.mutate(s3, b, t)
                    s3 = s3.copy()
                    s3.heap = dict(s3.heap)
                    s3.heap[(b, '[]', k)] = v
                    r.append(s3)
            return r
        if isinstance(t, (ast.Tuple, ast.List)):
            states = [st]
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts)
                         if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    c = ('op', 'rest', v, const(i))
                    if v[0] == 'tup':
                        c = ('tup', v[1][i:len(v[1]) - (n - i - 1)])
                    e = e.value
                else:
                    idx = i if star is None or i < star else i - n
                    c = self.component(v, idx)
                states = [y for x in states for y in self.assign(e, c, x)]
            return states
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise AnalysisError(f'assignment target {type(t).__name__}')

    def component(self, v, i):
        if v[0] == 'tup' and -len(v[1]) <= i < len(v[1]):
            return v[1][i]
        if v[0] == 'rec' and -len(v[2]) <= i < len(v[2]):
            return v[2][i][1]
        if v[0] == 'op' and v[1] == 'slice' and i >= 0 and \
                len(v) > 3 and is_const(v[3]) and all(
                    x == NONE for x in v[4:]):
            lo = v[3][2] or 0
            if isinstance(lo, int) and lo >= 0:
                return self.component(v[2], i + lo)
        ty = self.ty(v)
        if ty and ty[0] == 'cls' and i >= 0:
            c = self.p.classes[ty[1]]
            if c.is_namedtuple and i < len(c.fields):
                return ('a', v, c.fields[i][0], None)
        return ('i', v, const(i), None)

    def owner_frame(self, st, name):
        return st.frame

    def store_attr(self, st, b, attr, v, node):
        ty = self.ty(v)
        st = self.emit('store', dict(base=b, attr=attr, value=v), st, node)
        lab = self.label(st, node)
        st = st.copy()
        st.heap = dict(st.heap)
        st.heap[(b, attr)] = v
        return st

    # ------------------------------------------------------------------
    # conditions

    def branch(self, e, st):
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            res = []
            cur = [st]
            for v in e.values:
                nxt = []
                for s in cur:
                    t, f = self.branch(v, s)
                    if is_and:
                        nxt += t
                        res += f
                    else:
                        nxt += f
                        res += t
                cur = nxt
            return (cur, res) if is_and else (res, cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.branch(e.operand, st)
            return f, t
        if isinstance(e, ast.Compare):
            ts, fs = [], []
            for s, left in self.ev(e.left, st):
                cur = [(s, left)]
                for op, right in zip(e.ops, e.comparators):
                    nxt = []
                    for s2, lv in cur:
                        for s3, rv in self.ev(right, s2):
                            t, f = self.cmp_hook(s3, CMP[type(op)], lv, rv, e)
                            fs += f
                            nxt += [(x, rv) for x in t]
                    cur = nxt
                ts += [x for x, _ in cur]
            return ts, fs
        if isinstance(e, ast.IfExp):
            ts, fs = [], []
            a, b = self.branch(e.test, st)
            for s in a:
                t, f = self.branch(e.body, s)
                ts += t
                fs += f
            for s in b:
                t, f = self.branch(e.orelse, s)
                ts += t
                fs += f
            return ts, fs
        if isinstance(e, ast.NamedExpr):
            ts, fs = [], []
            for s, v in self.ev(e, st):
                t, f = self.truth(s, v)
                ts += t
                fs += f
            return ts, fs
        ts, fs = [], []
        for s, v in self.ev(e, st):
            t, f = self.truth(s, v)
            ts += t
            fs += f
        return ts, fs

    def cmp_hook(self, st, op, a, b, node):
        return self.cmp_states(st, op, a, b)

    # ------------------------------------------------------------------
    # expressions

    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f'expression {type(e).__name__} not supported'
                                f' ({e._mod.rel}:{e.lineno})')
        return m(e, st)

    def ev_list(self, es, st):
        acc = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in acc:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        if v[0] == 'tup':
                            nxt.append((s2, vs + v[1]))
                        else:
                            nxt.append((s2, vs + (('op', 'star', v),)))
                else:
                    for s2, v in self.ev(e, s):
                        nxt.append((s2, vs + (v,)))
            acc = nxt
        return acc

    def e_Constant(self, e, st):
        return [(st, const(e.value))]

    def e_Name(self, e, st):
        return [(st, self.lookup_var(e.id, e, st))]

    def lookup_var(self, name, e, st):
        fr = st.frame
        v = st.vars.get((fr, name))
        if v is not None:
            return v
        # closures: frames recorded when the closure was entered
        cf = st.vars.get((fr, '$closure'))
        while cf is not None:
            v = st.vars.get((cf[1], name))
            if v is not None:
                return v
            cf = st.vars.get((cf[1], '$closure'))
        return self.global_term(e._mod, name, st, e)

    def global_term(self, mod, name, st=None, e=None):
        q = self.p.resolve_name(mod, name)
        if q is None:
            return ('op', 'unbound', const(name))
        return self.global_value(q)

    def global_value(self, q):
        ge = self.p.global_expr(q)
        if ge is not None:
            m, x = ge
            if isinstance(x, ast.Constant):
                return const(x.value)
            if isinstance(x, ast.UnaryOp) and isinstance(x.operand,
                                                         ast.Constant):
                try:
                    return const(ast.literal_eval(x))
                except Exception:
                    pass
            if isinstance(x, ast.BinOp):
                v = _const_fold(x)
                if v is not None:
                    return const(v)
            if isinstance(x, ast.Tuple) and self.is_plain(x) and \
                    q not in self.tables:
                self.tables[q] = None
                st = State()
                st.frame = ('$module', )
                r = self.ev(x, st)
                del self.tables[q]
                if len(r) == 1:
                    return r[0][1]
        return ('g', q)

    def e_NamedExpr(self, e, st):
        r = []
        for s, v in self.ev(e.value, st):
            for s2 in self.assign(e.target, v, s):
                r.append((s2, v))
        return r

    def e_Tuple(self, e, st):
        return [(s, ('tup', vs)) for s, vs in self.ev_list(e.elts, st)]

    def e_List(self, e, st, kind='list'):
        r = []
        for s, vs in self.ev_list(e.elts, st):
            s, o = self.alloc(s, kind, e, vs)
            for v in vs:
                if v[:2] == ('op', 'star'):
                    v = ('el', v[2], None)
                s = self.emit('add', {'obj': o, 'value': v,
                                      'how': 'display'}, s, e)
            r.append((s, o))
        return r

    def alloc(self, s, kind, e, items=None):
        lab = self.label(s, e)
        s = self.fresh(s, lab)
        o = ('o', kind, lab)
        s = s.copy()
        s.heap = {k: v for k, v in s.heap.items() if k[0] != o}
        s.ver = {k: v for k, v in s.ver.items() if k != o}
        if items is not None:
            s.heap[(o, '$items')] = ('tup', tuple(items))
            s.heap[(o, '$elems')] = ('tset', frozenset(items))
        else:
            s.heap[(o, '$elems')] = ('tset', frozenset())
        return s, o

    def e_Set(self, e, st):
        return self.e_List(e, st, 'set')

    def e_Dict(self, e, st):
        acc = [(st, ())]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, items in acc:
                if k is None:
                    for s2, vv in self.ev(v, s):
                        if vv[0] == 'o' and (vv, '$items') in s2.heap and \
                                vv[1] == 'dict':
                            nxt.append((s2, items +
                                        s2.heap[(vv, '$items')][1]))
                        else:
                            nxt.append((s2, items + (('op', 'star2', vv),)))
                else:
                    for s2, kk in self.ev(k, s):
                        for s3, vv in self.ev(v, s2):
                            nxt.append((s3, items + (('tup', (kk, vv)),)))
            acc = nxt
        r = []
        for s, items in acc:
            s, o = self.alloc(s, 'dict', e, items)
            for it in items:
                if it[0] == 'tup':
                    s.heap[(o, '[]', it[1][0])] = it[1][1]
            for it in items:
                if it[0] == 'tup':
                    s = self.emit('setitem', dict(
                        base=o, key=it[1][0], value=it[1][1]), s, e)
                else:
                    s = self.emit('merge', dict(base=o, value=it[2]), s, e)
            r.append((s, o))
        return r

    def e_JoinedStr(self, e, st):
        parts = []
        acc = [(st, ())]
        for v in e.values:
            nxt = []
            for s, vs in acc:
                if isinstance(v, ast.Constant):
                    nxt.append((s, vs + (const(v.value),)))
                else:
                    for s2, x in self.ev(v.value, s):
                        nxt.append((s2, vs + (x,)))
            acc = nxt
        return [(s, ('op', 'fstr', *vs)) for s, vs in acc]

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Lambda(self, e, st):
        return [(st, ('fn', e._nid, ('F', st.frame)))]

    def e_IfExp(self, e, st):
        t, f = self.branch(e.test, st)
        r = []
        for s in t:
            r += self.ev(e.body, s)
        for s in f:
            r += self.ev(e.orelse, s)
        return r

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        res = []
        cur = [st]
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for s2, x in self.ev(v, s):
                    if last:
                        res.append((s2, x))
                        continue
                    t, f = self.truth(s2, x)
                    if is_and:
                        nxt += t
                        res += [(y, FALSE if self._boolean(x) else x)
                                for y in f]
                    else:
                        nxt += f
                        res += [(y, TRUE if self._boolean(x) else x)
                                for y in t]
            cur = nxt
        return res

    def _boolean(self, t):
        return t[0] == 'cmp'

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            t, f = self.branch(e.operand, st)
            return ([(s, FALSE) for s in t] + [(s, TRUE) for s in f])
        r = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.USub):
                if v[0] == 'c':
                    r.append((s, const(-v[2])))
                else:
                    r.append((s, arith('-', const(0), v)))
            elif isinstance(e.op, ast.UAdd):
                r.append((s, v))
            else:
                r.append((s, ('op', '~', v)))
        return r

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            r = []
            for s, a in self.ev(e.left, st):
                for s2, b in self.ev(e.comparators[0], s):
                    t, f = self.cmp_hook(s2, CMP[type(e.ops[0])], a, b, e)
                    r += [(x, TRUE) for x in t] + [(x, FALSE) for x in f]
            return r
        t, f = self.branch(e, st)
        return [(x, TRUE) for x in t] + [(x, FALSE) for x in f]

    def e_BinOp(self, e, st):
        r = []
        op = BINOP[type(e.op)]
        for s, a in self.ev(e.left, st):
            for s2, b in self.ev(e.right, s):
                if op == '+' and (a[0] == 'o' or b[0] == 'o'):
                    r.append((s2, ('op', 'concat', a, b)))
                else:
                    r.append((s2, arith(op, a, b)))
        return r

    def e_Starred(self, e, st):
        return [(s, ('op', 'star', v)) for s, v in self.ev(e.value, st)]

    def e_Attribute(self, e, st):
        r = []
        for s, b in self.ev(e.value, st):
            r += self.get_attr(s, b, e.attr, e)
        return r

    def get_attr(self, st, b, attr, node):
        if b[0] == 'g':
            q = self.p.canon(f'{b[1]}.{attr}')
            return [(st, self.global_value(q))]
        if b[0] == 'rec':
            for n, v in b[2]:
                if n == attr:
                    return [(st, v)]
        hv = st.heap.get((b, attr))
        if hv is not None:
            return [(st, hv)]
        ty = self.ty(b)
        cq = None
        if ty and ty[0] == 'cls':
            cq = ty[1]
        if cq:
            c = self.p.classes[cq]
            f = self.p.find_method(c, attr)
            if f is not None:
                if f.is_property:
                    if f.is_abstract or f.qual in st.fstack:
                        return [(st, ('a', b, attr, None))]
                    if f.qual in self.opaque:
                        return [(st, ('a', b, attr, ('E', st.epoch)))]
                    return self.call_func(f, [b], {}, st, node)
                return [(st, ('bm', f.qual, b))]
            if c.is_namedtuple:
                return [(st, ('a', b, attr, None))]
            mut = any(attr in i.mutable_attrs for i in self.p.mro(c))
            if not mut and attr not in VOLATILE_ATTRS:
                return [(st, ('a', b, attr, None))]
            return [(st, ('a', b, attr, ('E', st.epoch)))]
        ver = ('E', st.epoch) if attr in VOLATILE_ATTRS else None
        return [(st, ('a', b, attr, ver))]

    def e_Subscript(self, e, st):
        r = []
        for s, b in self.ev(e.value, st):
            if isinstance(e.slice, ast.Slice):
                parts = []
                acc = [(s, ())]
                for x in (e.slice.lower, e.slice.upper, e.slice.step):
                    nxt = []
                    for s2, vs in acc:
                        if x is None:
                            nxt.append((s2, vs + (NONE,)))
                        else:
                            for s3, v in self.ev(x, s2):
                                nxt.append((s3, vs + (v,)))
                    acc = nxt
                for s2, vs in acc:
                    if b[0] == 'tup' and all(
                            v == NONE or v[0] == 'c' for v in vs):
                        sl = slice(*[v[2] for v in vs])
                        r.append((s2, ('tup', b[1][sl])))
                    else:
                        r.append((s2, ('op', 'slice', b, *vs)))
                continue
            for s2, k in self.ev(e.slice, s):
                r += self.get_item(s2, b, k, e)
        return r

    def get_item(self, st, b, k, node):
        if b[0] in ('tup', 'rec') and k[0] == 'c' and isinstance(k[2], int):
            return [(st, self.component(b, k[2]))]
        hv = st.heap.get((b, '[]', k))
        if hv is not None:
            return [(st, hv)]
        if b[0] == 'g':
            c = self.p.classes.get(b[1])
            if c and c.is_enum:
                return [(st, ('op', 'enumname:' + b[1], k))]
        pairs = self.table(st, b)
        if pairs is not None:
            r = self.dispatch(st, b, pairs, k, node)
            if r is not None:
                return r
        if b[0] == 'o':
            items = st.heap.get((b, '$items'))
            if items is not None and k[0] == 'c' and isinstance(k[2], int) \
                    and b[1] != 'dict':
                try:
                    return [(st, items[1][k[2]])]
                except IndexError:
                    pass
            el = st.heap.get((b, '$elems'))
            if items is None and el is not None and el[1] and \
                    b[1] in ('list', 'deque') and k[0] == 'c' and \
                    self.is_comp(b):
                r = []
                for x in sorted(el[1], key=repr):
                    s = self.emit('pick', {'value': x, 'iter': b},
                                  self.forget(st, x), node)
                    s = s.copy()
                    s.heap = dict(s.heap)
                    s.heap[(b, '[]', k)] = x
                    r.append((s, x))
                return r
        ty = self.ty(b)
        if ty and ty[0] == 'cls' and self.p.classes[ty[1]].is_namedtuple \
                and k[0] == 'c':
            return [(st, self.component(b, k[2]))]
        if b[0] == 'i' or b[0] == 'el':
            ver = st.ver.get(b)
        else:
            ver = self.cver(st, b)
        if k[0] == 'c' and k[1] == 'int' and not self._container(b) and \
                b[0] != 'o':
            ver = st.ver.get(b)
        st = self.maybe_raise_key(st, node)
        return [(st, ('i', b, k, ver))]

    def table(self, st, b):
        """(key, value) pairs of a dict that is written down as such with
        keys that are known, None for other values"""
        pairs = None
        if b[0] == 'o' and b[1] == 'dict':
            items = st.heap.get((b, '$items'))
            if items is not None and all(i[0] == 'tup' for i in items[1]):
                pairs = [i[1] for i in items[1]]
        elif b[0] == 'g':
            pairs = self.tables.get(b[1], 0)
            if pairs == 0:
                pairs = self.tables[b[1]] = self.global_table(b[1])
        if not pairs:
            return None
        keys = [k for k, _ in pairs]
        if len(set(keys)) < len(keys) or not all(map(self.isconst, keys)):
            return None
        return pairs

    def global_table(self, q):
        ge = self.p.global_expr(q)
        if ge is None or not isinstance(ge[1], ast.Dict) or not all(
                self.is_plain(x) for x in ge[1].keys + ge[1].values):
            return None
        st = State()
        st.frame = ('$module', )
        res = []
        for x, y in zip(ge[1].keys, ge[1].values):
            vs = []
            for z in (x, y):
                r = self.ev(z, st)
                if len(r) != 1:
                    return None
                vs.append(r[0][1])
            res.append(tuple(vs))
        return res

    def is_plain(self, x):
        if isinstance(x, ast.Tuple):
            return all(map(self.is_plain, x.elts))
        while isinstance(x, ast.Attribute):
            x = x.value
        return isinstance(x, (ast.Name, ast.Constant, ast.Lambda))

    def dispatch(self, st, b, pairs, k, node, default=None):
        """value of each of the keys that it may be"""
        if any(k == x for x, _ in pairs):
            return [(st, v) for x, v in pairs if x == k]
        if self.isconst(k):
            return None if default is None else [(st, default)]
        r, rest = [], [st]
        for x, v in pairs:
            nr = []
            for s in rest:
                tt, ff = self.cmp_states(s, '==', k, x)
                r += [(i, v) for i in tt]
                nr += ff
            rest = nr
        if default is not None:
            return r + [(s, default) for s in rest]
        if not self.whole_enum([x for x, _ in pairs]):
            for s in rest:
                self.raise_from(s, node, cls='KeyError')
        return r

    def whole_enum(self, keys):
        """all members of an enumeration"""
        if not all(k[0] == 'g' for k in keys):
            return False
        cs = {k[1].rpartition('.')[0] for k in keys}
        c = self.p.classes.get(cs.pop())
        return not cs and c is not None and c.is_enum and {
            k[1] for k in keys} >= {f'{c.qual}.{n}' for n in c.members}

    def is_comp(self, o):
        """made by a comprehension"""
        lab = o[2]
        while lab[0] != 'L':
            lab = lab[1]
        return isinstance(self.p.nodes[lab[2]], ast.ListComp)

    def maybe_raise_key(self, st, node):
        return st

    def e_Yield(self, e, st):
        r = []
        vs = self.ev(e.value, st) if e.value is not None else [(st, NONE)]
        for s, v in vs:
            if not self.yield_handlers:
                raise AnalysisError('yield outside generator')
            for s2 in self.yield_handlers[-1](s, v, e):
                r.append((s2, NONE))
        return r

    def e_YieldFrom(self, e, st):
        r = []
        for s, it in self.ev(e.value, st):
            h = self.yield_handlers[-1]

            def body(st, el, node):
                return h(st, el, node)
            for s2 in self.iterate(it, s, body, e):
                r.append((s2, NONE))
        return r

    # comprehensions ---------------------------------------------------

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set')

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict')

    def comp(self, e, st, kind):
        return self.memo(e, [st], lambda sts: self._comp(e, sts[0], kind))

    def _comp(self, e, st, kind):
        st, o = self.alloc(st, kind, e, None)
        st = st.set(f'$t{e._nid}', o)
        if kind == 'dict':
            st.heap[(o, '$pairs')] = NONE
        r = []

        def on_elem(s):
            if kind == 'dict':
                acc = []
                for s2, k in self.ev(e.key, s):
                    for s3, v in self.ev(e.value, s2):
                        acc.append((s3, ('tup', (k, v))))
            else:
                acc = self.ev(e.elt, s)
            return [self.add_elem(s2, o, v, e) for s2, v in acc]

        for s, it in self.ev(e.generators[0].iter, st):
            for s2 in self.comp_loops(e.generators, 0, it, s, on_elem):
                r.append((self.untemp(s2, e), o))
        return r

    def untemp(self, st, e):
        st = st.copy()
        st.vars = {k: v for k, v in st.vars.items()
                   if k != (st.frame, f'$t{e._nid}')}
        return st

    def add_elem(self, st, o, v, node, kind='add'):
        st = self.emit('add', {'obj': o, 'value': v, 'how': kind}, st, node)
        s = st.copy()
        s.heap = dict(s.heap)
        s.heap.pop((o, '$items'), None)
        s.heap.pop((o, '$copyof'), None)
        el = s.heap.get((o, '$elems'))
        if el is not None:
            rep = map_labels(v, lambda l: l if l[0] == '@' else
                             ('@', l if l[0] == 'L' else l[1])) \
                if v[0] not in ('o', 'bm', 'fn') else v
            # objects allocated outside stay themselves
            s.heap[(o, '$elems')] = ('tset', self.squash(o, el[1] | {rep}))
            if True:
                # what elements contain stays known under the summary label
                subs = object_subterms(v)
                for k, hv in list(s.heap.items()):
                    if k[0][0] == 'o' and k[0] in subs:
                        nk = (map_labels(k[0], lambda l: l if l[0] == '@' else
                              ('@', l if l[0] == 'L' else l[1])), *k[1:])
                        if nk not in s.heap:
                            s.heap[nk] = hv
                        elif nk[1] == '$elems':
                            s.heap[nk] = ('tset', self.squash(
                                nk[0], s.heap[nk][1] | hv[1]))
                        elif s.heap[nk] != hv:
                            s.heap.pop(nk)
        return s

    def squash(self, o, elems):
        """keep a bounded description of what a container may hold"""
        if len(elems) <= 2:
            return elems
        groups = {}
        for e in elems:
            groups.setdefault(self._kind_key(e), []).append(e)
        if len(groups) > 6:
            groups = {}
            for e in elems:
                if e[0] == 'rec':
                    k = ('rec', e[1], len(e[2]))
                elif e[0] == 'tup':
                    k = ('tup', len(e[1]))
                elif e[0] in ('c', 'g', 'o', 'fn', 'bm', 'part'):
                    k = e if len(elems) < 24 else e[:1]
                else:
                    k = '?'
                groups.setdefault(k, []).append(e)
        r = set()
        for k, es in groups.items():
            es.sort(key=repr)
            if k == '?' and len(es) <= 2:
                r |= set(es)
                continue
            g = es[0]
            for x in es[1:]:
                g = self._lgg(o, g, x, ())
            r.add(g)
        return frozenset(r)

    def _kind_key(self, e):
        """values of one kind are described together"""
        if e[0] == 'rec':
            return ('rec', e[1], len(e[2]))
        if e[0] == 'tup':
            return ('tup', tuple(self._kind_key(x) for x in e[1]))
        if e[0] in ('c', 'g', 'o', 'fn', 'bm', 'part', 'p'):
            return e
        if e[0] == 'r':
            return ('r', map_labels(e[1], lambda x: x[1] if x[0] in (
                '^', '@') else x), e[2][:2])
        if e[0] in ('a', 'i', 'el'):
            return (e[0], self._kind_key(e[1]), e[2] if e[0] != 'el' else '')
        return '?'

    def _lgg(self, o, a, b, path):
        """most specific common description of two values"""
        if a == b:
            return a
        if a[0] == b[0] == 'r' and a[1] == b[1] and len(a[2]) == len(
                b[2]) and a[2][:2] == b[2][:2] and a[2][0] == 'call':
            return ('r', a[1], a[2][:2] + tuple(
                self._lgg(o, x, y, path + (i,))
                for i, (x, y) in enumerate(zip(a[2][2:], b[2][2:]))))
        if a[0] == b[0] == 'kwarg' and a[1] == b[1]:
            return ('kwarg', a[1], self._lgg(o, a[2], b[2], path + (a[1],)))
        if a[0] == b[0] and a[0] in ('el', 'a', 'i') and a[2:] == b[2:]:
            return (a[0], self._lgg(o, a[1], b[1], path + (a[0],)), *a[2:])
        if a[0] == b[0] == 'rec' and a[1] == b[1] and \
                [n for n, _ in a[2]] == [n for n, _ in b[2]]:
            return ('rec', a[1], tuple(
                (n, self._lgg(o, x, y, path + (n,)))
                for (n, x), (_, y) in zip(a[2], b[2])))
        if a[0] == b[0] == 'tup' and len(a[1]) == len(b[1]):
            return ('tup', tuple(
                self._lgg(o, x, y, path + (i,))
                for i, (x, y) in enumerate(zip(a[1], b[1]))))
        site = next(iter(labels_of(o)), ('L', (), 'gen'))
        if site[0] in ('^', '@'):
            site = site[1]
        w = ('r', ('@', ('L', (), ('gen', site, path))), ('wide', 'elem'))
        for x in (a, b):
            if x != w:
                base = map_labels(w, lambda x: x[1] if x[0] == '@' else x)
                self._wide_type(base, x)
        return w

    def comp_loops(self, gens, i, it, st, on_elem):
        """-> states after the comprehension"""
        g = gens[i]

        def body(s, el, node):
            states = self.assign(g.target, el, s)
            for cond in g.ifs:
                nxt = []
                for x in states:
                    t, f = self.branch(cond, x)
                    nxt += t
                    skipped.extend(f)
                states = nxt
            res = []
            for x in states:
                if i + 1 < len(gens):
                    for x2, it2 in self.ev(gens[i + 1].iter, x):
                        res += self.comp_loops(gens, i + 1, it2, x2, on_elem)
                else:
                    res += on_elem(x)
            r = res + skipped
            skipped.clear()
            return r
        skipped = []
        done = self.iterate(it, st, body, g.target)
        # comprehension targets do not leak
        names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        r = []
        for s in done:
            s = s.copy()
            s.vars = {k: v for k, v in s.vars.items()
                      if not (k[0] == s.frame and k[1] in names and
                              (st.frame, k[1]) not in st.vars)}
            r.append(s)
        return r

    def e_GeneratorExp(self, e, st):
        r = []
        for s, it in self.ev(e.generators[0].iter, st):
            lab = self.label(s, e)
            s = self.fresh(s, lab)
            r.append((s, ('gx', e._nid, ('F', s.frame), it, lab)))
        return r

    # iteration ----------------------------------------------------------

    def iterate(self, it, st, body, node):
        """Run `body(state, element, node) -> states` for every element.

        Returns the states after exhaustion; break/return states are kept by
        the body itself.
        """
        k = it[0]
        src = st.heap.get((it, '$copyof')) if k == 'o' else None
        if src is not None:
            # a plain copy: as good as its origin
            return self.iter_elems(
                it, st.heap.get((it, '$elems'), ('tset', frozenset()))[1],
                st, body, node, ('op', 'list', src))
        if k == 'gx':
            return self.iter_gx(it, st, body, node)
        if k == 'gen':
            return self.iter_gen(it, st, body, node)
        if k == 'op' and it[1] in ('list', 'set', 'copy', 'iter', 'dict',
                                   'collections.deque', 'frozenset') and \
                len(it) == 3:
            # iterating a copy made here: same elements
            return self.iter_opaque(it, st, body, node)
        items = None
        if k == 'tup':
            items = it[1]
        elif k == 'o':
            x = st.heap.get((it, '$items'))
            if x is not None:
                items = x[1]
                if it[1] == 'dict':
                    items = tuple(i[1][0] if i[0] == 'tup' else i
                                  for i in items)
        elif k == 'm' and it[2] in ('items', 'values', 'keys') and \
                it[1][0] == 'o':
            x = st.heap.get((it[1], '$items'))
            if x is not None and all(i[0] == 'tup' for i in x[1]):
                items = {'items': x[1],
                         'values': tuple(i[1][1] for i in x[1]),
                         'keys': tuple(i[1][0] for i in x[1])}[it[2]]
            el = st.heap.get((it[1], '$elems'))
            if items is None and el is not None and \
                    (it[1], '$pairs') in st.heap and all(
                        i[0] == 'tup' and len(i[1]) == 2 for i in el[1]):
                # made by a comprehension and as such since
                if not el[1]:
                    return [self.emit('iterend', {'iter': it}, st, node)]
                return self.iter_elems(it, {
                    'items': el[1],
                    'values': {i[1][1] for i in el[1]},
                    'keys': {i[1][0] for i in el[1]}}[it[2]], st, body, node)
        elif k == 'g':
            c = self.p.classes.get(it[1])
            if c and c.is_enum:
                items = tuple(('g', f'{c.qual}.{n}') for n in c.members)
        if items is not None and len(items) <= 16 and not any(
                i[0] == 'op' and i[1] in ('star', 'star2') for i in items):
            states = [st]
            for x in items:
                nxt = []
                for s in states:
                    s = self.emit('iter', {'value': x, 'iter': it}, s, node)
                    nxt += body(s, x, node)
                states = self.merge(nxt)
            return states
        if k == 'op' and it[1] == 'enumerate':
            def body2(s, el, n):
                idx = ('el', ('op', 'indices', it[2]), self.label(s, n))
                self.types[idx] = ('ext', 'int')
                return body(s, ('tup', (idx, el)), n)
            return self.iterate(it[2], st, body2, node)
        if k == 'op' and it[1] == 'zip' and len(it) > 2:
            def elems(s, n):
                return tuple(('el', x, self.label(s, n)) for x in it[2:])
            return self.iter_opaque(it, st, body, node, elems)
        if k == 'op' and it[1] == 'reversed':
            return self.iterate(it[2], st, body, node) \
                if it[2][0] in ('gx', 'gen') else \
                self.iter_opaque(it, st, body, node)
        if k == 'o':
            el = st.heap.get((it, '$elems'))
            if it[1] == 'dict' and (it, '$pairs') in st.heap:
                el = None if el is None or any(
                    i[0] != 'tup' or len(i[1]) != 2 for i in el[1]) else (
                        'tset', {i[1][0] for i in el[1]})
            if el is not None:
                if not el[1]:
                    return [self.emit('iterend', {'iter': it}, st, node)]
                return self.iter_elems(it, el[1], st, body, node)
        return self.iter_opaque(it, st, body, node)

    def iter_elems(self, it, elems, st, body, node, shown=None):
        exits = []
        shown = shown or it

        def step(s):
            e = self.emit('iterend', {'iter': shown}, s, node)
            exits.append(e)
            r = []
            if any(x[:2] == ('op', 'star') for x in elems):
                s = self.fresh(s, self.label(s, node))
            for x in sorted(elems, key=repr):
                if x[:2] == ('op', 'star'):
                    # items of what has been put in, one after another
                    x = ('el', x[2], self.label(s, node))
                s2 = self.emit('iter', {'value': x, 'iter': shown},
                               self.forget(s, x), node)
                r += body(s2, x, node)
            return r
        self.fix(node, [st], step)
        return self.merge(exits)

    def forget(self, st, x):
        """what was learned about one element says nothing about another"""
        labs = {i for i in labels_of(x) if i[0] == '@'}
        if not labs or not any(labs & labels_of(f[0]) for f in st.facts):
            return st
        s = st.copy()
        s.facts = frozenset(f for f in s.facts
                            if not labs & labels_of(f[0]))
        return s

    def iter_opaque(self, it, st, body, node, elems=None):
        exits = []

        def step(s):
            e = self.emit('iterend', {'iter': it}, s, node)
            exits.append(e)
            lab = self.label(s, node)
            s = self.fresh(s, lab)
            src = it
            if it[0] == 'op' and it[1] in ('list', 'tuple', 'copy', 'iter') \
                    and len(it) == 3:
                src = it[2]
            el = ('tup', elems(s, node)) if elems else ('el', src, lab)
            s = self.emit('iter', {'value': el, 'iter': it}, s, node)
            return body(s, el, node)
        self.fix(node, [st], step)
        return self.merge(exits)

    def iter_gx(self, it, st, body, node):
        e = self.p.nodes[it[1]]
        fr = it[2][1]
        outer_frame, outer_stack = st.frame, st.fstack
        sink = self.sinks[-1]
        # evaluate in the defining frame; nested frame keeps targets apart
        inner = st.copy()
        inner.frame = st.frame + (('gx', e._nid),)
        inner.vars = dict(inner.vars)
        inner.vars[(inner.frame, '$closure')] = ('F', fr)

        def on_elem(s):
            r = []
            for s2, v in self.ev(e.elt, s):
                f2 = s2.frame
                s2 = s2.copy()
                s2.frame = outer_frame
                self.sinks.append(sink)
                for s3 in body(s2, v, node):
                    s3 = s3.copy()
                    s3.frame = f2
                    r.append(s3)
                self.sinks.pop()
            return r
        done = self.comp_loops(e.generators, 0, it[3], inner, on_elem)
        r = []
        for s in done:
            s = s.copy()
            s.frame = outer_frame
            s.vars = {k: v for k, v in s.vars.items()
                      if k[0] != inner.frame}
            r.append(s)
        return self.merge(r)

    def iter_gen(self, it, st, body, node):
        _, fn, args, kws, selfframe, lab = it
        sink = self.sinks[-1]
        caller = (st.frame, st.fstack)
        yh = self.yield_handlers

        def handler(s, v, ynode):
            inner = (s.frame, s.fstack)
            s = s.copy()
            s.frame, s.fstack = caller
            saved = self.yield_handlers
            self.yield_handlers = outer_handlers
            self.sinks.append(sink)
            res = body(s, v, node)
            self.sinks.pop()
            self.yield_handlers = saved
            r = []
            for x in res:
                x = x.copy()
                x.frame, x.fstack = inner
                r.append(x)
            return r
        outer_handlers = list(self.yield_handlers)
        self.yield_handlers = outer_handlers + [handler]
        f = self.p.func_of_node[fn]
        # a generator runs on its own: only what has created it may recur
        run = st.copy()
        if len(outer_handlers) < self.max_depth:
            run.fstack = self.gen_stack.get(lab, st.fstack)
        if not self.can_enter(f, run):
            self.yield_handlers = outer_handlers
            return self.iter_opaque(it, st, body, node)
        rs = self.call_func(f, list(args), dict(kws), run, node,
                            closure=selfframe, run_gen=True)
        self.yield_handlers = outer_handlers
        done = []
        for s, _ in rs:
            s = s.copy()
            s.frame, s.fstack = caller
            done.append(s)
        return self.merge(done)

    # ------------------------------------------------------------------
    # await

    def e_Await(self, e, st):
        r = []
        for s, v in self.ev(e.value, st):
            r += self.await_value(v, s, e)
        return r

    def await_value(self, v, st, node):
        if v[0] == 'coro':
            return self.run_coro(v, st, node)
        return self.await_opaque(v, st, node)

    def await_opaque(self, v, st, node):
        st = self.suspend(st, node, v)
        self.raise_from(st, node, cancel=True)
        if v[0] == 'r':
            return [(st, v)]
        lab = self.label(st, node)
        st = self.fresh(st, lab)
        t = ('r', lab, ('await', v))
        return [(st, t)]

    def raise_from(self, st, node, cancel=False, cls='Exception?'):
        s = st.copy()
        s.exc = ('exc', cls, EXC, frozenset())
        s = self.emit('throws', {'value': s.exc}, s, node)
        self.sinks[-1].append(s)
        if cancel and not st.unc:
            s = st.copy()
            s.exc = ('exc', 'asyncio.CancelledError', EXC, frozenset())
            s = self.emit('throws', {'value': s.exc}, s, node)
            self.sinks[-1].append(s)

    def run_coro(self, v, st, node):
        _, kind, args, kws, lab = v
        if kind[0] == 'model':
            return getattr(self, 'aw_' + kind[1])(args, dict(kws), st, node)
        # in-repo coroutine function: kind is a callable term
        return self.enter_callable(kind, list(args), dict(kws), st, node)

    def aw_call(self, args, kws, st, node):
        """aio.call(fn, *args)"""
        fn, rest = args[0], list(args[1:])
        r = []
        for s, v in self.apply(fn, rest, kws, st, node, awaited=True):
            if v[0] == 'coro':
                r += self.run_coro(v, s, node)
            elif v[0] == 'r' and self._opaque_callable(fn):
                r += self.await_opaque(v, s, node)
            else:
                r.append((s, v))
        return r

    def _opaque_callable(self, fn):
        if fn[0] == 'part':
            return self._opaque_callable(fn[1])
        return fn[0] not in ('fn',)

    def aw_uncancellable(self, args, kws, st, node):
        s = st.copy()
        s.unc += 1
        r = []
        sink = []
        self.sinks.append(sink)
        for s2, v in self.await_value(args[0], s, node):
            s2 = s2.copy()
            s2.unc -= 1
            r.append((s2, v))
        self.sinks.pop()
        for x in sink:
            x = x.copy()
            x.unc -= 1
            self.sinks[-1].append(x)
        return r

    def aw_wait_for(self, args, kws, st, node):
        s = self.emit('call', dict(
            callee='hat.aio.wait_for', base=None, args=tuple(args),
            kws=tuple(kws.items()), res=NONE, awaited=True, fn=None), st,
            node)
        r = self.await_value(args[0], s, node)
        self.raise_from(s, node, cls='asyncio.TimeoutError')
        return r

    def aw_gather(self, args, kws, st, node):
        """runs the given coroutines; here one after another"""
        lab = self.label(st, node)
        res = ('r', lab, ('call', 'asyncio.gather', *args))
        st = self.emit('call', dict(
            callee='asyncio.gather', base=None, args=tuple(args),
            kws=tuple(kws.items()), res=res, awaited=True, fn=None), st,
            node)
        st = self.suspend(st, node, res)
        keep = kws.get('return_exceptions') == TRUE

        def one(s, v):
            sink = []
            self.sinks.append(sink)
            here = [(s.frame, s.fstack)]
            out = [x for x, _ in self.await_value(v, s, node)]
            self.sinks.pop()
            for x in self.unwind(sink, here):
                if keep and x.exc[1] != 'asyncio.CancelledError':
                    x = x.copy()
                    x.exc = None
                    out.append(x)
                else:
                    self.sinks[-1].append(x)
            return self.merge(out)
        states = [st]
        for a in args:
            nxt = []
            for s in states:
                if a[0] == 'op' and a[1] == 'star':
                    nxt += self.iterate(a[2], s,
                                        lambda x, el, n: one(x, el), node)
                else:
                    nxt += one(s, a)
            states = self.merge(nxt)
        r = []
        for s in states:
            s = self.fresh(s, lab)
            r.append((s, res))
        return r

    def aw_offload(self, args, kws, st, node):
        fn, rest = args[0], list(args[1:])
        st = self.suspend(st, node, ('op', 'offload', fn))
        self.raise_from(st, node, cancel=True)
        s = st.copy()
        s.off += 1
        r = []
        sink = []
        self.sinks.append(sink)
        for s2, v in self.apply(fn, rest, kws, s, node):
            s2 = s2.copy()
            s2.off -= 1
            s2 = self.emit('offloaded', {'fn': fn}, s2, node)
            r.append((s2, v))
        self.sinks.pop()
        for x in sink:
            x = x.copy()
            x.off -= 1
            self.sinks[-1].append(x)
        return r

    # ------------------------------------------------------------------
    # calls

    def e_Call(self, e, st):
        r = []
        # method calls keep their receiver
        for s, fn in self.ev(e.func, st):
            for s2, args in self.ev_list(e.args, s):
                acc = [(s2, ())]
                for kw in e.keywords:
                    nxt = []
                    for s3, kws in acc:
                        for s4, v in self.ev(kw.value, s3):
                            if kw.arg is None:
                                items = (s4.heap.get((v, '$items'))
                                         if v[0] == 'o' else None)
                                if items is not None and all(
                                        i[0] == 'tup' and i[1][0][0] == 'c'
                                        for i in items[1]):
                                    nk = kws + tuple(
                                        (i[1][0][2], i[1][1])
                                        for i in items[1])
                                    nxt.append((s4, nk))
                                elif v[0] == 'kw':
                                    nxt.append((s4, kws + v[1]))
                                else:
                                    nxt.append((s4, kws + (('**', v),)))
                            else:
                                nxt.append((s4, kws + ((kw.arg, v),)))
                    acc = nxt
                for s3, kws in acc:
                    r += self.apply(fn, list(args), dict(kws), s3, e)
        return r

    def apply(self, fn, args, kws, st, node, awaited=False):
        """Call a callable term"""
        k = fn[0]
        if k == 'part':
            return self.apply(fn[1], list(fn[2]) + args,
                              {**dict(fn[3]), **kws}, st, node, awaited)
        if k == 'fn':
            f = self.p.func_of_node[fn[1]]
            return self.enter_or_coro(f, fn, args, kws, st, node)
        if k == 'bm':
            f = self.p.functions[fn[1]]
            a = args if f.is_static else [fn[2]] + args
            return self.enter_or_coro(f, fn, a, kws, st, node)
        if k == 'g':
            return self.apply_global(fn, args, kws, st, node)
        if k == 'a':
            return self.apply_method(fn[1], fn[2], args, kws, st, node, fn)
        if k == 'op' and fn[1] == 'lru':
            return self.apply(fn[2], args, kws, st, node, awaited)
        return self.opaque_call(None, fn, '()', args, kws, st, node)

    def can_enter(self, f, st):
        if f.qual in self.opaque or f.is_abstract:
            return False
        if f.qual in st.fstack and not f.is_lambda:
            return False
        if len(st.fstack) > self.max_depth:
            return False
        return True

    def enter_or_coro(self, f, fn, args, kws, st, node):
        if f.qual in self.stand_ins:
            b = self.bind(f, args, kws)
            args = [b[p.arg] for p in f.all_params() if p.arg in b]
            kws = {}
            f = self.p.functions['$models.' + self.stand_ins[f.qual]]
            fn = ('g', f.qual)
        if f.qual in st.fstack and not f.is_lambda and not f.is_async and \
                not f.is_gen:
            # recursion: uninterpreted result of the same arguments
            ba = self.bind(f, args, kws)
            st = self.emit('call', dict(
                callee=f.qual, base=None, args=tuple(args),
                kws=tuple(kws.items()), res=NONE, awaited=False, fn=f,
                bound=ba, rec=True), st, node)
            t = ('op', 'call', ('g', f.qual), *args)
            rt = self.p.return_type(f)
            if rt:
                self.types[t] = rt
            return [(st, t)]
        if not self.can_enter(f, st) or (f.is_gen and f.qual in self.opaque):
            return self.opaque_call(f, fn, f.qual, args, kws, st, node)
        if f.is_gen:
            cl = fn[2] if fn[0] == 'fn' else None
            lab = self.label(st, node)
            st = self.fresh(st, lab)
            self.gen_stack.setdefault(lab, st.fstack)
            return [(st, ('gen', f.node._nid, tuple(args),
                          tuple(kws.items()), cl, lab))]
        if f.is_async:
            lab = self.label(st, node)
            callable_t = fn if fn[0] == 'fn' else ('g', f.qual)
            return [(st, ('coro', callable_t, tuple(args),
                          tuple(kws.items()), lab))]
        return self.call_func(f, args, kws, st, node,
                              closure=fn[2] if fn[0] == 'fn' else None)

    def enter_callable(self, fn, args, kws, st, node):
        if fn[0] == 'fn':
            f = self.p.func_of_node[fn[1]]
            cl = fn[2]
        else:
            f = self.p.functions[fn[1]]
            cl = None
        if not self.can_enter(f, st):
            r = []
            for s, v in self.opaque_call(f, fn, f.qual, args, kws, st, node):
                r += self.await_opaque(v, s, node)
            return r
        return self.call_func(f, args, kws, st, node, closure=cl)

    def bind(self, f, args, kws):
        """parameter name -> term (missing ones absent)"""
        a = f.node.args
        names = [i.arg for i in (*a.posonlyargs, *a.args)]
        b = {}
        extra = []
        for i, v in enumerate(args):
            if v[0] == 'op' and v[1] == 'star':
                extra.append(v)
                for j, n in enumerate(names[i:]):
                    if n not in kws:
                        b.setdefault(n, ('op', 'unpacked', v[2], const(j)))
                break
            if i < len(names):
                b[names[i]] = v
            else:
                extra.append(v)
        allnames = set(names) | {i.arg for i in a.kwonlyargs}
        rest = []
        for k, v in kws.items():
            if k in allnames:
                b[k] = v
            else:
                rest.append((k, v))
        if a.vararg:
            if len(extra) == 1 and extra[0][0] == 'op' and \
                    extra[0][1] == 'star':
                b[a.vararg.arg] = extra[0][2]
            else:
                b[a.vararg.arg] = ('tup', tuple(extra))
        if a.kwarg:
            b[a.kwarg.arg] = ('kw', tuple(rest))
        return b

    def call_func(self, f, args, kws, st, node, closure=None, run_gen=False):
        b = self.bind(f, args, kws)
        outer = (st.frame, st.fstack)
        frame = st.frame + (node._nid,)
        st = st.copy()
        st.frame = frame
        st.fstack = st.fstack + (f.qual,)
        st.vars = {k: v for k, v in st.vars.items() if k[0] != frame}
        # a value that is on its way out while this is called
        pending = (outer[0], '$ret')
        st.vars.pop(pending, None)
        if st.ret is not None:
            st.vars[pending] = st.ret
            st.ret = None
        if closure is not None:
            st.vars[(frame, '$closure')] = closure
        a = f.node.args
        pos = [*a.posonlyargs, *a.args]
        defaults = dict(zip([i.arg for i in pos][len(pos) -
                                                 len(a.defaults):],
                            a.defaults))
        for i, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[i.arg] = d
        for p in f.all_params():
            n = p.arg
            if n in b:
                v = b[n]
            elif n in defaults:
                vs = self.ev(defaults[n], st)
                v = vs[0][1]
            elif any(k == '**' for k in kws):
                v = ('op', 'unpacked', kws['**'], const(n))
            else:
                v = ('op', 'missing', const(f.qual), const(n))
            st.vars[(frame, n)] = v
            if p.annotation is not None and v[0] in ('r', 'i', 'el', 'm',
                                                     'op') \
                    and self.ty(v) is None:
                t = self.p.ann_type(f.module, p.annotation)
                if t:
                    self.types[v] = t
        st = self.emit('enter', {'fn': f.qual, 'bound': b, 'func': f}, st,
                       node)
        out = self.exec_body(f, [st])
        r = []
        for s in out.next:
            r.append((s, NONE))
        for s in out.ret:
            v = s.ret
            s = s.copy()
            s.ret = None
            r.append((s, v))
        res = []
        for s, v in r:
            s = s.copy()
            s.ret = v
            s.frame, s.fstack = outer
            keep = self._captured(s, v, frame)
            if not keep:
                s.vars = {k: x for k, x in s.vars.items() if k[0] != frame}
            res.append(s)
        res = self.merge(res)
        fin = []
        for s in res:
            v = s.ret
            s = self.emit('exit', {'fn': f.qual, 'value': v}, s, node)
            s.ret = s.vars.get(pending)
            if s.ret is not None:
                s.vars = {k: x for k, x in s.vars.items() if k != pending}
            fin.append((s, v))
        return fin

    def _captured(self, s, v, frame):
        mark = ('F', frame)
        if mark in labels_of(v):
            return True
        for k, x in s.vars.items():
            if k[0] != frame and mark in labels_of(x):
                return True
        for k, x in s.heap.items():
            if mark in labels_of(x):
                return True
        return False

    # globals / builtins --------------------------------------------------

    def apply_global(self, fn, args, kws, st, node):
        q = fn[1]
        p = self.p
        if q in p.classes:
            return self.construct(p.classes[q], args, kws, st, node)
        if q in p.functions:
            f = p.functions[q]
            return self.enter_or_coro(f, fn, args, kws, st, node)
        m = getattr(self, 'm_' + q.replace('.', '_'), None)
        if m is not None and q not in self.no_models:
            return m(args, kws, st, node)
        if q.endswith('.get') and args and not kws:
            b = ('g', q[:-4])
            pairs = self.table(st, b)
            if pairs:
                return self.dispatch(st, b, pairs, args[0], node,
                                     (args[1:] or [NONE])[0])
        if q in BUILTIN_EXC:
            return [(st, ('op', 'newexc', const(q), *args))]
        if self.models and q in self._model_funcs and \
                q not in self.no_models and (
                    q != 'next' or args and args[0][0] == 'gx'):
            if q in ('map', 'filter') or q.endswith('.reduce') and len(
                    args) == 3 or not q.endswith('.reduce') and any(
                    self._lazy(a, st) for a in args) or \
                    q == 'hat.util.first' and any(
                        a[0] in ('bm', 'fn') for a in args[1:]):
                f = self._model_funcs[q]
                if f.is_gen:
                    lab = self.label(st, node)
                    st = self.fresh(st, lab)
                    return [(st, ('gen', f.node._nid, tuple(args),
                                  tuple(kws.items()), None, lab))]
                return self.call_func(f, args, kws, st, node)
        if q in ALLOC:
            return self.alloc_from(q, args, kws, st, node)
        if q == 'bytearray' and not args and not kws:
            return self.alloc_from('list', args, kws, st, node)
        if q in ('bytes', 'bytearray') and len(args) == 1 and \
                args[0][0] in ('gx', 'gen'):
            return [(s, ('op', q, v)) for s, v in self.alloc_from(
                'list', args, {}, st, node)]
        if q in ('sorted', 'max', 'min', 'tuple', 'frozenset') and \
                len(args) == 1 and args[0][0] in ('gx', 'gen'):
            # as good as of a list of what is generated
            return [r for s, v in self.alloc_from('list', args, {}, st, node)
                    for r in self.apply_global(fn, [v], kws, s, node)]
        if q in PURE_FUNCS and not kws:
            args = [self.snapshot(a, st) for a in args]
            if q == 'tuple' and len(args) == 1 and args[0][0] == 'tup':
                return [(st, args[0])]
            if q == 'bool' and len(args) == 1:
                t, f = self.truth(st, args[0])
                return [(x, TRUE) for x in t] + [(x, FALSE) for x in f]
            if q == 'len' and args[0][0] == 'tup':
                return [(st, const(len(args[0][1])))]
            if q in ('int', 'str', 'float') and len(args) == 1 and \
                    args[0][0] == 'c' and isinstance(args[0][2],
                                                     (int, float, str)):
                try:
                    return [(st, const({'int': int, 'str': str,
                                        'float': float}[q](args[0][2])))]
                except ValueError:
                    pass
            self.maybe_sync_raise(q, st, node)
            t = ('op', q, *args)
            return [(st, t)]
        return self.opaque_call(None, fn, q, args, kws, st, node)

    def snapshot(self, a, st):
        """value of a mutable container used in a pure computation"""
        if a[0] == 'o' or self._container(a):
            v = self.cver(st, a)
            if v is not None:
                return ('op', 'content', a, v)
        return a

    def _lazy(self, a, st):
        if a[0] in ('gx', 'gen', 'fn'):
            return True
        if a[0] in ('tup',):
            return True
        if a[0] == 'o' and not a[1].startswith('inst:'):
            return True
        if a[0] == 'op' and a[1] in ('enumerate', 'zip', 'reversed'):
            return any(self._lazy(x, st) for x in a[2:])
        return False

    def alloc_from(self, q, args, kws, st, node):
        kind = ALLOC[q]
        if kind == 'defaultdict':
            st, o = self.alloc(st, kind, node, ())
            st.heap[(o, '$factory')] = args[0] if args else NONE
            return [(st, o)]
        if not args:
            items = []
            st, o = self.alloc(st, kind, node,
                               tuple(('tup', (const(k), v))
                                     for k, v in kws.items()))
            for k, v in kws.items():
                st.heap[(o, '[]', const(k))] = v
            for k, v in kws.items():
                st = self.emit('setitem', dict(base=o, key=const(k),
                                               value=v), st, node)
            return [(st, o)]
        a = args[0]
        if self._lazy(a, st):
            st, o = self.alloc(st, kind, node, None)
            st = st.set(f'$t{node._nid}', o)

            def body(s, el, n):
                return [self.add_elem(s, o, el, node)]
            r = []
            for s in self.iterate(a, st, body, node):
                r.append((self.untemp(s, node), o))
            return r
        # copy of an opaque collection
        st, o = self.alloc(st, kind, node, None)
        st.heap.pop((o, '$elems'), None)
        st.heap[(o, '$copyof')] = a
        st = self.emit('call', dict(
            callee=q, base=None, args=tuple(args), kws=tuple(kws.items()),
            res=o, awaited=False, fn=None), st, node)
        st = self.emit('add', {'obj': o, 'value': ('el', a, None),
                               'how': 'copy'}, st, node)
        ety = self.elem_ty(a)
        if ety:
            self.types[o] = ('gen', kind, (ety,))
        st = st.copy()
        st.heap[(o, '$elems')] = ('tset', frozenset(
            {('el', a, ('@', self.label(st, node)))}))
        if kind == 'dict':
            st = self.merged(o, a, kws, st, node)
        return [(st, o)]

    def merged(self, o, a, kws, st, node):
        """entries of another mapping and keyword arguments put in a dict"""
        it = st.heap.get((a, '$items')) if a is not None and a[0] == 'o' \
            and a[1] == 'dict' else None
        for i in it[1] if it is not None else (
                (('op', 'star2', a),) if a is not None else ()):
            if i[0] == 'tup':
                st = self.emit('setitem', dict(
                    base=o, key=i[1][0], value=i[1][1]), st, node)
            else:
                st = self.emit('merge', dict(base=o, value=i[2]), st, node)
        for k, v in kws.items():
            st = self.emit('setitem', dict(base=o, key=const(k), value=v),
                           st, node)
        if kws:
            st = st.copy()
            st.heap = dict(st.heap)
            for k, v in kws.items():
                st.heap[(o, '[]', const(k))] = v
        return st

    def construct(self, c, args, kws, st, node):
        p = self.p
        if c.is_enum:
            if args and args[0][0] == 'c':
                for n, v in c.members.items():
                    if isinstance(v, ast.Constant) and \
                            v.value == args[0][2]:
                        return [(st, ('g', f'{c.qual}.{n}'))]
            return [(st, ('op', 'enum:' + c.qual, *args))]
        if c.is_namedtuple:
            fields = {}
            names = [n for n, _, __ in c.fields]
            rest = None
            for i, v in enumerate(args):
                if v[0] == 'op' and v[1] == 'star':
                    rest = v[2]
                    for j, n in enumerate(names[i:]):
                        fields[n] = self.component(rest, j)
                    break
                if i < len(names):
                    fields[names[i]] = v
                else:
                    fields[f'!extra{i}'] = v
            for k, v in kws.items():
                if k == '**':
                    for n in names:
                        fields.setdefault(n, ('op', 'unpacked', v, const(n)))
                else:
                    fields[k] = v
            r = []
            for n, _, d in c.fields:
                if n in fields:
                    r.append((n, fields.pop(n)))
                elif d is not None:
                    dv = self.ev(d, st)[0][1]
                    r.append((n, dv))
                else:
                    r.append((n, ('op', 'missing', const(c.qual), const(n))))
            for k, v in fields.items():
                r.append(('!' + k, v))
            t = ('rec', c.qual, tuple(r))
            st = self.emit('new', {'cls': c.qual, 'value': t}, st, node)
            return [(st, t)]
        if any(b in BUILTIN_EXC for b in p.ext_bases(c)):
            return [(st, ('op', 'newexc', const(c.qual), *args))]
        lab = self.label(st, node)
        st = self.fresh(st, lab)
        o = ('o', 'inst:' + c.qual, lab)
        st = st.copy()
        st.heap = {k: v for k, v in st.heap.items() if k[0] != o}
        f = p.find_method(c, '__init__')
        st = self.emit('new', {'cls': c.qual, 'value': o,
                               'args': tuple(args),
                               'kws': tuple(kws.items())}, st, node)
        if f is not None and not f.is_abstract and self.can_enter(f, st) \
                and c.qual not in self.opaque:
            return [(s, o) for s, _ in
                    self.call_func(f, [o] + args, kws, st, node)]
        return [(st, o)]

    def m_isinstance(self, args, kws, st, node):
        v, c = args
        qs = []
        cs = c[1] if c[0] == 'tup' else (c,)
        for x in cs:
            if x[0] == 'g':
                qs.append(x[1])
            elif x[0] == 'op' and x[1] == '|':
                qs += [y[1] for y in x[2:] if y[0] == 'g']
            else:
                qs.append('?')
        t, rest = [], [st]
        for q in qs:
            nr = []
            for s in rest:
                if q == 'types.NoneType':
                    a, b = self.split(s, ('none', v))
                else:
                    a, b = self.split(s, ('isinst', v, q))
                t += a
                nr += b
            rest = nr
        return [(s, TRUE) for s in t] + [(s, FALSE) for s in rest]

    def m_hat_aio_call(self, args, kws, st, node):
        return [(st, ('coro', ('model', 'call'), tuple(args),
                      tuple(kws.items()), self.label(st, node)))]

    def m_hat_aio_uncancellable(self, args, kws, st, node):
        return [(st, ('coro', ('model', 'uncancellable'), tuple(args),
                      tuple(kws.items()), self.label(st, node)))]

    def m_hat_aio_wait_for(self, args, kws, st, node):
        return [(st, ('coro', ('model', 'wait_for'), tuple(args),
                      tuple(kws.items()), self.label(st, node)))]

    m_asyncio_wait_for = m_hat_aio_wait_for

    def m_hat_aio_run_asyncio(self, args, kws, st, node):
        return self.await_value(args[0], st, node)

    m_asyncio_run = m_hat_aio_run_asyncio

    def m_asyncio_shield(self, args, kws, st, node):
        return [(st, args[0])]

    def m_asyncio_gather(self, args, kws, st, node):
        return [(st, ('coro', ('model', 'gather'), tuple(args),
                      tuple(kws.items()), self.label(st, node)))]

    def m_functools_partial(self, args, kws, st, node):
        return [(st, ('part', args[0], tuple(args[1:]),
                      tuple(kws.items())))]

    def m_functools_lru_cache(self, args, kws, st, node):
        if args:
            return [(st, ('op', 'lru', args[0]))]
        return [(st, ('op', 'lrudeco'))]

    def m_contextlib_suppress(self, args, kws, st, node):
        return [(st, ('op', 'suppress', *args))]

    def m_hat_event_common_common_now(self, args, kws, st, node):
        raise AssertionError

    # methods ----------------------------------------------------------

    def apply_method(self, base, name, args, kws, st, node, fn):
        ty = self.ty(base)
        tn = None
        if ty and ty[0] == 'ext':
            tn = ty[1]
        elif ty and ty[0] == 'gen':
            tn = ty[1]
        if name == '_replace' and not args:
            return [self.do_replace(base, kws, st, node)]
        if name == 'join' and base[:2] == ('c', 'bytes') and len(
                args) == 1 and args[0][0] in ('gx', 'gen'):
            return [(s, ('m', base, 'join', (v, ), None))
                    for s, v in self.alloc_from('list', args, {}, st, node)]
        if name == 'spawn' and tn == 'hat.aio.Executor':
            return [(st, ('coro', ('model', 'offload'), tuple(args),
                          tuple(kws.items()), self.label(st, node)))]
        if name == 'spawn' and args and self.inline_spawn and \
                args[0][0] in ('bm', 'fn', 'part', 'g'):
            return self.do_spawn(base, args, kws, st, node, fn, tn)
        if base[0] == 'op' and base[1] == 'lrudeco':
            return [(st, ('op', 'lru', args[0]))]
        if base[0] == 'o' and not base[1].startswith('inst:'):
            r = self.local_method(base, name, args, kws, st, node)
            if r is not None:
                return r
        if name in ('append', 'appendleft', 'add') and len(args) == 1 and \
                tn not in ('hat.aio.Queue',):
            st = self.emit('call', dict(
                callee='.' + name, base=base, args=tuple(args), kws=(),
                res=NONE, awaited=False, fn=None, tn=tn), st, node)
            st = self.emit('add', {'obj': base, 'value': args[0],
                                   'how': name}, st, node)
            return [(self.mutate(st, base, node), NONE)]
        if name in ('extend', 'update') and len(args) == 1 and \
                self._lazy(args[0], st):
            def body(s, el, n):
                return [self.emit('add', {'obj': base, 'value': el,
                                          'how': name}, s, node)]
            return [(self.mutate(s, base, node), NONE)
                    for s in self.iterate(args[0], st, body, node)]
        if name in READ_METHODS and not any(self._lazy2(a) for a in args):
            self.maybe_sync_raise('.' + name, st, node)
            ver = None
            if name not in STABLE_METHODS:
                ver = self.cver(st, base)
            if name == 'get' and args and not kws:
                hv = st.heap.get((base, '[]', args[0]))
                if hv is not None:
                    return [(st, hv)]
                pairs = self.table(st, base)
                if pairs:
                    return self.dispatch(st, base, pairs, args[0], node,
                                         (args[1:] or [NONE])[0])
                t = ('m', base, name, tuple(args), ver)
                return [(st, t)]
            t = ('m', base, name,
                 tuple(args) + tuple(('kwarg', k, v)
                                     for k, v in sorted(kws.items())), ver)
            if name in ('done', 'matches', 'isdisjoint', 'empty',
                        'get_query_types', 'key'):
                st = self.emit('call', dict(
                    callee='.' + name, base=base, args=tuple(args), kws=(),
                    res=t, awaited=False, fn=None, tn=tn), st, node)
            return [(st, t)]
        return self.opaque_call(None, fn, '.' + name, args, kws, st, node,
                                base=base, tn=tn)

    def do_spawn(self, base, args, kws, st, node, fn, tn):
        """a task: its body hangs off the spawning node"""
        r = []
        for s, t in self.opaque_call(None, fn, '.spawn', args, kws, st, node,
                                     base=base, tn=tn):
            self.types[t] = ('ext', 'asyncio.Task')
            r.append((s, t))
            sink = []
            self.sinks.append(sink)
            saved = self.try_depth
            self.try_depth = 1
            b = self.suspend(s, node, ('op', 'task'))
            for s2, v in self.apply(args[0], list(args[1:]), kws, b, node):
                if v[0] == 'coro':
                    for s3, _ in self.run_coro(v, s2, node):
                        self.emit('taskend', {'value': NONE}, s3, node)
            self.try_depth = saved
            self.sinks.pop()
            for x in sink:
                self.emit('taskend', {'value': x.exc}, x, node)
        return r

    def _lazy2(self, a):
        return a[0] in ('gx', 'gen')

    def local_method(self, o, name, args, kws, st, node):
        """containers allocated in the analysed code"""
        if name in ('append', 'appendleft', 'add') and len(args) == 1:
            items = st.heap.get((o, '$items'))
            s = self.add_elem(st, o, args[0], node, name)
            s = self.bump(s, o, node)
            return [(s, NONE)]
        if name in ('extend', 'update') and len(args) == 1:
            a = args[0]
            if o[1] in ('dict', 'defaultdict'):
                if self._lazy(a, st):
                    return None
                s = self.emit('call', dict(
                    callee='.' + name, base=o, args=tuple(args),
                    kws=tuple(kws.items()), res=NONE, awaited=False,
                    fn=None, tn=o[1]), st, node)
                s = self.bump(s, o, node)
                return [(self.merged(o, a, kws, s, node), NONE)]

            def body(s, el, n):
                return [self.add_elem(s, o, el, node, name)]
            if self._lazy(a, st):
                return [(self.bump(s, o, node), NONE)
                        for s in self.iterate(a, st, body, node)]
            s = self.add_elem(st, o, ('el', a, ('@', self.label(st, node))),
                              node, name)
            s.heap.pop((o, '$items'), None)
            s.heap.pop((o, '$copyof'), None)
            return [(self.bump(s, o, node), NONE)]
        if name == 'setdefault' and len(args) == 2 and o[1] == 'dict':
            r = []
            has, no = self.cmp_states(st, 'in', args[0], o)
            for s in has:
                hv = s.heap.get((o, '[]', args[0]))
                r.append((s, hv if hv is not None else
                          ('i', o, args[0], self.cver(s, o))))
            for s in no:
                s = self.emit('setitem', dict(
                    base=o, key=args[0], value=args[1]), s, node)
                s = self.bump(s, o, node)
                s = s.copy()
                s.heap = dict(s.heap)
                s.heap[(o, '[]', args[0])] = args[1]
                r.append((s, args[1]))
            return r
        if name in ('items', 'values', 'keys', 'get', 'copy', 'index',
                    'count'):
            if name == 'get' and args:
                hv = st.heap.get((o, '[]', args[0]))
                if hv is not None:
                    return [(st, hv)]
                pairs = self.table(st, o)
                if pairs:
                    return self.dispatch(st, o, pairs, args[0], node,
                                         (args[1:] or [NONE])[0])
            return [(st, ('m', o, name, tuple(args), self.cver(st, o)))]
        if name in ('popleft', 'pop') and len(args) <= 1 and \
                o[1] not in ('dict', 'defaultdict'):
            lab = self.label(st, node)
            el = st.heap.get((o, '$elems'))
            s = self.bump(st, o, node)
            s = self.emit('call', dict(
                callee='.' + name, base=o, args=tuple(args), kws=(),
                res=NONE, awaited=False, fn=None, tn=o[1]), s, node)
            if el is not None and el[1]:
                s.heap.pop((o, '$items'), None)
                s.heap.pop((o, '$copyof'), None)
                return [(s.copy(), x) for x in sorted(el[1], key=repr)]
            s = self.fresh(s, lab)
            return [(s, ('el', o, lab))]
        if name == 'clear':
            s = self.bump(st, o, node)
            s.heap[(o, '$elems')] = ('tset', frozenset())
            s.heap[(o, '$items')] = ('tup', ())
            s = self.emit('call', dict(
                callee='.clear', base=o, args=(), kws=(), res=NONE,
                awaited=False, fn=None, tn=o[1]), s, node)
            return [(s, NONE)]
        return None

    def bump(self, st, o, node):
        lab = self.label(st, node)
        if st.ver.get(o) == lab:
            st = self.fresh(st, lab)
            if o not in st.ver:
                pass
        s = st.copy()
        s.ver = dict(s.ver)
        s.ver[o] = lab
        s.heap = {k: v for k, v in s.heap.items()
                  if not (k[0] == o and k[1] in ('$items', '[]'))}
        return s

    def do_replace(self, base, kws, st, node):
        if base[0] == 'rec':
            t = ('rec', base[1], tuple((n, kws.get(n, v))
                                       for n, v in base[2]))
        else:
            ty = self.ty(base)
            if ty and ty[0] == 'cls' and \
                    self.p.classes[ty[1]].is_namedtuple:
                c = self.p.classes[ty[1]]
                t = ('rec', c.qual, tuple(
                    (n, kws.get(n, ('a', base, n, None)))
                    for n, _, __ in c.fields))
            else:
                t = ('op', '_replace', base,
                     *[('tup', (const(k), v)) for k, v in sorted(
                         kws.items())])
        st = self.emit('new', {'cls': t[1], 'value': t, 'replace': base}, st,
                       node)
        return st, t

    def opaque_call(self, f, fn, name, args, kws, st, node, base=None,
                    tn=None):
        lab = self.label(st, node)
        st = self.fresh(st, lab)
        pure = name in PURE_FUNCS
        res = ('r', lab, ('call', name, *( [base] if base else []), *args,
                          *[('kwarg', k, v) for k, v in
                            sorted(kws.items())]))
        if len(labels_of(res)) > 1:
            # a value made from an earlier one of the same site
            res = (*res[:2], cut_site(res[2], lab, self.types))
        if depth(res) > MAX_TERM:
            res = ('r', lab, ('call', name))
        bound = None
        if f is not None:
            bound = self.bind(f, args, kws)
            rt = self.p.return_type(f)
            if rt:
                self.types[res] = rt
            if base is None and f.cls and args:
                base = args[0]
        elif name in ('.create_future',):
            self.types[res] = ('ext', 'asyncio.Future')
        elif tn:
            pass
        if name.rsplit('.', 1)[-1][:1].isupper() and f is None and base is \
                None:
            self.types[res] = ('ext', name)
        st = self.emit('call', dict(
            callee=name, base=base, args=tuple(args),
            kws=tuple(sorted(kws.items())), res=res, awaited=False, fn=f,
            bound=bound, tn=tn, fnterm=fn), st, node)
        self.maybe_sync_raise(name, st, node, f)
        if base is not None and name.startswith('.') and \
                name[1:] not in READ_METHODS:
            st = self.mutate(st, base, node)
        return [(st, res)]

    def maybe_sync_raise(self, name, st, node, f=None):
        if not self.sync_raise or not self.try_depth:
            return
        if f is not None and f.is_async:
            return
        if name in NORAISE or (name.startswith('.') and
                               name[1:] in NORAISE_METHODS):
            return
        if name == '.close' or name.endswith('.close'):
            return
        if self.raising is not None and not self.raising(name):
            return
        self.raise_from(st, node)


# helpers ---------------------------------------------------------------

def _as_load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    else:
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    n._nid = t._nid
    n._mod = t._mod
    n.lineno = t.lineno
    return n


def _const_fold(e):
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, (int, float)) else None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = _const_fold(e.operand)
        return -v if v is not None else None
    if isinstance(e, ast.BinOp) and type(e.op) in BINOP:
        a, b = _const_fold(e.left), _const_fold(e.right)
        if a is None or b is None:
            return None
        r = arith(BINOP[type(e.op)], const(a), const(b))
        return r[2] if r[0] == 'c' else None
    return None


def _loads(n):
    r = set()
    for i in ast.walk(n):
        if isinstance(i, ast.Name) and isinstance(i.ctx, ast.Load):
            r.add(i.id)
    return r


def _liveness(func, out):
    """live names before every statement (and at every loop head)"""
    always = set()
    for n in ast.walk(func):
        if n is not func and isinstance(n, (ast.FunctionDef, ast.Lambda,
                                            ast.AsyncFunctionDef,
                                            ast.GeneratorExp)):
            always |= _loads(n)

    def put(s, live):
        live = live | always
        out[s._nid] = frozenset(live | out.get(s._nid, frozenset()))
        return live

    def seq(stmts, live, env):
        for s in reversed(stmts):
            live = put(s, one(s, live, env))
        return live

    def one(s, live, env):
        brk, cont, exc = env
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            return (live - {s.name}) | _loads(s) | exc
        if isinstance(s, ast.Return):
            return (_loads(s.value) if s.value else set()) | exc
        if isinstance(s, ast.Raise):
            return _loads(s) | exc
        if isinstance(s, ast.Break):
            return set(brk) | exc
        if isinstance(s, ast.Continue):
            return set(cont) | exc
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx,
                                                              ast.Store):
                        live = live - {n.id}
            return live | _loads(s) | exc
        if isinstance(s, ast.AugAssign):
            return live | {n.id for n in ast.walk(s)
                           if isinstance(n, ast.Name)} | exc
        if isinstance(s, ast.If):
            return (seq(s.body, live, env) | seq(s.orelse, live, env) |
                    _loads(s.test) | exc)
        if isinstance(s, ast.Match):
            r = set(live)
            for c in s.cases:
                r |= seq(c.body, live, env) | _loads(c.pattern)
                if c.guard is not None:
                    r |= _loads(c.guard)
            return r | _loads(s.subject) | exc
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            after = seq(s.orelse, live, env)
            if isinstance(s, ast.While):
                use, defs = _loads(s.test), set()
            else:
                use = _loads(s.iter)
                defs = {n.id for n in ast.walk(s.target)
                        if isinstance(n, ast.Name) and
                        isinstance(n.ctx, ast.Store)}
                use |= _loads(s.target)
            head = after | use
            while True:
                put(s, head)
                b = seq(s.body, head, (live, head, exc)) - defs
                nh = head | b
                if nh == head:
                    return head | exc
                head = nh
        if isinstance(s, (ast.With, ast.AsyncWith)):
            # a suppressing context manager continues after the block
            r = seq(s.body, live, (brk, cont, exc | live))
            for i in s.items:
                if i.optional_vars is not None:
                    r = r - {n.id for n in ast.walk(i.optional_vars)
                             if isinstance(n, ast.Name)}
            for i in s.items:
                r = r | _loads(i.context_expr)
            return r | exc
        if isinstance(s, ast.Try):
            fin = seq(s.finalbody, live | exc | brk | cont, env) \
                if s.finalbody else None
            after = fin if fin is not None else live
            e2 = exc if fin is None else exc | fin
            env2 = (brk | e2, cont | e2, e2) if fin is not None else env
            hs = set()
            for h in s.handlers:
                x = seq(h.body, after, env2)
                if h.name:
                    x = x - {h.name}
                if h.type is not None:
                    x = x | _loads(h.type)
                hs |= x
            oe = seq(s.orelse, after, env2)
            ex = e2 | hs
            return seq(s.body, oe, (brk | ex, cont | ex, ex)) | exc
        return live | _loads(s) | exc

    seq(func.body, set(), (set(), set(), set()))


_MODELS = '''
def any(it):
    for x in it:
        if x:
            return True
    return False


def all(it):
    for x in it:
        if not x:
            return False
    return True


def takewhile(pred, it):
    for x in it:
        if not pred(x):
            return
        yield x


def dropwhile(pred, it):
    dropping = True
    for x in it:
        if dropping:
            if pred(x):
                continue
            dropping = False
        yield x


def islice(it, n):
    for x in it:
        yield x


def filter(fn, it):
    for x in it:
        if fn(x):
            yield x


def map(fn, it):
    for x in it:
        yield fn(x)


def chain(*its):
    for it in its:
        for x in it:
            yield x


def from_iterable(its):
    for it in its:
        for x in it:
            yield x


def first(it, fn=None, default=None):
    for x in it:
        if fn is None or fn(x):
            return x
    return default


def passing(self, it):
    for x in it:
        if no_more_pass(self):
            return
        if passes(self, x):
            yield x


def reduce(fn, it, acc):
    for x in it:
        acc = fn(acc, x)
    return acc


def next(it, *default):
    for x in it:
        return x
    if default:
        return default[0]
    raise StopIteration


def sorted(it, key=None, reverse=False):
    r = []
    for x in it:
        r.append(x)
    return r


def tuple(it):
    r = []
    for x in it:
        r.append(x)
    return r
'''

_MODEL_NAMES = {
    'any': 'any', 'all': 'all', 'filter': 'filter', 'map': 'map',
    'itertools.takewhile': 'takewhile', 'itertools.dropwhile': 'dropwhile',
    'itertools.islice': 'islice', 'itertools.chain': 'chain',
    'itertools.chain.from_iterable': 'from_iterable',
    'hat.util.first': 'first', 'next': 'next',
    'functools.reduce': 'reduce'}


def _load_models(prog):
    if hasattr(prog, '_models'):
        return prog._models
    tree = ast.parse(_MODELS)
    m = prog.add_module('$models', None, '<models>', tree)
    prog._index_module(m)
    prog._models = {q: prog.functions[f'$models.{n}']
                    for q, n in _MODEL_NAMES.items()}
    return prog._models
