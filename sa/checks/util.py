"""Shared pieces of the rules."""

import ast
import collections

from ..program import AnalysisError
from ..terms import *   # NOQA
from ..q import FG, mentions_attr

EV = 'hat.event.'
SEND = EV + 'eventer.common.send_msg'
RECV = EV + 'eventer.common.receive_msg'
ASEND = EV + 'adminer.common.send_msg'
ARECV = EV + 'adminer.common.receive_msg'


def std_opaque(prog):
    """the data model is analysed on its own; everywhere else its functions
    are uninterpreted"""
    r = {q for q in prog.functions if q.startswith(EV + 'common.')}
    return r | {SEND, RECV, ASEND, ARECV}


def callee_of(prog, t):
    """function behind a callable term"""
    while t and t[0] == 'part':
        t = t[1]
    if not t:
        return None
    if t[0] == 'bm':
        return prog.functions.get(t[1])
    if t[0] == 'g':
        return prog.functions.get(t[1])
    if t[0] == 'fn':
        return prog.func_of_node.get(t[1])
    return None


def passed_callables(ctx, fg, callee, pos=0):
    """in-repo functions handed to a call such as chatter.listen or spawn"""
    r = []
    for n in fg.calls(callee):
        args = list(n.data['args']) + [v for _, v in n.data['kws']]
        a = args[pos:pos + 1]
        for t in a:
            f = callee_of(ctx.prog, t)
            if f is not None and f not in r:
                r.append(f)
    return r


_unage = {}


def unage(t):
    """forget which generation of a site a value belongs to"""
    r = _unage.get(t)
    if r is None:
        r = _unage[t] = map_labels(
            t, lambda x: x[1] if x[0] in ('^', '@') else x)
    return r


def same(a, b):
    return unage(a) == unage(b)


def call_args(t, name):
    """arguments when t is the result of calling `name`"""
    t = unwrap(t)
    if t[0] == 'r' and t[2][:1] == ('call',) and (
            t[2][1] == name or t[2][1].endswith('.' + name)):
        return [x for x in t[2][2:] if x[0] != 'kwarg']
    return None


def unwrap(t):
    return t


LOCAL = ('list', 'deque', 'set', 'dict', 'tuple')


def adds_to(fg, obj):
    """all places that put something into a container made here"""
    u = unage(obj)
    idx = fg.__dict__.setdefault('_adds', None)
    if idx is None:
        idx = {}
        for n in fg.nodes:
            if n.kind == 'add':
                idx.setdefault(unage(n.data['obj']), []).append(n)
        fg._adds = idx
    return idx.get(u, [])


def elements(fg, node, t, depth=4):
    """what a sequence handed over at `node` is made of: [(term, add node)]

    Flow-insensitive over the containers made in the analysed code: every
    value ever put into the container counts.  Elements of anything else are
    ('el', t).
    """
    t = seq_base(t)
    if t[0] == 'tup':
        return [(x, node) for x in t[1]]
    if t[0] == 'o' and t[1] in LOCAL:
        out = []
        seen = set()
        for n in adds_to(fg, t):
            for v, vn in resolve(fg, n.data['value'], n):
                k = (vn.id, v)
                if k not in seen:
                    seen.add(k)
                    out.append((v, vn))
        return out
    return [(('el', t, None), node)]


def resolve(fg, v, node, depth=3):
    """replace elements of containers made here by what was put there:
    [(value, place it was put there)]"""
    for x in subterms(v):
        if x and x[0] == 'el' and len(x) > 2:
            b = seq_base(x[1])
            if b[0] == 'o' and b[1] in LOCAL and depth:
                r = []
                for n in adds_to(fg, b):
                    w = _replace(v, x, n.data['value'])
                    for y in resolve(fg, w, n, depth - 1):
                        if y not in r:
                            r.append(y)
                return r
    return [(v, node)]


def _replace(t, old, new):
    if t == old:
        return new
    if not isinstance(t, tuple) or not t or t[0] == 'c':
        return t
    return tuple(_replace(i, old, new) if isinstance(i, tuple) else i
                 for i in t)


def lit_call(name, base=None, args=None):
    """literal: truth of a predicate-like method or function call"""
    def lit(a, b):
        if a[0] != 'truthy' or not b:
            return False
        t = a[1]
        return match_call(t, name, base, args)
    return lit


def match_call(t, name, base=None, args=None):
    if t[0] == 'm' and t[2] == name:
        return ((base is None or base(t[1])) and
                (args is None or args(t[3])))
    if t[0] == 'r' and t[2][0] == 'call' and t[2][1].split('.')[-1] == name:
        rest = [x for x in t[2][2:] if x[0] != 'kwarg']
        if base is not None:
            if not rest or not base(rest[0]):
                return False
            rest = rest[1:]
        return args is None or args(tuple(rest))
    return False


def neg(lit):
    return lambda a, b: lit(a, not b)


def const_str(t):
    return t[2] if t[0] == 'c' and isinstance(t[2], str) else None


COPIES = ('list', 'tuple', 'copy', 'iter', 'collections.deque', 'deque')


def seq_base(t):
    """the sequence behind order preserving copies"""
    while t and t[0] == 'op' and (t[1] in COPIES and len(t) == 3 or
                                  t[1] == 'content' and len(t) == 4):
        t = t[2]
    return t


def elem_of(t, base):
    """is t an element of a sequence accepted by base (a copy is as good)?"""
    return t[0] == 'el' and base(seq_base(t[1]))


def is_param(*names):
    return lambda t: t[0] == 'p' and t[1] in names


def self_attr(name):
    return lambda t: t[0] == 'a' and t[1] == ('p', 'self') and t[2] == name


def eq_lit(x, y):
    """equality of a term accepted by x with a term accepted by y"""
    def lit(a, b):
        return b and a[0] == 'eq' and (
            x(a[1]) and y(a[2]) or x(a[2]) and y(a[1]))
    return lit


def bool_eq_lit(x, y, pol=True):
    """two flags agree (or differ), however the test is spelled"""
    e = eq_lit(x, y)

    def lit(a, b):
        return e(a, b == pol)

    def facts(fs):
        p = {b for a, b in fs if a[0] == 'truthy' and x(a[1])}
        q = {b for a, b in fs if a[0] == 'truthy' and y(a[1])}
        return len(p) == 1 and len(q) == 1 and (p == q) == pol
    lit.facts = facts
    return lit


def none_lit(x):
    return lambda a, b: b and a[0] == 'none' and x(a[1])


def truthy_lit(x):
    return lambda a, b: b and a[0] == 'truthy' and x(a[1])


def any_lit(*lits):
    return lambda a, b: any(i(a, b) for i in lits)


def attr_of(base, name):
    """t is the attribute `name` of a value accepted by base"""
    return lambda t: t[0] == 'a' and t[2] == name and base(t[1])


def is_(t0):
    u = unage(t0)
    return lambda t: unage(t) == u


def head_label(t):
    """generation of the value an access path starts from"""
    while t and t[0] in ('a', 'i', 'm', 'op'):
        t = t[2] if t[0] == 'op' and len(t) > 2 else t[1]
    if t and t[0] in ('el', 'o') and len(t) > 2 and t[-1]:
        return t[-1]
    if t and t[0] == 'r':
        return t[1]
    return ('L',)


def guarded(fg, node, value, lit_for, _seen=None):
    """None when the literal about `value` holds wherever the value seen at
    `node` came from (through containers made here); otherwise a path that
    avoids the test"""
    seen = _seen if _seen is not None else set()
    u = unage(value)
    if (node.id, u) in seen:
        return None
    seen.add((node.id, u))
    lit = lit_for(value)
    fl = getattr(lit, 'facts', None)
    dead = {x for x in labels_of(value) if x[0] == 'L'}
    hl = head_label(value)
    base = unage(head_of(value))
    if hl[0] == 'L':
        # the key of a lookup may have come through a container
        for x in subterms(value):
            if x and x[0] == 'el' and len(x) > 2 and x[2] and \
                    x[2][0] == '@':
                hl, base = x[2], unage(x)
                break
    par = {node.id: None}
    dq = collections.deque([node.id])
    while dq:
        i = dq.popleft()
        n = fg.nodes[i]
        if any(lit(a, b) for a, b in n.facts) or fl and fl(n.facts):
            continue
        if n.kind == 'assume' and lit(n.data['atom'], n.data['pol']):
            continue
        if n.kind in ('iter', 'pick') and hl[0] != 'L':
            src = seq_base(n.data['iter'])
            if src[0] == 'o' and src[1] in LOCAL and \
                    contains(n.data['value'], base):
                p = None
                for m in adds_to(fg, src):
                    if contains(m.data['value'], base):
                        p = guarded(fg, m, value, lit_for, seen)
                        if p is not None:
                            return p
                continue
        if i != node.id or not dead:
            if any(x in dead for x in n.defs) or not n.pred:
                return fg.path(par, i)[::-1]
        elif not n.pred or any(x in dead for x in n.defs):
            return fg.path(par, i)[::-1]
        for j in n.pred:
            if j not in par:
                par[j] = i
                dq.append(j)
    return None


def head_of(t):
    """the value an access path starts from"""
    while t and t[0] in ('a', 'i', 'm'):
        t = t[1]
    return t


_contains = {}


def contains(t, u):
    """does the term contain u, ages aside?"""
    r = _contains.get(t)
    if r is None:
        r = _contains[t] = frozenset(
            x for x in subterms(unage(t)) if isinstance(x, tuple))
    return u in r


def loc_of(fg, node):
    return node.loc


def short(q):
    return q[len(EV):] if q.startswith(EV) else q


def where_of(node):
    """construct name: the function whose text contains the node"""
    m = node.ast._mod if node.ast is not None else None
    return m


def once(ctx, rule, construct, paths, loc='', msg='', fg=None):
    """one obligation over many instances; `paths` yields (loc, path|None)"""
    n = 0
    bad = None
    for l, p in paths:
        n += 1
        if p is not None and bad is None:
            bad = (l, p)
    ctx.count(f'{rule} instances', n)
    return ctx.ob(rule, construct, bad is None, bad[0] if bad else loc, msg,
                  fg.show_path(bad[1]) if bad and fg else None)


def empty_lit(obj):
    """the container is empty (infeasible right after something was added)"""
    o = unage(obj)
    return lambda a, b: a[0] == 'truthy' and not b and (
        a[1][0] == 'op' and a[1][1] == 'content' and unage(a[1][2]) == o or
        unage(a[1]) == o)


def assume_block(lit):
    """the path has established the literal"""
    def f(m):
        if m.kind == 'assume' and lit(m.data['atom'], m.data['pol']):
            return True
        return any(lit(a, b) for a, b in m.facts)
    return f


def dict_entries(fg, t):
    """what a dict made here is filled with: key -> [(value, node)]"""
    u = unage(t)
    r = {}
    for n in fg.kind('setitem'):
        if unage(n.data['base']) == u:
            r.setdefault(const_str(n.data['key']), []).append(
                (n.data['value'], n))
    return r


def ordered_complete(fg, source, carried=None):
    """obligations that every element of a sequence is put on, in order:
    [(loc, path|None)]"""
    res = []
    for it in fg.kind('iter'):
        v = it.data['value']
        if elem_of(v, source):
            u = unage(v)
            res.append((it.loc, fg.skipped(
                it, lambda m: m.kind == 'add' and contains(
                    m.data['value'], u), lambda a, b: False) or
                fg.early(it)))
        b = it.data['iter']
        if b[0] == 'op' and b[1] in ('reversed', 'sorted', 'set'):
            res.append((it.loc, [it.id]))
    for n in fg.kind('add'):
        if n.data['how'] in ('appendleft', 'insert', 'extendleft'):
            res.append((n.loc, [n.id]))
    for n in fg.calls('.sort', '.reverse', '.rotate', '.appendleft',
                      '.extendleft', '.insert'):
        if n.data['base'] and n.data['base'][0] == 'o':
            res.append((n.loc, [n.id]))
    return res


def followed_once(fg, starts, ids, ends, block):
    """each start is followed by exactly one of ids before an end"""
    res = []
    for n in starts:
        res.append((n.loc, fg.unfollowed(n, lambda m: m.id in ids, ends,
                                         block)))
    for i in ids:
        n = fg.nodes[i]
        par = fg.reach(n.succ, block=lambda m: ends(m) and m.id not in ids)
        hit = [j for j in par if j in ids]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
    return res


def thrown_at(fg, n):
    """nodes where the call n (or awaiting its result) raises"""
    r = []
    for m in fg.kind('throws'):
        for p in m.pred:
            q = fg.nodes[p]
            if p == n.id or q.kind == 'suspend' and n.data.get('res') and \
                    same(q.data['value'], n.data['res']) and (
                    n.id in q.pred):
                r.append(m)
    return r


LIMITS = ('aio.wait_for', 'hat.aio.wait_for', 'asyncio.wait_for',
          'asyncio.wait')
WINDOWS = ('asyncio.timeout', 'asyncio.timeout_at')


def timeboxed(fg, pred):
    """waits for something `pred` recognises that give up after some time"""
    r = []
    for n in fg.calls(*LIMITS):
        args = n.data['args']
        t = dict(n.data['kws']).get('timeout')
        if t is None and n.data['callee'] != 'asyncio.wait' and \
                len(args) > 1:
            t = args[1]
        if t is None or t == NONE:
            continue
        fs = list(args[:1]) + [v for k, v in n.data['kws'] if k in (
            'fut', 'f', 'fs', 'future')]
        if any(pred(x) for f in fs for x in subterms(f) if x):
            r.append(n)
    wins = [n for n in fg.calls(*WINDOWS)
            if not n.data['args'] or n.data['args'][0] != NONE]
    if wins:
        cms = [n.data['res'] for n in wins]
        ws = [n for n in fg.kind('with') if any(
            same(n.data['value'], c) for c in cms)]
        out = {n.id for n in fg.kind('withexit')}
        for i in fg.reach(ws, block=lambda m: m.id in out):
            m = fg.nodes[i]
            if m.kind == 'suspend' and any(
                    pred(x) for x in subterms(m.data['value']) if x):
                r.append(m)
    return r


def nothing_bounded(ctx, modules, msg):
    """no container of these modules forgets elements by itself"""
    n, bad = 0, []
    mods = [ctx.prog.modules[i] for i in modules if i in ctx.prog.modules]
    for m in mods:
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            q = ctx.prog.resolve_dotted(m, x.func)
            if q != 'collections.deque':
                continue
            n += 1
            lim = x.args[1] if len(x.args) > 1 else next(
                (k.value for k in x.keywords if k.arg == 'maxlen'), None)
            if lim is not None and not (isinstance(lim, ast.Constant) and
                                        lim.value is None):
                bad.append(f'{m.rel}:{x.lineno}')
    ctx.count('double-ended queues made', n)
    ctx.ob('nothing-is-forgotten', ', '.join(
        i.split('hat.event.')[-1] for i in modules), not bad,
        bad[0] if bad else mods[0].rel if mods else '', msg)


def collected(fg, of):
    """places where a value accepted by `of` is put into a container made
    here, and the walks over those containers"""
    adds = [n for n in fg.kind('add') if n.data['obj'][0] == 'o' and
            n.data['obj'][1] in LOCAL and n.data['how'] != 'copy' and
            of(n.data['value'])]
    objs = {unage(n.data['obj']) for n in adds}
    its = [n for n in fg.kind('iter', 'iterend')
           if unage(seq_base(n.data['iter'])) in objs]
    return adds, its


def held_since(fg, n, adds, lit):
    """a path on which `lit` need not hold at n for what was collected at
    `adds`, or None"""
    for m in adds:
        p = fg.unheld(m, lit, set())
        if p is not None:
            return p
        p = fg.between(m, lambda x: x is n, lambda x: x.kind == 'suspend')
        if p is not None:
            return p
    return None if adds else [n.id]
