"""Collections of values by subscriptions of event types."""

from ..check import check
from ..terms import *   # NOQA
from .util import *     # NOQA
from .subscriptions import (child, children_of, has, has_child, is_any,
                            is_star, rec_call, returned, whole)
from .runners import outside
from .syncing import nearest

COL = 'hat.event.common.collection'
TREE = f'{COL}.pytree.PyTreeEventTypeCollection'
LIST = f'{COL}.pylist.PyListEventTypeCollection'


def opaque(ctx, f=None):
    """functions of other modules, and recursive ones"""
    res = outside(ctx.prog, COL)
    if f is not None:
        res |= {q for q in whole(ctx, f) if q.startswith(COL) and not
                q.endswith('.__init__')}
        res |= {q for q, h in ctx.prog.functions.items()
                if q.startswith(COL) and h is not f and recurs(h)}
    return res


def recurs(h):
    import ast
    return any(isinstance(n, ast.Call) and (
        isinstance(n.func, ast.Name) and n.func.id == h.node.name or
        isinstance(n.func, ast.Attribute) and n.func.attr == h.node.name and
        isinstance(n.func.value, ast.Name) and n.func.value.id in (
            'self', 'cls')) for n in ast.walk(h.node))


def values_of(t):
    """node that a set of values is of"""
    t = unage(t)
    while t[0] == 'op' and t[1] in ('content', *COPIES, 'set') and \
            len(t) >= 3:
        t = unage(t[2])
    if t[0] == 'a' and t[2] == 'values':
        return t[1]
    if t[0] == 'i' and t[2] == const(0) and t[1][0] != 'p':
        return t[1]
    return None


def root(t):
    t = unage(t)
    return t[0] == 'a' and t[1] == ('p', 'self') and t[2] == '_root'


def item(t, q):
    """position of a subtype of q, '*' where it is that of a walk"""
    t = unage(t)
    if t[0] == 'el' and seq_base(t[1]) == q:
        return '*'
    if t[0] == 'i' and t[2][0] == 'c' and isinstance(t[2][2], int):
        n = cut(t[1], q)
        return None if n is None else n + t[2][2]
    return None


def cut(t, q):
    """number of subtypes of q that are left out at its beginning"""
    t = unage(t)
    if t == q:
        return 0
    if t[:2] == ('op', 'slice') and t[4] == const(None) and t[3][
            0] == 'c' and isinstance(t[3][2], int) and t[3][2] >= 0:
        n = cut(t[2], q)
        return None if n is None else n + t[3][2]
    return None


def way(t, q):
    """subtypes that lead from the root to a node, None where unknown"""
    res = []
    t = unage(t)
    while not root(t):
        x = None
        if t[0] == 'i' and unage(t[1])[0] == 'a' and unage(t[1])[
                2] == 'children':
            x, s = unage(unage(t[1])[1]), t[2]
        elif t[0] == 'm' and t[2] in ('get', 'setdefault') and unage(t[1])[
                0] == 'a' and unage(t[1])[2] == 'children':
            x, s = unage(unage(t[1])[1]), t[3][0]
        if x is None:
            return None
        res.append(item(s, q))
        t = x
    return res[::-1]


def tree_add(ctx):
    where = 'PyTreeEventTypeCollection.add'
    f = ctx.prog.func(f'{TREE}.add')
    sub, val = (('p', p) for p in f.params[1:3])
    g = ctx.flow(f, opaque(ctx))
    its = [it for it in g.kind('iter') if types_of(it.data['iter'], sub)]
    ctx.need('walks over query types', len(its))
    puts = [n for n in g.kind('add') if n.data['value'] == val and values_of(
        n.data['obj'])]
    ctx.need('values put in nodes', len(puts))
    notes = [n for n in g.kind('add') if n.data['how'] in ('append', 'add')
             and of_value(n.data['obj'], val)]
    ctx.need('nodes noted by value', len(notes))
    ids, nids = {n.id for n in puts}, {n.id for n in notes}
    there = lambda a, b: b and a[0] == 'in' and unage(a[1]) == val and \
        values_of(a[2]) is not None
    res, res2 = [], []
    for it in its:
        for p in (g.skipped(it, lambda m: m.id in ids, there),
                  g.early(it, lambda a, b: False)):
            res.append((it.loc, p))
        res2.append((it.loc, g.skipped(it, lambda m: m.id in nids, there)))
    once(ctx, 'value-is-put-under-every-type', where, res,
         msg='a query type is passed over')
    for n in notes:
        mine = unage(n.data['value'])
        same_ = lambda i: unage(values_of(g.nodes[i].data['obj'])) == mine
        before = nearest(g, n, ids)
        after = g.reach([n], block=lambda m: m.kind == 'iter')
        ok = before and all(map(same_, before)) or any(
            same_(i) for i in ids if i in after)
        res2.append((n.loc, None if ok else [n.id]))
    once(ctx, 'nodes-of-value-are-noted', where, res2,
         msg='a node that a value is put in is not noted for removal')
    res = []
    for n in puts:
        x = values_of(n.data['obj'])
        qs = [unage(it.data['value']) for it in its]
        q = qs[0]
        w = way(x, q)
        if w is None:
            ctx.count('nodes left undecided', 1)
            continue
        ok = all(s == '*' or s == i for i, s in enumerate(w))
        if ok and '*' not in w and (w or not any(
                m.data['iter'] and seq_base(unage(m.data['iter'])) == q
                for m in g.kind('iter', 'iterend'))):
            end = len(w)
            ok = has(n.facts, lambda a, b: a[0] == 'truthy' and not b and cut(
                strip(a[1]), q) == end) or has(
                    n.facts, lambda a, b: a[0] in ('lt', 'eq', 'le'))
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'value-is-put-at-end-of-its-type', where, res,
         msg='value is put in a node that isn\'t that of the query type')


def strip(t):
    return t[2] if t[:2] == ('op', 'content') else t


def types_of(t, sub):
    t = seq_base(unage(t))
    if t[0] == 'm':
        return t[1] == sub and t[2] == 'get_query_types'
    return t[0] == 'r' and t[2][0] == 'call' and t[2][1].endswith(
        'get_query_types') and sub in t[2][2:]


def of_value(t, val):
    """what is kept by a value"""
    t = unage(t)
    if t[0] == 'i' or t[0] == 'm' and t[2] in ('get', 'setdefault'):
        d, k = (t[1], t[2]) if t[0] == 'i' else (t[1], t[3][0])
        d = unage(d)
        return d[0] == 'a' and d[1] == ('p', 'self') and k == val
    if t[0] == 'r' and t[2][0] == 'call' and len(t[2]) > 3:
        return t[2][1] in ('.pop', '.get', '.setdefault') and unage(
            t[2][2])[:2] == ('a', ('p', 'self')) and t[2][3] == val
    return False


def tree_remove(ctx):
    where = 'PyTreeEventTypeCollection.remove'
    f = ctx.prog.func(f'{TREE}.remove')
    val = ('p', f.params[1])
    g = ctx.flow(f, opaque(ctx))
    its = [it for it in g.kind('iter') if of_value(
        seq_base(unage(it.data['iter'])), val)]
    ctx.need('walks over nodes of a value', len(its))
    outs = {n.id: n for n in g.calls('.remove', '.discard')
            if n.data['args'] == (val, )}
    res = []
    for it in its:
        v = unage(it.data['value'])

        def mine(m, v=v):
            x = outs.get(m.id) and values_of(m.data['base'])
            return x is not None and unage(x) == v
        gone = lambda a, b: not b and a[0] == 'in' and unage(
            a[1]) == val and values_of(a[2]) is not None
        for p in (g.skipped(it, mine, gone), g.early(it)):
            res.append((it.loc, p))
    once(ctx, 'value-is-removed-everywhere', where, res,
         msg='a value stays in a node after it is removed')
    # it is not known by its old nodes when added again
    fs = [n for n in g.calls('.pop', '.__delitem__', '.clear')
          if n.data['base'] is not None and (
              val in n.data['args'] and self_attr_(n.data['base']) or
              of_value(n.data['base'], val))]
    ctx.ob('nodes-of-value-are-forgotten', where, bool(fs), f.loc,
           'nodes of a removed value stay noted', [])


def self_attr_(t):
    t = unage(t)
    return t[0] == 'a' and t[1] == ('p', 'self')


def tree_get(ctx):
    where = 'PyTreeEventTypeCollection.get'
    f = ctx.prog.func(f'{TREE}.get')
    ev = ('p', f.params[1])
    walks = [h for q, h in ctx.prog.functions.items()
             if q.startswith(f'{COL}.pytree.') and recurs(h)]
    if len(walks) != 1:
        ctx.count('walks left undecided', 1)
        return
    h = walks[0]
    g = ctx.flow(f, opaque(ctx, f))
    cs = g.calls(h.qual)
    ctx.need('walk of a tree', len(cs))
    shift = 1 if h.cls is not None and not h.is_static else 0
    ok = True
    for c in cs:
        b = c.data['bound'] or {}
        ps = [b.get(p) for p in h.params[shift:]]
        ok &= bool(ps) and ps[0] is not None and root(ps[0]) and len(
            ps) > 1 and ps[1] == ev and all(
                x in (None, const(0)) or x[0] == 'o' for x in ps[2:])
    ctx.ob('whole-type-is-looked-up', where, ok, f.loc,
           'tree is not walked with the whole event type', [])
    res = []
    for r in returned(g):
        res.append((r.loc, g.unpreceded(r, lambda m: m.kind == 'call' and
                                        m.data['callee'] == h.qual)))
    once(ctx, 'tree-is-walked', where, res,
         msg='values are told without a walk of the tree')
    step(ctx, h, shift)


def step(ctx, h, shift):
    """one step of the walk: values of it and steps that follow"""
    where = h.node.name
    n, e = (('p', p) for p in h.params[shift:shift + 2])
    idx = ('p', h.params[shift + 2]) if len(h.params) > shift + 2 and \
        h.is_gen else None
    g = ctx.flow(h, opaque(ctx, h))
    if idx:
        head = lambda t: unage(t)[:3] == ('i', e, idx)
        length = ('op', 'len', e)

        def over(a, b):
            if a[0] == 'lt':
                return not b and a[1] == idx and a[2] == length
            if a[0] == 'le':
                return b and a[1] == length and a[2] == idx
            return a[0] == 'eq' and b and set(a[1:3]) == {idx, length}

        def more(a, b):
            return over(a, not b)
        nxt = lambda t: lin_is(t, idx, 1)
    else:
        head = lambda t: unage(t)[:3] == ('i', e, const(0))
        over = lambda a, b: a[0] == 'truthy' and not b and strip(a[1]) == e
        more = lambda a, b: over(a, not b)
        nxt = None

    def source(t):
        """what is given on by a walk over a term: kind"""
        t = seq_base(unage(t))
        x = values_of(t)
        if x is not None:
            x = unage(x)
            if x == n:
                return 'own'
            if child(x, n) is not None and is_star(child(x, n)):
                return 'star'
            return None
        xs = rec_call(t, h)
        if xs is None:
            return None
        xs = xs[shift:]
        s = child(unage(xs[0]), n)
        if s is None:
            return None
        if nxt:
            if len(xs) < 3 or xs[1] != e or not nxt(xs[2]):
                return None
        elif cut(xs[1], e) != 1:
            return None
        return 'head' if head(s) else 'any' if is_any(s) else None

    given = {}
    res = []
    its = g.kind('iter')
    told = g.kind('yield', 'add')
    if not told:
        ctx.count('walks left undecided', 1)
        return
    for y in told:
        v = unage(y.data['value'])
        if y.kind == 'add' and v[0] != 'el':
            continue
        k = source(v[1]) if v[0] == 'el' else None
        ok = k is not None
        fs = y.facts
        if k == 'own':
            ok = has(fs, over)
        elif k in ('head', 'any'):
            ok = has(fs, more)
        res.append((y.loc, None if ok else [y.id]))
        given.setdefault(k, set()).add(y.id)
    once(ctx, 'values-are-of-matching-types', where, res,
         msg='a value is told for an event type that it is not kept under')
    res = []
    whole_ = {'own': set(), 'star': set(), 'head': set(), 'any': set()}
    for it in its:
        k = source(it.data['iter'])
        if k is None:
            continue
        for p in (g.skipped(it, lambda m: m.id in given.get(k, ()),
                            lambda a, b: False), g.early(it)):
            res.append((it.loc, p))
    for m in g.kind('iterend'):
        k = source(m.data['iter'])
        if k:
            whole_[k].add(m.id)
    for m in told:
        if m.data.get('how') in ('copy', 'extend'):
            k = source(unage(m.data['value'])[1])
            if k:
                whole_[k].add(m.id)
    no = {'own': more, 'star': has_child(n, is_star, False),
          'head': either_(over, has_child(n, head, False)),
          'any': either_(over, has_child(n, is_any, False))}
    for r in returned(g):
        for k, lit in no.items():
            if has(r.facts, lit):
                res.append((r.loc, None))
                continue
            res.append((r.loc, g.unpreceded(
                r, lambda m: m.id in whole_[k] or m.kind == 'assume' and lit(
                    m.data['atom'], m.data['pol']))))
    once(ctx, 'every-matching-value-is-told', where, res,
         msg='a value is not told for an event type it is kept under')


def either_(*lits):
    return lambda a, b: any(x(a, b) for x in lits)


def lin_is(t, x, k):
    t = unage(t)
    return t[:2] == ('op', 'lin') and t[2] == k and t[3] == ((x, 1), )


def plain_list(ctx):
    """collection that asks each subscription"""
    f = ctx.prog.func(f'{LIST}.add')
    sub, val = (('p', p) for p in f.params[1:3])
    g = ctx.flow(f, opaque(ctx))
    sets = [s for s in g.kind('setitem') if s.data['key'] == val and
            self_attr_(s.data['base'])]
    ctx.need('subscriptions kept by value', len(sets))
    d = unage(sets[0].data['base'])[:3]
    res, ids = [], {s.id for s in sets}
    for r in returned(g):
        res.append((r.loc, g.unpreceded(r, lambda m: m.id in ids)))
    prev = lambda t: unage(t)[0] in ('i', 'm') and unage(unage(t)[1])[
        :3] == d
    none = lambda a, b: a[0] == 'in' and not b and a[1] == val and unage(
        a[2])[:3] == d or a[0] == 'none' and b and prev(a[1]) or \
        a[0] == 'truthy' and not b and prev(a[1])
    for s in sets:
        v = unage(s.data['value'])
        joined = 'union' in show(v) and any(
            x == sub for x in parts_of(v)) and any(
                prev(x) for x in parts_of(v))
        ok = joined or v == sub and has(s.facts, none)
        res.append((s.loc, None if ok else [s.id]))
    once(ctx, 'earlier-subscriptions-of-value-stay',
         'PyListEventTypeCollection.add', res,
         msg='earlier subscriptions of a value are lost')
    f = ctx.prog.func(f'{LIST}.remove')
    val = ('p', f.params[1])
    g = ctx.flow(f, opaque(ctx))
    outs = {n.id for n in g.calls('.pop', '.__delitem__')
            if n.data['base'] and unage(n.data['base'])[:3] == d and
            n.data['args'][:1] == (val, )}
    gone = lambda a, b: a[0] == 'in' and not b and a[1] == val
    once(ctx, 'value-is-removed', 'PyListEventTypeCollection.remove',
         [(r.loc, None if has(r.facts, gone) else g.unpreceded(
             r, lambda m: m.id in outs)) for r in returned(g)],
         msg='a removed value stays')
    f = ctx.prog.func(f'{LIST}.get')
    ev = ('p', f.params[1])
    g = ctx.flow(f, opaque(ctx))
    res, res2 = [], []
    told = g.kind('yield', 'add')
    its = [it for it in g.kind('iter') if d in [
        x[:3] for x in parts_of(unage(it.data['iter']))]]
    ctx.need('walks over values', len(its))

    def match(a, b):
        return b and a[0] == 'truthy' and 'matches' in show(a[1]) and \
            ev in parts_of(a[1])
    ids = {y.id for y in told}
    for y in told:
        res.append((y.loc, None if has(y.facts, match) else [y.id]))
    for it in its:
        for p in (g.skipped(it, lambda m: m.id in ids,
                            lambda a, b: match(a, not b)), g.early(it)):
            res2.append((it.loc, p))
    once(ctx, 'told-values-match', 'PyListEventTypeCollection.get', res,
         msg='a value is told whose subscription doesn\'t match')
    once(ctx, 'every-value-is-asked', 'PyListEventTypeCollection.get', res2,
         msg='a value is passed over whose subscription may match')


def parts_of(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from parts_of(x)


@check('C32')
def collections(ctx):
    tree_add(ctx)
    tree_remove(ctx)
    tree_get(ctx)
    plain_list(ctx)
