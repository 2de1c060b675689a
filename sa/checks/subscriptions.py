"""Matching of event types and sets of them that subscriptions stand for."""

import ast

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .runners import outside

SUB = 'hat.event.common.subscription'
PY = f'{SUB}.pysubscription.PySubscription'
NODE = f'{SUB}.common.Node'
STAR, ANY = const('*'), const('?')


def has(fs, lit):
    return any(lit(a, b) for a, b in fs)


# rules of matching -----------------------------------------------------------

def matching(ctx):
    """match of an event type and a query type"""
    f = ctx.prog.func('hat.event.common.matches.matches_query_type')
    g = ctx.flow(f, outside(ctx.prog, 'hat.event.common.matches'))
    where = 'common.matches.matches_query_type'
    ev, qu = (('p', p) for p in f.params[:2])

    def last(t):
        return t[0] == 'i' and unage(t[1]) == qu and t[2] == const(-1)

    def star(a, b):
        return b and a[0] == 'eq' and STAR in a[1:] and any(
            last(x) for x in a[1:3])

    def plain(a, b):
        return not b and (a[0] == 'eq' and STAR in a[1:] and any(
            last(x) for x in a[1:3]) or a[0] == 'truthy' and content(
                a[1]) == qu)

    def content(t):
        return t[2] if t[:2] == ('op', 'content') else t

    def is_prefix(t):
        t = seq_base(t)
        return t[:3] == ('op', 'slice', qu) and t[3] in (
            const(None), const(0)) and t[4] == const(-1)

    def size(t):
        """what a number is the length of"""
        if t[:2] == ('op', 'len'):
            x = seq_base(t[2])
            return 'e' if x == ev else 'q' if x == qu else \
                'p' if is_prefix(x) else None
        if t[:2] == ('op', 'lin') and len(t[3]) == 1 and t[2] == -1 and \
                t[3][0] == (('op', 'len', qu), 1):
            return 'p'
        return None

    def cmp(kind, x, y, pol):
        """literal of a comparison of lengths"""
        def lit(a, b):
            if a[0] not in ('lt', 'le', 'eq'):
                return False
            s, t = size(a[1]), size(a[2])
            if kind == '<':
                return (a[0] == 'lt' and (s, t) == (x, y) and b == pol or
                        a[0] == 'le' and (s, t) == (y, x) and b != pol)
            return a[0] == 'eq' and {s, t} == {x, y} and b == pol
        return lit

    def seg(t, of):
        """item of a sequence"""
        t = unage(t)
        if of == 'e':
            return t[0] in ('el', 'i') and seq_base(t[1]) == ev
        return t[0] in ('el', 'i') and (
            seq_base(t[1]) == qu or is_prefix(t[1]))

    def variable(a, b):
        return a[0] == 'eq' and b and ANY in a[1:3] and any(
            seg(x, 'q') for x in a[1:3])

    def equal(a, b):
        return a[0] == 'eq' and b and any(
            seg(x, 'e') and seg(y, 'q')
            for x, y in ((a[1], a[2]), (a[2], a[1])))

    its = [it for it in g.kind('iter')
           if any(seg(x, 'q') for x in ends(it.data['value'])) or any(
               seg(x, 'e') for x in ends(it.data['value']))]
    ctx.need('walks over subtypes', len(its))
    res_t, res_f, res_i = [], [], []
    for it in its:
        fs = it.facts
        # prefix is walked where the query ends with '*', whole type elsewhere
        w = g.skipped(it, lambda m: m.kind == 'return' and m.data[
            'value'] == const(False), lambda a, b: variable(
                a, b) or equal(a, b))
        res_i.append((it.loc, w))
    done = {n.id for n in g.kind('iterend') if any(
        n.data['iter'] == it.data['iter'] for it in its)}
    for r in returned(g):
        v = r.data['value']
        for pol in (True, False):
            if v[0] == 'c' and bool(v[2]) != pol:
                continue
            fs = set(r.facts)
            if v[0] != 'c':
                fs |= {(('truthy', v), pol)}
            if pol:
                long = has(fs, plain)
                st = has(fs, star)
                ok = st or long
                if st:
                    ok = has(fs, cmp('<', 'e', 'p', False)) or has(
                        fs, cmp('<', 'e', 'p', False))
                    used = 'p'
                elif long:
                    ok = has(fs, cmp('=', 'e', 'q', True)) or has(
                        fs, cmp('<', 'e', 'q', False)) and has(
                        fs, cmp('<', 'q', 'e', False))
                    used = 'q'
                else:
                    ok = False
                w = None if ok else [r.id]
                # every subtype has been compared
                w = w or g.unpreceded(
                    r, lambda m: m.id in done and walked(m, used, is_prefix,
                                                         qu))
                res_t.append((r.loc, w))
            else:
                short = has(fs, cmp('<', 'e', 'p', True)) and has(
                    fs, star) or has(fs, cmp('<', 'e', 'q', True)) and has(
                        fs, plain)
                over = has(fs, plain) and (has(
                    fs, cmp('<', 'q', 'e', True)) or has(
                        fs, cmp('=', 'e', 'q', False)))
                diff = has(fs, lambda a, b: variable(a, not b)) and has(
                    fs, lambda a, b: equal(a, not b))
                res_f.append((r.loc, None if short or over or diff
                              else [r.id]))
    once(ctx, 'every-subtype-is-compared', where, res_i,
         msg='a subtype is passed over that is neither equal nor \'?\'')
    once(ctx, 'match-has-length-and-subtypes', where, res_t,
         msg='type is told to match without its length or subtypes doing so')
    once(ctx, 'mismatch-has-a-reason', where, res_f,
         msg='type is told not to match for another reason')


def ends(t):
    return t[1] if t[0] == 'tup' else (t, )


def walked(m, used, is_prefix, qu):
    t = m.data['iter']

    def sub(x):
        if not isinstance(x, tuple) or not x:
            return
        yield x
        for y in x:
            if isinstance(y, tuple):
                yield from sub(y)
    has_p = any(is_prefix(x) for x in sub(t) if x and x[0] == 'op' and len(
        x) > 4)
    return has_p if used == 'p' else not has_p


def returned(g):
    tops = [n for n in g.kind('return') if not n.frame and n.data.get('top')]
    ids = {n.id for n in tops}
    # returns that are over merge where they are of the same value
    return tops + [n for n in g.nodes if g.is_return(n) and n.id not in ids
                   and g.unpreceded(n, lambda m: m.id in ids)]


# nodes -----------------------------------------------------------------------

def leaf_of(t, x):
    t = unage(t)
    return t[0] == 'a' and t[1] == x and t[2] == 'is_leaf' or \
        t[0] == 'i' and t[1] == x and t[2] == const(0)


def children_of(t, x):
    t = unage(t)
    while t[0] == 'op' and t[1] in ('content', 'dict', 'copy', 'list',
                                    'tuple', 'set'):
        t = unage(t[2])
    return t[0] == 'a' and t[1] == x and t[2] == 'children' or \
        t[0] == 'i' and t[1] == x and t[2] == const(1)


def leaf_lit(x, pol=True):
    return lambda a, b: b == pol and a[0] == 'truthy' and leaf_of(a[1], x)


def some_lit(x, pol=True):
    """has any children"""
    return lambda a, b: b == pol and a[0] == 'truthy' and children_of(
        a[1], x)


def child(t, x):
    """segment of a child of a node: term of it"""
    t = unage(t)
    if t[0] == 'm' and t[2] == 'get' and children_of(t[1], x):
        return t[3][0]
    if t[0] == 'i' and children_of(t[1], x):
        return t[2]
    if t[0] == 'i' and t[2] == const(1) and t[1][0] == 'el':
        if view(t[1][1], x, 'items'):
            return ('i', t[1], const(0), None)
    if t[0] == 'el' and view(t[1], x, 'values'):
        return t
    return None


def view(t, x, name):
    t = unage(t)
    while t[0] == 'op' and t[1] in ('list', 'tuple', 'iter') and len(t) == 3:
        t = t[2]
    return t[0] == 'm' and t[2] == name and children_of(t[1], x)


def has_child(x, seg, pol=True):
    """literal: node has a child of a segment"""
    def lit(a, b):
        if a[0] == 'in' and seg(a[1]) and (children_of(a[2], x) or view(
                a[2], x, 'keys')):
            return b == pol
        if a[0] == 'truthy' or a[0] == 'none':
            t = unage(a[1])
            if t[0] == 'm' and t[2] == 'get' and children_of(
                    t[1], x) and seg(t[3][0]):
                return b == (pol if a[0] == 'truthy' else not pol)
        return False
    return lit


def is_star(t):
    return t == STAR


def is_any(t):
    return t == ANY


def truth(r):
    """(polarity, facts) that a returned value may have"""
    v = r.data['value']
    if v[0] == 'c':
        return [(bool(v[2]), set(r.facts))]
    return [(p, set(r.facts) | {(('truthy', v), p)}) for p in (True, False)]


def rec_call(t, f):
    """arguments of a recursive call"""
    t = unage(t)
    if t[:3] == ('op', 'call', ('g', f.qual)):
        t = ('r', None, ('call', f.qual, *t[3:]))
    if t[0] == 'r' and t[2][0] == 'call' and t[2][1] == f.qual:
        xs = [x for x in t[2][2:] if x[0] != 'kwarg']
        ks = {x[1]: x[2] for x in t[2][2:] if x[0] == 'kwarg'}
        xs = [x for x in xs]
        for p in f.params[len(xs):]:
            p = p if p in ks else const(p)
            if p not in ks:
                return xs
            xs.append(ks[p])
        return xs
    return None


def root_of(t):
    t = unage(t)
    return t[0] == 'a' and t[1] == ('p', 'self') and t[2] == '_root'


def entry(ctx, name):
    """function that a method hands its tree over to: (graph of the method,
    call, function)"""
    f = ctx.prog.func(f'{PY}.{name}')
    mods = (f'{SUB}.pysubscription', f'{SUB}.common')
    g = ctx.flow(f, whole(ctx, f))
    return f, g, [n for n in g.calls() if any(
        n.data['callee'].startswith(m) for m in mods) and n.data[
            'callee'] in ctx.prog.functions]


def whole(ctx, f):
    """functions that stay calls where f is analysed: recursive ones and
    those that modules share"""
    res = outside(ctx.prog, SUB)
    for q, h in ctx.prog.functions.items():
        if not q.startswith(f'{SUB}.'):
            continue
        name = h.node.name
        shared = q == f'{SUB}.common.{name}' and name[0] != '_'
        again = any(isinstance(n, ast.Call) and (
            isinstance(n.func, ast.Name) and n.func.id == name or isinstance(
                n.func, ast.Attribute) and n.func.attr == name and
            h.cls is None) for n in ast.walk(h.node))
        if shared or again or name == '__init__':
            res.add(q)
    return res - {f.qual}


def matches(ctx):
    where = 'PySubscription.matches'
    f, g, cs = entry(ctx, 'matches')
    cs = [c for c in cs if c.data['args'] and root_of(c.data['args'][0])]
    ctx.need('matching of a tree', len(cs))
    ev = ('p', f.params[1])
    h = ctx.prog.func(cs[0].data['callee'])
    ok = all(c.data['callee'] == h.qual and ev in [
        x for x in c.data['args']] and all(
        x in (ev, const(0)) for x in c.data['args'][1:]) for c in cs)
    ok &= all(r.data['value'] == cs[0].data['res'] or rec_call(
        r.data['value'], h) is not None for r in returned(g))
    ctx.ob('whole-type-is-matched', where, ok, f.loc,
           'tree is not matched with the whole event type', [])
    n, e = (('p', p) for p in h.params[:2])
    idx = ('p', h.params[2]) if len(h.params) > 2 else None
    g = ctx.flow(h, whole(ctx, h))
    # tests of position
    if idx:
        head = lambda t: unage(t)[:3] == ('i', e, idx)
        rest = lambda xs: len(xs) == 3 and xs[1] == e and xs[2] == (
            'op', 'lin', 1, ((idx, 1), ))

        def at_end(pol):
            def lit(a, b):
                if a[0] == 'lt' and a[1] == idx and a[2] == (
                        'op', 'len', e):
                    return b != pol
                if a[0] == 'le' and a[2] == idx and a[1] == (
                        'op', 'len', e):
                    return b == pol
                return a[0] == 'eq' and set(a[1:3]) == {
                    idx, ('op', 'len', e)} and b == pol
            return lit
    else:
        head = lambda t: unage(t)[:3] == ('i', e, const(0))
        rest = lambda xs: len(xs) == 2 and xs[1][:5] == (
            'op', 'slice', e, const(1), const(None))

        def at_end(pol):
            return lambda a, b: a[0] == 'truthy' and (a[1] == e or a[1][
                :3] == ('op', 'content', e)) and b != pol

    def sub(a, pol, seg):
        """literal: a child of a segment matches what remains"""
        def lit(x, b):
            if x[0] != 'truthy' or b != pol:
                return False
            xs = rec_call(x[1], h)
            if not xs or not rest(xs):
                return False
            k = child(xs[0], n)
            return k is not None and seg(k)
        return lit

    rt, rf = [], []
    for r in returned(g):
        for pol, fs in truth(r):
            v = r.data['value']
            lv = leaf_of(v, n)
            star = has(fs, has_child(n, is_star))
            nostar = has(fs, has_child(n, is_star, False))
            end, mid = has(fs, at_end(True)), has(fs, at_end(False))
            leaf = has(fs, leaf_lit(n, pol))
            if pol:
                ok = star or end and leaf or mid and any(
                    has(fs, sub(None, True, s)) for s in (head, is_any))
                rt.append((r.loc, None if ok else [r.id]))
            else:
                ok = nostar and (end and leaf or mid and all(
                    has(fs, has_child(n, s, False)) or has(
                        fs, sub(None, False, s)) for s in (head, is_any)))
                rf.append((r.loc, None if ok else [r.id]))
    once(ctx, 'match-has-a-branch', where, rt,
         msg='type is told to match with no branch that it follows')
    once(ctx, 'mismatch-tried-every-branch', where, rf,
         msg='type is told not to match while a branch is not tried')


def trees(ctx):
    """tree made of query types and query types made of a tree"""
    where = 'PySubscription.__init__'
    f, g, cs = entry(ctx, '__init__')
    q = ('p', f.params[1])
    cs = [c for c in cs if q in c.data['args']]
    ctx.need('tree of query types', len(cs))
    made = {c.data['res'] for c in cs}
    st = [n for n in g.kind('store') if n.data['attr'] == '_root']
    ctx.ob('tree-is-kept', where, bool(st) and all(
        n.data['value'] in made for n in st), f.loc,
        'tree of query types is not kept', [])
    h = ctx.prog.func(cs[0].data['callee'])
    g = ctx.flow(h, whole(ctx, h))
    q = ('p', h.params[0])
    its = [i for i in g.kind('iter') if unage(i.data['value'])[:2] == (
        'el', q)]
    ctx.need('walk over query types', len(its))
    adds = [c for c in g.calls() if c.data['callee'] in ctx.prog.functions
            and any(unage(a)[:2] == ('el', q) for a in c.data['args'])]
    ctx.need('query type added', len(adds))
    ids = {c.id for c in adds}
    res = []
    for it in its:
        for w in (g.skipped(it, lambda m: m.id in ids, lambda a, b: False),
                  g.early(it)):
            res.append((it.loc, w))
    # the tree that has been returned takes the next one
    got = {unage(c.data['res'])[2][:2] for c in adds}
    for r in returned(g):
        v = unage(r.data['value'])
        ok = v[0] == 'rec' and empty_node(g, v) or v[0] == 'r' and (
            v[2][:2] in got or v[2][0] in ('wide', 'join'))
        res.append((r.loc, None if ok else [r.id]))
    for c in adds:
        v = unage(c.data['args'][0])
        ok = v[0] == 'rec' and empty_node(g, v) or v[0] == 'r' and (
            v[2][:2] in got or v[2][0] in ('wide', 'join'))
        res.append((c.loc, None if ok else [c.id]))
    once(ctx, 'every-query-type-is-added', where, res,
         msg='a query type does not become part of the tree')
    added(ctx, ctx.prog.func(adds[0].data['callee']))


def empty_node(g, v):
    d = dict(v[2])
    return d.get('is_leaf') == const(False) and d['children'][0] == 'o' and \
        not dict_entries(g, d['children'])


def added(ctx, h):
    where = 'PySubscription.__init__'
    g = ctx.flow(h, whole(ctx, h))
    n, q = (('p', p) for p in h.params[:2])

    def is_empty(pol):
        return lambda a, b: a[0] == 'truthy' and (
            a[1] == q or a[1][:3] == ('op', 'content', q)) and b != pol or \
            a[0] == 'eq' and {*a[1:3]} == {('op', 'len', q), const(0)} and \
            b == pol

    def head(t):
        return unage(t)[:3] == ('i', q, const(0))

    def tail(t):
        return unage(t)[:5] == ('op', 'slice', q, const(1), const(None))

    def star(pol):
        return lambda a, b: b == pol and a[0] == 'eq' and STAR in a[
            1:3] and any(head(x) for x in a[1:3])

    def more(pol):
        return lambda a, b: b == pol and a[0] == 'truthy' and (
            tail(a[1]) or a[1][:2] == ('op', 'content') and tail(a[1][2]))

    sets = [s for s in g.kind('setitem') if children_of(s.data['base'], n)]
    put_star = {s.id for s in sets if s.data['key'] == STAR}

    def deeper(s):
        """child with the rest added"""
        xs = rec_call(s.data['value'], h)
        if not xs or not head(s.data['key']) or not tail(xs[1]):
            return False
        x = unage(xs[0])
        if x[0] == 'rec':
            # a new child, where there is none
            return empty_node(g, xs[0]) and has(s.facts, has_child(
                n, head, False))
        k = child(x, n)
        if k is None and x[0] == 'r' and x[2][:2] == ('call', '.setdefault'):
            k = x[2][3] if children_of(x[2][2], n) else None
        if k is None and x[0] == 'm' and x[2] == 'setdefault':
            k = x[3][0]
        return k is not None and head(k)

    put = {s.id for s in sets if deeper(s)}
    # a node where there is none, before the rest gets added to it
    new = {s.id for s in sets if s.data['value'][0] == 'rec' and empty_node(
        g, s.data['value']) and head(s.data['key']) and has(
            s.facts, has_child(n, head, False))}
    res = [(s.loc, None if s.id in put | put_star | new else [s.id])
           for s in sets]
    for r in returned(g):
        v = unage(r.data['value'])
        fs = r.facts
        rec = dict(v[2]) if v[0] == 'rec' and v[1] == NODE else None
        kept = v == n or rec and children_of(rec['children'], n) and leaf_of(
            rec['is_leaf'], n)
        if has(fs, has_child(n, is_star)):
            res.append((r.loc, None if kept else [r.id]))
        elif has(fs, is_empty(True)):
            ok = rec and rec['is_leaf'] == const(True) and children_of(
                rec['children'], n)
            res.append((r.loc, None if ok else [r.id]))
        else:
            # '*' takes place of other children, others go under their head
            alone = rec and rec['children'][0] == 'o' and STAR[2] in \
                dict_entries(g, rec['children']) and has(fs, star(True))
            w = None if kept else [r.id]
            w = w or g.unpreceded(r, lambda m: m.id in (
                put | put_star)) if not alone else None
            res.append((r.loc, w))
            if has(fs, star(True)) and not has(fs, more(False)):
                res.append((r.loc, [r.id]))
    for s in sets:
        ok = s.id in put_star and has(s.facts, star(True)) or \
            s.id in put | new and has(s.facts, star(False))
        res.append((s.loc, None if ok else [s.id]))
    clears = [c for c in g.calls('.clear') if children_of(c.data['base'], n)]
    for c in clears:
        res.append((c.loc, None if has(c.facts, star(True)) else [c.id]))
    once(ctx, 'query-type-is-added-under-its-head', where, res,
         msg='tree does not get the branch of the added query type')


def listed(ctx):
    """query types of a tree"""
    where = 'PySubscription.get_query_types'
    f, g, cs = entry(ctx, 'get_query_types')
    cs = [c for c in cs if any(root_of(a) for a in c.data['args'])]
    ctx.need('query types of a tree', len(cs))
    h = ctx.prog.func(cs[0].data['callee'])
    g = ctx.flow(h, whole(ctx, h))
    n = ('p', h.params[0])
    its = [i for i in g.kind('iter') if view(i.data['iter'], n, 'items')]
    ctx.need('walk over children', len(its))
    res = []
    inner = []
    for i in g.kind('iter'):
        xs = rec_call(i.data['iter'], h)
        if xs and child(xs[0], n):
            inner.append(i)
    ctx.need('walk over types of a child', len(inner))
    ends = {n.id for n in g.kind('iterend') if rec_call(n.data['iter'], h)}
    for it in its:
        for w in (g.skipped(it, lambda m: m.id in ends, lambda a, b: False),
                  g.early(it)):
            res.append((it.loc, w))
    ys = [y for y in g.kind('yield')]
    heads, own = set(), set()
    for y in ys:
        v = unage(y.data['value'])
        if v == ('tup', ()):
            own.add(y.id)
            res.append((y.loc, None if has(y.facts, leaf_lit(n)) and has(
                y.facts, has_child(n, is_star, False)) else [y.id]))
            continue
        k, r = head_and_rest(v)
        r = unage(r) if r else None
        xs = rec_call(r[1], h) if r and r[0] == 'el' else None
        ok = xs and k is not None and child(xs[0], n) == unage(k)
        if ok:
            heads.add(y.id)
        res.append((y.loc, None if ok else [y.id]))
    for it in inner:
        for w in (g.skipped(it, lambda m: m.id in heads,
                            lambda a, b: False), g.early(it)):
            res.append((it.loc, w))
    outs = {m.id for m in g.kind('iterend') if view(
        m.data['iter'], n, 'items')}
    for r in returned(g):
        w = g.unpreceded(r, lambda m: m.id in outs)
        w = w or g.unpreceded(r, lambda m: m.id in own or m.kind ==
                              'assume' and (leaf_lit(n, False)(
                                  m.data['atom'], m.data['pol']) or has_child(
                                      n, is_star)(m.data['atom'],
                                                  m.data['pol'])))
        res.append((r.loc, w))
    once(ctx, 'every-branch-is-listed', where, res,
         msg='query types are not those of the tree')


def head_and_rest(v):
    if v[0] == 'tup' and len(v[1]) == 2 and v[1][1][:2] == ('op', 'star'):
        return v[1][0], v[1][1][2]
    if v[:2] == ('op', '+') and v[2][0] == 'tup' and len(v[2][1]) == 1:
        return v[2][1][0], v[3]
    return None, None


# two trees -------------------------------------------------------------------

def binary(ctx, name):
    """function that two trees are handed over to"""
    f, g, cs = entry(ctx, name)
    cs = [c for c in cs if len(c.data['args']) == 2]
    ctx.need(f'{name} of trees', len(cs))
    return f, g, cs, ctx.prog.func(cs[0].data['callee'])


def tree_of_other(ctx):
    """the tree that stands for another subscription"""
    res = []
    for name in ('union', 'intersection', 'isdisjoint'):
        f, g, cs, h = binary(ctx, name)
        for c in cs:
            t = unage(c.data['args'][1])
            other = lambda o: unage(o) == ('p', f.params[-1]) or unage(
                o)[0] == 'el' and is_param(*names_of(f))(seq_base(
                    unage(o)[1]))
            if t[0] == 'a' and t[2] == '_root':
                ok = other(t[1]) and has(c.facts, lambda a, b: a[
                    0] == 'isinst' and unage(a[1]) == unage(t[1]) and b)
            else:
                xs = call_of(t, 'node_from_query_types')
                x = unage(xs[0]) if xs else None
                ok = x and (x[0] == 'm' and x[2] == 'get_query_types' and
                            other(x[1]) or x[0] == 'r' and x[2][
                                :2] == ('call', '.get_query_types') and
                            other(x[2][2]))
            res.append((c.loc, None if ok else [c.id]))
        if name == 'isdisjoint':
            for r in returned(g):
                v = rec_call(r.data['value'], h)
                ok = v and root_of(v[0])
                res.append((r.loc, None if ok else [r.id]))
        else:
            res += folded(g, f, cs, h)
    once(ctx, 'trees-of-both-are-used', 'PySubscription', res,
         msg='tree of a subscription is not the one that is used')


def names_of(f):
    a = f.node.args
    return [x.arg for x in (*a.posonlyargs, *a.args, a.vararg, *a.kwonlyargs)
            if x is not None and x.arg != 'self']


def call_of(t, name):
    """arguments of a call of a function"""
    if t[:2] == ('op', 'call') and t[2][0] == 'g' and t[2][
            1].rsplit('.')[-1] == name:
        return t[3:]
    if t[0] == 'r' and t[2][0] == 'call' and t[2][1].rsplit('.')[
            -1] == name:
        return t[2][2:]
    return None


def cycle(g, n):
    """nodes that come before a node, itself where it is in a loop"""
    return g.reach([g.nodes[i] for i in n.pred], back=True)


def folded(g, f, cs, h):
    """all others are combined one after another"""
    res = []
    ids = {c.id for c in cs}
    its = [i for i in g.kind('iter') if is_param(
        seq_base(unage(i.data['value'])[1])) and
        seq_base(unage(i.data['value'])[1])[1] not in ('self', )]
    if not its:
        res.append((f.loc, [0]))
    for it in its:
        for w in (g.skipped(it, lambda m: m.id in ids, lambda a, b: False),
                  g.early(it)):
            res.append((it.loc, w))

    def chained(t):
        t = unage(t)
        return root_of(t) or rec_call(t, h) is not None or t[
            0] == 'r' and t[2][0] in ('wide', 'join')
    for c in cs:
        a = c.data['args'][0]
        res.append((c.loc, None if chained(a) else [c.id]))
        if root_of(a):
            # what has been made of others before is not left out
            back = g.reach([c], back=True)
            res += [(c.loc, [c.id]) for i in back
                    if i in ids and (i != c.id or c.id in cycle(g, c))]
    sts = [s for s in g.kind('store') if s.data['attr'] == '_root']
    for r in returned(g):
        ss = [s for s in sts if unage(s.data['base']) == unage(
            r.data['value'])]
        ok = ss and all(chained(s.data['value']) for s in ss) and \
            r.data['value'][0] == 'o' or unage(r.data['value'])[0] == 'r'
        res.append((r.loc, None if ok else [r.id]))
    for s in sts:
        # after others, not before them
        iters = {m.id for m in g.kind('iterend')}
        res.append((s.loc, g.unpreceded(s, lambda m: m.id in iters)))
        if s.data['base'] == ('p', 'self'):
            res.append((s.loc, [s.id]))
    return res


def disjoint(ctx):
    where = 'PySubscription.isdisjoint'
    _, _, _, h = binary(ctx, 'isdisjoint')
    g = ctx.flow(h, whole(ctx, h))
    x, y = (('p', p) for p in h.params[:2])
    both = ((x, y), (y, x))

    def common_names(t):
        """names that both nodes have children of"""
        t = unage(t)
        while t[0] == 'op' and t[1] in ('list', 'sorted', 'tuple', 'set'):
            t = unage(t[2])
        if t[0] == 'm' and t[2] == 'intersection' and len(t[3]) == 1:
            xs = (t[1], t[3][0])
        elif t[:2] in (('op', '&'), ('op', 'BitAnd')):
            xs = t[2:4]
        elif t[0] == 'r' and t[2][:2] == ('call', '.intersection'):
            xs = t[2][2:4]
        else:
            return False
        xs = [sources(u) for u in xs]
        return all(any(z in u for u in xs) for z in (x, y)) and all(
            len(u) == 1 for u in xs)

    def sources(t):
        """nodes whose names something is made of"""
        t = unage(t)
        while t[0] == 'op' and t[1] in ('list', 'set', 'tuple', 'frozenset'):
            t = unage(t[2])
        if t[0] == 'o':
            out = set()
            for n in adds_to(g, t):
                v = unage(n.data['value'])
                out |= sources(v[1]) if v[0] == 'el' else {None}
            return out
        return {z for z in (x, y)
                if children_of(t, z) or view(t, z, 'keys')} or {None}

    def pair(t):
        """kind of a pair of children that is compared: (kind, element)"""
        xs = rec_call(t, h)
        if not xs or len(xs) != 2:
            return None
        for a, b in (xs, xs[::-1]):
            i, j = child(a, x), child(b, y)
            if i is None or j is None:
                continue
            if i == ANY:
                return 'first', j
            if j == ANY:
                return 'second', i
            if unage(i) == unage(j):
                return 'same', i
        return None

    def apart(pol, kind=None, el=None):
        """literal: children of a pair are (not) disjoint"""
        def lit(a, b):
            if a[0] != 'truthy' or b != pol:
                return False
            p = pair(a[1])
            return p is not None and (kind is None or p[0] == kind) and (
                el is None or el(p[1]))
        return lit

    def either(*lits):
        return lambda a, b: any(l(a, b) for l in lits)

    def passed(lit):
        return lambda m: m.kind == 'assume' and lit(
            m.data['atom'], m.data['pol'])

    rf, rt = [], []
    # loops that compare all pairs of a kind
    walks = {'first': [], 'second': [], 'same': []}
    for it in g.kind('iter'):
        t = it.data['iter']
        el = unage(it.data['value'])
        for kind, z in (('first', y), ('second', x)):
            if view(t, z, 'values') or view(t, z, 'items'):
                walks[kind].append(it)
        if common_names(t) or any(view(t, z, v) or children_of(t, z)
                                  for z in (x, y)
                                  for v in ('items', 'keys')):
            walks['same'].append(it)

    def covers(it, kind, excused):
        """does a walk compare all pairs of a kind"""
        if g.early(it, lambda a, b: apart(False)(a, b)):
            return False
        v = unage(it.data['value'])
        z, o = (x, y) if kind == 'second' else (y, x)
        name = ('i', v, const(0), None)

        def is_name(t):
            t = unage(t)
            return t == v or t[:3] == name[:3]

        ok = either(apart(True, kind))
        if kind == 'same':
            skip = [lambda a, b: a[0] == 'in' and is_name(a[1]) and (
                children_of(a[2], x) or children_of(a[2], y)) and not b,
                lambda a, b: a[0] in ('truthy', 'none') and unage(a[1])[
                    0] == 'm' and unage(a[1])[2] == 'get' and is_name(unage(
                        a[1])[3][0]) and b == (a[0] == 'none')]
        else:
            skip = []
        if excused:
            skip.append(lambda a, b: b and a[0] == 'eq' and ANY in a[
                1:3] and any(is_name(t) for t in a[1:3]))
        return not g.skipped(it, lambda m: m.kind == 'return' and m.data[
            'value'] == const(False), either(ok, *skip))

    full = {}
    for kind, its in walks.items():
        for excused in (False, True):
            full[kind, excused] = {
                (it.ast, it.frame) for it in its} - {
                (it.ast, it.frame) for it in its
                if not covers(it, kind, excused)}
    # pairs of '?' with '?' may be left out by one of walks only
    strict = {k for k in ('first', 'second') if full[k, False]}

    def walked(kind):
        ok = set(full[kind, False])
        if kind == 'same' and strict or kind != 'same' and strict - {kind}:
            ok |= full[kind, True]
        return lambda m: m.kind == 'iterend' and (m.ast, m.frame) in ok

    for r in returned(g):
        for pol, fs in truth(r):
            if pol:
                need = [passed(either(leaf_lit(x, False),
                                      leaf_lit(y, False)))]
                for u, v in both:
                    need.append(passed(either(
                        has_child(u, is_star, False), some_lit(v, False))))
                    need.append(passed(either(
                        has_child(u, is_star, False), leaf_lit(v, False))))
                for kind, z in (('first', x), ('second', y)):
                    w = walked(kind)
                    p = passed(either(has_child(z, is_any, False),
                                      some_lit(x, False),
                                      some_lit(y, False)))
                    need.append(lambda m, w=w, p=p: w(m) or p(m))
                w = walked('same')
                p = passed(either(some_lit(x, False), some_lit(y, False)))
                need.append(lambda m, w=w, p=p: w(m) or p(m))
                for n in need:
                    rt.append((r.loc, g.unpreceded(r, n)))
            else:
                ok = has(fs, leaf_lit(x)) and has(fs, leaf_lit(y))
                for u, v in both:
                    ok |= has(fs, has_child(u, is_star)) and (
                        has(fs, some_lit(v)) or has(fs, leaf_lit(v)) or
                        has(fs, has_child(v, is_star)))
                ok |= has(fs, apart(False))
                rf.append((r.loc, None if ok else [r.id]))
    once(ctx, 'disjoint-compared-every-pair', where, rt,
         msg='subscriptions are told to be disjoint while a pair of '
             'branches is not compared')
    once(ctx, 'not-disjoint-has-a-reason', where, rf,
         msg='subscriptions are told not to be disjoint with nothing in '
             'common')


def leaf_is(t, x, y, fs, union):
    """is a value the disjunction (conjunction) of is_leaf of two nodes"""
    dom = union
    if t[0] == 'c':
        if bool(t[2]) == dom:
            return has(fs, leaf_lit(x, dom)) or has(fs, leaf_lit(y, dom))
        return has(fs, leaf_lit(x, not dom)) and has(
            fs, leaf_lit(y, not dom))
    for z, o in ((x, y), (y, x)):
        if leaf_of(t, z):
            return has(fs, leaf_lit(o, not dom)) or has(fs, leaf_lit(z, dom))
    t = unage(t)
    if t[0] == 'op' and t[1] in (('or', '|') if union else ('and', '&')):
        return {z for u in t[2:] for z in (x, y) if leaf_of(u, z)} == {x, y}
    return False


def node_of(r):
    """is_leaf and children that a returned node has"""
    v = r.data['value']
    if v[0] == 'rec' and v[1] == NODE:
        d = dict(v[2])
        return d['is_leaf'], d['children']
    return None


def leaf_sources(g, t):
    """sequences that an iterated sequence is made of"""
    t = unage(t)
    while t[0] == 'op' and t[1] in ('list', 'tuple', 'iter') and len(t) == 3:
        t = unage(t[2])
    if t[:2] == ('op', 'itertools.chain'):
        return [u for x in t[2:] for u in leaf_sources(g, x)]
    if t[:2] == ('op', '+'):
        return [u for x in t[2:4] for u in leaf_sources(g, x)]
    if t[0] == 'o':
        return [u for n in adds_to(g, t)
                for v in [unage(n.data['value'])] if v[0] == 'el'
                for u in leaf_sources(g, v[1])]
    return [t]


def united(ctx):
    where = 'PySubscription.union'
    _, _, _, h = binary(ctx, 'union')
    g = ctx.flow(h, whole(ctx, h))
    x, y = (('p', p) for p in h.params[:2])
    rs, rl, ri = [], [], []
    objs = set()
    for r in returned(g):
        nd = node_of(r)
        fs = r.facts
        if has(fs, has_child(x, is_star)) or has(fs, has_child(y, is_star)):
            # other types of the segment are part of '*'
            if nd is None:
                continue
            c = nd[1]
            ok = children_of(c, x) and has(fs, has_child(x, is_star)) or \
                children_of(c, y) and has(fs, has_child(y, is_star)) or \
                c[0] == 'o' and STAR[2] in dict_entries(g, c) or \
                c[0] == 'o' and bool(merged(g, c) >= {x, y})
            rs.append((r.loc, None if ok else [r.id]))
            continue
        if nd is None or nd[1][0] != 'o':
            rs.append((r.loc, [r.id]))
            continue
        rl.append((r.loc, None if leaf_is(nd[0], x, y, fs, True)
                   else [r.id]))
        objs.add(unage(nd[1]))
        # children of both have been gone through
        for z in (x, y):
            if z in merged(g, nd[1]):
                continue
            rl.append((r.loc, g.unpreceded(
                r, lambda m: m.kind == 'iterend' and any(
                    view(u, z, 'items') for u in leaf_sources(
                        g, m.data['iter'])))))
    its = [it for it in g.kind('iter') if any(
        view(u, z, 'items') for z in (x, y)
        for u in leaf_sources(g, it.data['iter']))]
    sets = [s for s in g.kind('setitem') if unage(s.data['base']) in objs]

    def before_of(s):
        if s.id not in earlier:
            earlier[s.id] = cycle(g, s)
        return earlier[s.id]

    earlier = {}

    def kept(v):
        """is the child of an iteration part of the result"""
        name, node = ('i', v, const(0)), ('i', v, const(1))

        def at(t):
            return unage(t)[:3] == tuple(map(unage, name))

        def value(t):
            return unage(t)[:3] == tuple(map(unage, node))

        def prev(t):
            t = unage(t)
            return (t[0] == 'm' and t[2] == 'get' and t[1] in objs and at(
                t[3][0]) or t[0] == 'i' and t[1] in objs and at(t[2]))

        def none(a, b):
            if a[0] == 'in':
                return not b and at(a[1]) and unage(a[2]) in objs
            return a[0] in ('truthy', 'none') and prev(a[1]) and b == (
                a[0] == 'none')

        def ok(s):
            if not at(s.data['key']):
                return False
            if value(s.data['value']):
                return has(s.facts, none) or not any(
                    t.id in before_of(s) for t in sets)
            xs = rec_call(s.data['value'], h)
            return xs and len(xs) == 2 and any(
                prev(a) and value(b) for a, b in (xs, xs[::-1]))
        return ok

    for it in its:
        ok = kept(unage(it.data['value']))
        put = {s.id for s in sets if ok(s)}
        for w in (g.skipped(it, lambda m: m.id in put, lambda a, b: False),
                  g.early(it)):
            ri.append((it.loc, w))
    for s in sets:
        ri.append((s.loc, None if any(
            kept(unage(it.data['value']))(s) for it in its) else [s.id]))
    once(ctx, 'union-has-star', where, rs,
         msg='union is without the \'*\' branch')
    once(ctx, 'union-has-both-trees', where, rl,
         msg='union is made without one of trees')
    once(ctx, 'union-keeps-children', where, ri,
         msg='a child of a tree is not part of the union')


def merged(g, obj):
    """nodes whose children a dictionary starts with"""
    out = set()
    for n in g.kind('merge'):
        if unage(n.data['base']) == unage(obj):
            t = unage(n.data['value'])
            t = t[1] if t[0] == 'm' and t[2] == 'items' else t
            if t[0] == 'a' and t[2] == 'children':
                out.add(t[1])
            if t[0] == 'i' and t[2] == const(1):
                out.add(t[1])
    return out


def shared(ctx):
    where = 'PySubscription.intersection'
    _, _, _, h = binary(ctx, 'intersection')
    try:
        g = ctx.flow(h, whole(ctx, h))
    except AnalysisError:
        # pairs of children are more than what fits, nothing is told of them
        ctx.count('intersection left undecided', 1)
        return
    x, y = (('p', p) for p in h.params[:2])
    join = binary(ctx, 'union')[3]
    rs, rl, ri = [], [], []
    objs = set()
    for r in returned(g):
        nd = node_of(r)
        fs = r.facts
        stars = [(z, o) for z, o in ((x, y), (y, x))
                 if has(fs, has_child(z, is_star))]
        if stars:
            ok = any(r.data['value'] == o or nd and (
                leaf_of(nd[0], o) or nd[0][0] == 'c' and has(
                    fs, leaf_lit(o, bool(nd[0][2])))) and children_of(
                        nd[1], o) for z, o in stars)
            rs.append((r.loc, None if ok else [r.id]))
        elif nd:
            rl.append((r.loc, None if leaf_is(nd[0], x, y, fs, False)
                       else [r.id]))
            objs.add(unage(nd[1]))
    for s in g.kind('setitem'):
        if unage(s.data['base']) not in objs:
            continue
        v = s.data['value']
        xs = rec_call(v, join)
        vs = [v] if xs is None else xs
        vs = [u for u in vs if rec_call(u, h) is not None]

        def some(a, b):
            return b and a[0] == 'truthy' and any(
                leaf_of(a[1], u) or children_of(a[1], u) for u in map(
                    unage, vs))
        ri.append((s.loc, None if vs and has(s.facts, some) else [s.id]))
    once(ctx, 'intersection-with-star-is-the-other', where, rs,
         msg='intersection with \'*\' is not the other tree')
    once(ctx, 'intersection-has-common-type', where, rl,
         msg='intersection has a type that is not of both')
    once(ctx, 'intersection-has-no-empty-branch', where, ri,
         msg='branch of an intersection is stored that has no types or is '
             'not of both')


@check('C30')
def subscriptions(ctx):
    matching(ctx)
    matches(ctx)
    trees(ctx)
    listed(ctx)
    tree_of_other(ctx)
    disjoint(ctx)
    united(ctx)
    shared(ctx)
