"""LMDB backend: which events the configured conditions let through."""

import itertools

from ..check import check
from ..terms import *   # NOQA
from .util import *     # NOQA
from .subscriptions import has, returned
from .runners import outside

MOD = 'hat.event.backends.lmdb.conditions'
COL = 'hat.event.common.collection'
KINDS = ('null', 'boolean', 'string', 'number', 'array', 'object')
CLASSES = {'boolean': 'bool', 'string': 'str', 'array': 'list',
           'object': 'dict'}
ATOMS = ('eq', 'none', 'in', 'isinst', 'lt', 'le', 'truthy')


def opaque(ctx, *more):
    res = outside(ctx.prog, f'{MOD}.', COL)
    res |= {q for q in ctx.prog.functions if q.startswith(COL) and
            q.rsplit('.', 1)[1] in ('add', 'get', 'remove')}
    return res | set(more)


def called(t):
    """(function, arguments) of the result of a call"""
    t = unage(t)
    if t[0] == 'r' and t[2][0] == 'call':
        return t[2][1], [x for x in t[2][2:] if x[0] != 'kwarg']
    if t[0] == 'op' and t[1] == 'call':
        return t[2][1], list(t[3:])
    if t[0] == 'op' and len(t) > 2 and isinstance(t[1], str) and '.' in t[1]:
        return t[1], list(t[2:])
    return None, []


def setting(t, conf, name):
    """how a setting is read: 'must' where it has to be there, else a tuple
    of its default"""
    t = unage(t)
    if t[0] == 'i' and t[1] == conf and t[2] == const(name):
        return 'must'
    if t[0] == 'm' and t[1] == conf and t[2] == 'get' and t[3][
            0] == const(name):
        return tuple(t[3][1:2]) or (const(None), )
    return None


def truths(r):
    """(polarity, facts) of what is returned"""
    v = r.data['value']
    fs = {(unage_atom(a), b) for a, b in r.facts}
    if v[0] == 'c':
        return [(bool(v[2]), fs)]
    neg_ = False
    while v[0] == 'op' and v[1] == 'not' and len(v) == 3:
        v, neg_ = v[2], not neg_
    if v[0] == 'op' and v[1] == 'bool' and len(v) == 3:
        v = v[2]
    if v[0] == 'op' and v[1] in ATOMS:
        a = tuple(v[1:])
    elif v[0] in ATOMS:
        a = v
    else:
        a = ('truthy', v)
    return [(p, fs | {(unage_atom(a), p != neg_)}) for p in (True, False)]


def unage_atom(a):
    return tuple(unage(x) if isinstance(x, tuple) and x and isinstance(
        x[0], str) else x for x in a)


def every(ctx, g, rule, where, source, lit, early, msg):
    """the answer is `early` as soon as one of the elements says so (lit of
    an element and polarity), and the other one once all of them are over"""
    its = [n for n in g.kind('iter') if source(seq_base(n.data['iter']))]
    ends = {n.id for n in g.kind('iterend') if source(
        seq_base(n.data['iter']))}
    ctx.need(f'walks of {where}', len(its))
    tops = returned(g)
    late_ = {r.id for r in tops for p, _ in truths(r) if p != early}
    res = []
    for it in its:
        el = it.data['value']
        go_on = lit(el, not early)
        nxt = g.loop_next(it)
        par = g.reach(it.succ, block=lambda m: m.kind == 'assume' and go_on(
            m.data['atom'], m.data['pol']) or m.kind in (
                'throws', 'raise', 'uncaught'))
        bad = [i for i in sorted(par) if (
            i in late_ or nxt(g.nodes[i]) or i in ends) and not (
                g.nodes[i].kind == 'assume')]
        res.append((it.loc, g.path(par, bad[0]) if bad else None))
    for r in tops:
        for p, _ in truths(r):
            if p != early:
                res.append((r.loc, g.unpreceded(
                    r, lambda m: m.id in ends)))
            else:
                res.append((r.loc, g.unpreceded(r, lambda m: (
                    m.kind == 'assume' and any(lit(it.data['value'], early)(
                        m.data['atom'], m.data['pol']) for it in its)))))
    once(ctx, rule, where, res, msg=msg, fg=g)


def matched(ev):
    """literal: an element matches the event"""
    def of(el, pol):
        u = unage(el)

        def lit(a, b):
            if a[0] != 'truthy' or b != pol:
                return False
            t = unage(a[1])
            while t[0] == 'op' and t[1] == 'bool':
                t = t[2]
            if t[0] == 'm':
                return t[1] == u and t[2] == 'matches' and t[3] == (ev, )
            f, args = called(t)
            return f is not None and f.endswith('.matches') and args == [
                u, ev]
        return lit
    return of


@check('C33')
def conditions(ctx):
    init = ctx.prog.func(f'{MOD}.Conditions.__init__')
    where = 'Conditions'
    conf = ('p', init.params[1])
    makers = {q for q in ctx.prog.functions if q.startswith(f'{MOD}.') and
              q.count('.') == MOD.count('.') + 1}
    g = ctx.flow(init, opaque(ctx, *makers))
    its = [n for n in g.kind('iter') if elem_of(n.data['value'], is_(conf))]
    ctx.need('walks over configured conditions', len(its))
    adds = [n for n in g.calls() if n.data['callee'].endswith('.add') and (
        n.data['callee'].startswith(COL))]
    # elements of a list that is empty
    adds = [n for n in adds if not any(
        x and x[0] == 'el' and seq_base(x[1])[0] == 'o' and not adds_to(
            g, seq_base(x[1])) for a in n.data['args'] for x in subterms(a))]
    ctx.need('conditions put in the collection', len(adds))
    own, res, makes = set(), [], {}
    for n in adds:
        args = [unage(a) for a in n.data['args']]
        if len(args) == 3:
            args = args[1:]
        f, a = called(args[1])
        el = unage(a[0][1]) if a and a[0][0] == 'i' and a[0][2] == const(
            'condition') else None
        ok = f in makers and el and elem_of(el, is_(conf))
        if ok:
            makes[f] = True
            own.add(n.id)
            s, b = called(args[0])
            ok = s and s.endswith('create_subscription') and len(
                b) == 1 and types_of(g, b[0], el)
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'condition-has-its-subscription', where, res, fg=g,
         msg='condition is not applied to event types it is configured for')
    # conditions prepared in a container before they are put in the collection
    stage = {n.id for n in g.kind('add') if n.data['obj'][0] == 'o' and
             n.data['obj'][1] in LOCAL and n.data['how'] != 'copy' and any(
                 elem_of(x, is_(conf)) for x in subterms(n.data['value'])
                 if x) and any(called(x)[0] in makers or x[0] == 'o'
                               for x in subterms(n.data['value']) if x)}
    left = lambda it, ids: g.skipped(
        it, lambda m: m.id in ids, lambda a, b: False) or g.early(it)
    objs = {unage(n.data['obj']) for n in g.nodes if n.id in stage}
    over = [n for n in g.kind('iter', 'iterend') if unage(seq_base(
        n.data['iter'])) in objs]
    res = []
    for it in its:
        p = left(it, own)
        if p is not None and stage:
            p = left(it, own | stage)
        res.append((it.loc, p))
    for n in g.nodes:
        if n.id in stage:
            res.append((n.loc, g.unfollowed(n, lambda m: m in over and unage(
                seq_base(m.data['iter'])) == unage(
                    n.data['obj']), g.is_return)))
    for it in over:
        if it.kind == 'iter':
            res.append((it.loc, left(it, own)))
    once(ctx, 'every-condition-is-applied', where, res, fg=g,
         msg='configured condition is left out')
    cols = {unage(n.data['args'][0]) for n in adds if len(
        n.data['args']) == 3} | {unage(n.data['base']) for n in adds if len(
            n.data['args']) == 2 and n.data['base']}
    attrs = {n.data['attr'] for n in g.kind('store') if n.data[
        'base'] == ('p', 'self') and unage(n.data['value']) in cols}
    ctx.need('collection of conditions', len(attrs))
    m = ctx.prog.func(f'{MOD}.Conditions.matches')
    g = ctx.flow(m, opaque(ctx, *makers))
    ev = ('p', m.params[1])

    def source(t):
        f, args = called(t)
        return f is not None and f.startswith(COL) and f.endswith(
            '.get') and len(args) == 2 and args[0][:2] == (
                'a', ('p', 'self')) and args[0][2] in attrs and args[
                    1] == ('a', ev, 'type', None)
    every(ctx, g, 'all-conditions-of-type-hold', 'Conditions.matches',
          source, matched(ev), False,
          'answer isn\'t that all conditions of the event type hold')
    ctx.need('makers of conditions', len(makes))
    for q in makes:
        kinds(ctx, ctx.prog.func(q), makers)


def types_of(g, t, el):
    """event types of a configured condition"""
    t = seq_base(unage(t))
    want = lambda x: seq_base(x) == ('i', el, const('subscriptions'), None)\
        or seq_base(x)[:3] == ('i', el, const('subscriptions'))
    if t[0] == 'gx':
        e = g.flow.p.nodes[t[1]]
        return len(e.generators) == 1 and not e.generators[0].ifs and \
            want(t[3])
    if t[0] == 'o' and t[1] in LOCAL:
        vs = [unage(n.data['value']) for n in g.kind('add') if unage(
            n.data['obj']) == t]
        return vs and all(v[0] == 'el' and want(v[1]) or v[0] in (
            'op', 'tup') and any(x[0] == 'el' and want(x[1]) for x in
                                 subterms(v) if x) for v in vs)
    return want(t)


def kinds(ctx, f, makers):
    """what is made for each type of condition"""
    where = short(f.qual)
    # a condition of conditions makes those by the same function
    inits = {q for q in ctx.prog.functions if q.startswith(f'{MOD}.') and
             q.endswith('.__init__')}
    g = ctx.flow(f, opaque(ctx, *inits))
    conf = ('p', f.params[0])
    made = {}
    res = []
    for r in returned(g):
        v = unage(r.data['value'])
        cls = v[1] if v[0] in ('o', 'rec') else None
        if cls and cls.startswith('inst:'):
            cls = cls[5:]
        if cls not in ctx.prog.classes:
            cls = None
        names = {n for n in ('all', 'any', 'json') if has(
            r.facts, lambda a, b: a[0] == 'eq' and b and is_kind(
                a, conf, 'type', n))}
        ok = cls and len(names) == 1
        if ok:
            name, = names
            ok = made.setdefault(name, cls) == cls
            new = [n for n in g.kind('new') if n.data['value'] == r.data[
                'value']]
            ok = ok and all(list(map(unage, n.data['args'])) == [conf]
                            for n in new)
        res.append((r.loc, None if ok else [r.id]))
    once(ctx, 'condition-is-of-its-type', where, res, fg=g,
         msg='what is made is not told by the type of condition')
    ok = set(made) == {'all', 'any', 'json'} and len(set(
        made.values())) == 3
    ctx.ob('types-of-conditions-differ', where, ok, f.loc,
           'all, any and json conditions are not told apart')
    if not ok:
        return
    for name, early in (('all', False), ('any', True)):
        composed(ctx, made[name], f, early)
    tested(ctx, made['json'])


def is_kind(a, conf, name, value):
    x, y = unage(a[1]), unage(a[2])
    if x[0] != 'c':
        x, y = y, x
    return x == const(value) and setting(y, conf, name) is not None


def attributes(ctx, cls, *ops):
    """flow of the constructor, and attributes that it sets"""
    init = ctx.prog.method(cls, '__init__')
    g = ctx.flow(init, opaque(ctx, *ops), self_type=cls)
    res = {}
    for n in g.kind('store'):
        if n.data['base'] == ('p', 'self'):
            res.setdefault(n.data['attr'], set()).add(unage(n.data['value']))
    return init, g, res


def composed(ctx, cls, maker, early):
    where = short(cls)
    init, g, attrs = attributes(ctx, cls, maker.qual)
    conf = ('p', init.params[1])
    src = lambda t: setting(seq_base(t), conf, 'conditions') is not None
    its = [n for n in g.kind('iter') if elem_of(n.data['value'], src)]
    ctx.need(f'walks over conditions of {where}', len(its))
    boxes, res = set(), []
    for it in its:
        u = unage(it.data['value'])

        def put(m):
            if m.kind != 'add':
                return False
            f, args = called(m.data['value'])
            if f == maker.qual and args == [u]:
                boxes.add(unage(m.data['obj']))
                return True
        res.append((it.loc, g.skipped(it, put, lambda a, b: False) or
                    g.early(it)))
    once(ctx, 'every-part-is-kept', where, res, fg=g,
         msg='a condition of the composition is left out')
    names = {a for a, vs in attrs.items() if len(vs) == 1 and seq_base(
        list(vs)[0]) in boxes or any(seq_base(v) in boxes for v in vs)}
    ctx.need(f'parts of {where}', len(names))
    m = ctx.prog.method(cls, 'matches')
    g = ctx.flow(m, opaque(ctx, maker.qual), self_type=cls)
    ev = ('p', m.params[1])
    every(ctx, g, 'any-part-holds' if early else 'all-parts-hold', where,
          lambda t: any(self_attr(a)(t) for a in names), matched(ev), early,
          f'answer isn\'t that {"one" if early else "all"} of conditions hold')


def tested(ctx, cls):
    where = short(cls)
    init, _, attrs = attributes(ctx, cls)
    conf = ('p', init.params[1])
    m = ctx.prog.method(cls, 'matches')
    g = ctx.flow(m, opaque(ctx), self_type=cls)
    ev = ('p', m.params[1])
    pay = ('a', ev, 'payload', None)
    known = {('a', ('p', 'self'), a, None): list(vs)[0]
             for a, vs in attrs.items() if len(vs) == 1}

    def full(t):
        t = unage(t)
        if t in known:
            return known[t]
        if not isinstance(t, tuple) or t[:1] == ('c', ):
            return t
        return tuple(full(x) if isinstance(x, tuple) else x for x in t)

    def absent(name, pol=True):
        def lit(a, b):
            if a[0] == 'in':
                return a[1] == const(name) and a[2] == conf and b != pol
            if a[0] == 'none':
                s = setting(a[1], conf, name)
                return s not in (None, 'must') and s[0] == const(
                    None) and name != 'data_value' and b == pol
            if a[0] == 'eq' and b == pol:
                # the default is of its own
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    s = setting(x, conf, name)
                    if s not in (None, 'must') and s[0] == y and s[
                            0][0] in ('o', 'g'):
                        return True
            return False
        return lit

    def is_data(t, H):
        body = ('a', pay, 'data', None)
        if t == body:
            return H(absent('data_path'))
        f, args = called(t)
        if f != 'hat.json.get' or len(args) != 2 or args[0][:3] != body[:3]:
            return False
        s = setting(args[1], conf, 'data_path')
        if s == 'must':
            return H(absent('data_path', False))
        if s is not None:
            return s[0] == ('tup', ()) or s[0][0] == 'o' and s[0][
                1] in LOCAL
        return args[1][0] in ('o', 'tup') and H(absent('data_path'))

    def kind(name, pol=True):
        return lambda a, b: a[0] == 'eq' and b == pol and is_kind(
            a, conf, 'data_type', name)

    def clauses(name, H, pol):
        """data is (or is not) of the kind: literals, one of each group of
        which has to hold"""
        is_ = lambda c, p: lambda a, b: a[0] == 'isinst' and b == p and a[
            2] == c and is_data(a[1], H)
        if name == 'null':
            return [lambda a, b: a[0] == 'none' and b == pol and is_data(
                a[1], H)]
        if name != 'number':
            return [is_(CLASSES[name], pol)]
        if pol:
            # a float, or both an int and not a bool
            return [any_lit(is_('float', True), is_('int', True)),
                    any_lit(is_('float', True), is_('bool', False))]
        return [any_lit(is_('bool', True), is_('float', False)),
                any_lit(is_('bool', True), is_('int', False))]

    def other(name):
        """literals by which a kind isn't the one to be tested"""
        return any_lit(absent('data_type'), kind(name, False),
                       *(kind(k) for k in KINDS if k != name))

    def may_be(name, H):
        if H(absent('data_type')) or H(kind(name, False)):
            return False
        return not any(n != name and H(kind(n)) for n in KINDS)

    def value_lit(a, b, H, pol=True):
        if a[0] != 'eq' or b != pol:
            return False
        return any(setting(x, conf, 'data_value') and is_data(y, H)
                   for x, y in ((a[1], a[2]), (a[2], a[1])))

    def unknown(a):
        """a test of data that is told by other means"""
        if any(s and s[0] == 'a' and s[1] == ('p', 'self') and len(
                attrs.get(s[2], ())) > 1 for x in a[1:]
               if isinstance(x, tuple) for s in subterms(x)):
            return True
        if not any(isinstance(x, tuple) and any(
                s and s[0] == 'a' and s[1:3] == (pay, 'data')
                for s in subterms(x)) for x in a[1:]):
            return False
        if a[0] == 'truthy' and called(a[1])[0] == 'hat.json.get':
            return False
        return a[0] not in ('isinst', 'none') and not (
            a[0] == 'eq' and any(setting(x, conf, 'data_value')
                                 for x in a[1:3]))

    norms = {}

    def norm(a):
        if a not in norms:
            norms[a] = tuple(full(x) if isinstance(x, tuple) else x
                             for x in a)
        return norms[a]

    def held(r, more):
        """whether a literal holds on every way to an answer"""
        def H(lit):
            if any(lit(norm(a), b) for a, b in more):
                return True
            return g.unpreceded(r, assume_block(
                lambda a, b: lit(norm(a), b))) is None
        return H

    odd = [m for m in g.kind('assume') if unknown(norm(m.data['atom']))]
    after = g.reach(odd) if odd else {}
    rt, rf, ro = [], [], []
    n = 0
    for r in returned(g):
        for pol, fs in truths(r):
            H = held(r, fs)
            n += 1
            js = lambda p: lambda a, b: a[0] == 'isinst' and a[
                1][:3] == pay[:3] and a[2].endswith(
                    'EventPayloadJson') and b == p
            if pol:
                ok = H(js(True)) and all(
                    H(any_lit(other(k), c)) for k in KINDS
                    for c in clauses(k, H, True))
                ok = ok and H(any_lit(absent('data_value'), lambda a, b: (
                    value_lit(a, b, H))))
            else:
                differs = lambda a, b: value_lit(a, b, H, False)
                may = [k for k in KINDS if may_be(k, H)]
                ok = all(H(any_lit(js(False), differs, *cs))
                         for cs in itertools.product(*(
                             clauses(k, H, False) for k in may)))
                # no kind that may be configured
                ok |= not may and not H(absent('data_type'))
            if not ok and (r.id in after or any(
                    unknown(norm(a)) for a, _ in fs)):
                ctx.count('answers left undecided', 1)
                continue
            (rt if pol else rf).append((r.loc, None if ok else [r.id]))
    ctx.need('answers of JSON conditions', n, 1)
    once(ctx, 'content-is-as-configured', where, rt, fg=g,
         msg='event matches with content that is not as configured')
    once(ctx, 'mismatch-has-a-reason', where, rf, fg=g,
         msg='event does not match while its content is as configured')
    for a in g.kind('assume'):
        for x in subterms(norm(a.data['atom'])[1:]):
            for name in ('data_type', 'data_value', 'data_path'):
                if x and x[0] == 'i' and setting(x, conf, name) == 'must':
                    ro.append((a.loc, None if held(a, ())(
                        absent(name, False)) else [a.id]))
    once(ctx, 'settings-are-optional', where, ro, fg=g,
         msg='a setting that may be left out is taken for granted')
