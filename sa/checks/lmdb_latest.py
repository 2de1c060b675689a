"""LMDB backend: database of latest events."""

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .eventer_server2 import THROW
from .lmdb_backend import LM, own_args
from .runners import outside

LA = LM + 'latestdb.'
LD = LA + 'LatestDb.'
DB = LM + 'common.DbType.'
SUB = EV + 'common.subscription.common.Subscription.matches'
CREATE_SUB = EV + 'common.subscription.create_subscription'
EXT_WRITE = LM + 'environment.Environment.ext_write'
COND = LM + 'conditions.Conditions.matches'


def db_of(t, kind=None):
    """database a decoded value was read from"""
    r = {x[1][len(DB):] for x in subterms(t)
         if x and x[0] == 'g' and isinstance(x[1], str) and
         x[1].startswith(DB)}
    return r


def decoded(t, how):
    """t is the result of decode_key or decode_value"""
    return t[0] == 'm' and t[2] == how or \
        t[0] == 'r' and t[2][0] == 'call' and t[2][1].endswith('.' + how)


def lookup(t):
    """(container, key) of a lookup without a default"""
    if t[0] == 'm' and t[2] == 'get' and len(t[3]) == 1:
        return t[1], t[3][0]
    if t[0] == 'i':
        return t[1], t[2]
    return None


def db_attrs(ctx):
    """attributes a new database of latest events keeps its parts in"""
    prog = ctx.prog
    g = ctx.flow(LA + 'ext_create', outside(
        prog, LA, LM + 'environment.') | {EXT_WRITE})
    made = {}
    for n in g.kind('store'):
        if n.data['base'][0] == 'o':
            made.setdefault(n.data['attr'], []).append(n)
    r = {}
    for attr, ns in made.items():
        v = ns[0].data['value']
        if v[0] == 'p' and v[1] == 'subscription':
            r['subscription'] = attr
        elif v[0] == 'rec' and v[1] == LA + 'Changes':
            r['changes'] = attr
        elif v[0] == 'r' and v[2][:2] == ('call', 'itertools.count') or \
                v[0] == 'op' and v[1] == 'lin':
            r['counter'] = attr
        elif v[0] == 'o' and v[1] == 'dict':
            src = set()
            for m in g.nodes:
                if m.kind == 'add' and unage(m.data['obj']) == unage(v):
                    src |= db_of(m.data['value'][1][1]) if \
                        m.data['value'][0] == 'tup' and \
                        len(m.data['value'][1]) == 2 else set()
                if m.kind == 'setitem' and unage(
                        m.data['base']) == unage(v):
                    src |= db_of(m.data['value'])
            for x in src:
                r[x] = attr
    for k in ('subscription', 'changes', 'LATEST_TYPE', 'LATEST_DATA'):
        if k not in r:
            raise AnalysisError(f'the latest database keeps no {k}')
    return g, r, made


def puts(g, obj):
    """(node, key, value) of what is put in a dict made here"""
    u = unage(obj)
    for m in g.nodes:
        if m.kind == 'add' and unage(m.data['obj']) == u and \
                m.data['value'][0] == 'tup':
            yield m, m.data['value'][1][0], m.data['value'][1][1]
        if m.kind == 'setitem' and unage(m.data['base']) == u:
            yield m, m.data['key'], m.data['value']


@check('C24')
def latest(ctx):
    cg, at, made = db_attrs(ctx)
    created(ctx, cg, at, made)
    kept = added(ctx, at)
    queried(ctx, at)
    written(ctx, kept)


def created(ctx, g, at, made):
    where = short(g.func.qual)
    res, res2 = [], []
    evd = {unage(n.data['value']) for n in made[at['LATEST_DATA']]}
    rfd = {unage(n.data['value']) for n in made[at['LATEST_TYPE']]}
    tp = lambda v: lambda t: unage(t) == unage(('a', v, 'type', None))

    def lits(v):
        cond = truthy_lit(lambda t: t[0] == 'r' and t[2][:2] == (
            'call', COND) and unage(v) in [unage(x) for x in t[2][2:]])
        sub = truthy_lit(lambda t: t[0] == 'r' and t[2][:2] == (
            'call', SUB) and t[2][2] == ('p', 'subscription') and
            tp(v)(t[2][-1]))

        def own(t):
            x = lookup(t)
            return x is not None and unage(x[0]) in rfd and tp(v)(x[1])
        ref = eq_lit(own, lambda t: decoded(t, 'decode_key') and
                     db_of(t) == {'LATEST_DATA'} and rows(t) == rows(v))
        return [cond, sub, ref]

    def rows(t):
        return {unage(x) for x in subterms(t) if x and x[0] == 'el'}
    n_in = 0
    for o in evd:
        for m, k, v in puts(g, o):
            n_in += 1
            ok = tp(v)(k) and decoded(v, 'decode_value') and \
                db_of(v) == {'LATEST_DATA'}
            res.append((m.loc, None if ok else [m.id]))
            for i in range(3):
                res.append((m.loc, guarded(
                    g, m, v, lambda x, i=i: lits(v)[i])))
    ctx.need('events loaded', n_in)
    for o in rfd:
        for m, k, v in puts(g, o):
            ok = decoded(k, 'decode_value') and decoded(
                v, 'decode_key') and rows(k) == rows(v) and \
                db_of(k) == db_of(v) == {'LATEST_TYPE'}
            res.append((m.loc, None if ok else [m.id]))
    # nothing else is left out
    for it in g.kind('iter'):
        src = db_of(it.data['iter'])
        if src == {'LATEST_DATA'}:
            ids = {m.id for o in evd for m, k, v in puts(g, o)}
            vs = [v for o in evd for m, k, v in puts(g, o)]
            ex = any_lit(*[neg(x) for v in vs[:1] for x in lits(v)])
        elif src == {'LATEST_TYPE'}:
            ids = {m.id for o in rfd for m, k, v in puts(g, o)}
            ex = lambda a, b: False
        else:
            continue
        # values of the other generations are other rows
        if src == {'LATEST_DATA'}:
            ex = any_lit(*[neg(x) for v in set(vs) for x in lits(v)])
        res2.append((it.loc, g.skipped(it, lambda m: m.id in ids, ex)))
        res2.append((it.loc, g.early(it)))
    once(ctx, 'only-own-events-are-loaded', where, res, fg=g,
         msg='an event that does not satisfy the conditions or the '
             'subscription, or belongs to another type, is loaded')
    once(ctx, 'stored-events-are-loaded', where, res2, fg=g,
         msg='a stored event is not loaded')
    # references do not repeat
    res = []
    for n in made.get(at.get('counter'), []):
        v = n.data['value']
        a = [v] if v[0] == 'op' else [
            x for x in v[2][2:] if x[0] != 'kwarg'] + [
            x[2] for x in v[2][2:] if x[0] == 'kwarg' and x[1] == 'start']
        ok = bool(a) and a[0][0] == 'op' and a[0][1] == 'lin' and \
            a[0][2] >= 1 and len(a[0][3]) == 1 and a[0][3][0][1] == 1
        if ok:
            m = a[0][3][0][0]
            c = call_args(m, 'max')
            ok = c is not None and c and any(
                unage(x) in rfd for x in subterms(unage(c[0])) if x)
        res.append((n.loc, None if ok else [n.id]))
    if res:
        once(ctx, 'references-do-not-repeat', where, res, fg=g,
             msg='a reference given to a new event type may be used by '
                 'another')


def added(ctx, at):
    prog = ctx.prog
    g = ctx.flow(LD + 'add', outside(prog, LA))
    where = short(g.func.qual)
    ev = ('p', g.func.params[1])
    mine = lambda attr: lambda t: t[0] == 'a' and t[1] == ('p', 'self') \
        and t[2] == attr
    et = lambda t: t == ('a', ev, 'type', None)
    events, refs = mine(at['LATEST_DATA']), mine(at['LATEST_TYPE'])
    chg = lambda f: lambda t: t[0] == 'a' and t[2] == f and \
        mine(at['changes'])(t[1])

    def prev(t):
        x = lookup(t)
        return x is not None and events(x[0]) and et(x[1])

    def known(t):
        x = lookup(t)
        return x is not None and refs(x[0]) and et(x[1])
    match = truthy_lit(lambda t: t[0] == 'r' and t[2][:2] == (
        'call', SUB) and mine(at['subscription'])(t[2][2]) and et(t[2][-1]))
    older = any_lit(
        lambda a, b: a[0] in ('lt', 'le') and b and a[1] == ev and prev(a[2]),
        lambda a, b: a[0] in ('lt', 'le') and not b and prev(a[1]) and
        a[2] == ev)
    first = any_lit(neg(truthy_lit(prev)), none_lit(prev),
                    lambda a, b: not b and a[0] == 'in' and et(a[1]) and
                    events(a[2]))
    some = any_lit(truthy_lit(prev), neg(none_lit(prev)),
                   lambda a, b: b and a[0] == 'in' and et(a[1]) and
                   events(a[2]), neg(older),
                   older)
    sets = g.kind('setitem')
    keep = [n for n in sets if events(n.data['base'])]
    names = {}
    for n in sets:
        b = n.data['base']
        if b[0] == 'a' and mine(at['changes'])(b[1]):
            if n.data['value'] == ev:
                names['data'] = b[2]
            elif et(n.data['value']):
                names['types'] = b[2]
    for k in ('data', 'types'):
        ctx.need(f'changes of {k} kept in {where}', k in names)
    data = [n for n in sets if chg(names['data'])(n.data['base'])]
    types = [n for n in sets if chg(names['types'])(n.data['base'])]
    given = [n for n in sets if refs(n.data['base'])]
    ctx.need('kept events', len(keep))
    ctx.need('kept references', len(given))
    kid = {n.id for n in keep}
    did = {n.id for n in data}
    res, res2, res3, res4 = [], [], [], []
    for n in keep + data + types + given:
        res.append((n.loc, g.unheld(n, match, set())))
        res.append((n.loc, g.unheld(n, any_lit(first, neg(older)), set())))
    for n in keep:
        ok = et(n.data['key']) and n.data['value'] == ev
        res2.append((n.loc, None if ok else [n.id]))
    for n in data:
        res2.append((n.loc, None if n.data['value'] == ev else [n.id]))
    once(ctx, 'older-event-does-not-replace', where, res, fg=g,
         msg='an event that is older than the latest one, or is not '
             'subscribed to, is kept')
    no = assume_block(any_lit(neg(match), older))
    for ids in (kid, did):
        res2.append((g.func.loc, g.unfollowed(
            g.entry, lambda m: m.id in ids, g.is_return,
            lambda m: m.kind in THROW or no(m))))
    once(ctx, 'latest-event-is-kept', where, res2, fg=g,
         msg='the latest event is kept neither for queries nor for a flush')
    # references: one for each type
    fresh = {}
    for n in data:
        r = unage(n.data['key'])
        if known(n.data['key']):
            res3.append((n.loc, g.unheld(n, any_lit(
                neg(none_lit(known)), truthy_lit(known),
                lambda a, b: b and a[0] == 'in' and et(a[1]) and
                refs(a[2])), set())))
            continue
        fresh[r] = n.data['key']
    for u, r in fresh.items():
        src = [n for n in g.nodes if n.kind == 'call' and unage(
            n.data['res'] or ('c', 'int', 0)) == u]
        if r[0] == 'a' and 'counter' in at and mine(at['counter'])(r):
            # a number that is advanced whenever it is given
            src = [n for n in data if unage(n.data['key']) == u]
            step = {n.id for n in g.kind('store')
                    if n.data['base'] == ('p', 'self') and
                    n.data['attr'] == at['counter'] and
                    n.data['value'][:2] == ('op', 'lin') and
                    n.data['value'][2] >= 1 and
                    n.data['value'][3] == ((r, 1), )}
            for n in src:
                p = g.unpreceded(n, lambda m: m.id in step)
                res3.append((n.loc, p and g.unfollowed(
                    n, lambda m: m.id in step, g.is_return,
                    lambda m: m.kind in THROW)))
        elif r[0] == 'r':
            ok = r[2][:2] == ('call', 'next') and 'counter' in at and \
                mine(at['counter'])(r[2][2]) and src
            res3.append((g.func.loc, None if ok else [n.id for n in data][
                :1]))
        else:
            # no other source of new references is known to be safe
            src = []
            res3 += [(n.loc, [n.id]) for n in data
                     if unage(n.data['key']) == u]
        for s in src:
            res3.append((s.loc, g.unheld(s, any_lit(
                none_lit(known), neg(truthy_lit(known)),
                lambda a, b: not b and a[0] == 'in' and et(a[1]) and
                refs(a[2])), set())))
            tid = {n.id for n in types if unage(n.data['key']) == u and
                   et(n.data['value'])}
            gid = {n.id for n in given if et(n.data['key']) and unage(
                n.data['value']) == u}
            for ids in (tid, gid):
                res3.append((s.loc, g.unpreceded(
                    s, lambda m: m.id in ids) and g.unfollowed(
                        s, lambda m: m.id in ids, g.is_return,
                        lambda m: m.kind in THROW)))
    for n in types + given:
        k = n.data['key' if n in types else 'value']
        v = n.data['value' if n in types else 'key']
        res3.append((n.loc, None if unage(k) in fresh and et(v)
                     else [n.id]))
    once(ctx, 'one-reference-for-a-type', where, res3, fg=g,
         msg='an event type has several references, shares one with '
             'another, or its reference is not kept')
    # result
    for n in g.nodes:
        if not g.is_return(n):
            continue
        v = n.data['value']
        if v[0] != 'rec' or v[1] != LA + 'AddResult':
            raise AnalysisError('unknown result of an addition')
        f = dict(v[2])
        a, r = f.get('added_ref'), f.get('removed_ref')
        if a == const(None):
            # only refusals
            res4.append((n.loc, None if r == const(None) else [n.id]))
            res4.append((n.loc, _unpassed(g, n, no)))
            continue
        key = dict(a[2]).get('key') if a[0] == 'rec' and \
            a[1].endswith('.LatestEventRef') else None
        ok = key is not None and (known(key) or unage(key) in fresh)
        res4.append((n.loc, None if ok else [n.id]))
        for ids in (kid, did):
            res4.append((n.loc, g.unpreceded(n, lambda m: m.id in ids)))
        # the reference is the one under which the event is kept
        if ok:
            mine_ = {m.id for m in data
                     if unage(m.data['key']) == unage(key)}
            res4.append((n.loc, g.unpreceded(n, lambda m: m.id in mine_)))
        if r == const(None):
            res4.append((n.loc, _unpassed(g, n, assume_block(first))))
            continue
        ok = r[0] == 'tup' and len(r[1]) == 2 and r[1][1] == a and \
            r[1][0][0] == 'a' and r[1][0][2] == 'id' and prev(r[1][0][1])
        res4.append((n.loc, None if ok else [n.id]))
        if ok:
            # looked up before it is replaced
            p = r[1][0][1]
            t = lambda m: m.kind == 'assume' and any(
                x == p for x in m.data['atom'][1:])
            b = g.reach([n], back=True, block=lambda m: m.id in kid)
            res4.append((n.loc, None if not any(t(g.nodes[i]) for i in b) or
                         any(t(g.nodes[i]) for k in kid
                             for i in g.reach([k], back=True) if i != k)
                         else [n.id]))
            res4.append((n.loc, _unpassed(g, n, assume_block(some))))
    once(ctx, 'references-are-told', where, res4, fg=g,
         msg='the reference to the kept or to the replaced event is not '
             'told')
    return names


def _unpassed(g, n, ok):
    """path from the entry to n that never establishes ok"""
    if ok(n):
        return None
    par = g.reach([n], back=True, block=ok)
    if g.entry.id in par:
        return g.path(par, g.entry.id)[::-1]
    return None


def queried(ctx, at):
    prog = ctx.prog
    g = ctx.flow(LD + 'query', outside(prog, LA))
    where = short(g.func.qual)
    params = ('p', g.func.params[1])
    events = lambda t: t[0] == 'a' and t[1] == ('p', 'self') and \
        t[2] == at['LATEST_DATA']
    rets = [n for n in g.nodes if g.is_return(n)]
    objs, res, res2 = set(), [], []
    for n in rets:
        v = n.data['value']
        if v[0] != 'rec' or not v[1].endswith('.QueryResult'):
            raise AnalysisError('unknown query result')
        f = dict(v[2])
        objs.add(unage(f['events']))
        res.append((n.loc, None if f['more_follows'] == const(False)
                    else [n.id]))
    asked = lambda t: any(x == ('a', params, 'event_types', None)
                          for x in subterms(t) if x) or seq_base(
                              t) in local_types
    # sets and lists made of the asked types
    local_types = set()
    for m in g.kind('add'):
        v = m.data['value']
        if m.data['obj'][0] == 'o' and v[0] == 'el' and v[1] == (
                'a', params, 'event_types', None):
            local_types.add(m.data['obj'])
    whole = lambda t: t[0] == 'm' and t[2] == 'values' and events(t[1])
    pairs = lambda t: t[0] == 'm' and t[2] == 'items' and events(t[1])

    def one(t):
        """an event met while walking over all: its key is its type"""
        return t[0] == 'el' and whole(seq_base(t[1])) or t[0] == 'i' and t[
            2] == const(1) and t[1][0] == 'el' and pairs(seq_base(t[1][1]))

    def et(v):
        own = [unage(('a', v, 'type', None))]
        if v[0] == 'i':
            own.append(unage(('i', v[1], const(0), *v[3:])))
        return lambda t: unage(t) in own
    all_ = const('*')
    every = any_lit(
        none_lit(lambda t: t == ('a', params, 'event_types', None)),
        lambda a, b: b and a[0] == 'in' and a[1] == ('tup', (all_, )) and
        asked(a[2]))

    def matched(v):
        return truthy_lit(lambda t: t[0] == 'r' and t[2][:2] == (
            'call', SUB) and et(v)(t[2][-1]) and t[2][2][0] == 'r' and
            t[2][2][2][:2] == ('call', CREATE_SUB) and asked(
                t[2][2][2][2]))

    def exact(v):
        return lambda a, b: b and a[0] == 'in' and et(v)(a[1]) and \
            asked(a[2])
    adds = [m for m in g.kind('add') if unage(m.data['obj']) in objs]
    ctx.need('results', len(adds))
    inner = set()
    for m in adds:
        v = m.data['value']
        if one(v):
            res.append((m.loc, guarded(g, m, v, lambda v: any_lit(
                every, matched(v), exact(v)))))
            continue
        x = lookup(v)
        ok = x is not None and events(x[0]) and x[1][0] == 'el' and \
            asked(x[1][1])
        res.append((m.loc, None if ok else [m.id]))
        if ok:
            res.append((m.loc, guarded(g, m, v, lambda t: any_lit(
                truthy_lit(is_(t)), neg(none_lit(is_(t))),
                lambda a, b: b and a[0] == 'in' and unage(a[1]) == unage(
                    lookup(t)[1]) and events(a[2])))))
            # each type once
            res.append((m.loc, None if distinct(g, x[1]) else [m.id]))
            inner.add(unage(x[1]))
    once(ctx, 'only-asked-events', where, res, fg=g,
         msg='the result has an event whose type was not asked for, has an '
             'event twice, or tells that more follows')
    # completeness
    ids = {m.id for m in adds}
    # containers the result is copied from
    more = True
    while more:
        more = False
        for it in g.kind('iter'):
            o = unage(seq_base(it.data['iter']))
            if o[0] == 'o' and o[1] in LOCAL and o not in objs and any(
                    i in ids for i in g.reach([it], block=g.loop_next(it))):
                more = True
                objs.add(o)
                ids |= {m.id for m in adds_to(g, o)}
    for it in g.kind('iter'):
        if unage(seq_base(it.data['iter'])) in objs:
            res2.append((it.loc, g.skipped(it, lambda m: m.id in ids,
                                           lambda a, b: False)))
            res2.append((it.loc, g.early(it)))
    wild = lambda e: any_lit(
        lambda a, b: b and a[0] == 'in' and a[1] in (
            const('*'), const('?')) and unage(a[2]) == unage(e))
    tested = []
    for it in g.kind('iter'):
        v = it.data['value']
        if v[0] == 'el' and asked(v[1]):
            u = unage(v)
            for c in ('*', '?'):
                t = lambda m, c=c: m.kind == 'assume' and m.data['atom'][
                    0] == 'in' and m.data['atom'][1] == const(c) and unage(
                        m.data['atom'][2]) == u
                # every type is tested before the loop goes on
                tested.append((it, c, g.skipped(it, t, wild(v))))
    plain_ends = {'*': set(), '?': set()}
    for it in {i.ast: i for i, _, _ in tested}.values():
        for c, ends in plain_ends.items():
            if not [p for i, k, p in tested
                    if i.ast is it.ast and k == c and p]:
                ends |= {n.id for n in g.kind('iterend')
                         if n.ast is it.ast}
    all_ends = set.union(*plain_ends.values())
    wildly = set()
    for n in g.nodes:
        if n.kind == 'assume' and n.data['pol'] and n.data['atom'][
                0] == 'in' and n.data['atom'][1] in (
                    const('*'), const('?')) and n.data['atom'][2][
                        0] == 'el' and asked(n.data['atom'][2][1]):
            wildly.add(n.id)

    def plainly(n):
        """path on which an asked type may hold wildcards at n"""
        for ends in plain_ends.values():
            p = g.unpreceded(n, lambda m: m.id in ends)
            if p is not None:
                return p
        par = g.reach(wildly)
        return g.path(par, n.id) if n.id in par else None
    for it in g.kind('iter'):
        v = it.data['value']
        if v[0] == 'el' and pairs(seq_base(v[1])):
            v = ('i', v, const(1), None)
        if one(v):
            m_, e_ = matched(v), exact(v)
            res2.append((it.loc, g.skipped(it, lambda m: m.id in ids,
                                           any_lit(neg(m_), neg(e_)))))
            res2.append((it.loc, g.early(it)))
        elif unage(v) in inner:
            own = [m for m in adds if lookup(m.data['value']) and
                   unage(lookup(m.data['value'])[1]) == unage(v)]
            oid = {m.id for m in own}
            ex = any_lit(*[neg(truthy_lit(is_(m.data['value'])))
                           for m in own],
                         *[none_lit(is_(m.data['value'])) for m in own],
                         lambda a, b: not b and a[0] == 'in' and
                         a[1] == v and events(a[2]))
            if any(i in oid for i in g.reach([it], block=g.loop_next(it))):
                res2.append((it.loc, g.skipped(
                    it, lambda m: m.id in oid, ex)))
                res2.append((it.loc, g.early(it)))
                res2.append((it.loc, plainly(it)))
    for n in g.nodes:
        if n.kind == 'assume' and not n.data['pol'] and n.data['atom'][
                0] == 'in' and asked(n.data['atom'][2]) and \
                (n.data['atom'][1][0] == 'a' and
                 n.data['atom'][1][2] == 'type' or
                 n.data['atom'][1][0] == 'i' and
                 n.data['atom'][1][2] == const(0)):
            res2.append((n.loc, plainly(n)))
    # without types asked for everything is walked over
    for n in rets:
        has = lambda m: m.kind in ('iterend', ) and (
            whole(seq_base(m.data['iter'])) or
            pairs(seq_base(m.data['iter'])) or asked(m.data['iter']) and
            m.id not in all_ends) or m.kind == 'add' and m.id in ids
        res2.append((n.loc, g.unpreceded(n, has)))
    once(ctx, 'asked-events-are-returned', where, res2, fg=g,
         msg='a latest event whose type was asked for is missing')


def distinct(g, el):
    """el goes over distinct values: it is taken from a set"""
    lab = el[2] if len(el) > 2 else None
    s = seq_base(el[1])
    if s[0] == 'o' and s[1] in ('set', 'dict', 'frozenset'):
        return True
    while lab and lab[0] in ('@', '^'):
        lab = lab[1]
    return any(n.kind == 'add' and n.data['obj'][0] == 'o' and
               n.data['obj'][1] in ('set', 'frozenset') and
               unage(n.data['obj'])[2] == lab for n in g.nodes)


def written(ctx, names):
    prog = ctx.prog
    g = ctx.flow(LD + 'ext_write', outside(prog, LA))
    where = short(g.func.qual)
    chg = ('p', g.func.params[2])
    want = {'LATEST_DATA': names['data'], 'LATEST_TYPE': names['types']}
    res = []
    ws = g.calls(EXT_WRITE)
    ctx.need('writes', len(ws))
    for n in ws:
        a = own_args(g, n)
        ok = len(a) == 3 and a[0] == ('p', g.func.params[1]) and \
            a[1][0] == 'g' and a[1][1][len(DB):] in want and _items(
                a[2], ('a', chg, want[a[1][1][len(DB):]], None))
        res.append((n.loc, None if ok else [n.id]))
    for k in want:
        ids = {n.id for n in ws if ('g', DB + k) in own_args(g, n)}
        f = want[k]
        none = assume_block(lambda a, b: a[0] == 'truthy' and not b and
                            a[1][0] == 'a' and a[1][2] == f)
        res.append((g.func.loc, g.unfollowed(
            g.entry, lambda m: m.id in ids, g.is_return,
            lambda m: m.kind in THROW or none(m))))
    once(ctx, 'changes-are-written', where, res, fg=g,
         msg='changes of latest events are written partly, or to another '
             'database')


def _items(t, what):
    t = seq_base(t)
    return t[0] == 'm' and t[2] == 'items' and t[1] == what
