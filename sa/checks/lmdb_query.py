"""LMDB backend: what a timeseries query answers with."""

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .eventer_server2 import THROW
from .lmdb_backend import LM, EXECUTE, own_args, executed
from .lmdb_latest import db_of
from .lmdb_latest import lookup as _lookup
from .lmdb_refs import encoded, decodes, is_len
from .lmdb_series import TS, TD, memo, is_order, cursors, on, positive
from .runners import outside


@check('C27')
def query(ctx):
    prog = ctx.prog
    flt = filter_class(prog)
    roles = filtered(ctx, flt)
    pend, given = asked(ctx, flt, roles)
    for ext, args in pend:
        scanned(ctx, flt, ext, args, *given)


def lookup(t):
    """a lookup, perhaps with nothing as default"""
    if t[0] == 'm' and t[2] == 'get' and len(t[3]) == 2 and t[3][1] in (
            ('tup', ()), const(None)):
        return t[1], t[3][0]
    return _lookup(t)


def filter_class(prog):
    """(class, generator method, other members) of the filter of events"""
    found = []
    for q, f in prog.functions.items():
        if f.is_gen and f.cls and f.cls.qual.startswith(TS) and \
                f.cls.qual + '.' != TD and f.parent is None:
            found.append(f)
    if len(found) != 1:
        raise AnalysisError('the filter of events is not known')
    f = found[0]
    rest = [m for q, m in prog.functions.items() if m.cls is f.cls and
            m is not f and m.name != '__init__' and m.parent is None]
    return f.cls, f, rest


def filtered(ctx, flt):
    """what the filter lets through: role of its attributes"""
    prog = ctx.prog
    cls, f, rest = flt
    g = ctx.flow(f, outside(prog, TS))
    where = short(f.qual)
    throw = lambda m: m.kind in THROW
    evs = ('p', f.params[1])
    its = [it for it in g.kind('iter') if seq_base(it.data['iter']) == evs]
    ctx.need('walks over events', len(its))
    own = lambda t: t[0] == 'a' and t[1] == ('p', 'self')
    roles = {}

    def role(t, name):
        if not own(t) or roles.setdefault(name, t[2]) != t[2]:
            return False
        return True
    # attributes by what they are compared with
    for m in g.kind('assume'):
        a = m.data['atom']
        if a[0] in ('lt', 'le'):
            for x, y, low in ((a[1], a[2], True), (a[2], a[1], False)):
                if x[0] == 'a' and own(y) and x[1][0] == 'el' and x[2] in (
                        'timestamp', 'source_timestamp'):
                    role(y, {('timestamp', True): 't_from',
                             ('timestamp', False): 't_to',
                             ('source_timestamp', True): 'source_t_from',
                             ('source_timestamp', False): 'source_t_to'}[
                                 x[2], low])
        elif a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'a' and x[2] == 'id' and own(y):
                    role(y, 'last_event_id')
        elif a[0] == 'truthy' and a[1][0] == 'r' and a[1][2][0] == 'call' \
                and a[1][2][1].endswith('.matches') and own(a[1][2][2]):
            role(a[1][2][2], 'subscription')
    for n in g.kind('store'):
        v = n.data['value']
        if n.data['base'] == ('p', 'self') and v[:2] == ('op', 'lin'):
            role(('a', ('p', 'self'), n.data['attr']), 'limit')
    for k in ('t_from', 't_to', 'source_t_from', 'source_t_to',
              'last_event_id', 'subscription', 'limit'):
        ctx.need(f'attribute of the filter: {k}', k in roles)
    if len(set(roles.values())) != len(roles):
        raise AnalysisError('attributes of the filter are not told apart')
    at = lambda k: lambda t: own(t) and t[2] == roles[k]
    yields = {n.id: n for n in g.kind('yield')}
    res, res2, res3, res4 = [], [], [], []

    def value(n):
        return unage(n.data['value'])

    def bounds(e):
        """what has to hold for an event: [(name, literal)]"""
        ts = is_(('a', e, 'timestamp', None))
        st = is_(('a', e, 'source_timestamp', None))

        def fits(t, k, low):
            # within the bound, or there is none
            def lit(a, b):
                if a[0] == 'none' and b and at(k)(a[1]):
                    return True
                if a[0] == 'truthy' and not b and at(k)(a[1]):
                    return True
                x, y = (t, at(k)) if low else (at(k), t)
                return a[0] == 'lt' and not b and x(a[1]) and y(a[2]) or \
                    a[0] == 'le' and b and y(a[1]) and x(a[2])
            return lit
        sub = any_lit(
            neg(truthy_lit(at('subscription'))), none_lit(at('subscription')),
            truthy_lit(lambda t: t[0] == 'r' and t[2][0] == 'call' and t[2][
                1].endswith('.matches') and at('subscription')(
                    t[2][2]) and unage(t[2][-1]) == (
                        'a', e, 'type', None)))
        return {'t_from': fits(ts, 't_from', True),
                't_to': fits(ts, 't_to', False),
                'source_t_from': fits(st, 'source_t_from', True),
                'source_t_to': fits(st, 'source_t_to', False),
                'subscription': sub}, st
    starts = lambda m: m.kind == 'iter' and m.id in iid or m.kind == 'entry'
    iid = {it.id for it in its}
    nolast = any_lit(neg(truthy_lit(at('last_event_id'))), none_lit(
        at('last_event_id')))
    last_stores = [n for n in g.kind('store') if n.data['base'] == (
        'p', 'self') and n.data['attr'] == roles['last_event_id']]
    ctx.need('ends of the search for the last event', len(last_stores))
    lids = {n.id for n in last_stores}
    for n in yields.values():
        e = value(n)
        if e[0] != 'el' or seq_base(e[1]) != evs:
            res.append((n.loc, [n.id]))
            continue
        fit, st = bounds(e)
        for k, lit in fit.items():
            b = memo(assume_block(lit))
            q = g.reach([n], back=True, block=b)
            hit = [i for i in q if i in iid]
            res.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
        for k in ('source_t_from', 'source_t_to'):
            # an event without source timestamp is in no range of them
            ok = memo(assume_block(any_lit(
                neg(none_lit(st)), truthy_lit(st),
                none_lit(at(k)), neg(truthy_lit(at(k))))))
            q = g.reach([n], back=True, block=ok)
            hit = [i for i in q if i in iid]
            res.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
    once(ctx, 'only-what-fits-is-told', where, res, fg=g,
         msg='an event outside of the queried range or types is told')
    # the last event and those before it
    same_id = lambda e: eq_lit(is_(('a', e, 'id', None)),
                               at('last_event_id'))
    found = memo(lambda m: m.id in lids or assume_block(nolast)(m))
    for n in yields.values():
        q = g.reach([n], back=True, block=found)
        res3.append((n.loc, g.path(q, 0)[::-1] if 0 in q else None))
    for n in last_stores:
        res3.append((n.loc, None if n.data['value'] == const(None)
                     else [n.id]))
    for n in last_stores:
        es = [unage(it.data['value']) for it in its]
        lit = any_lit(*[same_id(e) for e in es])
        b = memo(assume_block(lit))
        q = g.reach([n], back=True, block=b)
        hit = [i for i in q if i in iid]
        res3.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
        # the event itself is not told again
        q = g.reach([n], block=lambda m: m.id in iid)
        hit = [i for i in q if i in yields]
        res3.append((n.loc, g.path(q, hit[0]) if hit else None))
    # once found it is no longer looked for
    for it in its:
        e = unage(it.data['value'])
        for m in g.kind('assume'):
            if not same_id(e)(m.data['atom'], m.data['pol']):
                continue
            q = g.reach([m], block=lambda x: x.id in lids)
            hit = [i for i in q if i in iid or g.is_return(g.nodes[i])]
            res3.append((m.loc, g.path(q, hit[0]) if hit else None))
    once(ctx, 'continues-after-the-last-event', where, res3, fg=g,
         msg='telling does not begin right after the last event told before')
    # nothing else is left out
    dec = {n.id: n for n in g.kind('store') if n.data['base'] == (
        'p', 'self') and n.data['attr'] == roles['limit']}
    reached, room = limit_tests(g, at('limit'), dec)
    for it in its:
        e = unage(it.data['value'])
        fit, st = bounds(e)
        out = {k: any_lit(*[neg_fit(fit[k])]) for k in fit}

        def unfit(a, b):
            if any(neg(fit[k])(a, b) and not fit[k](a, b) and (
                    a[0] in ('lt', 'le') or k == 'subscription' and
                    a[0] == 'truthy' and a[1][0] == 'r')
                    for k in fit):
                return True
            # an event always has a timestamp
            return truthy_lit(at('last_event_id'))(a, b) or not_none(
                a, b) or none_lit(is_(('a', e, 'timestamp', None)))(a, b)

        def not_none(a, b):
            return a[0] == 'none' and not b and at('last_event_id')(a[1])

        # an event without source timestamp is left out if one is asked for
        bare = any_lit(none_lit(st), neg(truthy_lit(st)))
        ranged = lambda a, b: (a[0] == 'none' and not b or a[0] == 'truthy'
                               and b) and (at('source_t_from')(a[1]) or
                                           at('source_t_to')(a[1]))
        for lit in (bare, ranged):
            ok = any_lit(unfit, lit)
            has = memo(lambda m, ok=ok: any(
                ok(a, b) for a, b in m.facts or ()))
            res2.append((it.loc, g.skipped(
                it, lambda m: m.id in yields or m.id in reached or has(m),
                ok)))
        res2.append((it.loc, g.early(it, at=lambda m: m.id in reached)))
    once(ctx, 'what-fits-is-told', where, res2, fg=g,
         msg='an event in the queried range and of queried type is left out')
    # the number of told events
    for n in dec.values():
        v = n.data['value']
        ok = v[:2] == ('op', 'lin') and len(v[3]) == 1 and v[3][0][1] == 1 \
            and (at('limit')(v[3][0][0]) or _wide(v[3][0][0])) and v[2] < 0 \
            or _wide(v)
        res4.append((n.loc, None if ok else [n.id]))
        # by one, for a single event
        k = v[2] if v[:2] == ('op', 'lin') else None
        for i in _last(g, n, dec):
            p = dec[i].data['value'] if i else None
            ok = k is None or (k == -1 if i == 0 or _wide(v[3][0][0]) else
                               p[:2] == ('op', 'lin') and k == p[2] - 1)
            res4.append((n.loc, None if ok else [i, n.id]))
    stop = {*yields, *dec}
    for n in yields.values():
        b = lambda m: m.id in room or m.id in yields and m is not n
        q = g.reach([n], back=True, block=b)
        res4.append((n.loc, g.path(q, 0)[::-1] if 0 in q else None))
        hit = [i for i in q for j in _ids(g.nodes[i].pred)
               if j in yields and j not in room]
        res4.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
        # counted in the same step
        q = g.reach([n], block=lambda m: m.id in dec)
        after = [i for i in q if i in iid or g.is_return(g.nodes[i])]
        q = g.reach([n], back=True, block=lambda m: m.id in dec)
        before = [i for i in q if i in iid]
        res4.append((n.loc, None if not after or not before else [n.id]))
    for n in dec.values():
        # a counted event is told
        q = g.reach([n], block=lambda m: m.id in yields or m.id in iid)
        un = [i for i in q for j in _ids(g.nodes[i].succ) if j in iid]
        q0 = g.reach([n], back=True, block=lambda m: m.id in yields or
                     m.id in iid)
        pv = [i for i in {*q0, n.id} for j in _ids(g.nodes[i].pred)
              if j in iid]
        res4.append((n.loc, g.path(q, un[0]) if un and pv else None))
    once(ctx, 'told-events-are-counted', where, res4, fg=g,
         msg='more events than the limit are told, or told events are not '
             'counted')
    # what tells that the limit is reached
    res5 = []
    for m in rest:
        h = ctx.flow(m, outside(prog, TS))
        if not any(limit_lit(n.data['atom'], n.data['pol'], at('limit'))
                   for n in h.kind('assume')):
            continue
        for n in h.nodes:
            if not h.is_return(n):
                continue
            v = n.data['value']
            for c, is_room in ((const(True), False), (const(False), True)):
                if v == c:
                    res5.append((n.loc, h.unheld(
                        n, lambda a, b: limit_lit(a, b, at('limit')) == (
                            0, is_room), set())))
    once(ctx, 'limit-is-told', short(cls.qual), res5 or [(f.loc, None)],
         msg='the filter tells to be done before its limit is reached')
    return roles


def asked(ctx, flt, roles):
    """the partition that is asked, pending events and the result"""
    prog = ctx.prog
    cls, fm, rest = flt
    g = ctx.flow(TD + 'query', outside(prog, TS) | {m.qual for m in rest},
                 stand_ins=((fm.qual, 'passing'), ))
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    params = ('p', g.func.params[1])
    par = lambda f: ('a', params, f, None)
    own = lambda t: t[0] == 'a' and t[1] == ('p', 'self')
    T, S = ('TIMESTAMP', 'SOURCE_TIMESTAMP')
    execs = g.calls(EXECUTE)
    ctx.need('database queries', len(execs))
    exts = {executed(n) for n in execs}
    if len(exts) != 1 or callee_of(prog, list(exts)[0]) is None:
        raise AnalysisError('the query function is not known')
    ext = callee_of(prog, exts.pop())
    # the partition
    its = [it for it in g.kind('iter') if it.data['value'][0] == 'el' and
           it.data['value'][1][0] == 'm' and it.data['value'][1][2] ==
           'items' and own(it.data['value'][1][1])]
    ctx.need('walks over partitions', len(its))
    e = unage(its[0].data['value'])
    pid, part = ('i', e, const(0), None), ('i', e, const(1), None)
    subs = {n.data['res'] for n in g.kind('call') if n.data[
        'callee'].endswith('create_subscription') and n.data['args'][:1] == (
            par('event_types'), )}
    sub = lambda t: t in subs or t[0] == 'r' and t[2][0] == 'call' and \
        t[2][1].endswith('create_subscription') and t[2][2] == par(
            'event_types')
    ordered = eq_lit(is_(('a', part, 'order_by', None)), is_(par(
        'order_by')))
    apart = truthy_lit(lambda t: t[0] == 'r' and t[2][0] == 'call' and t[2][
        1].endswith('isdisjoint') and {unage(x) for x in t[2][2:]} >= {
            unage(('a', part, 'subscription', None))} and any(
                sub(x) for x in t[2][2:]))
    all_types = any_lit(none_lit(sub), neg(truthy_lit(sub)), none_lit(is_(
        par('event_types'))))
    together = any_lit(neg(apart), all_types)
    new = [n for n in g.kind('new') if n.data['cls'] == cls.qual]
    ctx.need('filters made', len(new))
    used = {n.id for n in new}
    res = []
    for it in its:
        nxt = g.loop_next(it)
        skip = assume_block(any_lit(neg(ordered), apart))
        q = g.reach([it], block=lambda m: m.id in used or skip(m) or
                    throw(m))
        bad = [i for i in q if i != it.id and (
            nxt(g.nodes[i]) or g.is_return(g.nodes[i]) and len(
                g.nodes[i].frame) == 0)]
        res.append((it.loc, g.path(q, bad[0]) if bad else None))
    for n in new:
        for lit in (ordered, together):
            res.append((n.loc, g.unheld(n, lit, set())))
        # the first one is used
    ends = {n.id for n in g.kind('iterend') if any(
        n.ast is it.ast for it in its)}
    empty = lambda v: v[0] == 'rec' and dict(v[2])['more_follows'] == const(
        False) and dict(v[2])['events'] in (('tup', ()), ) or _no_events(
            g, v)
    rets = [n for n in g.nodes if g.is_return(n) and len(n.frame) == 0]
    for n in rets:
        q = g.reach([n], back=True, block=lambda m: m.id in used)
        if 0 in q:
            v = n.data['value']
            res.append((n.loc, None if empty(v) else g.path(q, 0)[::-1]))
            q = g.reach([n], back=True, block=lambda m: m.id in used or
                        m.id in ends)
            res.append((n.loc, g.path(q, 0)[::-1] if 0 in q else None))
    for n in new:
        q = g.reach([n], block=lambda m: False)
        again = [it for it in its if it.id in q]
        res.append((n.loc, g.path(q, again[0].id) if again else None))
    once(ctx, 'first-suitable-partition-is-queried', where, res, fg=g,
         msg='other than the first partition with the queried order and '
             'types is queried')
    # what the filter is given
    mrs = {}
    res2 = []
    for n in new:
        given = {}
        q = g.reach([n], block=lambda m: m.kind in ('suspend', 'iter'))
        for i in q:
            m = g.nodes[i]
            if m.kind == 'store' and m.data['base'] == n.data['value']:
                given.setdefault(m.data['attr'], set()).add(m.data['value'])
        for k, at in roles.items():
            vs = given.get(at, set())
            if k == 'limit':
                ok = all(v[:2] == ('op', 'lin') and v[2] >= 1 and len(
                    v[3]) == 1 and v[3][0][1] == 1 for v in vs)
                mrs.setdefault(n.id, set()).update(
                    v[3][0][0] for v in vs if ok)
            elif k == 'subscription':
                ok = all(sub(v) or v == const(None) for v in vs)
                if const(None) in vs:
                    for m in (g.nodes[i] for i in q):
                        if m.kind == 'store' and m.data['base'] == n.data[
                                'value'] and m.data['attr'] == at and \
                                m.data['value'] == const(None):
                            res2.append((m.loc, g.unheld(m, none_lit(is_(
                                par('event_types'))), set())))
            else:
                ok = vs == {par(k)}
            res2.append((n.loc, None if ok and vs else [n.id]))
    cap = lambda t: own(t)
    limits = set().union(*mrs.values()) if mrs else set()
    asked_ = par('max_results')
    fits = any_lit(
        lambda x, b: x[0] in ('lt', 'le') and b and x[1] == asked_ and
        cap(x[2]), lambda x, b: x[0] in ('lt', 'le') and not b and
        cap(x[1]) and x[2] == asked_)
    for n in g.kind('store'):
        if n.data['attr'] != roles['limit'] or n.data['base'] not in {
                m.data['value'] for m in new}:
            continue
        v = n.data['value']
        mr = v[3][0][0] if v[:2] == ('op', 'lin') and v[3] else None
        if mr == asked_:
            res2.append((n.loc, g.unheld(n, fits, set())))
            res2.append((n.loc, g.unheld(n, neg(none_lit(is_(asked_))),
                                         set())))
        elif mr and cap(mr):
            res2.append((n.loc, g.unheld(n, any_lit(
                none_lit(is_(asked_)), neg(fits)), set())))
        else:
            a = call_args(mr, 'min') or (
                mr[2:] if mr[:2] == ('op', 'min') else ()) if mr else ()
            ok = any(x == asked_ for x in a) and any(cap(x) for x in a) and \
                len(a) == 2
            res2.append((n.loc, None if ok else [n.id]))
    once(ctx, 'filter-is-as-asked', where, res2, fg=g,
         msg='the range, types, last event or limit that events are chosen '
             'by is not the one asked for')
    pending(ctx, g, where, params, pid, new, execs, flt)
    results(ctx, g, where, execs, limits, params, flt, used)
    return _queries(g, ext, execs), (params, unage(pid))


def _no_events(g, v):
    """a result without events"""
    if v[0] != 'rec' or not v[1].endswith('.QueryResult'):
        return False
    f = dict(v[2])
    return f['more_follows'] == const(False) and f['events'][0] == 'o' and \
        not adds_to(g, f['events'])


def _queries(g, ext, execs):
    """arguments the executed function is given"""
    r = []
    for n in execs:
        a = own_args(g, n)[1:]
        args = tuple(zip(ext.params, a))
        if args not in [x[1] for x in r]:
            r.append((ext, args))
    return r


def direction(order):
    """literals of the directions"""
    kind = lambda k: eq_lit(is_(order), lambda t: t[0] == 'g' and t[
        1].endswith('Order.' + k))
    return {k: any_lit(kind(k), neg(kind(o))) for k, o in (
        ('DESCENDING', 'ASCENDING'), ('ASCENDING', 'DESCENDING'))}


def by(order_by):
    kind = lambda k: eq_lit(is_(order_by), lambda t: is_order(t, k))
    return {k: any_lit(kind(k), neg(kind(o))) for k, o in (
        ('TIMESTAMP', 'SOURCE_TIMESTAMP'),
        ('SOURCE_TIMESTAMP', 'TIMESTAMP'))}


def pending(ctx, g, where, params, pid, new, execs, flt):
    prog = ctx.prog
    throw = lambda m: m.kind in THROW
    par = lambda f: ('a', params, f, None)
    way, kind = direction(par('order')), by(par('order_by'))
    chg = lambda t: t[0] == 'a' and t[1] == ('p', 'self')

    def changes(t):
        """changes of the partition: the attribute they are taken from"""
        x = lookup(t)
        if x and chg(x[0]) and same(x[1], pid):
            return x[0]
        return None

    def source(t):
        """(changes, sorted, reversed) a walk goes over"""
        rev = srt = False
        while True:
            if t[0] == 'op' and t[1] == 'reversed':
                rev = not rev
                t = t[2]
            elif t[0] == 'r' and t[2][:2] == ('call', 'sorted'):
                srt, flip = _sorting(ctx, prog, t[2][3:])
                rev = rev != flip
                t = t[2][2]
            elif t[0] == 'op' and t[1] == 'sorted':
                srt, flip = _sorting(ctx, prog, t[3:])
                rev = rev != flip
                t = t[2]
            elif seq_base(t) != t:
                t = seq_base(t)
            elif t[0] == 'o':
                # a list made of it, perhaps sorted or turned since
                xs = [x for x in adds_to(g, t)]
                if len({unage(x.data['value']) for x in xs}) != 1 or xs[
                        0].data['value'][0] != 'el':
                    return None
                for m in g.kind('call'):
                    if m.data['base'] is not None and unage(
                            m.data['base']) == unage(t):
                        if m.data['callee'] == '.sort':
                            srt, flip = _sorting(ctx, prog, tuple(
                                ('kwarg', *kv) for kv in m.data['kws']))
                            rev = flip
                        elif m.data['callee'] == '.reverse':
                            rev = 'called'
                t = xs[0].data['value'][1]
            else:
                break
        return (changes(t), srt, rev, t) if changes(t) else None
    its = [it for it in g.kind('iter') if any(
        changes(x) for x in subterms(it.data['iter']) if x) or it.data[
            'iter'][0] == 'o' and source(it.data['iter'])]
    ctx.need('walks over pending events', len(its))
    res, res2, res3 = [], [], []
    evs = set()
    walks = []
    for it in its:
        s = source(it.data['iter'])
        if s is None:
            res.append((it.loc, [it.id]))
            continue
        c, srt, rev, t = s
        turned = {m.id for m in g.calls('.reverse') if m.data[
            'base'] is not None and unage(m.data['base']) in {
                unage(x) for x in subterms(it.data['iter']) if x}}
        if turned and rev is False:
            rev = 'called'
        # taken before the database is asked
        late = c[3] and c[3][1]
        res.append((it.loc, [it.id] if late else None))
        el = it.data['value']
        if not srt:
            used = True
        res2.append((it.loc, None if srt else [it.id]))
        if rev == 'called':
            q = g.reach([it], back=True, block=lambda m: m.id in turned)
            with_ = any(_ids(g.nodes[i].pred) and any(
                j in turned for j in _ids(g.nodes[i].pred)) for i in q)
            res2.append((it.loc, g.unheld(it, way[
                'DESCENDING' if with_ else 'ASCENDING'], set())))
        elif isinstance(rev, tuple):
            ok = rev[1:] and rev[0] == 'cmp'
            isd = eq_lit(is_(par('order')), lambda x: x[0] == 'g' and x[
                1].endswith('Order.DESCENDING'))
            res2.append((it.loc, None if rev[1:3] and _means(
                rev, isd) else [it.id]))
        else:
            res2.append((it.loc, g.unheld(it, way[
                'DESCENDING' if rev else 'ASCENDING'], set())))
        walks.append((it, el))
    passes = {}
    for n in g.kind('call'):
        if n.loc.startswith('<models>') and len(n.data['args']) == 2:
            passes.setdefault(unage(n.data['args'][1]), set()).add(n.id)
    done = truthy_lit(lambda t: t[0] == 'r' and t[2][0] == 'call' and any(
        t == n.data['res'] for n in g.kind('call')
        if n.loc.startswith('<models>') and len(n.data['args']) == 1))
    for it, el in walks:
        ev = unage(('i', el, const(1), None))
        first = is_(('i', el, const(0), None))
        ts, st = (is_(('a', ev, x, None)) for x in (
            'timestamp', 'source_timestamp'))
        evs.add(ev)
        ids = passes.get(ev, set())
        res3.append((it.loc, None if ids else [it.id]))
        # beyond the asked range: by which timestamp, at which end
        beyond = {}
        for k, t, pre in (('TIMESTAMP', ts, ''),
                          ('SOURCE_TIMESTAMP', st, 'source_')):
            frm, to = is_(par(pre + 't_from')), is_(par(pre + 't_to'))
            # the partition's timestamp
            for u in (t, first):
                beyond[k, 'low', u is first] = _lt(u, frm)
                beyond[k, 'high', u is first] = _lt(to, u)
        out = {m.id: [x for x, lit in beyond.items() if lit(
            m.data['atom'], m.data['pol'])] for m in g.kind('assume')}
        out = {i: x for i, x in out.items() if x}
        isdone = memo(assume_block(done))
        nxt = g.loop_next(it)
        # left out: beyond the range
        res3.append((it.loc, g.skipped(
            it, lambda m: m.id in ids or m.id in out or isdone(m),
            lambda a, b: False)))
        # the walk ends beyond the far end of the range
        res3.append((it.loc, g.early(it, at=lambda m: m.id in out or
                                     isdone(m))))
        reach = g.reach([it], block=lambda m: nxt(m) or m.id in ids or
                        throw(m))
        for i in reach:
            if i not in out:
                continue
            m = g.nodes[i]
            q = g.reach([m], block=lambda x: nxt(x) or throw(x))
            ends = any(g.nodes[j].kind == 'loopexit' and g.nodes[j].ast is
                       it.ast and g.nodes[j].frame == it.frame or
                       g.is_return(g.nodes[j]) and len(
                           g.nodes[j].frame) == 0 for j in q)
            told = [j for j in q if j in ids]
            for k, end, f in out[i]:
                if f:
                    res3.append((m.loc, g.unheld(m, kind[k], set())))
            if ends:
                ok = False
                for k, end, f in out[i]:
                    d = 'DESCENDING' if end == 'low' else 'ASCENDING'
                    ok = ok or not g.unheld(
                        m, kind[k], set()) and not g.unheld(
                            m, way[d], set())
                res3.append((m.loc, None if ok else [m.id]))
    once(ctx, 'pending-events-of-the-partition', where, res, fg=g,
         msg='pending events are not those of the partition from before the '
             'database was asked')
    once(ctx, 'pending-events-in-order', where, res2, fg=g,
         msg='pending events are not told in order of partition\'s '
             'timestamps')
    once(ctx, 'pending-events-of-the-range', where, res3, fg=g,
         msg='a pending event in the queried range is left out')
    g.pending = (evs, walks)


def _lt(x, y):
    """x is less than y"""
    return lambda a, b: a[0] == 'lt' and b and x(a[1]) and y(a[2]) or \
        a[0] == 'le' and not b and y(a[1]) and x(a[2])


def _means(t, lit):
    """the boolean is true exactly if the literal holds"""
    if t[0] == 'cmp':
        op, a, b = t[2], t[3], t[4]
        for x in (('eq', a, b), ('eq', b, a)):
            if lit(x, True):
                return op in ('==', 'is')
    return False


def _sorting(ctx, prog, extra):
    """(sorted by timestamp, reversed) by the arguments of a sort"""
    key, rev = None, False
    for x in extra:
        if x and x[0] == 'kwarg':
            if x[1] == 'key':
                key = x[2]
            elif x[1] == 'reverse':
                rev = x[2]
        elif x and isinstance(x, tuple):
            return False, False
    rev = {const(True): True, const(False): False}.get(rev, rev)
    if key is None:
        return True, rev
    f = callee_of(prog, key)
    if f is None:
        return key[0] == 'r' and 'itemgetter' in show(key) and key[2][
            -2:] == (const(0), const(1)), rev
    g = ctx.flow(f, outside(prog, TS))
    p = ('p', f.params[0])
    vs = {unage(n.data['value']) for n in g.nodes if g.is_return(n)}
    ts, ev = ('i', p, const(0), None), ('i', p, const(1), None)

    def good(v):
        # equal timestamps are ordered as rows are: by the event id
        if v[0] != 'tup':
            return v == p
        return bool(v[1]) and v[1][0] == ts and v[1][1:] in (
            (('a', ev, 'id', None), ), (ev, ))
    return len(vs) == 1 and good(vs.pop()), rev


def results(ctx, g, where, execs, limits, params, flt, used):
    cls, fm, rest = flt
    throw = lambda m: m.kind in THROW
    par = lambda f: ('a', params, f, None)
    way = direction(par('order'))
    evs, walks = g.pending
    stored = lambda v: v[0] == 'el' and any(unage(seq_base(v[1])) == unage(
        n.data['res']) for n in execs)
    rets = [n for n in g.nodes if g.is_return(n) and len(n.frame) == 0]
    rets = [n for n in rets if n.data['value'][0] == 'rec' and not
            _no_events(g, n.data['value'])]
    ctx.need('results', len(rets))
    res, res2, res3 = [], [], []
    lists = set()
    cuts = {n.ast: n.data['bound'] for n in g.enters('$models.islice')}
    for n in rets:
        o = dict(n.data['value'][2])['events']
        lists.add(unage(o))
        for m in adds_to(g, o):
            v = m.data['value']
            if m.ast in cuts:
                lists.add(unage(cuts[m.ast]['it']))
            if v[0] == 'el' and seq_base(v[1])[0] == 'op' and seq_base(
                    v[1])[1].endswith('islice'):
                lists.add(unage(seq_base(seq_base(v[1])[2])))
            elif v[0] == 'el' and seq_base(v[1])[0] == 'o':
                lists.add(unage(seq_base(v[1])))
    adds = [m for m in g.kind('add') if unage(m.data['obj']) in lists]
    kinds = {}
    for m in adds:
        v = unage(m.data['value'])
        ends = 'front' if m.data['how'].endswith('left') or m.data[
            'how'] == 'insert' else 'back'
        if m.ast in cuts:
            kinds[m.id] = 'same', ends
        elif v in evs:
            kinds[m.id] = 'pending', ends
        elif stored(m.data['value']):
            kinds[m.id] = 'stored', ends
        elif v[0] == 'el' and unage(seq_base(v[1])) in lists or \
                m.data['how'] == 'copy' or 'islice' in show(v):
            kinds[m.id] = 'same', ends
        else:
            res.append((m.loc, [m.id]))
    own = {i for i, (k, e) in kinds.items() if k == 'pending'}
    dbs = {n.id for n in execs}
    # a passing event is told
    for it, el in walks:
        ev = unage(('i', el, const(1), None))
        ps = [n for n in g.kind('call') if n.loc.startswith('<models>') and
              len(n.data['args']) == 2 and unage(n.data['args'][1]) == ev]
        rs = {n.data['res'] for n in ps}
        pas = truthy_lit(lambda t: unage(t) in {unage(r) for r in rs})
        for m in adds:
            if m.id in own and unage(m.data['value']) == ev:
                res.append((m.loc, g.unheld(m, pas, set())))
        for m in g.kind('assume'):
            if pas(m.data['atom'], m.data['pol']) and any(
                    m.id in g.succs(p) if hasattr(g, 'succs') else True
                    for p in ps):
                q = g.reach([m], block=lambda x: x.id in own or throw(x))
                nxt = g.loop_next(it)
                hit = [i for i in q if i != m.id and (nxt(
                    g.nodes[i]) or g.is_return(g.nodes[i]) and len(
                        g.nodes[i].frame) == 0)]
                hit = [i for i in hit if g.nodes[i].kind != 'iter' or
                       g.nodes[i].ast is it.ast]
                res.append((m.loc, g.path(q, hit[0]) if hit else None))
    # both are asked, unless the limit is reached
    flt_done = {n.id for n in g.kind('assume') if n.data['pol'] and
                n.data['atom'][0] == 'truthy' and _is_done(
                    g, n.data['atom'][1], rest)}
    full = memo(assume_block(lambda a, b: _full(a, b, lists, limits)))
    walked = {it.id for it, _ in walks} | {
        n.id for n in g.kind('iterend') if any(
            n.ast is it.ast for it, _ in walks)}
    nothing = memo(assume_block(lambda a, b: (
        a[0] == 'truthy' and not b or a[0] == 'none' and b) and any(
            lookup(x) is not None and lookup(x)[0][0] == 'a' and
            lookup(x)[0][1] == ('p', 'self')
            for x in subterms(a[1]) if x) or a[0] == 'in' and not b and
        a[2][0] == 'a' and a[2][1] == ('p', 'self')))
    for n in rets:
        for ids in (dbs, walked):
            q = g.reach([n], back=True, block=lambda m: m.id in ids or
                        m.id in flt_done or full(m) or
                        ids is walked and nothing(m))
            hit = [i for i in q if i in used]
            res2.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
    for n in execs:
        # what was read is told
        got = {i for i, (k, e) in kinds.items() if k == 'stored'}
        res2.append((n.loc, g.unfollowed(
            n, lambda m: m.id in got, lambda m: g.is_return(m) and
            len(m.frame) == 0, throw)))
        res2.append((n.loc, _again(g, n, dbs)))
    # which is told first
    for i, (k, end) in kinds.items():
        if k == 'same':
            continue
        before = g.reach([g.nodes[i]], back=True)
        for j, (k2, _) in kinds.items():
            if k2 in ('same', k) or j not in before:
                continue
            # j was there before: k2 is told before k if k goes to the back
            first = k2 if end == 'back' else k
            d = 'DESCENDING' if first == 'pending' else 'ASCENDING'
            res3.append((g.nodes[i].loc, g.unheld(g.nodes[i], way[d],
                                                  set())))
    once(ctx, 'chosen-events-are-told', where, res, fg=g,
         msg='an event that the filter lets through is not told, or one '
             'that it does not is')
    once(ctx, 'pending-and-stored-events-are-told', where, res2, fg=g,
         msg='stored or pending events are left out though the limit is not '
             'reached')
    once(ctx, 'newer-ones-are-pending', where, res3, fg=g,
         msg='pending events are told before stored ones in ascending or '
             'after them in descending order')
    merged = any(n.data['callee'].split('.')[-1] in (
        'merge', 'sorted', 'sort') and any(
            unage(x) in lists or stored(('el', x, None))
            for a in (*n.data['args'], n.data['base'] or ())
            for x in subterms(a) if x) for n in g.kind('call'))
    ctx.ob('pending-events-are-merged', short(TD + '_query_partition'),
           merged, g.func.loc,
           'pending events are told all before or all after the stored ones '
           'though their timestamps may be anywhere among them', [])
    limited(ctx, g, where, rets, lists, limits, kinds)


def _again(g, n, dbs):
    q = g.reach(n.succ, block=lambda m: m.kind in THROW)
    hit = [i for i in q if i in dbs]
    return g.path(q, hit[0]) if hit else None


def _is_done(g, t, rest):
    names = {m.name for m in rest}
    return t[0] == 'a' and t[2] in names or t[0] == 'r' and t[2][
        0] == 'call' and t[2][1].split('.')[-1] in names


def _full(a, b, lists, limits):
    p = positive(a, b)
    if p is None or len(p[0]) != 2:
        return False
    d, k = p
    ln = [t for t, c in d.items() if c == 1 and is_len(
        t, lambda o: unage(seq_base(o)) in lists)]
    lm = [t for t, c in d.items() if c == -1 and t in {
        unage(x) for x in limits}]
    # len > limit
    return len(ln) == 1 and len(lm) == 1 and k <= 0


def limited(ctx, g, where, rets, lists, limits, kinds):
    cuts = {n.ast: n.data['bound'] for n in g.enters('$models.islice')}
    res = []
    lims = {unage(x) for x in limits}

    def over(a, b, pol=True):
        if not pol:
            b = not b
        p = positive(a, b)
        if p is None or len(p[0]) != 2:
            return False
        d, k = p
        ln = [t for t, c in d.items() if c == 1 and is_len(
            t, lambda o: unage(seq_base(o)) in lists)]
        lm = [t for t, c in d.items() if c == -1 and t in lims]
        return len(ln) == 1 and len(lm) == 1 and k == 0
    isover = memo(assume_block(over))
    notover = memo(assume_block(lambda a, b: over(a, b, False)))
    pops = {n.id for n in g.kind('call') if n.data['callee'] in (
        '.pop', '.popleft', '.clear') and n.data['base'] is not None and
        unage(n.data['base']) in lists}
    for i in pops:
        n = g.nodes[i]
        # only the last one, above the limit
        ok = n.data['callee'] == '.pop' and not own_args(g, n)
        res.append((n.loc, None if ok else [n.id]))
        q = g.reach([n], back=True, block=isover)
        hit = [j for j in q if j in pops and j != i or j in kinds]
        res.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
    for n in rets:
        f = dict(n.data['value'][2])
        o, more = f['events'], f['more_follows']
        cut = None
        if o[0] == 'o':
            for m in adds_to(g, o):
                v = m.data['value']
                if m.ast in cuts:
                    cut = ('op', 'islice', cuts[m.ast]['it'],
                           cuts[m.ast]['n'])
                elif v[0] == 'el' and 'islice' in show(v) or m.data[
                        'how'] == 'copy':
                    cut = v
        elif o[0] == 'op':
            cut = o
        if cut is not None:
            b = seq_base(cut[1]) if cut[0] == 'el' else cut
            top = [y for y in b[3:] if y != const(None) and y != const(0)] \
                if b[0] == 'op' else None
            res.append((n.loc, None if top is not None and len(
                top) == 1 and unage(top[0]) in lims else [n.id]))
        else:
            # nothing above the limit is left
            nomore = neg(truthy_lit(is_(more)))
            q = g.reach([n], back=True, block=lambda m: notover(
                m) or m.kind == 'assume' and nomore(m.data['atom'],
                                                    m.data['pol']))
            hit = [j for j in q if j in kinds]
            res.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
        first = lambda m: m.id in pops
        if more in (const(True), const(False)):
            # tested before any is removed
            t = isover if more == const(True) else notover
            q = g.reach([n], back=True, block=t)
            hit = [j for j in q if j in kinds and kinds[j][0] != 'same']
            res.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
            if more == const(False):
                q = g.reach([n], back=True, block=lambda m: m.id in kinds and
                            kinds[m.id][0] != 'same')
                hit = [j for j in q if j in pops]
                res.append((n.loc, g.path(q, hit[0])[::-1]
                            if hit else None))
        elif more[0] == 'cmp' or more[:2] == ('op', 'lt'):
            res.append((n.loc, None))
        else:
            # either, as tested before any is removed
            q = g.reach([n], back=True, block=lambda m: m.kind == 'assume'
                        and (isover(m) or notover(m)) and not any(
                            j in pops for j in _before(g, m, kinds)))
            hit = [j for j in q if j in kinds and kinds[j][0] != 'same']
            res.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
    once(ctx, 'results-are-limited', where, res, fg=g,
         msg='more events than the limit are told, others than the last are '
             'cut off, or it is not told truly whether more follow')


def _before(g, m, kinds):
    return g.reach([m], back=True, block=lambda x: x.id in kinds and
                   kinds[x.id][0] != 'same')


MAX = (1 << 64) - 1


def scanned(ctx, flt, ext, args, params, pid):
    """rows of the partition that are read"""
    prog = ctx.prog
    cls, fm, rest = flt
    args = dict(args)
    types = {}
    for k, v in args.items():
        if v[0] == 'o' and v[1].endswith(cls.qual):
            args[k] = ('p', k)
            types[k] = ('cls', cls.qual)
    g = ctx.flow(ext, outside(prog, TS) | {m.qual for m in rest}, args=args,
                 entry_types=types, stand_ins=((fm.qual, 'passing'), ))
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    par = lambda f: ('a', params, f, None)
    way, kind = direction(par('order')), by(par('order_by'))
    curs = {unage(n.data['res']): n for n in g.kind('call')
            if n.data['callee'].endswith('cursor')}
    name = 'TIMESERIES_DATA'
    seeks = on(g, curs, name, '.set_range', '.set_key', '.get')
    ctx.need('searches', len(seeks))
    steps = on(g, curs, name, '.next', '.prev', '.first', '.last')
    sid, mid = {n.id for n in seeks}, {n.id for n in seeks + steps}

    def keyt(t):
        if t[0] == 'op' and t[1] == 'bytes':
            t = t[2]
        if t[0] == 'm' and t[2] == 'key' and unage(t[1]) in curs:
            return t[-1][0] if t[-1] else None
        return None

    def bound(t):
        """(end, timestamp) of an encoded key of the partition"""
        k = encoded(t, 'encode_key')
        if k is None or k[0] != 'tup' or len(k[1]) != 3 or not same(
                k[1][0], pid) or k[1][2][0] != 'rec':
            return None
        vs = {v for _, v in k[1][2][2]}
        end = {(const(0), ): 'low', (const(MAX), ): 'high'}.get(tuple(vs))
        return (end, k[1][1]) if end else None

    def bounds(m, end, t):
        """the timestamp is the one asked for"""
        f = 't_from' if end == 'low' else 't_to'
        unset = lambda x: any_lit(none_lit(is_(x)), neg(truthy_lit(is_(x))))
        if t[0] == 'g' and t[1].endswith(
                '.min_timestamp' if end == 'low' else '.max_timestamp'):
            return g.unheld(m, any_lit(
                unset(par(f)), kind['SOURCE_TIMESTAMP']), set()) or \
                g.unheld(m, any_lit(unset(par('source_' + f)),
                                    kind['TIMESTAMP']), set())
        if t == par(f):
            return g.unheld(m, kind['TIMESTAMP'], set())
        if t == par('source_' + f):
            return g.unheld(m, kind['SOURCE_TIMESTAMP'], set())
        return [m.id]
    res, res2, res3 = [], [], []
    for n in seeks:
        a = own_args(g, n)
        x = bound(a[0]) if a and n.data['callee'] == '.set_range' else None
        if x is None:
            res.append((n.loc, [n.id]))
            continue
        end, t = x
        res.append((n.loc, bounds(n, end, t)))
        res.append((n.loc, g.unheld(n, way[
            'ASCENDING' if end == 'low' else 'DESCENDING'], set())))
    for n in steps:
        c = n.data['callee']
        ok = c in ('.next', '.prev', '.last')
        res.append((n.loc, None if ok else [n.id]))
        res.append((n.loc, g.unheld(n, way[
            'ASCENDING' if c == '.next' else 'DESCENDING'], set())))
    found = lambda n: truthy_lit(is_(unage(n.data['res'])))

    def movedto(n):
        r = unage(n.data['res'])
        return truthy_lit(lambda t: unage(t) == r)
    reads = set()
    out = {unage(seq_base(n.data['value'])) for n in g.nodes
           if g.is_return(n) and len(n.frame) == 0}
    adds = [n for n in g.kind('add') if unage(n.data['obj']) in out]
    ctx.need('events read', len(adds))
    aid = {n.id for n in adds}
    # the far end of the range
    tests = {}
    for m in g.kind('assume'):
        a = m.data['atom']
        if a[0] not in ('lt', 'le'):
            continue
        for x, y, left in ((a[1], a[2], True), (a[2], a[1], False)):
            if keyt(x) is not None and bound(y):
                end, t = bound(y)
                res.append((m.loc, bounds(m, end, t)))
                res.append((m.loc, g.unheld(m, way[
                    'ASCENDING' if end == 'high' else 'DESCENDING'], set())))

    def inside(a, b):
        """(version of the key, whether it is within the far end)"""
        if a[0] not in ('lt', 'le'):
            return None
        for x, y, left in ((a[1], a[2], True), (a[2], a[1], False)):
            v = keyt(x)
            if v is None or not bound(y):
                continue
            end = bound(y)[0]
            if end == 'high' and left and a[0] == 'le':
                return v, b
            if end == 'high' and not left and a[0] == 'lt':
                return v, not b
            if end == 'low' and not left and a[0] == 'le':
                return v, b
            if end == 'low' and left and a[0] == 'lt':
                return v, not b
        return None
    nomore = truthy_lit(lambda t: any(
        t == n.data['res'] for n in g.kind('call')
        if n.loc.startswith('<models>') and len(n.data['args']) == 1))
    calls2 = [n for n in g.kind('call') if n.loc.startswith('<models>') and
              len(n.data['args']) == 2]
    presults = {unage(n.data['res']) for n in calls2}
    passed = truthy_lit(lambda t: unage(t) in presults)

    def cond_of(t):
        if t[0] == 'm' and t[2] == 'matches':
            o, x = t[1], t[3][-1]
        elif t[0] == 'r' and t[2][0] == 'call' and t[2][1].endswith(
                'matches'):
            o, x = t[2][2], t[2][-1]
        else:
            return None
        return x if 'conditions' in show(o) else None
    matching = lambda a, b: a[0] == 'truthy' and b and cond_of(
        a[1]) is not None
    for n in adds:
        v = n.data['value']
        row = decodes(v, 'decode_value')
        ok = row is not None and row[0] == 'm' and row[2] == 'value' and \
            unage(row[1]) in curs and row[-1] is not None
        res2.append((n.loc, None if ok and n.data['how'] in (
            'add', 'append', 'extend') else [n.id]))
        if not ok:
            continue
        ver = row[-1][0]
        fs = n.facts or ()
        # the row is there and within the range, as when it was read
        ok = any(a[0] == 'truthy' and b and a[1][0] == 'r' and
                 a[1][1] == ver for a, b in fs)
        res2.append((n.loc, None if ok else [n.id]))
        ok = any(inside(a, b) == (ver, True) for a, b in fs)
        res2.append((n.loc, None if ok else [n.id]))
        ok = any(matching(a, b) and cond_of(a[1]) == v for a, b in fs)
        res3.append((n.loc, None if ok else [n.id]))
        res3.append((n.loc, g.unheld(n, passed, set())))
    for n in calls2:
        # the filter counts only events that satisfy conditions
        v = n.data['args'][1]
        ok = any(matching(a, b) and cond_of(a[1]) == v
                 for a, b in n.facts or ())
        res3.append((n.loc, None if ok else [n.id]))
    # every row of the range
    uses = {}
    for n in g.nodes:
        if n.kind in ('call', 'add'):
            for v in (n.data.get('value'), *n.data.get('args', ())):
                for t in subterms(v) if v else ():
                    if t and t[0] == 'm' and t[2] == 'value' and unage(
                            t[1]) in curs and t[-1]:
                        uses.setdefault(n.id, set()).add(t[-1][0])
    rej = memo(assume_block(any_lit(
        nomore, neg(matching), neg(passed),
        lambda a, b: inside(a, b) is not None and not inside(a, b)[1])))
    ends = lambda m: g.is_return(m) and len(m.frame) == 0 or \
        m.kind == 'withexit'
    for n in seeks + steps:
        none = memo(assume_block(neg(movedto(n))))
        x = bound(own_args(g, n)[0]) if n.id in sid and own_args(
            g, n) else None
        if x and x[0] == 'high':
            # the first one beyond the range: the one before is the first
            q = g.reach([n], block=lambda m: m.id in mid and m is not n)
            bad = [i for i in q if i in aid or ends(g.nodes[i])]
            res2.append((n.loc, g.path(q, bad[0]) if bad else None))
            for i in q:
                for j in _ids(g.nodes[i].succ):
                    m = g.nodes[j]
                    if j not in mid or j in q:
                        continue
                    c = m.data['callee']
                    hit = any(movedto(n)(a, b) for a, b in m.facts or ())
                    mis = any(neg(movedto(n))(a, b)
                              for a, b in m.facts or ())
                    res2.append((m.loc, None if c == '.prev' and hit or
                                 c == '.last' and mis else [j]))
            continue
        if n.data['callee'] == '.last':
            prev = g.reach([n], back=True, block=lambda m: m.id in sid)
            bad = [i for i in prev if i != n.id and i in mid]
            res2.append((n.loc, [n.id] if bad else None))
        # the row is used, perhaps when the next one has been moved to
        last = n.data['res'][1]
        mine = {i for i, v in uses.items() if last in v}
        old = {i for i, v in uses.items() if ('^', last) in v}
        q = g.reach([n], block=lambda m: m.id in mine or throw(m) or none(
            m) or rej(m) or m.id in mid and m is not n)
        bad = [i for i in q if ends(g.nodes[i])]
        res2.append((n.loc, g.path(q, bad[0]) if bad else None))
        for h in {j for i in q for j in _ids(g.nodes[i].succ)
                  if j in mid and j not in q}:
            res2.append((n.loc, g.unfollowed(
                g.nodes[h], lambda m: m.id in mine or m.id in old,
                lambda m: ends(m) or m.id in mid and m.id != h,
                lambda m: throw(m) or rej(m))))
        if n.id in g.reach(_later(g, n), block=lambda m: m.id in mine or
                           m.id in old or throw(m) or none(m) or rej(m) or
                           m.id in mid and m is not n):
            res2.append((n.loc, [n.id]))
    for i in set(uses) - aid:
        res2.append((g.nodes[i].loc, g.unfollowed(
            g.nodes[i], lambda m: m.id in aid, lambda m: ends(m) or
            m.id in mid, lambda m: throw(m) or rej(m))))
    # and the next one
    over = memo(assume_block(any_lit(
        nomore, lambda a, b: inside(a, b) is not None and not inside(
            a, b)[1])))
    left = memo(assume_block(neg(truthy_lit(
        lambda t: t[0] == 'r' and t[2][0] == 'call' and t[2][1] in (
            '.set_range', '.next', '.prev', '.last') and unage(
                t[2][2]) in curs))))
    unfit = any_lit(neg(matching), neg(passed))
    skip = lambda m: m.kind == 'assume' and unfit(m.data['atom'],
                                                 m.data['pol'])
    for m in g.nodes:
        if m.id not in aid and not skip(m):
            continue
        res2.append((m.loc, g.unfollowed(
            m, lambda x: x.id in mid or x.id in aid and x is not m, ends,
            lambda x: throw(x) or over(x) or left(x))))
        q = g.reach([m], block=lambda x: x.id in mid)
        bad = [i for i in q if i in aid and m.id in aid and i != m.id]
        res2.append((m.loc, g.path(q, bad[0]) if bad else None))
    once(ctx, 'search-begins-at-the-end-of-the-range', where, res, fg=g,
         msg='stored events are not searched from one end of the queried '
             'range of the partition to the other')
    once(ctx, 'stored-events-of-the-range', where, res2, fg=g,
         msg='a stored event of the queried range is left out or repeated, '
             'or one outside of it is read')
    once(ctx, 'stored-events-satisfy-conditions', where, res3, fg=g,
         msg='a stored event is told, or counted as told, without regard to '
             'conditions')


def _later(g, n):
    return [g.nodes[i] for i in _ids(n.succ)]


def _last(g, n, dec):
    """counts before: node or 0"""
    q = g.reach([n], back=True, block=lambda m: m.id in dec and m is not n)
    r = {j for i in {*q, n.id} for j in _ids(g.nodes[i].pred) if j in dec}
    return r | ({0} if 0 in q else set())


def neg_fit(lit):
    return neg(lit)


def _ids(xs):
    return [x if isinstance(x, int) else x.id for x in xs]


def limit_tests(g, limit, dec):
    """assumptions that tell that the limit is reached, and that it is not"""
    reached, room = set(), set()
    for m in g.kind('assume'):
        c = limit_lit(m.data['atom'], m.data['pol'], limit)
        if c is None:
            continue
        c, isroom = c
        # events counted until then
        q = g.reach([m], back=True, block=lambda x: x.id in dec)
        ks = {0} if 0 in q else set()
        for i in {*q, m.id}:
            for j in _ids(g.nodes[i].pred):
                if j in dec:
                    v = dec[j].data['value']
                    ks.add(-v[2] if v[:2] == ('op', 'lin') and limit(
                        v[3][0][0]) else 'wide')
        wide = any(_wide(x) for a in m.data['atom'][1:] if isinstance(
            a, tuple) for x in subterms(a) if x)
        if wide and c == 0 or not wide and ks - {'wide'} == {c}:
            (room if isroom else reached).add(m.id)
    return reached, room


def _wide(t):
    return t[0] == 'r' and isinstance(t[2], tuple) and t[2][0] == 'wide'


def limit_lit(a, b, limit):
    """(constant, whether the limit is greater than it)"""
    p = positive(a, b)
    if p is not None and len(p[0]) == 1:
        (t, c), = p[0].items()
        if not (limit(t) or _wide(t)):
            return None
        if c == 1:
            # t + k > 0
            return -p[1], True
        if c == -1:
            # k > t
            return p[1] - 1, False
    if a[0] == 'eq':
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if (limit(x) or _wide(x)) and y[0] == 'c' and type(
                    y[2]) is int:
                return y[2], not b
    if a[0] == 'truthy' and (limit(a[1]) or _wide(a[1])):
        return 0, b
    return None
