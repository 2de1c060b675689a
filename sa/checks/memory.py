"""Memory backend: what is kept and what queries of it give."""

from ..check import check
from ..terms import *   # NOQA
from .util import *     # NOQA
from .runners import outside
from .lmdb_query import _sorting as sorting_of
from .subscriptions import has, returned
from .syncing import nearest

MB = 'hat.event.backends.memory'
CM = 'hat.event.common.common'
BACKEND = f'{MB}.MemoryBackend'
KEPT = ('a', ('p', 'self'), '_events')
STAMP = lambda n: ('rec', f'{CM}.Timestamp', (
    ('s', ('p', n + '.s')), ('us', ('p', n + '.us'))))
LAST = ('rec', f'{CM}.EventId', (
    ('server', ('p', 'last.server')), ('session', ('p', 'last.session')),
    ('instance', ('p', 'last.instance'))))
TYPES = ('tup', (('p', 'query_type'), ('p', 'other_type')))
GIVEN = {'event_types': TYPES, 't_from': STAMP('t_from'),
         't_to': STAMP('t_to'), 'source_t_from': STAMP('source_t_from'),
         'source_t_to': STAMP('source_t_to'), 'last_event_id': LAST,
         'max_results': ('p', 'max_results'), 'server_id': ('p', 'server_id')}


def case(ctx, cls, given, **more):
    """graph of a query with some of parameters given"""
    c = ctx.prog.classes[f'{CM}.{cls}']
    fs = []
    for name, *_ in c.fields:
        fs.append((name, more.get(name) or (
            GIVEN[name] if name in given else const(
                False) if name == 'persisted' else const(None))))
    par = ('rec', f'{CM}.{cls}', tuple(fs))
    f = ctx.prog.func(f'{BACKEND}.query')
    return ctx.flow(f, outside(ctx.prog, MB), args={f.params[1]: par},
                    max_depth=24), f


def kept(t):
    t = seq_base(unage(t))
    return t[:3] == KEPT


def el_of_kept(t):
    t = unage(t)
    return t[0] == 'el' and kept(t[1])


# filters: literals of an event that stays

def attr(v, *names):
    """is a term v.name…"""
    def ok(t):
        t = unage(t)
        for n in reversed(names):
            if t[0] != 'a' or t[2] != n:
                return False
            t = unage(t[1])
        return t == unage(v)
    return ok


def at_least(x, y):
    """literals of x >= y"""
    def lit(a, b):
        if a[0] == 'lt':
            return not b and x(a[1]) and y(a[2])
        if a[0] == 'le':
            return b and y(a[1]) and x(a[2])
        return False
    return lit


def more_than(x, y):
    def lit(a, b):
        if a[0] == 'lt':
            return b and y(a[1]) and x(a[2])
        if a[0] == 'le':
            return not b and x(a[1]) and y(a[2])
        return False
    return lit


def inverse(lit):
    return lambda a, b: lit(a, not b)


def either(*lits):
    return lambda a, b: any(x(a, b) for x in lits)


def matched(v):
    def lit(a, b):
        if not b or a[0] != 'truthy':
            return False
        t = unage(a[1])
        args = t[3] if t[0] == 'm' else t[2][2:] if t[0] == 'r' else ()
        name = t[2] if t[0] == 'm' else t[2][1] if t[0] == 'r' else ''
        base = t[1] if t[0] == 'm' else args[0] if args else None
        return name.endswith('matches') and any(
            attr(v, 'type')(x) for x in args) and any(
            TYPES in list(subterms(x)) for x in (base, *args) if x)
    return lit


def filters(v, given, by):
    """[(literal of an event that stays, literal that only guards it)]"""
    ts, st = attr(v, 'timestamp'), attr(v, 'source_timestamp')
    val = lambda n: is_(GIVEN[n])
    some = either(lambda a, b: a[0] == 'none' and not b and st(a[1]),
                  lambda a, b: a[0] == 'truthy' and b and st(a[1]))
    out = {}
    if 'event_types' in given:
        out['event_types'] = matched(v)
    if 't_from' in given:
        out['t_from'] = at_least(ts, val('t_from'))
    if 't_to' in given:
        out['t_to'] = at_least(val('t_to'), ts)
    if 'source_t_from' in given:
        out['source_t_from'] = at_least(st, val('source_t_from'))
    if 'source_t_to' in given:
        out['source_t_to'] = at_least(val('source_t_to'), st)
    if 'server_id' in given:
        out['server_id'] = eq_lit(attr(v, 'id', 'server'), val('server_id'))
    if by == 'SOURCE_TIMESTAMP' or 'source_t_from' in given or \
            'source_t_to' in given:
        out['source'] = some
    return out


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


# results ---------------------------------------------------------------------

def taken_from(g, n):
    """what an added element is taken from"""
    v = n.data['value']
    if n.data.get('how') not in ('copy', 'extend'):
        ids = {i.id for i in g.kind('iter') if i.data['value'] == v}
        its = nearest(g, n, ids)
        if its:
            return {seq_base(unage(g.nodes[i].data['iter'])) for i in its}
    v = unage(v)
    return {seq_base(v[1]) if v[0] == 'el' else None}


def passes(g, n, v, lit):
    """does an element pass a filter before a node, or before it is put in
    a list that it is taken from"""
    if has(n.facts, lit(v)):
        return True
    ids = {i.id for i in g.kind('iter') if i.data['value'] == v}
    srcs = {seq_base(unage(g.nodes[i].data['iter']))
            for i in nearest(g, n, ids)}
    return bool(srcs) and all(
        s[0] == 'o' and all(passes(g, m, m.data['value'], lit)
                            for m in adds_to(g, s)) for s in srcs)


class Walk:
    """what returned events are made of, from the last step back"""

    def __init__(self, ctx, g, t, newer=None):
        self.ctx, self.g = ctx, g
        self.limited = self.after = self.sort = None
        self.fills, self.order = [], []
        self.unknown = None
        self.newer = newer
        self.go(unage(t))

    def go(self, t):
        g = self.g
        for _ in range(12):
            t = unage(t)
            if t[:2] == ('op', 'slice') and t[5:6] in (
                    (const(None), ), ()):
                if t[3] in (const(None), const(0)):
                    self.limited = t[4]
                    self.order.append('limit')
                    t = t[2]
                    continue
                if t[4] == const(None):
                    self.after = (t[3], t[2])
                    self.order.append('after')
                    t = t[2]
                    continue
            if t[:2] == ('op', 'sorted') or t[0] == 'r' and t[2][
                    :2] == ('call', 'sorted'):
                xs = t[2:] if t[0] == 'op' else t[2][2:]
                self.sort = xs[1:]
                self.order.append('sort')
                t = xs[0]
                continue
            if t[:2] == ('op', 'itertools.islice') and len(t) == 4:
                self.limited = t[3]
                self.order.append('limit')
                t = t[2]
                continue
            if t[:2] == ('op', 'content'):
                t = t[2]
                continue
            if kept(t):
                return
            if t[0] == 'o':
                adds = adds_to(g, t)
                src = set()
                for n in adds:
                    src |= taken_from(g, n)
                sorts = [m for m in g.calls('.sort') if m.data['base'] and
                         unage(m.data['base']) == t]
                if sorts:
                    self.sort = tuple(('kwarg', *kv) for m in sorts[:1]
                                      for kv in m.data['kws'])
                    self.order.append('sort')
                if len(src) == 1 and None not in src:
                    copied = all(n.data.get('how') == 'copy' for n in adds)
                    if not copied:
                        self.fills.append((adds, src))
                        self.order.append('fill')
                    t = next(iter(src))
                    continue
            if seq_base(t) != t:
                t = seq_base(t)
                continue
            break
        self.unknown = t


def filled(g, w, given, by, last):
    """(filters that are tested, an event that stays passes them, one that
    doesn't is refused by one)"""
    sound, complete = [], []
    told = set()
    for adds, src in w.fills:
        ids = {n.id for n in adds}
        own = set()
        for n in adds:
            v = n.data['value']
            lits = filters(v, given, by)
            if last:
                lits['last'] = last(v)
            own |= {k for k, l in lits.items() if has(n.facts, l)}
        told |= own
        for n in adds:
            lits = filters(n.data['value'], given, by)
            if last:
                lits['last'] = last(n.data['value'])
            sound += [(n.loc, None if has(n.facts, lits[k]) else [n.id])
                      for k in own if k in lits]
        for it in g.kind('iter'):
            v = it.data['value']
            if v not in {n.data['value'] for n in adds} or \
                    seq_base(unage(it.data['iter'])) not in src:
                continue
            lits = filters(v, given, by)
            if last:
                lits['last'] = last(v)
            no = either(*(inverse(l) for l in lits.values())) \
                if lits else lambda a, b: False
            for p in (g.skipped(it, lambda m: m.id in ids, no),
                      g.early(it)):
                complete.append((it.loc, p))
    return told, sound, complete


ALL = ('event_types', 't_from', 't_to', 'source_t_from', 'source_t_to')


def queries(ctx):
    o = lambda n: ('g', f'{CM}.Order.{n}')
    b = lambda n: ('g', f'{CM}.OrderBy.{n}')
    rs, rc, ro, rl, ra, ru = [], [], [], [], [], []
    where = 'backends.memory.MemoryBackend.query'
    cases = [('QueryTimeseriesParams', (), x, y)
             for x in ('ASCENDING', 'DESCENDING')
             for y in ('TIMESTAMP', 'SOURCE_TIMESTAMP')]
    cases += [('QueryTimeseriesParams', (n, ), 'ASCENDING', 'TIMESTAMP')
              for n in (*ALL, 'max_results', 'last_event_id')]
    cases += [('QueryTimeseriesParams', (*ALL, 'max_results',
                                         'last_event_id'), x, y)
              for x, y in (('DESCENDING', 'SOURCE_TIMESTAMP'),
                           ('DESCENDING', 'TIMESTAMP'))]
    cases += [('QueryServerParams', ('server_id', *x), 'ASCENDING', None)
              for x in ((), ('last_event_id', ), ('max_results', ),
                        ('last_event_id', 'max_results'))]
    for cls, given, way, by in cases:
        server = cls == 'QueryServerParams'
        more = {} if server else {'order': o(way), 'order_by': b(by)}
        g, f = case(ctx, cls, given, **more)
        rets = [r for r in returned(g)]
        # an answer is given
        ru.append((f.loc, None if rets else [0]))
        bad = [n for n in g.nodes if n.kind == 'uncaught']
        ru += [(n.loc, [n.id]) for n in bad]
        last = None
        if server and 'last_event_id' in given:
            last = lambda v: more_than(attr(v, 'id'), is_(LAST))
        for r in rets:
            v = r.data['value']
            d = dict(v[2]) if v[0] == 'rec' else {}
            if 'events' not in d:
                ro.append((r.loc, [r.id]))
                continue
            w = Walk(ctx, g, d['events'])
            if w.unknown is not None:
                ctx.count('results left undecided', 1)
                continue
            told, s, c = filled(g, w, given, by, last)
            rs += s
            rc += c
            need = {k for k in given if k in (*ALL, 'server_id')}
            if by == 'SOURCE_TIMESTAMP':
                need.add('source')
            if last:
                need.add('last')
            if has(r.facts, nothing):
                need = set()
            rs += [(r.loc, [r.id]) for k in need - told]
            # sorted before anything is left out by position
            ok = w.sort is not None
            if ok:
                ok = ordered(ctx, g, w.sort, way, by)
                i = w.order.index('sort')
                ok &= all(w.order.index(k) < i for k in ('limit', 'after')
                          if k in w.order)
            ro.append((r.loc, None if ok else [r.id]))
            # limit
            mx = GIVEN['max_results']
            mf = d['more_follows']
            under = either(lambda a, b: a[0] == 'none' and b and a[1] == mx,
                           at_least(is_(mx), length))
            over = more_than(length, is_(mx))
            if 'max_results' in given:
                if w.limited is not None:
                    ok = w.limited == mx and (
                        mf == const(True) and has(r.facts, over) or
                        mf == const(False) and has(r.facts, under) or
                        mf[0] != 'c')
                else:
                    ok = has(r.facts, under) and mf == const(False)
            else:
                ok = w.limited is None and mf == const(False)
            if 'limit' in w.order and 'after' in w.order:
                ok &= w.order.index('limit') < w.order.index('after')
            if 'limit' in w.order and 'fill' in w.order:
                ok &= w.order.index('limit') < w.order.index('fill')
            rl.append((r.loc, None if ok else [r.id]))
            # the rest after an event
            if w.after and not ('last_event_id' in given and not server):
                ra.append((r.loc, [r.id]))
            elif 'last_event_id' in given and not server:
                ra.append((r.loc, rest(g, w, r)))
    once(ctx, 'query-gives-an-answer', where, ru,
         msg='a query fails with parameters that it declares')
    once(ctx, 'result-meets-conditions', where, rs,
         msg='an event is told that doesn\'t meet a condition')
    once(ctx, 'no-event-is-left-out', where, rc,
         msg='an event is left out that meets all conditions')
    once(ctx, 'result-is-in-order', where, ro,
         msg='events are not in the order that is asked for')
    once(ctx, 'result-is-limited', where, rl,
         msg='number of events or "more follows" is not right')
    once(ctx, 'result-continues-after-event', where, ra,
         msg='result does not continue after the last event')


def nothing(a, b):
    """literals of there being no events"""
    if a[0] == 'truthy' and not b:
        t = unage(a[1])
        return t[0] == 'o' or t[:2] in (('op', 'content'), (
            'op', 'sorted')) or t[0] == 'r' and t[2][:2] == (
                'call', 'sorted')
    return a[0] == 'eq' and b and const(0) in a[1:3] and any(
        length(x) for x in a[1:3])


def length(t):
    return unage(t)[:2] == ('op', 'len')


def ordered(ctx, g, extra, way, by):
    key, rev = None, False
    for x in extra:
        if x[0] == 'kwarg' and x[1] == 'key':
            key = x[2]
        elif x[0] == 'kwarg' and x[1] == 'reverse':
            rev = x[2]
    rev = {const(True): True, const(False): False}.get(rev, rev)
    if rev not in (True, False) or rev != (way == 'DESCENDING'):
        return False
    if by is None:
        # events of a server are in order of their ids by themselves
        return key is None or key_is(ctx, key, 'id')
    return key is not None and key_is(
        ctx, key, 'timestamp' if by == 'TIMESTAMP' else 'source_timestamp')


def key_is(ctx, key, name):
    f = callee_of(ctx.prog, key)
    if f is None:
        t = unage(key)
        s = show(t)
        return 'attrgetter' in s and any(
            x == const(name) for x in subterms(t))
    g = ctx.flow(f, outside(ctx.prog, MB))
    p = ('p', f.params[0])
    for r in returned(g):
        v = unage(r.data['value'])
        first = v[1][0] if v[0] == 'tup' and v[1] else v
        if not attr(p, name)(first):
            return False
    return True


def rest(g, w, r):
    """events after the one of an id"""
    hit = eq_lit(lambda t: unage(t)[0] == 'a' and unage(t)[2] == 'id' and
                 unage(t)[1][0] == 'el', is_(LAST))
    if w.after is None:
        # nothing to leave out, or left out one by one
        if has(r.facts, nothing):
            return None
        if any(has(n.facts, lambda a, b: True) for x, _ in w.fills
               for n in x if any(LAST in list(subterms(a))
                                 for a, _ in n.facts)):
            return None
        looks = lambda m: m.kind == 'assume' and LAST in list(
            subterms(m.data['atom']))
        put = [n for x, _ in w.fills[:1] for n in x]
        if not put:
            return g.unpreceded(r, looks)
        # without any event put there is none to leave out
        for n in put:
            if r.id in g.reach([n], block=looks):
                return [n.id, r.id]
        return None
    start, seq = w.after
    if start[:2] != ('op', 'lin') or len(start[3]) != 1:
        return None if start[0] != 'el' else [r.id]
    base = unage(start[3][0][0])
    if base[:2] == ('op', 'unbound'):
        return None
    if start[2] != 1 or start[3][0][1] != 1:
        return [r.id]
    # where it is found, or none is left
    return g.unpreceded(r, lambda m: m.kind == 'assume' and hit(
        m.data['atom'], m.data['pol']) or m.kind == 'iterend')


def latest(ctx):
    where = 'backends.memory.MemoryBackend.query'
    r1, r2, r3, r4 = [], [], [], []
    for given in ((), ('event_types', )):
        g, f = case(ctx, 'QueryLatestParams', given)
        objs = set()
        for r in returned(g):
            v = r.data['value']
            d = dict(v[2]) if v[0] == 'rec' else {}
            t = unage(d.get('events', const(None)))
            for _ in range(4):
                if t[0] == 'o' and t[1] != 'dict':
                    vs = {unage(n.data['value']) for n in adds_to(g, t)}
                    vs = {x[1] if x[0] == 'el' else None for x in vs}
                    t = unage(vs.pop()) if len(vs) == 1 else const(None)
                elif t[0] == 'op' and t[1] in ('list', 'tuple'):
                    t = unage(t[2])
            ok = t[0] == 'm' and t[2] == 'values' and d.get(
                'more_follows') == const(False)
            r4.append((r.loc, None if ok else [r.id]))
            if ok:
                objs.add(unage(t[1]))
        sets = [s for s in g.kind('setitem') if unage(s.data['base']) in objs
                and el_of_kept(s.data['value'])]
        ctx.need('latest events', len(sets))

        def prev(v):
            def ok(t):
                t = unage(t)
                return (t[0] == 'm' and t[2] == 'get' and t[1] in objs and
                        attr(v, 'type')(t[3][0]) or t[0] == 'i' and
                        t[1] in objs and attr(v, 'type')(t[2]) or
                        t[0] == 'el' and kept(t[1]))
            return ok

        def is_newer(v):
            p = prev(v)
            old = lambda t: p(t) and t != v
            return more_than(is_(v), old)

        def missing(v):
            p = prev(v)
            return lambda a, b: b and a[0] == 'none' and p(a[1]) or (
                not b and a[0] == 'truthy' and p(a[1])) or (
                not b and a[0] == 'in' and attr(v, 'type')(a[1]) and
                unage(a[2]) in objs)
        for s in sets:
            v = s.data['value']
            r1.append((s.loc, None if attr(v, 'type')(s.data['key'])
                       else [s.id]))
            ok = has(s.facts, is_newer(v)) or has(
                s.facts, missing(v)) or not any(
                    x.id in g.reach([g.nodes[i] for i in s.pred], back=True)
                    for x in sets)
            r2.append((s.loc, None if ok else [s.id]))
            if given:
                r1.append((s.loc, None if passes(g, s, v, matched)
                           else [s.id]))
        ids = {s.id for s in sets}
        ids |= {n.id for n in g.kind('add') if el_of_kept(n.data['value'])}
        its = [i for i in g.kind('iter') if el_of_kept(i.data['value'])]
        ctx.need('walks over events', len(its))
        for it in its:
            v = it.data['value']
            no = inverse(is_newer(v))
            # the event kept before goes by the same name as this one
            no = either(no, (lambda v: lambda a, b: a == (
                'none', v) and not b)(v))
            if given:
                no = either(no, inverse(matched(v)))
            for p in (g.skipped(it, lambda m: m.id in ids, no),
                      g.early(it)):
                r3.append((it.loc, p))
    once(ctx, 'latest-is-of-its-type', where, r1,
         msg='an event is told as latest of types it is not of')
    once(ctx, 'latest-replaces-older-only', where, r2,
         msg='a newer event is replaced by an older one')
    once(ctx, 'no-latest-is-left-out', where, r3,
         msg='an event is passed over that may be the latest one')
    once(ctx, 'all-latest-are-told', where, r4,
         msg='latest events are not what is told')


def registered(ctx):
    where = 'backends.memory.MemoryBackend.register'
    f = ctx.prog.func(f'{BACKEND}.register')
    g = ctx.flow(f, outside(ctx.prog, MB))
    evs = ('p', f.params[1])
    put = [n for n in g.calls('.extend', '.append', '.extendleft')
           if n.data['base'] and kept(n.data['base'])]
    put = [n for n in put if n.data['callee'] == '.extend' and n.data[
        'args'] == (evs, ) or n.data['callee'] == '.append' and elem_of(
            n.data['args'][0], is_(evs))]
    ctx.need('events kept', len(put))
    ids = {n.id for n in put}
    loops = {n.id for n in g.kind('iterend') if n.data['iter'] == evs} \
        if any(n.data['callee'] == '.append' for n in put) else set()
    calls = {k: [n for n in g.calls() if n.data['callee'].endswith(k)]
             for k in ('._registered_events_cb', '._flushed_events_cb')}
    res, res2, res3 = [], [], []
    kept_ = lambda m: m.id in (loops or ids)
    for k, ns in calls.items():
        ctx.need(f'{k[2:]} called', len(ns))
        for n in ns:
            res.append((n.loc, g.unpreceded(n, kept_)))
            res2.append((n.loc, None if n.data['args'] == (evs, )
                         else [n.id]))
        mine = {n.id for n in ns}
        unset = lambda m, k=k: m.kind == 'assume' and m.data['atom'][
            0] in ('truthy', 'none') and unage(m.data['atom'][1])[
                :3] == ('a', ('p', 'self'), k[1:]) and m.data['pol'] == (
                    m.data['atom'][0] == 'none')
        for r in returned(g):
            res2.append((r.loc, g.unpreceded(
                r, lambda m: m.id in mine or unset(m))))
        if k == '._flushed_events_cb':
            first = {n.id for n in calls['._registered_events_cb']}
            for n in ns:
                after = g.reach([n])
                res2 += [(n.loc, [n.id]) for i in first if i in after]
    for r in returned(g):
        res.append((r.loc, g.unpreceded(r, kept_)))
        ok = seq_base(unage(r.data['value'])) == evs
        res3.append((r.loc, None if ok else [r.id]))
    once(ctx, 'events-are-kept', where, res,
         msg='events are told or returned that are not kept')
    once(ctx, 'events-are-told', where, res2,
         msg='registered events are not told as they should be')
    once(ctx, 'events-are-returned', where, res3,
         msg='registered events are not returned')
    # nothing else changes them
    bad = []
    gi = ctx.flow(ctx.prog.func(f'{BACKEND}.__init__'), outside(ctx.prog, MB))
    for n in gi.kind('store'):
        v = unage(n.data['value'])
        if n.data['attr'] != '_events':
            continue
        bounded = [m for m in gi.kind('setitem', 'call') if m.data.get(
            'base') == v and m.data.get('key') == const('maxlen') and m.data[
                'value'] != const(None) or m.data.get('res') == v and any(
                    k == 'maxlen' and x != const(None)
                    for k, x in m.data['kws'])]
        bad.append((n.loc, [bounded[0].id] if bounded else None))
        ctx.count('places events are kept in', 1)
    for q, h in ctx.prog.functions.items():
        if not q.startswith(f'{BACKEND}.') or h.parent is not None:
            continue
        name = q.rsplit('.', 1)[1]
        if name in ('__init__', 'register') or h.is_lambda:
            continue
        gh = ctx.flow(h, outside(ctx.prog, MB))
        for n in gh.nodes:
            if n.kind == 'call' and n.data['base'] and unage(n.data[
                    'base'])[:3] == KEPT and n.data['callee'] in (
                    '.clear', '.pop', '.popleft', '.remove', '.append',
                    '.appendleft', '.extend', '.rotate', '.reverse',
                    '.insert', '.__delitem__'):
                bad.append((n.loc, [n.id]))
            if n.kind == 'store' and n.data['attr'] == '_events':
                bad.append((n.loc, [n.id]))
        bad.append((h.loc, None))
    once(ctx, 'kept-events-stay', BACKEND, bad,
         msg='kept events are changed by something other than registration')


def last_id(ctx):
    where = 'backends.memory.MemoryBackend.get_last_event_id'
    f = ctx.prog.func(f'{BACKEND}.get_last_event_id')
    g = ctx.flow(f, outside(ctx.prog, MB))
    sid = ('p', f.params[1])
    res, res2, res3 = [], [], []
    default = lambda t: t[0] == 'rec' and dict(t[2]) == {
        'server': sid, 'session': const(0), 'instance': const(0)}
    for r in returned(g):
        v = unage(r.data['value'])
        if default(v):
            continue
        xs = v[2][2:] if v[0] == 'r' and v[2][:2] == ('call', 'max') else \
            v[2:] if v[:2] == ('op', 'max') else None
        if not xs:
            ctx.count('last id left undecided', 1)
            continue
        kw = {x[1]: x[2] for x in xs if x[0] == 'kwarg'}
        ok = default(kw.get('default', const(None))) and 'key' not in kw
        res.append((r.loc, None if ok else [r.id]))
        o = unage(xs[0])
        adds = adds_to(g, o)
        ids = {n.id for n in adds}
        vs = set()
        for n in adds:
            t = unage(n.data['value'])
            el = t[1] if t[0] == 'a' and t[2] == 'id' else None
            ok = el is not None and el_of_kept(el) and has(
                n.facts, eq_lit(attr(el, 'id', 'server'), is_(sid)))
            res2.append((n.loc, None if ok else [n.id]))
        if not adds:
            res2.append((r.loc, [r.id]))
        for it in g.kind('iter'):
            el = it.data['value']
            if el_of_kept(el):
                no = inverse(eq_lit(attr(el, 'id', 'server'), is_(sid)))
                no = (lambda el: lambda a, b: not b and a[0] == 'eq' and any(
                    attr(el, 'id', 'server')(x) and y == sid
                    for x, y in (a[1:3], a[2:0:-1])))(el)
                for p in (g.skipped(it, lambda m: m.id in ids, no),
                          g.early(it)):
                    res3.append((it.loc, p))
    for n in g.nodes:
        if n.kind == 'uncaught':
            res.append((n.loc, [n.id]))
    once(ctx, 'no-events-no-id', where, res,
         msg='without events of a server its last id is not zero')
    once(ctx, 'last-id-is-of-the-server', where, res2,
         msg='last id is not of an event of the server')
    once(ctx, 'every-id-is-compared', where, res3,
         msg='an event of the server is left out of the search of last id')


@check('C31')
def memory(ctx):
    registered(ctx)
    last_id(ctx)
    latest(ctx)
    queries(ctx)
