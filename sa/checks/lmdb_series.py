"""LMDB backend: where timeseries events are kept and what is cleaned up."""

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .eventer_server2 import THROW
from .lmdb_backend import LM, BE, LB, EXECUTE, own_args, executed, db_type
from .lmdb_latest import lookup, puts, db_of
from .lmdb_refs import encoded, decodes, is_len
from .runners import outside

TS = LM + 'timeseriesdb.'
TD = TS + 'TimeseriesDb.'
ENVX = LM + 'environment.Environment.ext_'
GET = TD + '_get_event_type_partitions'


def inner(prog):
    return outside(prog, TS, ENVX)


def positive(a, pol):
    """(coefficients, constant) of the expression the literal tells to be
    greater than zero (over integers)"""
    if a[0] not in ('lt', 'le'):
        return None
    x, y = (a[1], a[2]) if not pol else (a[2], a[1])
    k = 0 if (a[0] == 'lt') == pol else 1
    d = {}
    for t, s in ((x, 1), (y, -1)):
        c, ts = linear(t)
        k += s * c
        for u, n in ts:
            u = unage(u)
            d[u] = d.get(u, 0) + s * n
    return {t: n for t, n in d.items() if n}, k


def linear(t):
    if t[0] == 'c' and isinstance(t[2], int) and not isinstance(t[2], bool):
        return t[2], ()
    if t[:2] == ('op', 'lin'):
        return t[2], t[3]
    return 0, ((t, 1), )


def cursors(g):
    return {unage(n.data['res']): n for n in g.calls('.cursor')}


def on(g, curs, name, *callees):
    """calls of cursors of a database"""
    return [n for n in g.kind('call') if n.data['callee'] in callees and
            n.data['base'] and db_type(curs, n) == name]


def is_order(t, name):
    return t[0] == 'g' and t[1].endswith('OrderBy.' + name)


def timestamps(ctx, g, order_by, ev, name):
    """{timestamp term: literals under which it is the one to use}"""
    kind = lambda x: eq_lit(order_by, lambda t: is_order(t, x))
    ts, st = ('a', ev, 'timestamp', None), ('a', ev, 'source_timestamp', None)
    other = {'TIMESTAMP': 'SOURCE_TIMESTAMP', 'SOURCE_TIMESTAMP': 'TIMESTAMP'}

    def either(x):
        return any_lit(kind(x), neg(kind(other[x])))
    return {ts: [either('TIMESTAMP')],
            st: [either('SOURCE_TIMESTAMP'), any_lit(
                neg(none_lit(is_(st))), truthy_lit(is_(st)))]}


@check('C26')
def series(ctx):
    part, chg = added(ctx)
    created(ctx, part)
    stored(ctx)
    cleaned(ctx, part)
    cleanup(ctx)


def added(ctx):
    prog = ctx.prog
    g = ctx.flow(TD + 'add', inner(prog))
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    ev = ('p', g.func.params[1])
    its = [it for it in g.kind('iter') if call_of_self(it.data['iter']) and
           call_of_self(it.data['iter'])[1:] == [('a', ev, 'type', None)]]
    ctx.need('walks over partitions of a type', len(its))
    part = call_of_self(its[0].data['iter'])[0]
    res = []
    chg = set()
    for it in its:
        e = unage(it.data['value'])
        pid, p = ('i', e, const(0), None), ('i', e, const(1), None)
        order = is_(('a', p, 'order_by', None))
        use = timestamps(ctx, g, order, ev, None)
        keeps, tells = {}, {}
        for n in g.reach([it], block=g.loop_next(it)):
            n = g.nodes[n]
            if n.kind == 'add' and lookup(n.data['obj']) and same(
                    lookup(n.data['obj'])[1], pid):
                x = lookup(n.data['obj'])[0]
                v = n.data['value']
                ok = x[0] == 'a' and x[1] == ('p', 'self') and \
                    v[0] == 'tup' and len(v[1]) == 2 and \
                    v[1][1] == ev and v[1][0] in use
                res.append((n.loc, None if ok else [n.id]))
                if ok:
                    chg.add(x[2])
                    keeps[n.id] = v[1][0]
                    for lit in use[v[1][0]]:
                        res.append((n.loc, g.unheld(n, lit, set())))
            v = n.data.get('value') if n.kind in ('yield', 'add') else None
            if v is not None and v[0] == 'rec' and v[1].endswith(
                    '.TimeseriesEventRef'):
                k = dict(v[2])['key']
                ok = k[0] == 'tup' and len(k[1]) == 3 and same(
                    k[1][0], pid) and k[1][2] == ('a', ev, 'id', None) and \
                    k[1][1] in use
                res.append((n.loc, None if ok else [n.id]))
                if ok:
                    tells[n.id] = k[1][1]
                    for lit in use[k[1][1]]:
                        res.append((n.loc, g.unheld(n, lit, set())))
        ts, st = use

        def left_out(m):
            fs = m.facts or ()
            if any(none_lit(is_(ts))(a, b) for a, b in fs):
                return True
            return any(none_lit(is_(st))(a, b) for a, b in fs) and any(
                use[st][0](a, b) for a, b in fs)
        for did in (keeps, tells):
            res.append((it.loc, g.skipped(
                it, lambda m: m.id in did or left_out(m),
                lambda a, b: False)))
        res.append((it.loc, g.early(it)))
    ctx.need('changed partitions', len(chg))
    once(ctx, 'event-is-kept-where-it-is-told', where, res, fg=g,
         msg='an event is not kept in each partition of its type under the '
             'partition\'s timestamp, or its reference is not told')
    return part, chg


def call_of_self(t):
    """[attribute, arguments...] of a call of an attribute of self"""
    t = seq_base(t)
    if t[0] == 'r' and t[2][0] == 'call' and t[2][2:3] == (('p', 'self'), ):
        return [t[2][1].lstrip('.').split('.')[-1]] + [
            x for x in t[2][3:]]
    if t[0] == 'm' and t[1] == ('p', 'self'):
        return [t[2]] + list(t[3])
    return None


def created(ctx, part):
    prog = ctx.prog
    g = ctx.flow(TS + 'ext_create', inner(prog))
    where = short(g.func.qual)
    conf = ('p', g.func.params[3])
    throw = lambda m: m.kind in THROW
    curs = cursors(g)
    name = 'TIMESERIES_PARTITION'
    stores = [n for n in g.kind('store') if n.data['base'][0] == 'o' and
              n.data['value'][0] == 'o' and n.data['value'][1] == 'dict']
    parts = {}
    for n in stores:
        for m, k, v in puts(g, n.data['value']):
            if elem_of(v, is_(conf)):
                parts.setdefault(unage(n.data['value']), []).append((m, k, v))
    ctx.need('kept partitions', len(parts))
    mine = [n.data['attr'] for n in stores if unage(
        n.data['value']) in parts]
    res, res2, res3 = [], [], []
    rows = lambda t: db_of(t) == {name}
    writes = on(g, curs, name, '.put', '.replace')
    ctx.need('partitions written', len(writes))
    new = {}
    for n in writes:
        k = encoded(own_args(g, n)[0], 'encode_key')
        v = encoded(own_args(g, n)[1], 'encode_value')
        res.append((n.loc, None if k is not None and v is not None and
                    drawn(k) is not None else [n.id]))
        if k is not None:
            new.setdefault(unage(k), []).append(n)
    ids = {m.id for ps in parts.values() for m, k, v in ps}
    known = {}
    for ps in parts.values():
        for m, k, v in ps:
            e = unage(v)
            if unage(k) in new:
                w = {n.id for n in new[unage(k)]}
                res.append((m.loc, g.unpreceded(m, lambda x: x.id in w)))
                continue
            x = lookup(k)
            ok = x is not None and x[0][0] == 'o'
            res.append((m.loc, None if ok else [m.id]))
            if ok:
                known.setdefault(unage(x[0]), []).append(x[1])
                isn = none_lit(is_(k))
                inn = lambda a, b: b and a[0] == 'in' and same(
                    a[1], x[1]) and same(a[2], x[0])
                res.append((m.loc, g.unheld(m, any_lit(
                    neg(isn), inn, truthy_lit(is_(k))), set())))
    # the same definition has the same id
    ctx.need('known partitions', len(known))
    for o, ks in known.items():
        loaded = given = 0
        for n in g.kind('setitem', 'add'):
            if unage(n.data.get('base', n.data.get('obj'))) != o:
                continue
            if n.kind == 'add':
                if n.data['value'][0] != 'tup':
                    continue
                k, v = n.data['value'][1]
            else:
                k, v = n.data['key'], n.data['value']
            if decodes(v, 'decode_key') is not None and rows(v):
                loaded += 1
                res.append((n.loc, None if {unage(x) for x in subterms(
                    k) if x and x[0] == 'el' and rows(x)} <= {
                        unage(x) for x in subterms(v) if x} and rows(
                            k) else [n.id]))
            elif unage(v) in new:
                given += 1
                res.append((n.loc, None if any(
                    same(k, y) for y in ks) else [n.id]))
            else:
                res.append((n.loc, [n.id]))
        res.append((g.func.loc, None if loaded and given else [0]))
        for k in ks:
            # order and subscriptions are told apart
            ok = any(x[0] == 'a' and x[2] == 'order_by' and elem_of(
                x[1], is_(conf)) for x in subterms(k) if x)
            res.append((g.func.loc, None if ok else [0]))
    its = [it for it in g.kind('iter') if elem_of(
        it.data['value'], is_(conf))]
    ctx.need('walks over configured partitions', len(its))
    for it in its:
        res2.append((it.loc, g.skipped(it, lambda m: m.id in ids,
                                       lambda a, b: False)))
        res2.append((it.loc, g.early(it)))
    its = [it for it in g.kind('iter') if rows(it.data['iter']) or db_type(
        curs, _fake(it)) == name]
    # ids do not repeat
    for w in writes:
        k = encoded(own_args(g, w)[0], 'encode_key')
        c = drawn(k) if k is not None else None
        if c is None:
            continue
        n, ts = linear(c)
        if not ts and n >= 1:
            # nothing is stored, or its ids are below
            least = c
            for it in its:
                cmp = [m for m in g.kind('assume') if _compared(m)]
                q = g.reach([it], block=lambda m: g.loop_next(it)(m) or
                            m in cmp)
                hit = [i for i in q if i == w.id]
                res3.append((w.loc, g.path(q, hit[0]) if hit else None))
            continue
        ok = n >= 1 and len(ts) == 1 and ts[0][1] == 1
        if ok:
            m = ts[0][0]
            d = decodes(m, 'decode_key') is not None and rows(m)
            mx = call_args(m, 'max') or (m[2:] if m[:2] == (
                'op', 'max') else None)
            ok = d or mx is not None or m[0] == 'r' and m[2][0] == 'wide'
        res3.append((w.loc, None if ok else [w.id]))
    for m in g.kind('assume'):
        # the greater one is taken
        if not _compared(m):
            continue
        if _compared(m) > 0:
            q = g.reach([m])
            for w in writes:
                k = encoded(own_args(g, w)[0], 'encode_key')
                c = drawn(k) if k is not None else None
                if c is not None and not linear(c)[1] and w.id in q:
                    res3.append((w.loc, g.path(q, w.id)))
    # sets have another order in every process
    types = lambda t: t[0] == 'r' and t[2][0] == 'call' and str(
        t[2][1]).split('.')[-1] == 'get_query_types'
    if not g.calls('.sort'):
        for n in g.kind('add'):
            o = n.data['obj']
            if o[:1] != ('o', ) or o[1] in ('set', 'frozenset'):
                continue
            for x in subterms(n.data['value']):
                if x and x[0] == 'el' and any(
                        y and types(y) for y in subterms(x[1])) and \
                        'sorted' not in show(x[1]):
                    res.append((n.loc, [n.id]))
                    break
    once(ctx, 'partition-keeps-its-id', where, res, fg=g,
         msg='a partition does not get the id it had, or gets one that is '
             'not written')
    once(ctx, 'configured-partitions-are-kept', where, res2, fg=g,
         msg='a configured partition is left out')
    once(ctx, 'partition-ids-do-not-repeat', where, res3, fg=g,
         msg='a new partition may get the id of another one')
    # partitions of a type are looked up among all of them
    at = [n for n in g.kind('store') if n.data['attr'] == part]
    ctx.need('lookups of partitions', len(at))
    made = [n for n in g.kind('call') if n.data['callee'].split('.')[-1] in (
        'create_event_type_collection', 'EventTypeCollection')]
    res = []
    for n in at:
        res.append((n.loc, g.unpreceded(
            n, lambda m: m in made)))
    for n in made:
        ok = any(unage(x) in parts for a in n.data['args']
                 for x in subterms(a) if x)
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'partitions-of-a-type', where, res, fg=g,
         msg='partitions of a type are not looked up among all of them')


class _Iter:

    def __init__(self, t):
        self.data = {'base': t}


def _fake(it):
    return _Iter(seq_base(it.data['iter']))


def drawn(k):
    """where the counter begins that k is drawn from"""
    if k[0] == 'r' and k[2][:2] == ('call', 'next'):
        c = k[2][2]
        if c[0] == 'r' and c[2][:2] == ('call', 'itertools.count'):
            return c[2][2] if len(c[2]) > 2 else const(0)
    if k[:2] == ('op', 'lin') or k[0] == 'c':
        return k
    return None


def _compared(m):
    """1 if the assumption tells that a stored id is greater than another, -1
    if not"""
    if m.kind != 'assume':
        return 0
    a, b = m.data['atom'], m.data['pol']
    if a[0] not in ('lt', 'le'):
        return 0
    idt = lambda t: decodes(t, 'decode_key') is not None and db_of(t) == {
        'TIMESERIES_PARTITION'}
    l, r = idt(a[1]), idt(a[2])
    if not (l or r):
        return 0
    if l and r:
        return -1
    up = r and b and a[0] == 'lt' or l and not b and a[0] == 'le' or \
        r and b and a[0] == 'le' or l and not b and a[0] == 'lt'
    return 1 if up else -1


def stored(ctx):
    prog = ctx.prog
    g = ctx.flow(TD + 'ext_write', inner(prog))
    where = short(g.func.qual)
    chg = ('p', g.func.params[2])
    curs = cursors(g)
    res, res2 = [], []
    data = on(g, curs, 'TIMESERIES_DATA', '.put', '.replace')
    ctx.need('events written', len(data))

    def item(t):
        """partition's item of changes"""
        return t[0] == 'el' and (
            t[1][0] == 'm' and t[1][2] == 'items' and t[1][1] == chg)

    def pid_of(t):
        if t[0] == 'i' and item(t[1]) and t[2] == const(0):
            return unage(t[1])
        if t[0] == 'el' and (t[1] == chg or t[1][0] == 'm' and t[1][2] ==
                             'keys' and t[1][1] == chg):
            return unage(t)

    def changes_of(t):
        """partition's changes: whose"""
        if t[0] == 'i' and item(t[1]) and t[2] == const(1):
            return unage(t[1])
        x = lookup(t)
        if x and x[0] == chg and pid_of(x[1]):
            return unage(x[1])
    done = set()
    for n in data:
        k = encoded(own_args(g, n)[0], 'encode_key')
        v = encoded(own_args(g, n)[1], 'encode_value')
        ok = k is not None and v is not None and k[0] == 'tup' and \
            len(k[1]) == 3
        if ok:
            p, ts, i = k[1]
            ok = v[0] == 'i' and v[2] == const(1) and v[1][0] == 'el' and \
                changes_of(seq_base(v[1][1])) is not None and \
                changes_of(seq_base(v[1][1])) == pid_of(p) and same(
                    ts, ('i', v[1], const(0), None)) and same(
                    i, ('a', v, 'id', None))
        res.append((n.loc, None if ok else [n.id]))
        if ok:
            done.add(n.id)
    its = [it for it in g.kind('iter') if it.data['value'][0] == 'el' and
           changes_of(seq_base(it.data['value'][1])) is not None]
    ctx.need('walks over written events', len(its))
    done = collected(g, done, res)
    for it in its:
        res.append((it.loc, g.skipped(it, lambda m: m.id in done,
                                      lambda a, b: False)))
        res.append((it.loc, g.early(it)))
    once(ctx, 'stored-under-the-told-reference', where, res, fg=g,
         msg='an event is not written under partition, timestamp and id its '
             'reference tells')
    counts = on(g, curs, 'TIMESERIES_COUNT', '.put', '.replace')
    ctx.need('counts written', len(counts))
    old = lambda t, p: decodes(t, 'decode_value') is not None and \
        count_of(curs, t) is not None and pid_of(
            count_of(curs, t)) == p
    done = set()
    for n in counts:
        k = encoded(own_args(g, n)[0], 'encode_key')
        v = encoded(own_args(g, n)[1], 'encode_value')
        ok = k is not None and v is not None and pid_of(k) is not None
        if ok:
            p = pid_of(k)
            c, ts = linear(v)
            cnt = [t for t, x in ts if x == 1 and is_len(
                t, lambda s: changes_of(s) == p)]
            was = [t for t, x in ts if x == 1 and old(t, p)]
            ok = c == 0 and len(cnt) == 1 and len(cnt) + len(was) == len(ts)
            if ok and not was:
                none = lambda a, b: (
                    a[0] == 'truthy' and not b or a[0] == 'none' and b) and \
                    read_of(curs, a[1]) is not None and pid_of(
                        read_of(curs, a[1])) == p
                res2.append((n.loc, g.unheld(n, none, set())))
        res2.append((n.loc, None if ok else [n.id]))
        if ok:
            done.add(n.id)
    its = [it for it in g.kind('iter') if item(it.data['value']) or
           pid_of(it.data['value']) is not None]
    done = collected(g, done, res2)
    bad = [g.skipped(it, lambda m: m.id in done, lambda a, b: False) or
           g.early(it) for it in its]
    # one of the walks over partitions writes counts
    by = {}
    for it, b in zip(its, bad):
        if done & set(g.reach([it], block=g.loop_next(it))):
            by.setdefault('x', []).append((it.loc, b))
    ctx.need('walks that count', len(by))
    res2 += by['x']
    once(ctx, 'entries-are-counted', where, res2, fg=g,
         msg='the number of entries of a partition is not increased by the '
             'number of written events')


def collected(g, done, res):
    """what is done with each of the elements of a local container is done
    once they are added to it"""
    done = set(done)
    for it in g.kind('iter'):
        o = seq_base(it.data['iter'])
        if o[0] == 'm' and o[2] == 'items':
            o = seq_base(o[1])
        if o[0] != 'o' or not done & set(g.reach([it],
                                                 block=g.loop_next(it))):
            continue
        res.append((it.loc, g.skipped(it, lambda m: m.id in done,
                                      lambda a, b: False) or g.early(it)))
        done |= {n.id for n in g.kind('add', 'setitem') if unage(n.data.get(
            'obj') or n.data['base']) == unage(o)}
    return done


def read_of(curs, t):
    """the key a row of entry counts is read by"""
    t = unage(t)
    if t[0] == 'm' and t[2] == 'get' and unage(t[1]) in curs:
        k = t[3][0]
    elif t[0] == 'r' and t[2][:2] == ('call', '.get') and unage(
            t[2][2]) in curs:
        k = t[2][3]
    else:
        return None
    if db_of(t) - {'TIMESERIES_COUNT'}:
        return None
    return encoded(k, 'encode_key')


def count_of(curs, t):
    d = decodes(t, 'decode_value')
    return read_of(curs, d) if d is not None else None


def cleaned(ctx, part):
    prog = ctx.prog
    g = ctx.flow(TD + 'ext_cleanup', inner(prog))
    where = short(g.func.qual)
    now = ('p', g.func.params[2])
    most = ('p', g.func.params[3])
    throw = lambda m: m.kind in THROW
    curs = cursors(g)
    name = 'TIMESERIES_DATA'
    dels = on(g, curs, name, '.delete', '.pop')
    seeks = on(g, curs, name, '.set_range', '.set_key')
    ctx.need('entries deleted', len(dels))
    ctx.need('searches', len(seeks))
    did = {n.id for n in dels}
    sid = {n.id for n in seeks}
    steps = {n.id for n in on(g, curs, name, '.next')}
    moved = did | sid | steps
    keyn = {n.id for n in on(g, curs, name, '.key', '.item')}
    its = [it for it in g.kind('iter') if it.data['value'][0] == 'el' and
           it.data['value'][1][0] == 'm' and it.data['value'][1][2] ==
           'items' and it.data['value'][1][1][0] == 'a' and
           it.data['value'][1][1][1] == ('p', 'self')]
    ctx.need('walks over partitions', len(its))
    e = unage(its[0].data['value'])
    pid, lim = ('i', e, const(0), None), ('a', ('i', e, const(1), None),
                                          'limit', None)
    par = lambda f: ('a', lim, f, None)
    keyt = lambda t: (t[0] == 'm' and t[2] == 'key' and unage(t[1]) in curs
                      or t[0] == 'r' and t[2][:2] == ('call', '.key') or
                      t[0] == 'op' and t[1] == 'bytes' and keyt(t[2]))
    dkey = lambda t: decodes(t, 'decode_key') is not None and keyt(
        decodes(t, 'decode_key'))
    zero = lambda t: t[0] == 'rec' and all(
        v == const(0) for _, v in t[2])
    low = lambda t: t[0] == 'g' and t[1].endswith('.min_timestamp')

    def enc(t, p, ts):
        k = encoded(t, 'encode_key')
        return k is not None and k[0] == 'tup' and len(k[1]) == 3 and \
            p(k[1][0]) and ts(k[1][1]) and zero(k[1][2])
    mine, after = is_(pid), lambda t: unage(t) == (
        'op', 'lin', 1, ((pid, 1), ))
    res = []
    for n in seeks:
        res.append((n.loc, None if enc(own_args(g, n)[0], mine, low)
                    else [n.id]))
    inside = any_lit(
        lambda a, b: a[0] == 'lt' and b and keyt(a[1]) and enc(
            a[2], after, low),
        lambda a, b: a[0] == 'le' and not b and keyt(a[2]) and enc(
            a[1], after, low),
        eq_lit(is_(pid), lambda t: t[0] == 'i' and t[2] == const(
            0) and dkey(t[1])))
    is_cnt = lambda t: count_of(curs, t) is not None and same(
        count_of(curs, t), pid)
    wide = lambda t: t[0] == 'r' and t[2][0] == 'wide'

    def size(t):
        return contains(t, unage(par('size')))

    def top(t):
        """a limit of entries: which"""
        if t == par('max_entries'):
            return 'max'
        mn = call_args(t, 'min') or (t[2:] if t[:2] == ('op', 'min') else ())
        if mn and any(x == par('max_entries') for x in mn) and any(
                size(x) for x in mn):
            return 'both'
        if size(t) and not mn:
            return 'size'
        return None

    def bound(a, b, limit):
        """constant of: entries left are more than limit"""
        p = positive(a, b)
        if p is None:
            return None
        d, k = p
        lims = [t for t, c in d.items() if c == -1 and limit(t)]
        cnts = [t for t, c in d.items() if c == 1 and is_cnt(t)]
        wides = [t for t, c in d.items() if c == -1 and wide(t)]
        if not cnts and not wides:
            # what is left is counted instead
            cnts = wides = [t for t, c in d.items() if c == 1 and wide(t)]
            if len(wides) + len(lims) == len(d) and len(wides) == 1 and (
                    len(lims) == 1 or limit is nolim):
                return 'wide', lims
            return None
        if not d or len(lims) + len(cnts) + len(wides) != len(d) or len(
                lims) != 1 and limit is not nolim or len(cnts) > 1:
            return None
        return 'wide' if wides else -k, lims
    nolim = lambda t: False

    def less(sign):
        """the configured number of entries is less (1) or greater (-1) than
        the number told by size"""
        def lit(a, b):
            p = positive(a, b)
            return p is not None and len(p[0]) == 2 and any(
                unage(t) == unage(par('max_entries')) and c == -sign
                for t, c in p[0].items()) and any(
                    c == sign and size(t) for t, c in p[0].items())
        return lit
    lowest = lambda t: t == par('min_entries')
    falsy = any_lit(neg(truthy_lit(is_(par('min_entries')))),
                    none_lit(is_(par('min_entries'))))

    def more(a, b):
        """more entries than the least number are left"""
        return bound(a, b, lowest) or bound(a, b, nolim)

    def over(a, b):
        return bound(a, b, lambda t: top(t) is not None)
    old = any_lit(
        lambda a, b: a[0] == 'lt' and b and keyt(a[1]) and due(a[2]),
        lambda a, b: a[0] == 'le' and not b and keyt(a[2]) and due(a[1]))

    def due(t):
        def ts(x):
            return x[0] == 'r' and x[2][0] == 'call' and x[2][1].endswith(
                'Timestamp.add') and x[2][2] == now and unage(
                    x[2][3]) == ('op', 'lin', 0, ((par(
                        'duration'), -1), ))
        return enc(t, mine, ts)
    keep = {}
    res2, res3, res4 = [], [], []
    hasmin = memo(assume_block(lambda a, b: more(a, b) is not None))
    hasin = memo(assume_block(inside))
    hasover = memo(assume_block(lambda a, b: over(a, b) is not None))
    hasold = memo(assume_block(old))
    prior = {}
    for n in dels:
        for blk in (hasin, ):
            q = g.reach([n], back=True, block=blk)
            hit = [i for i in q if i in moved and i != n.id]
            res.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
        q = g.reach([n], back=True, block=hasmin)
        hit = [i for i in q if i in moved and i != n.id]
        res2.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
        q = g.reach([n], back=True, block=lambda m: hasover(m) or hasold(m))
        hit = [i for i in q if i in moved and i != n.id]
        res3.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
        # since the last step
        q = g.reach(n.pred, back=True, block=lambda m: m.id in moved)
        ends = set()
        for i in q:
            for j in g.nodes[i].pred:
                if g.nodes[j].id in moved if isinstance(j, int) else \
                        j.id in moved:
                    ends.add(j if isinstance(j, int) else j.id)
        prior[n.id] = ends
        ks, tops = set(), set()
        for i in q:
            m = g.nodes[i]
            if m.kind != 'assume':
                continue
            a, b = m.data['atom'], m.data['pol']
            x = more(a, b)
            if x is not None:
                ks.add(x[0])
                if not x[1]:
                    res2.append((n.loc, g.unheld(n, falsy, set())))
            x = over(a, b)
            if x is not None:
                ks.add(x[0])
                for t in x[1]:
                    tops.add((m.id, top(t)))
        keep[n.id] = ks
        for i, kind in tops:
            m = g.nodes[i]
            if kind == 'max':
                res3.append((n.loc, g.unheld(m, any_lit(
                    none_lit(is_(par('size'))), neg(truthy_lit(
                        lambda t: 'entries' in show(t))),
                    less(1)), set())))
            elif kind == 'size':
                res3.append((n.loc, g.unheld(m, any_lit(none_lit(is_(par(
                    'max_entries'))), less(-1)), set())))
    for n in dels:
        # entries already deleted are not counted as left
        for i in prior[n.id]:
            if i in keep:
                a, b = keep[i], keep[n.id]
                ok = True
                for x in b:
                    if x == 'wide':
                        continue
                    ok = ok and all(y != 'wide' and y < x for y in a)
                res2.append((n.loc, None if ok else [n.id]))
    # what is to be deleted is
    done = any_lit(
        neg(truthy_lit(lambda t: t[0] == 'r' and t[2][0] == 'call' and t[2][
            1] in ('.set_range', '.delete', '.next') and unage(
                t[2][2]) in curs)),
        neg(inside), lambda a, b: more(a, not b) is not None and
        _mentions(a, par('min_entries')) or more(
            a, not b) is not None and bool(more(a, not b)),
        lambda a, b: full(a, b))

    def full(a, b):
        p = positive(a, b)
        return p is not None and p[0].get(most) == -1
    few = any_lit(lambda a, b: over(a, not b) is not None, none_lit(
        lambda t: top(t) is not None))
    young = any_lit(neg(old), none_lit(is_(par('duration'))), none_lit(due))
    ends = lambda m: m.id in sid or g.is_return(m) or m.kind == 'withexit'
    b1 = memo(assume_block(any_lit(done, few)))
    b3 = memo(assume_block(any_lit(done, young)))
    nomax = memo(no_max(par))
    nodue = memo(lambda m: nodur(m, par))
    for n in g.nodes:
        if n.id not in moved or n.id in steps:
            continue
        res4.append((n.loc, g.unfollowed(
            n, lambda m: m.id in did and m is not n, ends,
            lambda m: throw(m) or b1(m) or nomax(m))))
        res4.append((n.loc, g.unfollowed(
            n, lambda m: m.id in did and m is not n, ends,
            lambda m: throw(m) or b3(m) or nodue(m))))
    # entries are told and no longer counted
    out = {unage(seq_base(n.data['value'])) for n in g.nodes
           if g.is_return(n)}
    adds = [n for n in g.kind('add') if unage(n.data['obj']) in out]
    ctx.need('entries told', len(adds))
    res5 = []
    good = set()
    for n in adds:
        v = n.data['value']
        ok = v[0] == 'tup' and len(v[1]) == 2 and v[1][1][0] == 'rec' and \
            v[1][1][1].endswith('.TimeseriesEventRef')
        if ok:
            k = dict(v[1][1][2])['key']
            ok = dkey(k) and unage(v[1][0]) == unage(
                ('i', k, const(2), None)) or k[0] == 'tup' and \
                k[1][2] == v[1][0] and all(
                    x[0] == 'i' and dkey(x[1]) and x[2] == const(i)
                    for i, x in enumerate(k[1]))
        res5.append((n.loc, None if ok else [n.id]))
        if ok:
            good.add(n.id)
    for n in dels:
        res5.append((n.loc, g.unfollowed(
            n, lambda m: m.id in good, lambda m: m.id in moved or
            g.is_return(m), throw)))
        q = g.reach([n], back=True, block=lambda m: m.id in keyn)
        hit = [i for i in q if i in moved and i != n.id]
        res5.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
        q = g.reach(n.succ, block=lambda m: m.id in moved or m.id in good)
        hit = [i for i in q if i in keyn]
        if hit:
            # the key is read again, after the deletion
            q2 = g.reach([g.nodes[hit[0]]], block=lambda m: m.id in moved)
            h2 = [i for i in q2 if i in good]
            res5.append((n.loc, g.path(q2, h2[0]) if h2 else None))
    for n in adds:
        res5.append((n.loc, g.unpreceded(n, lambda m: m.id in did)))
        q = g.reach(n.succ, block=lambda m: m.id in did)
        hit = [i for i in q if i in good]
        res5.append((n.loc, g.path(q, hit[0]) if hit else None))
    cputs = on(g, curs, 'TIMESERIES_COUNT', '.put', '.replace')
    ctx.need('counts written', len(cputs))
    cid = {}
    none_did = memo(assume_block(lambda a, b: (
        lambda p: p is not None and bool(p[0]) and all(
            wide(t) and c == -1 for t, c in p[0].items()))(positive(a, b)) or
        a[0] == 'eq' and b and any(wide(x) and (
            is_cnt(y) or y == const(0)) for x, y in (
            a[1:], a[:0:-1]))))
    for n in cputs:
        k = encoded(own_args(g, n)[0], 'encode_key')
        v = encoded(own_args(g, n)[1], 'encode_value')
        ok = k is not None and v is not None and same(k, pid)
        if ok:
            c, ts = linear(v)
            cnt = [t for t, x in ts if x == 1 and is_cnt(t)]
            wid = [t for t, x in ts if x == -1 and wide(t)]
            left = [t for t, x in ts if x == 1 and wide(t)]
            ok = len(cnt) + len(wid) == len(ts) and len(cnt) < 2
            if left:
                ok = len(ts) == 1 and c == 0
                wid = left
        res5.append((n.loc, None if ok else [n.id]))
        if ok:
            cid[n.id] = 'wide' if wid else -c
    for n in dels:
        res5.append((n.loc, g.unfollowed(
            n, lambda m: m.id in cid, lambda m: m.id in sid or
            g.is_return(m), lambda m: throw(m) or none_did(m))))
        q = g.reach(n.succ, block=lambda m: m.id in did or m.id in cid)
        for i in q:
            for j in g.nodes[i].succ:
                j = j if isinstance(j, int) else j.id
                if j in cid and cid[j] != 'wide' and keep[n.id] and \
                        'wide' not in keep[n.id]:
                    ok = cid[j] == max(keep[n.id]) + 1
                    res5.append((g.nodes[j].loc, None if ok else [j]))
    # every partition with a limit
    res6 = []
    nol = any_lit(neg(truthy_lit(is_(lim))), none_lit(is_(lim)))
    fl = assume_block(full)
    for it in its:
        res6.append((it.loc, g.skipped(it, lambda m: m.id in sid,
                                       any_lit(nol, full))))
    itend = {n.id for n in g.kind('iterend') if any(
        n.ast is it.ast for it in its)}
    for n in g.nodes:
        if g.is_return(n):
            q = g.reach([n], back=True, block=lambda m: m.id in itend or
                        fl(m))
            res6.append((n.loc, g.path(q, 0)[::-1] if 0 in q else None))
    once(ctx, 'only-own-partition-is-cleaned', where, res, fg=g,
         msg='an entry of another partition may be deleted')
    once(ctx, 'least-entries-are-kept', where, res2, fg=g,
         msg='an entry is deleted though no more than the configured least '
             'number of entries is left')
    once(ctx, 'only-what-exceeds-is-deleted', where, res3, fg=g,
         msg='an entry is deleted that exceeds no limit')
    once(ctx, 'what-exceeds-is-deleted', where, res4, fg=g,
         msg='an entry that exceeds a limit is not deleted')
    once(ctx, 'deleted-entries-are-told', where, res5, fg=g,
         msg='a deleted entry is not told with its own id and reference, or '
             'still counted')
    once(ctx, 'limited-partitions-are-cleaned', where, res6, fg=g,
         msg='a partition with a limit is not cleaned up')


def _mentions(a, t):
    return any(contains(x, unage(t)) for x in a[1:] if isinstance(x, tuple))


def memo(test):
    """a test of nodes that remembers"""
    seen = {}

    def f(m):
        if m.id not in seen:
            seen[m.id] = test(m)
        return seen[m.id]
    return f


def no_max(par):
    """the node is on a path without a limit of entries"""
    size, mx = par('size'), par('max_entries')

    def test(m):
        fs = m.facts or ()
        nosize = any(a[0] == 'none' and b and unage(a[1]) == size or
                     a[0] == 'truthy' and not b and 'entries' in show(a[1])
                     for a, b in fs)
        nomax = any(a[0] == 'none' and b and unage(a[1]) == mx
                    for a, b in fs)
        return nosize and nomax
    return test


def nodur(m, par):
    return any(a[0] == 'none' and b and unage(a[1]) == par('duration')
               for a, b in m.facts or ())


def cleanup(ctx):
    """entries and their references are deleted together"""
    prog = ctx.prog
    fns = set()
    g = ctx.flow(LB + '_cleanup_loop', outside(prog, BE))
    for n in g.calls(EXECUTE):
        fns.add(callee_of(prog, executed(n)))
    if len(fns) != 1 or None in fns:
        raise AnalysisError('the function that cleans up is not known')
    g = ctx.flow(fns.pop(), outside(prog, BE))
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    ser = [n for n in g.calls('.ext_cleanup', TD + 'ext_cleanup')
           if 'timeseries' in show(n.data['base'])]
    ref = [n for n in g.calls('.ext_cleanup') if n not in ser] + [
        n for n in g.kind('call') if n.data['callee'].endswith(
            'RefDb.ext_cleanup')]
    ctx.need('cleanups', len(ser))
    ctx.need('cleanups of references', len(ref))
    res, res2 = [], []
    rid = {n.id for n in ref}
    for n in ser:
        r = is_(n.data['res'])
        a = own_args(g, n)
        empty = any_lit(neg(truthy_lit(r)), lambda x, b: not b and
                        x[0] == 'truthy' and contains(x[1], unage(
                            n.data['res'])))
        res.append((n.loc, g.unfollowed(
            n, lambda m: m.id in rid, lambda m: g.is_return(m) or
            m.kind == 'withexit', lambda m: throw(m) or assume_block(
                empty)(m))))
        for m in ref:
            b = own_args(g, m)
            ok = len(b) == 2 and len(a) == 3 and b[0] == a[0] and r(
                b[1]) and 'ext_begin' in show(b[0])
            res.append((m.loc, None if ok else [m.id]))
        most = a[2] if len(a) > 2 else const(None)
        k, _ = linear(most)
        for m in g.nodes:
            if not g.is_return(m):
                continue
            v = m.data['value']
            if v == const(False) or v == const(None):
                few = any_lit(empty, lambda x, b: (
                    lambda p: p is not None and len(p[0]) == 1 and list(
                        p[0].values()) == [-1] and is_len(list(
                            p[0])[0], r) and p[1] <= k)(positive(x, b)))
                res2.append((m.loc, g.unheld(m, few, set())))
            elif v != const(True) and not r(v) and not is_len(v, r):
                raise AnalysisError('unknown result of cleanup')
    once(ctx, 'references-go-with-entries', where, res, fg=g,
         msg='entries are deleted while their references stay')
    once(ctx, 'cleanup-goes-on', where, res2, fg=g,
         msg='a cleanup that stopped at its limit is told to be complete')
