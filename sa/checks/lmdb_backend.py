"""LMDB backend: registration, flushing, lifecycle, use of the database."""

import ast

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .clients import self_attr_term
from .eventer_server2 import THROW
from .followers import json_path
from .runners import outside, cancelled, failure, at_calls, awaited
from .server_main import ahead, unmet
from .syncing import done_of

LM = EV + 'backends.lmdb.'
BE = LM + 'backend.'
LB = BE + 'LmdbBackend.'
CLOSED = 'BackendClosedError'

GET_ID = LM + 'systemdb.SystemDb.get_last_event_id'
GET_TS = LM + 'systemdb.SystemDb.get_last_timestamp'
SET_ID = LM + 'systemdb.SystemDb.set_last_event_id'
SET_TS = LM + 'systemdb.SystemDb.set_last_timestamp'
MATCH = LM + 'conditions.Conditions.matches'
LATEST = LM + 'latestdb.LatestDb.add'
SERIES = LM + 'timeseriesdb.TimeseriesDb.add'
REF_ADD = LM + 'refdb.RefDb.add'
REF_REMOVE = LM + 'refdb.RefDb.remove'


def res_of(t, callee, *args):
    """t is the result of a call of callee, whose arguments (self aside)
    satisfy args"""
    if t[0] != 'r' or t[2][:2] != ('call', callee):
        return False
    a = [x for x in t[2][2:] if x[0] != 'kwarg']
    k = {x[1]: x[2] for x in t[2][2:] if x[0] == 'kwarg'}
    a = a[1:] + list(k.values())
    return len(a) == len(args) and all(f(x) for f, x in zip(args, a))


def db_calls(g, *names):
    return [n for n in g.kind('call') if n.data['callee'] in names]


def own_args(g, n):
    """arguments of a method call, self aside"""
    a = list(n.data['args'])
    if n.data['base'] is not None and a and a[0] == n.data['base']:
        a = a[1:]
    return a + [v for _, v in n.data['kws']]


def refuses_closed(ctx, prog, g, what):
    """a closed backend raises and does nothing"""
    where = short(g.func.qual)
    is_open = any_lit(
        truthy_lit(lambda t: t[0] == 'a' and t[2] == 'is_open'),
        neg(truthy_lit(lambda t: t[0] == 'a' and t[2] in (
            'is_closing', 'is_closed'))))
    res = [(n.loc, g.unheld(n, is_open, set())) for n in what]
    shut = assume_block(neg(is_open))
    res2 = []
    for n in g.nodes:
        if n.kind == 'assume' and shut(n):
            par = g.reach([n])
            hit = [i for i in par if g.is_return(g.nodes[i]) or
                   g.nodes[i].kind == 'uncaught' and
                   CLOSED not in str(g.nodes[i].data)]
            res2.append((n.loc, g.path(par, hit[0]) if hit else None))
    ctx.need(f'tests whether the backend is open in {where}', len(res2))
    once(ctx, 'closed-backend-is-refused', where, res + res2, fg=g,
         msg='a closed backend is used, or the error is another one')


@check('C20')
def register(ctx):
    nothing_bounded(ctx, [EV + 'backends.lmdb.' + i for i in (
        'backend', 'environment', 'latestdb', 'refdb', 'systemdb',
        'timeseriesdb')],
                    'registered events are forgotten when there are many')
    prog = ctx.prog
    g = ctx.flow(LB + 'register', outside(prog, BE))
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    evs = ('p', g.func.params[1])
    lat = db_calls(g, LATEST)
    ser = db_calls(g, SERIES)
    radd = db_calls(g, REF_ADD)
    rrem = db_calls(g, REF_REMOVE)
    setid, setts = db_calls(g, SET_ID), db_calls(g, SET_TS)
    for k, x in (('additions of latest events', lat),
                 ('additions of timeseries events', ser),
                 ('additions of references', radd),
                 ('removals of references', rrem),
                 ('last ids kept', setid), ('last timestamps kept', setts)):
        ctx.need(k, len(x))
    calls = lat + ser + radd + rrem + setid + setts
    adds = [n for n in g.kind('add') if self_attr_term(n.data['obj']) and
            n.data['value'] == evs]
    ctx.need('batches queued', len(adds))
    qids = {n.id for n in adds}
    refuses_closed(ctx, prog, g, calls + adds)
    its = [it for it in g.kind('iter') if elem_of(it.data['value'], is_(evs))]
    ctx.need('walks over events', len(its))

    def lits(e):
        srv = lambda t: unage(t) == unage(
            ('a', ('a', e, 'id', None), 'server', None))
        eid = lambda t: unage(t) == unage(('a', e, 'id', None))
        ts = lambda t: unage(t) == unage(('a', e, 'timestamp', None))
        lid = lambda t: res_of(t, GET_ID, srv)
        lts = lambda t: res_of(t, GET_TS, srv)
        newer = lambda a, b: a[0] == 'lt' and b and lid(a[1]) and \
            eid(a[2]) or a[0] == 'le' and not b and eid(a[1]) and lid(a[2])
        later = lambda a, b: a[0] == 'lt' and not b and ts(a[1]) and \
            lts(a[2]) or a[0] == 'le' and b and lts(a[1]) and ts(a[2])
        fits = truthy_lit(lambda t: res_of(
            t, MATCH, lambda x: unage(x) == unage(e)))
        return [newer, later, fits]
    res, res2, res3, res4, res5 = [], [], [], [], []
    for n in calls:
        es = {x for x in subterms(('tup', tuple(n.data['args']))) if x and
              x[0] == 'el' and elem_of(x, is_(evs))}
        if n.data['callee'] == REF_REMOVE and not es:
            # results of the addition carry no element
            es = {it.data['value'] for it in its}
        if len({unage(e) for e in es}) != 1:
            res.append((n.loc, [n.id]))
            continue
        e = es.pop()
        for i in range(3):
            res.append((n.loc, guarded(g, n, e, lambda x, i=i: lits(x)[i])))
    once(ctx, 'only-valid-events', where, res, fg=g,
         msg='an event that is not newer than the last of its server, older '
             'in time or against the conditions is taken')
    for it in its:
        e = it.data['value']
        u = unage(e)
        ex = any_lit(*[neg(x) for x in lits(e)])
        for ids in (lat, ser):
            ok = {n.id for n in ids if u in {unage(a) for a in own_args(
                g, n)}}
            res2.append((it.loc, g.skipped(it, lambda m: m.id in ok, ex)))
        res2.append((it.loc, g.early(it)))
    once(ctx, 'valid-events-are-taken', where, res2, fg=g,
         msg='a valid event is not put in the databases')
    # references
    refs = {}
    for n in radd:
        a = own_args(g, n)
        refs[n.id] = unage(seq_base(a[1])) if len(a) > 1 else None
        ok = len(a) == 2 and elem_of(a[0], is_(evs))
        res3.append((n.loc, None if ok else [n.id]))
    rid = {n.id for n in radd}

    def into(v):
        return lambda m: m.kind == 'add' and unage(m.data['obj']) in \
            refs.values() and v(m.data['value']) or m.id in rid and \
            v(own_args(g, m)[1])
    ends = lambda it: lambda m: m.id in rid or g.is_return(m) or \
        g.loop_next(it)(m)
    for n in lat:
        r = unage(n.data['res'])
        ref = lambda t: (t[0] == 'a' and t[2] == 'added_ref' or t[0] == 'i'
                         and t[2] == const(0)) and unage(t[1]) == r
        rem = lambda t: (t[0] == 'a' and t[2] == 'removed_ref' or t[0] == 'i'
                         and t[2] == const(1)) and unage(t[1]) == r
        none = lambda f: assume_block(
            lambda a, b: (a[0] == 'none' and b or a[0] == 'truthy' and
                          not b) and f(a[1]))
        put = into(ref)
        noref, norem = none(ref), none(rem)
        res3.append((n.loc, g.unfollowed(
            n, put, ends(its[0]), lambda m: throw(m) or noref(m))))
        ids = {m.id for m in rrem if any(rem(x) for x in subterms(
            ('tup', tuple(m.data['args']))) if x)}
        res4.append((n.loc, g.unfollowed(
            n, lambda m: m.id in ids, lambda m: g.is_return(m) or
            g.loop_next(its[0])(m), lambda m: throw(m) or norem(m))))
    gone = lambda t: t[0] == 'a' and t[2] == 'removed_ref' or \
        t[0] == 'i' and t[2] == const(1) and unage(t[1]) in [
            unage(m.data['res']) for m in lat]
    for n in rrem:
        a = own_args(g, n)
        ok = len(a) == 1 and a[0][0] == 'op' and a[0][1] == 'star' and \
            gone(a[0][2]) or \
            len(a) == 2 and all(x[0] == 'i' and gone(x[1]) and
                                x[2] == const(i) for i, x in enumerate(a))
        res4.append((n.loc, None if ok else [n.id]))
    for n in ser:
        r = unage(n.data['res'])
        put = into(lambda t: t[0] == 'el' and unage(seq_base(t[1])) == r or
                   unage(seq_base(t)) == r)
        over = lambda m: m.kind == 'iterend' and unage(seq_base(
            m.data['iter'])) == r
        res3.append((n.loc, g.unfollowed(
            n, lambda m: put(m) or over(m), ends(its[0]), throw)))
    once(ctx, 'references-are-kept', where, res3, fg=g,
         msg='a database keeps an event that is not referred to')
    once(ctx, 'replaced-reference-is-removed', where, res4, fg=g,
         msg='the reference to a replaced event stays, or another is removed')
    for it in its:
        e = it.data['value']
        u = unage(e)
        want = [(rid, lambda a: unage(a[0]) == u),
                ({n.id for n in setid},
                 lambda a: [unage(x) for x in a] == [unage(
                     ('a', e, 'id', None))]),
                ({n.id for n in setts},
                 lambda a: [unage(x) for x in a] == [
                     unage(('a', ('a', e, 'id', None), 'server', None)),
                     unage(('a', e, 'timestamp', None))])]
        for ids, args in want:
            for i in ids:
                if not args(own_args(g, g.nodes[i])):
                    res5.append((g.nodes[i].loc, [i]))
            none = [empty_lit(o) for o in set(refs.values()) if o]
            some = [m for m in g.nodes if m.kind == 'assume' and (
                m.data['atom'][0] == 'none' and not m.data['pol'] or
                m.data['atom'][0] == 'truthy' and m.data['pol']) and
                m.data['atom'][1][0] == 'a' and
                m.data['atom'][1][2] == 'added_ref']
            put = [m for m in g.kind('add')
                   if unage(m.data['obj']) in refs.values()]
            for n in (some + put) if some else lat:
                res5.append((n.loc, g.unfollowed(
                    n, lambda m: m.id in ids, lambda m: g.is_return(m) or
                    g.loop_next(it)(m), lambda m: throw(m) or any(
                        assume_block(x)(m) for x in none))))
    once(ctx, 'last-of-server-is-kept', where, res5, fg=g,
         msg='an event is stored and the last id, the last timestamp or its '
             'references are not')
    # a batch is not split
    res, res2 = [], []
    first = {n.id for n in lat + ser}
    for n in lat + ser:
        par = g.reach([n], block=lambda m: m.id in qids)
        hit = [i for i in par if g.nodes[i].kind == 'suspend' or
               g.is_return(g.nodes[i])]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    for n in adds:
        par = g.reach(n.succ)
        hit = [i for i in par if i in qids or i in first]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'batch-is-not-split', where, res, fg=g,
         msg='a flush may come between the events of a batch and the batch')
    # telling
    cbs = {n.data['attr']: n.data['value'][1] for n in ctx.flow(
        BE + 'create', outside(prog, BE)).kind('store')
        if n.data['value'][0] == 'p'}
    cb = {a for a, p in cbs.items() if p == 'registered_events_cb'}
    if len(cb) != 1:
        raise AnalysisError('the callback is not kept')
    cb = cb.pop()
    iscb = lambda t: self_attr_term(t) and t[2] == cb
    tells = {n.id for n in g.kind('call') if n.data['base'] == ('p', 'self')
             and n.data['callee'] == '.' + cb or n.data['args'] and iscb(
                 n.data['args'][0])}
    ctx.need('announcements', len(tells))
    unset = assume_block(lambda a, b: (
        a[0] == 'none' and b or a[0] == 'truthy' and not b) and iscb(a[1]))
    for i in tells:
        n = g.nodes[i]
        a = [x for x in n.data['args'] if not iscb(x) and x != ('p', 'self')]
        res2.append((n.loc, None if a == [evs] and (
            n.data['awaited'] or awaited(g, n)) else [i]))
        res2.append((n.loc, g.unpreceded(n, lambda m: m.id in qids)))
        par = g.reach(n.succ)
        hit = [j for j in par if j in tells]
        res2.append((n.loc, g.path(par, hit[0]) if hit else None))
    for n in g.nodes:
        if g.is_return(n):
            res2.append((n.loc, None if n.data['value'] == evs else [n.id]))
            res2.append((n.loc, g.unpreceded(n, lambda m: m.id in qids)))
    res2.append((g.func.loc, g.unfollowed(
        g.entry, lambda m: m.id in tells, g.is_return,
        lambda m: throw(m) or unset(m))))
    once(ctx, 'batch-is-announced-once', where, res2, fg=g,
         msg='a registered batch is not announced and returned once')


EXECUTE = LM + 'environment.Environment.execute'


def backend_attrs(ctx, prog):
    """attributes a new backend keeps its parts in"""
    g = ctx.flow(BE + 'create', outside(prog, BE))
    r = {}
    for n in g.kind('store'):
        v = n.data['value']
        if n.data['base'][0] != 'o':
            continue
        if v[0] == 'p':
            r[v[1]] = n.data['attr']
        elif call_args(v, 'Queue') is not None:
            r['queue'] = n.data['attr']
        elif v[0] == 'r' and v[2][:2] == (
                'call', LM + 'environment.create'):
            r['env'] = n.data['attr']
        elif v[0] == 'r' and v[2][:2] == ('call', EXECUTE):
            r['dbs'] = n.data['attr']
    for k in ('registered_events_cb', 'flushed_events_cb', 'queue', 'env',
              'dbs'):
        if k not in r:
            raise AnalysisError(f'a new backend keeps no {k}')
    return g, r


def loops_of(ctx, prog, g, attrs):
    """(flush loop, cleanup loop)"""
    fs = passed_callables(ctx, g, '.spawn')
    flush, clean = [], []
    from .lmdb_access import Access
    a = Access(prog)
    for f in fs:
        if not f.qual.startswith(BE):
            continue
        if any(isinstance(n, ast.Attribute) and n.attr == attrs['queue']
               for q in a.closure({f.qual})
               for n in ast.walk(a.funcs[q].node)):
            flush.append(f)
        else:
            clean.append(f)
    ctx.need('flush loop', len(flush))
    ctx.need('cleanup loop', len(clean))
    if len(flush) > 1 or len(clean) > 1:
        raise AnalysisError('several flush or cleanup loops')
    return flush[0], clean[0]


def executed(n):
    """function the environment executes at a call"""
    a = own_args(None, n)
    return a[0] if a else None


def flush_function(ctx, prog, fl):
    """the function by which the flush loop writes"""
    from .lmdb_access import Access
    a = Access(prog)
    mine = {q for q in a.funcs if q == fl.qual or q.startswith(
        fl.qual + '.')}

    def found(q):
        return any(t.qual == EXECUTE for _, t in a.edges.get(q, ()))

    def reaches(q):
        return any(found(x) for x in a.closure({q}) if x != EXECUTE)
    top = {t.qual for q in mine for _, t in a.edges[q]
           if t.qual not in mine and t.qual != EXECUTE and
           t.qual.startswith(BE) and reaches(t.qual)}
    top = {q for q in top if not any(
        x in top and x != q for x in a.closure({q}))} or {
            q for q in mine if found(q)}
    ctx.need('flushes', len(top))
    if len(top) != 1:
        raise AnalysisError('the flush is not one function')
    return prog.functions[top.pop()]


@check('C21')
def flush(ctx):
    prog = ctx.prog
    cg, at = backend_attrs(ctx, prog)
    fl, _ = loops_of(ctx, prog, cg, at)
    ff = flush_function(ctx, prog, fl)
    g = ctx.flow(ff, outside(prog, LM))
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    begins = g.calls('.begin')
    ctx.need('transactions', len(begins))
    bids = {n.id for n in begins}
    txns = {unage(n.data['res']) for n in begins}
    curs = {unage(n.data['res']): n for n in g.calls('.cursor')}
    writes = [n for n in g.calls('.put', '.pop', '.delete', '.replace',
                                 '.putmulti') if n.data['base'] and unage(
        n.data['base']) in curs or n.data['base'] and unage(
            n.data['base']) in txns]
    ctx.need('writes', len(writes))
    wids = {n.id for n in writes}
    res = []
    for n in begins:
        k = dict(n.data['kws']).get('write')
        res.append((n.loc, None if k == const(True) and n.off else [n.id]))
        par = g.reach(n.succ)
        hit = [i for i in par if i in bids]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    for n in writes:
        c = curs.get(unage(n.data['base']))
        if c is None:
            tx = n.data['base']
        else:
            tx = c.data['base'] if c.data['base'] else c.data['args'][0]
        res.append((n.loc, None if unage(tx) in txns and n.off else [n.id]))
        res.append((n.loc, g.unpreceded(n, lambda m: m.id in bids)))
    # a row that is there already is replaced
    bad = [n for n in writes if any(
        k == 'overwrite' and v != const(True) or
        k == 'append' and v != const(False) for k, v in n.data['kws']) or
        n.data['callee'] == '.put' and len(n.data['args']) > 2 + (
            unage(n.data['base']) not in curs)]
    once(ctx, 'rows-are-replaced', where, [
        (n.loc, [n.id] if n in bad else None) for n in writes], fg=g,
        msg='what is written does not replace what was there')
    # nothing is committed by hand
    for n in g.calls('.commit', '.abort'):
        if n.data['base'] and unage(n.data['base']) in txns:
            res.append((n.loc, [n.id]))
    for n in begins:
        outer = [x for x in g.kind('withexit') if in_with(x, n)]
        ctx.need('ends of the transaction', len(outer))
        oid = {x.id for x in outer}
        par = g.reach(outer)
        hit = [i for i in par if i in wids]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
        # a failure is not survived inside of it
        for m in g.kind('throws', 'raise'):
            if m.off and m.id in g.reach([n]):
                p2 = g.reach(m.succ, block=lambda x: x.id in oid)
                hit = [i for i in p2 if i in wids]
                res.append((m.loc, g.path(p2, hit[0]) if hit else None))
    once(ctx, 'one-transaction', where, res, fg=g,
         msg='what is flushed is not written by a single transaction')
    # ------------------------------------------------ what is taken
    reg = ctx.flow(LB + 'register', outside(prog, LM) | {
        MATCH, GET_ID, GET_TS})
    pend = {}
    ev = ('el', ('p', reg.func.params[1]))
    eu = None
    for n in reg.kind('iter'):
        if elem_of(n.data['value'], is_(ev[1])):
            eu = unage(n.data['value'])
    if eu is None:
        raise AnalysisError('events are not walked over')
    taken = [n for n in g.kind('store') if not n.off]
    tk = {}
    for n in taken:
        tk.setdefault((nover(n.data['base']), n.data['attr']), []).append(n)

    def owner(t):
        """the kept attribute a container is part of"""
        best = None
        for x in subterms(t):
            if x and x[0] == 'a' and (nover(x[1]), x[2]) in tk:
                best = (nover(x[1]), x[2])
        return best
    for n in reg.nodes:
        if n.kind == 'setitem':
            b, k, v = n.data['base'], n.data['key'], n.data['value']
        elif n.kind == 'add':
            b, k, v = n.data['obj'], None, n.data['value']
        else:
            continue
        o = owner(b)
        if o is None:
            continue
        pend.setdefault((o, what(v, eu)), []).append(n)
    kinds = {k for _, k in pend}
    ctx.need('kinds of pending changes', len(kinds))
    res = []
    for want, msg in (('event', 'latest and timeseries events'),
                      ('type', 'event types'), ('id', 'last event ids'),
                      ('timestamp', 'last timestamps'),
                      ('refs', 'references'), ('batch', 'batches')):
        ctx.ob('pending-is-taken', f'{where}.{want}', want in kinds,
               g.func.loc, f'no pending {msg} are taken by a flush')
    fresh = lambda t: t[0] == 'o' or t[0] == 'rec' and all(
        fresh(v) for _, v in t[2])
    its = [n for n in g.kind('iter', 'iterend')]
    lasts = [n for ns in tk.values() for n in ns
             if any(o == (nover(n.data['base']), n.data['attr'])
                    for o, _ in pend)]
    lid = {n.id for n in lasts}
    owners = {o for o, _ in pend}
    ex = {n.id for n in g.kind('suspend') if has_offload(n)}
    closedenv = assume_block(neg(truthy_lit(
        lambda t: t[0] == 'a' and t[2] == 'is_open')))
    cb = at['flushed_events_cb']
    iscb = lambda t: t[0] == 'a' and t[2] == cb
    nocb = assume_block(lambda a, b: (
        a[0] == 'none' and b or a[0] == 'truthy' and not b) and iscb(a[1]))
    for o in owners:
        ids = {n.id for n in tk[o]}
        for n in tk[o]:
            if not fresh(n.data['value']):
                res.append((n.loc, [n.id]))
        # taken before the wait, together
        res.append((tk[o][0].loc, g.unfollowed(
            g.entry, lambda m: m.id in ids, lambda m: m.id in ex or
            g.is_return(m), lambda m: throw(m) or closedenv(m))))
        for n in tk[o]:
            par = g.reach(n.succ)
            hit = [i for i in par if i in ids]
            res.append((n.loc, g.path(par, hit[0]) if hit else None))
    for n in lasts:
        par = g.reach([n])
        nxt = g.reach([g.nodes[i] for i in par
                       if g.nodes[i].kind == 'suspend'])
        hit = [j for j in nxt if j in lid and j != n.id]
        if hit:
            res.append((n.loc, g.path(nxt, hit[0])))
    once(ctx, 'taken-at-once', where, res, fg=g,
         msg='pending changes are not taken all at the same moment, or stay '
             'pending')
    # ------------------------------------------------ where it goes
    res = []
    dest = {'event': ('LATEST_DATA', 'TIMESERIES_DATA'),
            'type': ('LATEST_TYPE',), 'id': ('SYSTEM_LAST_EVENT_ID',),
            'timestamp': ('SYSTEM_LAST_TIMESTAMP',), 'refs': ('REF',)}
    bykind = {}
    for (o, k), ns in pend.items():
        for n in ns:
            b = n.data['base'] if n.kind == 'setitem' else n.data['obj']
            bykind.setdefault(k, set()).add(root_of(b))
    for k, types in dest.items():
        for root in bykind.get(k, ()):
            mine = lambda t: root_of(t) == root
            walks = [n for n in g.kind('iter') if n.off and mine(
                n.data['value'])]
            ends = [n for n in g.kind('iterend') if n.off and mine(
                ('el', n.data['iter'], None))]
            if not walks:
                res.append((g.func.loc, [0]))
                continue
            groups = {}
            for n in walks + ends:
                groups.setdefault((id(n.ast), n.fn), []).append(n)
            puts = {n.id for n in writes if n.data['callee'] == '.put'}
            ok = {i for i in puts if db_type(curs, g.nodes[i]) in types}
            best = None
            for ns in groups.values():
                r = []
                done = {n.id for n in ns}
                for n in begins:
                    r.append((n.loc, g.unfollowed(
                        n, lambda m: m.id in done, lambda m: m.kind ==
                        'offloaded' or g.is_return(m), throw)))
                for it in ns:
                    if it.kind != 'iter' or k == 'refs':
                        continue
                    u = unage(it.data['value'])
                    inner = {n.id for n in walks + ends if n is not it and
                             contains(n.data['iter'], u)}
                    r.append((it.loc, g.skipped(
                        it, lambda m: m.id in ok or m.id in inner,
                        lambda a, b: False)))
                if best is None or sum(1 for x in r if x[1]) < sum(
                        1 for x in best if x[1]):
                    best = r
            res += best
            for it in walks:
                u = unage(it.data['value'])
                res += [(g.nodes[i].loc, [i]) for i in puts - ok if db_type(
                    curs, g.nodes[i]) != 'TIMESERIES_COUNT' and any(
                        contains(a, u) for a in g.nodes[i].data['args'])]
    once(ctx, 'taken-is-written', where, res, fg=g,
         msg='pending changes are not written to their database')
    # ------------------------------------------------ announced after
    tells = {n.id for n in g.kind('call') if n.data['callee'] == '.' + cb or
             n.data['args'] and iscb(n.data['args'][0])}
    ctx.need('announcements', len(tells))
    batch = bykind.get('batch', set())
    off = {n.id for n in g.kind('offloaded')}
    res = []
    for i in tells:
        n = g.nodes[i]
        a = [x for x in n.data['args'] if not iscb(x) and x != ('p', 'self')]
        ok = len(a) == 1 and (
            a[0][0] == 'r' and a[0][2][1] == '.popleft' and
            nover(a[0][2][2]) in batch or a[0][0] == 'el' and
            nover(seq_base(a[0][1])) in batch)
        res.append((n.loc, None if ok and (
            n.data['awaited'] or awaited(g, n)) else [i]))
        res.append((n.loc, g.unpreceded(n, lambda m: m.id in off)))
    # every batch
    empty = assume_block(lambda a, b: a[0] == 'truthy' and not b and nover(
        a[1][2] if a[1][:2] == ('op', 'content') else a[1]) in batch)
    over = lambda m: empty(m) or m.kind == 'iterend' and nover(seq_base(
        m.data['iter'])) in batch
    for n in g.kind('offloaded'):
        res.append((n.loc, g.unfollowed(
            n, over, g.is_return, lambda m: throw(m) or nocb(m))))
    for n in g.kind('call'):
        if n.data['callee'] in ('.popleft', '.pop', '.clear') and \
                n.data['base'] and nover(n.data['base']) in batch:
            res.append((n.loc, None if n.data['callee'] == '.popleft' and
                        not n.data['args'] else [n.id]))
            res.append((n.loc, g.unfollowed(
                n, lambda m: m.id in tells, lambda m: g.is_return(m) or
                m.kind == 'call' and m.data['callee'] == '.popleft' and
                m is not n, throw)))
    for it in g.kind('iter'):
        if nover(seq_base(it.data['iter'])) in batch:
            res.append((it.loc, g.skipped(it, lambda m: m.id in tells,
                                          lambda a, b: False)))
            res.append((it.loc, g.early(it)))
    for i in tells:
        n = g.nodes[i]
        par = g.reach(n.succ, block=lambda m: m.kind == 'iter' or
                      m.kind == 'call' and m.data['callee'] == '.popleft')
        hit = [j for j in par if j in tells]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'announced-after-commit', where, res, fg=g,
         msg='a batch is announced as persisted before it is, twice, out of '
             'order or not at all')


def in_with(x, begin):
    """end of the transaction"""
    return x.kind == 'withexit' and unage(x.data['value']) == unage(
        begin.data['res'])


def has_offload(n):
    return any(x[:2] == ('op', 'offload') for x in subterms(
        n.data['value']) if isinstance(x, tuple) and x)


def nover(t):
    """forget versions and generations"""
    return _nover(unage(t))


def _nover(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'a' and len(t) == 4:
        return ('a', _nover(t[1]), t[2], None)
    if t[0] == 'c':
        return t
    return tuple(_nover(x) if isinstance(x, tuple) else x for x in t)


def root_of(t):
    """the kept container an element comes from"""
    while True:
        if t[0] == 'el':
            t = seq_base(t[1])
        elif t[0] == 'i':
            t = t[1]
        elif t[0] == 'm' and t[2] in ('items', 'values', 'keys', 'get'):
            t = t[1]
        elif t[0] == 'a' and t[1][0] in ('el', 'i'):
            t = t[1]
        elif t[0] == 'op' and t[1] in ('unpacked', 'star', 'list', 'tuple'):
            t = t[2]
        else:
            return nover(t)


def what(v, e):
    u = unage(v)
    if u == e or v[0] == 'tup' and any(unage(x) == e for x in v[1]):
        # an event, alone or with its references
        if v[0] == 'tup' and any(x[0] == 'o' for x in v[1]):
            return 'refs'
        return 'event'
    if v[0] == 'a' and unage(v[1]) == e:
        return v[2]
    if v[0] == 'p':
        return 'batch'
    return 'other'


def db_type(curs, n):
    c = curs.get(unage(n.data['base']))
    if c is None:
        return None
    for a in c.data['args']:
        for x in subterms(a):
            if x and x[0] == 'g' and '.DbType.' in x[1]:
                return x[1].split('.')[-1]
            if x and x[0] == 'g' and x[1].split('.')[-2:-1] == ['DbType']:
                return x[1].split('.')[-1]
    return None


def spawn_args(prog, g, f):
    """arguments the spawned function is given, by parameter"""
    for n in g.kind('call'):
        if n.data['callee'].split('.')[-1] != 'spawn':
            continue
        for i, a in enumerate(n.data['args']):
            pre = ()
            kw = {}
            while a and a[0] == 'part':
                pre = tuple(a[2]) + pre
                kw = {**dict(a[3]), **kw}
                a = a[1]
            if not a or callee_of(prog, a) is not f:
                continue
            ps = [p for p in f.params if p != 'self']
            vals = list(pre) + list(n.data['args'][i + 1:])
            return {**dict(zip(ps, vals)), **kw, **dict(n.data['kws'])}
    return {}


def conf_item(t, key):
    p = json_path(None, t)
    return p is not None and p[0] == ('p', 'conf') and tuple(p[1]) == (key, )


@check('C22')
def flush_loop(ctx):
    prog = ctx.prog
    opq = outside(prog, BE)
    cg, at = backend_attrs(ctx, prog)
    fl, cl = loops_of(ctx, prog, cg, at)
    throw = lambda m: m.kind in THROW
    isq = lambda t: t is not None and self_attr_term(t) and \
        t[2] == at['queue']
    isenv = lambda t: t is not None and self_attr_term(t) and t[2] == \
        at['env']
    # ------------------------------------------------ the request
    g = ctx.flow(LB + 'flush', opq)
    where = short(g.func.qual)
    puts = [n for n in g.calls('.put') if isq(n.data['base'])]
    ctx.need('flush requests', len(puts))
    made = [n for n in g.kind('call') if n.data['callee'].split('.')[-1] in (
        'create_future', 'Future')]
    ctx.need('futures', len(made))
    fut = {unage(n.data['res']) for n in made}
    waits = [m for m in g.kind('suspend') if unage(m.data['value']) in fut]
    over = {j for m in waits for j in m.succ
            if g.nodes[j].kind not in THROW}
    res = [(n.loc, None if len(own_args(g, n)) == 1 and unage(
        own_args(g, n)[0]) in fut and (n.data['awaited'] or awaited(
            g, n)) else [n.id]) for n in puts]
    pid = {n.id for n in puts}
    for m in waits:
        res.append((m.loc, g.unpreceded(m, lambda x: x.id in pid)))
    for m in g.nodes:
        if g.is_return(m):
            res.append((m.loc, None if m.id in over else g.unpreceded(
                m, lambda x: x.id in over)))
    res += [(n.loc, [n.id]) for n in timeboxed(
        g, lambda t: unage(t) in fut)]
    once(ctx, 'flush-waits-for-the-write', where, res, fg=g,
         msg='flush returns before what is registered is written')
    res = []
    for m in g.kind('throws'):
        if cancelled(m) or not any(p in pid or g.nodes[
                p].kind == 'suspend' and any(i in pid for i in g.nodes[
                    p].pred) for p in m.pred):
            continue
        par = g.reach([m])
        hit = [i for i in par if g.is_return(g.nodes[i])]
        told = [i for i in par if g.nodes[i].kind == 'uncaught' and
                CLOSED in str(g.nodes[i].data)]
        res.append((m.loc, g.path(par, hit[0]) if hit else
                    None if told else [m.id]))
    ctx.need('refused requests', len(res))
    once(ctx, 'closed-is-told-as-closed', where, res, fg=g,
         msg='a flush of a closed backend is another error than the '
             'closed-backend one')
    # ------------------------------------------------ the loop
    ff = flush_function(ctx, prog, fl)
    g = ctx.flow(ff, opq)
    shut = assume_block(neg(truthy_lit(
        lambda t: t[0] == 'a' and t[2] == 'is_open' and isenv(t[1]))))
    ran = {m.id for m in done_of(g, {n.id for n in db_calls(g, EXECUTE)})}
    bad = g.unfollowed(g.entry, lambda m: m.id in ran, g.is_return,
                       lambda m: throw(m) or shut(m))
    ctx.ob('answered-after-the-write', short(ff.qual), bad is None,
           g.func.loc, 'a flush ends well and nothing is written',
           g.show_path(bad) if bad else None)
    g = ctx.flow(fl, opq | ({ff.qual} - {fl.qual}))
    where = short(g.func.qual)
    ex = {n.id for n in db_calls(g, EXECUTE, ff.qual)}
    ctx.need('writes', len(ex))
    written = {m.id for m in done_of(g, ex)}
    shutenv = assume_block(neg(truthy_lit(
        lambda t: t[0] == 'a' and t[2] == 'is_open' and isenv(t[1]))))
    flushed = lambda m: m.id in written or shutenv(m)
    nowait = [n for n in g.calls('.get_nowait') if isq(n.data['base'])]

    def part_is_req(x):
        return x[0] == 'm' and x[2] in ('get', 'get_nowait') and isq(
            x[1]) or x[0] == 'r' and x[2][:1] == ('call', ) and x[2][1] in (
                '.get', '.get_nowait') and isq(x[2][2])
    isfut = lambda t: any(part_is_req(x) for x in subterms(t) if x) or \
        t[0] == 'a' and t[2] == 'result' and t[1][0] == 'exc' or \
        t[0] == 'r' and t[2][0] == 'wide'
    asks = [n for n in g.kind('suspend') if isfut(n.data['value'])]
    ctx.need('waits for a request', len(asks))
    nid = {n.id for n in nowait}
    takes = [(n, True) for n in nowait] + [
        (g.nodes[j], False) for n in asks for j in n.succ
        if g.nodes[j].kind not in THROW] + [
        (n, True) for n in g.kind('except') if 'CancelledWithResult' in str(
            n.data['value'][1])]
    ctx.need('requests taken', len(takes))
    kept = {n.id for n in g.kind('add') if isfut(n.data['value'])}
    kobj = {nover(g.nodes[i].data['obj']) for i in kept}
    settle = {n.id for n in g.calls('.set_result', '.set_exception')}
    fine = {n.id for n in g.calls('.set_result')}
    ctx.need('answers', len(fine))
    none = assume_block(lambda a, b: (a[0] == 'truthy' and not b or
                                      a[0] == 'none' and b) and isfut(a[1]))
    isdone = assume_block(lambda a, b: a[0] == 'truthy' and b and any(
        x[:1] == ('m', ) and x[2] == 'done' or x[0] == 'r' and
        x[2][:2] == ('call', '.done') for x in subterms(a[1]) if x))
    ok = lambda m: m.id in kept or m.id in settle
    res, res2 = [], []
    for n, past in takes:
        sink = lambda m: g.is_end(m) or m.kind == 'suspend' or \
            m.id in nid and m is not n
        excuse = lambda m: none(m) or past and m.kind == 'throws' and \
            n.id in m.pred and m is not n
        bad = g.unfollowed(n, ok, sink, excuse) if past else unmet(
            g, n, ok, sink, excuse)
        res.append((n.loc, bad))
        # answered once written
        par = ahead(g, n, flushed)
        hit = [i for i in par if i in fine]
        res2.append((n.loc, g.path(par, hit[0]) if hit else None))
    # hat.aio.wait_for hands over what was taken just before it is cancelled
    for n in g.calls('hat.aio.wait_for', 'aio.wait_for'):
        if not n.data['args'] or not isfut(n.data['args'][0]):
            continue
        cut = [j for m in g.kind('suspend') if n.id in m.pred or any(
            n.id in g.nodes[i].pred for i in m.pred) for j in m.succ
            if cancelled(g.nodes[j])]
        par = g.reach([g.nodes[j] for j in cut],
                      block=lambda m: m.kind == 'suspend')
        hit = [i for i in par if g.nodes[i].kind == 'except' and
               'CancelledWithResult' in str(g.nodes[i].data['value'][1])]
        res.append((n.loc, None if hit or not cut else [n.id]))
    once(ctx, 'requests-are-kept', where, res, fg=g,
         msg='a flush request is taken and dropped')
    res2 += [(n.loc, [n.id]) for n in timeboxed(g, lambda t: (
        t[0] == 'coro' and ff.qual in repr(t[:2]) or
        call_args(t, ff.qual) is not None))]
    once(ctx, 'answered-after-the-write', where, res2, fg=g,
         msg='a flush request is answered before anything is written')
    # every request is answered
    res = []
    nonempty = lambda o: assume_block(lambda a, b: a[0] == 'truthy' and not
                                      b and nover(a[1][2] if a[1][:2] == (
                                          'op', 'content') else a[1]) == o)
    over = lambda m: m.kind == 'iterend' and nover(seq_base(
        m.data['iter'])) in kobj or any(nonempty(o)(m) for o in kobj)
    qempty = lambda m: m.kind == 'assume' and m.data['pol'] and \
        m.data['atom'][0] == 'truthy' and any(
            x[0] == 'r' and x[2][:2] == ('call', '.empty') and isq(x[2][2])
            or x[0] == 'm' and x[2] == 'empty' and isq(x[1])
            for x in subterms(m.data['atom'][1]) if x) or \
        m.kind == 'throws' and 'QueueEmptyError' in str(m.data['value'][1])
    qclose = {n.id for n in g.calls('.close') if isq(n.data['base'])}
    selfclose = {n.id for n in g.kind('call') if n.data['callee'].split(
        '.')[-1] == 'close' and (n.data['base'] == ('p', 'self') or
                                 self_attr_term(n.data['base'] or ('c', 0))
                                 and 'group' in n.data['base'][2])}
    aclose = {n.id for n in g.kind('call') if isenv(n.data['base']) and
              n.data['callee'].split('.')[-1] == 'async_close'}
    for k, x in (('closings of the queue', qclose),
                 ('closings of the backend', selfclose),
                 ('closings of the environment', aclose)):
        ctx.need(k, len(x))
    for it in g.kind('iter'):
        if nover(seq_base(it.data['iter'])) not in kobj:
            continue
        v = unage(it.data['value'])
        noreq = lambda a, b: (
            a[0] == 'truthy' and not b or a[0] == 'none' and b) and (
                isfut(a[1]) or unage(a[1]) == v)
        noreq.facts = lambda fs: any(
            (a[0] == 'truthy' and not b or a[0] == 'none' and b) and
            unage(a[1]) == v for a, b in fs)
        res.append((it.loc, g.skipped(
            it, lambda m: m.id in settle or isdone(m), noreq)))
        res.append((it.loc, g.early(it)))
    for n in g.calls('.popleft', '.pop'):
        if nover(n.data['base']) in kobj:
            res.append((n.loc, g.unfollowed(
                n, lambda m: m.id in settle or isdone(m) or none(m),
                lambda m: g.is_end(m) or m.kind == 'suspend' or
                m.kind == 'call' and m.data['callee'] == n.data['callee'] and
                m is not n, lambda m: m.kind == 'throws' and
                n.id in m.pred)))
    res2 = []
    lost = lambda m: failure(m) and any(
        g.nodes[p].kind == 'call' and g.nodes[p].data['callee'].split(
            '.')[-1] in ('set_result', 'set_exception', 'get_nowait', 'done',
                         'close', 'popleft') for p in m.pred)
    for i in qclose:
        n = g.nodes[i]
        res2.append((n.loc, g.unfollowed(n, qempty, g.is_end, lost)))
    clears = {n.id for n in g.kind('call') if n.data['callee'] == '.clear'
              and n.data['base'] and nover(n.data['base']) in kobj}
    for i in kept:
        n = g.nodes[i]
        res2.append((n.loc, g.unfollowed(
            n, over, lambda m: g.is_end(m) or m.id in clears, lost)))
    res2.append((g.func.loc, g.unfollowed(
        g.entry, lambda m: m.id in qclose, g.is_end, lambda m: False)))
    once(ctx, 'every-request-is-answered', where, res + res2, fg=g,
         msg='a flush request may wait forever')
    bad = [n for n in g.calls('.set_exception') if CLOSED not in str(
        n.data['args'])]
    ctx.ob('every-request-is-answered', where + '.error', not bad,
           bad[0].loc if bad else g.func.loc,
           'a request of a closed backend fails with another error')
    # ------------------------------------------------ its end
    res = []
    res.append((g.func.loc, g.unfollowed(
        g.entry, lambda m: m.id in selfclose, g.is_end, lambda m: False)))
    once(ctx, 'end-closes-backend', where, res, fg=g,
         msg='the flush loop ends and the backend stays open')
    res = []
    edone = {m.id for m in done_of(g, aclose)}
    elost = at_calls(g, aclose)
    res.append((g.func.loc, g.unfollowed(
        g.entry, lambda m: m.id in edone, g.is_end, elost)))
    attempt = lambda m: m.id in ex or shutenv(m)
    for i in selfclose:
        n = g.nodes[i]
        res.append((n.loc, g.unfollowed(
            n, attempt, lambda m: m.id in aclose or g.is_end(m),
            lambda m: failure(m) and not any(
                p in ex for p in m.pred))))
    for i in aclose:
        n = g.nodes[i]
        res.append((n.loc, g.unpreceded(n, lambda m: m.id in selfclose)))
        par = g.reach(n.succ)
        hit = [j for j in par if j in ex]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    for m in g.nodes:
        # neither a write nor the end is cut
        if cancelled(m) and any(p in ex | aclose or g.nodes[
                p].kind == 'suspend' and any(
                    i in ex | aclose for i in g.nodes[p].pred)
                for p in m.pred):
            par = g.reach(m.pred and [g.nodes[m.pred[0]]] or [])
            res.append((m.loc, [m.id]))
    once(ctx, 'rest-is-written-at-the-end', where, res, fg=g,
         msg='the backend ends without a last flush, before it or with an '
             'open environment')
    # ------------------------------------------------ its period
    sa = spawn_args(prog, cg, fl)
    res = []
    aid = {m.id for m in asks}
    bounded = set()
    for n in g.calls('hat.aio.wait_for', 'asyncio.wait_for'):
        a = list(n.data['args'])
        t = dict(n.data['kws']).get('timeout', a[1] if len(a) > 1 else None)
        if t is not None and t[0] == 'p':
            t = sa.get(t[1])
        if t is not None and conf_item(t, 'flush_period'):
            bounded |= {j for j in n.succ if j in aid}
    for m in asks:
        res.append((m.loc, None if m.id in bounded else [m.id]))
    late = lambda m: m.kind == 'throws' and 'TimeoutError' in str(
        m.data['value'][1])
    nl = 0
    for m in asks:
        outs = [g.nodes[j] for p in m.pred for j in (*m.succ, *g.nodes[
            p].succ) if j not in aid]
        for x in outs:
            if x.kind in THROW and not late(x):
                continue
            nl += late(x)
            par = g.reach([x], block=lambda y: attempt(y) or throw(y))
            hit = [i for i in par if i in aid or g.is_end(g.nodes[i]) or
                   i in selfclose]
            res.append((m.loc, g.path(par, hit[0]) if hit else None))
    ctx.need('waits with a bound', nl)
    once(ctx, 'flushed-every-period', where, res, fg=g,
         msg='registered events may wait longer than the flush period')
    # ------------------------------------------------ cleanup
    g = ctx.flow(cl, opq)
    where = short(g.func.qual)
    cleans = {n.id for n in db_calls(g, EXECUTE)}
    ctx.need('cleanups', len(cleans))
    sa = spawn_args(prog, cg, cl)
    end = lambda n: n.kind == 'call' and n.data['callee'].split(
        '.')[-1] == 'close' and n.data['base'] == ('p', 'self')
    q = g.unfollowed(g.entry, end, g.is_end)
    ctx.ob('end-closes-backend', where, q is None, g.func.loc,
           'the cleanup loop ends and the backend stays open',
           g.show_path(q) if q else None)
    res = []
    cdone = done_of(g, cleans)
    sleeps = [n for n in g.calls('asyncio.sleep')
              if n.data['args'][:1] != (const(0), )
              and list(n.data['args'][:1]) != [const(0)]]
    ctx.need('pauses', len(sleeps))
    vals = {unage(g.nodes[i].data['res']) for i in cleans}
    more = assume_block(lambda a, b: a[0] == 'truthy' and b and any(
        unage(x) in vals for x in subterms(a[1]) if x))
    sid = {n.id for n in sleeps}
    for n in sleeps:
        t = n.data['args'][0]
        if t[0] == 'p':
            t = sa.get(t[1])
        res.append((n.loc, None if t is not None and conf_item(
            t, 'cleanup_period') else [n.id]))
        par = g.reach([n], block=lambda m: m.id in cleans or throw(m))
        hit = [i for i in par if i in sid and i != n.id or
               g.is_end(g.nodes[i])]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    for m in g.nodes:
        if more(m):
            par = g.reach([m], block=lambda x: x.id in cleans or throw(x))
            hit = [i for i in par if i in sid or g.is_end(g.nodes[i])]
            res.append((m.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'cleaned-every-period', where, res, fg=g,
         msg='old entries stay longer than a cleanup period')
    # ------------------------------------------------ creation
    g = cg
    where = short(g.func.qual)
    envs = [n for n in g.kind('call')
            if n.data['callee'] == LM + 'environment.create']
    ctx.need('environments', len(envs))
    eres = {unage(n.data['res']) for n in envs}
    isenv = lambda t: t is not None and unage(t) in eres
    res = []
    binds = {n.id for n in g.kind('call') if n.data['callee'].split(
        '.')[-1] == 'spawn' and any(
        a[0] == 'r' and a[2][1].split('.')[-1] in (
            'wait_closing', 'wait_closed') and isenv(a[2][2])
        for a in n.data['args'] if len(a) > 2 and len(a[2]) > 2) and any(
            a[0] in ('a', 'bm', 'm') and (a[1] if a[0] == 'bm' else a[2])
            .split('.')[-1] == 'close' for a in n.data['args'])}
    ctx.need('tie between environment and backend', len(binds))
    spawns = {f.qual: {n.id for n in g.kind('call') if n.data['callee'].split(
        '.')[-1] == 'spawn' and any(callee_of(prog, strip_part(a)) is f
                                    for a in n.data['args'])}
              for f in (fl, cl)}
    got = done_of(g, {n.id for n in envs})
    closes = {n.id for n in g.kind('call') if isenv(n.data['base']) and
              n.data['callee'].split('.')[-1] == 'async_close'}
    cdone = {m.id for m in done_of(g, closes)}
    clost = at_calls(g, closes)
    for x in got:
        for ids in (binds, *spawns.values()):
            res.append((x.loc, unmet(g, x, lambda m: m.id in ids,
                                     g.is_return, throw)))
        res.append((x.loc, unmet(
            g, x, lambda m: m.id in cdone, lambda m: m.kind == 'uncaught',
            lambda m: clost(m))))
        res.append((x.loc, unmet(
            g, x, lambda m: m.id in binds, lambda m: m.kind == 'suspend',
            throw)))
    for m in g.nodes:
        if cancelled(m) and any(g.nodes[p].kind == 'suspend' and any(
                i in closes for i in g.nodes[p].pred) for p in m.pred):
            res.append((m.loc, [m.id]))
    loops = set().union(*spawns.values())
    kept = {n.id for n in g.kind('store') if n.data['attr'] in (
        at['env'], at['dbs'])}
    for i in loops:
        n = g.nodes[i]
        for a in (at['env'], at['dbs']):
            ids = {j for j in kept if g.nodes[j].data['attr'] == a}
            res.append((n.loc, g.unpreceded(n, lambda m: m.id in ids)))
    once(ctx, 'created-whole-or-closed', where, res, fg=g,
         msg='a new backend lacks a loop, or one that failed leaves its '
             'environment open')


def strip_part(t):
    while t and t[0] == 'part':
        t = t[1]
    return t
