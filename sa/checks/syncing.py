"""Synchronisation with a remote server: queries, grouping, notifications."""

import ast

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .clients import self_attr_term
from .engine import before, before_since
from .eventer_server2 import THROW
from .runners import (outside, cancelled, failure, at_calls, awaited, steps,
                      kwargs_callables, passed_callables, synced_data)

ECL = EV + 'server.eventer_client.'
CONNECT = EV + 'eventer.client.connect'
QUERY = EV + 'eventer.client.Client.query'
CREG = EV + 'eventer.client.Client.register'
BREG = EV + 'common.backend.Backend.register'
LAST = EV + 'common.backend.Backend.get_last_event_id'


def attr_of_param(fg, name):
    return lambda t: t == ('p', name)


def done_of(fg, ids):
    """what follows the successful end of the awaited calls in ids"""
    r = []
    for n in fg.nodes:
        if n.kind == 'suspend' and any(p in ids for p in n.pred):
            r += [fg.nodes[j] for j in n.succ if fg.nodes[j].kind != 'throws']
    return r


def name_of(t):
    return t[1].split('.')[-1] if t[0] == 'g' else None


@check('C17')
def syncing(ctx):
    nothing_bounded(ctx, [EV + 'server.eventer_client'],
                    'events are forgotten when there are many')
    prog = ctx.prog
    opq = outside(prog, ECL)
    # ------------------------------------------------------- the connection
    cg = ctx.flow(ECL + 'create_eventer_client', opq)
    where = short(cg.func.qual)
    conns = cg.calls(CONNECT)
    ctx.need('connections made', len(conns))
    cbs = kwargs_callables(ctx, cg, conns, ('status_cb', 'events_cb'))
    remote = set()
    own = {}
    for n in cg.kind('store'):
        if n.data['base'][0] in ('o', 'r') and n.data['value'][0] == 'p':
            own[n.data['value'][1]] = n.data['attr']
    for k in ('local_server_id', 'remote_server_id', 'backend', 'status_cb',
              'synced_cb'):
        ctx.ob('configuration-is-kept', f'{where}.{k}', k in own,
               cg.func.loc, f'{k} is not kept')
    res = []
    for n in conns:
        a = lambda k: cg.arg(n, k)
        subs = a('subscriptions')
        els = {unage(m.data['value']) for m in adds_to(cg, subs)} if \
            subs and subs[0] == 'o' else set(subs[1]) if \
            subs and subs[0] == 'tup' else set()
        ok = a('addr') == ('p', 'addr') and \
            a('client_name') == ('p', 'client_name') and \
            a('client_token') == ('p', 'client_token') and \
            a('server_id') == ('p', 'remote_server_id') and \
            a('persisted') == const(True) and \
            els == {('tup', (const('*'),))}
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'connects-for-every-persisted-event', where, res, fg=cg,
         msg='the connection is not made for every persisted event of the '
             'remote server')
    fns = passed_callables(ctx, cg, '.spawn')
    ctx.need('synchronisation started', len(fns))
    spawns = {n.id for n in cg.calls('.spawn')}
    kept = [n for n in cg.kind('store') if n.data['value'] in [
        c.data['res'] for c in conns]]
    ctx.need('connection kept', len(kept))
    q = cg.unfollowed(cg.entry, lambda m: m.id in spawns, cg.is_return,
                      lambda m: m.kind in THROW)
    ctx.ob('synchronisation-is-started', where, q is None, cg.func.loc,
           'the client does not synchronise', cg.show_path(q) if q else None)
    closes = {n.id for n in cg.kind('call') if n.data['callee'].split('.')[
        -1] in ('async_close', 'close')}
    res = []
    for k in kept:
        res.append((k.loc, cg.unfollowed(
            k, lambda m: m.id in closes, lambda m: m.kind == 'uncaught')))
    once(ctx, 'failure-closes-connection', where, res, fg=cg,
         msg='creation fails and leaves the connection open')
    rem, loc = own.get('remote_server_id'), own.get('local_server_id')
    backend = own.get('backend')
    for f in fns:
        g = ctx.flow(f, opq)
        synchronize(ctx, g, rem, backend)
    events_callback(ctx, ctx.flow(cbs['events_cb'], opq), backend)
    status_callback(ctx, ctx.flow(cbs['status_cb'], opq),
                    own.get('status_cb'))


def synchronize(ctx, g, rem, backend):
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    isrem = lambda t: self_attr_term(t) and t[2] == rem
    isbackend = lambda t: self_attr_term(t) and t[2] == backend
    qs = g.calls(QUERY)
    ctx.need('queries', len(qs))
    qid = {n.id for n in qs}
    # ------------------------------------------------------------- queries
    lasts = g.calls(LAST)
    ctx.need('last known id', len(lasts))
    known = lambda t: any(same(t, n.data['res']) for n in lasts)
    res = [(n.loc, None if isbackend(n.data['base'] or n.data['args'][0]) and
            isrem(n.data['args'][-1]) else [n.id]) for n in lasts]
    once(ctx, 'asks-from-last-known', where, res, fg=g,
         msg='not the last event the backend has of the remote server')
    res = []
    results, params = {}, {}
    for n in qs:
        p = n.data['args'][-1]
        ok = p[0] == 'rec' and p[1].endswith('.QueryServerParams')
        d = dict(p[2]) if ok else {}
        ok = ok and isrem(d['server_id']) and \
            d['persisted'] == const(True) and 'last_event_id' in d
        res.append((n.loc, None if ok else [n.id]))
        params[n.id] = d.get('last_event_id', NONE)
        results[n.id] = n.data['res']
    once(ctx, 'asks-persisted-of-server', where, res, fg=g,
         msg='the query is not for the persisted events of the remote '
             'server')
    evs = lambda r: (lambda t: t[0] == 'a' and t[2] == 'events' and
                     same(t[1], r))
    anyev = lambda t: t[0] == 'a' and t[2] == 'events' and any(
        same(t[1], r) for r in results.values())
    # containers that gather the results
    gather = [m for m in g.kind('add') if m.data['value'][0] == 'el' and
              anyev(seq_base(m.data['value'][1]))]
    roots = {unage(m.data['obj']) for m in gather
             if m.data['obj'][0] == 'o'}
    ctx.need('gathered results', len(roots))
    # the container that is filled first; groups are filled by taking from it
    takes = [n for n in g.kind('call') if n.data['callee'] in (
        '.popleft', '.pop') and unage(n.data['base']) in roots]
    groups = set()
    moved = {}
    for m in g.kind('add'):
        if unage(m.data['obj']) not in roots:
            continue
        for p in m.pred:
            if any(x.id == p for x in takes):
                groups.add(unage(m.data['obj']))
                moved[m.id] = p
    base = roots - groups
    gid = {m.id for m in gather if unage(m.data['obj']) in base}
    empty = lambda a, b: a[0] == 'truthy' and not b and (
        anyev(a[1]) or a[1][0] == 'op' and a[1][1] == 'content' and (
            unage(a[1][2]) in base or anyev(a[1][2])) or
        unage(a[1]) in base or
        a[1][0] == 'op' and a[1][1] == 'len' and anyev(a[1][2])) or \
        a[0] == 'eq' and b and any(
            a[i][0] == 'op' and a[i][1] == 'len' and (
                anyev(a[i][2]) or unage(a[i][2]) in base) and
            a[3 - i] == const(0) for i in (1, 2))
    isempty = assume_block(empty)

    def is_last(t, r):
        """t is the id of the last event gathered after r arrived"""
        if not (t[0] == 'a' and t[2] == 'id'):
            return False
        x = t[1]
        if x[0] != 'i' or x[2] != const(-1):
            return False
        if evs(r)(x[1]):
            return True
        if unage(x[1]) not in base:
            return False
        v = x[3] if len(x) > 3 else None
        return bool(v) and all(i is not None and i[0] == 'L' for i in
                               (v if isinstance(v, tuple) and v and
                                isinstance(v[0], tuple) else (v,)))

    def fresh_last(n, t):
        """path to n on which t is not the id of the last event received"""
        par = g.reach([n], block=lambda m: m.id in qid, back=True)
        if 0 in par and not known(t):
            return g.path(par, 0)[::-1]
        for i in nearest(g, n, qid):
            if is_last(t, results[i]):
                continue
            # unchanged: only if nothing came
            if not (unage(t) == unage(params[i]) or known(t)):
                return [i, n.id]
            p2 = g.reach([n], block=lambda m: m.id in qid or isempty(m),
                         back=True)
            hit = [j for j in p2 if i in g.nodes[j].pred]
            if hit:
                return [i] + g.path(p2, hit[0])[::-1]
        return None
    res = [(n.loc, fresh_last(n, params[n.id])) for n in qs]
    once(ctx, 'next-query-continues', where, res, fg=g,
         msg='a query does not continue after the last event received')
    flagged = lambda t: is_wide(t) and keeps_more(ctx, g, t[-1][-1])
    more = lambda r: (lambda a, b: a[0] == 'truthy' and b and (
        a[1][0] == 'a' and a[1][2] == 'more_follows' and (
            same(a[1][1], r) or is_wide(a[1][1])) or flagged(a[1])))
    res, res2 = [], []
    for n in qs:
        nomore = assume_block(neg(more(results[n.id])))
        yes = assume_block(more(results[n.id]))
        for x in done_of(g, {n.id}):
            res.append((n.loc, g.unfollowed(
                x, lambda m: m.id in qid or nomore(m), g.is_return, throw)))
            par = g.reach([x], block=lambda m: yes(m) or throw(m))
            hit = [i for i in par if i in qid and not yes(g.nodes[i])]
            res2.append((n.loc, g.path(par, hit[0]) if hit else None))
    q = g.unfollowed(g.entry, lambda m: m.id in qid, g.is_return, throw)
    res.append((g.func.loc, q))
    once(ctx, 'asks-until-no-more', where, res, fg=g,
         msg='more events follow and are not asked for')
    once(ctx, 'stops-when-no-more', where, res2, fg=g,
         msg='asks again though no more events follow')
    # ------------------------------------------------------- registrations
    regs = g.calls(BREG)
    ctx.need('registrations', len(regs))
    rid = {n.id for n in regs}
    data = {n.id: n.data['args'][-1] for n in regs}
    live = {n.id for n in regs if n.data['awaited'] or awaited(g, n)}
    qattr = queue_attr(ctx, g)
    isqueue = lambda t: self_attr_term(t) and t[2] == qattr
    qtakes = [n for n in g.kind('call') if n.data['callee'] in (
        '.popleft', '.pop') and isqueue(n.data['base'])]
    res = []
    for n in takes + qtakes:
        if n.data['callee'] == '.pop' and n.data['args'] != (const(0),):
            res.append((n.loc, [n.id]))
    for n in regs:
        if n.id not in live:
            res.append((n.loc, [n.id]))
        if not isbackend(n.data['base'] or n.data['args'][0]):
            res.append((n.loc, [n.id]))
    once(ctx, 'registered-in-order', where, res, fg=g,
         msg='events are not registered one list after another, in the '
             'order received')
    res = []
    for n in qs:
        r = results[n.id]
        emp = assume_block(lambda a, b: empty(a, b))
        for x in done_of(g, {n.id}):
            res.append((n.loc, g.unfollowed(
                x, lambda m: m.id in gid and evs(r)(seq_base(
                    m.data['value'][1])) or m.id in rid and evs(r)(
                        data[m.id]),
                lambda m: g.is_return(m) or m.id in qid,
                lambda m: throw(m) or emp(m))))
    once(ctx, 'every-result-is-gathered', where, res, fg=g,
         msg='events of a result are lost')
    kept = {x.id for x in qtakes}
    last_end = lambda m: g.is_return(m) or m.id in kept
    res, res2 = [], []
    for m in g.kind('add'):
        o = unage(m.data['obj'])
        if o in base and m.id in gid or o in groups:
            e = empty_lit(m.data['obj'])
            walked = {n.id for n in regs if unage(data[n.id]) == o}
            # taking the last one empties the container: groups follow
            res.append((m.loc, g.unfollowed(
                m, lambda x: x.id in walked, last_end if o in base else
                lambda x: last_end(x) or x.id in qid or
                o_label(m) in x.defs,
                lambda x: throw(x) or x.kind == 'assume' and e(
                    x.data['atom'], x.data['pol']))))
    once(ctx, 'every-event-is-registered', where, res, fg=g,
         msg='gathered events are not registered before the notified ones')
    res = []
    for n in takes:
        res.append((n.loc, g.unfollowed(
            n, lambda m: m.id in moved, lambda m: m.id in rid or
            m.kind == 'suspend' or g.is_end(m) or m in takes, throw)))
    once(ctx, 'taken-events-are-grouped', where, res, fg=g,
         msg='a gathered event is taken and put nowhere')
    # what was registered is not registered again
    res = []
    for n in regs:
        o = unage(data[n.id])
        if o[0] != 'o':
            continue
        lab = {x for x in labels_of(data[n.id])}
        again = {m.id for m in regs if unage(data[m.id]) == o}
        par = g.reach(n.succ, block=lambda m: bool(lab & set(m.defs)) or
                      throw(m) or m.kind == 'call' and m.data['callee'] ==
                      '.clear' and unage(m.data['base']) == o)
        hit = [i for i in par if i in again]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'registered-once', where, res, fg=g,
         msg='a list of events may be registered twice')
    # whole sessions
    sess = lambda t: t[0] == 'a' and t[2] == 'session'
    other = lambda a, b: a[0] == 'eq' and not b and sess(a[1]) and \
        sess(a[2])
    one = lambda a, b: other(a, not b)
    res = []
    tid = {n.id for n in takes}
    nofurther = lambda a, b: a[0] == 'truthy' and not b and (
        a[1][0] == 'a' and a[1][2] == 'more_follows' or flagged(a[1]))
    for n in regs:
        o = unage(data[n.id])
        if o in groups:
            par = g.reach([n], block=assume_only(other), back=True)
            hit = [i for i in par if i in tid]
            nf = g.reach([n], block=assume_block(nofurther), back=True)
            hit = [i for i in hit if i in nf]
            res.append((n.loc, g.path(par, hit[0])[::-1] if hit else None))
        elif o in base or anyev(seq_base(data[n.id])):
            par = g.reach([n], block=assume_block(nofurther), back=True)
            hit = [i for i in par if i in qid]
            if not hit and o in base:
                # one session is left when nothing more is grouped
                par = g.reach([n], block=lambda m: isempty(m) or
                              m.kind == 'assume' and one(
                                  m.data['atom'], m.data['pol']), back=True)
                hit = [i for i in par if i in qid]
            res.append((n.loc, g.path(par, hit[0])[::-1] if hit else None))
    ctx.need('registered results', len(res))
    once(ctx, 'whole-sessions', where, res, fg=g,
         msg='a session is registered before all its events were received')
    # --------------------------------------------------- kept notifications
    opens = [n for n in g.kind('store') if n.data['attr'] == qattr]
    ctx.need('end of keeping notifications', len(opens))
    qempty = assume_only(lambda a, b: not b and (
        a[0] == 'truthy' and (isqueue(a[1]) or a[1][0] == 'op' and
                              a[1][1] == 'content' and isqueue(a[1][2])) or
        a[0] == 'lt' and False))
    res = []
    for n in opens:
        if n.data['value'] != NONE:
            res.append((n.loc, [n.id]))
        par = g.reach([n], block=qempty, back=True)
        hit = [i for i in par if g.nodes[i].kind == 'suspend' or i == 0]
        res.append((n.loc, g.path(par, hit[0])[::-1] if hit else None))
        res.append((n.loc, g.unpreceded(n, lambda m: m.id in qid)))
        par = g.reach([n], block=assume_block(nofurther), back=True)
        hit = [i for i in par if i in qid]
        res.append((n.loc, g.path(par, hit[0])[::-1] if hit else None))
        for o in (x for x in g.kind('suspend')):
            pass
    oid = {n.id for n in opens}
    q = g.unfollowed(g.entry, lambda m: m.id in oid, g.is_return, throw)
    res.append((g.func.loc, q))
    once(ctx, 'kept-notifications-are-done-first', where, res, fg=g,
         msg='notifications are passed on while older ones are kept or '
             'queries are not done')
    res, res2, res3 = [], [], []
    qtid = {n.id for n in qtakes}
    seen = set()
    for n in qtakes:
        v = n.data['res']
        par = g.reach(n.succ, block=lambda m: m.id in qtid)
        its = [g.nodes[i] for i in par if g.nodes[i].kind == 'iter']
        its = [it for it in its if it.data['value'][0] == 'el' and
               same(seq_base(it.data['iter']), v)]
        ids = {it.id for it in its}
        keys = {(it.ast, it.frame) for it in its}
        ids |= {m.id for m in g.kind('iterend') if (m.ast, m.frame) in keys}
        direct = {i for i in rid if same(seq_base(data[i]), v)}
        for i in direct:
            res2.append((g.nodes[i].loc, [i]))
        res.append((n.loc, g.unfollowed(
            n, lambda m: m.id in ids or m.id in direct, lambda m: m is n or
            g.is_return(m) or m.id in oid, throw)))
        for it in its:
            if it.id in seen:
                continue
            seen.add(it.id)
            ev = it.data['value']
            isid = lambda t: t[0] == 'a' and t[2] == 'id' and \
                unage(t[1]) == unage(ev)
            newer = newer_lit(isid)
            par = g.reach([it], block=g.loop_next(it))
            into = [g.nodes[i] for i in par if g.nodes[i].kind == 'add']
            into = [m for m in into if unage(m.data['value']) == unage(ev)]
            mid = {m.id for m in into}
            res.append((it.loc, g.skipped(it, lambda m: m.id in mid,
                                          neg(newer)) or g.early(it)))
            for m in into:
                res2.append((m.loc, g.unheld(m, newer, {
                    x for x in labels_of(ev) if x[0] == 'L'})))
                walked = {i for i in rid
                          if unage(data[i]) == unage(m.data['obj'])}
                e = empty_lit(m.data['obj'])
                res.append((m.loc, g.unfollowed(
                    m, lambda x: x.id in walked, lambda x: x.id in qtid or
                    x.id in oid or
                    g.is_return(x), lambda x: throw(x) or
                    x.kind == 'assume' and e(x.data['atom'],
                                             x.data['pol']))))
            # compared with the last one received
            for i in par:
                m = g.nodes[i]
                if m.kind == 'assume' and m.data['atom'][0] in ('lt', 'le'):
                    a = m.data['atom']
                    for x, y in ((a[1], a[2]), (a[2], a[1])):
                        if isid(x):
                            res3.append((m.loc, fresh_last(m, y)))
    ctx.need('kept notifications', len(res3))
    once(ctx, 'every-kept-notification', where, res, fg=g,
         msg='a notified event that was not received by a query is lost')
    once(ctx, 'no-event-twice', where, res2 + res3, fg=g,
         msg='an event received by a query is registered again')
    states(ctx, g, where, qs, results, oid, evs, empty)
    # --------------------------------------------------------------- errors
    res = []
    shut = {n.id for n in g.kind('call') if n.data['callee'].split('.')[
        -1] in ('close', 'async_close')}
    for m in g.kind('throws'):
        if cancelled(m):
            continue
        res.append((m.loc, g.unfollowed(m, lambda x: x.id in shut,
                                        lambda x: g.is_end(x),
                                        lambda x: x.kind == 'throws' and
                                        x is not m)))
    once(ctx, 'failure-closes-client', where, res, fg=g,
         msg='the synchronisation fails and the client stays')


def is_wide(t):
    """a variable after any number of rounds"""
    return t[0] == 'r' and t[-1][0] == 'wide'


def keeps_more(ctx, g, name):
    """a variable that has whether more follows the last result: given
    after each query, in the block of it"""
    ok, fs = 0, ctx.prog.functions
    for b in (b for f in {n.fn for n in g.nodes} if f in fs
              for b in ast.walk(fs[f].node)):
        for field in ('body', 'orelse', 'finalbody'):
            got = set()
            for x in getattr(b, field, None) or ():
                if not isinstance(x, ast.Assign) or len(
                        x.targets) != 1 or not isinstance(
                            x.targets[0], ast.Name):
                    if any(isinstance(y, ast.Name) and y.id == name and
                           isinstance(y.ctx, ast.Store)
                           for y in ast.walk(x)) and not hasattr(x, 'body'):
                        return False
                    continue
                v = x.value
                if isinstance(v, ast.Await):
                    got.add(x.targets[0].id)
                if x.targets[0].id != name or isinstance(
                        v, ast.Constant) and v.value is True:
                    continue
                if not (isinstance(v, ast.Attribute) and v.attr ==
                        'more_follows' and isinstance(v.value, ast.Name) and
                        v.value.id in got):
                    return False
                ok += 1
    return ok > 0


def o_label(m):
    return m.data['obj'][2]


def assume_only(lit):
    return lambda m: m.kind == 'assume' and lit(m.data['atom'],
                                                m.data['pol'])


def newer_lit(isid):
    """the id accepted is greater than another"""
    return lambda a, b: a[0] == 'lt' and b and isid(a[2]) or \
        a[0] == 'le' and not b and isid(a[1])


def queue_attr(ctx, g):
    """attribute that keeps notifications during the synchronisation"""
    xs = {n.data['attr'] for n in g.kind('store')
          if n.data['value'] == NONE and n.data['base'] == ('p', 'self')}
    ctx.need('end of keeping notifications', len(xs))
    if len(xs) != 1:
        raise AnalysisError('no single place for kept notifications')
    return xs.pop()


def states(ctx, g, where, qs, results, oid, evs, empty):
    """CONNECTED before the first query, SYNCING with the first events,
    SYNCED once notifications are passed on"""
    throw = lambda m: m.kind in THROW
    st = {}
    for n in g.kind('store'):
        s = name_of(n.data['value'])
        if s in ('CONNECTED', 'SYNCING', 'SYNCED') and \
                'SyncedState' in n.data['value'][1]:
            st.setdefault(s, set()).add(n.id)
    for s in ('CONNECTED', 'SYNCING', 'SYNCED'):
        ctx.need(f'state {s}', len(st.get(s, ())))
    allst = {i for x in st.values() for i in x}
    qid = {n.id for n in qs}
    con, syg, syd = (st.get(s, set()) for s in (
        'CONNECTED', 'SYNCING', 'SYNCED'))
    node = lambda ids: [g.nodes[i] for i in ids]
    res = [(n.loc, g.unpreceded(n, lambda m: m.id in con)) for n in qs]
    for n in node(con):
        par = g.reach(n.succ)
        hit = [i for i in par if i in con]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
        par = g.reach([n], back=True)
        hit = [i for i in par if i in qid or i in allst and i != n.id]
        res.append((n.loc, g.path(par, hit[0])[::-1] if hit else None))
    once(ctx, 'connected-first', where, res, fg=g,
         msg='CONNECTED is not told once before the queries')
    res = []
    # a counter or a flag kept by the loop, or the state kept
    moved = lambda a, b: a[0] == 'eq' and any(
        name_of(a[i]) == ('SYNCING' if b else 'CONNECTED') for i in (1, 2))
    num = lambda t: t[0] == 'op' and any(
        x[:2] == ('op', 'len') for x in subterms(t)
        if isinstance(x, tuple)) or is_wide(t)
    counter = lambda a, b: a[0] == 'eq' and not b and any(
        a[i] == const(0) and a[3 - i][0] in ('op', 'r') for i in (1, 2)) or \
        a[0] == 'truthy' and b and num(a[1]) or \
        a[0] == 'lt' and b and a[1] == const(0) and num(a[2]) or \
        a[0] == 'le' and not b and a[2] == const(0) and num(a[1]) or \
        moved(a, b)
    already = assume_block(counter)
    # a counter of events is not 0 once there were some
    tested = assume_only(lambda a, b: a[0] == 'eq' and b and any(
        a[i] == const(0) and (a[3 - i][0] == 'op' or is_wide(a[3 - i]))
        for i in (1, 2)) or moved(a, not b) or
        a[0] == 'truthy' and not b and num(a[1]) or
        a[0] == 'truthy' and not b and a[1][0] == 'a' and
        a[1][2] == 'events' and a[1][1][0] == 'r' and
        a[1][1] not in results.values())
    for n in qs:
        r = results[n.id]
        none = assume_block(empty)
        for x in done_of(g, {n.id}):
            # from the first result on
            if g.unpreceded(n, lambda m: m.id in syg) is None:
                continue
            earlier = assume_block(lambda a, b: a[0] == 'truthy' and b and
                                   a[1][0] == 'a' and a[1][2] == 'events' and
                                   a[1][1][0] == 'r' and a[1][1] != r)
            res.append((n.loc, g.unfollowed(
                x, lambda m: m.id in syg, lambda m: m.id in qid or
                g.is_return(m), lambda m: throw(m) or none(m) or
                already(m) or earlier(m))))
    first = {n.id for n in qs if not any(
        i in qid and i != n.id for i in g.reach([n], back=True))}
    for i in first:
        r = results[i]
        none = assume_block(empty)
        for x in done_of(g, {i}):
            res.append((x.loc, g.unfollowed(
                x, lambda m: m.id in syg, lambda m: m.id in qid or
                g.is_return(m), lambda m: throw(m) or none(m) or
                assume_block(moved)(m))))
    some = lambda a, b: a[0] == 'truthy' and b and (
        any(evs(r)(x) for r in results.values() for x in subterms(a[1])
            if isinstance(x, tuple) and x)) or a[0] == 'eq' and not b and (
        any(x[:2] == ('op', 'len') for x in subterms(a)
            if isinstance(x, tuple)))
    for n in node(syg):
        par = g.reach([n], block=assume_block(some), back=True)
        hit = [i for i in par if i in qid or i == 0]
        res.append((n.loc, g.path(par, hit[0])[::-1] if hit else None))
        par = g.reach(n.succ, block=lambda m: throw(m) or already(m) or
                      tested(m))
        hit = [i for i in par if i in syg and i != n.id]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'syncing-with-first-events', where, res, fg=g,
         msg='SYNCING is not told once, with the first events')
    res = []
    for n in node(syd):
        res.append((n.loc, g.unpreceded(n, lambda m: m.id in oid)))
        par = g.reach(n.succ)
        hit = [i for i in par if i in allst]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    q = g.unfollowed(g.entry, lambda m: m.id in syd, g.is_return, throw)
    res.append((g.func.loc, q))
    once(ctx, 'synced-at-last', where, res, fg=g,
         msg='SYNCED is not told once, after notifications are passed on')
    # each is registered and given to the callback
    regs = g.calls(CREG)
    ctx.need('registered states', len(regs))
    cbs = [n for n in g.kind('call') if len(n.data['args']) == 2 and
           name_of(n.data['args'][0]) in st]
    ctx.need('states given to the callback', len(cbs))
    rid, cid = {n.id for n in regs}, {n.id for n in cbs}
    nocb = assume_block(lambda a, b: (
        a[0] == 'none' and b or a[0] == 'truthy' and not b) and
        self_attr_term(a[1]) and 'cb' in a[1][2])
    res, res2 = [], []
    ends = lambda m: m.id in qid or m.id in allst or g.is_return(m)
    for s, ids in st.items():
        for n in node(ids):
            res.append((n.loc, g.unfollowed(n, lambda m: m.id in rid, ends,
                                            throw)))
            res.append((n.loc, g.unfollowed(
                n, lambda m: m.id in cid and name_of(
                    m.data['args'][0]) == s, ends,
                lambda m: throw(m) or nocb(m))))
    once(ctx, 'states-are-told', where, res, fg=g,
         msg='a state is not registered or not given to the callback before '
             'going on')
    for n in regs:
        if not (n.data['awaited'] or awaited(g, n)):
            res2.append((n.loc, [n.id]))
        prev = {name_of(g.nodes[i].data['value']) for i in nearest(
            g, n, allst)}
        if len(prev) != 1:
            res2.append((n.loc, [n.id]))
            continue
        s = prev.pop()
        for bad in synced_data(
                g, n, state=lambda t: name_of(t) == s or self_attr_term(t),
                count=lambda t, n=n: count_ok(g, n, t, qs, results, evs),
                stop=lambda m: m.id in allst, fixed=s):
            res2.append((n.loc, bad))
    for n in cbs:
        s = name_of(n.data['args'][0])
        c = n.data['args'][1]
        res2.append((n.loc, None if (
            count_ok(g, n, c, qs, results, evs) if s == 'SYNCED' else
            c == NONE) else [n.id]))
    once(ctx, 'told-as-it-is', where, res2, fg=g,
         msg='the state or number of events told is not the real one')


def count_ok(g, n, t, qs, results, evs):
    """t counts the events of the results"""
    if is_wide(t):
        return True
    qid = {q.id for q in qs}
    before = nearest(g, n, qid)
    near = [results[i] for i in before]
    lens = []
    if t[0] == 'op' and t[1] == 'len':
        lens = [t]
    elif t[0] == 'op' and t[1] == 'lin' and t[2] == 0:
        for x, k in t[3]:
            if k != 1 and not (k > 1):
                return False
            lens.append(x)
    else:
        return False
    for x in lens:
        if is_wide(x):
            continue
        if not (x[0] == 'op' and x[1] == 'len' and any(
                evs(r)(x[2]) or unage(x[2]) == unage(('a', r, 'events', None))
                for r in results.values())):
            return False
    if len(lens) < 2 and not any(is_wide(x) for x in lens) and not all(
            0 in g.reach([g.nodes[i]], back=True, block=lambda m, i=i:
                         m.id in qid and m.id != i) for i in before):
        return False
    return all(any(x[0] == 'op' and x[1] == 'len' and evs(r)(x[2])
                   for x in lens) for r in near)


def nearest(g, n, ids):
    """the nodes of ids met first on the ways back from n"""
    par = g.reach([n], block=lambda m: m.id in ids and m is not n, back=True)
    return {p for i in par for p in g.nodes[i].pred if p in ids} | {
        i for i in par if i in ids and i != n.id}


def events_callback(ctx, g, backend):
    where = short(g.func.qual)
    ev = ('p', g.func.params[-1])
    isev = lambda t: seq_base(t) == ev
    throw = lambda m: m.kind in THROW
    regs = {n.id for n in g.calls(BREG) if isev(n.data['args'][-1]) and (
        n.data['awaited'] or awaited(g, n))}
    keeps = [m for m in g.kind('add') if self_attr_term(m.data['obj']) and
             (m.data['value'] == ev)]
    ctx.need('notifications kept', len(keeps))
    ctx.need('notifications registered', len(regs))
    qs = {m.data['obj'][2] for m in keeps}
    isq = lambda t: self_attr_term(t) and t[2] in qs
    kid = {m.id for m in keeps}
    done = none_lit(isq)
    res = []
    q = g.unfollowed(g.entry, lambda m: m.id in regs or m.id in kid,
                     g.is_return, throw)
    res.append((g.func.loc, q))
    for i in regs:
        res.append((g.nodes[i].loc, g.unheld(g.nodes[i], done, set())))
    for m in keeps:
        res.append((m.loc, g.unheld(m, neg(done), set())))
        par = g.reach([m], back=True)
        hit = [i for i in par if g.nodes[i].kind == 'suspend']
        res.append((m.loc, g.path(par, hit[0])[::-1] if hit else None))
        if m.data['how'] not in ('append', 'add'):
            res.append((m.loc, [m.id]))
    for n in list(kid) + list(regs):
        par = g.reach(g.nodes[n].succ, block=throw)
        hit = [i for i in par if i in kid or i in regs]
        res.append((g.nodes[n].loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'notified-events-are-kept-or-registered', where, res, fg=g,
         msg='notified events are lost, registered too early or out of '
             'order')


def status_callback(ctx, g, cb):
    where = short(g.func.qual)
    st = ('p', g.func.params[-1])
    throw = lambda m: m.kind in THROW
    iscb = lambda t: self_attr_term(t) and t[2] == cb
    calls = [n for n in g.kind('call') if n.data['args'] and
             n.data['args'][-1] == st and (
                 n.data['callee'] == '.' + str(cb) or
                 iscb(n.data['args'][0]))]
    ctx.need('statuses given to the callback', len(calls))
    cid = {n.id for n in calls}
    nocb = assume_only(lambda a, b: (
        a[0] == 'none' and b or a[0] == 'truthy' and not b) and iscb(a[1]))
    regs = g.calls(CREG)
    ctx.need('state registered again', len(regs))
    rid = {n.id for n in regs}
    res = [(g.func.loc, g.unfollowed(
        g.entry, lambda m: m.id in cid, lambda m: g.is_end(m),
        lambda m: nocb(m) or cancelled(m) or at_calls(g, cid)(m)))]
    for n in calls:
        par = g.reach(n.succ)
        hit = [i for i in par if i in cid]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'status-is-given-to-callback', where, res, fg=g,
         msg='a status is not given to the callback')
    op = lambda t: t[0] == 'g' and t[1].endswith('Status.OPERATIONAL')
    isop = eq_lit(lambda t: t == st, op)
    nostate = lambda a, b: self_attr_term(a[1]) and (
        a[0] == 'truthy' and not b or a[0] == 'none' and b)
    res, res2 = [], []
    res.append((g.func.loc, g.unfollowed(
        g.entry, lambda m: m.id in rid, lambda m: m.id in cid or
        g.is_return(m), lambda m: throw(m) or assume_only(neg(isop))(m) or
        assume_only(nostate)(m) and not nocb(m))))
    for n in regs:
        res.append((n.loc, g.unheld(n, isop, set())))
        for bad in synced_data(g, n, state=self_attr_term,
                               count=lambda t: t == NONE):
            res2.append((n.loc, bad))
    once(ctx, 'operational-server-learns-state', where, res, fg=g,
         msg='a server that becomes operational is not told the state')
    once(ctx, 'told-again-as-it-is', where, res2, fg=g,
         msg='the state told again is not the real one')
