"""Eventer server: notifications, handshake, requests, status."""

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA

SRV = EV + 'eventer.server.'
LISTEN = 'hat.drivers.chatter.listen'


def sends(fg, msg_type, name=SEND):
    """send nodes of a message type"""
    r = []
    for n in fg.calls(name):
        t = fg.arg(n, 'msg_type', 1)
        if const_str(t) == msg_type:
            r.append(n)
    return r


def conn_loop(ctx):
    fg = ctx.flow(SRV + 'listen', std_opaque(ctx.prog))
    fs = passed_callables(ctx, fg, LISTEN)
    if len(fs) != 1:
        raise AnalysisError('eventer server connection handler not found')
    return fs[0]


def conn_table(ctx):
    """(attribute mapping connections to infos, handler graph)"""
    f = conn_loop(ctx)
    fg = ctx.flow(f, std_opaque(ctx.prog), inline_spawn=True)
    conn = ('p', f.params[1])
    for n in fg.kind('setitem'):
        if n.data['key'] == conn and n.data['value'][0] == 'rec':
            o = n.data['base']
            if o[0] == 'a' and o[1] == ('p', 'self'):
                return o[2], f, fg, conn
    raise AnalysisError('no table of connected clients found')


def info_of(table, conn):
    """access paths of the info that belongs to a connection term"""
    r = [('i', ('a', ('p', 'self'), table), unage(unver(conn)))]
    c = unage(conn)
    if c[0] == 'i' and c[2] == const(0):
        r.append(unver(('i', c[1], const(1), None)))
    return lambda t: unver(unage(t)) in r or (
        t[0] == 'm' and t[2] == 'get' and unver(unage(t[1])) ==
        ('a', ('p', 'self'), table) and unage(t[3][0]) == unage(conn))


def is_conn(table):
    """terms that are keys of the connection table"""
    tab = self_attr(table)

    def f(t):
        if not t or not isinstance(t[0], str) or len(t) < 2:
            return False
        if t[0] == 'i' and t[2] == const(0):
            e = t[1]
            return e[0] == 'el' and seq_base(e[1])[0] == 'm' and \
                seq_base(e[1])[2] == 'items' and tab(seq_base(e[1])[1])
        if t[0] == 'el':
            b = seq_base(t[1])
            return tab(b) or b[0] == 'm' and b[2] == 'keys' and tab(b[1])
        return False
    return f


@check('C01')
def notify_filter(ctx):
    nothing_bounded(ctx, [EV + 'eventer.server'],
                    'notified events are forgotten when there are many')
    table, _, _, _ = conn_table(ctx)
    f = ctx.prog.func(SRV + 'Server.notify_events')
    fg = ctx.flow(f, std_opaque(ctx.prog), inline_spawn=True)
    where = short(f.qual)
    ev_param, pers_param = ('p', f.params[1]), ('p', f.params[2])
    snd = sends(fg, 'HatEventer.MsgEventsNotify')
    ctx.need('notification send states', len(snd), 1)
    isc = is_conn(table)
    from_events = lambda t: elem_of(t, lambda b: b == ev_param)

    # destination is a connected client
    once(ctx, 'destination-is-connected-client', where,
         ((n.loc, None if isc(fg.arg(n, 'conn', 0)) else [n.id])
          for n in snd), fg=fg,
         msg='notification is sent to something that is not a registered '
             'connection')

    def pers_lit(conn):
        i = info_of(table, conn)
        return bool_eq_lit(attr_of(i, 'persisted'),
                           lambda t: t == pers_param)

    res = []
    for n in snd:
        c = fg.arg(n, 'conn', 0)
        res.append((n.loc, guarded(fg, n, c, pers_lit)))
    once(ctx, 'persisted-flag-agrees', where, res, fg=fg,
         msg='a client is notified although the persisted flag it asked for '
             'differs from the kind of notification')

    # every element comes from the given events, was matched, right server
    body, match, serv = [], [], []
    seen = set()
    for n in snd:
        c = fg.arg(n, 'conn', 0)
        for v, an in elements(fg, n, fg.arg(n, 'msg_data', 2)):
            a = call_args(v, 'event_to_sbs')
            if not a or not from_events(a[0]):
                body.append((an.loc, [an.id]))
                continue
            body.append((an.loc, None))
            e = a[0]
            if (an.id, e, unage(c)) in seen:
                continue
            seen.add((an.id, e, unage(c)))

            def lm(v):
                v = unage(v)
                return lambda a, b: b and a[0] == 'truthy' and match_call(
                    a[1], 'matches',
                    attr_of(info_of(table, c), 'subscription'),
                    lambda x: len(x) == 1 and attr_of(is_(v), 'type')(
                        x[0]))

            def ls(v):
                v = unage(v)
                return any_lit(
                    none_lit(attr_of(info_of(table, c), 'server_id')),
                    eq_lit(attr_of(info_of(table, c), 'server_id'),
                           attr_of(attr_of(is_(v), 'id'), 'server')))
            match.append((an.loc, guarded(fg, an, e, lm)))
            serv.append((an.loc, guarded(fg, an, e, ls)))
    once(ctx, 'only-given-events', where, body, fg=fg,
         msg='notification contains something else than the encoded given '
             'events')
    once(ctx, 'subscription-matches', where, match, fg=fg,
         msg='an event reaches a client without its subscription being '
             'asked')
    once(ctx, 'server-id-agrees', where, serv, fg=fg,
         msg='an event reaches a client that asked for another server id')
    ctx.need('event origins', len(match), 1)

    # completeness: connections
    def conn_excuse_for(conn):
        i = info_of(table, conn)
        return bool_eq_lit(attr_of(i, 'persisted'),
                           lambda t: t == pers_param, False)

    over_events = lambda m: m.kind in ('iter', 'iterend') and \
        seq_base(m.data['iter']) == ev_param
    iters = [n for n in fg.kind('iter') if conn_term(n, isc) is not None]
    ctx.need('iterations over connections', len(iters), 1)
    res, res2 = [], []
    for it in iters:
        c = conn_term(it, isc)
        p = fg.skipped(it, over_events, conn_excuse_for(c))
        res.append((it.loc, p))
        res2.append((it.loc, fg.early(it)))
    once(ctx, 'every-client-considered', where, res, fg=fg,
         msg='a connected client with a matching event is passed over')
    once(ctx, 'all-clients-reached', where, res2, fg=fg,
         msg='notifying stops before all clients are considered')

    # completeness: events
    iters = [n for n in fg.kind('iter') if from_events(n.data['value'])]
    ctx.need('iterations over events', len(iters), 1)
    res, res2, order = [], [], []
    for it in iters:
        e = it.data['value']
        u = unage(e)

        def ex(a, b, u=u):
            if b:
                return False
            if a[0] == 'truthy' and match_call(
                    a[1], 'matches', None,
                    lambda x: any(unage(y) == ('a', u, 'type', None)
                                  for y in x)):
                return True
            return a[0] == 'eq' and any(
                unage(x) == ('a', ('a', u, 'id', None), 'server', None)
                for x in a[1:])
        done = lambda m: m.kind == 'add' and carries(m.data['value'], u)
        res.append((it.loc, fg.skipped(it, done, ex)))
        res2.append((it.loc, fg.early(it)))
    once(ctx, 'every-event-considered', where, res, fg=fg,
         msg='an event that matches is left out')
    once(ctx, 'all-events-reached', where, res2, fg=fg,
         msg='selection stops before all events are considered')

    # order within a notification
    for n in fg.kind('add', 'iter', 'call'):
        if n.kind == 'add' and any(carries(n.data['value'], unage(x))
                                   for x in [ev_param]):
            order.append((n.loc, None if n.data['how'] in (
                'add', 'append', 'extend', 'listcomp', 'comp', 'copy',
                'display')
                else [n.id]))
        if n.kind == 'iter' and n.data['iter'][0] == 'op' and \
                n.data['iter'][1] in ('reversed', 'sorted', 'set'):
            order.append((n.loc, [n.id]))
    once(ctx, 'order-kept', where, order, fg=fg,
         msg='events of one notification are reordered')

    # what was selected is sent: a container that got an event is passed on
    # or walked through, and nothing in between gives up
    res = []
    for n in fg.kind('add'):
        v = n.data['value']
        if v[0] == 'r' and not call_args(v, 'event_to_sbs') or not (
                carries_elem(v, from_events) or
                any(isc(x) for x in subterms(v))):
            continue
        o = unage(n.data['obj'])
        src = unage(seq_base(v[1])) if n.data['how'] == 'copy' and \
            v[0] == 'el' else o

        def used(m):
            if m.kind in ('iter', 'iterend'):
                return unage(seq_base(m.data['iter'])) in (o, src)
            if m.kind == 'add':
                return carries(m.data['value'], o)
            return m.kind == 'call' and m.data['callee'] == SEND and any(
                carries(x, o) for x in m.data['args'])
        p = fg.unfollowed(n, used, fg.is_return, lambda m: m.kind in (
            'throws', 'raise') or assume_block(empty_lit(o))(m))
        res.append((n.loc, p))
    for it in fg.kind('iter'):
        v = it.data['value']
        if seq_base(it.data['iter'])[0] != 'o' or isc(v):
            continue
        cs = [x for x in subterms(v) if isc(x)]
        if cs:
            c = unage(cs[0])
            done = lambda m: m.kind == 'call' and \
                m.data['callee'] == SEND and \
                unage(fg.arg(m, 'conn', 0)) == c or \
                m.kind == 'add' and carries(m.data['value'], c)
            res.append((it.loc, fg.skipped(it, done, lambda a, b: False)
                        or fg.early(it)))
        elif carries_elem(v, from_events):
            done = lambda m: m.kind == 'add' and carries(m.data['value'],
                                                         unage(v))
            res.append((it.loc, fg.skipped(it, done, lambda a, b: False)
                        or fg.early(it)))
    once(ctx, 'selected-are-sent', where, res, fg=fg,
         msg='events selected for a client are not sent to it')


def carries_elem(v, pred):
    return any(x and x[0] == 'el' and pred(x) for x in subterms(v))


def conn_term(it, isc):
    v = it.data['value']
    if isc(v):
        return v
    if v[0] == 'el':
        c = ('i', v, const(0), None)
        if isc(c):
            return c
    return None


def carries(t, u):
    return contains(t, u)


def carries_fresh(t):
    return any(x[0] == 'L' for x in labels_of(t))


# C02 ---------------------------------------------------------------------

def futures_table(fg):
    """setitem nodes that register a freshly created future"""
    r = []
    for n in fg.kind('setitem'):
        if call_args(n.data['value'], 'create_future') is not None and \
                n.data['base'][0] == 'a':
            r.append(n)
    return r


def kw_of(n, name):
    for k, v in n.data.get('kws', ()):
        if k == name:
            return v
    b = n.data.get('bound') or {}
    kw = b.get('kwargs')
    if kw and kw[0] == 'kw':
        for k, v in kw[1]:
            if k == name:
                return v
    return None


def bool_at(n, t):
    """truth value of a term at a node when the path decides it"""
    if t is None:
        return None
    if t in (TRUE, FALSE):
        return t == TRUE
    if t[0] == 'cmp':
        for a, b in n.facts:
            if a == t[1]:
                return b == t[2]
    for a, b in n.facts:
        if a == ('truthy', t):
            return b
    return None


@check('C02')
def notify_ack(ctx):
    f = ctx.prog.func(SRV + 'Server.notify_events')
    fg = ctx.flow(f, std_opaque(ctx.prog), inline_spawn=True)
    where = short(f.qual)
    ack = ('p', f.params[3])
    snd = sends(fg, 'HatEventer.MsgEventsNotify')
    regs = futures_table(fg)
    ctx.need('notification send states', len(snd))

    res = []
    for n in snd:
        last = bool_at(n, kw_of(n, 'last'))
        if kw_of(n, 'last') is None:
            last = True
        want = {b for a, b in n.facts if a == ('truthy', ack)}
        ok = len(want) == 1 and last is not None and last != want.pop()
        if not ok and last is not None:
            # the flag itself is not decided here: look for the test
            ok = fg.holds(n, lambda a, b: a == ('truthy', ack) and
                          b == (not last), labels=set())
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'acknowledgement-asked-as-requested', where, res, fg=fg,
         msg='a notification asks for acknowledgement although none was '
             'requested, or the other way round')

    # every notification that asks for an acknowledgement waits for it
    wait, gap, key, own = [], [], [], []
    is_reg = {n.id for n in regs}
    for n in snd:
        if bool_at(n, kw_of(n, 'last')) is not False:
            continue
        conv = n.data['res'] if n.data.get('res') else None
        end = lambda m: m.kind in ('taskend',) or fg.is_return(m)
        exc = lambda m: m.kind in ('throws', 'raise')
        p = fg.unfollowed(n, lambda m: m.id in is_reg, end, exc)
        wait.append((n.loc, p))
        # nothing may run between the message being handed over and the
        # registration, else the answer could be missed
        par = fg.reach([n], block=lambda m: m.id in is_reg or exc(m))
        for i in par:
            m = fg.nodes[i]
            if m.kind == 'suspend' and not is_result_of(
                    m.data['value'], n):
                gap.append((m.loc, fg.path(par, i)))
    for r in regs:
        k = r.data['key']
        sent = [s for s in snd if _same_conv(k, s)]
        ok = k[0] == 'tup' and bool(sent) and any(
            same(x, fg.arg(s, 'conn', 0)) for s in sent for x in k[1]
            if len(x) > 1)
        key.append((r.loc, None if ok else [r.id]))
        fut = r.data['value']
        aw = lambda m: m.kind == 'suspend' and unage(m.data['value']) == \
            unage(fut) or m.kind == 'suspend' and contains(
                m.data['value'], unage(fut))
        p = fg.unfollowed(r, aw, lambda m: m.kind == 'taskend' or
                          fg.is_return(m),
                          lambda m: m.kind in ('throws', 'raise'))
        own.append((r.loc, p))
    ctx.need('acknowledgement registrations', len(regs))
    once(ctx, 'acknowledged-is-registered', where, wait, fg=fg,
         msg='a notification that asks for acknowledgement does not wait '
             'for one')
    once(ctx, 'registered-before-anything-runs', where, gap, fg=fg,
         msg='other code runs between sending and getting ready for the '
             'answer')
    once(ctx, 'registration-identifies-notification', where, key, fg=fg,
         msg='the wait is not tied to this connection and conversation')
    once(ctx, 'acknowledgement-is-awaited', where, own, fg=fg,
         msg='the acknowledgement is not awaited')
    futs = [unage(r.data['value']) for r in regs]
    cut = timeboxed(fg, lambda t: unage(t) in futs)
    once(ctx, 'waits-as-long-as-it-takes', where,
         [(r.loc, None) for r in regs] + [(n.loc, [n.id]) for n in cut],
         fg=fg, msg='the wait for the acknowledgement is given up while the '
         'client is still connected')

    # the caller waits for all of them
    spawned = [n for n in fg.nodes if n.kind == 'call' and
               n.data['callee'].endswith('.spawn')]
    res = []
    for n in spawned:
        t = n.data.get('res')
        if t is None:
            continue

        def waited(m):
            if m.kind != 'call' or m.data['callee'] not in (
                    'asyncio.wait', 'asyncio.gather'):
                return m.kind == 'suspend' and contains(
                    m.data['value'], unage(t))
            for k, v in m.data['kws']:
                if k in ('return_when', 'timeout') and not (
                        v == NONE or 'ALL_COMPLETED' in show(v)):
                    return False
            return True
        p = fg.unfollowed(n, waited, fg.is_return, lambda m: m.kind in (
            'throws', 'raise') or m.kind == 'taskend' or
            assume_block(lambda a, b: a == ('truthy', ack) and not b)(m))
        res.append((n.loc, p))
    once(ctx, 'caller-waits-for-all', where, res, fg=fg,
         msg='an acknowledged notification may complete before every '
             'recipient has answered')

    # the handler resolves exactly the acknowledged notification
    lf = conn_loop(ctx)
    lg = ctx.flow(lf, std_opaque(ctx.prog), inline_spawn=True)
    lw = short(lf.qual)
    conn = ('p', lf.params[1])
    attr = regs[0].data['base'][2] if regs else None
    tab = self_attr(attr)
    rec = [n for n in lg.nodes if n.kind == 'assume' and n.data['pol'] and
           n.data['atom'][0] == 'eq' and
           const('HatEventer.MsgEventsAck') in n.data['atom']]
    ctx.need('acknowledgement handler states', len(rec))
    sets = [n for n in lg.nodes if n.kind == 'call' and
            n.data['callee'] in ('.set_result', '.set_exception',
                                 '.cancel')
            and from_table(lg, n.data['base'], tab)]
    ackset = [n for n in sets if n.data['callee'] == '.set_result']
    ctx.need('acknowledgement resolutions', len(ackset))
    res, res2 = [], []
    for n in rec:
        msg = recv_of(n)
        done = lambda m: m in ackset
        nofut = lambda a, b: (a[0] == 'none' and b or
                              a[0] == 'truthy' and not b) and \
            from_table(lg, a[1], tab) or (
                a[0] == 'truthy' and b and match_call(
                    a[1], 'done', lambda t: from_table(lg, t, tab))) or (
                a[0] == 'in' and not b)
        p = lg.unfollowed(
            n, done, lambda m: m.kind == 'call' and
            m.data['callee'] == RECV or lg.is_return(m),
            lambda m: m.kind in ('throws', 'raise') or
            assume_block(nofut)(m))
        res.append((n.loc, p))
    once(ctx, 'acknowledgement-resolves-wait', lw, res, fg=lg,
         msg='an acknowledgement is received but the wait goes on')
    for n in ackset:
        k = table_key(n.data['base'], tab)
        ok = k is not None and k[0] == 'tup' and len(k[1]) == 2 and \
            conn in k[1] and any(
                x[0] == 'a' and x[2] == 'conv' and recv_msg_term(x[1])
                for x in k[1])
        p = None if ok else [n.id]
        if ok:
            p = lg.unheld(n, lambda a, b: b and a[0] == 'eq' and const(
                'HatEventer.MsgEventsAck') in a)
        res2.append((n.loc, p))
    once(ctx, 'acknowledgement-matched-by-conversation', lw, res2, fg=lg,
         msg='an acknowledgement is credited to another notification')

    # end of a connection: its own waits and only those
    res, res2 = [], []
    adds, its = collected(lg, lambda t: from_table(lg, unage(t), tab))
    for n in sets:
        if n in ackset:
            continue
        # of this connection only
        own_lit = lambda a, b: b and a[0] == 'eq' and conn in a[1:] and \
            any(_key_part(x, tab) for x in a[1:])
        ok = table_key(n.data['base'], tab)
        if ok is not None and ok[0] == 'tup' and conn in ok[1]:
            p = None
        else:
            p = lg.unheld(n, own_lit)
        if p is not None and adds and unage(n.data['base'])[0] in (
                'el', 'i'):
            bad = [lg.unheld(m, own_lit) for m in adds]
            if all(q is None for q in bad):
                p = None
        res.append((n.loc, p))
    once(ctx, 'disconnect-ends-only-own-waits', lw, res, fg=lg,
         msg='the end of one connection ends the wait for another client')
    started = [n for n in lg.kind('setitem') if n.data['key'] == conn]
    end = lambda m: lg.is_end(m)
    walk = lambda m: m.kind in ('iter', 'iterend') and tab_iter(
        m.data['iter'], tab)
    for n in started:
        res2.append((n.loc, lg.unfollowed(n, walk, end)))
    for it in lg.kind('iter'):
        if tab_iter(it.data['iter'], tab):
            done = lambda m: m in sets and m not in ackset or m in adds
            ex = lambda a, b: a[0] == 'truthy' and b and match_call(
                a[1], 'done', None) or a[0] == 'eq' and not b and \
                conn in a[1:]
            res2.append((it.loc, lg.skipped(it, done, ex) or lg.early(it)))
    for m in adds:
        res2.append((m.loc, lg.unfollowed(
            m, lambda x: x in its and unage(seq_base(x.data['iter'])) ==
            unage(m.data['obj']), end)))
    for it in its:
        if it.kind == 'iter':
            res2.append((it.loc, lg.skipped(
                it, lambda m: m in sets and m not in ackset, lambda a, b:
                a[0] == 'truthy' and b and match_call(a[1], 'done', None)) or
                lg.early(it)))
    ctx.need('disconnect paths', len(res2), 2)
    once(ctx, 'disconnect-ends-own-waits', lw, res2, fg=lg,
         msg='a wait for a client that is gone never ends')


def is_result_of(v, n):
    r = n.data.get('res')
    return r is not None and unage(v) == unage(r)


def _same_conv(key, send):
    r = send.data.get('res')
    return r is not None and contains(key, unage(r))


def recv_of(n):
    for x in subterms(n.data['atom']):
        if recv_msg_term(x):
            return x
    return None


def recv_result(t):
    return bool(t) and t[0] == 'r' and t[2][0] == 'call' and \
        t[2][1] in (RECV, ARECV)


def recv_msg_term(t):
    """the message object of a received message"""
    return bool(t) and t[0] == 'i' and t[2] == const(0) and recv_result(t[1])


def from_table(fg, t, tab):
    """value read from a table (by key or by walking it)"""
    if not t:
        return False
    if t[0] == 'm' and t[2] in ('get', 'pop') and tab(t[1]):
        return True
    if t[0] == 'r' and t[2][0] == 'call' and t[2][1] in ('.pop', '.get') \
            and tab(t[2][2]):
        return True
    if t[0] == 'i' and tab(t[1]):
        return True
    if t[0] == 'el':
        return tab_iter(t[1], tab)
    if t[0] == 'i' and t[1][0] == 'el':
        return tab_iter(t[1][1], tab)
    return False


def table_key(t, tab):
    if t[0] == 'm' and t[2] in ('get', 'pop') and tab(t[1]):
        return t[3][0]
    if t[0] == 'r' and t[2][0] == 'call' and t[2][1] in ('.pop', '.get'):
        return t[2][3]
    if t[0] == 'i' and tab(t[1]):
        return t[2]
    return None


def tab_iter(t, tab):
    b = seq_base(t)
    return tab(b) or b[0] == 'm' and b[2] in ('items', 'values', 'keys') \
        and tab(b[1])


def _key_part(t, tab):
    """component of a key of the table met while walking it"""
    while t and t[0] == 'i':
        t = t[1]
    return bool(t) and t[0] == 'el' and tab_iter(t[1], tab)
