"""Eventer server: handshake, requests, status."""

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .shared import walks_of
from .eventer_server import (SRV, conn_loop, conn_table, sends, kw_of,
                             recv_result, recv_msg_term, bool_at, is_conn,
                             carries, conn_term)


def type_lit(name):
    """the type of a received message is `name`"""
    return lambda a, b: b and a[0] == 'eq' and const(name) in a[1:] and any(
        x[0] == 'i' and x[2] == const(1) and recv_result(x[1])
        for x in a[1:])


def recv_data(t):
    """base and path of a value inside received message data"""
    path = []
    while t and t[0] == 'i' and not recv_result(t[1]):
        path.append(t[2][2] if t[2][0] == 'c' else '?')
        t = t[1]
    if t and t[0] == 'i' and t[2] == const(2) and recv_result(t[1]):
        return path[::-1]
    return None


def is_recv(n):
    return n.kind == 'call' and n.data['callee'] in (RECV, ARECV)


THROW = ('throws', 'raise', 'uncaught')


def callback_calls(fg, attr_names=None):
    """calls of callables kept in attributes of self"""
    r = []
    for n in fg.kind('call'):
        if n.data['base'] == ('p', 'self') and n.data['callee'][0] == '.':
            r.append(n)
    return r


@check('C03')
def session(ctx):
    table, f, fg, conn = conn_table(ctx)
    where = short(f.qual)
    # the callbacks given to listen()
    cbs = callback_attrs(ctx, SRV + 'listen')
    con_cb, dis_cb = cbs.get('connected_cb'), cbs.get('disconnected_cb')
    if not con_cb or not dis_cb:
        raise AnalysisError('connection callbacks not kept')
    ins = [n for n in fg.kind('setitem') if self_attr(table)(
        n.data['base']) and n.data['key'] == conn]
    ctx.need('points where a client becomes connected', len(ins))
    init = type_lit('HatEventer.MsgInitReq')
    snd = sends(fg, 'HatEventer.MsgInitRes')
    ctx.need('init responses', len(snd), 2)
    calls = callback_calls(fg)
    con = [n for n in calls if n.data['callee'] == '.' + con_cb]
    dis = [n for n in calls if n.data['callee'] == '.' + dis_cb]
    ctx.need('connected notifications', len(con))
    ctx.need('disconnected notifications', len(dis))
    throw = lambda m: m.kind in THROW

    def status_of(n):
        t = fg.arg(n, 'msg_data', 2)
        if t and t[0] == 'tup' and t[1]:
            return const_str(t[1][0])
        return None

    ok = [n for n in snd if status_of(n) == 'success']
    bad = [n for n in snd if status_of(n) == 'error']
    once(ctx, 'init-response-is-success-or-error', where,
         ((n.loc, None if n in ok or n in bad else [n.id]) for n in snd),
         fg=fg, msg='unknown kind of init response')
    ctx.need('successful init responses', len(ok))
    ctx.need('failed init responses', len(bad))

    # only an init request starts a session
    once(ctx, 'init-request-first', where,
         ((n.loc, fg.unheld(n, init, set())) for n in ins + snd + con),
         fg=fg, msg='a client is served without an init request')
    # served only after a successful handshake
    later = [n for n in fg.nodes if is_recv(n) and
             any(fg.nodes[i].id for i in [n.id])]
    first = first_recv(fg)
    res = []
    isok = {n.id for n in ok}
    for n in later:
        if n.id in first:
            continue
        res.append((n.loc, fg.unpreceded(n, lambda m: m.id in isok)))
    ctx.need('later receives', len(res))
    once(ctx, 'served-after-success-only', where, res, fg=fg,
         msg='requests are processed before a successful init response')
    # rejected connections are not served
    res = []
    for n in bad:
        par = fg.reach([n])
        hit = [i for i in par if is_recv(fg.nodes[i]) or
               fg.nodes[i] in ins]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
    once(ctx, 'rejected-is-not-served', where, res, fg=fg,
         msg='a rejected client is served')
    insid = {n.id for n in ins}
    once(ctx, 'rejected-is-not-registered', where,
         ((n.loc, preceded_path(fg, n, insid)) for n in bad), fg=fg,
         msg='a client is registered although its init request failed')
    once(ctx, 'success-means-registered', where,
         ((n.loc, fg.unpreceded(n, lambda m: m.id in insid)) for n in ok),
         fg=fg, msg='a client is told it is connected but is not registered')

    # exactly one init response, on the conversation of the request
    sid = {n.id for n in snd}
    res = []
    for n in fg.kind('assume'):
        if init(n.data['atom'], n.data['pol']):
            res.append((n.loc, fg.unfollowed(
                n, lambda m: m.id in sid,
                lambda m: is_recv(m) or fg.is_return(m), throw)))
    for n in snd:
        par = fg.reach([n], block=lambda m: m.id in sid)
        hit = [i for i in par for j in fg.nodes[i].succ if j in sid]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
    once(ctx, 'one-init-response', where, res, fg=fg,
         msg='not exactly one init response')
    once(ctx, 'init-response-conversation', where,
         ((n.loc, None if is_conv(kw_of(n, 'conv')) and
           fg.arg(n, 'conn', 0) == conn else [n.id]) for n in snd), fg=fg,
         msg='init response is not sent on the conversation of the request')
    # nothing is sent to the client between registration and response
    gap = []
    for n in ins:
        par = fg.reach([n], block=lambda m: m.id in sid or
                       m.kind in THROW)
        for i in par:
            if fg.nodes[i].kind == 'suspend':
                gap.append((n.loc, fg.path(par, i)))
                break
        else:
            gap.append((n.loc, None))
    once(ctx, 'response-before-notifications', where, gap, fg=fg,
         msg='notifications may be sent before the init response')

    # acceptance is asked before the client is registered
    none_con = lambda a, b: (a[0] == 'none' and b or a[0] == 'truthy' and
                             not b) and cb_attr(a[1], con_cb)
    # a refused client is told so, whatever was raised
    badid = {n.id for n in bad}
    res = []
    for n in con:
        for j in n.succ:
            if fg.nodes[j].kind == 'throws':
                res.append((n.loc, fg.unfollowed(
                    fg.nodes[j], lambda m: m.id in badid, fg.is_end,
                    lambda m: m.kind == 'throws' and m.id != j)))
    once(ctx, 'refused-is-told', where, res, fg=fg,
         msg='a client that is refused gets no init response')
    res = []
    for n in ins:
        v = n.data['value']
        par = fg.reach([n], back=True, block=lambda m: (
            m.kind == 'call' and m.data['callee'] == '.' + con_cb and
            any(same(x, v) for x in m.data['args'])) or
            assume_block(none_con)(m))
        res.append((n.loc, fg.path(par, 0)[::-1] if 0 in par else None))
    for n in con:
        # a refusal is an exception
        par = fg.reach([j for j in n.succ
                        if fg.nodes[j].kind in ('throws',)])
        hit = [i for i in par if i in insid or i in isok]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
    once(ctx, 'accepted-before-registered', where, res, fg=fg,
         msg='a client is registered without having been accepted')

    # what the client asked for is what is recorded
    fields = {'client_name': ('clientName', False),
              'client_token': ('clientToken', True),
              'server_id': ('serverId', True),
              'persisted': ('persisted', False)}
    for k, (d, opt) in fields.items():
        res = []
        for n in ins:
            v = dict(n.data['value'][2]).get(k) \
                if n.data['value'][0] == 'rec' else None
            ok1 = v is not None and recorded(fg, n, v, d, opt)
            res.append((n.loc, None if ok1 else [n.id]))
        once(ctx, 'session-data-recorded', f'{where}.{k}', res, fg=fg,
             msg=f'{k} of the session is not what the client asked for')
    res = []
    for n in ins:
        v = dict(n.data['value'][2]).get('subscription')
        a = call_args(v, 'create_subscription') if v else None
        ok1 = a is not None and len(a) == 1 and all(
            recv_data_of_elements(fg, n, x) for x in
            [y for y, _ in gen_elements(fg, n, a[0])])
        res.append((n.loc, None if ok1 else [n.id]))
    once(ctx, 'session-data-recorded', f'{where}.subscription', res, fg=fg,
         msg='the subscription of the session is not what the client asked '
             'for')
    ids = [dict(n.data['value'][2]).get('id') for n in ins]
    once(ctx, 'session-ids-unique', where,
         ((n.loc, None if i and call_args(i, 'next') and
           self_attr_any(call_args(i, 'next')[0]) else [n.id])
          for n, i in zip(ins, ids)), fg=fg,
         msg='session id does not come from the counter of the server')

    # the end of a session
    end = lambda m: fg.is_end(m)
    close = lambda m: m.kind == 'call' and m.data['callee'] in (
        '.close', '.async_close') and m.data['base'] == conn
    pops = lambda m: m.kind == 'call' and m.data['callee'] == '.pop' and \
        self_attr(table)(m.data['base']) and m.data['args'][0] == conn or \
        m.kind == 'delitem' and self_attr(table)(m.data['base'])
    p = fg.unfollowed(fg.entry, close, end)
    ctx.ob('connection-closed', where, p is None, f.loc,
           'the handler ends without closing the connection',
           fg.show_path(p) if p else None)
    once(ctx, 'session-removed', where,
         ((n.loc, fg.unfollowed(n, pops, end)) for n in ins), fg=fg,
         msg='a closed session stays registered')
    none_dis = lambda a, b: (a[0] == 'none' and b or a[0] == 'truthy' and
                             not b) and cb_attr(a[1], dis_cb)
    isdis = {n.id for n in dis}
    once(ctx, 'disconnected-announced', where,
         ((n.loc, fg.unfollowed(n, lambda m: m.id in isdis, end,
                                assume_block(none_dis))) for n in ins),
         fg=fg, msg='the end of a session is not announced')
    res = []
    for n in dis:
        par = fg.reach(n.succ)
        hit = [i for i in par if i in isdis or i in insid or
               is_recv(fg.nodes[i])]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
        pp = fg.unpreceded(n, pops)
        res.append((n.loc, pp))
    once(ctx, 'disconnected-announced-once', where, res, fg=fg,
         msg='the end of a session is announced twice or while the session '
             'goes on')
    once(ctx, 'disconnected-only-if-connected', where,
         ((n.loc, None if not preceded_path(fg, n, {x.id for x in bad})
           else [n.id]) for n in dis), fg=fg,
         msg='the end of a rejected connection is announced')


def callback_attrs(ctx, listen):
    """parameter name -> attribute it is kept in"""
    fg = ctx.flow(listen, std_opaque(ctx.prog))
    r = {}
    for n in fg.kind('store'):
        if n.data['value'][0] == 'p':
            r[n.data['value'][1]] = n.data['attr']
    for n in fg.kind('new'):
        v = n.data['value']
        if v[0] == 'rec':
            for k, x in v[2]:
                if x[0] == 'p':
                    r.setdefault(x[1], k)
    return r


def cb_attr(t, name):
    return t[0] == 'a' and t[2] == name and t[1] == ('p', 'self')


def self_attr_any(t):
    return t[0] == 'a' and t[1] == ('p', 'self')


def first_recv(fg):
    """receives not preceded by another receive"""
    par = fg.reach([0], block=lambda m: False)
    r = set()
    rec = [n for n in fg.nodes if is_recv(n)]
    ids = {n.id for n in rec}
    before = fg.reach([0], block=lambda m: m.id in ids)
    for n in rec:
        if any(j in before for j in n.pred):
            r.add(n.id)
    return r


def preceded_path(fg, n, ids):
    """path from one of ids to n"""
    if not ids:
        return None
    par = fg.reach([n], back=True)
    hit = [i for i in par if i in ids]
    return fg.path(par, hit[0])[::-1] if hit else None


def is_conv(t):
    return bool(t) and t[0] == 'a' and t[2] == 'conv' and \
        recv_msg_term(t[1])


def recorded(fg, n, v, name, opt):
    p = recv_data(v)
    if not opt:
        return p == [name]
    val = lambda a, b, pol: a[0] == 'eq' and any(
        const_str(x) in ('value', 'none') and
        (const_str(x) == 'value') == (b == pol) for x in a[1:] if
        x[0] == 'c') and any(recv_data(x) == [name, 0] for x in a[1:])
    if v == NONE:
        return fg.unheld(n, lambda a, b: val(a, b, False), set()) is None
    if p == [name, 1]:
        return fg.unheld(n, lambda a, b: val(a, b, True), set()) is None
    return False


def gen_elements(fg, n, t):
    """elements of a generator expression or container argument"""
    if t[0] == 'gx':
        return [(('gxel', t), n)]
    return elements(fg, n, t)


def recv_data_of_elements(fg, n, x):
    """is x an element of the received subscriptions?"""
    if x[0] == 'gxel':
        gx = x[1]
        e = fg.flow.p.nodes[gx[1]]
        return len(e.generators) == 1 and not e.generators[0].ifs and \
            recv_data(gx[3]) == ['subscriptions']
    while x and x[0] == 'op' and x[1] in ('tuple', 'list'):
        x = x[2]
    return bool(x) and x[0] == 'el' and recv_data(seq_base(x[1])) == [
        'subscriptions']


@check('C04')
def requests(ctx):
    table, f, fg, conn = conn_table(ctx)
    where = short(f.qual)
    cbs = callback_attrs(ctx, SRV + 'listen')
    throw = lambda m: m.kind in THROW
    after = lambda m: is_recv(m) or fg.is_return(m)
    kinds = {'register': ('HatEventer.MsgRegisterReq',
                          'HatEventer.MsgRegisterRes',
                          cbs.get('register_cb')),
             'query': ('HatEventer.MsgQueryReq', 'HatEventer.MsgQueryRes',
                       cbs.get('query_cb'))}
    known = [type_lit(k[0]) for k in kinds.values()] + [
        type_lit('HatEventer.MsgEventsAck')]
    # every further message is one of the known kinds
    first = first_recv(fg)
    res = []
    for n in fg.nodes:
        if is_recv(n) and n.id not in first:
            res.append((n.loc, fg.unfollowed(
                n, lambda m: False, after,
                lambda m: throw(m) or m.kind == 'assume' and any(
                    k(m.data['atom'], m.data['pol']) for k in known))))
    ctx.need('request receives', len(res))
    once(ctx, 'unknown-message-ends-session', where, res, fg=fg,
         msg='a message of unexpected type is silently ignored')
    for kind, (req, resp, cb) in kinds.items():
        w = f'{where}.{kind}'
        if not cb:
            raise AnalysisError(f'{kind} callback not kept')
        lit = type_lit(req)
        starts = [n for n in fg.kind('assume')
                  if lit(n.data['atom'], n.data['pol'])]
        ctx.need(f'{kind} request states', len(starts))
        snd = sends(fg, resp)
        ctx.need(f'{kind} responses', len(snd))
        sid = {n.id for n in snd}
        calls = [n for n in callback_calls(fg)
                 if n.data['callee'] == '.' + cb]
        cid = {n.id for n in calls}
        ctx.need(f'{kind} callback calls', len(calls))
        ress = [unage(n.data['res']) for n in calls if n.data.get('res')]
        cut = timeboxed(fg, lambda t: unage(t) in ress or cb_attr(t, cb))
        once(ctx, 'callback-is-given-time', w,
             [(n.loc, None) for n in calls] + [(n.loc, [n.id]) for n in cut],
             fg=fg, msg='the processing of a request is given up after some '
             'time')
        nocb = lambda a, b: (a[0] == 'none' and b or a[0] == 'truthy' and
                             not b) and cb_attr(a[1], cb)
        lastlit = lambda a, b: a[0] == 'truthy' and b and \
            a[1][0] == 'a' and a[1][2] == 'last' and \
            recv_msg_term(a[1][1])
        once(ctx, 'request-reaches-callback', w,
             ((n.loc, fg.unfollowed(n, lambda m: m.id in cid, after,
                                    lambda m: throw(m) or
                                    assume_block(nocb)(m)))
              for n in starts), fg=fg,
             msg='a request is not passed to its callback')
        ex = (lambda m: throw(m) or assume_block(lastlit)(m)) \
            if kind == 'register' else throw
        once(ctx, 'request-is-answered', w,
             ((n.loc, fg.unfollowed(n, lambda m: m.id in sid, after, ex))
              for n in starts), fg=fg,
             msg='a request stays without response')
        res = []
        for n in snd:
            par = fg.reach(n.succ, block=lambda m: is_recv(m))
            hit = [i for i in par if i in sid]
            res.append((n.loc, fg.path(par, hit[0]) if hit else None))
            res.append((n.loc, fg.unheld(n, lit, set())))
            par = fg.reach([n], back=True, block=lambda m: is_recv(m) or
                           assume_block(lit)(m))
            # request of this very kind since the last receive
        for n in calls:
            par = fg.reach(n.succ, block=lambda m: is_recv(m))
            hit = [i for i in par if i in cid]
            res.append((n.loc, fg.path(par, hit[0]) if hit else None))
        once(ctx, 'answered-once', w, res, fg=fg,
             msg='a request is processed or answered more than once')
        once(ctx, 'answer-conversation', w,
             ((n.loc, None if is_conv(kw_of(n, 'conv')) and
               fg.arg(n, 'conn', 0) == conn else [n.id]) for n in snd),
             fg=fg, msg='the response is sent on another conversation')
        if kind == 'register':
            once(ctx, 'answer-only-if-asked', w,
                 ((n.loc, fg.unheld(n, neg(lastlit), set())) for n in snd),
                 fg=fg, msg='a response is sent although none was asked for')
            _register_data(ctx, fg, w, calls, snd, cid, nocb)
        else:
            _query_data(ctx, fg, w, calls, snd, cid, nocb)
        info = [n.data['args'][0] for n in calls if n.data['args']]
        ok = all(i[0] == 'rec' for i in info) and len(info) == len(calls)
        ins = [n.data['value'] for n in fg.kind('setitem')
               if n.data['key'] == conn]
        ok = ok and all(any(same(i, v) for v in ins) for i in info)
        ctx.ob('callback-gets-own-session', w, ok,
               calls[0].loc if calls else f.loc,
               'the callback is not told which session made the request')


def cb_result(t, cb_nodes):
    return any(n.data.get('res') is not None and same(n.data['res'], t)
               for n in cb_nodes)


def _register_data(ctx, fg, w, calls, snd, cid, nocb):
    res = []
    for n in calls:
        a = n.data['args'][1] if len(n.data['args']) > 1 else None
        els = elements(fg, n, a) if a is not None else []
        for v, an in els:
            x = call_args(v, 'register_event_from_sbs')
            ok = x and elem_of(x[0], lambda b: recv_data(b) == [])
            res.append((an.loc, None if ok else [an.id]))
    ctx.need('registered elements', len(res))
    once(ctx, 'request-data', w, res, fg=fg,
         msg='registered events are not those of the request')
    res = []
    for it in fg.kind('iter'):
        v = it.data['value']
        if elem_of(v, lambda b: recv_data(b) == []):
            done = lambda m: m.kind == 'add' and carries(
                m.data['value'], unage(v))
            res.append((it.loc, fg.skipped(it, done, lambda a, b: False)
                        or fg.early(it)))
    ctx.need('request element loops', len(res))
    once(ctx, 'request-data-complete', w, res, fg=fg,
         msg='an event of the request is left out')
    res = []
    isres = lambda t: cb_result(t, calls)
    for n in snd:
        d = fg.arg(n, 'msg_data', 2)
        tag = const_str(d[1][0]) if d and d[0] == 'tup' and \
            len(d[1]) == 2 else None
        isnone = none_lit(isres)
        if tag == 'events':
            els = elements(fg, n, d[1][1])
            bad = [an for v, an in els if not (
                call_args(v, 'event_to_sbs') and elem_of(
                    call_args(v, 'event_to_sbs')[0], isres))]
            p = [bad[0].id] if bad else fg.unheld(n, neg(isnone), set())
            res.append((n.loc, p))
        elif tag == 'failure':
            p = fg.unheld(n, any_lit(isnone, nocb), set())
            res.append((n.loc, p))
        else:
            res.append((n.loc, [n.id]))
    for it in fg.kind('iter'):
        v = it.data['value']
        if elem_of(v, isres):
            done = lambda m: m.kind == 'add' and carries(
                m.data['value'], unage(v))
            res.append((it.loc, fg.skipped(it, done, lambda a, b: False)
                        or fg.early(it)))
    once(ctx, 'answer-data', w, res, fg=fg,
         msg='the response does not carry the outcome of the registration')


def _query_data(ctx, fg, w, calls, snd, cid, nocb):
    res = []
    for n in calls:
        a = n.data['args'][1] if len(n.data['args']) > 1 else ()
        x = call_args(a, 'query_params_from_sbs') if a else None
        ok = x and recv_data(x[0]) == []
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'request-data', w, res, fg=fg,
         msg='query parameters are not those of the request')
    res = []
    isres = lambda t: cb_result(t, calls)
    for n in snd:
        d = fg.arg(n, 'msg_data', 2)
        x = call_args(d, 'query_result_to_sbs') if d else None
        if x and isres(x[0]):
            res.append((n.loc, None))
        elif x and x[0][0] == 'rec':
            # no callback: nothing to report
            res.append((n.loc, fg.unheld(n, nocb, set())))
        else:
            res.append((n.loc, [n.id]))
    once(ctx, 'answer-data', w, res, fg=fg,
         msg='the response does not carry the result of the query')


@check('C05')
def status(ctx):
    table, f, fg, conn = conn_table(ctx)
    isc = is_conn(table)
    sf = ctx.prog.func(SRV + 'Server.set_status')
    sg = ctx.flow(sf, std_opaque(ctx.prog), inline_spawn=True)
    where = short(sf.qual)
    par = ('p', sf.params[1])
    st = [n for n in sg.kind('store') if n.data['value'] == par and
          n.data['base'] == ('p', 'self')]
    ctx.need('status stores', len(st))
    attr = st[0].data['attr']
    unchanged = lambda a, b: b and a[0] == 'eq' and par in a[1:] and any(
        self_attr(attr)(x) for x in a[1:])
    sid = {n.id for n in st}
    p = sg.unfollowed(sg.entry, lambda m: m.id in sid, sg.is_return,
                      assume_block(unchanged))
    ctx.ob('status-recorded', where, p is None, sf.loc,
           'a status change is not recorded', sg.show_path(p) if p else None)
    snd = sends(sg, 'HatEventer.MsgStatusNotify')
    ctx.need('status notifications', len(snd))
    cur = lambda t: t == par or self_attr(attr)(t)
    once(ctx, 'status-notification-data', where,
         ((n.loc, None if call_args(fg.arg(n, 'msg_data', 2),
                                    'status_to_sbs') and
           cur(call_args(fg.arg(n, 'msg_data', 2), 'status_to_sbs')[0])
           and isc(sg.arg(n, 'conn', 0)) else [n.id]) for n in snd), fg=sg,
         msg='a client is notified of another status')
    once(ctx, 'recorded-before-notified', where,
         ((n.loc, sg.unpreceded(n, lambda m: m.id in sid)) for n in snd),
         fg=sg, msg='clients are notified before the status is recorded')
    walk = [n for n in sg.kind('iter') if conn_term(n, isc) is not None]
    ctx.need('iterations over connections', len(walk))
    over = lambda m: m.kind in ('iter', 'iterend') and (
        m in walk or over_table(m.data['iter'], table) or
        any(m.ast is x.ast and m.frame == x.frame for x in walk))
    once(ctx, 'status-change-notified', where,
         [(n.loc, sg.unfollowed(n, over, sg.is_return)) for n in st], fg=sg,
         msg='a status change is not notified')
    res = []
    for it in walk:
        c = unage(conn_term(it, isc))
        done = lambda m: m.kind == 'call' and m.data['callee'] == SEND and \
            unage(sg.arg(m, 'conn', 0)) == c or m.kind == 'add' and \
            carries(m.data['value'], c)
        res.append((it.loc, sg.skipped(it, done, lambda a, b: False) or
                    sg.early(it)))
    once(ctx, 'every-client-notified', where, res, fg=sg,
         msg='a connected client does not learn about a status change')
    for q in sorted({m.fn for m in sg.nodes if m.fn} | {sf.qual}):
        h = ctx.prog.functions.get(q)
        if h is None or h.module is not sf.module:
            continue
        hg, live, _ = walks_of(ctx, h, {})
        if live:
            once(ctx, 'clients-may-come-and-go', short(q), live, fg=hg,
                 msg='a client that connects or leaves while others are '
                     'notified ends the notification')
    # a failing connection does not stop the others
    res = []
    for n in snd:
        for j in n.succ:
            for m in [sg.nodes[j]] + [sg.nodes[k] for k in
                                      sg.nodes[j].succ]:
                if m.kind == 'throws' and m.data['value'][1] == \
                        'Exception?':
                    q = sg.reach([m])
                    hit = [i for i in q if sg.nodes[i].kind == 'uncaught'
                           and sg.nodes[i].data['value'][1] !=
                           'asyncio.CancelledError']
                    res.append((n.loc, sg.path(q, hit[0]) if hit
                                else None))
    once(ctx, 'failing-client-isolated', where, res, fg=sg,
         msg='a failure of one client keeps the others from being notified')
    # init response carries the status of the moment of registration
    ins = [n for n in fg.kind('setitem') if self_attr(table)(
        n.data['base']) and n.data['key'] == conn]
    lw = short(f.qual)
    res, res2 = [], []
    for n in sends(fg, 'HatEventer.MsgInitRes'):
        d = fg.arg(n, 'msg_data', 2)
        if d[0] != 'tup' or const_str(d[1][0]) != 'success':
            continue
        x = call_args(d[1][1], 'status_to_sbs')
        ok = x and self_attr(attr)(x[0])
        res.append((n.loc, None if ok else [n.id]))
        # the status read and the registration happen in one step
        reads = [m for m in fg.calls() if m.data.get('res') is not None and
                 same(m.data['res'], d[1][1])]
        insid = {i.id for i in ins}
        for m in reads:
            q = fg.reach([m], block=lambda k: k.id in insid or
                         k.kind in THROW or k.id == n.id)
            for i in q:
                if fg.nodes[i].kind == 'suspend':
                    back = fg.reach([i], block=lambda k: k.kind in THROW)
                    if any(k in insid or k == n.id for k in back):
                        res2.append((m.loc, fg.path(q, i)))
            res2.append((m.loc, None))
        # registered first, read afterwards without a step in between
        back = fg.reach([n], back=True, block=lambda k: k in reads or
                        k.id in insid)
    ctx.need('init responses with status', len(res))
    ctx.need('status reads', len(res2))
    once(ctx, 'init-response-status', lw, res, fg=fg,
         msg='the init response does not carry the current status')
    once(ctx, 'no-status-change-missed', lw, res2, fg=fg,
         msg='a status change between the init response and registration '
             'is lost')


def over_table(t, table):
    b = seq_base(t)
    if b[0] == 'm' and b[2] in ('items', 'values', 'keys'):
        b = b[1]
    return self_attr(table)(b)
