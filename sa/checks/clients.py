"""Eventer client and adminer: requests, notifications, handshake."""

import ast

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .eventer_server import (sends, kw_of, recv_result, recv_msg_term,
                             from_table, table_key, tab_iter, bool_at,
                             carries)
from .eventer_server2 import (type_lit, recv_data, is_recv, THROW, is_conv,
                              callback_attrs, callback_calls, cb_attr,
                              first_recv)

CLI = EV + 'eventer.client.'
ADM = EV + 'adminer.'
SENDS = (SEND, ASEND)


def wait_points(fg):
    """registrations of a freshly made future: [(node, future term)]"""
    r = []
    for n in fg.kind('setitem'):
        if not self_attr_term(n.data['base']):
            continue
        for x in subterms(n.data['value']):
            if x and x[0] == 'r' and call_args(x, 'create_future') \
                    is not None:
                r.append((n, x))
                break
    return r


def self_attr_term(t):
    return t[0] == 'a' and t[1] == ('p', 'self')


def strip(t):
    """component of a table entry -> the entry"""
    while t and t[0] == 'i' and t[2][0] == 'c' and \
            isinstance(t[2][2], int) and not self_attr_term(t[1]):
        t = t[1]
    return t


def conn_of_self(t):
    return t[0] == 'a' and t[1] == ('p', 'self')


def open_lit(a, b):
    """the connection is open"""
    if a[0] != 'truthy':
        return False
    t = a[1]
    return b and t[0] == 'a' and t[2] == 'is_open' or (
        not b and t[0] == 'a' and t[2] in ('is_closing', 'is_closed'))


def request_rules(ctx, f, expects):
    """rules of one public request method; `expects(fg, send)` tells whether
    a response is waited for: True, False or a literal to look for"""
    fg = ctx.flow(f, std_opaque(ctx.prog), inline_spawn=True)
    where = short(f.qual)
    snd = [n for n in fg.calls(*SENDS)]
    ctx.need(f'request sends of {where}', len(snd))
    sid = {n.id for n in snd}
    p = fg.unfollowed(fg.entry, lambda m: m.id in sid, fg.is_return)
    ctx.ob('request-is-sent', where, p is None, f.loc,
           'the request is not sent', fg.show_path(p) if p else None)
    res = []
    for n in snd:
        par = fg.reach(n.succ)
        hit = [i for i in par if i in sid]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
    once(ctx, 'request-is-sent-once', where, res, fg=fg,
         msg='the request is sent twice')
    once(ctx, 'request-is-sent-on-own-connection', where,
         ((n.loc, None if conn_of_self(fg.arg(n, 'conn', 0)) else [n.id])
          for n in snd), fg=fg, msg='the request goes elsewhere')
    waits = wait_points(fg)
    ctx.need(f'response registrations of {where}', len(waits))
    wid = {n.id for n, _ in waits}
    ends = fg.is_return
    wait, gap, opn, key, ret, rem, flag = [], [], [], [], [], [], []
    for n in snd:
        last = kw_of(n, 'last')
        last = bool_at(n, last) if last is not None else True
        want = expects(fg, n)
        flag.append((n.loc, None if last is not None and want is not None
                     and last != want else [n.id]))
        if last is not True:
            wait.append((n.loc, fg.unfollowed(
                n, lambda m: m.id in wid, ends, lambda m: m.kind in THROW)))
        par = fg.reach([n], block=lambda m: m.kind in THROW)
        if last is True:
            hit = [i for i in par if i in wid]
            flag.append((n.loc, fg.path(par, hit[0]) if hit else None))
        par = fg.reach([n], block=lambda m: m.id in wid or
                       m.kind in THROW or
                       m.kind == 'suspend' and not same(
                           m.data['value'], n.data['res']))
        # only what can still reach the registration counts
        for i in par:
            for j in fg.nodes[i].succ:
                m = fg.nodes[j]
                if m.kind == 'suspend' and not same(
                        m.data['value'], n.data['res']):
                    q = fg.reach([m], block=lambda k: k.kind in THROW)
                    if any(k in wid for k in q):
                        gap.append((m.loc, fg.path(par, i)))
        gap.append((n.loc, None))
        own = [m for m in fg.nodes if m.kind == 'suspend' and same(
            m.data['value'], n.data['res'])]
        par = fg.reach(own, block=lambda m: m.kind == 'assume' and open_lit(
            m.data['atom'], m.data['pol']))
        hit = [i for i in par if i in wid]
        opn.append((n.loc, fg.path(par, hit[0]) if hit else None))
    for n, fut in waits:
        k = n.data['key']
        ok = any(same(k, s.data['res']) for s in snd)
        key.append((n.loc, None if ok else [n.id]))
        par = fg.reach([n], block=lambda m: m.kind in THROW)
        for i in par:
            m = fg.nodes[i]
            if fg.is_return(m):
                ok = m.data['value'] is not None and (
                    contains(m.data['value'], unage(fut)) or
                    m.data['value'] == NONE)
                if ok and m.data['value'] == NONE:
                    # waited for, result not of interest
                    aw = lambda x: x.kind == 'suspend' and contains(
                        x.data['value'], unage(fut))
                    q = fg.unfollowed(n, aw, fg.is_return,
                                      lambda x: x.kind in THROW)
                    ok = q is None
                ret.append((m.loc, None if ok else fg.path(par, i)))
        tab = n.data['base']
        pops = lambda m: m.kind == 'call' and m.data['callee'] in (
            '.pop', '.__delitem__') and m.data['base'] and unage(
                m.data['base'])[:3] == unage(tab)[:3] and same(
                    m.data['args'][0], k)
        rem.append((n.loc, fg.unfollowed(n, pops, fg.is_end)))
    once(ctx, 'response-asked-as-needed', where, flag, fg=fg,
         msg='a response is asked for when none is wanted or the other way '
             'round')
    once(ctx, 'asked-response-is-waited-for', where, wait, fg=fg,
         msg='a response is asked for but not waited for')
    once(ctx, 'ready-before-response-can-arrive', where, gap, fg=fg,
         msg='other code runs between sending the request and getting ready '
             'for the response')
    once(ctx, 'no-wait-on-closed-connection', where, opn, fg=fg,
         msg='the wait starts although the connection may have been closed '
             'while sending; nothing would end it')
    once(ctx, 'wait-is-for-own-conversation', where, key, fg=fg,
         msg='the wait is registered under something else than the '
             'conversation of the request')
    once(ctx, 'response-is-returned', where, ret, fg=fg,
         msg='the caller gets something else than the response')
    futs = [unage(w[1]) for w in waits]
    cut = timeboxed(fg, lambda t: unage(t) in futs)
    once(ctx, 'waits-as-long-as-it-takes', where,
         [(n.loc, None) for n, _ in waits] + [(n.loc, [n.id]) for n in cut],
         fg=fg, msg='the wait for the response is given up while still '
         'connected')
    once(ctx, 'wait-is-removed', where, rem, fg=fg,
         msg='the registration of the wait is left behind')
    return fg, snd, waits


def no_future(fg, tab):
    """literal: nobody waits (any more) for this conversation"""
    def lit(a, b):
        if a[0] == 'none':
            return b and from_table(fg, strip(a[1]), tab)
        if a[0] == 'in':
            return not b and tab(a[2])
        if a[0] == 'truthy':
            if match_call(a[1], 'done', lambda t: from_table(
                    fg, strip(t), tab)):
                return b
            return not b and from_table(fg, strip(a[1]), tab)
        return False
    return lit


def catches_missing(node):
    """does the function expect that a key is missing?"""
    return any(isinstance(x, ast.ExceptHandler) and x.type is not None and any(
        isinstance(y, ast.Name) and y.id in ('KeyError', 'LookupError')
        for y in ast.walk(x.type)) for x in ast.walk(node))


def response_rules(ctx, f, table, starts_of, kinds):
    """rules of a receive loop that matches responses with waits"""
    fg = ctx.flow(f, std_opaque(ctx.prog), inline_spawn=True)
    where = short(f.qual)
    tab = self_attr(table)
    after = lambda m: is_recv(m) or fg.is_return(m)
    throw = lambda m: m.kind in THROW
    sets = [n for n in fg.calls('.set_result', '.set_exception', '.cancel')
            if from_table(fg, strip(n.data['base']), tab)]
    walked = [n for n in sets if strip(n.data['base'])[0] == 'el']
    answers = [n for n in sets if n not in walked]
    ctx.need('response resolutions', len(answers))
    aid = {n.id for n in answers}
    nof = no_future(fg, tab)
    done_lit = lambda a, b: a[0] == 'truthy' and not b and match_call(
        a[1], 'done', lambda t: from_table(fg, strip(t), tab))
    res, lost = [], []
    for kind, lit in kinds.items():
        st = starts_of(fg, lit)
        ctx.need(f'{kind} response states', len(st))
        for n in st:
            res.append((n.loc, fg.unfollowed(
                n, lambda m: m.id in aid, after,
                lambda m: throw(m) or assume_block(nof)(m))))
    once(ctx, 'response-resolves-wait', where, res, fg=fg,
         msg='a response is received but its request goes on waiting')
    once(ctx, 'resolved-by-own-conversation', where,
         ((n.loc, None if is_conv(table_key(strip(n.data['base']), tab) or
                                  ()) else [n.id]) for n in answers), fg=fg,
         msg='a response is credited to another request')
    adds, its = collected(fg, lambda t: from_table(fg, strip(unage(t)), tab))
    second = []
    for n in sets:
        p = fg.unheld(n, done_lit, set())
        if p is not None and n in walked and adds:
            q = held_since(fg, n, adds, done_lit)
            p = q if q is None else p
        second.append((n.loc, p))
    once(ctx, 'no-second-resolution', where, second, fg=fg,
         msg='a future that may be done already is resolved')
    for n in fg.kind('assume'):
        if nof(n.data['atom'], n.data['pol']) and not any(
                x[0] == 'el' for x in subterms(n.data['atom']) if x):
            p = fg.unfollowed(
                n, is_recv, lambda m: fg.is_return(m) or m.kind in (
                    'raise', 'uncaught'), lambda m: m.kind == 'throws')
            lost.append((n.loc, p))
    for n in answers:
        t = strip(n.data['base'])
        bare = t[0] == 'i' and tab(t[1]) or t[0] == 'r' and t[2][:2] == (
            'call', '.pop') and len(t[2]) == 4
        h = ctx.prog.functions.get(n.fn)
        if bare and not (h and catches_missing(h.node)):
            lost.append((n.loc, fg.unheld(
                n, lambda a, b: b and a[0] == 'in' and tab(unage(a[2])))))
    once(ctx, 'unclaimed-response-is-ignored', where, lost, fg=fg,
         msg='a response nobody waits for any more ends the session and '
             'fails every other request')
    once(ctx, 'session-goes-on', where,
         ((n.loc, fg.unfollowed(n, is_recv, lambda m: fg.is_return(m) or
                                m.kind == 'raise', lambda m: m.kind in (
             'throws', 'uncaught'))) for n in answers), fg=fg,
         msg='a response ends the session')
    # the end
    end = fg.is_end
    close = lambda m: m.kind == 'call' and m.data['callee'] in (
        '.close', '.async_close') and (
        m.data['base'] == ('p', 'self') or self_attr_term(m.data['base']))
    p = fg.unfollowed(fg.entry, close, end)
    ctx.ob('end-closes-client', where, p is None, f.loc,
           'the receive loop ends but the client stays open',
           fg.show_path(p) if p else None)
    walk = [n for n in fg.kind('iter', 'iterend') if tab_iter(
        n.data['iter'], tab)]
    wid = {n.id for n in walk}
    p = fg.unfollowed(fg.entry, lambda m: m.id in wid, end)
    ctx.ob('end-fails-pending', where, p is None, f.loc,
           'the receive loop ends without ending pending requests',
           fg.show_path(p) if p else None)
    res, res2 = [], []
    for it in walk:
        res2.append((it.loc, fg.unpreceded(it, close)))
        if it.kind != 'iter':
            continue
        done = lambda m: m in walked or m in adds
        ex = lambda a, b: b and a[0] == 'truthy' and match_call(
            a[1], 'done', None)
        res.append((it.loc, fg.skipped(it, done, ex) or fg.early(it)))
    for m in adds:
        res.append((m.loc, fg.unfollowed(
            m, lambda x: x in its and x.data['iter'] and unage(seq_base(
                x.data['iter'])) == unage(m.data['obj']), end)))
    for it in its:
        if it.kind == 'iter':
            res.append((it.loc, fg.skipped(
                it, lambda m: m in walked, ex) or fg.early(it)))
    ctx.need('walks over pending requests', len(res))
    out = [(f.loc, None)]
    done = {n.id for n in walk if n.kind == 'iterend'}
    for n in fg.calls('.clear', '.popitem', '.__delitem__'):
        if n.data['base'] and tab(unage(n.data['base'])) and not (
                n.data['args'] and is_conv(n.data['args'][0])):
            out.append((n.loc, fg.unpreceded(n, lambda m: m.id in done)))
    for q, h in sorted(ctx.prog.functions.items()):
        if h.cls is None or f.cls is None or h.cls.qual != f.cls.qual or \
                h.qual in {n.fn for n in fg.nodes}:
            continue
        gh = ctx.flow(h, std_opaque(ctx.prog))
        for n in gh.calls('.clear', '.popitem'):
            if n.data['base'] and tab(unage(n.data['base'])):
                out.append((n.loc, [n.id]))
    once(ctx, 'pending-stay-known', where, out,
         msg='pending requests are forgotten without being ended')
    once(ctx, 'end-fails-every-pending', where, res, fg=fg,
         msg='a pending request is not ended when the connection ends')
    once(ctx, 'closed-before-failing-pending', where, res2, fg=fg,
         msg='a request may start to wait after pending requests were ended')
    once(ctx, 'end-fails-with-connection-error', where,
         ((n.loc, None if n.data['callee'] == '.set_exception' and
           'ConnectionError' in show(n.data['args'][0]) else [n.id])
          for n in walked), fg=fg,
         msg='pending requests are ended by something else than '
             'ConnectionError')
    return fg, answers


def loop_of(ctx, connect):
    """the receive loop a client spawns"""
    fg = ctx.flow(connect, std_opaque(ctx.prog))
    r = []
    for n in fg.kind('call'):
        if n.data['callee'].endswith('.spawn'):
            a = n.data['args'] and callee_of(ctx.prog, n.data['args'][0])
            if a and a not in r:
                r.append(a)
    ctx.need(f'receive loop started by {short(fg.func.qual)}', len(r))
    return r[0], fg


def table_of(waits):
    return waits[0][0].data['base'][2]


@check('C06')
def client_requests(ctx):
    prog = ctx.prog
    loop, _ = loop_of(ctx, CLI + 'connect')
    f = prog.func(CLI + 'Client.register')
    wr = ('p', f.params[2])

    def expects(fg, n):
        w = {b for a, b in n.facts if a == ('truthy', wr)}
        if len(w) == 1:
            return w.pop()
        for pol in (True, False):
            if fg.holds(n, lambda a, b: a == ('truthy', wr) and b == pol,
                        labels=set()):
                return pol
        return None
    fg, snd, waits = request_rules(ctx, f, expects)
    where = short(f.qual)
    ev = ('p', f.params[1])
    res = []
    for n in snd:
        ok = const_str(fg.arg(n, 'msg_type', 1)) == 'HatEventer.MsgRegisterReq'
        for v, an in elements(fg, n, fg.arg(n, 'msg_data', 2)):
            x = call_args(v, 'register_event_to_sbs')
            res.append((an.loc, None if ok and x and elem_of(
                x[0], lambda b: b == ev) else [an.id]))
    ctx.need('registered elements', len(res))
    for it in fg.kind('iter'):
        if elem_of(it.data['value'], lambda b: b == ev):
            u = unage(it.data['value'])
            res.append((it.loc, fg.skipped(
                it, lambda m: m.kind == 'add' and carries(
                    m.data['value'], u), lambda a, b: False) or
                fg.early(it)))
        if it.data['iter'][0] == 'op' and it.data['iter'][1] in (
                'reversed', 'sorted', 'set'):
            res.append((it.loc, [it.id]))
    for n in fg.kind('add'):
        if n.data['how'] in ('appendleft', 'insert'):
            res.append((n.loc, [n.id]))
    once(ctx, 'request-data', where, res, fg=fg,
         msg='the request does not carry exactly the given events in order')
    f2 = prog.func(CLI + 'Client.query')
    fg2, snd2, w2 = request_rules(ctx, f2, lambda fg, n: True)
    res = []
    for n in snd2:
        x = call_args(fg2.arg(n, 'msg_data', 2), 'query_params_to_sbs')
        ok = const_str(fg2.arg(n, 'msg_type', 1)) == \
            'HatEventer.MsgQueryReq' and x and x[0] == ('p', f2.params[1])
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'request-data', short(f2.qual), res, fg=fg2,
         msg='the request does not carry the given parameters')
    table = table_of(waits)
    if table_of(w2) != table:
        raise AnalysisError('requests wait in different places')
    kinds = {'register': type_lit('HatEventer.MsgRegisterRes'),
             'query': type_lit('HatEventer.MsgQueryRes')}
    lg, answers = response_rules(
        ctx, loop, table, lambda g, lit: [
            n for n in g.kind('assume')
            if lit(n.data['atom'], n.data['pol'])], kinds)
    lw = short(loop.qual)
    res = []
    for n in answers:
        v = n.data['args'][0] if n.data['args'] else ()
        if n.data['callee'] != '.set_result':
            res.append((n.loc, [n.id]))
            continue
        q = call_args(v, 'query_result_from_sbs') if v else None
        tag = lambda s: (lambda a, b: b and a[0] == 'eq' and
                         const(s) in a[1:] and any(
                             recv_data(x) == [0] for x in a[1:]))
        if q is not None:
            ok = recv_data(q[0]) == []
            p = None if ok else [n.id]
            p = p or lg.unheld(n, kinds['query'], set())
        elif v == NONE:
            p = lg.unheld(n, tag('failure'), set()) or \
                lg.unheld(n, kinds['register'], set())
        else:
            els = elements(lg, n, v)
            bad = [an for x, an in els if not (
                call_args(x, 'event_from_sbs') and elem_of(
                    call_args(x, 'event_from_sbs')[0],
                    lambda b: recv_data(b) == [1]))]
            p = [bad[0].id] if bad else (
                lg.unheld(n, tag('events'), set()) or
                lg.unheld(n, kinds['register'], set()))
        res.append((n.loc, p))
    for it in lg.kind('iter'):
        v = it.data['value']
        if elem_of(v, lambda b: recv_data(b) == [1]):
            u = unage(v)
            res.append((it.loc, lg.skipped(
                it, lambda m: m.kind == 'add' and carries(
                    m.data['value'], u), lambda a, b: False) or
                lg.early(it)))
    once(ctx, 'response-data', lw, res, fg=lg,
         msg='the request gets something else than the received result')


@check('C07')
def client_notifications(ctx):
    nothing_bounded(ctx, [EV + 'eventer.client'],
                    'received events are forgotten when there are many')
    loop, _ = loop_of(ctx, CLI + 'connect')
    fg = ctx.flow(loop, std_opaque(ctx.prog), inline_spawn=True)
    where = short(loop.qual)
    cbs = callback_attrs(ctx, CLI + 'connect')
    after = lambda m: is_recv(m) or fg.is_return(m)
    throw = lambda m: m.kind in THROW
    ends = lambda m: after(m) or m.kind == 'taskend'

    def cb_rules(kind, msg, cb, is_data):
        w = f'{where}.{kind}'
        lit = type_lit(msg)
        starts = [n for n in fg.kind('assume')
                  if lit(n.data['atom'], n.data['pol'])]
        ctx.need(f'{kind} notification states', len(starts))
        calls = [n for n in callback_calls(fg)
                 if n.data['callee'] == '.' + cb]
        ctx.need(f'{kind} callback calls', len(calls))
        cid = {n.id for n in calls}
        nocb = lambda a, b: (a[0] == 'none' and b or a[0] == 'truthy' and
                             not b) and cb_attr(a[1], cb)
        once(ctx, 'notification-reaches-callback', w,
             ((n.loc, fg.unfollowed(n, lambda m: m.id in cid, after,
                                    lambda m: throw(m) or
                                    assume_block(nocb)(m)))
              for n in starts), fg=fg,
             msg='a notification is not passed to the callback')
        res = []
        for n in calls:
            par = fg.reach(n.succ, block=is_recv)
            hit = [i for i in par if i in cid]
            res.append((n.loc, fg.path(par, hit[0]) if hit else None))
            res.append((n.loc, fg.unheld(n, lit, set())))
        once(ctx, 'notified-once', w, res, fg=fg,
             msg='a notification is passed on more than once')
        # the callback has finished before the next message is looked at
        res = []
        for n in calls:
            aw = lambda m: m.kind == 'suspend' and same(
                m.data['value'], n.data['res'])
            res.append((n.loc, fg.unfollowed(n, aw, lambda m: ends(m) or (
                m.kind == 'call' and m.data['callee'] == SEND), throw)))
        once(ctx, 'callback-finishes-first', w, res, fg=fg,
             msg='the next message is processed or the notification '
                 'acknowledged while the callback still runs')
        res = []
        for n in calls:
            a = n.data['args']
            ok = len(a) == 2 and a[0] == ('p', 'self')
            p = None if ok else [n.id]
            res.append((n.loc, p or is_data(n, a[1])))
        once(ctx, 'callback-data', w, res, fg=fg,
             msg='the callback is given something else than what was '
                 'received')
        return starts, calls, cid, nocb, lit

    # processing happens in the loop itself, one message at a time
    sp = [n for n in fg.kind('call') if n.data['callee'].endswith(
        ('.spawn', 'create_task', 'ensure_future'))]
    once(ctx, 'one-message-at-a-time', where,
         ((n.loc, [n.id]) for n in sp), fg=fg,
         msg='messages are processed concurrently and may overtake each '
             'other')
    first = [n for n in fg.kind('call') if is_recv(n)]
    known = [type_lit('HatEventer.' + i) for i in (
        'MsgStatusNotify', 'MsgEventsNotify', 'MsgRegisterRes',
        'MsgQueryRes')]
    once(ctx, 'unknown-message-ends-session', where,
         ((n.loc, fg.unfollowed(n, lambda m: False, after, lambda m: throw(m)
                                or m.kind == 'assume' and any(
             k(m.data['atom'], m.data['pol']) for k in known)))
          for n in first), fg=fg,
         msg='a message of unexpected type is silently ignored')

    # status
    status_attr = prop_attr(ctx, CLI + 'Client.status')
    dec = lambda t: bool(call_args(t, 'status_from_sbs')) and recv_data(
        call_args(t, 'status_from_sbs')[0]) == []
    cur = lambda t: dec(t) or self_attr(status_attr)(t)
    st, calls, cid, nocb, lit = cb_rules(
        'status', 'HatEventer.MsgStatusNotify', cbs.get('status_cb', ''),
        lambda n, t: None if cur(t) else [n.id])
    stores = [n for n in fg.kind('store') if n.data['attr'] == status_attr
              and n.data['base'] == ('p', 'self')]
    sid = {n.id for n in stores}
    ctx.need('status stores', len(stores))
    once(ctx, 'status-is-recorded', where,
         [(n.loc, None if dec(n.data['value']) else [n.id])
          for n in stores] +
         [(n.loc, fg.unfollowed(n, lambda m: m.id in sid, after, throw))
          for n in st] +
         [(n.loc, fg.unpreceded(n, lambda m: m.id in sid)) for n in calls],
         fg=fg, msg='the status seen by users is not the one last received')

    # events
    els_of = lambda t: recv_data(t) == []

    def ev_data(n, t):
        els = elements(fg, n, t)
        for v, an in els:
            x = call_args(v, 'event_from_sbs')
            if not x or not elem_of(x[0], els_of):
                return [an.id]
        return None
    st, calls, cid, nocb, lit = cb_rules(
        'events', 'HatEventer.MsgEventsNotify', cbs.get('events_cb', ''),
        ev_data)
    w = f'{where}.events'
    res = []
    for it in fg.kind('iter'):
        v = it.data['value']
        if elem_of(v, els_of):
            u = unage(v)
            res.append((it.loc, fg.skipped(
                it, lambda m: m.kind == 'add' and carries(
                    m.data['value'], u), lambda a, b: False) or
                fg.early(it)))
        if it.data['iter'][0] == 'op' and it.data['iter'][1] in (
                'reversed', 'sorted', 'set'):
            res.append((it.loc, [it.id]))
    for n in fg.kind('add'):
        if n.data['how'] in ('appendleft', 'insert'):
            res.append((n.loc, [n.id]))
    ctx.need('event loops', len(res))
    once(ctx, 'events-complete-and-in-order', w, res, fg=fg,
         msg='events of a notification are left out or reordered')
    acks = sends(fg, 'HatEventer.MsgEventsAck')
    ctx.need('acknowledgements', len(acks))
    aid = {n.id for n in acks}
    lastlit = lambda a, b: a[0] == 'truthy' and b and \
        a[1][0] == 'a' and a[1][2] == 'last' and recv_msg_term(a[1][1])
    once(ctx, 'acknowledged-when-asked', w,
         ((n.loc, fg.unfollowed(n, lambda m: m.id in aid, after,
                                lambda m: throw(m) or
                                assume_block(lastlit)(m)))
          for n in st), fg=fg,
         msg='a notification that asks for acknowledgement gets none')
    res = []
    for n in acks:
        ok = is_conv(kw_of(n, 'conv')) and conn_of_self(
            fg.arg(n, 'conn', 0)) and kw_of(n, 'last') in (None, TRUE)
        res.append((n.loc, None if ok else [n.id]))
        res.append((n.loc, fg.unheld(n, neg(lastlit), set())))
        res.append((n.loc, fg.unheld(n, lit, set())))
        par = fg.reach(n.succ, block=is_recv)
        hit = [i for i in par if i in aid]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
    once(ctx, 'acknowledged-only-when-asked', w, res, fg=fg,
         msg='an acknowledgement that was not asked for, on another '
             'conversation or twice')
    # acknowledged only after the callback has succeeded
    res = []
    for n in acks:
        par = fg.reach([n], back=True, block=lambda m: m.id in cid or
                       assume_block(nocb)(m))
        hit = [i for i in par if is_recv(fg.nodes[i])]
        res.append((n.loc, fg.path(par, hit[0])[::-1] if hit else None))
    for n in calls:
        bad = [m for m in fg.nodes if m.kind == 'throws' and any(
            p == n.id or fg.nodes[p].kind == 'suspend' and same(
                fg.nodes[p].data['value'], n.data['res'])
            for p in m.pred)]
        par = fg.reach(bad)
        hit = [i for i in par if i in aid]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
    once(ctx, 'acknowledged-after-processing', w, res, fg=fg,
         msg='a notification is acknowledged before or without having been '
             'processed')


def prop_attr(ctx, prop):
    """attribute a property returns"""
    f = ctx.prog.func(prop)
    fg = ctx.flow(f, std_opaque(ctx.prog))
    r = {n.data['value'][2] for n in fg.kind('return')
         if fg.is_return(n) and n.data['value'] is not None and
         self_attr_term(n.data['value'])}
    if len(r) != 1:
        raise AnalysisError(f'{prop} is not a plain attribute')
    return r.pop()


@check('C08')
def client_handshake(ctx):
    f = ctx.prog.func(CLI + 'connect')
    fg = ctx.flow(f, std_opaque(ctx.prog))
    where = short(f.qual)
    loop, _ = loop_of(ctx, CLI + 'connect')
    throw = lambda m: m.kind in THROW
    snd = [n for n in fg.calls(SEND)]
    ctx.need('messages sent while connecting', len(snd))
    rec = [n for n in fg.nodes if is_recv(n)]
    ctx.need('messages received while connecting', len(rec))
    made = fg.calls('hat.drivers.chatter.connect')
    ctx.need('connections made', len(made))
    conn = {unage(n.data['res']) for n in made}
    sid = {n.id for n in snd}
    res = followed_once(fg, made, sid, fg.is_return, throw)
    for n in snd:
        ok = const_str(fg.arg(n, 'msg_type', 1)) == 'HatEventer.MsgInitReq' \
            and bool_at(n, kw_of(n, 'last')) is False and \
            unage(fg.arg(n, 'conn', 0)) in conn
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'one-init-request', where, res, fg=fg,
         msg='not exactly one init request that asks for a response')
    # what is asked for
    par = {i: ('p', i) for i in ('client_name', 'client_token',
                                 'subscriptions', 'server_id', 'persisted')}
    fields = {'clientName': ('client_name', False),
              'clientToken': ('client_token', True),
              'serverId': ('server_id', True),
              'persisted': ('persisted', False)}
    for k, (a, opt) in fields.items():
        res = []
        for n in snd:
            ents = dict_entries(fg, fg.arg(n, 'msg_data', 2)).get(k, [])
            if not ents:
                res.append((n.loc, [n.id]))
            for v, m in ents:
                if not opt:
                    res.append((m.loc, None if v == par[a] else [m.id]))
                    continue
                isnone = lambda x, b: x == ('none', par[a]) and b
                if v == ('tup', (const('value'), par[a])):
                    p = fg.unheld(m, neg(isnone), set())
                elif v == ('tup', (const('none'), NONE)):
                    p = fg.unheld(m, isnone, set())
                else:
                    p = [m.id]
                res.append((m.loc, p))
        once(ctx, 'init-request-data', f'{where}.{a}', res, fg=fg,
             msg=f'the server is not told the given {a}')
    res = []
    for n in snd:
        ents = dict_entries(fg, fg.arg(n, 'msg_data', 2)).get(
            'subscriptions', [])
        if not ents:
            res.append((n.loc, [n.id]))
        for v, m in ents:
            for x, an in elements(fg, m, v):
                b = seq_base(x)
                if b[0] == 'o':
                    ys = {unage(y) for y, _ in elements(fg, an, b)}
                    y = ys.pop() if len(ys) == 1 else ()
                    b = y[1] if y and y[0] == 'el' else ()
                ok = bool(b) and elem_of(b, lambda t: t == par[
                    'subscriptions'])
                res.append((an.loc, None if ok else [an.id]))
    res += [i for i in ordered_complete(
        fg, lambda b: b == par['subscriptions'])]
    once(ctx, 'init-request-data', f'{where}.subscriptions', res, fg=fg,
         msg='the server is not told the given subscriptions')

    # nothing but a proper success response makes a client
    rets = [n for n in fg.kind('return') if fg.is_return(n)]
    ctx.need('successful ends', len(rets))
    rtype = type_lit('HatEventer.MsgInitRes')
    conv = lambda a, b: b and a[0] == 'eq' and any(
        is_conv(x) for x in a[1:]) and any(
        same(x, s.data['res']) for x in a[1:] for s in snd)
    tag = lambda s: (lambda a, b: b and a[0] == 'eq' and const(s) in a[1:]
                     and any(recv_data(x) == [0] for x in a[1:]))
    for rule, lit, what in (
            ('response-type-checked', rtype, 'type'),
            ('response-conversation-checked', conv, 'conversation'),
            ('response-is-success', tag('success'), 'success')):
        once(ctx, rule, where,
             ((n.loc, fg.unheld(n, lit, set())) for n in rets), fg=fg,
             msg=f'a client is returned without checking the {what} of the '
                 'response')
    sp = [n for n in fg.kind('call') if n.data['callee'].endswith('.spawn')
          and callee_of(ctx.prog, (n.data['args'] or ((),))[0]) is loop]
    spid = {n.id for n in sp}
    ctx.need('receive loops started', len(sp))
    once(ctx, 'receive-loop-started-once', where,
         [(n.loc, fg.unpreceded(n, lambda m: m.id in spid)) for n in rets] +
         followed_once(fg, [], spid, fg.is_return, throw) +
         [(n.loc, fg.unheld(n, tag('success'), set())) for n in sp], fg=fg,
         msg='the receive loop is not started exactly once after the '
             'handshake')
    attr = prop_attr(ctx, CLI + 'Client.status')
    st = {n.id for n in fg.kind('store') if n.data['attr'] == attr and
          status_value(n.data['value'])}
    once(ctx, 'initial-status-recorded', where,
         [(n.loc, fg.unpreceded(n, lambda m: m.id in st)) for n in rets] +
         [(fg.nodes[i].loc, p) for i in st for p in [after_spawn(
             fg, spid, i)]], fg=fg,
         msg='the client does not know the status the server told it')
    err = [n for n in fg.kind('raise') if fg.unheld(
        n, tag('error'), set()) is None]
    ctx.need('refusals raised', len(err))
    exc = [n for n in fg.nodes if n.kind == 'assume' and tag('error')(
        n.data['atom'], n.data['pol'])]
    once(ctx, 'refusal-is-raised', where,
         [(n.loc, None if 'EventerInitError' in show(n.data['value'])
           else [n.id]) for n in err] +
         [(n.loc, fg.unfollowed(n, lambda m: m in err, fg.is_return))
          for n in exc], fg=fg,
         msg='a refusal by the server is not raised as EventerInitError')

    # any failure closes the connection
    clo = [n for n in fg.calls('.async_close')]
    cid = {n.id for n in clo}
    ctx.need('closing calls', len(clo))
    res = []
    for n in made:
        own = [m for m in fg.nodes if m.kind == 'suspend' and same(
            m.data['value'], n.data['res'])]
        for m in own:
            ok = [j for j in m.succ if fg.nodes[j].kind != 'throws']
            par2 = fg.reach(ok, block=lambda x: x.id in cid)
            hit = [i for i in par2 if fg.nodes[i].kind == 'uncaught']
            res.append((m.loc, fg.path(par2, hit[0]) if hit else None))
    ctx.need('points where the connection exists', len(res))
    once(ctx, 'failure-closes-connection', where, res, fg=fg,
         msg='connecting fails but the connection stays open')
    aw = lambda m: m.kind == 'suspend'
    once(ctx, 'failure-closes-connection-fully', where,
         ((n.loc, fg.unfollowed(n, aw, lambda m: m.kind == 'uncaught'))
          for n in clo), fg=fg,
         msg='the failed connection is not awaited to be closed')


def status_value(v):
    x = call_args(v, 'Status')
    if v[0] == 'enum' or x:
        v = x[0] if x else v
    if v[0] == 'op' and len(v) > 2 and 'Status' in str(v[1:2]):
        v = v[-1]
    x = call_args(v, 'status_from_sbs')
    return bool(x) and recv_data(x[0]) == [1]


def after_spawn(fg, spid, i):
    """path from the start of the receive loop to the recording"""
    for s in spid:
        par = fg.reach(fg.nodes[s].succ)
        if i in par:
            return fg.path(par, i)
    return None


@check('C09')
def adminer(ctx):
    prog = ctx.prog
    loop, _ = loop_of(ctx, ADM + 'client.connect')
    reqs = {'get_log_conf': ('HatEventAdminer.MsgGetLogConfReq',
                             'HatEventAdminer.MsgGetLogConfRes'),
            'set_log_conf': ('HatEventAdminer.MsgSetLogConfReq',
                             'HatEventAdminer.MsgSetLogConfRes')}
    table = None
    for name, (req, resp) in reqs.items():
        f = prog.func(ADM + 'client.Client.' + name)
        fg, snd, waits = request_rules(ctx, f, lambda fg, n: True)
        where = short(f.qual)
        table = table_of(waits)
        res = []
        for n in snd:
            d = fg.arg(n, 'msg_data', 2)
            ok = const_str(fg.arg(n, 'msg_type', 1)) == req
            if name == 'set_log_conf':
                ok = ok and jconv(d, 'encode') == ('p', f.params[1])
            res.append((n.loc, None if ok else [n.id]))
        for n, fut in waits:
            ok = any(x == const(resp) for x in subterms(n.data['value']))
            res.append((n.loc, None if ok else [n.id]))
        if name == 'get_log_conf':
            for n in fg.kind('return'):
                if fg.is_return(n):
                    v = jconv(n.data['value'], 'decode')
                    ok = v is not None and any(same(v, w[1]) for w in waits)
                    res.append((n.loc, None if ok else [n.id]))
        once(ctx, 'request-data', where, res, fg=fg,
             msg='request or result do not carry the configuration')
    lg, answers = response_rules(
        ctx, loop, table,
        lambda g, lit: [n for n in g.nodes if is_recv(n)],
        {'adminer': None})
    lw = short(loop.qual)
    err = lambda a, b: b and a[0] == 'eq' and const('error') in a[1:] and \
        any(recv_data(x) == [0] for x in a[1:])
    suc = lambda a, b: b and a[0] == 'eq' and const('success') in a[1:] and \
        any(recv_data(x) == [0] for x in a[1:])
    good = any_lit(neg(err), suc)
    fail = any_lit(err, neg(suc))
    tab = self_attr(table)
    typed = lambda a, b: b and a[0] == 'eq' and any(
        x[0] == 'i' and x[2] == const(1) and recv_result(x[1])
        for x in a[1:]) and any(from_table(lg, strip(x), tab)
                                for x in a[1:])
    res, res2 = [], []
    for n in answers:
        v = n.data['args'][0] if n.data['args'] else ()
        if n.data['callee'] == '.set_result':
            ok = recv_data(v) == [1]
            res.append((n.loc, (None if ok else [n.id]) or
                        lg.unheld(n, good, set())))
        else:
            ok = 'AdminerError' in show(v)
            res.append((n.loc, (None if ok else [n.id]) or
                        lg.unheld(n, fail, set())))
        res2.append((n.loc, lg.unheld(n, typed, set())))
    once(ctx, 'response-data', lw, res, fg=lg,
         msg='the request ends with something else than the received result '
             'or error')
    aid = {n.id for n in answers}
    nof = no_future(lg, tab)
    once(ctx, 'error-response-ends-request-only', lw,
         ((n.loc, lg.unfollowed(
             n, lambda m: m.id in aid,
             lambda m: is_recv(m) or lg.is_return(m) or m.kind == 'raise',
             lambda m: m.kind == 'throws' or assume_block(nof)(m) or
             assume_block(neg(typed))(m)))
          for n in lg.kind('assume')
          if fail(n.data['atom'], n.data['pol'])), fg=lg,
         msg='an error response does not end the request it belongs to')
    once(ctx, 'response-type-checked', lw, res2, fg=lg,
         msg='a request accepts the response of another kind of request')
    _adminer_server(ctx, reqs)


def jconv(t, what):
    """argument of json encode/decode"""
    if t is None:
        return None
    x = call_args(t, what)
    if x:
        return x[0]
    if t[0] == 'op' and str(t[1]).endswith('.' + what):
        return t[2]
    return None


def _adminer_server(ctx, reqs):
    prog = ctx.prog
    fg0 = ctx.flow(ADM + 'server.listen', std_opaque(prog))
    fs = passed_callables(ctx, fg0, 'hat.drivers.chatter.listen')
    if len(fs) != 1:
        raise AnalysisError('adminer connection handler not found')
    f = fs[0]
    fg = ctx.flow(f, std_opaque(prog), inline_spawn=True)
    where = short(f.qual)
    conn = ('p', f.params[1])
    cbs = callback_attrs(ctx, ADM + 'server.listen')
    throw = lambda m: m.kind in THROW
    after = lambda m: is_recv(m) or fg.is_return(m)
    known = [type_lit(r[0]) for r in reqs.values()]
    once(ctx, 'unknown-message-ends-session', where,
         ((n.loc, fg.unfollowed(
             n, lambda m: False, after,
             lambda m: throw(m) or m.kind == 'assume' and any(
                 k(m.data['atom'], m.data['pol']) for k in known)))
          for n in fg.nodes if is_recv(n)), fg=fg,
         msg='a message of unexpected type is silently ignored')
    for name, (req, resp) in reqs.items():
        w = f'{where}.{name}'
        lit = type_lit(req)
        starts = [n for n in fg.kind('assume')
                  if lit(n.data['atom'], n.data['pol'])]
        ctx.need(f'{name} request states', len(starts))
        snd = [n for s in SENDS for n in sends(fg, resp, s)]
        ctx.need(f'{name} responses', len(snd))
        sid = {n.id for n in snd}
        cb = cbs.get(name + '_cb', '')
        calls = [n for n in callback_calls(fg)
                 if n.data['callee'] == '.' + cb]
        cid = {n.id for n in calls}
        ctx.need(f'{name} callback calls', len(calls))
        nocb = lambda a, b: (a[0] == 'none' and b or a[0] == 'truthy' and
                             not b) and cb_attr(a[1], cb)
        # answered once, whatever the callback does; only the send itself or
        # a cancellation may prevent it
        canc = lambda m: m.kind in ('throws', 'raise') and \
            'CancelledError' in show(m.data['value']) or \
            m.kind == 'uncaught'
        once(ctx, 'request-is-answered', w,
             ((n.loc, fg.unfollowed(n, lambda m: m.id in sid, after, canc))
              for n in starts), fg=fg,
             msg='a request stays without response')
        res = []
        for n in snd:
            par = fg.reach(n.succ, block=is_recv)
            hit = [i for i in par if i in sid]
            res.append((n.loc, fg.path(par, hit[0]) if hit else None))
            res.append((n.loc, fg.unheld(n, lit, set())))
        for n in calls:
            par = fg.reach(n.succ, block=is_recv)
            hit = [i for i in par if i in cid]
            res.append((n.loc, fg.path(par, hit[0]) if hit else None))
            res.append((n.loc, fg.unheld(n, lit, set())))
        once(ctx, 'answered-once', w, res, fg=fg,
             msg='a request is processed or answered more than once')
        once(ctx, 'answer-conversation', w,
             ((n.loc, None if is_conv(kw_of(n, 'conv')) and
               fg.arg(n, 'conn', 0) == conn else [n.id]) for n in snd),
             fg=fg, msg='the response is sent on another conversation')
        once(ctx, 'request-reaches-callback', w,
             ((n.loc, fg.unfollowed(
                 n, lambda m: m.id in cid, after,
                 lambda m: throw(m) or assume_block(nocb)(m)))
              for n in starts), fg=fg,
             msg='a request is not passed to its callback')
        res = []
        for n in calls:
            a = n.data['args']
            ok = len(a) == (name == 'set_log_conf') and all(
                jconv(x, 'decode') is not None and
                recv_data(jconv(x, 'decode')) == [] for x in a)
            res.append((n.loc, None if ok else [n.id]))
        bad = [m for n in calls for m in thrown_at(fg, n)]
        for n in snd:
            d = fg.arg(n, 'msg_data', 2)
            tag = const_str(d[1][0]) if d and d[0] == 'tup' and \
                len(d[1]) == 2 else None
            if tag == 'success':
                if name == 'get_log_conf':
                    x = jconv(d[1][1], 'encode')
                    ok = x is not None and any(
                        same(x, c.data['res']) for c in calls)
                else:
                    ok = d[1][1] == NONE
                p = None if ok else [n.id]
                # the callback has succeeded
                p = p or since_recv(fg, n, cid)
                if p is None:
                    par = fg.reach(bad, block=is_recv)
                    if n.id in par:
                        p = fg.path(par, n.id)
            elif tag == 'error':
                par = fg.reach([n], back=True, block=lambda m: m.kind in (
                    'throws', 'raise') or assume_block(nocb)(m))
                hit = [i for i in par if is_recv(fg.nodes[i])]
                p = fg.path(par, hit[0])[::-1] if hit else None
            else:
                p = [n.id]
            res.append((n.loc, p))
        once(ctx, 'answer-data', w, res, fg=fg,
             msg='the response does not carry the outcome of the callback')
    close = lambda m: m.kind == 'call' and m.data['callee'] in (
        '.close', '.async_close') and m.data['base'] == conn
    p = fg.unfollowed(fg.entry, close, fg.is_end)
    ctx.ob('connection-closed', where, p is None, f.loc,
           'the handler ends without closing the connection',
           fg.show_path(p) if p else None)
    # the configuration kept by the server
    srv = EV + 'server.adminer_server.'
    g0 = ctx.flow(srv + 'create_adminer_server', std_opaque(prog),
                  no_models=True) if False else ctx.flow(
        srv + 'create_adminer_server', std_opaque(prog))
    ls = [n for n in g0.calls() if n.data['callee'] in (
        'hat.event.adminer.listen', ADM + 'server.listen') or
        n.data['fn'] is not None and n.data['fn'].qual ==
        ADM + 'server.listen']
    en = g0.enters(ADM + 'server.listen')
    ctx.need('adminer listeners', len(ls) + len(en))
    n = (ls + en)[0]
    get = callee_of(prog, g0.arg(n, 'get_log_conf_cb') or ())
    put = callee_of(prog, g0.arg(n, 'set_log_conf_cb') or ())
    if get is None or put is None:
        ctx.ob('configuration-callbacks', short(n.data.get('fn') and
               srv or srv), False, n.loc,
               'no configuration callback is given')
        return
    ga = ctx.flow(get, std_opaque(prog))
    attrs = {x.data['value'][2] if x.data['value'] and self_attr_term(
        x.data['value']) else None for x in ga.kind('return')
        if ga.is_return(x)}
    ok = len(attrs) == 1 and None not in attrs
    ctx.ob('current-configuration-reported', short(get.qual), ok, get.loc,
           'what is reported is not the configuration kept')
    if not ok:
        return
    attr = attrs.pop()
    gp = ctx.flow(put, std_opaque(prog))
    par = ('p', put.params[1])
    use = [x for x in gp.calls() if x.data['callee'].endswith('dictConfig')]
    ctx.need('logging configurations', len(use))
    uid = {x.id for x in use}
    st = [x for x in gp.kind('store') if x.data['attr'] == attr]
    stid = {x.id for x in st}
    throw = lambda m: m.kind in THROW
    res = [(x.loc, None if x.data['args'] == (par,) else [x.id])
           for x in use]
    res += [(x.loc, None if x.data['value'] == par else [x.id]) for x in st]
    for ids in (uid, stid):
        res.append((put.loc, gp.unfollowed(
            gp.entry, lambda m: m.id in ids, gp.is_return, throw)))
    once(ctx, 'configuration-applied-and-kept', short(put.qual), res, fg=gp,
         msg='a new configuration is not applied and kept')
    res = []
    for x in use:
        for m in thrown_at(gp, x):
            q = gp.reach([m])
            hit = [i for i in q if i in stid or gp.is_return(gp.nodes[i])]
            res.append((x.loc, gp.path(q, hit[0]) if hit else None))
    for x in st:
        res.append((x.loc, gp.unpreceded(x, lambda m: m.id in uid)))
    once(ctx, 'rejected-configuration-not-kept', short(put.qual), res, fg=gp,
         msg='a configuration that was rejected is kept or not reported')
    init = [x for x in g0.kind('store') if x.data['attr'] == attr]
    once(ctx, 'initial-configuration-kept', srv[:-1] +
         'create_adminer_server',
         [(x.loc, None if x.data['value'] == ('p', 'log_conf') else [x.id])
          for x in init] or [(n.loc, [n.id])], fg=g0,
         msg='the initial configuration is not kept')


def since_recv(fg, n, ids):
    """path from the last receive to n that avoids ids"""
    par = fg.reach([n], back=True, block=lambda m: m.id in ids)
    hit = [i for i in par if is_recv(fg.nodes[i])]
    return fg.path(par, hit[0])[::-1] if hit else None
