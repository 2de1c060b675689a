"""Following remote servers: selection, activity, synchronisation."""

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .clients import self_attr_term
from .engine import before, before_since, const_item
from .eventer_server2 import THROW
from .runners import (outside, cancelled, failure, at_calls, awaited, steps,
                      exactly_one, writes, kwargs_callables, synced_data,
                      both)

ECR = EV + 'server.eventer_client_runner.'
ECL = EV + 'server.eventer_client.'
CREATE = ECL + 'create_eventer_client'


def json_path(fg, t):
    """(document, path) when t is looked up in a json document"""
    if t[0] == 'op' and t[1] == 'hat.json.get' and len(t) >= 4:
        k = t[3]
        if k[0] == 'c':
            return t[2], (k[2],)
        if k[0] == 'tup':
            return t[2], tuple(const_str(x) for x in k[1])
        if k[0] == 'o':
            return t[2], tuple(const_str(m.data['value'])
                               for m in uniq_adds(fg, k))
    if t[0] == 'i' and t[2][0] == 'c' and isinstance(t[2][2], str):
        p = json_path(fg, t[1])
        return (p[0], p[1] + (t[2][2],)) if p else (t[1], (t[2][2],))
    if t[0] == 'm' and t[2] == 'get' and t[3] and t[3][0][0] == 'c':
        p = json_path(fg, t[1])
        k = t[3][0][2]
        return (p[0], p[1] + (k,)) if p else (t[1], (k,))
    return None


def uniq_adds(fg, obj):
    seen, r = set(), []
    for m in adds_to(fg, obj):
        k = id(m.ast)
        v = unage(m.data['value'])
        if (k, v) not in seen:
            seen.add((k, v))
            r.append(m)
    return r


def field_of(fg, doc, *path):
    def f(t):
        p = json_path(fg, t)
        return p is not None and p[1] == path and doc(p[0])
    return f


def isinst_lit(x, ty):
    return lambda a, b: b and a[0] == 'isinst' and x(a[1]) and a[2] == ty


SERVER_FIELDS = ((('server_id',), 'int'),
                 (('eventer_server', 'host'), 'str'),
                 (('eventer_server', 'port'), 'int'))


def server_term(fg, v, doc, ty):
    """v describes the server a document tells: its id and address"""
    if not (v[0] == 'rec' and v[1].endswith('.' + ty)):
        return False
    d = dict(v[2])
    if not field_of(fg, doc, 'server_id')(d['server_id']):
        return False
    a = call_args(d['addr'], 'Address')
    if a is None and d['addr'][0] == 'rec':
        a = [x for _, x in d['addr'][2]]
    if a is None:
        return False
    kw = {x[1]: x[2] for x in d['addr'][2] if isinstance(x, tuple) and x and
          x[0] == 'kwarg'} if d['addr'][0] == 'r' else {}
    a = list(a) + [kw[k] for k in ('host', 'port') if k in kw]
    return len(a) == 2 and \
        field_of(fg, doc, 'eventer_server', 'host')(a[0]) and \
        field_of(fg, doc, 'eventer_server', 'port')(a[1])


@check('C16')
def remote_servers(ctx):
    prog = ctx.prog
    opq = outside(prog, ECR)
    # ---------------------------------------------------------- selection
    g = ctx.flow(ECR + 'EventerClientRunner.set_monitor_state', opq)
    f = g.func
    where = short(f.qual)
    state = ('p', f.params[1])
    comp = lambda t: t[0] == 'el' and unage(seq_base(t[1])) == unage(
        ('a', state, 'components', None))
    conf = lambda *p: (lambda t: (json_path(g, t) or (0, 0))[1] == p and
                       self_attr_term((json_path(g, t))[0]))
    own_tok = conf('server_token')
    group = conf('monitor_component', 'group')
    sets = [n for n in g.kind('store') if n.data['value'][0] == 'o' or
            n.data['value'][0] == 'op']
    valid = {n.data['attr'] for n in sets}
    ctx.need('known servers kept', len(valid))
    if len(valid) > 1:
        raise AnalysisError('several collections of servers')
    valid = valid.pop()
    its = [it for it in g.kind('iter') if comp(it.data['value'])]
    ctx.need('walks over components', len(its))
    roots = {unage(seq_base(n.data['value'])) for n in sets}
    res, res2 = [], []
    adds = [m for m in g.kind('add') if server_term(
        g, m.data['value'], lambda t: t[0] == 'a' and t[2] == 'data' and
        comp(t[1]), 'EventerServerData')]
    into = [m for m in adds if unage(m.data['obj']) in roots]
    ctx.need('servers found', len(into))
    for m in g.kind('add'):
        if unage(m.data['obj']) in roots and m not in adds:
            res2.append((m.loc, [m.id]))
    def terms_of(c):
        doc = lambda t: unage(t) == unage(('a', c, 'data', None))
        tok = field_of(g, doc, 'server_token')
        conds = [neg(eq_lit(is_(c), lambda t: t[0] == 'a' and
                           t[1] == state and t[2] == 'info')),
                 eq_lit(lambda t: unage(t) == unage(('a', c, 'group',
                                                     None)), group)]
        for path, ty in SERVER_FIELDS:
            conds.append(isinst_lit(field_of(g, doc, *path), ty))
        conds.append(any_lit(none_lit(tok), isinst_lit(tok, 'str')))
        conds.append(any_lit(none_lit(own_tok), eq_lit(tok, own_tok)))
        return doc, tok, conds
    walked = {}
    for it in its:
        o = unage(seq_base(it.data['iter']))
        if o[0] == 'o':
            walked.setdefault(o, set()).add(it.id)
    for m in into:
        for c in {x for x in subterms(m.data['value']) if x[0] == 'el' and
                  comp(x)}:
            for i in range(len(terms_of(c)[2])):
                res2.append((m.loc, guarded(
                    g, m, c, lambda v, i=i: terms_of(v)[2][i])))
    for it in its:
        c = it.data['value']
        doc, tok, conds = terms_of(c)
        mid = {m.id for m in adds if server_term(
            g, m.data['value'], doc, 'EventerServerData')}
        on = [m for m in g.kind('add') if unage(m.data['value']) == unage(c)
              and unage(m.data['obj']) in walked and
              unage(m.data['obj']) != unage(seq_base(it.data['iter']))]
        for m in on:
            w = walked[unage(m.data['obj'])]
            keys = {(g.nodes[i].ast, g.nodes[i].frame) for i in w}
            w = w | {x.id for x in g.kind('iterend') if
                     (x.ast, x.frame) in keys}
            e = empty_lit(m.data['obj'])
            res.append((m.loc, g.unfollowed(
                m, lambda x: x.id in w, g.is_return, lambda x: x.kind in
                THROW or x.kind == 'assume' and e(x.data['atom'],
                                                  x.data['pol']))))
        mid |= {m.id for m in on}
        unequal = lambda a, b: a[0] == 'eq' and not b and (
            tok(a[1]) and own_tok(a[2]) or tok(a[2]) and own_tok(a[1]))
        ex = any_lit(unequal, *[neg(x) for x in conds[:5]])
        isstr, isnone = isinst_lit(tok, 'str'), none_lit(tok)

        def weird(facts):
            return any(isstr(a, not b) for a, b in facts) and \
                any(isnone(a, not b) for a, b in facts)
        ex.facts = weird
        res.append((it.loc, g.skipped(it, lambda m: m.id in mid, ex) or
                    g.early(it)))
    once(ctx, 'only-valid-servers', where, res2, fg=g,
         msg='a component that is not another usable server of the own group '
             'is followed')
    once(ctx, 'every-valid-server', where, res, fg=g,
         msg='a usable server of the own group is not followed')
    vst = {n.id for n in sets}
    q = g.unfollowed(g.entry, lambda m: m.id in vst, g.is_return,
                     lambda m: m.kind in THROW)
    ctx.ob('new-state-is-taken', where, q is None, f.loc,
           'a state of the monitor is not taken',
           g.show_path(q) if q else None)
    # ---------------------------------------------------------- one loop each
    sp = [n for n in g.kind('call') if n.data['callee'] == '.spawn']
    ctx.need('loops started', len(sp))
    loops = {callee_of(prog, n.data['args'][0]) for n in sp}
    loops.discard(None)
    if len(loops) != 1:
        raise AnalysisError('the loop of a server is not one function')
    loop = loops.pop()
    isv = lambda t: t[0] == 'el' and (
        unage(seq_base(t[1])) in roots or
        t[1][0] == 'a' and t[1][2] == valid or
        seq_base(t[1])[0] == 'a' and seq_base(t[1])[2] == valid)
    run = set()
    for m in g.kind('add'):
        o = m.data['obj']
        if self_attr_term(o) and o[2] != valid:
            run.add(o[2])
    ctx.need('servers with a loop', len(run))
    if len(run) > 1:
        raise AnalysisError('several collections of served servers')
    run = run.pop()
    inrun = lambda a, b: a[0] == 'in' and self_attr_term(a[2]) and \
        a[2][2] == run or a[0] == 'in' and any(
            x and x[0] == 'a' and x[2] == run for x in subterms(a[2])
            if isinstance(x, tuple))
    isrun = lambda t: self_attr_term(t) and t[2] == run

    def minus_run(t):
        t = seq_base(t)
        return t[0] == 'op' and t[1] == '-' and isrun(t[3]) or \
            t[0] == 'm' and t[2] == 'difference' and isrun(t[3][0])
    res, res2 = [], []
    sid = {n.id for n in sp}
    for it in g.kind('iter'):
        v = it.data['value']
        par = g.reach([it], block=g.loop_next(it))
        if not any(i in sid for i in par):
            continue
        u = unage(v)
        its_sp = lambda m: m.id in sid and len(m.data['args']) > 1 and \
            unage(m.data['args'][1]) == u
        its_add = lambda m: m.kind == 'add' and self_attr_term(
            m.data['obj']) and m.data['obj'][2] == run and \
            unage(m.data['value']) == u
        ex = lambda a, b: inrun(a, b) and b
        for fn in (its_sp, its_add):
            res.append((it.loc, g.skipped(it, fn, ex) or g.early(it)))
        for i in par:
            m = g.nodes[i]
            if m.id in sid:
                if not minus_run(v[1]):
                    res2.append((m.loc, g.unheld(
                        m, lambda a, b: inrun(a, b) and not b,
                        {x for x in labels_of(v) if x[0] == 'L'})))
                if not its_sp(m):
                    res2.append((m.loc, [m.id]))
    ctx.need('walks that start loops', len(res))
    once(ctx, 'every-server-has-a-loop', where, res, fg=g,
         msg='a server is not followed, or may be followed twice later')
    once(ctx, 'one-loop-per-server', where, res2, fg=g,
         msg='a server is followed twice')
    # ---------------------------------------------------------- the loop
    lg = ctx.flow(loop, opq)
    where = short(loop.qual)
    sd = ('p', loop.params[1])
    creates = lg.calls(CREATE)
    ctx.need('clients created', len(creates))
    cset = {n.id for n in creates}
    isvalid = lambda a, b: b and a[0] == 'in' and a[1] == sd and any(
        x and x[0] == 'a' and x[2] == valid for x in subterms(a[2])
        if isinstance(x, tuple))
    res, res2 = [], []
    status_fn, status_bound, status_sd = None, [], sd
    for n in creates:
        par = lg.reach([n], back=True, block=lambda m: m.kind == 'assume' and
                       isvalid(m.data['atom'], m.data['pol']))
        hit = [i for i in par if i == 0 or i in cset and i != n.id or
               lg.nodes[i].kind == 'suspend' and i != n.id and not any(
                   j == n.id for j in lg.nodes[i].pred)]
        res.append((n.loc, lg.path(par, hit[0])[::-1] if hit else None))
        a = lambda k: lg.arg(n, k)
        cb = a('status_cb')
        sf = callee_of(prog, cb) if cb else None
        status_fn = sf or status_fn
        if sf:
            status_bound = bound_args(prog, cb)
        sy = a('synced_cb')
        lconf = lambda *p: (lambda t: (json_path(lg, t) or (0, 0))[1] == p)
        ok = a('addr') == ('a', sd, 'addr', None) and \
            a('remote_server_id') == ('a', sd, 'server_id', None) and \
            lconf('server_id')(a('local_server_id')) and \
            lconf('server_token')(a('client_token')) and \
            self_attr_term(a('backend')) and sf is not None and \
            (bound_args(prog, cb)[:1] == [sd] or
             captured(lg, sf, loop, sd) is not None) and \
            sy is not None and (
                ('a', sd, 'server_id', None) in subterms(sy) or
                passes_id(ctx, lg, sy, loop, sd, opq))
        if sf and not status_bound:
            status_sd = captured(lg, sf, loop, sd) or sd
        res2.append((n.loc, None if ok else [n.id]))
    once(ctx, 'only-known-servers-are-connected', where, res, fg=lg,
         msg='the loop connects to a server the last state does not tell')
    once(ctx, 'client-made-for-server', where, res2, fg=lg,
         msg='the client is made with data of something else')
    # clients are closed before the next is made and at the end
    throw = lambda m: m.kind in THROW
    closes = steps(lg, lambda n: n.data['callee'] == '.async_close')
    res, res2 = [], []
    for n in creates:
        for m in lg.kind('suspend'):
            if n.id not in m.pred:
                continue
            nxt = [lg.nodes[j] for j in m.succ
                   if lg.nodes[j].kind != 'throws']
            for x in nxt:
                res.append((n.loc, lg.unfollowed(
                    x, lambda y: y.id in closes,
                    lambda y: lg.is_end(y) or y.id in cset,
                    at_calls(lg, {i for i in range(len(lg.nodes)) if lg.nodes[
                        i].kind == 'call' and reports(lg.nodes[i])}))))
    ctx.need('connected clients', len(res))
    once(ctx, 'client-is-closed', where, res, fg=lg,
         msg='the loop goes on or ends without closing its client')
    once(ctx, 'stays-while-connected', where,
         [(n.loc, None) for n in lg.nodes if n.id in cset] + [
             (n.loc, [n.id]) for n in timeboxed(lg, lambda t: call_args(
                 t, 'wait_closing') is not None or call_args(
                     t, 'wait_closed') is not None)], fg=lg,
         msg='the connection to a server is given up after some time')
    once(ctx, 'close-is-not-cut', where, (
        (m.loc, [m.id]) for m in lg.nodes if cancelled(m) and any(
            p in closes or any(i in closes for i in lg.nodes[p].pred)
            for p in m.pred)), fg=lg,
        msg='cancellation leaves a client half closed')
    # activity
    if status_fn is None:
        raise AnalysisError('no status callback')
    act = activity(ctx, opq, status_fn, status_sd, bool(status_bound))
    clears = {m.id for m in lg.nodes if m.kind == 'call' and m.data[
        'callee'] in ('.discard', '.remove') and self_attr_term(
            m.data['base']) and m.data['base'][2] == act and m.data['args']
        and m.data['args'][0] == sd}
    puts = {m.id for m in lg.kind('add') if self_attr_term(m.data['obj']) and
            m.data['obj'][2] == act}
    res = []
    for n in lg.nodes:
        if n.id in closes:
            res.append((n.loc, lg.unfollowed(
                n, lambda m: m.id in clears, lambda m: lg.is_end(m) or
                m.id in cset, failure)))
    q = lg.unfollowed(lg.entry, lambda m: m.id in clears, lg.is_end)
    res.append((loop.loc, q))
    once(ctx, 'gone-server-is-not-active', where, res, fg=lg,
         msg='a server that is not connected still counts as active')
    # the initial status of a client
    res = []
    for n in creates:
        for m in lg.kind('assume'):
            pass
    removes = {m.id for m in lg.nodes if m.kind == 'call' and m.data[
        'callee'] in ('.remove', '.discard') and self_attr_term(
            m.data['base']) and m.data['base'][2] == run}
    q = lg.unfollowed(lg.entry, lambda m: m.id in removes, lg.is_end)
    ctx.ob('end-of-loop-is-recorded', where, q is None, loop.loc,
           'the loop ends and its server counts as served: it is never '
           'followed again', lg.show_path(q) if q else None)
    invalid = lambda m: m.kind == 'assume' and isvalid(
        m.data['atom'], not m.data['pol'])
    res = []
    for m in lg.nodes:
        if invalid(m):
            res.append((m.loc, lg.unfollowed(
                m, lambda x: x.id in removes,
                lambda x: x.kind == 'suspend' or lg.is_end(x), throw)))
    once(ctx, 'no-gap-at-end-of-loop', where, res, fg=lg,
         msg='a server that comes back while its loop ends is lost')
    # ends only for a reason
    res = []
    for m in lg.nodes:
        if lg.is_return(m):
            ok = lambda x: invalid(x) or x.kind == 'except' or \
                x.kind == 'throws'
            q = lg.path(lg.reach([m], block=ok, back=True), 0) \
                if 0 in lg.reach([m], block=ok, back=True) else None
            res.append((m.loc, q))
    once(ctx, 'loop-goes-on', where, res, fg=lg,
         msg='the loop ends though the server is still known')
    # failures of connecting are retried, after a delay
    res = []
    for n in creates:
        for m in lg.kind('throws'):
            if cancelled(m):
                continue
            if not any(p == n.id or n.id in lg.nodes[p].pred and
                       lg.nodes[p].kind == 'suspend' for p in m.pred):
                continue
            par = lg.reach([m], block=lambda x: x.kind == 'suspend')
            hit = [i for i in par if i in cset]
            res.append((m.loc, lg.path(par, hit[0]) if hit else None))
            par = lg.reach([m], block=lambda x: x.id in cset or invalid(x) or
                           x.kind == 'throws' and x is not m)
            hit = [i for i in par if lg.is_end(lg.nodes[i])]
            res.append((m.loc, lg.path(par, hit[0]) if hit else None))
    ctx.need('failed connections', len(res))
    once(ctx, 'failed-connection-is-retried', where, res, fg=lg,
         msg='a failed connection ends the loop or is retried without delay')
    initial_status(ctx, lg, creates, act, sd)


def reports(n):
    return n.data['callee'] in ('.notify', '.status')


def initial_status(ctx, lg, creates, act, sd):
    """after connecting the status of the client is taken over before the
    loop waits"""
    where = short(lg.func.qual)
    res = []
    of = lambda t: t[0] == 'a' and t[2] == 'status' and any(
        same(t[1], c.data['res']) for c in creates)
    stand = lambda t: t[0] == 'g' and t[1].endswith('Status.STANDBY')
    isst = eq_lit(of, stand)
    idle = any_lit(isst, none_lit(of))
    touch = {}
    for m in lg.nodes:
        if m.kind == 'add' and self_attr_term(m.data['obj']) and \
                m.data['obj'][2] == act:
            touch[m.id] = 'add'
        elif m.kind == 'call' and m.data['callee'] in (
                '.discard', '.remove') and self_attr_term(
                m.data['base']) and m.data['base'][2] == act:
            touch[m.id] = 'del'
    for n in creates:
        for s in lg.kind('suspend'):
            if n.id not in s.pred:
                continue
            for j in s.succ:
                x = lg.nodes[j]
                if x.kind == 'throws':
                    continue
                res.append((n.loc, lg.unfollowed(
                    x, lambda m: m.id in touch, lambda m: m.kind == 'suspend'
                    or lg.is_end(m), lambda m: m.kind in THROW)))
                par = lg.reach([x], block=lambda m: m.kind == 'suspend' or
                               m.kind in THROW)
                for i in par:
                    if i not in touch:
                        continue
                    m = lg.nodes[i]
                    if touch[i] == 'del':
                        res.append((m.loc, lg.unheld(m, idle, set())))
                    else:
                        res.append((m.loc, lg.unheld(m, neg(isst), set())))
    ctx.need('initial statuses', len(res))
    once(ctx, 'initial-status-is-taken', where, res, fg=lg,
         msg='the status a client has when connected is not taken into '
             'account')


def bound_args(prog, t):
    r = []
    while t and t[0] == 'part':
        r = list(t[2]) + r
        t = t[1]
    if t and t[0] in ('fn', 'bm'):
        return r
    return r


def captured(lg, f, loop, sd):
    """what a function made in the loop, or in a function that the loop
    calls, sees of the server it is made for"""
    if f.parent is None:
        return None
    if f.parent is loop:
        return sd
    r = set()
    for n in lg.enters(f.parent.qual):
        b = n.data['bound']
        b = b.items() if isinstance(b, dict) else b
        r.add(tuple(k for k, v in b if v == sd)[:1])
    return ('p', *r.pop()) if len(r) == 1 and () not in r else None


def passes_id(ctx, lg, t, loop, sd, opq):
    f = callee_of(ctx.prog, t)
    if f is None:
        return False
    if sd in {x for x in subterms(t)}:
        return True
    sd = captured(lg, f, loop, sd)
    if sd is None:
        return False
    g = ctx.flow(f, opq)
    want = [('a', sd, 'server_id', None)] + [('p', x) for x in f.params]
    return any(list(n.data['args']) == want or list(n.data['args'])[
        1:] == want and n.data['callee'].endswith('call')
        for n in g.kind('call'))


def activity(ctx, opq, f, sd, bound):
    """the set of active servers, kept as the statuses say; returns its
    attribute"""
    g = ctx.flow(f, opq)
    where = short(f.qual)
    own = [('p', x) for x in f.params if not (f.cls and x == f.params[0])]
    if bound:
        sd = own.pop(0)
    st = own[0]
    adds = [m for m in g.kind('add') if self_attr_term(m.data['obj'])]
    dels = [m for m in g.kind('call') if m.data['callee'] in (
        '.discard', '.remove') and self_attr_term(m.data['base'])]
    ctx.need('servers made active', len(adds))
    ctx.need('servers made inactive', len(dels))
    attrs = {m.data['obj'][2] for m in adds} | {m.data['base'][2]
                                                for m in dels}
    if len(attrs) != 1:
        raise AnalysisError('activity is kept in several places')
    attr = attrs.pop()
    stand = lambda t: t[0] == 'g' and t[1].endswith('Status.STANDBY')
    mine = lambda t: t == st
    isst = eq_lit(mine, stand)
    idle = any_lit(isst, none_lit(mine))
    throw = lambda m: m.kind in THROW
    aid, did = {m.id for m in adds}, {m.id for m in dels}
    res = [(m.loc, g.unheld(m, neg(isst), set()) or
            g.unheld(m, neg(none_lit(mine)), set())) for m in adds]
    res += [(m.loc, None if m.data['value'] == sd else [m.id]) for m in adds]
    res += [(m.loc, None if m.data['args'][0] == sd else [m.id])
            for m in dels]
    res += [(m.loc, g.unheld(m, idle, set())) for m in dels]
    res.append((f.loc, g.unfollowed(
        g.entry, lambda m: m.id in aid | did, g.is_return, throw)))
    once(ctx, 'active-as-status-says', where, res, fg=g,
         msg='a server counts as active though it is on standby or gone, or '
             'the other way round')
    # the flag follows
    cont = lambda t: any(x and x[0] == 'a' and x[2] == attr
                         for x in subterms(t) if isinstance(x, tuple))
    some = lambda a, b: a[0] == 'truthy' and b and cont(a[1])
    nflag = {n.data['attr'] for n in g.kind('store')}
    ctx.need('activity flag', len(nflag))
    flag = nflag.pop()
    isflag = lambda t: self_attr_term(t) and t[2] == flag
    res, res2 = [], []
    notes = [n for n in g.calls('.notify')]
    ctx.need('notified changes', len(notes))
    nid = {n.id for n in notes}
    stores = [n for n in g.kind('store') if n.data['attr'] == flag]
    sid = {n.id for n in stores}

    def agrees(n, v):
        if v == TRUE:
            return g.unheld(n, some, set())
        if v == FALSE:
            return g.unheld(n, neg(some), set())
        return None if v[0] == 'op' and v[1] == 'bool' and cont(v[2]) \
            else [n.id]
    touched = aid | did
    for n in stores:
        res.append((n.loc, agrees(n, n.data['value'])))
        q = g.unpreceded(n, lambda m: m.id in touched)
        res.append((n.loc, q))
        res2.append((n.loc, g.unfollowed(
            n, lambda m: m.id in nid and (
                m.data['args'][0] == n.data['value'] or
                isflag(m.data['args'][0])), g.is_return, throw)))
        par = g.reach(n.succ)
        hit = [i for i in par if i in touched]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    for n in notes:
        res2.append((n.loc, g.unpreceded(n, lambda m: m.id in sid)))
        differs = lambda a, b: a[0] == 'eq' and not b and (
            isflag(a[1]) or isflag(a[2])) or a[0] == 'truthy' and \
            isflag(a[1]) or a[0] == 'eq' and b and any(
                isflag(a[i]) and a[3 - i][0] == 'c' for i in (1, 2))
        res2.append((n.loc, g.unheld(n, differs, set())))
        par = g.reach(n.succ)
        hit = [i for i in par if i in nid]
        res2.append((n.loc, g.path(par, hit[0]) if hit else None))
    # no change without the flag following
    for m in g.nodes:
        if not g.is_return(m):
            continue
        par = g.reach([m], block=lambda x: x.id in sid, back=True)
        if 0 not in par:
            continue
        for v, lit in ((TRUE, some), (FALSE, neg(some))):
            pass
        flagis = lambda v: (lambda a, b: a[0] == 'eq' and (
            isflag(a[1]) and a[2] == v or isflag(a[2]) and a[1] == v) and b
            or a[0] == 'truthy' and isflag(a[1]) and b == (v == TRUE) or
            a[0] == 'eq' and (isflag(a[1]) and a[2][0] == 'c' and a[2] != v
                              or isflag(a[2]) and a[1][0] == 'c' and
                              a[1] != v) and not b)
        q = None
        for l1, l2 in ((some, flagis(TRUE)), (neg(some), flagis(FALSE))):
            # on every way: l1 refuted or l2 known
            q = q or past(g, m, neg(l1), l2, sid)
        res.append((m.loc, q))
    once(ctx, 'remote-active-flag', where, res, fg=g,
         msg='the flag does not tell whether some server is active')
    once(ctx, 'change-is-told-once', where, res2, fg=g,
         msg='a change of the flag is not told to those who wait for it')
    return attr


TRUE, FALSE = const(True), const(False)


def past(g, n, l1, l2, ids):
    """path from the entry to n with neither literal established and no
    node of ids on it"""
    hit = lambda m: any(l1(a, b) or l2(a, b) for a, b in m.facts) or \
        m.kind == 'assume' and (l1(m.data['atom'], m.data['pol']) or
                                l2(m.data['atom'], m.data['pol'])) or \
        m.id in ids
    if hit(n):
        return None
    par = g.reach([n], block=hit, back=True)
    return g.path(par, 0)[::-1] if 0 in par else None
