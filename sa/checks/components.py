"""Component: following the active server of a group."""

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .clients import self_attr_term
from .eventer_server2 import THROW
from .followers import SERVER_FIELDS, field_of, isinst_lit, server_term
from .runners import (outside, cancelled, failure, awaited, steps,
                      exactly_one, has_wait)
from .server_main import ahead, unmet
from .syncing import done_of

COMP = EV + 'component.'
MC = 'hat.monitor.component.connect'
CONNECT = EV + 'eventer.client.connect'


def given_callbacks(prog, fg, n, names):
    """callbacks of a call, also those of a dict unpacked into it"""
    r = {}
    star = dict(n.data['kws']).get('**')
    ent = dict_entries(fg, star) if star and star[0] == 'o' else {}
    for k in names:
        t = fg.arg(n, k)
        if t is None and ent.get(k):
            t = ent[k][-1][0]
        f = callee_of(prog, t) if t else None
        if f is None:
            raise AnalysisError(f'{k} of {n.loc} is not a function of the '
                                f'repository')
        r[k] = f
    return r


def overridden(fg, d):
    """path on which something unpacked into a dict comes after an entry"""
    own = [n for n in fg.kind('setitem') if unage(n.data['base']) ==
           unage(d) and const_str(n.data['key']) in (
               'state_cb', 'close_req_cb', 'status_cb', 'events_cb')]
    late = {n.id for n in fg.kind('merge')
            if unage(n.data['base']) == unage(d)}
    late |= {n.id for n in fg.calls('.update') if n.data['base'] and unage(
        n.data['base']) == unage(d)}
    starts = {n.id for n in fg.kind('merge')}
    for n in own:
        par = fg.reach(n.succ, block=lambda m: m.kind in THROW or
                       m.kind == 'call' and
                       m.data['callee'] in (CONNECT, MC))
        hit = [i for i in par if i in late]
        if hit:
            return fg.path(par, hit[0])
    return None


@check('C19')
def component(ctx):
    prog = ctx.prog
    opq = outside(prog, COMP)
    cg = ctx.flow(COMP + 'connect', opq)
    where = short(cg.func.qual)
    conns = cg.calls(MC)
    ctx.need('connections to the monitor', len(conns))
    cbs = {}
    res = []
    attr = {}
    for n in cg.kind('store'):
        if n.data['value'][0] == 'p':
            attr[n.data['value'][1]] = n.data['attr']
    for k in ('server_group', 'client_name', 'runner_cb', 'state_cb',
              'close_req_cb', 'status_cb', 'events_cb', 'reconnect_delay',
              'eventer_kwargs'):
        ctx.ob('configuration-is-kept', f'{where}.{k}', k in attr,
               cg.func.loc, f'{k} is not kept')
    if len([k for k in attr]) < 9:
        return
    mine = lambda k: lambda t: self_attr_term(t) and t[2] == attr[k]
    for n in conns:
        cbs.update(given_callbacks(prog, cg, n, (
            'runner_cb', 'state_cb', 'close_req_cb')))
        ok = all(cg.arg(n, k) == ('p', k) for k in ('addr', 'name', 'group'))
        res.append((n.loc, None if ok else [n.id]))
        star = dict(n.data['kws']).get('**')
        if star and star[0] == 'o':
            res.append((n.loc, overridden(cg, star)))
    once(ctx, 'connects-as-asked', where, res, fg=cg,
         msg='the monitor connection is not made as asked for')
    # ------------------------------------------------- the active server
    rg = ctx.flow(cbs['runner_cb'], opq)
    sg = ctx.flow(cbs['state_cb'], opq)
    for fg, state in ((sg, ('p', sg.func.params[-1])),
                      (rg, ('a', ('p', rg.func.params[-1]), 'state',
                            None))):
        selection(ctx, fg, state, mine)
    where = short(rg.func.qual)
    throw = lambda m: m.kind in THROW
    isdata = lambda t: t == NONE or t[0] == 'rec' and t[1].endswith(
        '.ServerData')
    kept = [n for n in rg.kind('store') if n.data['value'][0] == 'rec' and
            isdata(n.data['value'])]
    ctx.need('known server kept', len(kept))
    dattr = {n.data['attr'] for n in kept}
    queues = [n for n in rg.kind('store') if call_args(
        n.data['value'], 'Queue') is not None]
    ctx.need('queues of servers', len(queues))
    qattr = {n.data['attr'] for n in queues}
    if len(dattr) > 1 or len(qattr) > 1:
        raise AnalysisError('the known server is kept in several places')
    dattr, qattr = dattr.pop(), qattr.pop()
    isd = lambda t: self_attr_term(t) and t[2] == dattr
    isq = lambda t: self_attr_term(t) and t[2] == qattr or call_args(
        t, 'Queue') is not None
    puts = lambda fg: [n for n in fg.kind('call') if n.data['callee'].split(
        '.')[-1] in ('put', 'put_nowait') and n.data['base'] and
        isq(n.data['base'])]

    def stores(fg):
        return [n for n in fg.kind('store') if n.data['attr'] == dattr]

    res = []
    rec = {n.id for n in stores(rg) if n.data['value'] != NONE}
    rput = {n.id for n in puts(rg)}
    for i in rec:
        n = rg.nodes[i]
        ok = lambda m: m.id in rput and same(m.data['args'][0],
                                             n.data['value']) or \
            m.id in rput and isd(m.data['args'][0])
        # an object made of fields is true
        fls = lambda m: m.kind == 'assume' and not m.data['pol'] and \
            m.data['atom'][0] == 'truthy' and isdata(m.data['atom'][1])
        res.append((n.loc, rg.unfollowed(n, ok, rg.is_return, lambda m:
                                         throw(m) or fls(m))))
    for i in rput:
        n = rg.nodes[i]
        q = rg.unpreceded(n, lambda m: m.kind == 'store' and m.data[
            'attr'] == qattr)
        res.append((n.loc, q))
    sp = [n for n in rg.kind('call') if n.data['callee'].split('.')[-1] ==
          'spawn']
    ctx.need('server loops started', len(sp))
    loops = {callee_of(prog, n.data['args'][0]) for n in sp}
    loops.discard(None)
    if len(loops) != 1:
        raise AnalysisError('the server loop is not one function')
    loop = loops.pop()
    groups = {unage(n.data['base']) for n in sp}
    for n in rg.nodes:
        if rg.is_return(n):
            res.append((n.loc, None if n.data.get('value') is not None and
                        unage(n.data['value']) in groups else [n.id]))
            res.append((n.loc, rg.unpreceded(
                n, lambda m: m.kind == 'call' and m in sp)))
            res.append((n.loc, rg.unpreceded(
                n, lambda m: m.kind == 'store' and m.data['attr'] == qattr)))
            res.append((n.loc, rg.unpreceded(
                n, lambda m: m.kind == 'store' and m.data['attr'] == dattr)))
    lp = [p for p in loop.params if p != 'self']
    roles = {}
    for n in sp:
        for p, a in zip(lp, n.data['args'][1:]):
            if isq(a):
                roles['queue'] = p
            elif unage(a) in groups:
                roles['group'] = p
    if 'group' not in roles:
        raise AnalysisError('the server loop does not get its group')
    once(ctx, 'new-runner-starts-with-known-server', where, res, fg=rg,
         msg='a runner asked for by the monitor does not start from the '
             'server active now')
    # changes
    where = short(sg.func.qual)
    res, res2 = [], []
    sput = {n.id for n in puts(sg)}
    noq = assume_block(lambda a, b: (
        a[0] == 'none' and b or a[0] == 'truthy' and not b) and isq(a[1]))
    unchanged = assume_block(lambda a, b: b and (
        a[0] == 'eq' and (isd(a[1]) or isd(a[2])) or
        a[0] == 'none' and isd(a[1])))
    fls = assume_block(lambda a, b: a[0] == 'truthy' and not b and
                       a[1][0] == 'el')
    res.append((sg.func.loc, sg.unfollowed(
        sg.entry, lambda m: m.id in sput, sg.is_return, lambda m:
        throw(m) or noq(m) or unchanged(m))))
    st = stores(sg)
    ctx.need('changes of the server', len(sput))
    res += [(sg.nodes[i].loc, None if sg.nodes[i].data['awaited'] or
             awaited(sg, sg.nodes[i]) or sg.nodes[i].data['callee'].endswith(
                 'put_nowait') else [i]) for i in sput]
    for i in sput:
        n = sg.nodes[i]
        v = n.data['args'][0]
        if isd(v):
            continue
        # kept and told together
        keep = lambda m: m.kind == 'store' and m.data['attr'] == dattr and \
            same(m.data['value'], v)
        par = sg.reach([n], back=True, block=keep)
        hit = [j for j in par if j == 0 or sg.nodes[j].kind == 'suspend']
        par2 = sg.reach(n.succ, block=lambda m: keep(m))
        late = [j for j in par2 if sg.nodes[j].kind == 'suspend' or
                sg.is_end(sg.nodes[j])]
        res2.append((n.loc, sg.path(par, hit[0])[::-1]
                     if hit and late else None))
        res2.append((n.loc, None if isdata(v) else [i]))
    for n in st:
        v = n.data['value']
        same_put = lambda m: m.id in sput and (
            same(m.data['args'][0], v) or isd(m.data['args'][0]))
        par = sg.reach([n], back=True, block=same_put)
        bad = 0 in par
        q = sg.unfollowed(n, same_put, sg.is_return, throw)
        res2.append((n.loc, q if bad and q else None))
    once(ctx, 'change-is-told', where, res, fg=sg,
         msg='another server becomes active and the component stays with '
             'the old one')
    once(ctx, 'told-as-kept', where, res2, fg=sg,
         msg='what the component keeps and what it tells its loop differ')
    # one at a time
    lg = ctx.flow(loop, opq)
    server_loop(ctx, prog, lg, opq, roles, mine)
    # callbacks
    for fg, k, extra in ((sg, 'state_cb', 1),
                         (ctx.flow(cbs['close_req_cb'], opq),
                          'close_req_cb', 0),
                         *((ctx.flow(f, opq), k, n) for k, f, n in
                           ctx.client_cbs)):
        passes(ctx, fg, k, mine(k), extra)


def passes(ctx, fg, name, cb, extra):
    """a callback the user gave is called with the component and what came"""
    throw = lambda m: m.kind in THROW
    ids = {n.id for n in fg.kind('call') if n.data['callee'] == 'cb:' + name
           or is_call_of(n, cb)}
    ctx.need(f'calls of {name}', len(ids))
    unset = assume_block(lambda a, b: (
        a[0] == 'none' and b or a[0] == 'truthy' and not b) and cb(a[1]))
    exactly_one(ctx, fg, 'callback-is-called', ids, fg.is_return,
                lambda m: throw(m) or unset(m),
                f'{name} is given and not called')
    ps = [('p', p) for p in fg.func.params]
    want = [ps[0]] + (ps[-extra:] if extra else [])
    once(ctx, 'callback-arguments', short(fg.func.qual), (
        (fg.nodes[i].loc, None if [
            a for a in fg.nodes[i].data['args'] if not cb(a)][
                -len(want):] == want else [i]) for i in ids), fg=fg,
        msg=f'{name} is called with something else')


def is_call_of(n, cb):
    c = n.data['callee']
    b = n.data['base']
    return b is not None and c[:1] == '.' and cb(('a', b, c[1:], None))


def selection(ctx, fg, state, mine):
    """the server known is the first component of the group that holds the
    blessing, provided it tells where it listens"""
    where = short(fg.func.qual)

    def comp(t):
        if t[0] != 'el':
            return False
        b = seq_base(t[1])
        return b[0] == 'a' and b[2] == 'components' and (
            b[1] == state or state[0] == 'a' and b[1][0] == 'a' and
            b[1][1:3] == state[1:3])
    its = [it for it in fg.kind('iter') if comp(it.data['value'])]
    ctx.need(f'walks over components in {where}', len(its))
    news = [n for n in fg.kind('new') if n.data['cls'].endswith(
        '.ServerData')]
    ctx.need(f'servers found in {where}', len(news))
    own = lambda t: t[0] == 'm' and t[2] == 'get' and \
        mine('eventer_kwargs')(t[1]) and t[3][0] == const('client_token') \
        or t[0] == 'i' and mine('eventer_kwargs')(t[1]) and \
        t[2] == const('client_token')

    def conds(c):
        doc = lambda t: unage(t) == unage(('a', c, 'data', None))
        at = lambda x, y: lambda t: t[0] == 'a' and t[2] == y and \
            t[1][0] == 'a' and t[1][2] == x and unage(t[1][1]) == unage(c)
        req, rs = at('blessing_req', 'token'), at('blessing_res', 'token')
        tok = field_of(fg, doc, 'server_token')
        r = [eq_lit(lambda t: unage(t) == unage(('a', c, 'group', None)),
                    mine('server_group')),
             any_lit(neg(none_lit(req)), neg(none_lit(rs))),
             eq_lit(req, rs)]
        r += [isinst_lit(field_of(fg, doc, *p), ty)
              for p, ty in SERVER_FIELDS]
        r.append(any_lit(none_lit(tok), isinst_lit(tok, 'str')))
        absent = lambda a, b: a[0] == 'in' and not b and \
            a[1] == const('client_token') and mine('eventer_kwargs')(a[2])
        r.append(any_lit(none_lit(own), eq_lit(tok, own), absent))
        return doc, tok, r
    res, res2, res3 = [], [], []
    for n in news:
        v = n.data['value']
        cs = {x for x in subterms(v) if x and x[0] == 'el' and comp(x)}
        if len(cs) != 1:
            res.append((n.loc, [n.id]))
            continue
        c = cs.pop()
        doc, tok, r = conds(c)
        ok = server_term(fg, v, doc, 'ServerData') and tok(
            dict(v[2]).get('server_token', NONE))
        res3.append((n.loc, None if ok else [n.id]))
        for i in range(len(r)):
            res.append((n.loc, guarded(fg, n, c,
                                       lambda x, i=i: conds(x)[2][i])))
    kept = [m for m in fg.kind('add') if comp(m.data['value']) and
            m.data['obj'][0] == 'o']
    picks = [m for m in fg.kind('pick', 'iter') if comp(m.data['value'])]
    for m in kept:
        o = unage(m.data['obj'])
        ids = {x.id for x in picks if unage(x.data['iter']) == o}
        gone = empty_lit(o)
        res2.append((m.loc, fg.unfollowed(
            m, lambda x: x.id in ids, fg.is_return, lambda x: x.kind in THROW
            or x.kind == 'assume' and gone(x.data['atom'], x.data['pol']))))
    kept = {m.id for m in kept}
    for it in picks:
        c = it.data['value']
        doc, tok, r = conds(c)
        mid = {n.id for n in news if contains(n.data['value'], unage(c))}
        isstr, isnone = isinst_lit(tok, 'str'), none_lit(tok)
        ex = any_lit(*[neg(x) for x in r[:6]],
                     none_lit(lambda t: unage(t) == unage(c)),
                     lambda a, b: a[0] == 'truthy' and not b and
                     unage(a[1]) == unage(c))

        differ, unset = eq_lit(tok, own), none_lit(own)

        def weird(facts):
            return any(isstr(a, not b) for a, b in facts) and \
                any(isnone(a, not b) for a, b in facts) or \
                any(differ(a, not b) for a, b in facts) and \
                any(unset(a, not b) for a, b in facts)
        nxt = fg.loop_next(it)
        res2.append((it.loc, unmet(
            fg, it, lambda m: m.id in mid or m.id in kept and contains(
                m.data['value'], unage(c)), lambda m: fg.is_return(m) or
            nxt(m), lambda m: m.kind in THROW or weird(m.facts) or
            m.kind == 'assume' and ex(m.data['atom'], m.data['pol']))))
    once(ctx, 'only-the-active-server', where, res, fg=fg,
         msg='a component that is not the active usable server of the group '
             'is connected to')
    once(ctx, 'the-active-server-is-found', where, res2, fg=fg,
         msg='the active server of the group is not connected to')
    once(ctx, 'server-as-told', where, res3, fg=fg,
         msg='the server is known under another id, address or token')


def server_loop(ctx, prog, g, opq, roles, mine):
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    group = ('p', roles['group'])
    isq = lambda t: t == ('p', roles.get('queue')) or t[0] == 'a' and \
        'queue' in t[2]
    gets = {n.id for n in g.kind('call') if n.data['base'] and isq(
        n.data['base']) and n.data['callee'].split('.')[-1] in (
            'get', 'get_until_empty')}
    ctx.need('servers taken', len(gets))
    data = {unage(g.nodes[i].data['res']) for i in gets}
    sp = [n for n in g.kind('call') if n.data['callee'].split('.')[-1] ==
          'spawn' and n.data['args'] and callee_of(prog, n.data['args'][0])]
    ctx.need('client loops started', len(sp))
    sid = {n.id for n in sp}
    fns = {callee_of(prog, n.data['args'][0]) for n in sp}
    if len(fns) != 1:
        raise AnalysisError('the client loop is not one function')
    loop = fns.pop()
    isdat = lambda t: unage(t) in data or t[0] == 'r' and \
        t[-1][0] == 'wide'
    true = lambda a, b: (a[0] == 'truthy' and b or
                         a[0] == 'none' and not b) and isdat(a[1])
    fls = lambda a, b: (a[0] == 'truthy' and not b or
                        a[0] == 'none' and b) and isdat(a[1])
    empty = lambda a, b: a[0] == 'truthy' and a[1][0] in ('m', 'r') and \
        'empty' in str(a[1])[:400] and b and match_call(
            a[1], 'empty', base=isq)
    nonempty = lambda a, b: a[0] == 'truthy' and not b and match_call(
        a[1], 'empty', base=isq)
    res, res2, res3, res4 = [], [], [], []
    lp = [p for p in loop.params if p != 'self']
    dpos = gpos = None
    single = not any(g.nodes[i].data['callee'].endswith('get_until_empty')
                     for i in gets)
    for n in sp:
        args = n.data['args'][1:]
        pos = [i for i, a in enumerate(args) if isdat(a)]
        if len(pos) != 1:
            res.append((n.loc, [n.id]))
            continue
        dpos = pos[0]
        gp = [i for i, a in enumerate(args) if unage(a) == unage(
            n.data['base'])]
        gpos = gp[0] if gp else None
        u = unage(args[dpos])
        # taken last, present, and nothing newer known
        par = g.reach([n], back=True, block=assume_block(
            lambda a, b: true(a, b) and unage(a[1]) == u))
        hit = [i for i in par if i == 0 or i in gets]
        res.append((n.loc, g.path(par, hit[0])[::-1] if hit else None))
        own = unage(n.data['base']) == unage(group)
        res2.append((n.loc, [n.id] if own else None))
        gone = lambda m: m.kind == 'suspend' and unage(
            m.data['value']) == unage(n.data['base']) and any(
                g.nodes[p].kind == 'withexit' for p in m.pred) or \
            m.kind == 'call' and m.data['callee'] == '.async_close' and \
            unage(m.data['base'] or ('c', 0)) == unage(n.data['base'])
        res2.append((n.loc, g.unfollowed(
            n, gone, lambda m: m.id in sid and m is not n or g.is_end(m) or
            m is n, lambda m: False)))
        # replaced only by something newer
        par = g.reach([n], block=lambda m: m.id in gets or throw(m))
        hit = [i for i in par if i != n.id and (
            gone(g.nodes[i]) or i in sid)]
        res3.append((n.loc, g.path(par, hit[0]) if hit else None))
    for i in gets:
        u = unage(g.nodes[i].data['res'])
        takes = {n.id for n in sp if any(
            unage(a) == u or a[0] == 'r' and a[-1][0] == 'wide'
            for a in n.data['args'][1:])}
        # what was taken is connected to, unless none or superseded
        res4 += [(x.loc, unmet(
            g, x, lambda m: m.id in takes, lambda m: m.id in gets or
            g.is_return(m), lambda m: throw(m) or assume_block(fls)(m) or
            m.kind == 'assume' and nonempty(m.data['atom'],
                                            m.data['pol'])))
            for x in done_of(g, {i})]
    for i in gets:
        n = g.nodes[i]
        if not n.data['callee'].endswith('get_until_empty'):
            res4.append((n.loc, [i]))
    once(ctx, 'only-known-server-is-connected', where, res, fg=g,
         msg='a client loop runs without a server to connect to')
    once(ctx, 'one-client-loop', where, res2, fg=g,
         msg='the loop of the former server is not ended first')
    once(ctx, 'loop-runs-until-change', where, res3, fg=g,
         msg='the connection is given up though the server did not change')
    once(ctx, 'newest-server-is-connected', where, res4, fg=g,
         msg='an active server is passed over')
    ends(ctx, g, group)
    if dpos is None:
        return
    client_loop(ctx, prog, ctx.flow(loop, opq), ('p', lp[dpos]),
                ('p', lp[gpos]) if gpos is not None else None, mine, opq)


def ends(ctx, g, group):
    """a loop that fails closes the component; it never leaves its group
    open"""
    where = short(g.func.qual)
    sclose = {n.id for n in g.kind('call') if n.data['callee'] == '.close'
              and n.data['base'] == ('p', 'self')}
    gclose = {n.id for n in g.kind('call') if n.data['callee'] == '.close'
              and group is not None and unage(n.data['base'] or ('c', 0)) ==
              unage(group)}
    q = g.unfollowed(g.entry, lambda m: m.id in sclose, g.is_return,
                     cancelled)
    ctx.ob('failure-closes-component', where, q is None, g.func.loc,
           'the loop ends and the component stays open',
           g.show_path(q) if q else None)
    q = g.unfollowed(g.entry, lambda m: m.id in gclose, g.is_end)
    ctx.ob('end-closes-group', where, q is None, g.func.loc,
           'the loop ends and its group stays open',
           g.show_path(q) if q else None)


def client_loop(ctx, prog, g, sd, group, mine, opq):
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    conns = g.calls(CONNECT)
    ctx.need('connections to the server', len(conns))
    cset = {n.id for n in conns}
    res, res2 = [], []
    ctx.client_cbs = []
    for n in conns:
        d = dict(n.data['kws']).get('**')
        ent = dict_entries(g, d) if d and d[0] == 'o' else {}
        cb = given_callbacks(prog, g, n, ('status_cb', 'events_cb'))
        ctx.client_cbs = [(k, f, 2) for k, f in sorted(cb.items())]
        ok = g.arg(n, 'addr', 0) == ('a', sd, 'addr', None) and \
            mine('client_name')(g.arg(n, 'client_name', 1) or ('c', 0))
        res.append((n.loc, None if ok else [n.id]))
        if d and d[0] == 'o':
            res.append((n.loc, overridden(g, d)))
            merged = {m.id for m in g.kind('merge') if unage(
                m.data['base']) == unage(d) and mine('eventer_kwargs')(
                    m.data['value'])} | {m.id for m in g.calls('.update')
                                         if unage(m.data['base'] or
                                                  ('c', 0)) == unage(d)}
            res.append((n.loc, g.unpreceded(n, lambda m: m.id in merged)))
            sets = {m.id for _, m in ent.get('server_id', [])}
            bad = [m for v, m in ent.get('server_id', ())
                   if v != ('a', sd, 'server_id', None)]
            res2 += [(m.loc, [m.id]) for m in bad]
            asked = lambda a, b: a[0] == 'in' and b and \
                a[1] == const('server_id')
            res2.append((n.loc, g.unpreceded(
                n, lambda m: m.id in sets or m.kind == 'assume' and asked(
                    m.data['atom'], m.data['pol']))))
            for i in sets:
                # what the user asks for stays
                m = g.nodes[i]
                par = g.reach([m], back=True, block=lambda x: x.kind ==
                              'assume' and asked(x.data['atom'],
                                                 not x.data['pol']) or
                              x.id in merged)
                hit = [j for j in par if j == 0 or j in cset]
                early = g.reach([m], block=lambda x: x.id in cset or
                                throw(x))
                after = any(j in merged for j in early)
                par2 = g.reach([m], back=True, block=lambda x: x.kind ==
                               'assume' and asked(x.data['atom'],
                                                  not x.data['pol']))
                hit2 = [j for j in par2 if j == 0 or j in cset]
                res2.append((m.loc, g.path(par2, hit2[0])[::-1]
                             if hit2 and not after else None))
        else:
            sid = g.arg(n, 'server_id')
            res2.append((n.loc, None if sid is not None else [n.id]))
    once(ctx, 'connects-to-known-server', where, res, fg=g,
         msg='the connection is not made to the known server as configured')
    once(ctx, 'asks-for-events-of-server', where, res2, fg=g,
         msg='the events asked for are not those of the server or of the '
             'server id the user gave')
    # runner
    client = {unage(n.data['res']) for n in conns}
    iscl = lambda t: unage(t) in client or t[0] == 'r' and \
        t[-1][0] == 'wide' and 'client' in str(t[-1])
    made = [n for n in g.kind('call') if runner_args(n, mine)]
    ctx.need('runners made', len(made))
    mid = {n.id for n in made}
    res = []
    for x in done_of(g, cset):
        res.append((x.loc, unmet(
            g, x, lambda m: m.id in mid, lambda m: g.is_end(m) or
            m.id in cset, throw)))
    for n in made:
        a = runner_args(n, mine)
        ok = len(a) == 3 and a[0] == ('p', 'self') and a[1] == sd and \
            iscl(a[2])
        res.append((n.loc, None if ok else [n.id]))
        par = g.reach(n.succ, block=lambda m: m.id in cset)
        hit = [i for i in par if i in mid]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'runner-for-each-connection', where, res, fg=g,
         msg='not exactly one runner is made for a connection')
    runners = {unage(n.data['res']) for n in made}
    runners |= {unage(m.data['res']) for m in g.kind('call') if any(
        unage(a) in runners for a in m.data['args']) and m.data['callee'] in
        ('asyncio.shield', 'hat.aio.call')}
    isrun = lambda t: unage(t) in runners
    closes = lambda p: steps(g, lambda n: n.data['callee'] == '.async_close'
                             and n.data['base'] is not None and
                             p(n.data['base']))
    ccl, rcl = closes(iscl), closes(isrun)
    ctx.need('places that close the client', len(ccl))
    ctx.need('places that close the runner', len(rcl))
    res = []
    for x in done_of(g, cset):
        res.append((x.loc, unmet(g, x, lambda m: m.id in ccl, lambda m:
                                 g.is_end(m) or m.id in cset,
                                 lambda m: lost(g, m, rcl))))
    once(ctx, 'client-is-closed', where, res, fg=g,
         msg='the loop goes on or ends without closing the connection')
    res = []
    for x in done_of(g, mid):
        res.append((x.loc, unmet(g, x, lambda m: m.id in rcl, lambda m:
                                 g.is_end(m) or m.id in cset or
                                 m.id in ccl)))
    once(ctx, 'runner-is-closed-first', where, res, fg=g,
         msg='the connection is closed or left before its runner is closed')
    once(ctx, 'close-is-not-cut', where, (
        (m.loc, [m.id]) for m in g.nodes if cancelled(m) and any(
            p in ccl | rcl or any(i in ccl | rcl for i in g.nodes[p].pred)
            for p in m.pred)), fg=g,
        msg='cancellation leaves a runner or client half closed')
    # waiting for either
    tasks = {}
    for n in g.kind('call'):
        if n.data['callee'].split('.')[-1] not in ('spawn', 'create_task'):
            continue
        for a in n.data['args']:
            if has_wait(a) or a[0] == 'r' and 'wait_clos' in str(
                    a[2])[:40]:
                if any(iscl(x) for x in subterms(a) if isinstance(x, tuple)
                       and x and x[0] == 'r') and not any(
                           isrun(x) for x in subterms(a)
                           if isinstance(x, tuple)):
                    tasks.setdefault('client', set()).add(
                        unage(n.data['res']))
                if any(isrun(x) for x in subterms(a)
                       if isinstance(x, tuple)):
                    tasks.setdefault('runner', set()).add(
                        unage(n.data['res']))
    ctx.need('waits for the connection', len(tasks.get('client', ())))
    ctx.need('waits for the runner', len(tasks.get('runner', ())))
    res, waits = [], set()
    for n in g.calls('asyncio.wait'):
        els = {unage(v) for a in n.data['args']
               for v, _ in elements(g, n, a)}
        k = str(dict(n.data['kws']).get('return_when'))
        ok = els & tasks.get('client', set()) and els & tasks.get(
            'runner', set()) and 'FIRST_COMPLETED' in k and not dict(
                n.data['kws']).get('timeout')
        if ok:
            waits.add(n.id)
        res.append((n.loc, None if ok else [n.id]))
    for x in done_of(g, mid):
        res.append((x.loc, unmet(g, x, lambda m: m.id in waits, lambda m:
                                 m.id in rcl or m.id in ccl or g.is_end(m),
                                 throw)))
    once(ctx, 'runs-until-either-closes', where, res, fg=g,
         msg='the runner is closed though it and the connection are open, '
             'or kept though one of them closed')
    is_done = lambda k, pol: lambda a, b: a[0] == 'truthy' and b == pol and \
        match_call(a[1], 'done', base=lambda t: unage(t) in tasks.get(
            k, ())) or a[0] == 'in' and b == pol and unage(a[1]) in \
        tasks.get(k, ()) and 'asyncio.wait' in str(a[2]) or \
        a[0] == 'truthy' and a[1][0] == 'a' and a[1][2] in (
            'is_open', 'is_closing', 'is_closed') and (
                (a[1][2] == 'is_open') != pol) == b and (
                    iscl if k == 'client' else isrun)(a[1][1])
    sclose = {n.id for n in g.kind('call') if n.data['callee'] == '.close'
              and n.data['base'] == ('p', 'self')}
    fine = lambda m: m.kind == 'assume' and (
        is_done('runner', False)(m.data['atom'], m.data['pol']) or
        is_done('client', True)(m.data['atom'], m.data['pol']))
    res, res2 = [], []
    for x in done_of(g, waits):
        par = ahead(g, x, lambda m: fine(m) or throw(m))
        hit = [i for i in par if i in cset]
        res.append((x.loc, g.path(par, hit[0]) if hit else None))
        q = unmet(g, x, lambda m: m.id in sclose, lambda m: m.id in cset or
                  g.is_return(m), lambda m: fine(m) or throw(m))
        res.append((x.loc, q))
        # the end of the connection alone does not end the component
        stop = lambda m: m.kind == 'assume' and is_done('client', False)(
            m.data['atom'], m.data['pol'])
        par = ahead(g, x, lambda m: stop(m) or throw(m) or m.id in cset)
        hit = [i for i in par if i in sclose]
        res2.append((x.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'closed-runner-closes-component', where, res, fg=g,
         msg='a runner closes while the connection is open and the '
             'component goes on')
    # reconnecting
    sleeps = steps(g, lambda n: n.data['callee'] == 'asyncio.sleep' and
                   n.data['args'] and mine('reconnect_delay')(
                       n.data['args'][0]))
    ctx.need('pauses', len(sleeps))
    for n in conns:
        par = g.reach(n.succ, block=lambda m: m.id in sleeps)
        hit = [i for i in par if i in cset]
        res2.append((n.loc, g.path(par, hit[0]) if hit else None))
        for m in thrown_at(g, n):
            if cancelled(m):
                continue
            res2.append((m.loc, unmet(
                g, m, lambda x: x.id in sleeps, lambda x: g.is_end(x) or
                x.id in sclose, throw)))
    for i in sleeps:
        for x in done_of(g, {i}):
            res2.append((x.loc, unmet(
                g, x, lambda m: m.id in cset, g.is_end, throw)))
    once(ctx, 'connects-again', where, res2, fg=g,
         msg='a failed or closed connection is not made again after the '
             'delay')
    ends(ctx, g, group)


def lost(g, m, ids):
    return failure(m) and any(p in ids or g.nodes[p].kind == 'suspend' and
                              any(i in ids for i in g.nodes[p].pred)
                              for p in m.pred)


def runner_args(n, mine):
    """arguments the runner callback is called with"""
    a = n.data['args']
    if n.data['callee'].split('.')[-1] in ('spawn', 'call'):
        a = list(a)
        if a and a[0][0] == 'g' and a[0][1].endswith('aio.call'):
            a = a[1:]
        if a and mine('runner_cb')(a[0]):
            return a[1:]
        return None
    if is_call_of(n, mine('runner_cb')):
        a = list(a)
        b = n.data['base']
        return a[1:] if len(a) == 4 and a[0] == b else a
    return None
