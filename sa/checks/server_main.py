"""Main runner: composition of the server, its order and its end."""

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .clients import self_attr_term
from .eventer_server2 import THROW
from .followers import json_path
from .runners import (outside, cancelled, failure, at_calls, awaited, steps,
                      exactly_one, kwargs_callables, sets_event, spawned)
from .syncing import done_of

MAIN = EV + 'server.main_runner.'
ES = EV + 'server.eventer_server.create_eventer_server'
AD = EV + 'server.adminer_server.create_adminer_server'
CR = EV + 'server.eventer_client_runner.EventerClientRunner'
ER = EV + 'server.engine_runner.EngineRunner'
MC = 'hat.monitor.component.connect'
INFO = EV + 'common.backend.import_backend_info'
FLUSH = EV + 'common.backend.Backend.flush'

NAMES = {'backend': 'backend', 'eventer': 'eventer server',
         'adminer': 'adminer server', 'clients': 'eventer client runner',
         'monitor': 'monitor component', 'engine': 'engine runner'}

# what has to be closed before what
ORDER = [('engine', 'eventer'), ('engine', 'backend'),
         ('monitor', 'eventer'), ('monitor', 'backend'),
         ('clients', 'backend'), ('eventer', 'backend')]


def conf_is(t, *path):
    """t is looked up in the configuration"""
    if t is None:
        return False
    p = json_path(None, t)
    if p is not None:
        doc, have = p
    else:
        doc, have = t, ()
    return doc[0] == 'a' and self_attr_term(doc) and doc[2] == '_conf' and \
        tuple(have) == path or doc == ('p', 'conf') and tuple(have) == path


def given(ctx, n, cls, name):
    """argument of an instance made here"""
    k = dict(n.data['kws'])
    if name in k:
        return k[name]
    f = ctx.prog.functions.get(cls + '.__init__')
    if f is None:
        return None
    ps = [p for p in f.params if p != 'self']
    if name in ps and ps.index(name) < len(n.data['args']):
        return n.data['args'][ps.index(name)]
    return None


def part_of(prog, t):
    """(function, leading positional arguments) of a callback"""
    pos, kws = (), {}
    while t and t[0] == 'part':
        pos = tuple(t[2]) + pos
        kws = {**dict(t[3]), **kws}
        t = t[1]
    return callee_of(prog, t) if t else None, pos, kws


def made(prog, g):
    """what the runner is made of: name -> creating nodes"""
    r = {k: [] for k in NAMES}
    for n in g.kind('call'):
        c = n.data['callee']
        if c == ES:
            r['eventer'].append(n)
        elif c == AD:
            r['adminer'].append(n)
        elif c == MC:
            r['monitor'].append(n)
        elif c.split('.')[-1] == 'create' and n.data['base'] is not None \
                and call_args(n.data['base'], INFO) is not None:
            r['backend'].append(n)
    for n in g.kind('new'):
        if n.data['cls'] == CR:
            r['clients'].append(n)
        elif n.data['cls'] == ER:
            r['engine'].append(n)
    return r


def ahead(g, x, block):
    """reachable from x on, x included, short of blocked nodes"""
    return {} if block(x) else g.reach([x], block=block)


def unmet(g, x, sink, ends, block=lambda m: False):
    """like unfollowed, the start itself counts"""
    return None if sink(x) or block(x) else g.unfollowed(x, sink, ends, block)


def value_of(n):
    return n.data['value'] if n.kind == 'new' else n.data['res']


@check('C18')
def main_runner(ctx):
    prog = ctx.prog
    opq = outside(prog, MAIN)
    fs = spawned(ctx, MAIN + 'MainRunner.__init__', opq)
    ctx.need('runner loop', len(fs))
    g = ctx.flow(fs[0], opq)
    where = short(fs[0].qual)
    throw = lambda m: m.kind in THROW
    M = made(prog, g)
    attrs, kept, done = {}, {}, {}
    for k, ns in M.items():
        ctx.need(f'creations of the {NAMES[k]}', len(ns))
        vals = {unage(value_of(n)) for n in ns}
        kept[k] = {n.id for n in g.kind('store')
                   if self_attr(n.data['attr'])(('a', n.data['base'],
                                                 n.data['attr'])) and
                   unage(n.data['value']) in vals}
        attrs[k] = {g.nodes[i].data['attr'] for i in kept[k]}
        done[k] = []
        for n in ns:
            done[k] += [n] if n.kind == 'new' else done_of(g, {n.id})
    is_kept = lambda k: lambda t: self_attr_term(t) and t[2] in attrs[k] or \
        unage(t) in {unage(value_of(n)) for n in M[k]}
    # ---------------------------------------------------------- creation
    for k in NAMES:
        res, res2, res3 = [], [], []
        vals = {unage(value_of(n)) for n in M[k]}
        binds = {n.id for n in g.kind('call') if closes_with(n, is_kept(k))}
        nxt = {n.id for q, ns in M.items() if q != k for n in ns}
        for x in done[k]:
            res.append((x.loc, unmet(
                g, x, lambda m: m.id in kept[k], lambda m: g.is_end(m) or
                m.kind == 'suspend')))
            res2.append((x.loc, unmet(
                g, x, lambda m: m.id in binds, lambda m: g.is_return(m) or
                m.kind == 'suspend', throw)))
        once(ctx, 'kept-when-created', NAMES[k], res, fg=g,
             msg=f'the {NAMES[k]} is created and may not be closed in the '
                 f'end')
        once(ctx, 'end-of-one-ends-all', NAMES[k], res2, fg=g,
             msg=f'the {NAMES[k]} may close and the server goes on')
        for n in g.kind('store'):
            if n.data['attr'] in attrs[k] and n.data['base'] == (
                    'p', 'self') and n.id not in kept[k]:
                res3.append((n.loc, [n.id]))
        for n in M[k]:
            par = g.reach(n.succ)
            hit = [i for i in par if i in {x.id for x in M[k]}]
            res3.append((n.loc, g.path(par, hit[0]) if hit else None))
        once(ctx, 'created-once', NAMES[k], res3, fg=g,
             msg=f'the {NAMES[k]} may be created again or given up')
    # what each needs is there
    for k, need in (('eventer', ['backend']),
                    ('clients', ['backend']),
                    ('monitor', ['backend', 'eventer', 'clients']),
                    ('engine', ['backend', 'eventer'])):
        for d in need:
            once(ctx, 'created-after', f'{NAMES[k]} after {NAMES[d]}', (
                (n.loc, g.unpreceded(n, lambda m: m.id in kept[d]))
                for n in M[k]), fg=g,
                msg=f'the {NAMES[k]} is created before the {NAMES[d]}')
    # exactly what the configuration asks for
    has = lambda key: lambda a, b: b and a[0] == 'in' and \
        a[1] == const(key) and conf_is(a[2]) or a[0] == 'none' and not b \
        and conf_is(a[1], key) or a[0] == 'truthy' and b and \
        conf_is(a[1], key)
    for k, key, pol in (('backend', None, 0), ('eventer', None, 0),
                        ('adminer', 'adminer_server', 1),
                        ('clients', 'monitor_component', 1),
                        ('monitor', 'monitor_component', 1),
                        ('engine', 'monitor_component', 0)):
        ids = {n.id for n in M[k]}
        l = has(key) if key else lambda a, b: False
        yes = l if pol else neg(l)
        no = neg(yes) if key else l
        ready = {n.id for n in g.kind('call') if n.data['callee'].split(
            '.')[-1] == 'set_ready'}
        res = []
        if key:
            res += [(n.loc, g.unheld(n, yes, set())) for n in M[k]]
        res.append((g.func.loc, g.unfollowed(
            g.entry, lambda m: m.id in ids, lambda m: g.is_return(m) or
            m.id in ready or m.kind == 'suspend' and 'create_future' in str(
                m.data['value'])[:300], lambda m: throw(m) or
            assume_block(no)(m))))
        once(ctx, 'created-as-asked', NAMES[k], res, fg=g,
             msg=f'the {NAMES[k]} is not created exactly when configured')
    arguments(ctx, prog, g, M, opq, is_kept)
    # --------------------------------------------------------------- end
    closing = lambda m: m.kind == 'call' and m.data['callee'] in (
        '.close', ) and (m.data['base'] == ('p', 'self') or
                         self_attr_term(m.data['base'] or ('c', 0)) and
                         'group' in m.data['base'][2])
    q = g.unfollowed(g.entry, closing, g.is_end)
    ctx.ob('end-closes-runner', where, q is None, g.func.loc,
           'the runner ends and stays open', g.show_path(q) if q else None)
    closes = {k: steps(g, lambda n: n.data['callee'].split('.')[-1] ==
                       'async_close' and n.data['base'] is not None and
                       is_kept(k)(n.data['base'])) for k in NAMES}
    every = {i for v in closes.values() for i in v}
    lost = at_calls(g, every)
    absent = lambda k: assume_block(lambda a, b: (
        a[0] == 'truthy' and not b or a[0] == 'none' and b) and
        is_kept(k)(a[1]))
    mon = assume_block(lambda a, b: (
        a[0] == 'truthy' and b or a[0] == 'none' and not b) and
        is_kept('monitor')(a[1]))
    for k in NAMES:
        ctx.need(f'places that close the {NAMES[k]}', len(closes[k]))
        res = []
        for i in kept[k]:
            n = g.nodes[i]
            res.append((n.loc, g.unfollowed(
                n, lambda m: m.id in closes[k], g.is_end, lambda m:
                lost(m) or absent(k)(m) or k == 'engine' and mon(m))))
        once(ctx, 'everything-is-closed', NAMES[k], res, fg=g,
             msg=f'the runner ends and the {NAMES[k]} is not closed')
    for a, b in ORDER:
        res = []
        for i in closes[b]:
            n = g.nodes[i]
            par = g.reach([n], block=lambda m: m.id in closes[a] or
                          absent(a)(m) or a == 'engine' and mon(m) or
                          lost(m), back=True)
            hit = [j for j in par if j in kept[a] or j == 0]
            par2 = g.reach(n.succ, block=lost)
            late = [j for j in par2 if j in closes[a]]
            res.append((n.loc, g.path(par, hit[0])[::-1] if hit else
                        g.path(par2, late[0]) if late else None))
        once(ctx, 'closed-in-order', f'{NAMES[a]} before {NAMES[b]}', res,
             fg=g, msg=f'the {NAMES[b]} is closed while the {NAMES[a]} may '
                       f'still use it')
    flush = steps(g, lambda n: n.data['callee'] == FLUSH or n.data['callee']
                  == '.flush' and is_kept('backend')(n.data['base'] or
                                                     ('c', 0)))
    ctx.need('final flush', len(flush))
    res = []
    starts = [g.nodes[i] for i in kept['eventer']]
    for i in closes['eventer']:
        n = g.nodes[i]
        par = g.reach([n], block=lambda m: m.id in flush or lost(m),
                      back=True)
        hit = [j for j in par if j in kept['eventer'] or j == 0]
        res.append((n.loc, g.path(par, hit[0])[::-1] if hit else None))
    for i in flush:
        n = g.nodes[i]
        for a in ('engine', 'monitor', 'clients'):
            par = g.reach(n.succ, block=lost)
            late = [j for j in par if j in closes[a]]
            res.append((n.loc, g.path(par, late[0]) if late else None))
    once(ctx, 'last-events-are-announced', where, res, fg=g,
         msg='the backend is not flushed between the end of everything that '
             'registers events and the end of the eventer server')
    once(ctx, 'stopping-is-not-cut', where, (
        (m.loc, [m.id]) for m in g.nodes if cancelled(m) and any(
            p in every | flush or g.nodes[p].kind == 'suspend' and any(
                i in every | flush for i in g.nodes[p].pred)
            for p in m.pred)), fg=g,
        msg='cancelling the runner cuts its end off')
    readiness(ctx, prog, g, M, is_kept, opq)


def closes_with(n, res):
    """the call makes the end of a resource the end of the group"""
    if n.data['callee'].split('.')[-1] != 'spawn' or \
            not self_attr_term(n.data['base'] or ('c', 0)):
        return False
    args = n.data['args']
    waits = [a for a in args if a[0] == 'r' and a[2][:1] == ('call',) and
             a[2][1].split('.')[-1] in ('wait_closing', 'wait_closed') and
             len(a[2]) > 2 and res(a[2][2])]
    ends = [a for a in args if a[0] in ('a', 'bm', 'm') and (
        a[1] if a[0] == 'bm' else a[2]).split('.')[-1] == 'close' and
        (a[0] == 'bm' and a[2] == ('p', 'self') or
         a[0] != 'bm' and (a[1] == ('p', 'self') or
                           a[1] == n.data['base']))]
    on = [a for a in args if a[0] == 'g' and a[1].endswith('call_on_done')]
    return bool(waits and ends and on)


def arguments(ctx, prog, g, M, opq, is_kept):
    """each part is given what the configuration says and the other parts"""
    def address(t, key):
        a = call_args(t, 'hat.drivers.tcp.Address') if t else None
        if a is None and t and t[0] == 'rec' and t[1].endswith('Address'):
            a = [v for _, v in t[2]]
        return a is not None and len(a) == 2 and \
            conf_is(a[0], key, 'host') and conf_is(a[1], key, 'port')

    bcb = set()
    res = []
    for n in M['backend']:
        a = n.data['args']
        mod = call_args(n.data['base'], INFO)
        ok = len(a) == 3 and conf_is(a[0], 'backend') and mod and \
            conf_is(mod[0], 'backend', 'module')
        if ok:
            for t, flag in ((a[1], False), (a[2], True)):
                f, pos, kws = part_of(prog, t)
                if f is None:
                    raise AnalysisError('backend callbacks are not found')
                bcb.add((f, pos, tuple(sorted(kws.items())), flag))
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'created-as-configured', 'backend', res, fg=g,
         msg='the backend is not the configured one')
    once(ctx, 'created-as-configured', 'eventer server', (
        (n.loc, None if address(g.arg(n, 'addr', 0), 'eventer_server') and
         is_kept('backend')(g.arg(n, 'backend') or ('c', 0)) and
         conf_is(g.arg(n, 'server_id'), 'server_id') and
         conf_is(g.arg(n, 'server_token'), 'server_token') else [n.id])
        for n in M['eventer']), fg=g,
        msg='the eventer server is not made as configured')
    once(ctx, 'created-as-configured', 'adminer server', (
        (n.loc, None if address(g.arg(n, 'addr', 0), 'adminer_server') and
         conf_is(g.arg(n, 'log_conf'), 'log') else [n.id])
        for n in M['adminer']), fg=g,
        msg='the adminer server is not made as configured')
    res, synced = [], set()
    for n in M['clients']:
        a = lambda k: given(ctx, n, CR, k) or ('c', 0)
        ok = conf_is(a('conf')) and is_kept('backend')(a('backend'))
        synced.add(a('synced_cb'))
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'created-as-configured', 'eventer client runner', res, fg=g,
         msg='the eventer client runner is not made as configured')
    res, cbs = [], {}
    for n in M['monitor']:
        a = lambda k: g.arg(n, k) or ('c', 0)
        d = a('data')
        ent = dict_entries(g, d) if d[0] == 'o' else {
            const_str(k): [(v, n)] for k, v in d[1]} if d[0] == 'dict' \
            else {}
        ok = address(g.arg(n, 'addr', 0), 'monitor_component') and \
            conf_is(a('name'), 'name') and \
            conf_is(a('group'), 'monitor_component', 'group') and all(
                ent.get(k) and all(conf_is(v, k) for v, _ in ent[k])
                for k in ('server_id', 'eventer_server', 'server_token'))
        res.append((n.loc, None if ok else [n.id]))
        for k in ('runner_cb', 'state_cb', 'close_req_cb'):
            f = callee_of(prog, a(k))
            if f is None:
                raise AnalysisError(f'{k} of {n.loc} is not a function of '
                                    f'the repository')
            cbs[k] = f
    once(ctx, 'created-as-configured', 'monitor component', res, fg=g,
         msg='the monitor component is not made as configured or does not '
             'tell the others how to connect to this server')
    mg = ctx.flow(cbs['runner_cb'], opq)
    reset = []

    def engines(fg, clients):
        for n in made(prog, fg)['engine']:
            a = lambda k: given(ctx, n, ER, k) or ('c', 0)
            reset.append(a('reset_monitor_ready_cb'))
            yield n, conf_is(a('conf')) and \
                is_kept('backend')(a('backend')) and \
                is_kept('eventer')(a('eventer_server')) and \
                (is_kept('clients')(a('eventer_client_runner')) if clients
                 else a('eventer_client_runner') == NONE or any(
                     is_kept('clients')(a('eventer_client_runner'))
                     for _ in [0]))
    once(ctx, 'created-as-configured', 'engine runner', (
        (n.loc, None if ok else [n.id]) for n, ok in engines(g, False)),
        fg=g, msg='the engine runner is not made of the own parts')
    where = short(mg.func.qual)
    news = list(engines(mg, True))
    ctx.need('engine runners made for the monitor', len(news))
    once(ctx, 'created-as-configured', where, (
        (n.loc, None if ok else [n.id]) for n, ok in news), fg=mg,
        msg='the engine runner is not made of the own parts')
    res = []
    attrs = {n.data['attr'] for n in g.kind('store') if unage(
        n.data['value']) in {unage(value_of(m)) for m in M['engine']}}
    for n, _ in news:
        v = unage(n.data['value'])
        st = lambda m: m.kind == 'store' and unage(m.data['value']) == v \
            and m.data['attr'] in attrs
        rt = lambda m: mg.is_return(m) and unage(m.data['value']) == v
        res.append((n.loc, mg.unfollowed(n, st, mg.is_end)))
        res.append((n.loc, mg.unfollowed(n, rt, lambda m: mg.is_end(m) and
                                         not rt(m), failure)))
    once(ctx, 'monitor-runs-the-engine', where, res, fg=mg,
         msg='the monitor does not get the engine runner the server uses')
    g.reset = reset
    g.cbs = cbs
    g.engine_attrs = attrs
    callbacks(ctx, prog, g, opq, bcb, synced, cbs, is_kept, attrs)


def skips(lits):
    return assume_block(lambda a, b: (
        a[0] == 'truthy' and not b or a[0] == 'none' and b) and lits(a[1]))


def callbacks(ctx, prog, g, opq, bcb, synced, cbs, is_kept, engine):
    throw = lambda m: m.kind in THROW
    # events of the backend
    for f, pos, kws, flag in sorted(bcb, key=lambda x: str(x[3])):
        fg = ctx.flow(f, opq)
        ps = [p for p in f.params if p != 'self']
        bound = dict(zip(ps, pos))
        bound.update(dict(kws))
        free = [p for p in ps if p not in bound]
        name = 'persisted' if flag else 'registered'
        where = f'{short(f.qual)} for {name} events'
        ids = {n.id for n in fg.kind('call') if n.data['callee'].split('.')[
            -1] == 'notify_events' and is_kept('eventer')(
                n.data['base'] or ('c', 0))}
        ctx.need(f'announcements of {name} events', len(ids))
        subst = lambda t: bound.get(t[1], t) if t and t[0] == 'p' else t
        infeasible = assume_block(lambda a, b: a[0] == 'truthy' and
                                  a[1][0] == 'p' and a[1][1] in bound and
                                  bool(bound[a[1][1]] == const(True)) != b)
        none = skips(is_kept('eventer'))
        res = [(f.loc, fg.unfollowed(
            fg.entry, lambda m: m.id in ids, fg.is_return, lambda m:
            throw(m) or none(m) or infeasible(m)))]
        for i in ids:
            n = fg.nodes[i]
            if fg.unheld(n, lambda a, b: a[0] == 'truthy' and a[1][0] == 'p'
                         and a[1][1] in bound and
                         (bound[a[1][1]] == const(True)) != b, set()) is None:
                continue
            b = n.data.get('bound') or {}
            ev = b.get('events') or fg.arg(n, 'events', 0)
            pe = b.get('persisted') or fg.arg(n, 'persisted', 1)
            ok = len(free) == 1 and ev == ('p', free[0]) and pe is not None \
                and subst(pe) == const(flag)
            res.append((n.loc, None if ok else [i]))
            if not (n.data['awaited'] or awaited(fg, n)):
                res.append((n.loc, [i]))
            par = fg.reach(n.succ)
            hit = [j for j in par if j in ids]
            res.append((n.loc, fg.path(par, hit[0]) if hit else None))
        once(ctx, 'backend-events-are-announced', where, res, fg=fg,
             msg=f'{name} events are not announced once as {name}')
    # synchronisation
    for t in synced:
        f = callee_of(prog, t)
        if f is None:
            raise AnalysisError('synced callback is not found')
        fg = ctx.flow(f, opq)
        ps = [('p', p) for p in f.params if p != 'self']
        mine = lambda t: self_attr_term(t) and t[2] in engine
        ids = {n.id for n in fg.kind('call') if n.data['callee'].split('.')[
            -1] == 'set_synced' and mine(n.data['base'] or ('c', 0))}
        ctx.need('synchronisation told', len(ids))
        none = skips(mine)
        exactly_one(ctx, fg, 'synchronisation-is-told', ids, fg.is_return,
                    lambda m: throw(m) or none(m),
                    'the engine is not told about synchronisation')
        once(ctx, 'synchronisation-as-told', short(f.qual), (
            (fg.nodes[i].loc, None if [x for x in fg.nodes[i].data['args']
                                       if x[0] == 'p' and x[1] != 'self'] +
             [v for _, v in fg.nodes[i].data['kws']] == ps or
             [fg.arg(fg.nodes[i], k) for k in (
                 'server_id', 'state', 'count')] == ps else [i])
            for i in ids), fg=fg, msg='something else is told')
    # close request
    fg = ctx.flow(cbs['close_req_cb'], opq)
    mine = lambda t: self_attr_term(t) and t[2] in engine
    ids = {n.id for n in fg.kind('call') if n.data['callee'].split('.')[
        -1] in ('async_close', 'close') and mine(n.data['base'] or ('c', 0))}
    none = skips(mine)
    ctx.need('close requests obeyed', len(ids))
    q = fg.unfollowed(fg.entry, lambda m: m.id in ids, fg.is_return,
                      lambda m: throw(m) or none(m))
    ctx.ob('close-request-closes-engine', short(fg.func.qual), q is None,
           fg.func.loc, 'the monitor asks to close and the engine runs on',
           fg.show_path(q) if q else None)
    # state
    fg = ctx.flow(cbs['state_cb'], opq)
    regs = [n for n in g.kind('call') if n.data['callee'] == '.register' and
            self_attr_term(n.data['base'] or ('c', 0)) and any(
                ends_with(a, 'set_monitor_state') for a in n.data['args'])]
    reg_attrs = {n.data['base'][2] for n in regs}
    direct = lambda n: n.data['callee'].split('.')[-1] == \
        'set_monitor_state' and is_kept('clients')(n.data['base'] or
                                                   ('c', 0))
    tells = {n.id for n in fg.kind('call') if direct(n) or
             n.data['callee'] == '.notify' and self_attr_term(
                 n.data['base'] or ('c', 0)) and
             n.data['base'][2] in reg_attrs}
    ctx.need('monitor states passed on', len(tells))
    none = skips(is_kept('clients'))
    st = ('p', fg.func.params[-1])
    res = [(fg.func.loc, fg.unfollowed(
        fg.entry, lambda m: m.id in tells, fg.is_return,
        lambda m: throw(m) or none(m)))]
    for i in tells:
        n = fg.nodes[i]
        res.append((n.loc, None if st in n.data['args'] or st in dict(
            n.data['kws']).values() else [i]))
    if regs:
        # registered before states may come
        for n in made(prog, g)['monitor']:
            res.append((n.loc, g.unpreceded(
                n, lambda m: m.id in {x.id for x in regs})))
    once(ctx, 'states-reach-the-client-runner', short(fg.func.qual), res,
         fg=fg, msg='a state of the monitor does not reach the eventer '
                    'client runner')
    first = {n.id for n in g.kind('call') if direct(n)}
    res = []
    for x in done_of(g, {n.id for n in made(prog, g)['monitor']}):
        res.append((x.loc, unmet(
            g, x, lambda m: m.id in first, lambda m: g.is_return(m) or
            m.kind == 'suspend', throw)))
    for i in first:
        n = g.nodes[i]
        a = [x for x in [g.arg(n, 'state', 0), *n.data['args']] if x]
        res.append((n.loc, None if any(
            x[0] == 'a' and x[2] == 'state' and is_kept('monitor')(x[1])
            for x in a) else [i]))
    once(ctx, 'first-state-reaches-the-client-runner', short(g.func.qual),
         res, fg=g, msg='the state known when connecting is not passed on')


def ends_with(t, name):
    """callable made of a method of the given name"""
    while t and t[0] == 'part':
        t = t[1]
    return bool(t) and (t[0] == 'bm' and t[1].endswith('.' + name) or
                        t[0] == 'a' and t[2] == name)


def readiness(ctx, prog, g, M, is_kept, opq):
    """ready after the start; between a reset request and ready again the
    blessing is waited out"""
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    sets = [n for n in g.kind('call') if n.data['callee'].split('.')[-1] ==
            'set_ready' and is_kept('monitor')(n.data['base'] or ('c', 0))]
    arg = lambda n: n.data['args'][-1] if n.data['args'] else dict(
        n.data['kws']).get('ready')
    live = steps(g, lambda n: n in sets)
    up = {n.id for n in sets if arg(n) == const(True)}
    down = {n.id for n in sets if arg(n) == const(False)}
    ctx.need('ready announcements', len(up))
    ctx.need('not ready announcements', len(down))
    res = [(n.loc, None if n.id in live and n.id in up | down else [n.id])
           for n in sets]
    reset, lost = set(), []
    for t in g.reset:
        e = sets_event(ctx, t)
        if e is None:
            lost.append(t)
        else:
            reset.add(unage(e))
    ctx.ob('reset-request-is-heard', where, not lost and len(reset) == 1,
           g.func.loc, 'a reset request of an engine does not set the event '
                       'the runner waits for')
    waits = {n.id for n in g.kind('call') if n.data['callee'].split('.')[
        -1] == 'wait' and n.data['base'] is not None and
        unage(n.data['base']) in reset}
    clears = {n.id for n in g.kind('call') if n.data['callee'].split('.')[
        -1] == 'clear' and n.data['base'] is not None and
        unage(n.data['base']) in reset}
    ctx.need('waits for reset requests', len(waits))
    created = done_of(g, {n.id for n in M['monitor']})
    for x in created:
        res.append((x.loc, unmet(
            g, x, lambda m: m.id in up, lambda m: m.id in waits or
            g.is_return(m) or 'create_future' in str(
                m.data.get('value'))[:300] and m.kind == 'suspend',
            lambda m: throw(m) or skips(is_kept('monitor'))(m))))
    once(ctx, 'ready-when-started', where, res, fg=g,
         msg='the monitor is not told that the server is ready')
    res, res2 = [], []
    for x in done_of(g, waits):
        par = ahead(g, x, lambda m: m.id in down or throw(m))
        hit = [i for i in par if i in up or i in waits or
               g.is_return(g.nodes[i])]
        res.append((x.loc, g.path(par, hit[0]) if hit else None))
    for i in waits:
        n = g.nodes[i]
        res.append((n.loc, g.unpreceded(n, lambda m: m.id in up)))
        # a request is waited for once: cleared between not ready and wait
        par = g.reach([j for j in n.succ if j not in clears],
                      block=lambda m: m.id in clears)
        hit = [j for j in par if j in waits]
        res2.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'reset-request-ends-ready', where, res, fg=g,
         msg='a reset request does not make the server not ready')
    once(ctx, 'one-reset-per-request', where, res2, fg=g,
         msg='a request is acted on more than once')
    # the wait
    res = []
    tos = []
    for n in g.kind('call'):
        if n.data['callee'].split('.')[-1] == 'wait_for' and \
                len(n.data['args']) + len(n.data['kws']) > 1:
            tos.append(n)
    ids = {n.id for n in tos}
    for i in down:
        for x in done_of(g, {i}):
            par = ahead(g, x, lambda m: m.id in ids or throw(m))
            hit = [j for j in par if j in up or j in waits or
                   g.is_return(g.nodes[j])]
            res.append((x.loc, g.path(par, hit[0]) if hit else None))
    fixed = [n for n in tos if not any(
        t[0] == 'a' and self_attr_term(t) and 'timeout' in t[2]
        for t in [*n.data['args'], *dict(n.data['kws']).values()])]
    res += [(n.loc, [n.id]) for n in fixed]
    once(ctx, 'blessing-is-waited-out', where, res, fg=g,
         msg='the server is ready again without waiting, for the configured '
             'time at most, until the blessing is taken back')
    res = []
    for i in down:
        for x in done_of(g, {i}):
            timeouts = lambda m: m.kind == 'throws' and 'TimeoutError' in \
                str(m.data['value'])
            res.append((x.loc, unmet(
                g, x, lambda m: m.id in up, lambda m: m.id in waits or
                g.is_end(m) and True, lambda m: throw(m) and
                not timeouts(m))))
    once(ctx, 'ready-again', where, res, fg=g,
         msg='the server does not become ready again after a reset request')
    blessing(ctx, g, tos, is_kept)


def blessing(ctx, g, tos, is_kept):
    where = short(g.func.qual) + ' waiting'
    tok = lambda t: t[0] == 'a' and t[2] == 'token' and t[1][0] == 'a' and \
        t[1][2] == 'blessing_res'
    info = lambda t: t[0] == 'a' and t[2] == 'info'
    free = lambda a, b: (a[0] == 'truthy' and not b or
                         a[0] == 'none' and b) and (
        tok(a[1]) or info(a[1]) or is_kept('monitor')(a[1]))
    held = lambda a, b: (a[0] == 'truthy' and b or
                         a[0] == 'none' and not b) and tok(a[1])
    ids = {n.id for n in tos}
    ups = {n.id for n in g.kind('call') if n.data['callee'].split('.')[
        -1] == 'set_ready'}
    res, res2 = [], []
    for n in tos:
        # goes on only when free, timed out or failed
        par = g.reach([n], block=lambda m: m.kind in THROW or
                      m.kind == 'assume' and free(m.data['atom'],
                                                  m.data['pol']))
        hit = [i for i in par if i in ups]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'waits-until-blessing-is-gone', where, res, fg=g,
         msg='the wait ends while the blessing is still there')
    # between a test and the wait no state is missed
    for m in g.kind('assume'):
        if not held(m.data['atom'], m.data['pol']):
            continue
        reg = lambda x: x.kind == 'call' and x.data['callee'] == \
            '.register' and self_attr_term(x.data['base'] or ('c', 0))
        res2.append((m.loc, g.unfollowed(
            m, reg, lambda x: x.kind == 'suspend' or g.is_end(x),
            lambda x: x.kind in THROW)))
    ctx.need('tests of the blessing', len(res2))
    once(ctx, 'no-state-is-missed', where, res2, fg=g,
         msg='the blessing may be taken back between the test and the wait '
             'for the next state')
