"""Event server: engine runner, eventer server and client wrappers."""

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .clients import self_attr_term
from .engine import before, before_since, is_rec, const_item
from .eventer_server2 import THROW

RUN = EV + 'server.engine_runner.'
SRV = EV + 'server.eventer_server.'
CRE = EV + 'server.engine.create_engine'
SET = SRV + 'EventerServer.set_status'
FLUSH = EV + 'common.backend.Backend.flush'
CLR = EV + 'server.eventer_client_runner.EventerClientRunner'


def outside(prog, *keep):
    """functions of the repository other than those of the given modules"""
    return {q for q in prog.functions if q.startswith(EV) and not any(
        q.startswith(k) for k in keep)}


def cancelled(m):
    return m.kind == 'throws' and 'CancelledError' in str(m.data['value'][1])


def failure(m):
    """a collaborator raises (cancellation aside)"""
    return m.kind == 'throws' and not cancelled(m)


def at_calls(fg, ids):
    """failures of the calls in ids"""
    def f(m):
        if not failure(m):
            return False
        for p in m.pred:
            q = fg.nodes[p]
            if p in ids or q.kind == 'suspend' and any(
                    i in ids for i in q.pred):
                return True
        return False
    return f


def awaited(fg, n):
    """nodes where the result of call n is waited for"""
    r = n.data['res']
    return [m for m in fg.kind('suspend') if same(m.data['value'], r) and (
        n.id in m.pred)]


def steps(fg, pred):
    """calls accepted by pred that are awaited on the spot: call ids"""
    return {n.id for n in fg.kind('call') if pred(n) and (
        n.data['awaited'] or awaited(fg, n))}


def spawned(ctx, entry, opq):
    """the functions an object runs from its constructor on"""
    fg = ctx.flow(entry, opq)
    return [f for f in passed_callables(ctx, fg, '.spawn')]


def status_arg(fg, n):
    s = fg.arg(n, 'status', 0 if n.data['fn'] is None else 1)
    return s[1].split('.')[-1] if s and s[0] == 'g' else None


def chain(ctx, fg, rule, where, starts, seq, ends, excuse, msgs):
    """every start is followed by the steps in order before an end"""
    cur = starts
    for (name, ids), msg in zip(seq, msgs):
        bad = None
        for n in cur:
            bad = bad or fg.unfollowed(n, lambda m: m.id in ids, ends, excuse)
        ctx.ob(rule, f'{where}.{name}', bad is None,
               cur[0].loc if cur else '', msg,
               fg.show_path(bad) if bad else None)
        nxt = {}
        for n in cur:
            for i in fg.reach(n.succ, block=excuse):
                if i in ids and any(j not in ids for j in
                                    fg.nodes[i].pred):
                    nxt[i] = fg.nodes[i]
        cur = list(nxt.values())


@check('C14')
def engine_runner(ctx):
    prog = ctx.prog
    opq = outside(prog, RUN)
    fs = spawned(ctx, RUN + 'EngineRunner.__init__', opq)
    ctx.need('runner loop', len(fs))
    fg = ctx.flow(fs[0], opq)
    where = short(fs[0].qual)
    creates = fg.calls(CRE)
    ctx.need('engine creations', len(creates))
    cset = {n.id for n in creates}
    runner = lambda t: t[0] == 'a' and 'client_runner' in t[2]
    active = lambda t: t[0] == 'a' and t[2] == 'remote_active' and \
        runner(t[1])
    inactive = lambda a, b: not b and a[0] == 'truthy' and (
        active(a[1]) or runner(a[1])) or b and a[0] == 'none' and \
        runner(a[1])
    norunner = lambda a, b: (a[0] == 'truthy' and not b or
                             a[0] == 'none' and b) and runner(a[1])
    tested = lambda m: m.kind == 'assume' and inactive(
        m.data['atom'], m.data['pol']) or any(
            norunner(a, b) for a, b in m.facts)
    res, res2, res3, res4, res5, res6 = [], [], [], [], [], []
    S = {}
    for n in fg.calls(SET):
        S.setdefault(status_arg(fg, n), set()).add(n.id)
        if status_arg(fg, n) is None:
            raise AnalysisError('status given to the server is unknown')
    live = {k: steps(fg, lambda n, v=v: n.id in v) for k, v in S.items()}
    for k, v in S.items():
        res6 += [(fg.nodes[i].loc, None if i in live[k] else [i]) for i in v]
    once(ctx, 'status-is-awaited', where, res6, fg=fg,
         msg='the runner goes on before the status was announced')
    start, oper = S.get('STARTING', set()), S.get('OPERATIONAL', set())
    stop, stand = live.get('STOPPING', set()), live.get('STANDBY', set())
    for n in creates:
        par = fg.reach([n], block=tested, back=True)
        hit = [i for i in par if i == 0 or i in cset and i != n.id]
        res.append((n.loc, fg.path(par, hit[0])[::-1] if hit else None))
        par = fg.reach([n], block=lambda m: m.id in start, back=True)
        hit = [i for i in par if i == 0 or i in cset and i != n.id or
               i in stop or i in stand or i in oper]
        res2.append((n.loc, fg.path(par, hit[0])[::-1] if hit else None))
        want = dict(backend='_backend', eventer_server='_eventer_server')
        ok = True
        for k, v in want.items():
            x = fg.arg(n, k)
            ok = ok and x is not None and self_attr_term(x) and v in x[2]
        for k in ('server_id', 'module_confs'):
            x = fg.arg(n, k)
            ok = ok and x is not None and const_item(
                x, {'module_confs': 'modules'}.get(k, k))
        res3.append((n.loc, None if ok else [n.id]))
    once(ctx, 'engine-only-while-remote-inactive', where, res, fg=fg,
         msg='an engine is created without waiting until no remote server '
             'is active')
    once(ctx, 'starting-before-creation', where, res2, fg=fg,
         msg='an engine is created while the status is not STARTING')
    once(ctx, 'engine-created-as-configured', where, res3, fg=fg,
         msg='the engine is created with other than the own backend, server, '
             'server id and modules')
    # the runner waits without losing a change
    reg = lambda x: x.kind == 'call' and x.data['callee'].endswith(
        'register_remote_active_cb')
    susp = lambda x: x.kind == 'suspend' or fg.is_end(x)
    exits_with = lambda x: False
    acts = [m for m in fg.kind('assume') if m.data['pol'] and
            m.data['atom'][0] == 'truthy' and active(m.data['atom'][1])]
    waits = []
    res = []
    for m in acts:
        q = fg.unfollowed(m, reg, susp, failure)
        if q:
            # listening already, for an event reset before the test
            q2 = before_since(fg, m, {fg.entry} | {
                x for x in fg.nodes if exits_with(x)}, {
                    x.id for x in fg.nodes if reg(x)})
            q = q if q2 or not reset_between(fg, m, susp) else None
        res.append((m.loc, q))
    once(ctx, 'waiting-sees-every-change', where, res, fg=fg,
         msg='the remote server may become inactive after the test and '
             'before the runner listens for the change')
    res = []
    for n in fg.kind('call'):
        if not n.data['callee'].endswith('register_remote_active_cb'):
            continue
        a = n.data['args'][-1] if n.data['args'] else (n.data['kws'] or [
            (0, ())])[0][1]
        ev = sets_event(ctx, a)
        q = fg.unfollowed(n, lambda m: m.kind == 'suspend' and (
            ev is None or waits_event(m.data['value'], ev)),
            susp, lambda x: failure(x) or tested(x))
        if a and a[0] == 'fn' and ev is None:
            q = [n.id]
        res.append((n.loc, q))
    ctx.need('waits for remote servers', len(res))
    cut = timeboxed(fg, lambda t: True)
    res += [(n.loc, [n.id]) for n in cut]
    once(ctx, 'waiting-is-for-the-change', where, res, fg=fg,
         msg='what is waited for is not set by the change')
    # operational with that engine
    res, res2 = [], []
    for n in fg.nodes:
        if n.id not in oper:
            continue
        e = fg.arg(n, 'engine', 1)
        ok = e is not None and any(same(e, c.data['res']) for c in creates)
        res.append((n.loc, None if ok else [n.id]))
        res2.append((n.loc, since(fg, n, cset, stop | stand)))
    ctx.need('OPERATIONAL announcements', len(res))
    once(ctx, 'operational-with-new-engine', where, res, fg=fg,
         msg='OPERATIONAL is announced with another engine than the one '
             'created')
    once(ctx, 'operational-after-creation', where, res2, fg=fg,
         msg='OPERATIONAL is announced before the engine was created')
    res = []
    for k, v in S.items():
        if k != 'OPERATIONAL':
            for i in v:
                e = fg.arg(fg.nodes[i], 'engine', 1)
                res.append((fg.nodes[i].loc, None if e == NONE else [i]))
    once(ctx, 'other-status-without-engine', where, res, fg=fg,
         msg='a status other than OPERATIONAL comes with an engine')
    end = lambda m: fg.is_end(m) or m.id in cset
    for n in creates:
        q = fg.unfollowed(n, lambda m: m.id in oper, lambda m:
                          end(m) and m is not n or m.kind == 'suspend' and
                          'asyncio.wait' in str(m.data['value'])[:99],
                          lambda m: m.kind in THROW)
        ctx.ob('operational-when-created', where, q is None, n.loc,
               'an engine runs without OPERATIONAL being announced',
               fg.show_path(q) if q else None)
    # restart requests
    rs = {unage(x[1]) for n in creates for x in [fg.arg(n, 'restart_cb')]
          if x and x[0] == 'a' and x[2] == 'set'}
    for n in creates:
        x = fg.arg(n, 'restart_cb')
        if x and x[0] in ('fn', 'bm'):
            e = sets_event(ctx, x)
            if e is not None:
                rs.add(unage(e))
    ctx.need('restart event', len(rs))
    clears = {n.id for n in fg.calls('.clear') if unage(
        n.data['base']) in rs}
    watch = [n for n in fg.kind('call', 'suspend') if any(
        x and x[0] in ('a', 'm', 'r') and waits_event(x, e)
        for e in rs for x in subterms(
            n.data.get('args') or n.data['value']
            if n.kind == 'call' and n.data.get('args') or
            n.kind == 'suspend' else ()) if isinstance(x, tuple))]
    ctx.need('places that wait for restart', len(watch))
    wset = {n.id for n in watch}
    waited = {n.id for n in fg.calls('asyncio.wait') if True}
    res, res2 = [], []
    for n in creates:
        res.append((n.loc, fg.unfollowed(
            n, lambda m: m.id in wset, lambda m: end(m) and m is not n,
            lambda m: m.kind in THROW)))
        par = fg.reach([n], block=lambda m: m.id in wset or m.id in stop)
        hit = [i for i in par if i in clears]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
        par = fg.reach(n.pred, block=lambda m: m.id in clears, back=True)
        hit = [i for i in par if i in wset]
        res2.append((n.loc, fg.path(par, hit[0])[::-1] if hit else None))
    for n in fg.calls('asyncio.wait'):
        k = dict(n.data['kws']).get('return_when')
        if any(has_wait(v) for a in n.data['args']
               for v, _ in elements(fg, n, a)):
            res.append((n.loc, None if k and 'FIRST_COMPLETED' in str(k)
                        else [n.id]))
    once(ctx, 'restart-request-is-seen', where, res, fg=fg,
         msg='a restart requested while the engine runs is not acted on')
    once(ctx, 'one-restart-per-request', where, res2, fg=fg,
         msg='a restart request is acted on again and again')
    # the engine ends the runner
    isopen = lambda a, b: a[0] == 'truthy' and a[1][0] == 'a' and (
        a[1][2] == 'is_open' and b or
        a[1][2] in ('is_closing', 'is_closed') and not b)
    res = []
    for n in creates:
        par = fg.reach([n], block=lambda m: m.kind in THROW or
                       m.kind == 'assume' and isopen(
                           m.data['atom'], m.data['pol']))
        hit = [i for i in par if i in cset and i != n.id and i not in (
            n.succ)]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
    once(ctx, 'closed-engine-ends-runner', where, res, fg=fg,
         msg='an engine that closed on its own is replaced')
    # stopping
    closes = steps(fg, lambda n: n.data['callee'] == '.async_close' and
                   self_attr_term(n.data['base']) or
                   n.data['callee'] == '.async_close' and
                   n.data['base'] is not None and call_args(
                       n.data['base'], CRE) is not None)
    noeng = assume_block(lambda a, b: (
        a[0] == 'truthy' and not b or a[0] == 'none' and b) and
        a[1][0] == 'a' and a[1][2] == '_engine')
    flush = steps(fg, lambda n: n.data['callee'] == FLUSH)
    cl2 = closes | {m.id for m in fg.nodes if noeng(m)}
    excuse = at_calls(fg, stop | closes | flush | stand)
    seq = [('stopping', stop), ('engine', cl2), ('flush', flush),
           ('standby', stand)]
    msgs = ['the runner ends or restarts without announcing STOPPING',
            'the engine is not closed and waited for after STOPPING',
            'the backend is not flushed after the engine was closed',
            'STANDBY is not announced after the flush']
    if not all(x for _, x in seq):
        for n_, x in seq:
            ctx.ob('stop-sequence', f'{where}.{n_}', bool(x), fs[0].loc,
                   'no such step')
        return
    nend = lambda m: fg.is_end(m) or m.id in cset
    for name, starts in (('restart', creates), ('end', [fg.entry])):
        ends = (lambda m: m.id in cset) if name == 'restart' else fg.is_end
        chain(ctx, fg, 'stop-sequence-' + name, where, starts, seq, ends,
              excuse, msgs)
    # STANDBY and STOPPING never with a running engine
    res = []
    for i in stand:
        for rule, ids in (('flush', flush), ('close', cl2)):
            par = fg.reach([i], block=lambda m: m.id in ids, back=True)
            hit = [j for j in par if j in stop or j in cset or j == 0]
            res.append((fg.nodes[i].loc,
                        fg.path(par, hit[0])[::-1] if hit else None))
    once(ctx, 'standby-after-flush', where, res, fg=fg,
         msg='STANDBY is announced before the engine was closed and its '
             'events flushed')
    once(ctx, 'stopping-is-not-cut', where, ((m.loc, [m.id]) for m in
         fg.nodes if cancelled(m) and final(fg, m, stop | closes | flush |
                                            stand)), fg=fg,
         msg='cancelling the runner cuts its final sequence off')
    closing = lambda m: m.kind == 'call' and m.data['callee'] == '.close' \
        and m.data['base'] == ('p', 'self')
    q = fg.unfollowed(fg.entry, closing, fg.is_end)
    ctx.ob('end-closes-runner', where, q is None, fs[0].loc,
           'the runner loop ends and the runner stays open',
           fg.show_path(q) if q else None)
    # synchronisation events
    f = prog.func(RUN + 'EngineRunner.set_synced')
    g = ctx.flow(f, opq)
    synced_events(ctx, g, short(f.qual), lambda n: True)


def final(fg, m, ids):
    """the cancellation hits a final step and ends the function"""
    src = [p for p in m.pred if p in ids or fg.nodes[p].kind == 'suspend' and
           any(i in ids for i in fg.nodes[p].pred)]
    if not src:
        return False
    par = fg.reach([m], block=lambda x: x.id in ids)
    return any(fg.nodes[i].kind == 'uncaught' for i in par)


def since(fg, n, starts, stale):
    """path to n from the entry or a stale node that meets no start"""
    par = fg.reach([n], block=lambda m: m.id in starts, back=True)
    hit = [i for i in par if i == 0 or i in stale]
    return fg.path(par, hit[0])[::-1] if hit else None


def sets_event(ctx, t):
    """event a callback sets"""
    if t and t[0] == 'a' and t[2] == 'set':
        return t[1]
    f = callee_of(ctx.prog, t)
    if f is None:
        return None
    g = ctx.flow(f, std_opaque(ctx.prog))
    for n in g.calls('.set'):
        b = n.data['base']
        if not g.unfollowed(g.entry, lambda m: m is n, g.is_return):
            return b if b[0] != 'fv' else b
    return None


def waits_event(t, ev):
    """t is the wait method of the event or its result"""
    for x in subterms(t):
        if x and x[0] == 'a' and x[2] == 'wait':
            b = x[1]
        elif x and x[0] == 'r' and x[2][:2] == ('call', '.wait'):
            b = x[2][2]
        elif x and x[0] == 'm' and x[2] == 'wait':
            b = x[1]
        else:
            continue
        if ev is None or unage(b) == unage(ev) or ev[0] in ('fv', 'p') or \
                'Event' in str(b):
            return True
    return False


def synced_events(ctx, g, where, _):
    """the event that tells how far synchronisation with a server is"""
    regs = [n for n in g.kind('call') if n.data['callee'].split('.')[-1] ==
            'register' and 'events' in str(n.data) or
            n.data['callee'] == '.register']
    ctx.need(f'registrations of {where}', len(regs))
    rid = {n.id for n in regs}
    closed = lambda m: m.kind == 'assume' and (
        m.data['atom'][0] == 'truthy' and not m.data['pol'] or
        m.data['atom'][0] == 'none' and m.data['pol'])
    q = g.unfollowed(g.entry, lambda m: m.id in rid, g.is_return,
                     lambda m: m.kind in THROW or closed(m) and (
                         m.data['atom'][1][0] == 'a' and (
                             'engine' in m.data['atom'][1][2] or
                             m.data['atom'][1][2] == 'is_open')))
    ctx.ob('synced-event-is-registered', where, q is None, g.func.loc,
           'the engine is open and gets no event',
           g.show_path(q) if q else None)
    res, res2 = [], []
    for n in regs:
        par = g.reach(n.succ)
        hit = [i for i in par if i in rid]
        res2.append((n.loc, g.path(par, hit[0]) if hit else None))
        for bad in synced_data(g, n):
            res.append((n.loc, bad))
    once(ctx, 'synced-event-once', where, res2, fg=g,
         msg='the event is registered twice')
    once(ctx, 'synced-event-data', where, res, fg=g,
         msg='the event does not tell the server, state and count given')


def synced_data(g, n, server=('p', 'server_id'), state=is_param('state'),
                count=is_param('count'), stop=None, fixed=None):
    evs = g.arg(n, 'events', 1 if n.data['callee'] == '.register' and len(
        n.data['args']) > 1 else 0)
    near = None if stop is None else set(g.reach([n], block=stop, back=True))
    els = [(v, m) for v, m in elements(g, n, evs)
           if near is None or m.id in near]
    if not els:
        yield [n.id]
    at = {m.id for _, m in els}
    for v, m in els:
        if m is not n:
            hit = [i for i in g.reach(m.succ, block=lambda x: x is n or
                                      stop is not None and stop(x))
                   if i in at and (n.id in g.reach([i]) if near is None else
                                   i in near)]
            yield g.path(g.reach(m.succ), hit[0]) if hit else None
        yield from synced_event(g, m, v, server, state, count, near, fixed)


def synced_event(g, n, v, server, state, count, near=None, fixed=None):
    if v[0] != 'rec' or not v[1].endswith('.RegisterEvent'):
        yield [n.id]
        return
    d = dict(v[2])
    ty = d['type']
    ok = ty[0] == 'tup' and len(ty[1]) == 4 and \
        const_str(ty[1][0]) == 'event' and const_str(ty[1][2]) == 'synced'
    if ok:
        a, b = ty[1][1], ty[1][3]
        ok = a[0] == 'op' and a[1] == 'str' and (
            const_item(a[2], 'server_id') or a[2][0] == 'a' and
            a[2][2] in ('_local_server_id', '_server_id'))
        ok = ok and b[0] == 'op' and b[1] == 'str' and (
            b[2] == server or b[2][0] == 'a' and
            b[2][2] == '_remote_server_id')
    ok = ok and d['source_timestamp'] == NONE
    yield None if ok else [n.id]
    pl = d['payload']
    ok = pl[0] == 'rec' and pl[1].endswith('.EventPayloadJson')
    if not ok:
        yield [n.id]
        return
    data = dict(pl[2])['data']
    ent = payload_entries(g, n, data)
    if ent and near is not None:
        ent = {k: [x for x in v if x[1].id in near] for k, v in ent.items()}
    if ent is None:
        yield [n.id]
        return
    st = ent.get('state', [])
    yield None if st and all(
        x[0] == 'a' and x[2] == 'name' and state(x[1]) or
        x[0] == 'g' and x[1].endswith('.name') and state(('g', x[1][:-5])) or
        fixed is not None and x == const(fixed)
        for x, _ in st) else [n.id]
    synced = lambda t: t[0] == 'g' and t[1].endswith('SyncedState.SYNCED')
    lit = eq_lit(state, synced)
    nlit = neg(lit)
    cs = ent.get('count', [])
    yield None if all(count(x) for x, _ in cs) else [n.id]
    if fixed is not None:
        yield None if bool(cs) == (fixed == 'SYNCED') else [n.id]
        return
    for x, m in cs:
        yield g.unheld(m, lit, set())
    # every way to the registration with SYNCED passes the count
    cid = {m.id for _, m in cs}
    par = g.reach([n], block=lambda m: m.id in cid or m.kind == 'assume' and
                  nlit(m.data['atom'], m.data['pol']) or any(
                      nlit(a, b) for a, b in m.facts), back=True)
    yield g.path(par, 0)[::-1] if 0 in par and 0 not in cid else None


def payload_entries(g, n, data):
    """dict given as payload: key -> [(value, node)]"""
    if data[0] == 'o':
        r = dict_entries(g, data)
        return r or None
    if data[0] == 'dict':
        return {const_str(k): [(v, n)] for k, v in data[1]}
    return None


def has_wait(t):
    return any(x and x[0] == 'a' and x[2] in ('wait', 'wait_closing',
                                              'wait_closed')
               for x in subterms(t) if isinstance(x, tuple))


def reset_between(fg, m, susp):
    """from the test at m on, the event waited for is cleared only without a
    suspension in between"""
    par = fg.reach([m], block=lambda x: x.kind == 'suspend')
    if any(fg.nodes[i].kind == 'call' and fg.nodes[i].data['callee'] ==
           '.clear' for i in par):
        return True
    # or it is cleared before the test, again without suspension
    par = fg.reach([m], block=lambda x: x.kind == 'suspend', back=True)
    return any(fg.nodes[i].kind == 'call' and fg.nodes[i].data['callee'] in (
        '.clear', 'asyncio.Event') for i in par)


# eventer server ------------------------------------------------------------

def kwargs_callables(ctx, fg, call, names):
    """functions given to a call as keyword arguments"""
    r = {}
    for n in call:
        for k in names:
            t = fg.arg(n, k)
            f = callee_of(ctx.prog, t) if t else None
            if f is None:
                raise AnalysisError(f'{k} of {n.loc} is not a function of '
                                    f'the repository')
            r[k] = f
    return r


def exactly_one(ctx, fg, rule, ids, ends, excuse, msg):
    """every way to an end passes one of ids, none passes two, and what they
    start is awaited"""
    where = short(fg.func.qual)
    q = fg.unfollowed(fg.entry, lambda m: m.id in ids, ends, excuse)
    ctx.ob(rule, where, q is None, fg.func.loc, msg,
           fg.show_path(q) if q else None)
    res = []
    for i in ids:
        n = fg.nodes[i]
        par = fg.reach(n.succ)
        hit = [j for j in par if j in ids]
        res.append((n.loc, fg.path(par, hit[0]) if hit else None))
        if not (n.data['awaited'] or awaited(fg, n)):
            res.append((n.loc, [i]))
    once(ctx, rule + '-once', where, res, fg=fg,
         msg='it happens twice or is not waited for')


def always(fg, nodes, lit):
    """path from the entry to one of nodes on which lit was not established"""
    for n in nodes:
        q = fg.unheld(n, lit, set())
        if q:
            return q
    return None


@check('C15')
def eventer_server(ctx):
    prog = ctx.prog
    opq = outside(prog, SRV)
    cg = ctx.flow(SRV + 'create_eventer_server', opq)
    lst = cg.calls(EV + 'eventer.server.listen')
    ctx.need('listening server', len(lst))
    cbs = kwargs_callables(ctx, cg, lst, (
        'connected_cb', 'disconnected_cb', 'register_cb', 'query_cb'))
    fields = {}
    for n in cg.kind('store'):
        v = n.data['value']
        if v[0] == 'p':
            fields[v[1]] = n.data['attr']
    for k in ('backend', 'server_id', 'server_token'):
        ctx.need(f'{k} kept', int(k in fields))
    once(ctx, 'listens-on-given-address', short(cg.func.qual), (
        (n.loc, None if cg.arg(n, 'addr', 0) == ('p', 'addr') else [n.id])
        for n in lst), fg=cg, msg='the server listens somewhere else')
    mine = lambda k: (lambda t: t == ('p', 'self') and False or
                      self_attr_term(t) and t[2] == fields[k])
    eng_attr = engine_attr(ctx, opq)
    eng = lambda t: self_attr_term(t) and t[2] == eng_attr
    noeng = lambda a, b: (a[0] == 'none' and b or a[0] == 'truthy' and
                          not b) and eng(a[1])
    closed = lambda a, b: noeng(a, b) or a[0] == 'truthy' and \
        a[1][0] == 'a' and eng(a[1][1]) and (
            a[1][2] == 'is_open' and not b or
            a[1][2] in ('is_closing', 'is_closed') and b)
    # status
    g = ctx.flow(SRV + 'EventerServer.set_status', opq)
    where = short(g.func.qual)
    st, en = [('p', x) for x in g.func.params[1:3]]
    sets = [n for n in g.kind('call') if n.data['callee'].endswith(
        '.set_status')]
    sid = {n.id for n in sets}
    throw = lambda m: m.kind in THROW
    exactly_one(ctx, g, 'status-is-announced', sid, g.is_return, throw,
                'the status is taken and clients are not told')
    once(ctx, 'given-status-announced', where, (
        (n.loc, None if g.arg(n, 'status', 0) == st else [n.id])
        for n in sets), fg=g, msg='another status is announced')
    oper = lambda t: t[0] == 'g' and t[1].endswith('Status.OPERATIONAL')
    isop = eq_lit(lambda t: t == st, oper)
    has = lambda a, b: a[1] == en and (a[0] == 'none' and not b or
                                       a[0] == 'truthy' and b)
    hasnt = lambda a, b: a[1] == en and (a[0] == 'none' and b or
                                         a[0] == 'truthy' and not b)
    effects = sets + [n for n in g.kind('store')
                      if n.data['attr'] == eng_attr]
    res = []
    for n in effects + [m for m in g.nodes if g.is_return(m)]:
        # OPERATIONAL together with an engine, or neither
        q = None
        for l1, l2 in ((isop, hasnt), (neg(isop), has)):
            # no path with l1 and l2 both possible
            ok1 = g.unheld(n, neg(l1), set()) is None
            ok2 = g.unheld(n, neg(l2), set()) is None
            if not ok1 and not ok2:
                q = q or both(g, n, neg(l1), neg(l2))
        res.append((n.loc, q))
    once(ctx, 'engine-exactly-when-operational', where, res, fg=g,
         msg='a status is accepted together with a wrong engine')
    stores = [n for n in g.kind('store') if n.data['attr'] == eng_attr]
    res = [(n.loc, None if n.data['value'] == en else [n.id])
           for n in stores]
    bad = before(g, sets, lambda m: m in stores)
    res.append((g.func.loc, bad))
    once(ctx, 'engine-known-before-status', where, res, fg=g,
         msg='clients are told the status before the engine behind it is '
             'known')
    others = [q for q, f in prog.functions.items() if q.startswith(SRV) and
              f is not g.func and f is not cg.func and writes(f, eng_attr)]
    ctx.ob('engine-set-by-status-only', where, not others, g.func.loc,
           f'the engine is changed in {others}')
    # notifications
    g = ctx.flow(SRV + 'EventerServer.notify_events', opq)
    f = g.func
    calls = [n for n in g.kind('call') if n.data['callee'].endswith(
        '.notify_events')]
    exactly_one(ctx, g, 'events-are-notified', {n.id for n in calls},
                g.is_return, throw, 'events are not passed on')
    res = []
    for n in calls:
        for k, i in (('events', 1), ('persisted', 2), ('with_ack', 3)):
            res.append((n.loc, None if seq_base(g.arg(n, k) or NONE) == (
                'p', f.params[i]) else [n.id]))
    once(ctx, 'notified-as-given', short(f.qual), res, fg=g,
         msg='clients are notified of something else')
    # connections
    for k, status in (('connected_cb', 'CONNECTED'),
                      ('disconnected_cb', 'DISCONNECTED')):
        f = cbs[k]
        g = ctx.flow(f, opq)
        where = short(f.qual)
        info = ('p', f.params[1])
        regs = [n for n in g.kind('call') if n.data['callee'].endswith(
            '.register')]
        exc = lambda m: m.kind == 'raise' or failure(m) or \
            assume_block(closed)(m)
        exactly_one(ctx, g, f'{status.lower()}-event', {n.id for n in regs},
                    g.is_return, exc, 'the engine is running and gets no '
                    'event of the client')
        res = []
        for n in regs:
            res.append((n.loc, None if client_source(
                g.arg(n, 'source', 0), info) and eng(n.data['base'])
                else [n.id]))
            els = [v for v, _ in elements(g, n, g.arg(n, 'events', 1))]
            ok = len({unage(v) for v in els}) == 1 and client_event(
                els[0], status, info, mine('server_id'))
            res.append((n.loc, None if ok else [n.id]))
        once(ctx, f'{status.lower()}-event-data', where, res, fg=g,
             msg='the event does not tell the client, or has another source')
        res = [(n.loc, always(g, [n], lambda a, b: (
            a[0] == 'none' and not b or a[0] == 'truthy' and b) and
            eng(a[1]))) for n in regs]
        once(ctx, f'{status.lower()}-event-with-engine', where, res, fg=g,
             msg='without an engine the client is dropped')
        if k != 'connected_cb':
            continue
        tok = lambda t: t == ('a', info, 'client_token', None)
        good = any_lit(none_lit(tok), eq_lit(tok, mine('server_token')))
        res = []
        for n in regs + [m for m in g.nodes if g.is_return(m)]:
            res.append((n.loc, g.unheld(n, good, set())))
        once(ctx, 'token-is-checked', where, res, fg=g,
             msg='a client with a wrong token is accepted')
        bad = [n for n in g.kind('raise') if not g.unheld(
            n, good, set())]
        res = []
        for n in g.kind('raise'):
            res.append((n.loc, None if g.unheld(n, good, set()) else [n.id]))
        res += [(m.loc, g.unheld(m, neg_all(tok, mine('server_token')),
                                 set())) for m in g.kind('raise')]
        once(ctx, 'right-token-is-accepted', where, res, fg=g,
             msg='a client without or with the right token is refused')
    # requests
    f = cbs['register_cb']
    g = ctx.flow(f, opq)
    where = short(f.qual)
    info, evs = ('p', f.params[1]), ('p', f.params[2])
    regs = [n for n in g.kind('call') if n.data['callee'].endswith(
        '.register')]
    exactly_one(ctx, g, 'request-to-engine', {n.id for n in regs},
                g.is_return, lambda m: throw(m) or assume_block(noeng)(m),
                'the request does not get to the engine')
    res = []
    for n in regs:
        ok = eng(n.data['base']) and client_source(
            g.arg(n, 'source', 0), info) and seq_base(
                g.arg(n, 'events', 1)) == evs
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'request-as-given', where, res, fg=g,
         msg='the engine gets another request than the client made')
    res = []
    for m in g.nodes:
        if not g.is_return(m):
            continue
        v = m.data['value']
        if v == NONE or v is None:
            res.append((m.loc, None if g.unheld(m, noeng, set()) is None or
                        g.unheld(m, none_lit(lambda t: any(
                            same(t, n.data['res']) for n in regs)), set())
                        is None else [m.id]))
        else:
            ok = any(same(seq_base(v), n.data['res']) for n in regs)
            res.append((m.loc, None if ok else [m.id]))
    once(ctx, 'client-gets-engine-result', where, res, fg=g,
         msg='the client gets another result than the engine gave')
    f = cbs['query_cb']
    g = ctx.flow(f, opq)
    where = short(f.qual)
    qs = [n for n in g.kind('call') if n.data['callee'].endswith('.query')]
    exactly_one(ctx, g, 'query-to-backend', {n.id for n in qs}, g.is_return,
                throw, 'the query does not get to the backend')
    res = []
    for n in qs:
        ok = mine('backend')(n.data['base']) and \
            g.arg(n, 'params', 0) == ('p', f.params[2])
        res.append((n.loc, None if ok else [n.id]))
    for m in g.nodes:
        if g.is_return(m):
            v = m.data['value']
            ok = v is not None and any(same(v, n.data['res']) for n in qs)
            res.append((m.loc, None if ok else [m.id]))
    once(ctx, 'client-gets-backend-result', where, res, fg=g,
         msg='the client gets something else than the backend\'s result of '
             'its own query')
    # names
    f = prog.func(SRV + 'EventerServer.get_client_names')
    g = ctx.flow(f, opq)
    where = short(f.qual)
    isi = lambda t: t[0] == 'el' and call_args(
        seq_base(t[1]), 'get_conn_infos') is not None
    res = []
    good = lambda t, i: t[0] == 'tup' and len(t[1]) == 2 and client_source(
        t[1][0], i) and t[1][1] == ('a', i, 'client_name', None)
    its = [it for it in g.kind('iter') if isi(it.data['value'])]
    ctx.need('walks over connections', len(its))
    for it in its:
        i = it.data['value']
        res.append((it.loc, g.skipped(
            it, lambda m: m.kind == 'yield' and good(m.data['value'], i) or
            m.kind == 'add' and good(m.data['value'], i),
            lambda a, b: False) or g.early(it)))
    for m in g.kind('yield'):
        v = m.data['value']
        if v is not None:
            ok = v[0] == 'tup' and v[1] and v[1][1][0] == 'a' and good(
                v, v[1][1][1]) or v[0] == 'o' or v[0] == 'el'
            res.append((m.loc, None if ok else [m.id]))
    once(ctx, 'names-of-all-clients', where, res, fg=g,
         msg='a client is left out or told with a wrong source or name')


def both(g, n, l1, l2):
    """path from the entry to n with neither literal established"""
    par = {n.id: None}
    todo = [n.id]
    if any(l(a, b) for l in (l1, l2) for a, b in n.facts):
        return None
    while todo:
        i = todo.pop(0)
        m = g.nodes[i]
        if i != n.id and any(l(a, b) for l in (l1, l2) for a, b in m.facts):
            continue
        if m.kind == 'assume' and (l1(m.data['atom'], m.data['pol']) or
                                   l2(m.data['atom'], m.data['pol'])):
            continue
        if not m.pred:
            return g.path(par, i)[::-1]
        for j in m.pred:
            if j not in par:
                par[j] = i
                todo.append(j)
    return None


def neg_all(tok, mine):
    """the given token is known to differ"""
    e = eq_lit(tok, mine)
    return lambda a, b: e(a, not b)


def engine_attr(ctx, opq):
    g = ctx.flow(SRV + 'EventerServer.set_status', opq)
    r = {n.data['attr'] for n in g.kind('store')
         if n.data['value'] == ('p', g.func.params[2])}
    ctx.need('engine kept', len(r))
    return r.pop()


def writes(f, attr):
    import ast
    return any(isinstance(n, ast.Attribute) and n.attr == attr and
               isinstance(n.ctx, (ast.Store, ast.Del))
               for n in ast.walk(f.node))


def client_source(t, info):
    if t is None or not is_rec(t, 'Source', type=('g', 'SourceType.EVENTER')):
        return False
    return dict(t[2])['id'] == ('a', info, 'id', None)


def client_event(t, status, info, sid):
    if not (t[0] == 'rec' and t[1].endswith('.RegisterEvent')):
        return False
    d = dict(t[2])
    ty = d['type']
    if ty[0] != 'tup' or len(ty[1]) != 4:
        return False
    a, b, c, e = ty[1]
    pl = d['payload']
    return const_str(a) == 'event' and const_str(c) == 'eventer' and \
        b[0] == 'op' and b[1] == 'str' and sid(b[2]) and \
        e == ('a', info, 'client_name', None) and \
        d['source_timestamp'] == NONE and pl[0] == 'rec' and \
        pl[1].endswith('.EventPayloadJson') and \
        const_str(dict(pl[2])['data']) == status
