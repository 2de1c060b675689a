"""Engine: event ids, request resolution, module sessions, lifecycle."""

import ast

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .clients import loop_of, self_attr_term
from .eventer_server import carries
from .eventer_server2 import THROW

ENG = EV + 'server.engine.'
EVENT = EV + 'common.common.Event'
EVENTID = EV + 'common.common.EventId'
NOW = EV + 'common.now'


def attrs_used(f):
    r = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute):
            r.add(n.attr)
        elif isinstance(n, ast.Name):
            r.add(n.id)
    return r


class Parts:
    """functions and graphs of the engine"""

    def __init__(self, ctx):
        prog = self.prog = ctx.prog
        self.ctx = ctx
        self.opq = std_opaque(prog)
        self.loop, self.create = loop_of(ctx, ENG + 'create_engine')
        mod = [f for q, f in prog.functions.items()
               if q.startswith(ENG) and f.parent is None]
        used = {f: attrs_used(f) for f in mod}
        # functions that make events
        fac = [f for f in mod if f is not self.loop and any(
            isinstance(n, ast.Call) and prog.resolve_dotted(
                f.module, n.func) == EVENT for n in ast.walk(f.node))]
        # functions that run the modules
        direct = {f for f in mod if used[f] & {
            'on_session_start', 'on_session_stop', 'process'}}
        top = set(direct)
        while True:
            up = {f for f in mod if f not in top and f is not self.loop and
                  'register' not in used[f] and
                  f is not self.create.func and
                  any(g.name in used[f] for g in top)}
            if not up:
                break
            top |= up
        outer = [f for f in top if any(
            f.name in used[g] for g in mod if g not in top)]
        self.factories = [f for f in fac if f not in top]
        ctx.need('functions that run the modules', len(top))
        fq = {f.qual for f in self.factories}
        if self.loop not in top and len(outer) == 1 and \
                'register' not in used[outer[0]]:
            self.process = outer[0]
            self.lg = ctx.flow(self.loop, self.opq | {self.process.qual} | fq)
            self.pg = ctx.flow(self.process, self.opq | fq)
        else:
            self.process = None
            self.lg = self.pg = ctx.flow(self.loop, self.opq | fq)
        self.queue = self._queue()
        self.id_attr = self._id_attr()
        self.table = self._table()

    def _queue(self):
        """attribute holding the request queue"""
        f = self.prog.func(ENG + 'Engine.register')
        self.rg = self.ctx.flow(f, self.opq)
        r = {n.data['base'][2] for n in self.rg.calls('.put', '.put_nowait')
             if self_attr_term(n.data['base'])}
        self.ctx.need('request queue', len(r))
        return r.pop()

    def _id_attr(self):
        r = []
        for n in self.create.kind('store'):
            v = n.data['value']
            if call_args(v, 'get_last_event_id') is not None:
                r.append(n)
        self.ctx.need('initial event id stores', len(r))
        self.id_inits = r
        return r[0].data['attr']

    def _table(self):
        """attribute holding the modules"""
        r = set()
        for n in self.pg.kind('call'):
            if n.data['callee'] in ('.process', '.on_session_start'):
                t = head_of(n.data['base'])
                if t[0] == 'el':
                    t = seq_base(t[1])
                    if t[0] == 'a':
                        r.add(t[2])
        self.ctx.need('module table', len(r))
        if len(r) > 1:
            raise AnalysisError('modules are kept in several places')
        return r.pop()

    # request parts in the process graph

    def got(self, t):
        """a request taken from the queue"""
        if t[0] == 'r' and t[2][0] == 'await':
            m = t[2][1]
            return m[0] == 'm' and m[2] == 'get' and self.is_queue(m[1])
        if t[0] == 'el' and self.is_queue(t[1]):
            return True
        a = call_args(t, 'get_nowait')
        if a is None:
            a = call_args(t, 'get')
        return a is not None and len(a) > 0 and self.is_queue(a[0])

    def takes(self, m):
        """node that takes the next request from the queue"""
        return m.kind == 'suspend' and self.got(
            ('r', ('L',), ('await', m.data['value']))) or \
            m.kind == 'iter' and self.got(m.data['value'])

    def is_queue(self, t):
        return t[0] == 'a' and t[2] == self.queue or t == (
            'a', ('p', 'self'), self.queue, None)

    def req(self, i):
        """predicate: component i of the request that is processed"""
        def f(t):
            if self.process is not None:
                ps = self.roles.get(i)
                return t == ('p', ps)
            return self.part(t, i)
        return f

    def part(self, t, i):
        return t[0] == 'i' and t[2] == const(i) and self.got(t[1])

    @property
    def roles(self):
        """request component -> parameter of the process function"""
        r = {}
        for n in self.proc_calls():
            for k, v in (n.data['bound'] or {}).items():
                if v[0] == 'i' and self.got(v[1]):
                    r[v[2][2]] = k
        return r

    def proc_calls(self):
        return [n for n in self.lg.kind('call')
                if n.data['fn'] is self.process and self.process]

    # events

    def made(self, g):
        """nodes that make an event: [(node, term)]"""
        r = []
        for n in g.kind('call'):
            if n.data['fn'] in self.factories:
                r.append((n, n.data['res']))
        for n in g.kind('new'):
            if n.data['cls'] == EVENT and n.data.get('value'):
                r.append((n, n.data['value']))
        return r

    def origin(self, t):
        """register event and timestamp an event term was made from"""
        if t[0] == 'r' and t[2][0] == 'call':
            f = self.prog.functions.get(t[2][1])
            if f in self.factories:
                return self._fac_roles(f, t)
        if t[0] == 'rec' and t[1] == EVENT:
            d = dict(t[2])
            ty = d['type']
            if ty[0] == 'a' and ty[2] == 'type':
                return ty[1], d['timestamp']
        return None

    def _fac_roles(self, f, t):
        args = list(t[2][2:])
        ps = f.params
        b = {}
        i = 0
        for x in args:
            if x[0] == 'kwarg':
                b[x[1]] = x[2]
            else:
                b[ps[i]] = x
                i += 1
        g = self.ctx.flow(f, self.opq)
        for n in g.kind('new'):
            if n.data['cls'] == EVENT and n.data.get('value'):
                d = dict(n.data['value'][2])
                ty, ts = d['type'], d['timestamp']
                if ty[0] == 'a' and ty[1][0] == 'p':
                    re = b.get(ty[1][1])
                    st = b.get(ts[1]) if ts[0] == 'p' else ts
                    if re is not None and st is not None:
                        return re, st
        return None

    def is_made(self, t):
        return self.origin(t) is not None

    def module_of(self, t):
        """module table entry a module value comes from"""
        h = head_of(t)
        if h[0] == 'el' and self.is_table(h[1]) and h != t:
            return h
        return None

    def is_table(self, t):
        t = seq_base(t)
        return t[0] == 'a' and t[2] == self.table


def parts(ctx):
    p = getattr(ctx, '_engine', None)
    if p is None:
        p = ctx._engine = Parts(ctx)
    return p


def before(fg, targets, guard):
    """path entry -> one of the targets that meets no guard, or None"""
    par = fg.reach(targets, block=guard, back=True)
    if 0 in par:
        return fg.path(par, 0)[::-1]
    return None


def lin_step(new, old):
    """new = old + c for a constant c >= 1"""
    return new[0] == 'op' and new[1] == 'lin' and new[2] >= 1 and \
        isinstance(new[2], int) and len(new[3]) == 1 and \
        new[3][0][1] == 1 and old(new[3][0][0])


def id_field(attr, name):
    def f(t):
        return t[0] == 'a' and t[2] == name and t[1][0] == 'a' and \
            t[1][2] == attr
    return f


@check('C10')
def ids(ctx):
    nothing_bounded(ctx, [EV + 'server.engine'],
                    'events of a session are forgotten when there are many')
    p = parts(ctx)
    prog = ctx.prog
    # the start: continue after the last persisted id of this server
    g = p.create
    sid = is_param('server_id')
    res = []
    for n in p.id_inits:
        a = call_args(n.data['value'], 'get_last_event_id')
        ok = any(x == ('p', g.func.params[3]) or sid(x) for x in a)
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'ids-continue-persisted', short(g.func.qual), res, fg=g,
         msg='the engine does not continue from the last id the backend '
             'knows for its own server id')
    iid = {n.id for n in p.id_inits}
    starts = [n for n in g.kind('call') if n.data['callee'].endswith(
        '.spawn') and n.data['args'] and callee_of(
            prog, n.data['args'][0]) is p.loop]
    ctx.need('loop starts', len(starts))
    bad = before(g, starts, lambda m: m.id in iid)
    ctx.ob('ids-continue-persisted', short(g.func.qual) + '.before-loop',
           bad is None, g.func.loc, 'the loop starts without a known last id',
           g.show_path(bad) if bad else None)
    # every later change moves forward
    writers = [f for q, f in prog.functions.items()
               if q.startswith(EV) and f is not g.func and any(
                   isinstance(n, ast.Attribute) and n.attr == p.id_attr and
                   isinstance(n.ctx, (ast.Store, ast.Del))
                   for n in ast.walk(f.node))
               and f.module.name == p.loop.module.name]
    ctx.need('functions that change the last id', len(writers))
    bump, step = {}, {}
    seqs = []
    one = lambda t, old: lin_step(t, old) and t[2] == 1
    server = id_field(p.id_attr, 'server')
    sess = id_field(p.id_attr, 'session')
    inst = id_field(p.id_attr, 'instance')
    graphs = [ctx.flow(f, p.opq) if f not in (p.process, p.loop) else
              (p.pg if f is p.process else p.lg) for f in writers]
    graphs += [x for x in (p.pg, p.lg) if x not in graphs]
    for fg in graphs:
        res = []
        for n in fg.kind('store'):
            if n.data['attr'] != p.id_attr:
                continue
            v = n.data['value']
            d = dict(v[2]) if v[0] == 'rec' and v[1] == EVENTID else {}
            ok = False
            if d and server(d['server']):
                if lin_step(d['session'], sess) and (
                        d['instance'][0] == 'c' and d['instance'][2] >= 0 or
                        inst(d['instance']) or
                        lin_step(d['instance'], inst)):
                    ok = True
                    bump.setdefault(fg, set()).add(n.id)
                    seqs.append((fg, n, one(d['session'], sess) and d[
                        'instance'] in (const(0), const(1)) and not any(
                            m.data['cls'] == EVENT and dict(
                                m.data['value'][2])['id'] == v and d[
                                    'instance'] == const(0)
                            for m in fg.kind('new'))))
                elif sess(d['session']) and lin_step(d['instance'], inst):
                    ok = True
                    seqs.append((fg, n, one(d['instance'], inst)))
                step.setdefault(fg, set()).add(n.id)
            res.append((n.loc, None if ok else [n.id]))
        once(ctx, 'last-id-only-grows', short(fg.func.qual), res, fg=fg,
             msg='the last id changes to something that is not the next '
                 'instance of the session or the start of a later session of '
                 'the same server')
    for fg in graphs:
        once(ctx, 'ids-are-sequential', short(fg.func.qual), (
            (n.loc, None if ok else [n.id]) for g2, n, ok in seqs
            if g2 is fg), fg=fg,
            msg='sessions and instances are not numbered one by one, '
                'instances from one in each session')
    ctx.need('id changes', sum(len(x) for x in step.values()))
    # every event gets the id just reserved for it
    used = 0
    facs = [ctx.flow(f, p.opq) for f in p.factories]
    for fg in facs + [p.pg] + ([p.lg] if p.lg is not p.pg else []):
        fresh, twice, data = [], [], []
        news = [n for n in fg.kind('new') if n.data['cls'] == EVENT]
        nid = {n.id for n in news}
        is_step = lambda m: m.kind == 'store' and m.data['attr'] == p.id_attr
        for n in news:
            used += 1
            d = dict(n.data['value'][2])
            par = fg.reach([n], block=lambda m: is_step(m) and
                           m.data['value'] == d['id'], back=True)
            bad = None
            if 0 in par:
                bad = fg.path(par, 0)[::-1]
            for i in par:
                m = fg.nodes[i]
                if m.kind == 'suspend' or is_step(m):
                    bad = fg.path(par, i)[::-1]
            fresh.append((n.loc, bad))
            par = fg.reach(n.succ, block=is_step)
            hit = [i for i in par if i in nid]
            twice.append((n.loc, fg.path(par, hit[0]) if hit else None))
            ty = d['type']
            ok = ty[0] == 'a' and ty[2] == 'type'
            if ok:
                for k in ('source_timestamp', 'payload'):
                    ok = ok and d[k][0] == 'a' and d[k][2] == k and \
                        d[k][1] == ty[1]
            data.append((n.loc, None if ok else [n.id]))
        w = short(fg.func.qual)
        once(ctx, 'event-gets-reserved-id', w, fresh, fg=fg,
             msg='an event is made with an id that was not just reserved '
                 'for it')
        once(ctx, 'id-used-once', w, twice, fg=fg,
             msg='two events are made with one reserved id')
        once(ctx, 'event-keeps-registered-data', w, data, fg=fg,
             msg='an event differs from what was registered')
    ctx.need('event constructions', used)
    # sessions
    for fg in (p.pg, p.lg):
        w = short(fg.func.qual)
        made = p.made(fg)
        b = bump.get(fg, set())
        isb = lambda m: m.id in b
        bad = before(fg, [n for n, _ in made], isb) if made else None
        ctx.ob('session-starts-before-events', w, bad is None, fg.func.loc,
               'events are made without starting a session of their own',
               fg.show_path(bad) if bad else None)
        mid = {n.id for n, _ in made}
        res = []
        if fg is p.lg:
            for n in (p.proc_calls() or fg.calls('.on_session_stop')):
                par = fg.reach(n.succ, block=isb)
                hit = [i for i in par if i in mid]
                res.append((n.loc, fg.path(par, hit[0]) if hit else None))
            once(ctx, 'one-request-per-session', w, res, fg=fg,
                 msg='events are added to the session of an earlier request')
        if fg is p.pg:
            res = []
            nxt = p.takes
            for i in b:
                par = fg.reach(fg.nodes[i].succ, block=nxt)
                hit = [j for j in par if j in b and p.process]
                res.append((fg.nodes[i].loc,
                            fg.path(par, hit[0]) if hit else None))
            once(ctx, 'one-session-per-request', w, res, fg=fg,
                 msg='a request is spread over several sessions')
        # one timestamp
        res = []
        stamps = {}
        for n, t in made:
            o = p.origin(t)
            ok = o is not None and call_args(o[1], 'now') is not None
            res.append((n.loc, None if ok else [n.id]))
            if ok:
                stamps.setdefault(unage(o[1]), []).append(n)
        once(ctx, 'event-time-is-session-time', w, res, fg=fg,
             msg='the timestamp of an event is not the time of its session')
        res = []
        for c in fg.calls(NOW):
            if unage(c.data['res']) not in stamps:
                continue
            par = fg.reach([c], back=True, block=isb)
            hit = [i for i in par if i in mid]
            res.append((c.loc, fg.path(par, hit[0])[::-1] if hit else None))
        once(ctx, 'one-timestamp-per-session', w, res, fg=fg,
             msg='the events of a session differ in timestamp')
    # order
    fg = p.pg
    root = returned(p)
    outs = closure(fg, root)
    res = []
    mids = {m.id for m, _ in p.made(fg)}
    throw = lambda m: m.kind in THROW
    moved = {m.id: handed_on(fg, m, root, outs, fg.is_return, throw)
             for m in fg.kind('add') if unage(m.data['obj']) in outs}
    for n, t in p.made(fg):
        adds = {m.id for m in fg.kind('add') if unage(m.data['obj']) in outs
                and same(m.data['value'], t)}
        ends = lambda m, n=n: fg.is_return(m) or m.id in mids and m is not n
        if p.process is None and not reaches_module(fg, n):
            continue
        bad = next((moved[i] for i in adds if moved.get(i)), None)
        if bad:
            res.append((n.loc, bad))
        res.append((n.loc, fg.unfollowed(n, lambda m: m.id in adds, ends,
                                         lambda m: m.kind in THROW)))
    ctx.need('events of a session', len(res))
    once(ctx, 'every-event-is-registered', short(fg.func.qual), res, fg=fg,
         msg='an event that got an id is not passed to the backend')
    res = order_kept(fg, outs)
    once(ctx, 'registered-in-id-order', short(fg.func.qual), res, fg=fg,
         msg='events are not passed to the backend in the order of their ids')


def reaches_module(fg, n):
    par = fg.reach([n])
    return any(fg.nodes[i].kind == 'call' and fg.nodes[i].data['callee'] ==
               '.on_session_stop' for i in par)


def order_kept(fg, objs):
    res = []
    for n in fg.kind('add'):
        if unage(n.data['obj']) in objs:
            res.append((n.loc, [n.id] if n.data['how'] in (
                'appendleft', 'insert', 'extendleft') else None))
    for n in fg.calls('.sort', '.reverse', '.rotate', '.appendleft',
                      '.extendleft', '.insert', '.pop', '.popleft',
                      '.remove', '.clear'):
        if n.data['base'] and unage(n.data['base']) in objs:
            res.append((n.loc, [n.id]))
    return res


def returned(p):
    """containers that end up at the backend"""
    if p.process is not None:
        r = set()
        for n in p.pg.kind('return'):
            if p.pg.is_return(n) and n.data['value'] is not None:
                r.add(seq_base(n.data['value']))
    else:
        r = {seq_base(p.lg.arg(n, 'events', 1)) for n in registers(p)}
    return {unage(x) for x in r if x[0] == 'o'}


def closure(fg, objs):
    """the containers and those they are filled from, element by element:
    ages aside"""
    r = {unage(x) for x in objs if x[0] == 'o'}
    by = {}
    for it in fg.kind('iter'):
        b = unage(seq_base(it.data['iter']))
        if b[0] == 'o':
            by.setdefault(b, {})[unage(it.data['value'])] = it
    while True:
        new = set()
        for n in fg.kind('add'):
            if unage(n.data['obj']) not in r:
                continue
            v = n.data['value']
            if v[0] == 'el' and n.data['how'] in ('copy', 'extend'):
                b = unage(seq_base(v[1]))
                if b[0] == 'o' and b not in r:
                    new.add(b)
            for b, vs in by.items():
                if b not in r and unage(v) in vs and any(
                        i == n.id for i in fg.reach(
                            [vs[unage(v)]],
                            block=fg.loop_next(vs[unage(v)]))):
                    # the walk that feeds the container, not one that
                    # happens to see the same values
                    if chained(fg, b, r):
                        new.add(b)
        if not new:
            return r
        r |= new


def chained(fg, b, objs):
    """every walk over b that fills one of objs puts all of b there"""
    some = False
    for it in fg.kind('iter'):
        if unage(seq_base(it.data['iter'])) != b:
            continue
        u = unage(it.data['value'])
        put = lambda m: m.kind == 'add' and unage(m.data['obj']) in objs and \
            unage(m.data['value']) == u
        par = fg.reach([it], block=fg.loop_next(it))
        if not any(put(fg.nodes[i]) for i in par):
            continue
        if fg.skipped(it, put, lambda a, b: False) or fg.early(it):
            return False
        some = True
    return some


def handed_on(fg, n, root, chain, ends, block):
    """path on which what was put into a helper container at n does not
    move on"""
    o = unage(n.data['obj'])
    if o in root:
        return None
    walk = {it.id for it in fg.kind('iter') if unage(seq_base(
        it.data['iter'])) == o and any(
            fg.nodes[i].kind == 'add' and
            unage(fg.nodes[i].data['obj']) in chain and
            unage(fg.nodes[i].data['obj']) != o
            for i in fg.reach([it], block=fg.loop_next(it)))}
    keys = {(fg.nodes[i].ast, fg.nodes[i].frame) for i in walk}
    walk |= {m.id for m in fg.kind('iterend') if (m.ast, m.frame) in keys}
    e = empty_lit(n.data['obj'])
    return fg.unfollowed(
        n, lambda m: m.id in walk or m.kind == 'add' and
        unage(m.data['obj']) in chain and m.data['value'][0] == 'el' and
        unage(seq_base(m.data['value'][1])) == o, ends,
        lambda m: block(m) or m.kind == 'assume' and e(
            m.data['atom'], m.data['pol']))


def registers(p):
    return p.lg.calls('hat.event.common.backend.Backend.register',
                      '.register')


@check('C11')
def requests(ctx):
    p = parts(ctx)
    prog = ctx.prog
    # queueing a request
    g = p.rg
    f = g.func
    where = short(f.qual)
    src, evs = ('p', f.params[1]), ('p', f.params[2])
    puts = [n for n in g.calls('.put', '.put_nowait')
            if p.is_queue(n.data['base'])]
    pid = {n.id for n in puts}
    throw = lambda m: m.kind in THROW
    fut = lambda x: call_args(x, 'create_future') is not None
    res = []
    for n in puts:
        a = n.data['args'][0] if n.data['args'] else ()
        ok = a and a[0] == 'tup' and len(a[1]) == 3 and \
            sum(fut(x) for x in a[1]) == 1 and \
            sum(x == src for x in a[1]) == 1 and \
            sum(seq_base(x) == evs for x in a[1]) == 1
        if ok:
            lay = (next(i for i, x in enumerate(a[1]) if fut(x)),
                   a[1].index(src),
                   next(i for i, x in enumerate(a[1])
                        if seq_base(x) == evs))
        res.append((n.loc, None if ok else [n.id]))
    once(ctx, 'request-is-queued-whole', where, res, fg=g,
         msg='the queued request is not the given source and events with a '
             'future of its own')
    if ctx.findings:
        return
    empty = lambda a, b: a[0] == 'truthy' and not b and (
        a[1] == evs or a[1][0] == 'op' and a[1][-1] == evs) or (
        a[0] == 'eq' and b and const(0) in a[1:])
    bad = g.unfollowed(g.entry, lambda m: m.id in pid, g.is_return,
                       lambda m: throw(m) or assume_block(empty)(m))
    ctx.ob('request-is-queued', where, bad is None, f.loc,
           'a request returns without having been queued',
           g.show_path(bad) if bad else None)
    res, res2, res3 = [], [], []
    for n in puts:
        par = g.reach(n.succ)
        hit = [i for i in par if i in pid]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
        own = next(x for x in n.data['args'][0][1] if fut(x))
        aw = lambda m: m.kind == 'suspend' and same(m.data['value'], own)
        par = g.reach([n], block=lambda m: throw(m))
        for i in par:
            m = g.nodes[i]
            if g.is_return(m):
                v = m.data['value']
                ok = v is not None and same(v, own)
                res2.append((m.loc, None if ok else g.path(par, i)))
        for m in g.kind('except'):
            pass
    for m in thrown_many(g, puts):
        bad = g.unfollowed(m, lambda x: x.kind in ('raise', 'uncaught'),
                           g.is_return)
        res3.append((m.loc, bad))
    once(ctx, 'request-is-queued-once', where, res, fg=g,
         msg='a request is queued twice')
    ctx.need('returns of a queued request', len(res2))
    once(ctx, 'caller-gets-own-result', where, res2, fg=g,
         msg='the caller gets something else than the result of its request')
    once(ctx, 'closed-engine-raises', where, res3, fg=g,
         msg='a request the engine cannot accept returns normally')
    res = []
    for m in g.kind('assume'):
        if empty(m.data['atom'], m.data['pol']):
            par = g.reach([m], block=throw)
            for i in par:
                x = g.nodes[i]
                if g.is_return(x):
                    v = x.data['value']
                    ok = v is not None and (
                        v[0] == 'o' and not adds_to(g, v) or
                        v == ('tup', ()) or v == evs)
                    ok = ok or v is not None and contains_fut(v)
                    res.append((x.loc, None if ok else g.path(par, i)))
    once(ctx, 'empty-request-gives-no-events', where, res, fg=g,
         msg='a request without events gives something else than no events')
    # serving requests
    lg = p.lg
    where = short(p.loop.qual)
    fu, so, ev = lay
    gets = [n for n in lg.nodes if p.takes(n)]
    ctx.need('requests taken from the queue', len(gets))
    regs = registers(p)
    ctx.need('registrations', len(regs))
    if p.process is not None:
        pc = p.proc_calls()
        res = []
        for n in pc:
            b = n.data['bound'] or {}
            vs = [v for k, v in b.items()]
            ok = any(p.part(v, so) for v in vs) and any(
                p.part(seq_base(v), ev) for v in vs) and not any(
                    p.part(v, i) for v in vs for i in (0, 1, 2)
                    if i not in (so, ev, fu))
            roles = {k: v[2][2] for k, v in b.items() if v[0] == 'i' and
                     p.got(v[1])}
            ok = ok and len({unage(v[1]) for v in vs if v[0] == 'i' and
                             p.got(v[1])}) == 1
            res.append((n.loc, None if ok else [n.id]))
        once(ctx, 'request-processed-with-own-data', where, res, fg=lg,
             msg='a request is processed with the data of something else')
        pid = {n.id for n in pc}
        isg = lambda m: m in gset or lg.is_return(m)
        gset = set(gets)
        # a request taken is processed, registered and resolved in turn
        res = []
        for n in gets:
            res.append((n.loc, lg.unfollowed(
                n, lambda m: m.id in pid, isg, throw)))
        once(ctx, 'taken-request-is-processed', where, res, fg=lg,
             msg='a request is taken from the queue and not processed')
        res, res2 = [], []
        for n in pc:
            own = {m.id for m in regs if same(seq_base(
                lg.arg(m, 'events', 1)), n.data['res'])}
            res.append((n.loc, lg.unfollowed(
                n, lambda m: m.id in own, isg, throw)))
            par = lg.reach([n], block=lambda m: isg(m) or throw(m))
            res2.append((n.loc, None))
            for i in par:
                if i in own:
                    q = lg.reach(lg.nodes[i].succ,
                                 block=lambda m: isg(m) or m.id in pid or
                                 throw(m))
                    hit = [j for j in q if j in own]
                    if hit:
                        res2.append((n.loc, lg.path(q, hit[0])))
        once(ctx, 'session-is-registered', where, res, fg=lg,
             msg='the events of a session do not get to the backend')
        once(ctx, 'session-is-registered-once', where, res2, fg=lg,
             msg='the events of a session are registered twice')
        serving = [m for m in regs if any(same(seq_base(lg.arg(
            m, 'events', 1)), n.data['res']) for n in pc)]
    else:
        serving = [m for m in regs if any(lg.nodes[i] in set(gets) for i in
                                          lg.reach([m], block=throw))]
    sid = {m.id for m in serving}
    ctx.need('registrations of requests', len(serving))
    gset = set(gets)
    isg = lambda m: m in gset or lg.is_return(m)
    done = lambda a, b: b and a[0] == 'truthy' and match_call(
        a[1], 'done', lambda t: p.part(t, fu))
    notdone = lambda a, b: not b and a[0] == 'truthy' and match_call(
        a[1], 'done', lambda t: p.part(t, fu))
    sets = [n for n in lg.calls('.set_result', '.set_exception')
            if p.part(n.data['base'], fu)]
    results = [n for n in sets if n.data['callee'] == '.set_result']
    rid = {n.id for n in sets}
    ctx.need('request results', len(results))
    res, res2, res3 = [], [], []
    for n in serving:
        res.append((n.loc, lg.unfollowed(
            n, lambda m: m.id in rid, isg,
            lambda m: throw(m) or assume_block(done)(m))))
    for n in results:
        res2.append((n.loc, before_since(lg, n, gset, sid)))
        v = n.data['args'][0]
        res3.append((n.loc, result_ok(p, lg, n, v, serving, ev)))
    once(ctx, 'request-is-resolved', where, res, fg=lg,
         msg='a request was registered and its caller goes on waiting')
    once(ctx, 'resolved-after-registration', where, res2, fg=lg,
         msg='a request is resolved before its events were registered')
    once(ctx, 'resolved-with-own-events', where, res3, fg=lg,
         msg='the caller gets something else than the registered events of '
             'its own request')
    once(ctx, 'no-second-resolution', where,
         ((n.loc, lg.unheld(n, notdone, set())) for n in sets), fg=lg,
         msg='a future that may be done already is resolved')
    sp = [n for n in lg.kind('call') if n.data['callee'].endswith('.spawn') or
          n.data['callee'].split('.')[-1] in ('create_task',
                                              'ensure_future')]
    once(ctx, 'requests-one-at-a-time', where,
         ((n.loc, [n.id]) for n in sp if any(
             x and x[0] in ('bm', 'fn', 'g', 'coro') for a in n.data['args']
             for x in subterms(a))), fg=lg,
         msg='part of serving a request runs on its own')
    # the end
    end = lg.is_end
    close = lambda m: m.kind == 'call' and m.data['callee'] == '.close' and \
        m.data['base'] == ('p', 'self')
    qclose = lambda m: m.kind == 'call' and m.data['callee'] == '.close' and \
        p.is_queue(m.data['base'])
    for rule, pred, msg in (
            ('end-closes-engine', close, 'the engine stays open'),
            ('end-closes-queue', qclose, 'the queue stays open: a later '
             'request would wait forever')):
        bad = lg.unfollowed(lg.entry, pred, end)
        ctx.ob(rule, where, bad is None, p.loop.loc,
               'the loop ends but ' + msg, lg.show_path(bad) if bad else None)
    emptied = lambda a, b: b and a[0] == 'truthy' and match_call(
        a[1], 'empty', p.is_queue)
    drained = lambda m: m.kind == 'assume' and emptied(
        m.data['atom'], m.data['pol']) or m.kind == 'except' and any(
            'QueueEmptyError' in str(x) for x in m.data.values())
    # after the queue was closed it is emptied
    closes = [n for n in lg.nodes if qclose(n)]
    res = []
    for n in closes:
        res.append((n.loc, lg.unfollowed(n, drained, end)))
    once(ctx, 'closed-queue-is-drained', where, res, fg=lg,
         msg='the loop ends with requests left in the queue')
    falsy = lambda a, b: (a[0] == 'truthy' and not b or a[0] == 'none' and
                          b) and p.part(a[1], fu)
    ok = assume_block(any_lit(done, falsy))
    taken = [n for n in lg.kind('call') if n.data['callee'] in (
        '.get_nowait',) and p.is_queue(n.data['base'])]
    res = []
    tset = set(taken)
    for n in taken:
        res.append((n.loc, lg.unfollowed(
            n, lambda m: m.id in rid or ok(m),
            lambda m: end(m) or m.kind == 'call' and m in tset or
            m.kind == 'assume' and drained(m) or m.kind == 'suspend',
            throw)))
    ctx.need('queued requests taken at the end', len(taken))
    once(ctx, 'queued-request-fails-at-end', where, res, fg=lg,
         msg='a request left in the queue is never answered')
    res = []
    for n in gets:
        res.append((n.loc, lg.unfollowed(
            n, lambda m: m.id in rid or ok(m) or m in gset and m is not n,
            end, lambda m: m.kind in THROW and n.id in m.pred)))
    once(ctx, 'current-request-fails-at-end', where, res, fg=lg,
         msg='the request being served when the loop ends is never answered')
    res = [(n.loc, before(lg, [n], lambda m: qclose(m))) for n in taken]
    once(ctx, 'queue-closed-before-drain', where, res, fg=lg,
         msg='a request may be queued after the queue was emptied')


def contains_fut(v):
    return any(x and x[0] == 'r' and call_args(x, 'create_future') is not None
               for x in subterms(v) if isinstance(x, tuple))


def thrown_many(g, nodes):
    r = []
    for n in nodes:
        for m in thrown_at(g, n):
            if m not in r:
                r.append(m)
    return r


def before_since(fg, n, starts, guards):
    """path from one of starts to n without any of guards"""
    par = fg.reach([n], block=lambda m: m.id in guards, back=True)
    for i in par:
        if fg.nodes[i] in starts:
            return fg.path(par, i)[::-1]
    return None


def result_ok(p, lg, n, v, serving, ev):
    rs = [m.data['res'] for m in serving]
    isr = lambda t: any(same(t, r) for r in rs)
    if v == NONE:
        lit = none_lit(isr)
        return lg.unheld(n, lit, set())
    notnone = lambda a, b: a[0] == 'none' and not b and isr(a[1]) or \
        a[0] == 'truthy' and b and isr(a[1])
    if isr(v) and lg.unheld(n, none_lit(isr), set()) is None:
        return None
    bad = lg.unheld(n, notnone, set())
    if bad:
        return bad
    return first_of(p, lg, n, v, isr, ev)


def first_of(p, lg, n, v, isr, ev, depth=3):
    """None when v is the beginning of the backend's result, one event for
    each registered one; otherwise the place where it is not"""
    v = seq_base(v)
    if isr(v) and lg.unheld(n, none_lit(isr), set()) is None:
        return None
    if v[0] == 'op' and v[1].endswith('slice'):
        rest = [x for x in v[3:] if x != NONE]
        ok = len(rest) == 1 and is_len(rest[0], p, ev) and (
            v[1].endswith('islice') and len(v) == 4 or
            v[1] == 'slice' and v[3] == NONE)
        return whole(p, lg, n, v[2], isr) if ok else [n.id]
    if v[0] != 'o' or not depth:
        return [n.id]
    adds = adds_to(lg, v)
    if not adds:
        return [n.id]
    for m in adds:
        x = m.data['value']
        if x[0] != 'el' or m.data['how'] in ('appendleft', 'insert'):
            return [m.id]
        if isr(seq_base(x[1])):
            # one per registered event: both walked in step
            its = [i for i in lg.kind('iter') if i.data['iter'][0] == 'op' and
                   i.data['iter'][1] == 'zip' and
                   contains(i.data['value'], unage(x))]
            if not its:
                return [m.id]
            for it in its:
                src = it.data['iter']
                if len(src) != 4 or not any(
                        p.part(seq_base(y), ev) for y in src[2:]):
                    return [it.id]
                q = lg.skipped(it, lambda i: i.kind == 'add' and
                               unage(i.data['obj']) == unage(v),
                               lambda a, b: False) or lg.early(it)
                if q:
                    return q
        else:
            q = first_of(p, lg, m, x[1], isr, ev, depth - 1)
            if q:
                return q
    return None


def whole(p, lg, n, v, isr):
    """None when v is all of the backend's result"""
    v = seq_base(v)
    if isr(v):
        return None
    if v[0] == 'o':
        adds = adds_to(lg, v)
        if adds and all(m.data['value'][0] == 'el' and
                        m.data['how'] in ('copy', 'extend') and
                        isr(seq_base(m.data['value'][1])) for m in adds):
            return None
    return [n.id]


def is_len(t, p, ev):
    return t[0] == 'op' and t[1] == 'len' and p.part(seq_base(t[2]), ev)


@check('C12')
def modules(ctx):
    p = parts(ctx)
    g = p.pg
    prog = ctx.prog
    where = short(g.func.qual)
    if p.process is not None:
        # layout of the queued request, as the loop hands it over
        roles = {}
        for n in p.rg.calls('.put', '.put_nowait'):
            a = n.data['args'][0]
            f = p.rg.func
            for i, x in enumerate(a[1] if a[0] == 'tup' else ()):
                if x == ('p', f.params[1]):
                    roles['source'] = i
                elif seq_base(x) == ('p', f.params[2]):
                    roles['events'] = i
    else:
        roles = {}
    roles = {'source': 1, 'events': 2, **roles}
    src, evs = p.req(roles['source']), p.req(roles['events'])
    throw = lambda m: m.kind in THROW
    calls = {k: [n for n in g.calls('.' + k) if p.module_of(n.data['base'])]
             for k in ('on_session_start', 'process', 'on_session_stop')}
    for k, v in calls.items():
        ctx.need(f'{k} calls', len(v))
    ids_ = {k: {n.id for n in v} for k, v in calls.items()}
    # awaited before anything else
    res = []
    for k, v in calls.items():
        for n in v:
            aw = [m for m in g.nodes if m.kind == 'suspend' and n.id in m.pred
                  and same(m.data['value'], n.data['res'])]
            res.append((n.loc, None if aw or n.data['awaited'] else [n.id]))
    once(ctx, 'module-is-awaited', where, res, fg=g,
         msg='the engine goes on before the module is done')
    walks = {}
    for k in ('on_session_start', 'on_session_stop'):
        good, bad = set(), None
        for it in g.kind('iter'):
            if not p.is_table(it.data['iter']) and not (
                    it.data['value'][0] == 'el' and
                    p.is_table(it.data['value'][1])):
                continue
            u = head_el(it.data['value'])
            if u is None:
                continue
            par = g.reach([it], block=g.loop_next(it))
            if not any(i in ids_[k] for i in par):
                continue
            q = g.skipped(it, lambda m: m.id in ids_[k] and contains(
                m.data['base'], unage(u)), lambda a, b: False) or g.early(it)
            bad = bad or q
            good.add((it.ast, it.frame))
        walks[k] = good
        ctx.need(f'{k} walks', len(good))
        ctx.ob(f'every-module-{k.replace("_", "-")}', where, bad is None,
               g.func.loc, f'a module is passed over by {k}',
               g.show_path(bad) if bad else None)
    over = lambda k: (lambda m: m.kind == 'iterend' and
                      (m.ast, m.frame) in walks[k])
    bad = before(g, calls['process'], over('on_session_start'))
    ctx.ob('session-start-before-processing', where, bad is None,
           g.func.loc, 'a module processes an event before every module was '
           'told that the session starts', g.show_path(bad) if bad else None)
    res = []
    for n in calls['on_session_stop']:
        par = g.reach(n.succ, block=lambda m: is_get(p, m))
        hit = [i for i in par if i in ids_['process']]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'session-stop-after-processing', where, res, fg=g,
         msg='a module processes an event after the session stopped')
    made = p.made(g)
    if p.process is not None:
        bad = g.unfollowed(g.entry, over('on_session_stop'), g.is_return,
                           throw)
        ctx.ob('session-stop-before-registration', where, bad is None,
               g.func.loc, 'the session is over and modules were not told',
               g.show_path(bad) if bad else None)
    else:
        bad = None
        for n in calls['on_session_start']:
            bad = bad or g.unfollowed(
                n, over('on_session_stop'),
                lambda m: m.kind == 'call' and m in set(registers(p)), throw)
        ctx.ob('session-stop-before-registration', where, bad is None,
               g.func.loc, 'the session is over and modules were not told',
               g.show_path(bad) if bad else None)
    # told once
    for k in ('on_session_start', 'on_session_stop'):
        res = []
        for a, fr in walks[k]:
            ends = [m for m in g.kind('iterend') if (m.ast, m.frame) ==
                    (a, fr)]
            for m in ends:
                par = g.reach(m.succ, block=lambda x: is_get(p, x))
                hit = [i for i in par if i in ids_[k]]
                res.append((m.loc, g.path(par, hit[0]) if hit else None))
        once(ctx, f'{k.replace("_", "-")}-once', where, res, fg=g,
             msg=f'a module gets {k} twice in a session')
    # session id
    res = []
    bumps = {n.id for n in g.kind('store') if n.data['attr'] == p.id_attr}
    sess = id_field(p.id_attr, 'session')
    stale = {unage(x) for i in bumps for x in subterms(
        g.nodes[i].data['value']) if sess(x)} if bumps else set()
    for k in ('on_session_start', 'on_session_stop'):
        for n in calls[k]:
            a = n.data['args']
            ok = bool(a) and (sess(a[0]) and a[0] not in stale or
                              lin_step(a[0], sess))
            q = None if ok else [n.id]
            q = q or before(g, [n], lambda m: m.id in bumps)
            res.append((n.loc, q))
    once(ctx, 'modules-told-session-id', where, res, fg=g,
         msg='a module is told another session id than the events get')
    # what is processed
    res, res2 = [], []
    for n in calls['process']:
        s = g.arg(n, 'source', 0)
        e = g.arg(n, 'event', 1)
        o = p.origin(e)
        q = None
        if o is None:
            q = [n.id]
        else:
            re = o[0]
            if elem_of(re, evs):
                q = None if src(s) else [n.id]
            else:
                out = producer(p, g, re)
                own = p.module_of(out) if out is not None else None
                q = None if own is not None and s is not None and \
                    head_of(s) != s and same(head_of(s), own) else [n.id]
        res.append((n.loc, q))
        mod = p.module_of(n.data['base'])
        lit = matches_lit(p, g, mod, e)
        res2.append((n.loc, g.unheld(n, lit, {x for x in labels_of(mod)
                                              if x[0] == 'L'})))
    once(ctx, 'processed-with-own-source', where, res, fg=g,
         msg='a module gets an event with the source of another')
    once(ctx, 'only-matching-events-processed', where, res2, fg=g,
         msg='a module gets an event its subscription does not match')
    # completeness: every event, every module
    inner = set()
    res = []
    pid = ids_['process']
    its = [it for it in g.kind('iter') if p.is_made(ev_of(it.data['value']))]
    loops = {}
    for it in its:
        loops.setdefault((it.ast, it.frame), []).append(it)
    mods = {}
    for it in g.kind('iter'):
        u = head_el(it.data['value'])
        if u is not None and p.is_table(u[1]) and not p.is_made(
                ev_of(it.data['value'])) and (
                it.ast, it.frame) not in walks['on_session_start'] and (
                it.ast, it.frame) not in walks['on_session_stop']:
            mods.setdefault((it.ast, it.frame), []).append(it)

    def body_hits(it, ids):
        par = g.reach([it], block=g.loop_next(it))
        return any(i in ids for i in par)
    # loops over events and over modules with module calls inside
    ework = {k for k, v in loops.items() if any(body_hits(i, pid) for i in v)}
    mwork = {k for k, v in mods.items() if any(body_hits(i, pid) for i in v)}
    ctx.need('walks over events to process', len(ework))
    ctx.need('walks over modules', len(mwork))

    def overs(keys):
        return lambda m: m.kind == 'iterend' and (m.ast, m.frame) in keys
    for k in ework:
        inside = {m for m in mwork if any(
            body_hits(it, {x.id for x in mods[m]}) for it in loops[k])}
        for it in loops[k]:
            u = unage(ev_of(it.data['value']))
            done = lambda m: m.id in pid and contains(
                m.data['args'] and m.data['args'], u) or overs(inside)(m)
            ex = unmatched_lit(p, g, u)
            q = g.skipped(it, done, ex) or g.early(it)
            res.append((it.loc, q))
    for k in mwork:
        inside = {m for m in ework if any(
            body_hits(it, {x.id for x in loops[m]}) for it in mods[k])}
        for it in mods[k]:
            u = unage(head_el(it.data['value']))
            # events selected for this module first
            done = lambda m: m.id in pid and contains(m.data['base'], u) or \
                overs(inside)(m)
            ex = unmatched_lit(p, g, None, u)
            q = g.skipped(it, done, ex) or g.early(it)
            res.append((it.loc, q))
    # derived containers keep everything but what does not match
    feeds = {unage(seq_base(it.data['iter'])) for k in ework
             for it in loops[k]}
    feeds = {x for x in feeds if x[0] == 'o'}
    for k, v in loops.items():
        if k in ework:
            continue
        for it in v:
            u = unage(ev_of(it.data['value']))
            fill = [m for m in g.kind('add') if contains(
                m.data['value'], u)]
            par = g.reach([it], block=g.loop_next(it))
            if not any(m.id in par for m in fill):
                continue
            q = g.skipped(it, lambda m: m.kind == 'add' and contains(
                m.data['value'], u), unmatched_lit(p, g, u)) or g.early(it)
            res.append((it.loc, q))
            feeds |= {x for x in (unage(seq_base(it.data['iter'])),)
                      if x[0] == 'o'}
    once(ctx, 'every-matching-event-processed', where, res, fg=g,
         msg='a module does not get an event its subscription matches')
    # every event of the session gets into a walk
    res = []
    mids = {n.id for n, _ in made}
    walks_over = {}
    for x in g.kind('iter', 'iterend'):
        walks_over.setdefault(unage(seq_base(x.data['iter'])), set()).add(
            x.id)
    good, left = set(), {}
    for m in g.kind('add'):
        o = unage(m.data['obj'])
        if o in feeds:
            w = walks_over.get(o, set())
            e = empty_lit(m.data['obj'])
            r = g.unfollowed(
                m, lambda x: x.id in w,
                lambda x: g.is_return(x) or is_get(p, x),
                lambda x: throw(x) or x.kind == 'assume' and e(
                    x.data['atom'], x.data['pol']))
            if r is None:
                good.add(m.id)
            else:
                left[m.id] = r
    for n, t in made:
        if p.process is None and not reaches_module(g, n):
            continue
        u = unage(t)
        own = {i for i in good if contains(g.nodes[i].data['value'], u)}
        nxt = lambda m, n=n: g.is_return(m) or m.id in mids and m is not n
        r = g.unfollowed(n, lambda m: m.id in own, nxt, throw)
        if r:
            r = next((r + left[i] for i in r if i in left), r)
        res.append((n.loc, r))
    once(ctx, 'every-event-is-offered-to-modules', where, res, fg=g,
         msg='an event of the session is not offered to the modules')
    # everything a module returns becomes an event
    res = []
    for n in calls['process']:
        r = n.data['res']
        took = lambda m: m.kind in ('iter', 'iterend') and contains(
            m.data['iter'], unage(r))
        none = lambda a, b: (a[0] == 'truthy' and not b or a[0] == 'none' and
                             b) and contains(a[1], unage(r))
        q = g.unfollowed(n, took, lambda m: g.is_return(m) or m.id in pid or
                         m.id in ids_['on_session_stop'],
                         lambda m: throw(m) or assume_block(none)(m))
        res.append((n.loc, q))
    for it in g.kind('iter'):
        v = it.data['value']
        if v[0] != 'el' or not is_output(p, g, v):
            continue
        u = unage(v)
        fill = lambda m: m.id in mids and contains(
            m.data.get('args') or m.data.get('value'), u) or \
            m.kind == 'add' and same(m.data['value'], v)
        res.append((it.loc, g.skipped(it, fill, lambda a, b: False) or
                    g.early(it)))
    once(ctx, 'module-output-becomes-events', where, res, fg=g,
         msg='an event a module returned is lost')


def is_get(p, m):
    return p.takes(m)


def head_el(t):
    """module table entry a loop runs over"""
    if t[0] == 'el':
        return t
    if t[0] == 'tup':
        for x in t[1]:
            h = head_of(x)
            if h[0] == 'el':
                return h
    return None


def ev_of(t):
    if t[0] == 'tup' and t[1]:
        for x in t[1]:
            if x[0] in ('r', 'rec'):
                return x
    return t


def is_output(p, g, v):
    b = seq_base(v[1])
    if b[0] == 'r' and b[2][0] == 'await':
        b = b[2][1]
    return b[0] == 'r' and b[2][:2] == ('call', '.process')


def producer(p, g, re):
    """module a register event was returned by"""
    if re[0] != 'el':
        return None
    b = seq_base(re[1])
    if b[0] == 'r' and b[2][0] == 'await':
        b = b[2][1]
    if b[0] == 'r' and b[2][:2] == ('call', '.process'):
        return b[2][2]
    if b[0] == 'o':
        r = [producer(p, g, m.data['value']) for m in adds_to(g, b)]
        if r and all(x is not None for x in r):
            return r[0]
    return None


def matches_lit(p, g, mod, e):
    um, ue = unage(mod), unage(e)

    def lit(a, b):
        return b and a[0] == 'truthy' and match_call(
            a[1], 'matches', lambda t: contains(t, um) and
            mentions_attr(t, 'subscription'),
            lambda args: args and args[0][0] == 'a' and
            args[0][2] == 'type' and unage(args[0][1]) == ue)
    return lit


def unmatched_lit(p, g, ue, um=None):
    def lit(a, b):
        return not b and a[0] == 'truthy' and match_call(
            a[1], 'matches', lambda t: mentions_attr(t, 'subscription') and
            (um is None or contains(t, um)),
            lambda args: args and args[0][0] == 'a' and
            args[0][2] == 'type' and (
                ue is None or unage(args[0][1]) == ue))
    return lit


@check('C13')
def lifecycle(ctx):
    p = parts(ctx)
    prog = ctx.prog
    g = p.create
    f = g.func
    where = short(f.qual)
    throw = lambda m: m.kind in THROW
    sid = ('p', 'server_id')
    puts = [n for n in g.calls('.put', '.put_nowait')]
    starts = [n for n in g.kind('call') if n.data['callee'].endswith(
        '.spawn') and n.data['args'] and callee_of(
            prog, n.data['args'][0]) is p.loop]
    mk = [n for n in g.kind('call') if any(
        x and x[0] == 'a' and x[2] == 'create' and call_args(
            x[1], 'import_module_info') is not None
        for a in n.data['args'] for x in (a,)) or
        n.data['callee'] == '.create' and n.data['base'] and call_args(
            n.data['base'], 'import_module_info') is not None]
    ctx.need('module creations', len(mk))
    # the first request announces the engine
    res, res2 = [], []
    for n in puts:
        a = n.data['args'][0] if n.data['args'] else ()
        ok = a and a[0] == 'tup' and len(a[1]) == 3
        ok = ok and any(is_rec(x, 'Source', type=('g', 'ENGINE'))
                        for x in a[1])
        if ok:
            c = [x for x in a[1] if x[0] == 'o' or x[0] == 'tup']
            els = [v for x in c for v, _ in elements(g, n, x)]
            ok = len(els) == 1 and status_event(els[0], 'STARTED', sid)
        res.append((n.loc, None if ok else [n.id]))
    ctx.need('first request', len(puts))
    once(ctx, 'announces-start', where, res, fg=g,
         msg='the first request is not the STARTED event of this engine')
    pid = {n.id for n in puts}
    bad = before(g, starts + mk, lambda m: m.id in pid)
    ctx.ob('announced-before-anything-else', where, bad is None, f.loc,
           'modules could register before the engine announced its start',
           g.show_path(bad) if bad else None)
    # modules
    res, res2, res3, res4 = [], [], [], []
    table = lambda m: m.kind == 'add' and (
        m.data['obj'][0] == 'a' and m.data['obj'][2] == p.table or
        m.data['obj'] in tables)
    tables = {n.data['value'] for n in g.kind('store')
              if n.data['attr'] == p.table}
    confs = [v for v in (('p', x) for x in f.params) if True]
    its = []
    for it in g.kind('iter'):
        par = g.reach([it], block=g.loop_next(it))
        if any(m.id in par for m in mk):
            its.append(it)
    ctx.need('walks over module configurations', len(its))
    mid = {m.id for m in mk}
    for it in its:
        res.append((it.loc, g.skipped(it, lambda m: m.id in mid,
                                      lambda a, b: False) or g.early(it)))
        res.append((it.loc, g.skipped(it, table, lambda a, b: False)))
    once(ctx, 'every-module-is-created', where, res, fg=g,
         msg='a configured module is not created or not kept')
    sids = set()
    for n in mk:
        a = n.data['args']
        el = [x for t in a for x in subterms(t) if x and x[0] == 'el']
        src = [x for x in a if x[0] == 'rec' and x[1].endswith('.Source')]
        conf = [x for x in a if x[0] == 'el']
        eng = [x for x in a if x[0] == 'o' and 'Engine' in str(x[1])]
        ok = len(src) == 1 and is_rec(src[0], 'Source',
                                      type=('g', 'MODULE')) and conf and eng
        if ok:
            i = dict(src[0][2])['id']
            sids.add(unage(i))
        res2.append((n.loc, None if ok else [n.id]))
        key = n.data['res']
        after = [m for m in g.nodes if table(m)]
        res3.append((n.loc, g.unfollowed(
            n, lambda m: m.kind == 'call' and m.data['callee'].endswith(
                '.spawn') and any(t[0] == 'a' and t[2] == 'async_close' and
                                  contains(t, unage(key))
                                  for t in m.data['args']),
            lambda m: g.is_return(m) or table(m), throw)))
        res4.append((n.loc, g.unfollowed(
            n, lambda m: m.kind == 'call' and m.data['callee'].endswith(
                '.spawn') and any(contains(t, unage(key)) and has_call(
                    t, 'wait_closing') for t in m.data['args']) and any(
                closes_engine(prog, t) for t in m.data['args']),
            lambda m: g.is_return(m) or m.id in mid and m is not n, throw)))
        for m in after:
            v = m.data['value']
            ok = v[0] == 'tup' and any(contains(x, unage(key)) for x in
                                       v[1]) and any(
                src and same(x, src[0]) for x in v[1])
            if m.kind == 'add' and contains(v, unage(key)):
                res2.append((m.loc, None if ok else [m.id]))
    if len(sids) == 1 and sids & {x for x in sids if x[0] in (
            'c', 'p', 'a')}:
        res2.append((f.loc, [mk[0].id]))
    once(ctx, 'module-has-own-source', where, res2, fg=g,
         msg='a module does not get its own source, configuration or engine')
    once(ctx, 'module-closed-with-engine', where, res3, fg=g,
         msg='a module is not closed when the engine is')
    once(ctx, 'engine-closed-with-module', where, res4, fg=g,
         msg='a module closes and the engine goes on')
    # started
    stid = {n.id for n in starts}
    bad = g.unfollowed(g.entry, lambda m: m.id in stid, g.is_return, throw)
    ctx.ob('loop-is-started', where, bad is None, f.loc,
           'the engine is given out without serving requests',
           g.show_path(bad) if bad else None)
    res = []
    for n in starts:
        par = g.reach(n.succ)
        hit = [i for i in par if i in stid or i in mid]
        res.append((n.loc, g.path(par, hit[0]) if hit else None))
    once(ctx, 'loop-started-last-and-once', where, res, fg=g,
         msg='requests are served before all modules are there')
    # failures
    closed = lambda m: m.kind == 'suspend' and has_call(
        m.data['value'], 'async_close')
    res = []
    for n in mk:
        for m in thrown_many(g, [n]) + [
                x for x in g.kind('throws') if any(
                    y in set(n.succ) for y in x.pred)]:
            res.append((m.loc, g.unfollowed(
                m, closed, lambda x: x.kind == 'uncaught' or
                g.is_return(x))))
            res.append((m.loc, g.unfollowed(
                m, lambda x: x.kind == 'uncaught', g.is_return)))
    ctx.need('failures of module creation', len(res))
    once(ctx, 'failed-creation-closes-everything', where, res, fg=g,
         msg='creating the engine fails and leaves modules running')
    # stop event
    lg = p.lg
    where = short(p.loop.qual)
    last = []
    regs = registers(p)
    rset = set(regs)
    stops = []
    for n in regs:
        els = [v for v, _ in elements(lg, n, lg.arg(n, 'events', 1))]
        if len({unage(x) for x in els}) == 1 and p.origin(
                els[0]) and status_event(
                p.origin(els[0])[0], 'STOPPED',
                ('a', ('p', 'self'), 'x')):
            stops.append(n)
    ctx.need('STOPPED registrations', len(stops))
    sset = {n.id for n in stops}
    bad = lg.unfollowed(lg.entry, lambda m: m.id in sset, lg.is_end,
                        lambda m: m.kind == 'throws' and cleanup(lg, m))
    ctx.ob('announces-stop', where, bad is None, p.loop.loc,
           'the engine ends without registering its STOPPED event',
           lg.show_path(bad) if bad else None)
    res = []
    for n in stops:
        par = lg.reach(n.succ)
        hit = [i for i in par if lg.nodes[i] in rset]
        res.append((n.loc, lg.path(par, hit[0]) if hit else None))
        aw = any(lg.nodes[i].kind == 'suspend' for i in n.succ) or \
            n.data['awaited']
        res.append((n.loc, None if aw else [n.id]))
    once(ctx, 'stop-is-last', where, res, fg=lg,
         msg='events are registered after the STOPPED event, or it is not '
             'waited for')


def cleanup(lg, m):
    """an exception of the clean-up itself"""
    return False


def is_rec(t, cls, **fields):
    if t[0] != 'rec' or not t[1].endswith('.' + cls):
        return False
    d = dict(t[2])
    for k, v in fields.items():
        x = d.get(k)
        if x is None or x[0] != v[0] or not x[1].endswith('.' + v[1]):
            return False
    return True


def has_call(t, name):
    return any(x and x[0] in ('r', 'm', 'coro') and (
        name in str(x[2])[:200]) for x in subterms(t) if isinstance(x, tuple))


def closes_engine(prog, t):
    f = callee_of(prog, t)
    if f is not None and f.name == 'close':
        return True
    return t[0] == 'a' and t[2] == 'close' and 'Engine' in str(t[1])[:200]


def status_event(t, status, sid):
    """the register event an engine announces itself with"""
    if t[0] != 'rec' or not t[1].endswith('.RegisterEvent'):
        return False
    d = dict(t[2])
    ty = d['type']
    if ty[0] != 'tup' or len(ty[1]) != 3:
        return False
    a, b, c = ty[1]
    if const_str(a) != 'event' or const_str(c) != 'engine':
        return False
    if not (b[0] == 'op' and b[1] == 'str' and (
            b[2] == sid or sid[0] == 'a' and b[2][0] == 'a' and
            b[2][2].lstrip('_') == 'server_id')):
        return False
    pl = d['payload']
    return pl[0] == 'rec' and pl[1].endswith('.EventPayloadJson') and \
        const_str(dict(pl[2])['data']) == status


def const_item(t, key):
    """t is an item of something under a constant key"""
    return t[0] == 'i' and t[2][0] == 'c' and t[2][2] == key
