"""Command line manager: what is asked for is what is done and told."""

import ast

from ..check import check
from ..terms import *   # NOQA
from .util import *     # NOQA
from .conditions import called, truths
from .eventer_server2 import THROW
from .runners import cancelled, outside
from .subscriptions import returned
from .syncing import done_of, nearest

MOD = EV + 'manager.main.'
CONNECT = EV + 'eventer.client.connect'
CLIENT = EV + 'eventer.client.Client.'
COM = EV + 'common.common.'
JSON = 'hat.json.'
FORMATS = {'json': 'JSON', 'yaml': 'YAML', 'toml': 'TOML'}
QUERIES = {'latest': 'QueryLatestParams',
           'timeseries': 'QueryTimeseriesParams',
           'server': 'QueryServerParams'}
# what a text given for an argument stands for
KINDS = {'event_type': 'type', 'event_types': 'type', 't_from': 'timestamp',
         't_to': 'timestamp', 'source_t_from': 'timestamp',
         'source_t_to': 'timestamp', 'source_timestamp': 'timestamp',
         'last_event_id': 'id', 'max_results': 'int', 'server_id': 'int',
         'port': 'int', 'order': 'Order', 'order_by': 'OrderBy',
         'persisted': 'flag'}
GIVEN = {'event_types', 't_from', 't_to', 'source_t_from', 'source_t_to',
         'source_timestamp', 'last_event_id', 'max_results', 'server_id'}


class Args:
    """the parsed command line"""

    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g
        self.res = {unage(n.data['res']) for n in g.kind('call')
                    if n.data['callee'].split('.')[-1] == 'parse_args'}
        ctx.need('parsed command line', len(self.res))
        # parser -> (chooser, name), chooser -> (parser, dest)
        self.sub, self.dest, self.options, self.alias = {}, {}, {}, {}
        for n in g.kind('call'):
            c = n.data['callee'].split('.')[-1]
            b, r = n.data['base'], unage(n.data['res'])
            b = self.parser(b) if b is not None else None
            k = dict(n.data['kws'])
            if c == 'add_subparsers':
                self.dest[r] = b, const_str(k.get('dest') or NONE)
            elif c == 'add_parser':
                self.sub[r] = b, const_str(g.arg(n, 'name', 0) or NONE)
            elif c in ('add_argument_group', 'add_mutually_exclusive_group'):
                self.alias[r] = b
            elif c == 'add_argument':
                self.options.setdefault(b, {})[self.name(n)] = n

    def parser(self, t):
        t = unage(t)
        return self.alias.get(t, t)

    def name(self, n):
        k = dict(n.data['kws'])
        if 'dest' in k:
            return const_str(k['dest'])
        names = [const_str(a) for a in n.data['args']]
        names = [a for a in names if a]
        longs = [a for a in names if a.startswith('--')] or names
        return longs[0].lstrip('-').replace('-', '_') if longs else None

    def is_(self, t, *names):
        t = unage(t) if t else t
        return bool(t) and t[0] == 'a' and t[1] in self.res and (
            not names or t[2] in names)

    def chosen(self, facts, dest):
        for a, pol in facts:
            if pol and a[0] == 'eq':
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if self.is_(x, dest) and const_str(y):
                        return const_str(y)

    def option(self, facts, name):
        """where the argument is declared; False where it can not be given
        here and None where that is not known"""
        found = None
        for p in set(self.options) | set(self.sub):
            opts = self.options.get(p, {})
            ok, q = True, p
            while q in self.sub:
                ch, nm = self.sub[q]
                q, dest = self.dest.get(ch, (None, None))
                have = self.chosen(facts, dest)
                if have is None or nm is None:
                    return None
                ok = ok and have == nm
            if ok and name in opts:
                return opts[name]
        return False


def split_of(t, sep):
    """the text a value is a part of, cut at the separator"""
    t = unage(t)
    return t[0] == 'm' and t[2] == 'split' and t[1][0] == 'p' and tuple(
        t[3]) == (const(sep), )


def parses(ctx, fn, kind, opq):
    """how a text is made into a value: [(loc, path|None)]"""
    f = callee_of(ctx.prog, fn) if fn else None
    if f is None:
        return None
    g = ctx.flow(f, opq)
    p = ('p', [x for x in f.params if x != 'self'][0])
    out = []
    for r in returned(g):
        v = unage(r.data['value'])
        ok = False
        if kind == 'type':
            ok = v[0] == 'op' and v[1] == 'tuple' and split_of(v[2], '/')
            if v[0] == 'gx' or v[0] == 'tup':
                ok = False
        elif kind == 'id':
            fs = dict(v[2]) if v[0] == 'rec' and v[1] == COM + 'EventId' \
                else {}
            ok = len(fs) == 3
            for i, k in enumerate(('server', 'session', 'instance')):
                ok = ok and number_at(g, r, fs.get(k), i)
        elif kind == 'timestamp':
            now = ('eq', p, const('now'))
            pol = [b for a, b in r.facts if a[0] == 'eq' and set(
                a[1:]) == set(now[1:])]
            c, a = called(v)
            if c and c.split('.')[-1] == 'now':
                ok = pol == [True]
            elif c and c.split('.')[-1] == 'timestamp_from_float':
                ok = True not in pol and unage(a[0]) == ('op', 'float', p)
        elif kind in ('Order', 'OrderBy'):
            ok = v[0] == 'op' and v[1] == f'enumname:{COM}{kind}' and \
                v[2] == p
        elif kind == 'int':
            ok = v == ('op', 'int', p)
        out.append((r.loc, None if ok else [r.id]))
    return g, out


def number_at(g, r, t, i):
    """the number written as i-th part of a text cut at commas"""
    if t is None:
        return False
    t, num = unage(t), False
    if t[0] == 'op' and t[1] == 'int' and len(t) == 3:
        t, num = t[2], True
    if t[0] != 'i' or t[2] != const(i):
        return False
    b = seq_base(t[1])
    if b[0] == 'gx':
        e = g.flow.p.nodes[b[1]]
        elt = getattr(e, 'elt', None)
        num = num or isinstance(elt, ast.Call) and isinstance(
            elt.func, ast.Name) and elt.func.id == 'int' and not any(
            x.ifs for x in e.generators)
        b = b[3]
    elif b[0] == 'op' and b[1] == 'map' and len(b) == 4:
        num, b = num or b[2] == ('g', 'int'), b[3]
    elif b[0] == 'gen':
        num = num or ('g', 'int') in b[2]
        b = [x for x in b[2] if x != ('g', 'int')][0]
    if b[0] == 'o':
        es = {unage(x) for x, _ in elements(g, r, b)}
        if len(es) != 1:
            return False
        b = es.pop()
        if b[0] == 'op' and b[1] == 'int' and len(b) == 3:
            num, b = True, b[2]
        b = b[1] if b[0] == 'el' else NONE
    return num and split_of(seq_base(b), ',')


def fits(ctx, A, n, name, opq, memo):
    """problem with the declaration of an argument"""
    k = dict(n.data['kws'])
    kind = KINDS.get(name)
    ty = k.get('type')
    first = const_str(n.data['args'][0]) if n.data['args'] else ''
    optional = (first or '').startswith('-')
    if optional and name in GIVEN and k.get('default', NONE) != NONE:
        return 'is set where it is not given'
    if name in ('event_types', ) and const_str(
            k.get('nargs', NONE)) not in ('*', '+'):
        return 'can not be given several times'
    if kind == 'flag':
        if const_str(k.get('action', NONE)) == 'store_true':
            return None
        return None if k.get('action', NONE)[0] != 'c' else \
            'is not a flag that is off unless given'
    if kind in (None, 'Order', 'OrderBy') and (ty is None or ty == (
            'g', 'str')):
        return None
    if kind == 'int' and ty == ('g', 'int'):
        return None
    if kind is None:
        return None
    key = (ty, kind)
    if key not in memo:
        p = parses(ctx, ty, kind, opq) if ty else None
        memo[key] = p is not None and bool(p[1]) and all(
            q is None for _, q in p[1])
    return None if memo[key] else f'is not parsed as {kind}'


@check('C34')
def manager(ctx):
    prog = ctx.prog
    opq = outside(prog, MOD)
    f = prog.func(MOD + 'main')
    g = ctx.flow(f, opq)
    where = short(f.qual)
    A = Args(ctx, g)
    odd = lambda m: m.kind == 'assume' and impossible(m.facts)
    stop = lambda m: odd(m) or cancelled(m)
    memo = {}
    # -------------------------------------------------------- declarations
    res = []
    for p, opts in A.options.items():
        for name, n in opts.items():
            why = fits(ctx, A, n, name, opq, memo)
            ctx.ob('argument-is-read-as-meant', name, why is None, n.loc,
                   f'the argument {name} {why}')
            ch = dict(n.data['kws']).get('choices')
            if ch is not None:
                res.append((n.loc, None if chooses(g, n, ch) else [n.id]))
    once(ctx, 'choices-can-be-chosen', where, res, fg=g,
         msg='what is given is never one of the choices')
    # ---------------------------------------------------------- connections
    con = [n for n in g.kind('call') if n.data['callee'] == CONNECT and
           not impossible(n.facts)]
    ctx.need('connections', len(con))
    res, res2, used = [], [], []
    for n in con:
        addr = unage(g.arg(n, 'addr', 0) or NONE)
        c, a = called(addr)
        if addr[0] == 'r':
            a = list(a) + [y for x in addr[2][2:] if x[0] == 'kwarg'
                           for y in x[2:]]
        ok = c is not None and c.endswith('.Address') and len(
            a) == 2 and A.is_(a[0], 'host') and A.is_(a[1], 'port')
        ok = ok and A.is_(g.arg(n, 'client_name', 1), 'client_name') and \
            A.is_(g.arg(n, 'client_token', 2), 'client_token')
        res.append((n.loc, None if ok else [n.id]))
        r = unage(n.data['res'])
        shut = lambda m: m.kind == 'call' and m.data['callee'].split('.')[
            -1] == 'async_close' and m.data['base'] is not None and unage(
            m.data['base']) == r and bool(
            m.data['awaited'] or [x for x in m.succ if g.nodes[
                x].kind == 'suspend'])
        out = lambda m: m.kind in ('withexit', ) and any(
            isinstance(v, tuple) and unage(v) == r for v in m.data.values())
        for d in done_of(g, {n.id}):
            q = None if shut(d) or out(d) else g.unfollowed(
                d, lambda m: shut(m) or out(m), g.is_end)
            res2.append((n.loc, q))
    once(ctx, 'connects-as-asked', where, res, fg=g,
         msg='a connection is not made to the given server under the given '
             'name and token')
    once(ctx, 'client-is-closed', where, res2, fg=g,
         msg='the end is reached with the client not closed')
    res = []
    for m in g.kind('suspend'):
        v = unage(m.data['value'])
        if v[0] == 'r' and v[2][1].split('.')[-1] == 'async_close':
            cut = [j for j in m.succ if cancelled(g.nodes[j])]
            res.append((m.loc, [m.id] + cut if cut else None))
    once(ctx, 'client-is-closed', 'closing', res, fg=g,
         msg='the closing of the client may be cut short')

    def given(n, t, name, rule, what):
        """the field is the argument of the same name"""
        ok = t is not None and A.is_(t, name)
        if not ok and t is not None and KINDS.get(name) in ('Order',
                                                            'OrderBy'):
            u = unage(t)
            ok = u[0] == 'op' and u[1] == f'enumname:{COM}{KINDS[name]}' \
                and A.is_(unage(u[2]), name)
        elif ok and KINDS.get(name) in ('Order', 'OrderBy'):
            o = A.option(n.facts, name)
            ty = dict(o.data['kws']).get('type') if o else None
            ok = ty is not None and fits_enum(ctx, ty, KINDS[name], opq)
        if ok:
            ok = A.option(n.facts, name) is not False
        ctx.ob(rule, f'{what}.{name}', ok, n.loc,
               f'{name} of {what} is not the argument given for it',
               g.show_path([n.id]) if not ok else None)

    # --------------------------------------------------------- registration
    regs = [n for n in g.kind('call') if n.data['callee'] == CLIENT +
            'register' and not impossible(n.facts)]
    ctx.need('registrations', len(regs))
    for n in regs:
        recs, one = sent_here(g, n, sent_of(g, n))
        ctx.ob('one-event-is-registered', where, one, n.loc,
               'what is registered is not the one event asked for',
               g.show_path([n.id]) if not one else None)
        if not one:
            continue
        for rec in recs:
            fs = dict(rec[2])
            given(n, fs.get('type'), 'event_type',
                  'event-is-what-was-given', 'event')
            given(n, fs.get('source_timestamp'), 'source_timestamp',
                  'event-is-what-was-given', 'event')
    for kind in ('none', 'binary', None, *FORMATS):
        res = []
        for std in (False, True):
            par = g.reach([g.entry.id], block=lambda m: m.kind == 'assume' and
                          against(A, m.data['atom'], m.data['pol'], kind,
                                  std))
            have = [n for n in regs if n.id in par]
            if not have:
                res.append((f.loc, [g.entry.id]))
            for n in have:
                recs, _ = sent_here(g, n, sent_of(g, n))
                for rec in recs:
                    ok = rec[0] == 'rec' and payload(
                        A, dict(rec[2]).get('payload'), kind, std)
                    res.append((n.loc, None if ok else g.path(par, n.id)))
        once(ctx, 'payload-is-what-was-given', str(kind), res, fg=g,
             msg='the payload is not the given content, read as the given '
                 'type')
    res = [(n.loc, None if (g.arg(n, 'with_response') or FALSE) == TRUE else
            [n.id]) for n in regs]
    once(ctx, 'confirmation-is-awaited', where, res, fg=g,
         msg='registration is told without its confirmation being asked for')
    noned = lambda pol: lambda m: m.kind == 'assume' and m.data['atom'][
        0] == 'none' and m.data['pol'] == pol and called(m.data['atom'][1])[
        0] == CLIENT + 'register'
    rets = [n for n in g.kind('return') if g.is_return(n)]
    ctx.need('ends', len(rets))
    starts = [n for n in g.kind('assume') if n.data['pol'] and
              A.chosen([(n.data['atom'], True)], 'action') == 'register']
    ctx.need('registration actions', len(starts))
    res = []
    for told in (False, True):
        par = g.reach([s.id for s in starts], block=lambda m: stop(m) or
                      noned(told)(m))
        for r in rets:
            if r.id not in par:
                continue
            v = r.data.get('value') or NONE
            if v[0] == 'c':
                wrong = bool(v[2]) == told
            else:
                wrong = not any(
                    a[0] == 'none' and called(a[1])[0] == CLIENT + 'register'
                    for _, fs in truths(r) for a, _ in fs)
            res.append((r.loc, g.path(par, r.id) if wrong else None))
    once(ctx, 'refusal-is-told', where, res, fg=g,
         msg='the exit code tells a registration that was not confirmed '
             'from one that was')
    # -------------------------------------------------------------- queries
    qs = [n for n in g.kind('call') if n.data['callee'] == CLIENT + 'query'
          and not impossible(n.facts)]
    kinds = {}
    for n in qs:
        kinds.setdefault(A.chosen(n.facts, 'query_type'), []).append(n)
    for k, cls in QUERIES.items():
        ns = kinds.get(k, [])
        ctx.ob('each-query-is-asked', k, bool(ns), f.loc,
               f'nothing is asked for a {k} query')
        for n in ns:
            t = unage(g.arg(n, 'params') or n.data['args'][-1])
            ok = t[0] == 'rec' and t[1] == COM + cls
            ctx.ob('query-is-what-was-given', k, ok, n.loc,
                   f'a {k} query does not ask for {cls}',
                   g.show_path([n.id]) if not ok else None)
            for name, v in (t[2] if ok else ()):
                given(n, v, name, 'query-is-what-was-given', k)
            r = n.data['res']
            tells = lambda m: m.kind == 'call' and m.data['callee'].split(
                '.')[-1] in ('print', 'write') and any(
                told_json(x, r) for x in m.data['args'])
            ds = done_of(g, {n.id}) or [n]
            res = [(n.loc, None if tells(d) else g.unfollowed(
                d, tells, lambda m: m.id in {x.id for x in rets},
                lambda m: stop(m) or m.kind in THROW)) for d in ds]
            once(ctx, 'result-is-told', k, res, fg=g,
                 msg='the result of the query may not be printed')
    # -------------------------------------------------------- subscriptions
    subs = [n for n in con if A.chosen(n.facts, 'action') == 'subscribe']
    ctx.need('subscribed connections', len(subs))
    res, cbs = [], []
    for n in subs:
        given(n, g.arg(n, 'server_id'), 'server_id',
              'subscribes-as-asked', 'subscription')
        given(n, g.arg(n, 'persisted'), 'persisted',
              'subscribes-as-asked', 'subscription')
        t = g.arg(n, 'subscriptions') or NONE
        some = given_types(A, g, n, t)
        es = [unage(x) for x, _ in elements(g, n, t)]
        ok = some or es == [('tup', (const('*'), ))]
        p = [n.id] if not ok else g.unpreceded(
            n, lambda m: m.kind == 'assume' and m.data['atom'][0] in (
                'truthy', 'empty') and given_types(A, g, m, inside(
                    m.data['atom'][1])) and m.data['pol'] == (
                    some == (m.data['atom'][0] == 'truthy')))
        res.append((n.loc, p))
        cb = callee_of(prog, g.arg(n, 'events_cb') or NONE)
        ctx.ob('subscribes-as-asked', 'events', cb is not None, n.loc,
               'nothing is done with notified events')
        if cb is not None and cb not in cbs:
            cbs.append(cb)
    once(ctx, 'subscribes-as-asked', 'event types', res, fg=g,
         msg='what is subscribed to is not the given event types, or all '
             'events where none are given')
    res = []
    for n in subs:
        r = unage(n.data['res'])
        over = lambda m: m.kind == 'suspend' and any(
            g.nodes[p].kind == 'call' and g.nodes[p].data['callee'].split(
                '.')[-1] in ('wait_closing', 'wait_closed') and unage(
                g.nodes[p].data['base'] or NONE) == r for p in m.pred)
        for d in done_of(g, {n.id}):
            res.append((n.loc, g.unfollowed(
                d, over, lambda m: m.kind == 'call' and m.data['callee'].
                split('.')[-1] in ('async_close', 'close'),
                lambda m: stop(m) or m.kind in THROW)))
    once(ctx, 'subscribes-as-asked', 'duration', res, fg=g,
         msg='watching ends while the connection is there')
    for cb in cbs:
        h = ctx.flow(cb, opq)
        w = short(cb.qual)
        ps = [p for p in cb.params if p != 'self']
        src = is_param(ps[-1])
        outs = [n for n in h.kind('call') if n.data['callee'].split('.')[
            -1] in ('print', 'write')]
        ctx.need('outputs of notified events', len(outs))
        res = []
        full = {n.id for n in outs if any(
            whole(h, n, x, src) for x in n.data['args'])}
        each = {n.id for n in outs if any(
            contains_event(x, src) for x in n.data['args'])}
        q = h.unfollowed(h.entry, lambda m: m.id in full, h.is_return)
        if q is not None and each:
            its = [n for n in h.kind('iter') if src(seq_base(n.data['iter']))]
            res += [(i.loc, h.skipped(i, lambda m: m.id in each,
                                      lambda a, b: False) or h.early(i))
                    for i in its]
        else:
            res.append((cb.loc, q))
            for i in h.kind('iter'):
                if src(seq_base(i.data['iter'])):
                    res.append((i.loc, h.skipped(
                        i, lambda m: m.kind == 'add',
                        lambda a, b: False) or h.early(i)))
        once(ctx, 'notified-events-are-told', w, res, fg=h,
             msg='notified events may not all be printed')


def inside(t):
    while t[0] == 'op' and t[1] in ('content', 'len', 'bool'):
        t = t[2]
    return t


def given_types(A, g, n, t):
    """the sequence is the event types that were given"""
    if A.is_(seq_base(t), 'event_types'):
        return True
    if t[0] != 'o':
        return False
    es = [x for x, _ in elements(g, n, t)]
    return bool(es) and all(x[0] == 'el' and A.is_(
        seq_base(x[1]), 'event_types') for x in es)


def contains_event(t, src):
    """what is printed tells an element of the events"""
    t = unage(t)
    c, a = called(t)
    if c == JSON + 'encode' and a:
        c, a = called(a[0])
    return c is not None and c.endswith('event_to_json') and bool(
        a) and elem_of(a[0], src)


def whole(h, n, t, src):
    """what is printed is a list of all events, each as JSON"""
    t = unage(t)
    c, a = called(t)
    if c != JSON + 'encode' or not a:
        return False
    es = elements(h, n, a[0])
    ok = []
    for x, _ in {(unage(x), m.ast): (x, m) for x, m in es}.values():
        c, b = called(x)
        ok.append(c is not None and c.endswith('event_to_json') and bool(
            b) and elem_of(b[0], src))
    return len(ok) == 1 and all(ok)


def told_json(t, res):
    """the text is the result as JSON"""
    c, a = called(t)
    if c != JSON + 'encode' or not a:
        return False
    c, a = called(a[0])
    return c is not None and c.endswith('query_result_to_json') and bool(
        a) and same(a[0], res)


def sent_of(g, n):
    sent = n.data['args'][-1] if n.data['args'] else NONE
    return g.arg(n, 'events') or sent


def sent_here(g, n, t):
    """(events, is it always one) of what is registered at n"""
    t = seq_base(t)
    recs, one = [], True
    if t[0] == 'o':
        ids = {m.id for m in adds_to(g, t)}
        back = g.reach([n], block=lambda m: m.id in ids, back=True)
        one = g.entry.id not in back
        for i in nearest(g, n, ids):
            recs.append(g.nodes[i].data['value'])
            one = one and not nearest(g, g.nodes[i], ids)
    else:
        recs = [x for x, _ in elements(g, n, t)]
        one = len(recs) == 1
    one = one and bool(recs) and all(
        x[0] == 'rec' and x[1] == COM + 'RegisterEvent' for x in recs)
    return recs, one


def fits_enum(ctx, ty, kind, opq):
    p = parses(ctx, ty, kind, opq)
    return p is not None and bool(p[1]) and all(q is None for _, q in p[1])


def chooses(g, n, ch):
    """can a given text become one of the choices"""
    ty = dict(n.data['kws']).get('type')
    es = [unage(x) for x, _ in elements(g, n, ch)]
    if not es:
        return True
    text = [x[0] == 'c' and x[1] == 'str' or x[0] == 'a' and x[
        2] == 'name' or x[0] == 'g' and x[1].endswith('.name') for x in es]
    if ty is None or ty == ('g', 'str'):
        return all(text)
    if ty == ('g', 'int'):
        return not any(text)
    return not any(text) or callee_of(g.flow.p, ty) is None


def member(t):
    """member of the enum of formats"""
    return t[1].split('.')[-1] if t[0] == 'g' and t[1].startswith(
        JSON + 'Format.') else None


def impossible(facts):
    """the facts contradict that formats are distinct and true"""
    for a, pol in facts:
        if a[0] == 'truthy' and member(a[1]) and not pol:
            return True
        if a[0] == 'eq' and member(a[1]) and member(a[2]) and pol != (
                a[1] == a[2]):
            return True
        if a[0] == 'none' and member(a[1]) and pol:
            return True
    return False


def against(A, atom, pol, kind, std):
    """the literal can not hold where the payload is of the type (None
    where it is not given), and read from standard input or not"""
    if impossible([(atom, pol)]):
        return True
    if atom[0] == 'eq':
        for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
            if A.is_(x, 'payload_type') and y[0] == 'c':
                return (y[2] == kind) != pol
        if any(A.is_(y, 'payload_path') for y in subterms(atom)) and any(
                y == const('-') for y in subterms(atom)):
            return std != pol
    if atom[0] == 'none' and A.is_(atom[1], 'payload_type'):
        return (kind is None) != pol
    if atom[0] == 'truthy' and A.is_(atom[1], 'payload_type'):
        return (kind is not None) != pol
    return False


def payload(A, t, kind, std):
    """the payload is what the arguments call for"""
    if t is None:
        return False
    t = unage(t)
    if kind == 'none' or t == NONE:
        return kind == 'none' and t == NONE
    if t[0] != 'rec':
        return False
    fs = dict(t[2])
    data = unage(fs.get('data', NONE))

    def source(x):
        if std:
            return any(isinstance(y, str) and 'stdin' in y
                       for z in subterms(x) for y in z)
        return any(A.is_(y, 'payload_path') for y in subterms(x))

    if t[1] == COM + 'EventPayloadBinary':
        return (kind == 'binary' or kind is None and not std) and A.is_(
            fs.get('type', NONE), 'binary_type') and source(data)
    if t[1] == COM + 'EventPayloadJson':
        c, a = called(data)
        if c not in (JSON + 'decode_file', JSON + 'decode_stream',
                     JSON + 'decode') or not a or not source(a[0]):
            return False
        fm = a[1] if len(a) > 1 else None
        if kind in FORMATS:
            return fm is not None and member(fm) == FORMATS[kind]
        if kind is not None:
            return False
        if std:
            return fm is None or member(fm) == 'JSON'
        return fm is None or called(fm)[0] == JSON + 'get_file_format'
    return False


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)
