"""LMDB backend: references of events and server queries."""

from ..check import check
from ..program import AnalysisError
from ..terms import *   # NOQA
from .util import *     # NOQA
from .eventer_server2 import THROW
from .lmdb_backend import LM, EXECUTE, own_args, executed
from .lmdb_latest import DB, db_of, decoded, lookup
from .runners import outside

RE = LM + 'refdb.'
RD = RE + 'RefDb.'
ENV = LM + 'environment.'


def encoded(t, how):
    """what is encoded by encode_key or encode_value"""
    if t[0] == 'm' and t[2] == how and len(t[3]) == 1:
        return t[3][0]
    if t[0] == 'r' and t[2][0] == 'call' and t[2][1].endswith('.' + how):
        return t[2][-1]
    if t[0] == 'op' and t[1] == 'bytes' and len(t) == 3:
        return encoded(t[2], how)
    return None


def decodes(t, how):
    """what is decoded"""
    if t[0] == 'm' and t[2] == how and len(t[3]) == 1:
        return t[3][0]
    if t[0] == 'r' and t[2][0] == 'call' and t[2][1].endswith('.' + how):
        return t[2][-1]
    return None


def is_len(t, of=None):
    return t[0] == 'op' and t[1] == 'len' and (of is None or of(t[2]))


@check('C25')
def references(ctx):
    names = added(ctx)
    removed(ctx, names)
    stored(ctx, names)
    cleaned(ctx)
    ext = queried(ctx, names)
    scanned(ctx, ext)


def pending(t, server):
    """t are the pending changes of the server, or a lookup of them"""
    x = lookup(t)
    return x is not None and x[0][0] == 'a' and x[0][1] == ('p', 'self') \
        and server(x[1])


def added(ctx):
    prog = ctx.prog
    g = ctx.flow(RD + 'add', outside(prog, RE))
    where = short(g.func.qual)
    ev, refs = (('p', x) for x in g.func.params[1:3])
    eid = ('a', ev, 'id', None)
    srv = lambda t: t == ('a', eid, 'server', None)
    throw = lambda m: m.kind in THROW
    keep = [n for n in g.kind('setitem') if n.data['key'] == eid and
            n.data['base'][0] == 'a' and pending(n.data['base'][1], srv)]
    last = [n for n in g.kind('setitem') if srv(n.data['key']) and
            n.data['value'] == eid and n.data['base'][0] == 'a' and
            n.data['base'][1] == ('p', 'self')]
    ctx.need('pending additions', len(keep))
    ctx.need('last ids', len(last))
    names = {'added': keep[0].data['base'][2],
             'changes': lookup(keep[0].data['base'][1])[0][2]}
    res = []
    lid = {n.data['base'][2] for n in last}
    known = lambda t: (lambda x: x is not None and x[0][0] == 'a' and
                       x[0][2] in lid and srv(x[1]))(lookup(t))
    fresh = any_lit(
        neg(truthy_lit(known)), none_lit(known),
        lambda a, b: not b and a[0] == 'in' and srv(a[1]),
        lambda a, b: a[0] in ('lt', 'le') and not b and a[1] == eid and
        known(a[2]),
        lambda a, b: a[0] in ('lt', 'le') and b and known(a[1]) and
        a[2] == eid)
    for n in keep + last:
        res.append((n.loc, g.unheld(n, fresh, set())))
    for n in keep:
        v = n.data['value']
        ok = v[0] == 'tup' and len(v[1]) == 2 and v[1][0] == ev
        if ok:
            s = v[1][1]
            ok = s[0] == 'o' and s[1] == 'set' and all(
                elem_of(x, is_(refs)) for x in [
                    m.data['value'] for m in adds_to(g, s)]) and bool(
                        adds_to(g, s)) or s[:2] == ('op', 'set')
        res.append((n.loc, None if ok else [n.id]))
    for ids in ({n.id for n in keep}, {n.id for n in last}):
        res.append((g.func.loc, g.unfollowed(
            g.entry, lambda m: m.id in ids, g.is_return, throw)))
    once(ctx, 'added-in-order', where, res, fg=g,
         msg='an event is not kept with its references, or one older than '
             'the last of its server is')
    return names


def removed(ctx, names):
    prog = ctx.prog
    g = ctx.flow(RD + 'remove', outside(prog, RE))
    where = short(g.func.qual)
    eid, ref = (('p', x) for x in g.func.params[1:3])
    throw = lambda m: m.kind in THROW
    srv = lambda t: t == ('a', eid, 'server', None)
    chg = lambda t: t[0] == 'a' and pending(t[1], srv)
    add = lambda t: chg(t) and t[2] == names['added']

    def entry(t):
        x = lookup(t)
        return x is not None and add(x[0]) and x[1] == eid
    refs = lambda t: t[0] == 'i' and entry(t[1]) and t[2] == const(1)
    drop = [n for n in g.calls('.remove', '.discard')
            if refs(n.data['base']) and own_args(g, n) == [ref]]
    put = [n for n in g.kind('add') if n.data['value'] == ref and
           lookup(n.data['obj']) and chg(lookup(n.data['obj'])[0]) and
           lookup(n.data['obj'])[1] == eid]
    ctx.need('references dropped', len(drop))
    ctx.need('removals kept', len(put))
    names['removed'] = lookup(put[0].data['obj'])[0][2]
    pops = [n for n in g.calls('.pop', '.__delitem__')
            if n.data['base'] and add(n.data['base']) and
            own_args(g, n)[:1] == [eid]]
    res, res2 = [], []
    did, pid, oid = ({n.id for n in x} for x in (drop, put, pops))
    res.append((g.func.loc, g.unfollowed(
        g.entry, lambda m: m.id in did | pid, g.is_return, throw)))
    inn = lambda a, b: b and a[0] == 'in' and a[1] == ref and refs(a[2])
    out = any_lit(neg(inn), neg(truthy_lit(entry)), none_lit(entry))
    for n in drop:
        if n.data['callee'] == '.remove':
            res.append((n.loc, g.unheld(n, inn, set())))
    for n in put:
        res.append((n.loc, None if n.data['obj'][2] != names['added']
                    else [n.id]))
        # not pending any more, or dropped as well
        p = g.unheld(n, out, set())
        res.append((n.loc, p and g.unpreceded(n, lambda m: m.id in did)))
    left = any_lit(truthy_lit(refs), truthy_lit(
        lambda t: t[0] == 'op' and t[1] == 'content' and refs(t[2])))
    for n in drop:
        res2.append((n.loc, g.unfollowed(
            n, lambda m: m.id in oid, g.is_return,
            lambda m: throw(m) or assume_block(left)(m))))
    for n in pops:
        res2.append((n.loc, g.unheld(n, neg(left), set())))
        res2.append((n.loc, g.unpreceded(n, lambda m: m.id in did)))
    once(ctx, 'removed-reference-is-forgotten', where, res, fg=g,
         msg='a reference to be removed is neither taken from a pending '
             'event nor kept to be removed from the database')
    once(ctx, 'events-without-references-are-dropped', where, res2, fg=g,
         msg='a pending event whose references are all removed stays, or '
             'one that has some is dropped')


def _rows(ctx, g, rule, rows, changes, msg):
    """every row is read, changed and written back or deleted

    rows: literal-like test of the decoded key; changes: {name: (is the
    value by which the row changes, excuse)}
    """
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    curs = {unage(n.data['res']) for n in g.kind('call')
            if n.data['callee'].endswith('cursor') and
            ('g', DB + 'REF') in n.data['args']}
    reads = [n for n in g.calls('.pop', '.get') if n.data['base'] and unage(
        n.data['base']) in curs]
    dels = [n for n in g.calls('.pop', '.delete') if n.data['base'] and
            unage(n.data['base']) in curs]
    puts = [n for n in g.calls('.put', '.replace') if n.data['base'] and
            unage(n.data['base']) in curs]
    ctx.need(f'rows read in {where}', len(reads))
    ctx.need(f'rows written in {where}', len(puts))
    its = [it for it in g.kind('iter') if rows(it.data['value'])]
    ctx.need(f'walks in {where}', len(its))
    res = []
    key = lambda n: encoded(own_args(g, n)[0], 'encode_key') \
        if own_args(g, n) else None
    for it in its:
        e = it.data['value']
        mine = {n.id for n in reads if key(n) is not None and contains(
            key(n), unage(e))}
        res.append((it.loc, g.skipped(it, lambda m: m.id in mine,
                                      lambda a, b: False)))
        res.append((it.loc, g.early(it)))
    for n in reads:
        k = key(n)
        r = unage(n.data['res'])
        none = lambda a, b: (a[0] == 'truthy' and not b or a[0] == 'none' and
                             b) and unage(a[1]) == r
        it = [x for x in its if k is not None and contains(
            k, unage(x.data['value']))]
        if not it:
            res.append((n.loc, [n.id]))
            continue
        it = it[0]
        nxt = g.loop_next(it)
        old = lambda t: (lambda x: x is not None and unage(x) == r)(
            decodes(seq_base(t), 'decode_value')) or t[:2] == (
                'op', 'set') and len(t) == 3 and old(t[2])
        tgt = set()
        par = g.reach([n], block=nxt)
        mp = [p for p in puts if p.id in par]
        for p in mp:
            a = own_args(g, p)
            v = encoded(a[1], 'encode_value') if len(a) > 1 else None
            ok = v is not None and key(p) is not None and \
                unage(key(p)) == unage(k)
            res.append((p.loc, None if ok else [p.id]))
            if not ok:
                continue
            tgt.add(unage(v))
            if not old(v):
                ok = v[0] == 'o' and v[1] == 'set' or v[0] == 'op'
                res.append((p.loc, None if ok else [p.id]))
                if v[0] == 'o':
                    fromold = any(
                        elem_of(m.data['value'], old)
                        for m in adds_to(g, v))
                    if not fromold:
                        res.append((p.loc, g.unheld(p, none, set())))
        # the value is changed as told
        gone, came = set(), set()
        for name, (how, by, excuse) in changes.items():
            by_, ex_ = by(it.data['value']), excuse(it.data['value'])

            def done(m):
                if m.kind == 'call' and m.data['callee'] in how and \
                        m.data['base'] and unage(m.data['base']) in tgt:
                    return any(by_(x) for x in own_args(g, m))
                if m.kind == 'add' and '.add' in how and unage(
                        m.data['obj']) in tgt:
                    v = m.data['value']
                    return by_(v) or v[0] == 'el' and by_(seq_base(v[1]))
                if m.kind == 'merge' and unage(m.data['base']) in tgt:
                    return by_(m.data['value'])
                if m.kind == 'iterend' and by_(m.data['iter']):
                    # one by one
                    each = [x for x in g.kind('iter') if x.ast is m.ast and
                            x.data['iter'] == m.data['iter'] and x.id in par]
                    return not any(g.early(x) or g.skipped(
                        x, one(x.data['value']), lambda a, b: False)
                        for x in each)
                return False

            def one(e):
                def step(m):
                    if m.kind == 'add' and '.add' in how:
                        return unage(m.data['obj']) in tgt and same(
                            m.data['value'], e)
                    return m.kind == 'call' and m.data['callee'] in how and \
                        m.data['base'] and unage(m.data['base']) in tgt and \
                        any(same(x, e) for x in own_args(g, m))
                return step
            calls = {i for i in par if done(g.nodes[i])}
            ends = lambda m: m in mp or nxt(m)
            exb = assume_block(ex_)
            p = g.unfollowed(n, lambda m: m.id in calls, ends,
                             lambda m: throw(m) or exb(m) or
                             name == 'gone' and assume_block(none)(m))
            if p is not None and not any(_mixes(t, by_, how) for t in tgt):
                res.append((n.loc, p))
            if name == 'gone':
                gone = calls
            else:
                came = calls
        if 'gone' in changes and 'came' in changes:
            for i in gone:
                p2 = g.reach(g.nodes[i].succ, block=nxt)
                hit = [j for j in p2 if j in came]
                res.append((g.nodes[i].loc, g.path(p2, hit[0]) if hit
                            else None))
        # not written only if nothing is left
        nothing = lambda a, b: a[0] == 'truthy' and not b and (
            unage(a[1]) in tgt or a[1][0] == 'op' and a[1][1] in (
                'content', 'len') and unage(a[1][2]) in tgt) or \
            'came' not in changes and none(a, b)
        mid = {p.id for p in mp}
        nob, abs_ = assume_block(nothing), assume_block(none)
        res.append((n.loc, g.unfollowed(
            n, lambda m: m.id in mid, nxt,
            lambda m: throw(m) or nob(m) or abs_(m))))
        if 'came' in changes:
            # a new row
            for i in came:
                if g.nodes[i].kind == 'iterend':
                    continue
                res.append((n.loc, g.unfollowed(
                    g.nodes[i], lambda m: m.id in mid, nxt,
                    lambda m: throw(m) or nob(m))))
        if n.data['callee'] != '.pop':
            did = {m.id for m in dels}
            res.append((n.loc, g.unfollowed(
                n, lambda m: m.id in mid | did, nxt,
                lambda m: throw(m) or assume_block(none)(m))))
        for p in mp:
            none_left = lambda a, b: nothing(a, b) and not none(a, b)
            hit = assume_block(none_left)
            for m in g.nodes:
                if m.kind == 'assume' and none_left(
                        m.data['atom'], m.data['pol']):
                    q = g.reach([m], block=nxt)
                    res.append((p.loc, g.path(q, p.id) if p.id in q
                                else None))
    once(ctx, rule, where, res, fg=g, msg=msg)


def _mixes(t, by, how):
    """the written value is an expression that takes part of by"""
    return t[0] == 'op' and any(by(x) for x in subterms(t) if x)


def stored(ctx, names):
    prog = ctx.prog
    g = ctx.flow(RD + 'ext_write', outside(prog, RE))
    chg = ('p', g.func.params[2])
    sc = lambda t: t[0] == 'el' and t[1][0] == 'm' and t[1][2] == \
        'values' and t[1][1] == chg or t[0] == 'i' and t[1][0] == 'el' and \
        t[1][1] == ('m', chg, 'items', (), t[1][1][-1]) and \
        t[2] == const(1)
    part = lambda f: lambda t: t[0] == 'a' and t[2] == f and sc(t[1])
    both = (names['added'], names['removed'])

    def rows(t):
        return t[0] in ('op', 'el') and any(
            part(f)(x) for f in both for x in subterms(t) if x) and not any(
                x[0] == 'm' and x[2] in ('get', ) for x in subterms(t) if x)

    def of(f):
        def by(e):
            def lit(t):
                if f == names['added']:
                    return t[0] == 'i' and t[2] == const(1) and \
                        entry(f, e)(t[1])
                return entry(f, e)(t)
            return lit
        return by

    def entry(f, e):
        def lit(t):
            x = lookup(t)
            if x is None and t[0] == 'm' and t[2] == 'get' and t[3][1:] and (
                    t[3][1] in (const(()), ('tup', ()))):
                x = t[1], t[3][0]
            return x is not None and part(f)(x[0]) and unage(
                x[1]) == unage(e)
        return lit

    def excuse(f):
        return lambda e: any_lit(
            neg(truthy_lit(entry(f, e))), none_lit(entry(f, e)),
            lambda a, b: not b and a[0] == 'in' and unage(a[1]) == unage(e)
            and part(f)(a[2]))
    _rows(ctx, g, 'references-are-written', rows, {
        'came': (('.update', '.add', '.__ior__'), of(names['added']),
                 excuse(names['added'])),
        'gone': (('.difference_update', '.discard', '.__isub__'),
                 of(names['removed']), excuse(names['removed']))},
        msg='the stored references of an event are not those it had, with '
            'the added ones and without the removed ones')
    # of every server, added and removed
    where = short(g.func.qual)
    res = []
    srv = [it for it in g.kind('iter') if sc(it.data['value']) or
           it.data['value'][0] == 'el' and it.data['value'][1][0] == 'm' and
           it.data['value'][1][1] == chg]
    ctx.need('walks over servers', len(srv))
    for it in srv:
        res.append((it.loc, g.early(it)))
        inner = [x for x in g.kind('iter') if rows(x.data['value'])]
        ends = {n.id for n in g.kind('iterend') if any(
            n.ast is x.ast for x in inner)}
        res.append((it.loc, g.skipped(
            it, lambda m: m.id in ends, lambda a, b: False)))
        for f in both:
            has = [x for x in inner if any(
                part(f)(y) for y in subterms(x.data['value']) if y)]
            res.append((it.loc, None if has else [it.id]))
    once(ctx, 'all-servers-are-written', where, res, fg=g,
         msg='changed references of some events are not written')


def cleaned(ctx):
    prog = ctx.prog
    g = ctx.flow(RD + 'ext_cleanup', outside(prog, RE))
    refs = ('p', g.func.params[2])
    rows = lambda t: elem_of(t, is_(refs))
    _rows(ctx, g, 'cleaned-references-are-removed', rows, {
        'gone': (('.discard', '.remove', '.difference_update'),
                 lambda e: lambda t: unage(t) == unage(
                     ('i', e, const(1), None)) or t[0] in ('o', 'tup'),
                 lambda e: lambda a, b: not b and a[0] == 'in' and unage(
                     a[1]) == unage(('i', e, const(1), None)))},
        msg='a reference to a cleaned up event stays, or another is removed')


def queried(ctx, names):
    prog = ctx.prog
    g = ctx.flow(RD + 'query', outside(prog, RE))
    where = short(g.func.qual)
    params = ('p', g.func.params[1])
    par = lambda f: ('a', params, f, None)
    cap = lambda t: t[0] == 'a' and t[1] == ('p', 'self') and \
        t[2] != names['changes']
    asked = par('max_results')
    execs = g.calls(EXECUTE)
    ctx.need('database queries', len(execs))
    res, res2, res3 = [], [], []
    ext = {executed(n) for n in execs}
    if len(ext) != 1 or callee_of(prog, list(ext)[0]) is None:
        raise AnalysisError('the query function is not known')
    ext = callee_of(prog, ext.pop())
    roles = {}
    # servers differ
    for n in execs:
        a = own_args(g, n)[1:]
        lim = [x for x in a if x[:2] == ('op', 'lin')]
        ok = len(lim) == 1 and lim[0][2] >= 1 and len(lim[0][3]) == 1 and \
            lim[0][3][0][1] == 1 and par('server_id') in a and \
            par('last_event_id') in a
        res.append((n.loc, None if ok else [n.id]))
        if not ok:
            continue
        roles = {'limit': a.index(lim[0]), 'server': a.index(
            par('server_id')), 'last': a.index(par('last_event_id'))}
        mr = lim[0][3][0][0]
        fits = any_lit(
            lambda x, b: x[0] in ('lt', 'le') and b and x[1] == asked and
            cap(x[2]), lambda x, b: x[0] in ('lt', 'le') and not b and
            cap(x[1]) and x[2] == asked)
        if mr == asked:
            res.append((n.loc, g.unheld(n, fits, set())))
            res.append((n.loc, g.unheld(n, neg(none_lit(is_(asked))),
                                        set())))
        elif cap(mr):
            res.append((n.loc, g.unheld(n, any_lit(
                none_lit(is_(asked)), neg(fits)), set())))
        elif mr[0] == 'op' and mr[1] == 'min' or call_args(mr, 'min'):
            ok = any(x == asked for x in subterms(mr)) and any(
                cap(x) for x in subterms(mr) if x)
            res.append((n.loc, None if ok else [n.id]))
        else:
            res.append((n.loc, [n.id]))
        res.append((n.loc, g.unheld(n, any_lit(
            none_lit(is_(par('last_event_id'))),
            neg(truthy_lit(is_(par('last_event_id')))),
            eq_lit(is_(('a', par('last_event_id'), 'server', None)),
                   is_(par('server_id')))), set())))
    once(ctx, 'what-is-asked-for', where, res, fg=g,
         msg='the database is not asked for one event more than the limit, '
             'of the given server, after the given event')
    evs = {unage(n.data['res']): n for n in execs if n.data['res']}
    result = lambda t: unage(seq_base(t)) in evs

    def mr_of(t):
        n = evs[unage(seq_base(t))]
        lim = [x for x in own_args(g, n)[1:] if x[:2] == ('op', 'lin')]
        return lim[0][3][0][0] if lim else None
    # pending events
    chg = lambda t: t[0] == 'a' and t[1] == ('p', 'self') and \
        t[2] == names['changes']

    def late(t):
        return any(x[0] == 'a' and chg(x) and x[3] and x[3][1]
                   for x in subterms(t) if x)
    its = [it for it in g.kind('iter') if any(
        chg(x) for x in subterms(it.data['iter']) if x)]
    ctx.need('walks over pending events', len(its))

    def own(t):
        """pending events of the asked server, in order"""
        b = seq_base(t)
        if b[0] == 'm' and b[2] in ('items', 'values'):
            a = b[1]
            x = lookup(a[1]) if a[0] == 'a' and a[2] == names['added'] \
                else None
            if x is not None and chg(x[0]) and x[1] == par('server_id'):
                return b[2]
        return None

    def event(it):
        e = it.data['value']
        if own(it.data['iter']) == 'items':
            e = ('i', e, const(1), None)
        return unage(('i', e, const(0), None))
    full = lambda a, b: (
        a[0] == 'lt' and b and is_len(a[2], result) and
        a[1] == mr_of(a[2][2]) or
        a[0] == 'le' and b and is_len(a[2], result) and
        a[1][:2] == ('op', 'lin') or
        a[0] == 'le' and not b and is_len(a[1], result) and
        a[2] == mr_of(a[1][2]) or
        a[0] == 'lt' and not b and is_len(a[1], result) and
        a[2][:2] == ('op', 'lin'))
    hidden = any_lit(truthy_lit(is_(par('persisted'))), full)
    nothing = lambda a, b: not b and a[0] == 'truthy' and (
        lookup(a[1]) is not None and chg(lookup(a[1])[0]) or
        a[1][0] == 'a' and a[1][2] == names['added']) or b and \
        a[0] == 'none' and lookup(a[1]) is not None or not b and \
        a[0] == 'in' and chg(a[2])
    for it in its:
        res2.append((it.loc, None if own(it.data['iter']) and not late(
            it.data['iter']) else [it.id]))
        if not own(it.data['iter']):
            continue
        e = event(it)
        res2.append((it.loc, g.unheld(it, neg(truthy_lit(is_(par(
            'persisted')))), set())))
        res2.append((it.loc, g.unheld(it, neg(full), set())))
        ids = {n.id for n in g.kind('add') if unage(n.data['value']) == e}
        after = lambda a, b: a[0] == 'lt' and b and last(a[1]) and unage(
            a[2]) == ('a', e, 'id', None) or a[0] == 'le' and not b and \
            last(a[2]) and unage(a[1]) == ('a', e, 'id', None)

        def last(t):
            return t == par('last_event_id') or t[0] == 'a' and \
                t[2] == 'id' and t[1][0] == 'i' and t[1][2] == const(
                    -1) and result(t[1][1])
        res2.append((it.loc, g.skipped(it, lambda m: m.id in ids,
                                       neg(after))))
        # the prefix up to the last event is left out
        for m in g.kind('assume'):
            if after(m.data['atom'], True) or after(m.data['atom'], False):
                t = [x for x in m.data['atom'][1:] if isinstance(x, tuple)
                     and last(x)]
                some = any_lit(truthy_lit(result), truthy_lit(
                    lambda t: t[0] == 'op' and t[1] in ('content', 'len')
                    and result(t[2])))
                for x in t:
                    res2.append((m.loc, g.unheld(
                        m, neg(some) if x == par('last_event_id') else some,
                        set())))
                if neg(after)(m.data['atom'], m.data['pol']):
                    p = g.reach([m], block=g.loop_next(it))
                    hit = [i for i in p if i in ids]
                    res2.append((m.loc, g.path(p, hit[0]) if hit else None))
        no_last = any_lit(
            neg(truthy_lit(last)), none_lit(last))
        okb = assume_block(any_lit(after, no_last))
        prev = [i for i in g.reach([it.id], back=True) if i != it.id and
                g.nodes[i].kind == 'iter' and g.loop_next(it)(g.nodes[i])]
        if not prev:
            # the first one is compared
            for i in ids:
                if i in g.reach([it], block=g.loop_next(it)):
                    q = g.reach([g.nodes[i]], back=True, block=okb)
                    res2.append((it.loc, g.path(q, 0)[::-1]
                                 if 0 in q and it.id in q else None))
    rets = [n for n in g.nodes if g.is_return(n)]
    ends = {n.id for n in g.kind('iterend') if own(n.data['iter'])}
    ends |= {n.id for n in g.kind('add') if any(
        unage(n.data['value']) == event(it) for it in its
        if own(it.data['iter']))}
    passed = assume_block(any_lit(hidden, nothing))
    for n in rets:
        q = g.reach([n], back=True, block=lambda m: m.id in ends or
                    passed(m))
        res2.append((n.loc, g.path(q, 0)[::-1] if 0 in q else None))
    once(ctx, 'pending-events-follow', where, res2, fg=g,
         msg='events that are registered but not yet written are missing, '
             'are returned though persisted ones were asked for, repeat '
             'events read from the database, or were taken after the wait')
    for n in g.enters('$models.islice'):
        k = g.arg(n, 'n')
        if k is None or k[:2] != ('op', 'lin'):
            res3.append((n.loc, [n.id]))
            continue
        d = {unage(t): c for t, c in k[3]}
        ln = [t for t in d if is_len(t, result)]
        ok = k[2] >= 1 and len(ln) == 1 and d[ln[0]] == -1 and \
            len(d) == 2 and d.get(unage(mr_of(ln[0][2]))) == 1
        res3.append((n.loc, None if ok else [n.id]))
    # the result
    for n in rets:
        v = n.data['value']
        if v[0] != 'rec' or not v[1].endswith('.QueryResult'):
            raise AnalysisError('unknown query result')
        f = dict(v[2])
        o = f['events']
        parts = [m.data['value'] for m in adds_to(g, o)
                 if m.id in g.reach([n], back=True)] if o[0] == 'o' else [
                     ('el', o, None)]
        more = f['more_follows']
        for x in parts:
            src = seq_base(x[1]) if x[0] == 'el' else x
            cut = src[0] == 'op' and src[1].split('.')[-1] in (
                'islice', 'slice')
            if cut:
                b = src[2]
                if b[0] == 'o':
                    # a list of the same
                    a = [m.data['value'] for m in adds_to(g, b)
                         if m.id in g.reach([n], back=True)]
                    if len(a) == 1 and a[0][0] == 'el':
                        b = seq_base(a[0][1])
                top = [y for y in src[3:] if y != const(None) and
                       y != const(0)]
                ok = result(b) and top == [mr_of(b)]
                res3.append((n.loc, None if ok else [n.id]))
                if more == const(True):
                    res3.append((n.loc, g.unheld(n, _over(
                        is_len, result, mr_of, True), set())))
                elif more == const(False):
                    res3.append((n.loc, g.unheld(n, _over(
                        is_len, result, mr_of, False), set())))
                else:
                    res3.append((n.loc, None if more[:2] == (
                        'op', 'lt') or more[0] == 'cmp' else [n.id]))
            elif result(src):
                res3.append((n.loc, None if more == const(False) else
                             [n.id]))
                res3.append((n.loc, g.unheld(n, _over(
                    is_len, result, mr_of, False), set())))
            else:
                res3.append((n.loc, [n.id]))
    once(ctx, 'results-are-limited', where, res3, fg=g,
         msg='more events than asked for are returned, some are cut off '
             'without telling, or more is told to follow when nothing does')
    return ext, roles


def _over(is_len, result, mr_of, pol):
    def lit(a, b):
        if a[0] == 'lt' and is_len(a[2], result):
            return b == pol and a[1] == mr_of(a[2][2])
        if a[0] == 'le' and is_len(a[1], result):
            return b != pol and a[2] == mr_of(a[1][2])
        return False
    return lit


def scanned(ctx, found):
    prog = ctx.prog
    ext, roles = found
    g = ctx.flow(ext, outside(prog, RE))
    where = short(g.func.qual)
    throw = lambda m: m.kind in THROW
    ps = [('p', x) for x in g.func.params]
    if set(roles) != {'limit', 'server', 'last'}:
        raise AnalysisError('the arguments of the query are not known')
    lim, srv, last = (ps[roles[k]] for k in ('limit', 'server', 'last'))
    curs = {unage(n.data['res']): n for n in g.kind('call')
            if n.data['callee'].endswith('cursor') and
            ('g', DB + 'REF') in n.data['args']}
    mine = lambda n: n.data['base'] and unage(n.data['base']) in curs
    seeks = [n for n in g.calls('.set_range') if mine(n)]
    ctx.need('searches', len(seeks))
    values = [n for n in g.kind('call') if mine(n) and
              n.data['callee'] in ('.value', '.item')]
    nexts = [n for n in g.calls('.next') if mine(n)]
    ctx.need('steps', len(nexts))
    keyt = lambda t: (t[0] == 'm' and t[2] == 'key' and unage(t[1]) in curs
                      or t[0] == 'r' and t[2][:2] == ('call', '.key') or
                      t[0] == 'op' and t[1] == 'bytes' and keyt(t[2]))
    valt = lambda t: t[0] == 'm' and t[2] == 'value' and unage(t[1]) in curs
    res, res2, res3 = [], [], []

    def eid(t, server):
        if t[0] != 'rec' or not t[1].endswith('EventId'):
            return False
        f = dict(t[2])
        return server(f.get('server')) and f.get('session') == const(0) \
            and f.get('instance') == const(0)
    some = any_lit(truthy_lit(is_(last)), neg(none_lit(is_(last))))
    begin = {}
    for n in seeks:
        k = encoded(own_args(g, n)[0], 'encode_key')
        if k == last:
            res.append((n.loc, g.unheld(n, some, set())))
            begin[n.id] = own_args(g, n)[0]
        else:
            ok = k is not None and eid(k, lambda t: t == srv)
            res.append((n.loc, None if ok else [n.id]))
            res.append((n.loc, g.unheld(n, neg(some), set())))
    nid = {n.id for n in nexts}
    vid = {n.id for n in g.nodes if n.kind == 'call' and n.id in {
        v.id for v in values}}
    reads = [n for n in g.nodes if any(
        valt(x) for v in _vals(n) for x in subterms(v) if x)]
    rid = {n.id for n in reads} | vid
    ctx.need('rows read', len(rid))
    for i, enc in begin.items():
        n = g.nodes[i]
        samek = eq_lit(keyt, lambda t: encoded(t, 'encode_key') == last)
        greater = lambda a, b: a[0] == 'lt' and b and encoded(
            a[1], 'encode_key') == last and keyt(a[2])
        diff = assume_block(any_lit(neg(samek), greater))
        q = g.reach([n], block=lambda m: m.id in nid or diff(m))
        hit = [j for j in q if j in rid]
        res.append((n.loc, g.path(q, hit[0]) if hit else None))
        # the step is only over the given event
        q = g.reach(n.succ, block=lambda m: m.id in rid or assume_block(
            samek)(m))
        hit = [j for j in q if j in nid]
        res.append((n.loc, g.path(q, hit[0]) if hit else None))
    once(ctx, 'starts-after-the-given-event', where, res, fg=g,
         msg='a server query does not start at the first event after the '
             'given one')
    # the range
    def stop(t):
        k = encoded(t, 'encode_key')
        return k is not None and eid(k, lambda x: x == (
            'op', 'lin', 1, ((srv, 1), )))
    inside = any_lit(
        lambda a, b: a[0] == 'lt' and b and keyt(a[1]) and stop(a[2]),
        lambda a, b: a[0] == 'le' and not b and stop(a[1]) and keyt(a[2]))
    out = {seq_base(n.data['value']) for n in g.nodes if g.is_return(n)}
    adds = [n for n in g.kind('add') if n.data['obj'] in out]
    ctx.need('results', len(adds))
    cnt = lambda t: is_len(t, lambda o: o in out)
    room = any_lit(
        lambda a, b: a[0] == 'lt' and b and cnt(a[1]) and a[2] == lim,
        lambda a, b: a[0] == 'le' and not b and a[1] == lim and cnt(a[2]))
    avail = lambda t: t[0] == 'r' and t[2][1] in (
        '.next', '.set_range') and unage(t[2][2]) in curs
    over = any_lit(neg(inside), neg(room), neg(truthy_lit(avail)))
    aid = {n.id for n in adds}
    moved = nid | {n.id for n in seeks}
    for n in adds:
        res2.append((n.loc, None if n.data['how'] in (
            'add', 'append') else [n.id]))
        # since the cursor moved
        for lit in (inside, room):
            okb = assume_block(lit)
            q = g.reach([n], back=True, block=lambda m: okb(m))
            hit = [j for j in q if j in moved]
            res2.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
    for n in g.nodes:
        if g.is_return(n):
            ob = assume_block(over)
            q = g.reach([n], back=True, block=ob)
            hit = [j for j in q if j in moved]
            res2.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
    once(ctx, 'range-of-the-server', where, res2, fg=g,
         msg='events of another server or more than asked for are read, or '
             'the walk ends before that')
    # rows
    rowid = lambda t: (lambda x: x is not None and keyt(x))(
        decodes(t, 'decode_key'))
    for n in adds:
        v = n.data['value']
        res3.append((n.loc, guarded(g, n, v, lambda x: eq_lit(
            lambda t: t[0] == 'a' and t[2] == 'id' and unage(
                t[1]) == unage(x), rowid))))
        d = decodes(v, 'decode_value')
        ok = d is not None and len(db_of(v) & {
            'LATEST_DATA', 'TIMESERIES_DATA'}) == 1
        res3.append((n.loc, None if ok else [n.id]))
        if ok:
            # the reference tells the database
            name = (db_of(v) & {'LATEST_DATA', 'TIMESERIES_DATA'}).pop()
            cls = 'LatestEventRef' if name == 'LATEST_DATA' else \
                'TimeseriesEventRef'
            isref = lambda a, b: a[0] == 'isinst' and b and str(
                a[2]).find(cls) >= 0
            other = lambda a, b: a[0] == 'isinst' and not b and str(
                a[2]).find('LatestEventRef' if name != 'LATEST_DATA' else
                           'TimeseriesEventRef') >= 0
            q = g.reach([n], back=True, block=lambda m: assume_block(
                any_lit(isref, other))(m))
            hit = [j for j in q if j in moved]
            res3.append((n.loc, g.path(q, hit[0])[::-1] if hit else None))
    # what a row refers to is found, each row once
    refs = [it for it in g.kind('iter') if any(
        valt(x) for x in subterms(it.data['iter']) if x)]
    isid = lambda a, b: a[0] == 'eq' and not b and (
        rowid(a[1]) or rowid(a[2]))
    found_ = lambda t: decodes(t, 'decode_value') is not None and \
        db_of(t) & {'LATEST_DATA', 'TIMESERIES_DATA'}
    missing = lambda a, b: (a[0] == 'none' and b or a[0] == 'truthy' and
                            not b) and (found_(a[1]) or a[1][0] == 'm' and
                                        a[1][2] == 'get' or a[1][0] == 'r'
                                        and a[1][2][1] == '.get')
    for it in refs:
        exb = assume_block(any_lit(isid, missing))
        q = g.reach([it], block=lambda m: m.id in aid or throw(m) or
                    exb(m))
        hit = [j for j in q if j in nid or j != it.id and g.nodes[
            j].kind in (
            'iter', 'iterend') and g.loop_next(it)(g.nodes[j])]
        res3.append((it.loc, g.path(q, hit[0]) if hit else None))
    for n in nexts:
        q = g.reach([n], block=lambda m: m.id in rid)
        hit = [j for j in q if j in nid and j != n.id]
        res3.append((n.loc, g.path(q, hit[0]) if hit else None))
    for n in adds:
        q = g.reach([n], block=lambda m: m.id in nid)
        hit = [j for j in q if j in aid and j != n.id]
        res3.append((n.loc, g.path(q, hit[0]) if hit else None))
    for i in rid:
        # no row is looked at for ever
        q = g.reach([i], block=lambda m: m.id in nid or throw(m))
        lp = [j for j in q if g.nodes[j].kind == 'assume' and inside(
            g.nodes[j].data['atom'], g.nodes[j].data['pol'])]
        res3.append((g.nodes[i].loc, g.path(q, lp[0]) if lp else None))
    once(ctx, 'row-gives-its-event', where, res3, fg=g,
         msg='a row of the server is skipped or repeated, or another event '
             'than the one it belongs to is returned')


def _vals(n):
    for k, v in n.data.items():
        if isinstance(v, tuple):
            yield v
