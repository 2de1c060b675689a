"""settings, last event ids and last timestamps of a database (C37)"""
from ..check import check
from ..terms import *   # NOQA
from .util import *     # NOQA

LM = 'hat.event.backends.lmdb.'
MOD = LM + 'systemdb'
DB = LM + 'common.DbType.'
ENV = LM + 'environment.Environment.'
SET = LM + 'common.SettingsId.'


def reads(t, name):
    return any(x and x[0] == 'r' and x[2][0] == 'call' and x[2][1].split(
        '.')[-1] == 'ext_read' and ('g', DB + name) in x[2]
        for x in subterms(t))


def filled(g, name):
    """containers filled from the rows of a database"""
    out = set()
    for n in g.kind('add', 'merge', 'setitem'):
        o = n.data.get('obj') or n.data.get('base')
        if o and o[0] == 'o' and any(reads(n.data[k], name) for k in (
                'value', 'key') if n.data.get(k)):
            out.add(unage(o))
    return out


def kept(t, tab, key):
    """the value kept under a key of a table"""
    t = unage(t)
    if t[0] == 'i':
        return tab(t[1]) and t[2] == key
    return any(match_call(t, name, lambda b: tab(unage(b)),
                          lambda a: a[:1] == (key, ))
               for name in ('get', 'pop'))


def missing(tab, key):
    def lit(a, b):
        if a[0] == 'in':
            return not b and unage(a[1]) == key and tab(unage(a[2]))
        return b and a[0] == 'none' and kept(a[1], tab, key)
    return lit


def assumed(*lits):
    return lambda m: m.kind == 'assume' and any(
        x(m.data['atom'], m.data['pol']) for x in lits)


@check('C37')
def system(ctx):
    f = ctx.prog.func(f'{MOD}.ext_create')
    where = 'ext_create'
    g = ctx.flow(f, {ENV + 'ext_read', ENV + 'ext_write'})
    txn, version, identifier = [('p', x) for x in f.params[1:4]]
    objs = filled(g, 'SYSTEM_SETTINGS')
    ctx.need('recorded settings', len(objs))
    tab = lambda t: t in objs
    rets = [n for n in g.kind('return') if g.is_return(n)]
    ctx.need('databases created', len(rets))
    writes = [n for n in g.calls() if n.data['callee'].split('.')[
        -1] == 'ext_write' and ('g', DB + 'SYSTEM_SETTINGS') in n.data['args']]
    ctx.need('writes of settings', len(writes))
    refused, recorded = [], []
    for key, p in ((('g', SET + 'VERSION'), version),
                   (('g', SET + 'IDENTIFIER'), identifier)):
        # a version is a string, None can not be asked for
        absent = lambda a, b: b and a == ('none', p)
        same = lambda a, b: b and a[0] == 'eq' and p in a[1:] and any(
            kept(x, tab, key) for x in a[1:])
        lacks = missing(tab, key)
        ok = assumed(same, lacks, absent)
        for r in rets:
            refused.append((r.loc, g.unpreceded(r, ok)))
        puts = [n for n in g.kind('setitem', 'add') if (
            unage(n.data['key']) == key and unage(n.data['value']) == p
            if n.kind == 'setitem' else {key, p} <= {
                x for x in subterms(unage(n.data['value'])) if x})]
        stop = assumed(absent)
        starts = [n for n in g.kind('assume') if lacks(
            n.data['atom'], n.data['pol'])]
        ctx.need(f'states without recorded {show(p)}', len(starts))
        for n in starts:
            # what was found missing before the argument was looked at
            if g.unpreceded(n, assumed(absent)) is None:
                continue
            recorded.append((n.loc, g.unfollowed(
                n, lambda m: m in puts, g.is_return, stop)))
        for n in puts:
            o = unage(n.data.get('obj') or n.data.get('base'))
            recorded.append((n.loc, g.unfollowed(
                n, lambda m: m in writes and any(
                    x == o for x in subterms(unage(m.data['args'][-1]))),
                g.is_return)))
    once(ctx, 'other-database-is-refused', where, refused, fg=g,
         msg='a database of another version or identifier is opened')
    once(ctx, 'missing-setting-is-recorded', where, recorded, fg=g,
         msg='version or identifier is not recorded in a database that '
             'lacks it')
    once(ctx, 'in-transaction-of-opening', where, (
        (n.loc, None if txn in n.data['args'] else [n.id])
        for n in g.calls() if n.data['callee'].split('.')[-1] in (
            'ext_read', 'ext_write')), fg=g,
         msg='settings are read or written outside of the transaction')
    cls = ctx.prog.classes[f'{MOD}.SystemDb']
    for what, name, init in (
            ('last_event_id', 'SYSTEM_LAST_EVENT_ID', None),
            ('last_timestamp', 'SYSTEM_LAST_TIMESTAMP', 'min_timestamp')):
        objs = filled(g, name)
        attrs = {n.data['attr'] for n in g.kind('store') if unage(
            n.data['value']) in objs and n.data['base'][0] == 'o'}
        ctx.need(f'tables of {what}', len(attrs))
        own = lambda t: t[0] == 'a' and t[1] == ('p', 'self') and t[
            2] in attrs
        m = ctx.prog.func(f'{cls.qual}.get_{what}')
        h = ctx.flow(m, std_opaque(ctx.prog))
        srv = ('p', m.params[1])
        lacks = missing(own, srv)

        def start(t):
            if init:
                return t[0] == 'g' and t[1].split('.')[-1] == init
            if t[0] != 'rec':
                return False
            return dict(t[2]) == {'server': srv, 'session': const(0),
                                  'instance': const(0)}
        res = []
        for r in h.kind('return'):
            if not h.is_return(r):
                continue
            t = unage(r.data['value'])
            if start(t):
                # also where a value kept is never false
                res.append((r.loc, h.unpreceded(r, assumed(
                    lacks, lambda a, b: not b and a[0] == 'truthy' and kept(
                        a[1], own, srv)))))
                continue
            ok = kept(t, own, srv)
            if ok and t[0] != 'i':
                a = [x for x in subterms(t) if x and start(x)]
                if not a and h.unpreceded(r, assumed(
                        lambda a, b: kept(a[1], own, srv) if a[0] in (
                            'none', 'truthy') and b == (
                                a[0] == 'truthy') else False)):
                    ok = False
            res.append((r.loc, None if ok else [r.id]))
        ctx.need(f'results of {short(m.qual)}', len(res))
        once(ctx, 'last-is-told-as-kept', short(m.qual), res, fg=h,
             msg=f'{what} kept for a server is not told, or the first one '
                 'is told while there is one')
        m = ctx.prog.func(f'{cls.qual}.set_{what}')
        h = ctx.flow(m, std_opaque(ctx.prog))
        if init:
            key, value = ('p', m.params[1]), ('p', m.params[2])
        else:
            value = ('p', m.params[1])
            key = ('a', value, 'server')
        sets = [n for n in h.kind('setitem') if unage(
            n.data['value']) == value and same_key(n.data['key'], key)]
        puts = [n for n in sets if own(unage(n.data['base']))]
        # put there by an update with what was made here
        made = {unage(n.data['base']) for n in sets}
        puts += [n for n in h.kind('add') if n.data['how'] == 'update' and
                 own(unage(n.data['obj'])) and any(
                     unage(seq_base(x.data['iter'])) in made and
                     x.data['value'] == n.data['value']
                     for x in h.kind('iter'))]
        once(ctx, 'last-is-the-one-set', short(m.qual), [(
            m.loc, h.unfollowed(h.entry, lambda x: x in puts,
                                h.is_return))], fg=h,
             msg=f'{what} that was set is not the one told afterwards')


def same_key(t, key):
    t = unage(t)
    return t == key or t[:3] == key[:3] and t[0] == key[0]
