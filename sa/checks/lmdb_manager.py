"""LMDB manager: rows that are told and copied."""

from ..check import check
from ..terms import *   # NOQA
from .util import *     # NOQA
from .conditions import called
from .eventer_server2 import THROW
from .manager import Args, fits, inside, subterms
from .runners import outside
from .subscriptions import has, returned

LMDB = EV + 'backends.lmdb.'
MOD = LMDB + 'manager.'
COM = MOD + 'common.'
TYPES = ('SYSTEM_SETTINGS', 'SYSTEM_LAST_EVENT_ID', 'SYSTEM_LAST_TIMESTAMP',
         'REF', 'LATEST_DATA', 'LATEST_TYPE', 'TIMESERIES_DATA',
         'TIMESERIES_PARTITION', 'TIMESERIES_COUNT')
# rows of which database are told by which action
TOLD = {'settings': 'SYSTEM_SETTINGS', 'last_event_id':
        'SYSTEM_LAST_EVENT_ID', 'last_timestamp': 'SYSTEM_LAST_TIMESTAMP',
        'ref': 'REF', 'latest': 'LATEST_DATA',
        'partition': 'TIMESERIES_PARTITION', 'timeseries': 'TIMESERIES_DATA'}
REFS = {'LatestEventRef': 'skip_latest',
        'TimeseriesEventRef': 'skip_timeseries'}


def db_type(t):
    """which database a value is about"""
    if t is None:
        return None
    for x in subterms(unage(t)):
        if len(x) == 2 and x[0] == 'g' and isinstance(x[1], str):
            for k in TYPES:
                if x[1].endswith(f'.DbType.{k}'):
                    return k


def cursor_of(t):
    """(database, transaction) a sequence of rows comes from"""
    t = seq_base(unage(t))
    if t[0] == 'r' and t[2][0] == 'call' and t[2][1].split('.')[
            -1] == 'cursor':
        db = [x for x in t[2][2:] if x[0] == 'kwarg' and x[1] == 'db'] or [
            x for x in t[2][3:] if x[0] != 'kwarg']
        # the handle itself, or looked up by its kind
        db = db[0][2] if db and db[0][0] == 'kwarg' else db[0] if db else None
        return (db_type_of(db), t[2][2], db) if db else (None, t[2][2], db)
    return None


def db_type_of(db):
    """kind of an opened database: looked up by its kind, or as opened"""
    db = unage(db)
    if db[0] == 'i':
        return db_type(db[2])
    return db_type(db)


def row_of(t):
    """what database a term is a row of"""
    t = unage(t)
    if t[0] == 'el':
        c = cursor_of(t[1])
        return c and c[0]
    return None


def coded(t, how, i):
    """(kind, row) of a decoded part of a row, by the definition of its
    own database"""
    t = unage(t)
    if t[0] == 'm' and t[2] == how and len(t[3]) == 1:
        x = unage(t[3][0])
        while x[0] == 'op' and x[1] in ('bytes', 'memoryview') and len(
                x) == 3:
            x = x[2]
        if x[0] == 'i' and x[2] == const(i) and row_of(x[1]):
            k = row_of(x[1])
            if db_type(t[1]) == k:
                return k
    return None


key = lambda t, k: t is not None and coded(t, 'decode_key', 0) == k
value = lambda t, k: t is not None and coded(t, 'decode_value', 1) == k


def attr(t, name):
    t = unage(t)
    return t[1] if t[0] == 'a' and t[2] == name else None


def item(t, i):
    t = unage(t)
    return t[1] if t[0] == 'i' and t[2] == const(i) else None


def told(t, fn):
    """the argument of one of the functions that make JSON"""
    c, a = called(t)
    return unage(a[0]) if c == COM + fn and a else None


def truthy(t):
    return t not in (NONE, FALSE)


def parts(g, n, t):
    """entries of a dict that is printed at n: name -> terms"""
    r = {}
    for k, vs in dict_entries(g, t).items():
        r[k] = list({unage(v): v for v, _ in vs}.values())
    return r


def ref_key(t, i=None):
    """the key of a reference of the row"""
    k = attr(t, 'key') if i is None else attr(item(t, i) or NONE, 'key')
    return k is not None and k[0] == 'el' and value(k[1], 'REF')


def list_of(g, n, t):
    """the sequence a list holds, all of it"""
    t = unage(t)
    b = seq_base(t)
    if b[0] != 'o':
        return b
    es = {unage(x) for x, _ in elements(g, n, b)}
    if len(es) == 1:
        e = es.pop()
        return seq_base(e[1]) if e[0] == 'el' else None
    return None


def type_of_latest(t):
    """the stored type of the key of a latest reference"""
    t = unage(t)
    if not (t[0] == 'm' and t[2] == 'decode_value' and db_type(
            t[1]) == 'LATEST_TYPE' and len(t[3]) == 1):
        return False
    c = unage(t[3][0])
    if c[0] == 'm' and c[2] == 'get':
        a = c[3]
    elif c[0] == 'r' and c[2][1].split('.')[-1] == 'get':
        a = c[2][3:]
    else:
        return False
    kw = {x[1]: x[2] for x in a if x[0] == 'kwarg'}
    k = unage(a[0]) if a and a[0][0] != 'kwarg' else kw.get('key', NONE)
    return k[0] == 'm' and k[2] == 'encode_key' and db_type(
        k[1]) == 'LATEST_TYPE' and ref_key(k[3][0]) and db_type_of(
        kw.get('db', NONE)) == 'LATEST_TYPE'


def answers(g, n, k, t):
    """is what is printed at n what a row of the action tells"""
    db = TOLD[k]
    t = unage(inside(unage(t)))
    one = lambda p, name, f: name in p and bool(p[name]) and all(
        f(x) for x in p[name])
    if k == 'last_event_id':
        return value(told(t, 'event_id_to_json'), db)
    if k == 'last_timestamp':
        return value(told(t, 'timestamp_to_json'), db)
    if k in ('latest', 'timeseries'):
        return value(told(t, 'event_to_json'), db)
    if t[0] != 'o':
        return False
    p = parts(g, n, t)
    if k == 'settings':
        return set(p) == {'settings_id', 'data'} and one(
            p, 'settings_id', lambda x: key(attr(x, 'name'), db)) and one(
            p, 'data', lambda x: value(x, db))
    if k == 'partition':
        return set(p) == {'partition_id', 'data'} and one(
            p, 'partition_id', lambda x: key(x, db)) and one(
            p, 'data', lambda x: value(x, db))
    if k != 'ref' or not one(p, 'event_id', lambda x: key(told(
            x, 'event_id_to_json'), db)):
        return False
    kinds = {const_str(x) for x in p.get('ref_type', ())}
    if kinds == {'latest'}:
        return set(p) == {'event_id', 'ref_type', 'event_type'} and one(
            p, 'event_type', lambda x: type_of_latest(list_of(
                g, n, x) or NONE))
    if kinds == {'timeseries'}:
        return set(p) == {'event_id', 'ref_type', 'partition_id',
                          'timestamp'} and one(
            p, 'partition_id', lambda x: ref_key(x, 0)) and one(
            p, 'timestamp', lambda x: ref_key(
                told(x, 'timestamp_to_json') or NONE, 1))
    return False


def filters(A, k):
    """what leaves rows out: [(name of the argument, is it about it)]"""
    db = TOLD[k]
    r = []
    if k in ('last_event_id', 'last_timestamp'):
        r.append(('server_id', lambda x: key(x, db)))
    if k == 'ref':
        r.append(('server_id', lambda x: key(attr(x, 'server'), db)))
    if k == 'timeseries':
        r.append(('server_id', lambda x: key(item(attr(
            x, 'server') or NONE, 2), db)))
        r.append(('partition_id', lambda x: key(item(x, 0), db)))
    if k == 'partition':
        r.append(('partition_id', lambda x: key(x, db)))
    if k in ('latest', 'timeseries'):
        r.append(('event_types', None))
    return r


def matches(t, db):
    """the subscription a literal asks about the type of a row's event"""
    c, a = called(t)
    if c and c.endswith('Subscription.matches') and len(a) == 2:
        return unage(a[0]) if value(attr(a[1], 'type'), db) else None
    t = unage(t)
    if t[0] == 'm' and t[2] == 'matches' and len(t[3]) == 1:
        return unage(t[1]) if value(attr(t[3][0], 'type'), db) else None
    return None


@check('C35')
def lmdb_manager(ctx):
    prog = ctx.prog
    opq = outside(prog, MOD + 'query', MOD + 'copy', MOD + 'main')
    f = prog.func(MOD + 'main.main')
    g = ctx.flow(f, opq)
    A = Args(ctx, g)
    memo = {}
    for p, opts in A.options.items():
        for name, n in opts.items():
            if name == 'event_types':
                continue
            if name in REFS.values():
                k = dict(n.data['kws'])
                ok = const_str(k.get('action') or NONE) == 'store_true' and \
                    k.get('default', FALSE) == FALSE or str(
                        k.get('action')).endswith(
                        "BooleanOptionalAction')") and not truthy(
                        k.get('default', NONE))
                ctx.ob('argument-is-read-as-meant', name, ok, n.loc,
                       f'the argument {name} is not a flag that is off '
                       'unless it is given')
                continue
            why = fits(ctx, A, n, 'server_id' if name == 'partition_id'
                       else name, opq, memo)
            ctx.ob('argument-is-read-as-meant', name, why is None, n.loc,
                   f'the argument {name} {why}')
    queries(ctx, g, A, short(f.qual))
    copies(ctx, g, A, short(f.qual))
    conversions(ctx)


def queries(ctx, g, A, where):
    starts = {}
    for n in g.kind('assume'):
        k = A.chosen([(n.data['atom'], n.data['pol'])], 'subaction')
        if k:
            starts.setdefault(k, []).append(n)
    env = {unage(n.data['res']): n for n in g.kind('call')
           if n.data['callee'] == LMDB + 'common.ext_create_env' and any(
               A.is_(a, 'db') for a in n.data['args'])}
    ctx.need('environments that are queried', len(env))
    for n in env.values():
        ro = g.arg(n, 'readonly') or FALSE
        ctx.ob('stored-rows-are-left-alone', 'query', ro == TRUE, n.loc,
               'the environment that is queried may be written')
    for k, db in TOLD.items():
        ss = starts.get(k, [])
        ctx.ob('each-query-is-answered', k, bool(ss), '',
               f'nothing is done for a {k} query')
        if not ss:
            continue
        par = g.reach([s.id for s in ss])
        scope = [g.nodes[i] for i in par]
        prints = [n for n in scope if n.kind == 'call' and n.data[
            'callee'].split('.')[-1] in ('print', 'write')]
        its = [n for n in scope if n.kind == 'iter' and row_of(
            n.data['value']) == db]
        ctx.need(f'rows of {k}', len(its))
        rows = {n.id for n in its}
        # ------------------------------------------------------- contents
        res = []
        good = set()
        for n in prints:
            c, a = called(n.data['args'][0])
            ok = c == 'hat.json.encode' and answers(g, n, k, a[0])
            if ok:
                good.add(n.id)
            res.append((n.loc, None if ok else g.path(par, n.id)))
        once(ctx, 'answer-is-the-row', k, res, fg=g,
             msg=f'what is printed by a {k} query is not what its row holds')
        ctx.need(f'answers of {k}', len(prints))
        # ---------------------------------------------------- completeness
        fl = filters(A, k)

        def asked(a, pol, yes):
            """the literal lets a row in (or out)"""
            for name, about in fl:
                if about is not None and a[0] == 'eq' and pol == yes:
                    for x, y in ((a[1], a[2]), (a[2], a[1])):
                        if A.is_(x, name) and about(y):
                            return name
                if about is None and a[0] == 'truthy' and pol == yes and \
                        matches(a[1], db) is not None:
                    return name
            return None

        out = lambda a, pol: bool(asked(a, pol, False))
        res = []
        inner = [n for n in scope if n.kind == 'iter' and
                 n.data['value'][0] == 'el' and value(
                     n.data['value'][1], 'REF')] if k == 'ref' else []
        if k == 'ref':
            ctx.need('references of a row', len(inner))
            for it in inner:
                for c in REFS:
                    res.append((it.loc, skipped_kind(g, it, good, c) or
                                g.early(it)))
            ends = {n.id for n in inner} | {
                n.id for n in scope if n.kind == 'iterend' and value(
                    n.data['iter'], 'REF')}
            for it in its:
                res.append((it.loc, g.skipped(
                    it, lambda m: m.id in ends, out) or g.early(it)))
        else:
            for it in its:
                res.append((it.loc, g.skipped(
                    it, lambda m: m.id in good, out) or g.early(it)))
        ends = {n.id for n in scope if n.kind == 'iterend' and (
            cursor_of(n.data['iter']) or (None, ))[0] == db}
        for s in ss:
            res.append((s.loc, g.unfollowed(
                s, lambda m: m.id in ends, g.is_return,
                lambda m: m.kind in THROW)))
        once(ctx, 'every-row-is-told', k, res, fg=g,
             msg=f'a row asked for by a {k} query may not be told')
        # ------------------------------------------------------- selection
        for name, about in fl:
            res = []
            none = lambda m: m.kind == 'assume' and m.data['atom'][
                0] == 'none' and m.data['pol'] and A.is_(
                m.data['atom'][1], name)
            fit = lambda m: m.kind == 'assume' and asked(
                m.data['atom'], m.data['pol'], True) == name
            for n in prints:
                if none_held(A, n, name):
                    res.append((n.loc, None))
                    continue
                back = g.reach([n], back=True, block=lambda m: fit(m) or
                               none(m) or m.id in rows)
                near = {p for i in back for p in g.nodes[i].pred
                        if p in rows} | {i for i in back if i in rows}
                bad = None
                for i in near:
                    bad = bad or g.unpreceded(g.nodes[i], none) if not any(
                        none_held(A, g.nodes[i], name) for _ in (0, )) \
                        else bad
                res.append((n.loc, bad))
            once(ctx, 'only-what-is-asked-for', f'{k}.{name}', res, fg=g,
                 msg=f'a row told by a {k} query may not be one of the '
                     f'given {name}')
        if k in ('latest', 'timeseries'):
            res = []
            for n in scope:
                if n.kind != 'assume' or n.data['atom'][0] != 'truthy':
                    continue
                s = matches(n.data['atom'][1], db)
                if s is None:
                    continue
                res.append((n.loc, None if subscribed(g, A, n, s) else
                            [n.id]))
            once(ctx, 'only-what-is-asked-for', f'{k} subscription', res,
                 fg=g, msg='events are not compared with the given types, '
                           'or all types where none are given')
    return


def none_held(A, n, name):
    return any(a[0] == 'none' and b and A.is_(a[1], name)
               for a, b in n.facts)


def skipped_kind(g, it, good, cls):
    """a way on which an element of the class is not told"""
    v = unage(it.data['value'])
    against = lambda a, pol: a[0] == 'isinst' and unage(a[1]) == v and (
        pol != (str(a[2]).split('.')[-1] == cls))
    return g.skipped(it, lambda m: m.id in good, against)


def subscribed(g, A, n, s):
    """the subscription is to the event types that are given, or all"""
    c, a = called(s)
    if c is None or not c.endswith('create_subscription') or not a:
        return False
    vals = []
    for x, m in elements(g, n, a[0]):
        x = unage(x)
        if x == ('tup', (const('*'), )):
            vals.append('all')
            continue
        x = x[2] if x[0] == 'op' and x[1] == 'tuple' and len(x) == 3 else x
        if x[0] == 'm' and x[2] == 'split' and tuple(x[3]) == (
                const('/'), ) and x[1][0] == 'el' and A.is_(
                seq_base(x[1][1]), 'event_types'):
            vals.append('given')
            continue
        if x[0] == 'el':
            ys = [unage(y) for y, _ in elements(g, n, x[1])]
            if ys and all(split_types(A, y) for y in ys):
                vals.append('given')
                continue
        vals.append('other')
    if not vals or len(set(vals)) != 1 or 'other' in vals:
        return False
    none = none_held(A, n, 'event_types')
    return none if vals[0] == 'all' else not none


def split_types(A, x):
    x = x[2] if x[0] == 'op' and x[1] == 'tuple' and len(x) == 3 else x
    return x[0] == 'm' and x[2] == 'split' and tuple(x[3]) == (
        const('/'), ) and x[1][0] == 'el' and A.is_(
        seq_base(x[1][1]), 'event_types')


def copies(ctx, g, A, where):
    ENV = LMDB + 'common.ext_create_env'
    envs = {}
    for n in g.kind('call'):
        if n.data['callee'] == ENV:
            for w in ('src_path', 'dst_path'):
                if A.is_(g.arg(n, 'path', 0) or NONE, w):
                    envs.setdefault(w, []).append(n)
    for w in ('src_path', 'dst_path'):
        ctx.need(f'environments of {w}', len(envs.get(w, [])))
    res = [(n.loc, None if (g.arg(n, 'readonly') or FALSE) == TRUE else
            [n.id]) for n in envs['src_path']]
    once(ctx, 'stored-rows-are-left-alone', 'copy', res, fg=g,
         msg='the environment that is copied may be written')
    absent = lambda m: m.kind == 'assume' and m.data['atom'][
        0] == 'truthy' and not m.data['pol'] and exists(
        A, m.data['atom'][1])
    res = [(n.loc, g.unpreceded(n, absent)) for n in envs['dst_path']]
    once(ctx, 'stored-rows-are-left-alone', 'destination', res, fg=g,
         msg='a copy may be written over something that is there')
    src = {unage(n.data['res']) for n in envs['src_path']}
    dst = {unage(n.data['res']) for n in envs['dst_path']}
    starts = [n for n in g.kind('assume') if A.chosen(
        [(n.data['atom'], n.data['pol'])], 'action') == 'copy']
    ctx.need('copy actions', len(starts))
    par = g.reach([s.id for s in starts])
    scope = [g.nodes[i] for i in par]
    puts = [n for n in scope if n.kind == 'call' and n.data['callee'].split(
        '.')[-1] == 'put']
    ctx.need('rows that are put', len(puts))

    def of_env(t, es):
        return any(x in es for x in subterms(unage(t)))

    def opened(h, n, t, es):
        """is the handle of a database of the environments"""
        t = unage(t)
        if t[0] == 'i' and t[1][0] == 'o':
            t = t[1]
            vs = [m.data['value'] for m in adds_to(g, t)] + [
                v for vs in dict_entries(g, t).values() for v, _ in vs]
            return bool(vs) and all(of_env(v, es) for v in vs)
        return of_env(t, es)

    def flag(a, pol, name, yes):
        return a[0] == 'truthy' and A.is_(a[1], name) and pol == yes

    def given(name, yes):
        return lambda m: m.kind == 'assume' and flag(
            m.data['atom'], m.data['pol'], name, yes)

    # ------------------------------------------------------ what is written
    res = []
    for n in puts:
        db = dict(n.data['kws']).get('db') or (
            n.data['args'][2] if len(n.data['args']) > 2 else None)
        ok = db is not None and of_env(n.data['base'], dst) and not of_env(
            n.data['base'], src) and opened(g, n, db, dst)
        k = db_type_of(db) if db is not None else None
        a = [unage(x) for x in n.data['args'][:2]]
        r = item(a[0], 0) if len(a) == 2 else None
        ok = ok and r is not None and row_of(r) == k
        if ok:
            c = cursor_of(r[1])
            ok = of_env(c[1], src) and opened(g, n, c[2], src)
        if ok and item(a[1], 1) != r:
            ok = k == 'REF' and a[1][0] == 'm' and a[1][
                2] == 'encode_value' and db_type(a[1][1]) == 'REF'
        res.append((n.loc, None if ok else g.path(par, n.id)))
    once(ctx, 'row-is-copied-as-it-is', where, res, fg=g,
         msg='a row is written that is not the one read, or not to where '
             'it belongs')
    # ------------------------------------------------------- completeness
    for k in TYPES:
        skip = 'skip_latest' if k.startswith('LATEST') else \
            'skip_timeseries' if k.startswith('TIMESERIES') else None
        its = [n for n in scope if n.kind == 'iter' and row_of(
            n.data['value']) == k and of_env(n.data['value'], src)]
        ends = {n.id for n in scope if n.kind == 'iterend' and (
            cursor_of(n.data['iter']) or (None, ))[0] == k}
        ctx.ob('every-row-is-copied', k, bool(its), '',
               f'rows of {k} are not copied')
        if not its:
            continue
        mine = {n.id for n in puts if row_of(item(unage(
            n.data['args'][0]), 0) or NONE) == k}
        res, res2 = [], []
        for it in its:
            if k == 'REF':
                break
            res.append((it.loc, g.skipped(it, lambda m: m.id in mine,
                                          lambda a, b: False) or
                        g.early(it)))
            if skip:
                res2.append((it.loc, g.unpreceded(it, given(skip, False))))
        for s in starts:
            res.append((s.loc, g.unfollowed(
                s, lambda m: m.id in ends, g.is_return, lambda m: m.kind in
                THROW or skip is not None and given(skip, True)(m))))
        once(ctx, 'every-row-is-copied', k, res, fg=g,
             msg=f'a row of {k} may not be copied')
        if skip:
            once(ctx, 'skipped-rows-are-left-out', k, res2, fg=g,
                 msg=f'rows of {k} are copied though they are to be skipped')
    references(ctx, g, A, scope, puts, flag)


def exists(A, t):
    t = unage(t)
    c, a = called(t)
    if c and c.split('.')[-1] in ('exists', 'lexists') and a:
        return A.is_(a[0], 'dst_path')
    return t[0] == 'm' and t[2] == 'exists' and A.is_(t[1], 'dst_path')


def is_ref(t):
    t = unage(t)
    return t[0] == 'el' and value(seq_base(t[1]), 'REF')


def references(ctx, g, A, scope, puts, flag):
    """references of skipped kinds are left out, all others are kept"""
    its = [n for n in scope if n.kind == 'iter' and
           row_of(n.data['value']) == 'REF']
    mine = [n for n in puts if row_of(item(unage(
        n.data['args'][0]), 0) or NONE) == 'REF']
    refs = [n for n in scope if n.kind == 'iter' and is_ref(
        n.data['value'])]
    boxes = {b for b in (seq_base(unage(n.data['iter'])) for n in refs)
             if b[0] == 'o'}
    for skips in ((), ('skip_latest', ), ('skip_timeseries', ),
                  ('skip_latest', 'skip_timeseries')):
        odd = lambda a, b: any(flag(a, b, x, x not in skips)
                               for x in REFS.values())
        par = g.reach([g.entry.id], block=lambda m: m.kind == 'assume' and
                      odd(m.data['atom'], m.data['pol']))
        what = ' and '.join(skips) or 'nothing skipped'
        res, res2 = [], []
        raw = lambda n: item(unage(n.data['args'][1]), 1) is not None
        made, ways = set(), {}
        for n in mine:
            if n.id not in par:
                continue
            if raw(n):
                if skips:
                    res2.append((n.loc, g.path(par, n.id)))
                continue
            v = unage(n.data['args'][1])
            made.add(seq_base(unage(v[3][0])) if v[0] == 'm' and v[
                3] else None)
        chain = made | boxes
        adds = [m for m in scope if m.id in par and m.kind == 'add' and
                unage(m.data['obj']) in chain]
        ids = {n.id for n in mine}
        empty = lambda a, b: a[0] in ('truthy', 'empty') and inside(
            unage(a[1])) in made and b == (a[0] == 'empty')
        over = {n.id for n in scope if n.kind == 'iterend' and value(
            seq_base(n.data['iter']), 'REF')} if skips else set()
        for it in its:
            if it.id not in par:
                continue
            res.append((it.loc, g.skipped(
                it, lambda m: m.id in ids or m.id in over, odd) or
                g.early(it)))
            # what is kept is also written
            nxt = g.loop_next(it)
            for m in adds:
                o = unage(m.data['obj'])
                on = set() if o in made else {
                    x.id for x in scope if x.kind in ('iter', 'iterend') and
                    seq_base(unage(x.data['iter'])) == o}
                res.append((m.loc, g.unfollowed(
                    m, lambda x: x.id in ids or x.id in on, lambda x: nxt(
                        x) or
                    g.is_return(x), lambda x: x.kind in THROW or
                    x.kind == 'assume' and (
                        odd(x.data['atom'], x.data['pol']) or
                        empty(x.data['atom'], x.data['pol'])))))
        for it in refs:
            if it.id not in par:
                continue
            v = unage(it.data['value'])
            b = seq_base(unage(it.data['iter']))
            for c, s in REFS.items():
                against = lambda a, b: odd(a, b) or a[0] == 'isinst' and \
                    unage(a[1]) == v and b != (str(a[2]).split('.')[
                        -1] == c)
                take = {m.id for m in adds if unage(m.data['value']) == v}
                if s not in skips:
                    res.append((it.loc, g.skipped(
                        it, lambda m: m.id in take, against)))
                else:
                    h = g.reach([it], block=lambda m: m is not it and (
                        m.kind == 'assume' and against(
                            m.data['atom'], m.data['pol']) or
                        m.id in {i.id for i in refs}))
                    ways.setdefault(s, []).extend(
                        (b, unage(g.nodes[i].data['obj']), it.loc,
                         g.path(h, i)) for i in h if i in take)
                    res2.append((it.loc, None))
        for s, ws in ways.items():
            # containers that may hold references that are to be skipped
            dirty = set()
            for _ in range(len(ws) + 1):
                dirty |= {o for b, o, _, _ in ws if b[0] != 'o' or
                          b in dirty}
            res2 += [(loc, w) for b, o, loc, w in ws if o in made and (
                b[0] != 'o' or b in dirty)]
        for x in chain:
            vals = [m for m in adds if unage(m.data['obj']) == x]
            for m in vals:
                w = unage(m.data['value'])
                if not is_ref(w):
                    res2.append((m.loc, [m.id]))
        once(ctx, 'every-reference-is-copied', what, res, fg=g,
             msg='a reference that is not skipped may not be copied')
        once(ctx, 'skipped-references-are-left-out', what, res2, fg=g,
             msg='a reference of a skipped kind is copied')


def conversions(ctx):
    """what JSON is made of"""
    prog = ctx.prog
    opq = outside(prog, COM)
    for name, cls in (('event_id_to_json', ('server', 'session',
                                            'instance')),
                      ('timestamp_to_json', ('s', 'us'))):
        g = ctx.flow(prog.func(COM + name), opq)
        p = ('p', g.func.params[0])
        res = []
        for r in returned(g):
            v = unage(r.data['value'])
            e = dict_entries(g, v) if v[0] == 'o' else {}
            ok = set(e) == set(cls) and all(
                attr(x, k) == p for k in e for x, _ in e[k])
            res.append((r.loc, None if ok else [r.id]))
        once(ctx, 'json-tells-all', name, res, fg=g,
             msg='a field of the value is not told under its name')
    told_event(ctx, opq)


def told_event(ctx, opq):
    """an event is told with all of its fields"""
    prog = ctx.prog
    g = ctx.flow(prog.func(COM + 'event_to_json'), opq)
    p = ('p', g.func.params[0])
    of = lambda t, name: attr(t, name) == p
    res = {}
    want = {'id', 'type', 'timestamp', 'source_timestamp', 'payload'}
    for r in returned(g):
        v = unage(r.data['value'])
        e = dict_entries(g, v) if v[0] == 'o' else {}
        for k in want | set(e):
            ok = k in want and bool(e.get(k)) and all(event_part(
                g, n, k, x, of) for x, n in e[k])
            res.setdefault(k, []).append((r.loc, None if ok else [r.id]))
    kinds = {x for r in returned(g) for x in payloads(g, r)}
    ctx.need('kinds of payload that are told', len(kinds), 3)
    for k in sorted(want | set(res)):
        once(ctx, 'json-tells-all', f'event_to_json {k}', res.get(k, [(
            '', [])]), fg=g,
            msg='a field of the event is not told as it is')


def payloads(g, r):
    e = parts(g, r, unage(r.data['value']))
    for x in e.get('payload', ()):
        x = unage(x)
        if x == NONE:
            yield None
        elif x[0] == 'o':
            for y in parts(g, r, x).get('type', ()):
                yield const_str(y)


def event_part(g, r, k, x, of):
    x = unage(x)
    if k == 'id':
        return of(told(x, 'event_id_to_json') or inline(
            g, r, x, ('server', 'session', 'instance')) or NONE, 'id')
    if k in ('timestamp', 'source_timestamp'):
        if k == 'source_timestamp' and x == NONE:
            return any((a[0] == 'none' and b or a[0] == 'truthy' and not b)
                       and of(a[1], k) for a, b in r.facts)
        return of(told(x, 'timestamp_to_json') or inline(
            g, r, x, ('s', 'us')) or NONE, k)
    if k == 'type':
        return of(list_of(g, r, x) or NONE, k)
    if x == NONE:
        return any(a[0] == 'none' and b and of(a[1], 'payload')
                   for a, b in r.facts)
    e = parts(g, r, x) if x[0] == 'o' else {}
    kind = [const_str(y) for y in e.get('type', ())]
    if len(kind) != 1:
        return False
    want = {'BINARY': {'type', 'subtype', 'data'}, 'JSON': {
        'type', 'data'}}.get(kind[0])
    cls = {'BINARY': 'EventPayloadBinary', 'JSON': 'EventPayloadJson'}.get(
        kind[0])
    fits = any(a[0] == 'isinst' and of(a[1], 'payload') and b == (str(
        a[2]).split('.')[-1] == cls) for a, b in r.facts)
    if set(e) != want or not fits:
        return False
    data = lambda t: of(attr(t, 'data') or NONE, 'payload')
    if kind[0] == 'JSON':
        return all(data(y) for y in e['data'])
    return all(of(attr(y, 'type') or NONE, 'payload') for y in e[
        'subtype']) and all(data(of_hex(y)) for y in e['data'])


def of_hex(t):
    """what a term is the hexadecimal form of"""
    t = unage(t)
    c, a = called(t)
    if t[0] == 'm' and t[2] == 'hex' and not t[3]:
        t = unage(t[1])
    elif t[0] == 'r' and t[2][1].split('.')[-1] in (
            'hex', 'hexlify') and len(t[2]) == 3:
        t = unage(t[2][2])
    else:
        return NONE
    while t[0] == 'op' and t[1] in ('bytes', 'memoryview') and len(t) == 3:
        t = unage(t[2])
    return t


def inline(g, r, t, names):
    """the value a dict tells all fields of"""
    if unage(t)[0] != 'o':
        return None
    e = parts(g, r, unage(t))
    vs = {attr(x, k) for k in e for x in e[k]}
    return vs.pop() if set(e) == set(names) and len(vs) == 1 else None
