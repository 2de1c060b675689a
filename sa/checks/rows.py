"""Rows of the LMDB database: what is read is what was written, and rows are
ordered by what their keys stand for."""

import ast

from ..check import check
from ..program import AnalysisError
from ..q import FG
from ..terms import *   # NOQA
from .util import *     # NOQA
from .encoding import *     # NOQA
from .encoding import _flat
from .runners import outside

DEFS = f'{LMC}.db_defs'
KINDS = ('encode_key', 'decode_key', 'encode_value', 'decode_value')


def definitions(prog):
    """{database: (key type, value type, {kind: source of function})}"""
    m = prog.modules.get(LMC)
    if m is None:
        raise AnalysisError('lmdb common module is not known')
    tree = None
    for st in m.tree.body:
        ts = st.targets if isinstance(st, ast.Assign) else [
            st.target] if isinstance(st, ast.AnnAssign) else []
        if any(isinstance(t, ast.Name) and t.id == 'db_defs' for t in ts):
            tree = st.value
    if not isinstance(tree, ast.Dict):
        raise AnalysisError('database definitions are not a display')
    r = {}
    for k, v in zip(tree.keys, tree.values):
        if not isinstance(k, ast.Attribute) or not isinstance(v, ast.Call):
            raise AnalysisError('database definition is not understood')
        src = dict(zip(KINDS, v.args))
        src.update((kw.arg, kw.value) for kw in v.keywords)
        if set(src) != set(KINDS):
            raise AnalysisError('database definition is not understood')
        types = list(v.func.args) if isinstance(v.func, ast.Call) else \
            list(v.func.slice.elts) if isinstance(
                v.func, ast.Subscript) and isinstance(
                v.func.slice, ast.Tuple) else []
        if len(types) != 2:
            raise AnalysisError('types of a database are not known')
        r[k.attr] = types[0], types[1], {
            n: ast.unparse(e) for n, e in src.items()}
    return r


class Rows:

    def __init__(self, ctx):
        self.ctx = ctx
        self.defs = definitions(ctx.prog)
        src = ''
        for n, (_, _, fs) in self.defs.items():
            for k, e in fs.items():
                src += f'def _{k}_{n}(x):\n    return ({e})(x)\n'
            for w in ('key', 'value'):
                src += (f'def _rt_{w}_{n}(x):\n    return '
                        f'({fs["decode_" + w]})(({fs["encode_" + w]})(x))\n')
        self.ov = Overlay(ctx, {LMC: src})
        self.prog = self.ov.prog
        self.mod = self.prog.modules[LMC]
        self.out = outside(self.prog, LMC, COMMON) | {
            f'{ENC}.event_to_sbs', f'{ENC}.event_from_sbs'}
        self.sizes = {}

    def loc(self, name):
        return self.ctx.prog.modules[LMC].rel

    def types(self, name):
        k, v, _ = self.defs[name]
        return (self.prog.ann_type(self.mod, k),
                self.prog.ann_type(self.mod, v))

    def run(self, fn, arg):
        return self.ov.flow(f'{LMC}.{fn}', self.out, args={'x': arg})

    def args(self, typ):
        """[(type, argument, what is None in it)]"""
        r = []
        x = ('p', 'x')
        for u in _flat(typ):
            c = self.prog.classes.get(u[1]) if u[0] == 'cls' else None
            if c is not None and c.is_namedtuple:
                r += [(u, v, n) for v, n in shapes(self.prog, c, x, set())]
            else:
                r.append((u, x, set()))
        return r

    def key(self, name):
        """fields that a key of a database consists of"""
        if name not in self.sizes:
            self.sizes[name] = None
            t = self.types(name)[0]
            got = []
            for u, arg, nones in self.args(t):
                g = self.run(f'_encode_key_{name}', arg)
                norm = RowNorm(self, g, {('p', 'x'): u}, nones)
                got += [norm.layout(r.data['value'], r.facts)
                        for r in returned(g)]
            if got and all(x is not None and x == got[0] for x in got):
                self.sizes[name] = got[0]
        return self.sizes[name]

    def member(self, t):
        """number of a member of an enumeration"""
        if t[0] == 'a' and t[2] == 'value':
            t = t[1]
        if t[0] == 'g':
            q = t[1][:-6] if t[1].endswith('.value') else t[1]
            c, _, n = q.rpartition('.')
            c = self.prog.classes.get(c)
            if c is not None and n in c.members and isinstance(
                    c.members[n], ast.Constant):
                return c.members[n].value
        return None


class RowNorm(Norm):

    def __init__(self, rows, g, types, nones=(), keys=None):
        super().__init__(rows.prog, g, types, nones)
        self.rows = rows

    def db(self, t):
        """database whose definition a term is"""
        if t[0] == 'i' and t[1] == ('g', DEFS) and t[2][0] == 'g':
            n = t[2][1].rsplit('.', 1)[-1]
            return n if n in self.rows.defs else None
        return None

    def layout(self, t, facts=()):
        """[(format, argument, size)] of bytes"""
        r = self._layout(t, facts)
        return r

    def _layout(self, t, facts):
        y = layout(t)
        if y is not None and t[:2] != ('op', 'bytes'):
            return [(c, self.arg(a, facts), SIZES[c]) for c, a in y]
        if t[0] == 'op' and t[1] in ('bytes', 'bytearray', 'memoryview'):
            return self._layout(t[2], facts)
        if t[0] == 'r' and t[2][:2] == ('call', 'bytes') and len(t[2]) == 3:
            return self._layout(t[2][2], facts)
        if t[0] == 'tup':
            return [('B', self.arg(x, facts), 1) for x in t[1]]
        if t[0] == 'o' and t[1] == 'list':
            ms = [m for m in adds_to(self.g, t) if not any(
                (a, not p) in facts for a, p in m.facts)]
            if ms and all(m.data['how'] == 'display' for m in ms):
                seen = dict.fromkeys((m.ast, m.data['value']) for m in ms)
                return [('B', self.arg(v, facts), 1) for _, v in seen]
            return None
        if t[0] == 'op' and t[1] in ('itertools.chain', '+'):
            r = []
            for x in t[2:]:
                y = self._layout(x, facts)
                if y is None:
                    return None
                r += y
            return r
        if t[0] == 'm' and t[2] == 'join' and t[1] == const(b''):
            return self._layout(('op', 'itertools.chain', *t[3][0][1]),
                                facts) if t[3][0][0] == 'tup' else None
        if t[0] == 'm' and t[2] == 'encode_key' and self.db(t[1]):
            n = self.db(t[1])
            ks = self.rows.key(n)
            if ks is None:
                return None
            return [('K', (n, self(t[3][0], facts)), sum(
                x[2] for x in ks))]
        return None

    def arg(self, t, facts):
        n = self.rows.member(t)
        return const(n) if n is not None else self(t, facts)


def declared(prog, typ, at):
    """[(term, bias)] of what values of a type consist of, in order"""
    if typ is None:
        return [(at, 'Q')]
    if typ[0] == 'gen' and typ[1] == 'tuple':
        return [y for i, x in enumerate(typ[2])
                for y in declared(prog, x, ('i', at, const(i), None))]
    c = prog.classes.get(typ[1]) if typ[0] == 'cls' else None
    if c is not None and c.is_namedtuple:
        return [y for f in c.fields for y in declared(
            prog, prog.ann_type(c.module, f[1]), ('a', at, f[0], None))]
    if c is not None and c.is_enum:
        return [(('a', at, 'value', None), 'B')]
    return [(at, 'Q')]


def in_order(prog, typ, ks):
    """does comparing bytes compare values"""
    want = declared(prog, typ, ('p', 'x'))
    if ks is None or len(ks) != len(want):
        return False
    for (f, a, n), (t, w) in zip(ks, want):
        if f.islower():
            return False
        if t[0] == 'a' and t[2] == 's' and t[1][0] != 'p' or t == (
                'a', ('p', 'x'), 's', None):
            # seconds are signed
            if (f, a) != ('Q', ('op', 'lin', 1 << 63, ((t, 1), ))):
                return False
        elif t[0] == 'a' and t[2] == 'us':
            if a != t or n < 4:
                return False
        elif a != t or w == 'Q' and n < 8:
            return False
    return True


@check('C29')
def rows(ctx):
    rs = Rows(ctx)
    ctx.need('databases', len(rs.defs), 9)
    used = {c for c in rs.prog.classes[f'{LMC}.DbType'].members}
    ctx.ob('every-database-is-defined', 'lmdb.common.db_defs',
           used == set(rs.defs), rs.loc(None),
           ', '.join(sorted(used ^ set(rs.defs))), [])
    refs = None
    for n in rs.defs:
        kt, vt = rs.types(n)
        ks = rs.key(n)
        ctx.ob('keys-are-ordered-as-values', f'DbType.{n}',
               in_order(rs.prog, kt, ks), rs.loc(n),
               'order of encoded keys is not the order of keys' if ks
               else 'layout of keys is not known', [])
        for w, t in (('key', kt), ('value', vt)):
            if t and t[0] == 'gen' and t[1] == 'set':
                refs = n, t[2][0]
                continue
            res, own, kind = [], [], []
            for u, arg, nones in rs.args(t):
                if w == 'value' and u == ('cls', f'{COMMON}.common.Event'):
                    arg, nones = ('p', 'x'), set()
                g = rs.run(f'_rt_{w}_{n}', arg)
                norm = RowNorm(rs, g, {('p', 'x'): u}, nones)
                for r in g.kind('raise'):
                    res.append((r.loc, [r.id]))
                if not returned(g):
                    res.append((rs.loc(n), [0]))
                for r in returned(g):
                    v = norm(r.data['value'], r.facts)
                    res.append((r.loc, None if v == norm(
                        arg, r.facts) == ('p', 'x') else [r.id]))
                    own.append((r.loc, aliased(
                        rs, g, norm, u, r) and [r.id] or None))
                    kind.append((r.loc, u and u[0] == 'gen' and untupled(
                        norm, r.data['value'], u, r.facts) and
                        [r.id] or None))
            once(ctx, 'read-is-what-was-written', f'DbType.{n}.{w}', res,
                 msg='decoding does not give the encoded value back')
            once(ctx, 'read-does-not-alias-the-database', f'DbType.{n}.{w}',
                 own, msg='decoded event keeps a view of database memory')
            once(ctx, 'types-stay-tuples', f'DbType.{n}.{w}', kind,
                 msg='decoded value is not a tuple')
    ctx.need('database of references', int(refs is not None))
    references(ctx, rs, *refs)


def aliased(rs, g, norm, typ, r):
    """may a returned event have a payload that is a part of the row"""
    if typ != ('cls', f'{COMMON}.common.Event'):
        return False
    pay = ('a', ('p', 'x'), 'payload', None)
    is_binary = None
    for a, pol in r.facts:
        if a[0] == 'isinst' and norm(a[1], r.facts) == pay:
            cs = str(a[2])
            if 'EventPayloadBinary' in cs:
                is_binary = pol
            elif pol:
                is_binary = False
    if is_binary is False:
        return False
    v = r.data['value']
    f = dict(v[2]).get('payload') if v[0] == 'rec' else None
    d = None
    if f and f[0] == 'rec':
        d = dict(f[2]).get('data')
    elif f and f[:2] == ('op', '_replace'):
        d = dict((const_str(x[1][0]), x[1][1]) for x in f[3:]).get('data')
    return not (d and (d[:2] == ('op', 'bytes') or
                       d[0] == 'r' and d[2][:2] == ('call', 'bytes') or
                       d[0] == 'm' and d[2] == 'tobytes'))


def kinds_of_refs(rs, typ):
    r = []
    for u in _flat(typ):
        c = rs.prog.classes.get(u[1]) if u[0] == 'cls' else None
        if c is None or [f[0] for f in c.fields] != ['key']:
            raise AnalysisError('kind of reference is not understood')
        r.append(c)
    return r


def references(ctx, rs, name, typ):
    """references of an event: sets of records of different sizes"""
    kinds = kinds_of_refs(rs, typ)
    ctx.need('kinds of references', len(kinds), 2)
    x = ('p', 'x')
    # encoding: bytes of each element, with the kind told by first of them
    g = rs.run(f'_encode_value_{name}', x)
    norm = RowNorm(rs, g, {x: ('gen', 'set', (typ, ))})
    its = [i for i in g.kind('iter') if i.data['iter'] == x or norm(
        i.data['iter']) == x]
    ctx.need('walks over references', len(its))
    parts, res = {}, []
    for r in returned(g):
        buf = r.data['value']
        while buf[0] == 'op' and buf[1] in (
                'bytes', 'bytearray') and len(buf) == 3:
            buf = buf[2]
        joined = buf[0] == 'm' and buf[2] == 'join' and buf[1] == const(b'')
        if joined:
            buf = buf[3][0]
        adds = list(adds_to(g, buf)) if buf[0] == 'o' else []
        if not adds and buf[:2] != ('c', 'bytes'):
            res.append((r.loc, [r.id]))
        for m in adds:
            v = m.data['value']
            if not joined:
                v = v[1] if v[0] == 'el' else None
            e = norm.layout(v, m.facts) if v else None
            raw = next((i.data['value'] for i in its if e and contains(
                v, i.data['value'])), const(None))
            el = norm(raw)
            c = next((c for c in kinds if any(
                a[0] == 'isinst' and pol and a[1] == raw and
                c.qual.rsplit('.', 1)[-1] in str(a[2])
                for a, pol in m.facts)), None)
            ok = (e and c and len(e) == 2 and e[0][2] == 1 and e[0][1][
                0] == 'c' and e[1][:1] == ('K', ) and e[1][1][1] == (
                    'a', el, 'key', None))
            if ok:
                parts.setdefault(c.qual, set()).add(
                    (e[0][1][2], e[1][1][0], e[1][2]))
            res.append((m.loc, None if ok else [m.id]))
        ids = {m.id for m in adds}
        whole = {m.data['value'][1] for m in adds if not joined and
                 m.data['value'][0] == 'el' and m.data['how'] == 'add'}
        inner = [i for i in g.kind('iter') if i.data['iter'] in whole]
        ends = {i.id for i in g.kind('iterend') if i.data['iter'] in whole}
        for it in its + inner:
            done = ids if it not in its else ids | ends
            for w in (g.skipped(it, lambda m: m.id in done,
                                lambda a, b: False),
                      g.early(it, lambda a, b: False)):
                res.append((it.loc, w))
    once(ctx, 'every-reference-is-written', f'DbType.{name}', res,
         msg='a reference is not written as its kind and key')
    ok = set(parts) == {c.qual for c in kinds} and all(
        len(v) == 1 for v in parts.values()) and len(
        {next(iter(v))[0] for v in parts.values()}) == len(kinds)
    for c in kinds:
        # key is of the database that references of this kind are of
        kt = rs.prog.ann_type(c.module, c.fields[0][1])
        for n, db, _ in parts.get(c.qual, ()):
            ok &= rs.types(db)[0] == kt
    ctx.ob('kinds-of-references-differ', f'DbType.{name}', ok, rs.loc(name),
           'kinds of references are not told apart', [])
    if not ok:
        return
    # decoding of any two references that follow one another
    g = rs.run(f'_decode_value_{name}', x)
    for a in kinds:
        for b in (None, *kinds):
            seq = [c for c in (a, b) if c]
            bad = replay(rs, g, seq, parts)
            ctx.ob('references-read-as-written', 'DbType.{}: {}'.format(
                name, ', '.join(c.name for c in seq)), bad is None,
                rs.loc(name), bad or '', [])
    bad = replay(rs, g, [], parts)
    ctx.ob('references-read-as-written', f'DbType.{name}: none',
           bad is None, rs.loc(name), bad or '', [])


def pairs(g, t):
    return {(n.data['key'], n.data['value']) for n in g.kind('setitem')
            if n.data['base'] == t}


class Unknown(Exception):
    pass


def replay(rs, g, seq, parts):
    """follow paths of a decoder that bytes of a sequence of references
    decide: None or what is wrong"""
    segs, want = [], []
    for i, c in enumerate(seq):
        n, db, size = next(iter(parts[c.qual]))
        segs += [(1, ('B', n)), (size, ('K', db, i))]
        want.append((c.qual, db, i))
    total = sum(s for s, _ in segs)
    norm = RowNorm(rs, g, {})

    def cut(t):
        """start and end of bytes"""
        if t == ('p', 'x'):
            return 0, total
        if t[0] == 'op' and t[1] in ('bytes', 'bytearray', 'memoryview'):
            return cut(t[2])
        if t[0] == 'op' and t[1] == 'content':
            return cut(t[2])
        if t[0] == 'op' and t[1] == 'slice':
            lo, hi = cut(t[2])
            step = t[5] if len(t) > 5 else const(None)
            if step not in (const(None), const(1)):
                raise Unknown
            l, h = ev(t[3]), ev(t[4])
            l, h, _ = slice(l, h).indices(hi - lo)
            return lo + l, max(lo + h, lo + l)
        raise Unknown

    def seg(lo, hi):
        at = 0
        for s, v in segs:
            if (at, at + s) == (lo, hi):
                return v
            at += s
        raise Unknown

    def ev(t):
        if t[0] == 'c':
            return t[2]
        n = rs.member(t)
        if n is not None:
            return n
        if t[0] == 'op' and t[1].startswith('enum:'):
            return ev(t[2])
        if t[0] == 'a' and t[2] == 'value':
            return ev(t[1])
        if t[0] == 'op' and t[1] == 'len':
            lo, hi = cut(t[2])
            return hi - lo
        if t[0] == 'op' and t[1] == 'lin':
            return t[2] + sum(k * ev(x) for x, k in t[3])
        if t[0] == 'i' and t[1][0] == 'o':
            # local table
            k = ev(t[2])
            vs = {v for x, v in pairs(g, t[1]) if ev(x) == k}
            if len(vs) != 1:
                raise Unknown
            return ev(vs.pop())
        if t[0] == 'i':
            lo, hi = cut(t[1])
            v = seg(lo + ev(t[2]), lo + ev(t[2]) + 1)
            if v[0] != 'B' or lo + ev(t[2]) >= hi:
                raise Unknown
            return v[1]
        u = called(t, 'int.from_bytes')
        if u:
            v = seg(*cut(u[0]))
            if v[0] == 'B':
                return v[1]
        raise Unknown

    def holds(a):
        if a[0] == 'truthy':
            try:
                lo, hi = cut(a[1])
                return hi > lo
            except Unknown:
                return bool(ev(a[1]))
        if a[0] == 'eq':
            return ev(a[1]) == ev(a[2])
        if a[0] == 'lt':
            return ev(a[1]) < ev(a[2])
        if a[0] == 'le':
            return ev(a[1]) <= ev(a[2])
        raise Unknown

    def value(t):
        """reference that is read"""
        if t[0] != 'rec':
            raise Unknown
        k = dict(t[2]).get('key')
        if k is None or k[0] != 'm' or k[2] != 'decode_key':
            raise Unknown
        d = k[1]
        n = norm.db(d)
        if n is None and d[0] == 'i' and d[1] == ('g', DEFS):
            v = ev(d[2])
            ms = rs.prog.classes[f'{LMC}.DbType'].members
            n = next((m for m, e in ms.items() if isinstance(
                e, ast.Constant) and e.value == v), None)
        v = seg(*cut(k[3][0]))
        if v[0] != 'K' or v[1] != n:
            raise Unknown
        return t[1], n, v[2]

    ends = []
    todo = [(g.nodes[0], ())]
    seen = set()
    while todo:
        n, got = todo.pop()
        if (n.id, got) in seen:
            continue
        seen.add((n.id, got))
        try:
            if n.kind == 'assume':
                if holds(n.data['atom']) != n.data['pol']:
                    continue
            elif n.kind == 'raise':
                return 'decoding fails'
            elif n.kind == 'add' and n.data['obj'][0] == 'o' and n.data[
                    'obj'][1] in ('set', 'list'):
                got = (*got, value(n.data['value']))
                if len(got) > len(want):
                    return 'more references are read than written'
                if len(got) > 1 and got == tuple(want):
                    # others are read in the same way
                    ends.append(got)
                    continue
        except Unknown:
            return f'{n.describe()[:120]} is not understood'
        if g.is_return(n) and len(n.frame) == 0:
            ends.append(got)
            continue
        todo += [(g.nodes[s] if isinstance(s, int) else s, got)
                 for s in n.succ]
    if not ends:
        return 'decoding does not end'
    for got in ends:
        if list(got) != want:
            return 'other references are read than written'
    return None
