"""Encodings: what is read is what was written.

Each encoder is composed with its decoder and the composition is evaluated
over terms, for every shape of its argument."""

import ast
import re

from ..check import check
from ..flow import Flow
from ..program import AnalysisError, Program
from ..q import FG
from ..terms import *   # NOQA
from .util import *     # NOQA
from .eventer_server2 import THROW
from .runners import outside

ENC = 'hat.event.common.encoder'
COMMON = 'hat.event.common'
LMC = 'hat.event.backends.lmdb.common'
SIZES = {'B': 1, 'H': 2, 'I': 4, 'Q': 8, 'b': 1, 'h': 2, 'i': 4, 'q': 8}


class Overlay:
    """program with synthetic functions that compose others"""

    def __init__(self, ctx, extra):
        self.ctx = ctx
        self.prog = Program(ctx.prog.root, extra)

    def flow(self, qual, opaque, args=None):
        fl = Flow(self.prog, opaque=opaque)
        f = self.prog.func(qual)
        fl.run(f, args=args)
        g = FG(fl, f)
        self.ctx.count('graph nodes of compositions', len(g.nodes))
        return g


def returned(g):
    return [n for n in g.nodes if g.is_return(n) and len(n.frame) == 0]


class Norm:
    """canonical form of values of a graph"""

    def __init__(self, prog, g, types, nones=()):
        self.prog, self.g = prog, g
        self.types = types      # term -> types of the declaration
        self.nones = set(nones)
        self.bad = []           # lists not made of every element

    def classes(self, t):
        """classes a term is declared with"""
        return {x[1] for x in _flat(self.type_of(t)) if x[0] == 'cls'}

    def type_of(self, t):
        if t in self.types:
            return self.types[t]
        if t[0] == 'a':
            for x in _flat(self.type_of(t[1])):
                if x[0] == 'cls' and x[1] in self.prog.classes:
                    c = self.prog.classes[x[1]]
                    for f in c.fields:
                        if f[0] == t[2]:
                            return self.prog.ann_type(c.module, f[1])
        if t[0] == 'el':
            x = self.type_of(t[1])
            if x and x[0] == 'gen' and x[2]:
                return x[2][0]
        if t[0] == 'i' and t[2][0] == 'c':
            x = self.type_of(t[1])
            if x and x[0] == 'gen' and x[1] == 'tuple' and isinstance(
                    t[2][2], int) and t[2][2] < len(x[2]):
                return x[2][t[2][2]]
        return None

    def __call__(self, t, facts=()):
        n = lambda x: self(x, facts)
        if t[0] == 'a':
            return ('a', n(t[1]), t[2], None)
        if t[0] == 'el':
            return ('el', n(t[1]), None)
        if t[0] == 'op' and t[1].startswith('enum:'):
            v = n(t[2])
            if v[0] == 'a' and v[2] == 'value' and t[1][5:] in self.classes(
                    v[1]):
                return v[1]
            return t[:2] + (v, )
        if t[0] == 'op' and t[1] == 'lin' and len(t[3]) == 1:
            v = n(t[3][0][0])
            c = t[3][0][1]
            if v[:2] == ('op', 'lin') and len(v[3]) == 1:
                k, (w, d) = t[2] + c * v[2], v[3][0]
                if k == 0 and c * d == 1:
                    return w
                return ('op', 'lin', k, ((w, c * d), ))
            if t[2] == 0 and c == 1:
                return v
            return ('op', 'lin', t[2], ((v, c), ))
        if t[0] == 'op' and t[1] in COPIES + ('set', 'frozenset', 'bytes'):
            v = n(t[2])
            return v
        if t[0] == 'r' and t[2][:2] == ('call', 'bytes') and len(t[2]) == 3:
            return n(t[2][2])
        w = unpacked(t, self, facts) if t[0] != 'i' else None
        if w is not None:
            return n(w)
        j = text_of(t)
        if j is not None:
            return n(j)
        d = called(t, 'json.decode')
        if d:
            v = n(d[0])
            e = called(v, 'json.encode')
            return n(e[0]) if e and len(e) == 1 else (
                'op', 'hat.json.decode', v)
        d = called(t, '.decode')
        if d and len(d) == 2:
            v = n(d[1])
            e = called(v, '.encode')
            if e and len(e) == 2 and n(e[0]) == n(d[0]):
                return n(e[1])
        d = called(t, '_from_sbs')
        if d and len(d) == 1:
            v = n(d[0])
            e = called(v, '_to_sbs')
            if e and len(e) == 1 and callee(t)[:-9] == callee(v)[:-7]:
                return n(e[0])
        if t[:2] == ('op', '_replace'):
            b = n(t[2])
            return b if all(n(x[1][1]) == (
                'a', b, const_str(x[1][0]), None) for x in t[
                    3:]) else t[:2] + (b, ) + t[3:]
        if t[0] == 'i':
            u = unpacked(t, self, facts)
            if u is not None:
                return n(u)
            if t[1][0] == 'm' and t[1][2] == '_asdict' and const_str(t[2]):
                return n(('a', t[1][1], const_str(t[2]), None))
            return ('i', n(t[1]), t[2], None)
        if t[0] == 'tup':
            vs = [n(x) for x in t[1]]
            if vs and all(v[0] == 'i' and v[2] == const(i) and v[1] == vs[0][
                    1] for i, v in enumerate(vs)):
                x = self.type_of(vs[0][1])
                if x and x[0] == 'gen' and len(x[2]) == len(vs):
                    return vs[0][1]
            return ('tup', tuple(vs))
        if t[0] == 'rec':
            return self.rec(t, facts)
        if t[0] == 'o':
            return self.collected(t, facts)
        if t[0] in ('r', ) and t[2][0] == 'call':
            return ('r', None, t[2][:2] + tuple(
                n(x) if x and x[0] != 'kwarg' else x for x in t[2][2:]))
        if t[0] == 'op':
            return t[:2] + tuple(n(x) if isinstance(
                x, tuple) and x and isinstance(x[0], str) else x
                for x in t[2:])
        return t

    def rec(self, t, facts):
        n = lambda x: self(x, facts)
        cls = self.prog.classes.get(t[1])
        fs = {k: n(v) for k, v in t[2]}
        owners = {v[1] for k, v in fs.items() if v[0] == 'a' and v[2] == k}
        if not owners:
            owners = {('p', 'x')}
        if cls and len(owners) == 1:
            y = owners.pop()
            if cls.qual in self.classes(y) and all(
                    v == ('a', y, k, None) or v == const(None) and self.none(
                        ('a', y, k, None), facts) for k, v in fs.items()):
                return y
        return ('rec', t[1], tuple(sorted(fs.items())))

    def none(self, y, facts):
        return y in self.nones or any(
            a == ('none', x) and b for a, b in facts
            for x in (a[1], ) if a[0] == 'none' and unage(x) == y)

    def collected(self, t, facts):
        """every element of a sequence, in order"""
        g = self.g
        adds = list(adds_to(g, t))
        vals = {self(m.data['value'], facts) for m in adds}
        if len(vals) != 1:
            return t
        v = vals.pop()
        if v[0] != 'el':
            return t
        ids = {m.id for m in adds}
        ok = all(m.data['how'] in ('add', 'copy', 'extend', 'append', 'comp')
                 for m in adds)
        if not ok:
            return t
        for m in adds:
            if m.data['how'] == 'copy':
                continue
            its = [it for it in g.kind('iter') if self(it.data[
                'value'], facts) == v and m.id in g.reach([it])]
            for it in its:
                if it.frame[:len(m.frame)] == m.frame or m.frame[:len(
                        it.frame)] == it.frame:
                    if g.skipped(it, lambda x: x.id in ids,
                                 lambda a, b: False):
                        return t
        return v[1]


def _flat(t):
    if t is None:
        return ()
    return t[1] if t[0] == 'union' else (t, )


def callee(t):
    return t[2][1] if t[0] == 'r' and t[2][0] == 'call' else t[1] if t[
        0] == 'op' else t[2] if t[0] == 'm' else ''


def called(t, name):
    """arguments of a call of a function of that name"""
    if t[0] == 'r' and t[2][0] == 'call' and t[2][1].endswith(name):
        return t[2][2:]
    if t[0] == 'op' and isinstance(t[1], str) and t[1].endswith(name):
        return t[2:]
    return None


def text_of(t):
    """value whose text has been encoded and decoded"""
    b = None
    if t[:2] == ('op', 'str') and len(t) == 4:
        b, e = t[2:]
    elif t[0] == 'r' and t[2][:2] == ('call', 'str') and len(t[2]) == 4:
        b, e = t[2][2], t[2][3]
        e = e[2] if e[0] == 'kwarg' else e
    elif t[0] == 'm' and t[2] == 'decode':
        b, e = t[1], t[3][0] if t[3] else const('utf-8')
    if b is None:
        return None
    while b[0] == 'op' and b[1] in ('bytes', ):
        b = b[2]
    if b[0] == 'm' and b[2] == 'encode' and (
            b[3][0] if b[3] else const('utf-8')) == e:
        return b[1]
    return None


def layout(t):
    """[(format, argument)] of packed bytes"""
    if t[0] == 'op' and t[1] == 'struct.pack' and t[2][0] == 'c':
        f = t[2][2]
        if f and not set(f) - set('bB'):
            f = '>' + f     # order of bytes does not matter
        if not f or f[0] not in '>!' or len(f) - 1 != len(t) - 3 or any(
                c not in SIZES for c in f[1:]):
            return None
        return list(zip(f[1:], t[3:]))
    if t[0] == 'op' and t[1] in ('bytes', 'bytearray', 'list', 'tuple'):
        return layout(t[2])
    if t[0] == 'tup':
        return [('B', x) for x in t[1]]
    if t[0] == 'op' and t[1] in ('itertools.chain', '+', 'concat', 'add'):
        r = []
        for x in t[2:]:
            y = layout(x)
            if y is None:
                return None
            r += y
        return r
    if t[0] == 'm' and t[2] == 'join' and t[1] == const(b'') and t[3][0][
            0] == 'tup':
        r = []
        for x in t[3][0][1]:
            y = layout(x)
            if y is None:
                return None
            r += y
        return r
    return None


def unpacked(t, norm, facts):
    """what was packed where an item is unpacked"""
    if t[0] == 'r' and t[2][:2] == ('call', 'int.from_bytes') or t[
            :2] == ('op', 'int.from_bytes'):
        xs = t[2][2:] if t[0] == 'r' else t[2:]
        xs = [x[2] if x[0] == 'kwarg' else x for x in xs]
        if len(xs) != 2 or xs[1] != const('big'):
            return None
        return whole(xs[0])
    if t[0] != 'i':
        return None
    k = t[2][2] if t[2][0] == 'c' else None
    u = t[1]
    if u[0] != 'op' or u[1] not in (
            'struct.unpack', 'struct.unpack_from') or u[2][0] != 'c' or \
            not isinstance(k, int):
        return None
    f, src = u[2][2], u[3]
    if f and not set(f) - set('bB'):
        f = '>' + f
    if not f or f[0] not in '>!':
        return None
    lo = u[4][2] if len(u) > 4 and u[4][0] == 'c' else 0
    lo, hi, src = window(src, lo)
    parts = layout(src) if src is not None else None
    if parts is None:
        return None
    off = 0
    fs = f[1:]
    size = sum(SIZES.get(c, 0) for c in fs)
    if u[1] == 'struct.unpack':
        total = sum(SIZES[c] for c, _ in parts) - lo
        if (total if hi is None else min(hi, total)) != size:
            return None     # unpack fails
    at = lo + sum(SIZES.get(c, 0) for c in fs[:k])
    for c, arg in parts:
        if off == at:
            return arg if c == fs[k] else None
        off += SIZES[c]
    return None


def whole(src):
    """unsigned number that slice of bytes consists of"""
    lo, hi, src = window(src, 0)
    parts = layout(src) if src is not None else None
    if parts is None:
        return None
    total = sum(SIZES[c] for c, _ in parts) - lo
    n = total if hi is None else min(hi, total)
    off = 0
    for c, arg in parts:
        if off == lo:
            return arg if SIZES[c] == n and c.isupper() else None
        off += SIZES[c]
    return None


def window(src, lo):
    """start, length and origin of slices"""
    hi = None
    while True:
        if src[0] == 'op' and src[1] == 'slice':
            b, l, h = src[2:5]
            if any(x[0] != 'c' for x in (l, h)):
                return None, None, None
            l, h = l[2] or 0, h[2]
            if hi is None and h is not None:
                hi = h - l - lo
            lo += l
            src = b
        elif src[0] == 'op' and src[1] == 'bytes' and layout(src) is None:
            src = src[2]
        else:
            return lo, hi, src


# wire ----------------------------------------------------------------------


class Schema:
    """types of an SBS schema"""

    def __init__(self, text):
        self.types = {}
        self.module = re.search(r'module\s+(\w+)', text).group(1)
        toks = re.findall(r'[A-Za-z]\w*|[=(){}:,]', re.sub(
            r'#.*', '', text))
        i = 2
        while i < len(toks):
            name = toks[i]
            i += 1
            params = []
            if toks[i] == '(':
                while toks[i] != ')':
                    i += 1
                    if toks[i] not in '(),':
                        params.append(toks[i])
                i += 1
            if toks[i] != '=':
                raise AnalysisError('schema is not understood')
            t, i = self.parse(toks, i + 1)
            self.types[name] = params, t

    def parse(self, toks, i):
        n = toks[i]
        i += 1
        if n in ('Record', 'Choice') and toks[i] == '{':
            fs = []
            i += 1
            while toks[i] != '}':
                k = toks[i]
                t, i = self.parse(toks, i + 2)
                fs.append((k, t))
            return (n, tuple(fs)), i + 1
        args = []
        if i < len(toks) and toks[i] == '(':
            i += 1
            while toks[i] != ')':
                if toks[i] == ',':
                    i += 1
                t, i = self.parse(toks, i)
                args.append(t)
            i += 1
        return ('ref', n, tuple(args)), i

    def resolve(self, t):
        if t[0] != 'ref':
            return t
        if t[1] == 'Optional':
            return ('Choice', (('none', ('ref', 'None', ())),
                               ('value', t[2][0])))
        if t[1] not in self.types:
            return t
        params, d = self.types[t[1]]
        return self.resolve(_subst(d, dict(zip(params, t[2]))))


def _subst(t, m):
    if t[0] == 'ref':
        if t[1] in m and not t[2]:
            return m[t[1]]
        return ('ref', t[1], tuple(_subst(x, m) for x in t[2]))
    return (t[0], tuple((k, _subst(x, m)) for k, x in t[1]))


def schemas(ctx):
    r = {}
    for p in sorted((ctx.prog.root / 'schemas_sbs').rglob('*.sbs')):
        s = Schema(p.read_text(encoding='utf-8'))
        r[s.module] = s
    return r


def conforms(norm, s, t, typ, facts=()):
    """what of a value does not follow the schema: None or text"""
    memo = norm.__dict__.setdefault('conf', {})
    if (t, typ) not in memo:
        memo[t, typ] = None
        memo[t, typ] = _conforms(norm, s, t, typ, facts)
    return memo[t, typ]


def _conforms(norm, s, t, typ, facts):
    g = norm.g
    if called(t, '_to_sbs'):
        n = callee(t).rsplit('.', 1)[-1][:-7]
        return None if typ == ('ref', camel(n), ()) else f'{n}'
    typ = s.resolve(typ)
    if typ[0] == 'Record':
        if t[0] == 'm' and t[2] == '_asdict':
            c = (prog_classes(norm, t[1]) + [None])[0]
            return None if c and {f[0] for f in c.fields} == set(
                dict(typ[1])) and not any(norm.prog.ann_type(
                    c.module, f[1]) in (None, ) for f in c.fields) and all(
                    s.resolve(x)[0] == 'ref' and s.resolve(x)[1] == 'Integer'
                    for x in dict(typ[1]).values()) else 'as dict'
        if t[0] != 'o':
            return f'{show(t)[:80]} is not a record'
        es = {k: list({v for v, _ in vs}) for k, vs in dict_entries(
            g, t).items()}
        want = dict(typ[1])
        if set(es) != set(want):
            return 'fields ' + ', '.join(sorted(
                str(x) for x in set(es) ^ set(want)))
        for k, vs in es.items():
            for v in vs:
                r = conforms(norm, s, v, want[k], facts)
                if r:
                    return f'{k}: {r}'
        return None
    if typ[0] == 'Choice':
        want = dict(typ[1])
        if t[0] != 'tup' or len(t[1]) != 2:
            if t[0] == 'p' or t[0] == 'el' or t[0] == 'a':
                return None
            return f'{show(t)[:80]} is not a choice'
        tag, v = t[1]
        k = const_str(tag)
        if k is None:
            if tag[0] == 'a' and tag[2] == 'value':
                for c in norm.classes(norm(tag[1])):
                    c = norm.prog.classes[c]
                    vals = {x.value for x in c.members.values()
                            if isinstance(x, ast.Constant)}
                    if c.is_enum and vals == set(want):
                        return conforms(norm, s, v, ('ref', 'None', ()))
            return f'tag {show(tag)[:80]}'
        if k not in want:
            return f'tag {k}'
        return conforms(norm, s, v, want[k], facts)
    if typ[1] == 'Array':
        if t[0] == 'o':
            for m in adds_to(g, t):
                v = m.data['value']
                r = conforms(norm, s, v, typ[2][0], facts)
                if r:
                    return f'element: {r}'
            return None
        return None if t[0] in ('p', 'a', 'op', 'el') else 'not an array'
    if typ[1] == 'None':
        return None if t == const(None) else f'{show(t)[:80]} is not None'
    return f'{show(t)[:60]} is no {typ[1]}' if t[0] in (
        'tup', 'rec', 'o') or t == const(None) else None


def prog_classes(norm, t):
    return [norm.prog.classes[c] for c in norm.classes(norm(t))
            if c in norm.prog.classes]


def camel(n):
    return ''.join(x.title() for x in n.split('_'))


def shapes(prog, cls, at, nones):
    """records of a class, with each alternative of each optional field:
    [(record, terms that are None)]"""
    alts = []
    for f in cls.fields:
        y = ('a', at, f[0], None)
        t = prog.ann_type(cls.module, f[1])
        opts = []
        for x in _flat(t):
            c = prog.classes.get(x[1]) if x[0] == 'cls' else None
            if c is not None and c.is_namedtuple:
                opts += [v for v, _ in shapes(prog, c, y, nones)]
            else:
                opts.append(y)
        if optional(f[1]):
            opts.insert(0, const(None))
        alts.append((f[0], opts or [y]))
    base = [(k, o[0]) for k, o in alts]
    full = [(k, o[-1]) for k, o in alts]
    recs = [tuple(base), tuple(full)]
    for i, (k, o) in enumerate(alts):
        for v in o[1:]:
            for b in (base, full):
                recs.append(tuple((*b[:i], (k, v), *b[i + 1:])))
    res = []
    for r in dict.fromkeys(recs):
        res.append((('rec', cls.qual, r), {
            ('a', at, k, None) for k, v in r if v == const(None)}))
    return res


def optional(ann):
    return ann is not None and any(
        isinstance(x, ast.Constant) and x.value is None
        for x in ast.walk(ann)) or 'Optional' in ast.unparse(ann)


def arguments(prog, f):
    """shapes of the (only) argument of an encoder"""
    x = ('p', 'x')
    t = prog.param_type(f, f.params[0])
    r = []
    for u in _flat(t):
        c = prog.classes.get(u[1]) if u[0] == 'cls' else None
        if c is not None and c.is_namedtuple:
            r += [(u, v, n) for v, n in shapes(prog, c, x, set())]
        else:
            r.append((u, x, set()))
    return r


@check('C28')
def wire(ctx):
    prog = ctx.prog
    m = prog.modules.get(ENC)
    if m is None:
        raise AnalysisError('encoder module is not known')
    stems = sorted({f.name[:-7] for f in prog.functions.values()
                    if f.module is m and f.parent is None and
                    f.name.endswith('_to_sbs') and f.name[0] != '_'})
    ctx.need('encoders', len(stems), 7)
    pairs = []
    for n in stems:
        ok = f'{ENC}.{n}_from_sbs' in prog.functions
        ctx.ob('encoder-has-decoder', f'common.encoder.{n}_to_sbs', ok,
               prog.functions[f'{ENC}.{n}_to_sbs'].loc, 'no decoder', [])
        if ok:
            pairs.append(n)
    byts = [n for n in ('timestamp', ) if f'{ENC}.{n}_to_bytes' in
            prog.functions and f'{ENC}.{n}_from_bytes' in prog.functions]
    ctx.need('byte encodings', len(byts))
    ov = Overlay(ctx, {ENC: ''.join(
        f'def _rt_{n}_{k}(x):\n    return {n}_from_{k}({n}_to_{k}(x))\n'
        for k, ns in (('sbs', pairs), ('bytes', byts)) for n in ns)})
    base = outside(ov.prog, COMMON)
    sch = schemas(ctx)
    s = sch.get('HatEventer')
    if s is None:
        raise AnalysisError('eventer schema is not known')
    for k, ns in (('sbs', pairs), ('bytes', byts)):
        for n in ns:
            f = ov.prog.func(f'{ENC}.{n}_to_{k}')
            # other encodings are decided by themselves
            out = base | {f'{ENC}.{x}_{d}_sbs' for x in pairs if x != n
                          for d in ('to', 'from')}
            res, res2, res3 = [], [], []
            for u, arg, nones in arguments(ov.prog, f):
                g = ov.flow(f'{ENC}._rt_{n}_{k}', out, args={'x': arg})
                norm = Norm(ov.prog, g, {('p', 'x'): u}, nones)
                rets = returned(g)
                if not rets:
                    res.append((f.loc, [0]))
                # declared values are encoded and decoded
                for r in g.kind('raise'):
                    res.append((r.loc, [r.id]))
                for r in rets:
                    v = norm(r.data['value'], r.facts)
                    res.append((f.loc, None if v == norm(
                        arg, r.facts) == ('p', 'x') else [r.id]))
                    res3.append((f.loc, untupled(
                        norm, r.data['value'], u, r.facts) and
                        [r.id] or None))
                if k != 'sbs':
                    continue
                g2 = ov.flow(f.qual, out, args={f.params[0]: arg})
                norm = Norm(ov.prog, g2, {('p', 'x'): u}, nones)
                for r in returned(g2):
                    bad = conforms(norm, s, r.data['value'], (
                        'ref', camel(n), ()), r.facts)
                    res2.append((f.loc, [r.id] if bad else None))
            where = f'common.encoder.{n}_to_{k}'
            ctx.count('shapes of values', len(res))
            once(ctx, 'decoded-is-what-was-encoded', where, res,
                 msg='decoding does not give the encoded value back')
            once(ctx, 'types-stay-tuples', where, res3,
                 msg='a decoded event type is not a tuple')
            if res2:
                once(ctx, 'encoded-follows-schema', where, res2,
                     msg='encoded value does not follow the schema')


def untupled(norm, v, typ, facts):
    """a value declared as a tuple that is none"""
    if v[0] == 'rec':
        c = norm.prog.classes.get(v[1])
        anns = {f[0]: norm.prog.ann_type(c.module, f[1])
                for f in c.fields} if c else {}
        return any(untupled(norm, x, anns.get(k), facts) for k, x in v[2])
    for t in _flat(typ):
        if t[0] == 'gen' and t[1] == 'tuple':
            if v == const(None):
                return False
            return not (v[0] == 'op' and v[1] == 'tuple' or v[0] == 'tup')
        if t[0] == 'gen' and t[2] and v[0] == 'o' and any(
                x and x[0] == 'gen' and x[1] == 'tuple' for x in t[2]):
            return any(untupled(norm, m.data['value'], t[2][0], facts)
                       for m in adds_to(norm.g, v))
    return False
