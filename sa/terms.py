"""Abstract values.

A term is a nested tuple; the first element is its kind:

  ('c', type, value)            literal
  ('g', qual)                   module level object / enum member
  ('p', name)                   parameter of the analysed entry
  ('a', base, attr, ver)        attribute read (ver None: never reassigned)
  ('i', base, key, ver)         item read
  ('m', base, name, args, ver)  result of a read-only method
  ('r', label, desc)            result of an effectful call (one per site,
                                the most recent one)
  ('op', name, *args)           pure operation
  ('cmp', atom, polarity)       truth value of a canonical atom
  ('tup', items)                tuple display
  ('rec', cls, fields)          NamedTuple instance, field by field
  ('o', kind, label)            object allocated at a site
  ('el', iterable, label)       loop element
  ('fn', nid, frame) ('bm', qual, self) ('part', fn, args, kws)
  ('coro', ...) ('gen', ...) ('gx', ...) callables and suspended bodies
  ('exc', cls, label, excluded) exception value

Labels ('L', frame, nid) name the site that produced a value; ('^', L) is an
older value of the same site, ('@', L) a representative of the values
collected in a container.
"""

NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)

_labels_cache = {}


def const(v):
    return ('c', type(v).__name__, v)


def is_const(t):
    return t[0] == 'c'


def labels_of(t):
    if not isinstance(t, tuple):
        return frozenset()
    r = _labels_cache.get(t)
    if r is not None:
        return r
    if t and t[0] in ('L', '^', '@', 'F') and t[0] != 'c':
        r = frozenset((t,))
    elif t and t[0] == 'c':
        r = frozenset()
    else:
        acc = set()
        for i in t:
            if isinstance(i, (tuple, frozenset)):
                if isinstance(i, frozenset):
                    for j in i:
                        acc |= labels_of(j)
                else:
                    acc |= labels_of(i)
        r = frozenset(acc)
    _labels_cache[t] = r
    return r


def subst_label(t, old, new):
    if not isinstance(t, tuple):
        if isinstance(t, frozenset):
            return frozenset(subst_label(i, old, new) for i in t)
        return t
    if old not in labels_of(t):
        return t
    if t == old:
        return new
    return tuple(subst_label(i, old, new) if isinstance(i, (tuple, frozenset))
                 else i for i in t)


def map_labels(t, fn):
    """Rewrite every label"""
    if isinstance(t, frozenset):
        return frozenset(map_labels(i, fn) for i in t)
    if not isinstance(t, tuple) or not t:
        return t
    if not labels_of(t):
        return t
    if t[0] in ('L', '^', '@'):
        return fn(t)
    return tuple(map_labels(i, fn) for i in t)


def strip(t):
    """Forget versions, labels and ages: the shape of an access path"""
    if isinstance(t, frozenset):
        return frozenset(strip(i) for i in t)
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'c':
        return t
    if t[0] in ('L', '^', '@', 'F'):
        return '~'
    if t[0] == 'a':
        return ('a', strip(t[1]), t[2])
    if t[0] == 'i':
        return ('i', strip(t[1]), strip(t[2]))
    if t[0] == 'm':
        return ('m', strip(t[1]), t[2], strip(t[3]))
    return tuple(strip(i) for i in t)


def unver(t):
    """Forget versions of reads, keep labels"""
    if isinstance(t, frozenset):
        return frozenset(unver(i) for i in t)
    if not isinstance(t, tuple) or not t or t[0] == 'c':
        return t
    if t[0] == 'a':
        return ('a', unver(t[1]), t[2])
    if t[0] == 'i':
        return ('i', unver(t[1]), unver(t[2]))
    if t[0] == 'm':
        return ('m', unver(t[1]), t[2], unver(t[3]))
    return tuple(unver(i) for i in t)


def subterms(t):
    if isinstance(t, frozenset):
        for i in t:
            yield from subterms(i)
        return
    if not isinstance(t, tuple):
        return
    yield t
    if t and t[0] == 'c':
        return
    for i in t:
        if isinstance(i, (tuple, frozenset)):
            yield from subterms(i)


def mentions(t, sub):
    return any(i == sub for i in subterms(t))


_depth_cache = {}
_content_cache = {}
_objs_cache = {}


def depth(t):
    if not isinstance(t, tuple) or (t and t[0] in ('c', 'L', '^', '@', 'F')):
        return 0
    r = _depth_cache.get(t)
    if r is None:
        r = _depth_cache[t] = 1 + max((depth(i) for i in t), default=0)
    return r


def content_bases(t):
    """bases whose content the term reads"""
    if not isinstance(t, (tuple, frozenset)):
        return frozenset()
    r = _content_cache.get(t)
    if r is not None:
        return r
    acc = set()
    if isinstance(t, tuple):
        if t and t[0] == 'c':
            return frozenset()
        if t and t[0] in ('i', 'm') and len(t) > 3:
            acc.add(t[1])
        elif t and t[0] == 'op' and len(t) > 2 and t[1] == 'content':
            acc.add(t[2])
        elif t and t[0] == 'in' and len(t) > 2:
            acc.add(t[2])
    for i in t:
        if isinstance(i, (tuple, frozenset)):
            acc |= content_bases(i)
    r = _content_cache[t] = frozenset(acc)
    return r


def object_subterms(t):
    """allocated objects a term contains"""
    if not isinstance(t, (tuple, frozenset)):
        return frozenset()
    r = _objs_cache.get(t)
    if r is not None:
        return r
    acc = set()
    if isinstance(t, tuple):
        if t and t[0] == 'c':
            return frozenset()
        if t and t[0] == 'o':
            acc.add(t)
    for i in t:
        if isinstance(i, (tuple, frozenset)):
            acc |= object_subterms(i)
    r = _objs_cache[t] = frozenset(acc)
    return r


def root(t):
    while t[0] in ('a', 'i', 'm', 'el'):
        t = t[1]
    return t


def show(t):
    if isinstance(t, frozenset):
        return '{' + ', '.join(sorted(show(i) for i in t)) + '}'
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'c':
        return repr(t[2])
    if k == 'g':
        return t[1].rsplit('.', 2)[-1] if t[1].count('.') < 2 else \
            '.'.join(t[1].split('.')[-2:])
    if k == 'p':
        return t[1]
    if k == 'a':
        return f'{show(t[1])}.{t[2]}'
    if k == 'i':
        return f'{show(t[1])}[{show(t[2])}]'
    if k == 'm':
        return f'{show(t[1])}.{t[2]}({", ".join(show(i) for i in t[3])})'
    if k == 'r':
        return f'<{show(t[2])}>'
    if k == 'op':
        return f'{t[1]}({", ".join(show(i) for i in t[2:])})'
    if k == 'cmp':
        return ('' if t[2] else 'not ') + show_atom(t[1])
    if k == 'tup':
        return '(' + ', '.join(show(i) for i in t[1]) + ')'
    if k == 'rec':
        return (t[1].rsplit('.', 1)[-1] + '(' +
                ', '.join(f'{n}={show(v)}' for n, v in t[2]) + ')')
    if k == 'o':
        return f'{t[1]}@{show(t[2])}'
    if k == 'el':
        return f'each({show(t[1])})'
    if k in ('L',):
        return f'{t[2]}'
    if k in ('^', '@'):
        return f'{k}{show(t[1])}'
    if k == 'exc':
        return f'exc:{t[1]}'
    return '(' + ' '.join(show(i) for i in t) + ')'


def show_atom(a):
    k = a[0]
    if k == 'eq':
        return f'{show(a[1])} == {show(a[2])}'
    if k == 'lt':
        return f'{show(a[1])} < {show(a[2])}'
    if k == 'none':
        return f'{show(a[1])} is None'
    if k == 'truthy':
        return f'bool({show(a[1])})'
    if k == 'isinst':
        return f'isinstance({show(a[1])}, {a[2].rsplit(".", 1)[-1]})'
    if k == 'in':
        return f'{show(a[1])} in {show(a[2])}'
    return str(a)
