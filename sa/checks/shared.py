"""walks over shared state (C36)"""
import ast

from ..check import check
from ..terms import *   # NOQA
from .util import *     # NOQA

LIVE = ('content', 'iter', 'enumerate', 'reversed', 'zip', 'itertools.chain',
        'filter', 'map')
VIEWS = ('items', 'keys', 'values')
SIZE = ('pop', 'popitem', 'popleft', 'remove', 'discard', 'add', 'clear',
        'append', 'appendleft', 'insert', 'extend', 'extendleft', 'update',
        'setdefault', 'difference_update', 'intersection_update')
DROP = tuple('.' + i for i in SIZE) + ('.__delitem__', )


def walked(t):
    """collections a walk goes over while they stay what they are"""
    while t and t[0] == 'op' and t[1] in LIVE and len(t) > 2:
        if t[1] in ('zip', 'itertools.chain'):
            return [b for x in t[2:] if isinstance(x, tuple)
                    for b in walked(x)]
        t = t[3] if t[1] in ('filter', 'map') and len(t) > 3 else t[2]
    if t and t[0] == 'm' and t[2] in VIEWS:
        t = t[1]
    elif t and t[0] == 'r' and t[2][0] == 'call' and t[2][1] in [
            '.' + i for i in VIEWS]:
        t = t[2][2]
    if t and t[0] == 'op':
        return []
    return [t if t[0] == 'o' else unage(t)] if t else []


def changers(prog, mod):
    """attribute name -> functions of the module that change the size of
    what is kept there: [(function, place)]"""
    out = {}
    for q, f in sorted(prog.functions.items()):
        if f.module is not mod:
            continue
        alias, made = {}, set()
        for x in ast.walk(f.node):
            # what is made here is nobody else's yet
            if isinstance(x, ast.Assign) and isinstance(
                    x.value, ast.Call) and isinstance(
                        x.value.func, ast.Name) and prog.classes.get(
                            f'{mod.name}.{x.value.func.id}'):
                made |= {y.id for y in x.targets if isinstance(y, ast.Name)}
            if isinstance(x, ast.Assign) and isinstance(
                    x.value, ast.Attribute):
                for y in x.targets:
                    if isinstance(y, ast.Name):
                        alias[y.id] = x.value.attr

        def name(e):
            if isinstance(e, ast.Attribute):
                return None if isinstance(e.value, ast.Name) and (
                    e.value.id in made or e.value.id == 'self' and
                    f.node.name == '__init__') else e.attr
            return alias.get(e.id) if isinstance(e, ast.Name) else None
        for x in ast.walk(f.node):
            n = None
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr in SIZE:
                n = name(x.func.value)
            elif isinstance(x, ast.Subscript) and isinstance(
                    x.ctx, (ast.Store, ast.Del)):
                n = name(x.value)
            if n:
                out.setdefault(n, []).append((f, x))
    return out


def walks_of(ctx, f, byname):
    """[(place, path of a wait in a live walk or None)] and [(place, path of
    a change by the walk or None)] of one function"""
    prog = ctx.prog
    if f.module.rel not in byname:
        byname[f.module.rel] = changers(prog, f.module)
    changed = byname[f.module.rel]
    g = ctx.flow(f, {q for q in prog.functions if q != f.qual})
    res, res2 = [], []
    for it in g.kind('iter'):
        nxt = g.loop_next(it)
        body = g.reach([it], block=nxt)
        comes = g.reach([m for m in g.nodes if nxt(m)], back=True,
                        block=lambda m: m.id not in body)
        mid = [i for i in body if i in comes and i != it.id]
        for b in walked(it.data['iter']):
            if b[0] == 'a':
                # what was taken away is walked over by nobody else
                taken = lambda m: m.kind == 'store' and m.data['attr'] == \
                    b[2] and m.data['base'] == b[1]
                sus = [i for i in mid if g.nodes[i].kind == 'suspend']
                res.append((it.loc, g.path(body, sus[0]) if sus and
                            changed.get(b[2]) and
                            g.unpreceded(it, taken) else None))
            bad = [i for i in mid if g.nodes[i].kind in ('call', 'add')
                   and changes(g.nodes[i], b, changed)]
            res2.append((it.loc, g.path(body, bad[0]) if bad else None))
    return g, res, res2


@check('C36')
def walks(ctx):
    prog = ctx.prog
    fs = []
    for q, f in sorted(prog.functions.items()):
        if not q.startswith(EV) or '.convert' in q or not isinstance(
                f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        if any(isinstance(x, (ast.For, ast.AsyncFor, ast.comprehension))
               for x in ast.walk(f.node)):
            fs.append(f)
    ctx.need('functions that walk over something', len(fs), 10)
    byname = {}
    n_walks = 0
    for f in fs:
        g, res, res2 = walks_of(ctx, f, byname)
        n_walks += len(res2)
        where = short(f.qual)
        if res:
            once(ctx, 'no-waiting-in-a-live-walk', where, res, fg=g,
                 msg='a task can be suspended while it walks over a '
                     'collection other tasks change')
        if res2:
            once(ctx, 'walk-keeps-its-collection', where, res2, fg=g,
                 msg='a collection is changed by the walk over it')
    ctx.need('walks over collections', n_walks, 20)


def changes(m, b, changed):
    """does the node change the size of collection b?"""
    own = (lambda t: t == b) if b[0] == 'o' else (lambda t: unage(t) == b)
    if m.kind == 'add':
        return own(m.data['obj'])
    base = m.data['base']
    if m.data['callee'] in DROP and base and own(base):
        return True
    # a method of the object that does it
    fn = m.data.get('fn')
    q = fn.qual if hasattr(fn, 'qual') else m.data['callee']
    return b[0] == 'a' and b[1] == ('p', 'self') and any(
        f.qual == q and not f.is_async for f, _ in changed.get(b[2], ()))
