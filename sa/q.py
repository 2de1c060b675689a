"""Queries over exploded graphs."""

import collections

from .program import AnalysisError
from .terms import *   # NOQA
from .flow import Flow


class FG:
    """Graph of one entry with the queries the rules are made of"""

    def __init__(self, flow, func):
        self.flow = flow
        self.p = flow.p
        self.func = func
        self.nodes = flow.g.nodes
        self.exits = flow.exits

    def __len__(self):
        return len(self.nodes)

    # selection ---------------------------------------------------------

    def kind(self, *kinds):
        return [n for n in self.nodes if n.kind in kinds]

    def calls(self, *names, base=None, where=None):
        """call nodes; a name '.x' matches methods, others full names"""
        r = []
        for n in self.nodes:
            if n.kind != 'call':
                continue
            if names and n.data['callee'] not in names and not any(
                    n.data['fn'] is not None and n.data['fn'].qual == x
                    for x in names):
                continue
            if base is not None and not base(n.data['base']):
                continue
            if where is not None and not where(n):
                continue
            r.append(n)
        return r

    def enters(self, *names):
        return [n for n in self.nodes
                if n.kind == 'enter' and n.data['fn'] in names]

    def ty(self, t):
        return self.flow.ty(t)

    def arg(self, n, name, pos=None):
        """argument of a call/enter node by parameter name"""
        b = n.data.get('bound')
        if b and name in b:
            return b[name]
        for k, v in n.data.get('kws', ()):
            if k == name:
                return v
        if pos is not None and 'args' in n.data and \
                pos < len(n.data['args']):
            return n.data['args'][pos]
        return None

    @property
    def entry(self):
        return self.nodes[0]

    # reachability ------------------------------------------------------

    def reach(self, starts, block=None, back=False, through_start=True,
              edge=None):
        """node id -> previous id, for everything reachable from starts
        without entering a blocked node

        Starts given as nodes are entered whatever they are, starts given by
        their ids (the successors of a node, say) only when not blocked."""
        par = {}
        dq = collections.deque()
        for s in starts:
            i = s if isinstance(s, int) else s.id
            if isinstance(s, int) and block is not None and block(
                    self.nodes[i]):
                continue
            if i not in par:
                par[i] = None
                dq.append(i)
        while dq:
            i = dq.popleft()
            n = self.nodes[i]
            for j in (n.pred if back else n.succ):
                if j in par:
                    continue
                m = self.nodes[j]
                if edge is not None and not (edge(m, n) if back
                                             else edge(n, m)):
                    continue
                if block is not None and block(m):
                    continue
                par[j] = i
                dq.append(j)
        return par

    def path(self, par, i):
        r = []
        while i is not None:
            r.append(i)
            i = par[i]
        return r[::-1]

    def show_path(self, ids, limit=int(__import__("os").environ.get("SA_PATH", "14"))):
        """condensed source path"""
        out = []
        for i in ids:
            n = self.nodes[i]
            if n.kind in ('join', 'loop', 'exit', 'iterend', 'loopexit'):
                continue
            d = n.describe()
            if n.kind == 'assume':
                d = ('' if n.data['pol'] else 'not ') + \
                    show_atom(n.data['atom'])
            s = f'{n.loc}: {n.kind} {d}'[:150]
            if not out or out[-1] != s:
                out.append(s)
        if len(out) > limit:
            h = limit // 2
            out = out[:h] + ['...'] + out[-h:]
        return out

    # rules -------------------------------------------------------------

    def unpreceded(self, target, guard, also_ok=None):
        """a path entry -> target that meets no guard node, or None"""
        par = self.reach([target], block=guard, back=True)
        if 0 in par:
            return self.path(par, 0)[::-1]
        return None

    def unfollowed(self, source, sink, ends, block=None):
        """a path source -> end that meets no sink node, or None"""
        blk = sink if block is None else (lambda m: sink(m) or block(m))
        par = self.reach([source], block=blk)
        for i in par:
            n = self.nodes[i]
            if ends(n) and n is not source:
                return self.path(par, i)
        return None

    def is_end(self, n):
        """top level return, implicit return or uncaught exception"""
        return n.kind == 'uncaught' or self.is_return(n)

    def is_return(self, n):
        return n.kind == 'return' and not n.frame and not n.succ

    def holds(self, node, lit, labels=None):
        """does a literal accepted by `lit(atom, polarity)` hold at node?

        True when it is among the known facts or every path to the node
        passes the test after the values it is about were produced.
        """
        if any(lit(a, b) for a, b in node.facts):
            return True
        return self.unheld(node, lit, labels) is None

    def unheld(self, node, lit, labels=None):
        fl = getattr(lit, 'facts', None)
        if any(lit(a, b) for a, b in node.facts) or fl and fl(node.facts):
            return None
        if labels is None:
            labels = set()
            for v in _terms(node):
                labels |= {x for x in labels_of(v) if x[0] == 'L'}
        dead = set(labels)
        par = {node.id: None}
        dq = collections.deque([node.id])
        while dq:
            i = dq.popleft()
            n = self.nodes[i]
            if i != node.id and (any(lit(a, b) for a, b in n.facts) or
                                 fl and fl(n.facts)):
                continue
            if n.kind == 'assume' and lit(n.data['atom'], n.data['pol']):
                continue
            if any(x in dead for x in n.defs) or not n.pred:
                return self.path(par, i)[::-1]
            for j in n.pred:
                if j not in par:
                    par[j] = i
                    dq.append(j)
        return None

    def feasible_ends(self):
        return [n for n in self.nodes if self.is_end(n)]

    def loop_next(self, it):
        """nodes where the iteration started at `it` is over"""
        return lambda n: (n.kind in ('iter', 'iterend', 'loop') and
                          n.ast is it.ast and n.frame == it.frame)

    # elements ----------------------------------------------------------

    def skipped(self, it, done, excuse):
        """path of an iteration that ends without `done` and without
        passing an assume accepted by `excuse`"""
        nxt = self.loop_next(it)
        fl = getattr(excuse, 'facts', None)

        def block(m):
            if done(m):
                return True
            if fl and fl(m.facts):
                return True
            if m.kind == 'assume' and excuse(m.data['atom'],
                                             m.data['pol']):
                return True
            return m.kind in ('throws', 'raise', 'uncaught')
        par = self.reach([it], block=block)
        for i in sorted(par):
            n = self.nodes[i]
            if i == it.id:
                continue
            if done(n):
                continue
            if nxt(n) or n.kind == 'loopexit' and n.ast is it.ast and \
                    n.frame == it.frame:
                # the element must be over, not merely entered again
                return self.path(par, i)
            if n.kind == 'return' and len(n.frame) <= len(it.frame) and \
                    n.frame == it.frame[:len(n.frame)]:
                return self.path(par, i)
        return None


    def early(self, it, excuse=lambda a, b: False, at=None):
        """path that leaves the loop of `it` before its source is exhausted
        (break or return), other than by an exception or after a node
        accepted by `at`"""
        nxt = self.loop_next(it)

        def block(m):
            return nxt(m) or at is not None and at(m) or m.kind in ('throws', 'raise', 'uncaught') or \
                m.kind == 'assume' and excuse(m.data['atom'], m.data['pol'])
        par = self.reach([it], block=block)
        for i in sorted(par):
            n = self.nodes[i]
            if i == it.id:
                continue
            if n.kind == 'loopexit' and n.ast is it.ast and \
                    n.frame == it.frame:
                return self.path(par, i)
            if n.kind == 'return' and len(n.frame) <= len(it.frame) and \
                    n.frame == it.frame[:len(n.frame)]:
                return self.path(par, i)
        return None

    def between(self, a, b_pred, hit, block=None):
        """path a -> hit -> (before) b: a node accepted by `hit` that lies on
        some path from node a to a node accepted by b_pred"""
        par = self.reach([a], block=lambda m: block and block(m))
        stop = self.reach([a], block=b_pred)
        back = set()
        ends = [n for i in par for n in [self.nodes[i]]
                if b_pred(n) and any(j in stop for j in n.pred)]
        bp = self.reach(ends, back=True, block=lambda m: m.id not in stop)
        for i in sorted(stop):
            n = self.nodes[i]
            if i != a.id and i in bp and hit(n):
                return self.path(stop, i)
        return None


def _terms(n):
    for k, v in n.data.items():
        if isinstance(v, tuple):
            yield v


def is_lit(atoms, pol=True):
    return lambda a, b: b == pol and a in atoms


def mentions_attr(t, name):
    return any(x and x[0] == 'a' and x[2] == name for x in subterms(t))
