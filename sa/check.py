"""Check runner: obligations, findings, evidence."""

import json
import os
import pathlib
import sys
import time
import traceback

from . import flow as flow_mod
from .flow import Flow
from .program import Program, AnalysisError
from .q import FG

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')

_registry = {}


def check(pid):
    def deco(fn):
        _registry[pid] = fn
        return fn
    return deco


class Ctx:
    def __init__(self, pid, tier, repo=REPO):
        self.pid = pid
        self.tier = tier
        self.prog = Program(str(repo))
        self.obligations = 0
        self.rules = {}
        self.findings = {}
        self.samples = []
        self.graphs = {}
        self.counts = {}
        self.notes = []

    # analysis ----------------------------------------------------------

    def flow(self, func, opaque=(), args=None, self_type=None, **kw):
        p = self.prog
        f = p.func(func) if isinstance(func, str) else func
        key = (f.qual, frozenset(opaque), self_type,
               tuple(sorted((args or {}).items())),
               tuple(sorted((k, repr(v)) for k, v in kw.items())))
        r = self.graphs.get(key)
        if r is None:
            fl = Flow(p, opaque=opaque, **kw)
            fl.run(f, args=args, self_type=self_type)
            r = self.graphs[key] = FG(fl, f)
        return r

    # verdicts ----------------------------------------------------------

    def ob(self, rule, construct, ok, loc='', msg='', path=None):
        """one obligation: `construct` satisfies `rule`"""
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            if len(self.samples) < 40 and r[0] <= 3:
                self.samples.append(f'{rule}: {construct} [{loc}] holds')
            return True
        r[1] += 1
        key = f'{rule}|{construct}'
        self.findings.setdefault(key, dict(
            rule=rule, construct=construct, loc=loc, message=msg,
            path=path or []))
        return False

    def count(self, what, n):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, what, n, at_least=1):
        """instances a rule must find in the analysed tree"""
        self.count(what, n)
        if n < at_least:
            self.ob('required-construct-present', what, False, '',
                    f'{n} found where at least {at_least} must exist')
            raise AnalysisError(f'{what}: found {n}, expected at least '
                                f'{at_least}')


def load_known():
    r = {}
    path = VERIF / 'known_findings.txt'
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith('known: property='):
                head, _, what = line[len('known: '):].partition(' :: ')
                pid, _, key = head.partition(' ')
                r[(pid[len('property='):], key.strip())] = what.strip()
    return r


def run(pid, tier, meta, repo=REPO, write=True):
    t0 = time.time()
    from . import checks  # NOQA  registers the rules
    if tier == 'thorough':
        flow_mod.MAX_STATES = 64
        flow_mod.MAX_NODES = 600000
    ctx = Ctx(pid, tier, repo)
    if pid not in _registry:
        print(f'no check for {pid}', file=sys.stderr)
        return 3
    err = None
    try:
        _registry[pid](ctx)
    except AnalysisError as e:
        err = e
    except Exception as e:
        # code of a shape that no rule is prepared for
        traceback.print_exc()
        err = AnalysisError(f'{type(e).__name__}: {e}')
    known = load_known()
    new, old = [], []
    for key, f in ctx.findings.items():
        if (pid, key) in known:
            old.append((key, f))
        else:
            new.append((key, f))
    wall = time.time() - t0
    funcs = set()
    nodes = edges = 0
    for fg in ctx.graphs.values():
        funcs |= fg.flow.entered
        nodes += len(fg)
        edges += sum(len(n.succ) for n in fg.nodes)
    coverage = {
        'explanation': meta.get('explanation', ''),
        'obligations': ctx.obligations,
        'discharged': ctx.obligations - sum(v[1] for v in
                                            ctx.rules.values()),
        'rules': {k: {'instances': v[0], 'failed': v[1]}
                  for k, v in sorted(ctx.rules.items())},
        'entries': sorted({k[0] for k in ctx.graphs}),
        'functions_analysed': len(funcs),
        'functions': sorted(f for f in funcs if not f.startswith('$'))[:80],
        'graph_nodes': nodes,
        'graph_edges': edges,
        'instances': ctx.counts,
        'samples': ctx.samples[:40],
        'known_findings': [k for k, _ in old],
        'findings': [dict(key=k, **f) for k, f in new],
    }
    if ctx.notes:
        coverage['notes'] = ctx.notes
    if write:
        ev = VERIF / 'evidence'
        ev.mkdir(exist_ok=True)
        (ev / f'{pid}.json').write_text(json.dumps({
            'property': pid, 'tier': tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other', 'coverage': coverage,
            'assumptions': meta.get('assumptions', []),
            'wall_s': round(wall, 3), 'violations': len(new)},
            indent=1) + '\n')
    print(f'{pid}: {ctx.obligations} obligations over '
          f'{len(funcs)} functions, {nodes} graph nodes, '
          f'{wall:.1f} s')
    for k, v in sorted(ctx.rules.items()):
        print(f'  rule {k}: {v[0]} instances, {v[1]} failed')
    for k, v in sorted(ctx.counts.items()):
        print(f'  {k}: {v}')
    for key, f in old:
        print(f'KNOWN-FINDING: property={pid} {f["loc"]} {key} '
              f'{known[(pid, key)]}')
    if new:
        rd = VERIF / 'evidence' / 'replay'
        if write:
            rd.mkdir(parents=True, exist_ok=True)
        for i, (key, f) in enumerate(new):
            rp = rd / f'{pid}-{i}.json'
            if write:
                rp.write_text(json.dumps(dict(
                    property=pid, key=key, **f,
                    rerun=f'python3 -m sa.main {pid}'), indent=1) + '\n')
            print(f'{f["loc"]}: [{f["rule"]}] {f["construct"]}: '
                  f'{f["message"]}')
            for line in f['path']:
                print(f'    {line}')
            print(f'VIOLATION property={pid} '
                  f'replay={rp.relative_to(VERIF)}')
        if err is not None:
            print(f'analysis stopped: {err}')
        return 1
    if err is not None:
        print(f'ANALYSIS-BROKEN property={pid}: {err}', file=sys.stderr)
        return 2
    return 0
