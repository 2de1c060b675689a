"""Create and confirm a planted bug.

seed(id, property, needs, breaks, edits, demo) writes /verif/seeded/<id>,
after a scratch copy showed: the patch applies to HEAD, the existing stable
tests pass with it, the demonstration passes without and fails with it, and
prints what the check of the property says.
"""
import json
import os
import pathlib
import subprocess
import sys
import tempfile

SEEDED = pathlib.Path(__file__).resolve().parent.parent / 'seeded'
SCRIPT = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src_py" \\
    exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''
PRE = '''import asyncio
import contextlib
import socket
import sys
import tempfile
from pathlib import Path

from hat import aio
from hat.drivers import tcp
from hat.event import common


def free_addr():
    with contextlib.closing(socket.socket()) as s:
        s.bind(('127.0.0.1', 0))
        return tcp.Address('127.0.0.1', s.getsockname()[1])


def event(typ, server=1, session=1, instance=1, payload=None, ts=None,
          sts=None):
    return common.Event(id=common.EventId(server, session, instance),
                        type=typ, timestamp=ts or common.now(),
                        source_timestamp=sts, payload=payload)


def reg(typ, payload=None):
    return common.RegisterEvent(type=typ, source_timestamp=None,
                                payload=payload)


'''


def sh(*a, cwd=None, **kw):
    return subprocess.run(a, cwd=cwd, capture_output=True, text=True, **kw)


def seed(sid, prop, needs, breaks, edits, demo, tests=True):
    if len(sys.argv) > 1 and sid not in sys.argv[1:]:
        return
    out = SEEDED / sid
    with tempfile.TemporaryDirectory(prefix='seed') as tmp:
        t = pathlib.Path(tmp) / 'repo'
        sh('cp', '-a', '/repo', str(t))
        for f, *pairs in edits:
            p = t / 'src_py/hat/event' / f
            s = p.read_text()
            for a, b in pairs:
                assert s.count(a) == 1, (sid, s.count(a), a)
                s = s.replace(a, b)
            p.write_text(s)
        diff = sh('git', 'diff', cwd=t).stdout
        assert diff
        out.mkdir(parents=True, exist_ok=True)
        (out / 'demo.py').write_text(PRE + demo)
        (out / 'demo.sh').write_text(SCRIPT)
        os.chmod(out / 'demo.sh', 0o755)
        (out / 'meta.json').write_text(json.dumps(dict(
            property=prop, needs=needs, what_it_breaks=breaks),
            indent=1) + '\n')
        (out / 'patch.diff').write_text(diff)
        c = sh('bash', str(out / 'demo.sh'), cwd='/repo')
        b = sh('bash', str(out / 'demo.sh'), cwd=t)
        ok = c.returncode == 0 and b.returncode != 0
        print(sid, 'demo', 'ok' if ok else 'BAD', c.returncode,
              b.returncode, (b.stderr.strip().splitlines() or [''])[-1][:100])
        if c.returncode:
            print(c.stdout[-500:], c.stderr[-1500:])
        if tests:
            env = dict(os.environ, PYTHONPATH=f'{t}/src_py',
                       PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            r = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                   'hat.doit.pytest', '--unit', '--perf', '-p',
                   'no:cacheprovider', '--timeout=120',
                   '--continue-on-collection-errors',
                   *(f'--ignore=test_pytest/test_common/test_{i}.py'
                     for i in ('collection', 'collection_perf',
                               'subscription', 'subscription_perf')),
                   f'--basetemp={tmp}/pt', cwd=t, env=env)
            print('   tests', r.returncode,
                  r.stdout.strip().splitlines()[-1][-90:])
            if r.returncode:
                print('\n'.join(i for i in r.stdout.splitlines()
                                if i.startswith(('FAILED', 'ERROR'))))
        r = sh('python3', '-m', 'sa.main', prop, '--no-write', '--repo',
               str(t), cwd=SEEDED.parent)
        print('   check', prop, 'exit', r.returncode,
              [i for i in r.stdout.splitlines() if '[' in i
               and i.startswith('/')][:1])
