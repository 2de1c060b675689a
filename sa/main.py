"""python3 -m sa.main ID [--tier quick|thorough] [--repo DIR]"""

import argparse
import json
import os
import sys


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'sa.main',
                                  *sys.argv[1:]])
    p = argparse.ArgumentParser()
    p.add_argument('ids', nargs='+')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--repo', default='/repo')
    p.add_argument('--no-write', action='store_true')
    a = p.parse_args()
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def work():
        from . import check
        from .meta import META
        from . import checks
        ids = a.ids
        if ids == ['all']:
            ids = sorted(check._registry)
        for pid in ids:
            res.append(None)
            res[-1] = (check.run(pid, a.tier, META.get(pid, {}), a.repo,
                                 not a.no_write))
            sys.stdout.flush()
    t = threading.Thread(target=work)
    t.start()
    t.join()
    if not res or None in res:
        sys.exit(3)
    sys.exit(1 if 1 in res else max(res))


if __name__ == '__main__':
    main()
