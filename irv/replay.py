"""Re-run the failing input recorded in a replay file against the current /repo tree."""
import json
import random
import shutil
import sys
import tempfile
from . import build, spec, check
from .native import Native


def main():
    doc = json.load(open(sys.argv[1]))
    P = check.load_property(doc['property'])
    work = tempfile.mkdtemp(prefix='irv_replay_')
    bad = 0
    try:
        _, so = build.build(work, harness=P.harness, ir=False, sources=P.sources, exclude=P.exclude, cflags=P.cflags, libs=P.ldflags)
        nat = Native(so)
        for v in doc['violations']:
            fi = v.get('failing_input')
            if not fi:
                print('contract %s: no failing input recorded; failed obligations: %s' % (
                    v['contract'], [o['obligation'] for o in v['failed_obligations']]))
                continue
            c = [c for c in P.contracts if c.name == v['contract']][0]
            if fi.get('run_before'):
                spec.run_concrete(c, nat, random.Random(0), fi['run_before'])
            r = spec.run_concrete(c, nat, random.Random(0), fi['inputs'])
            print('contract %s: inputs %s -> %s' % (c.name, fi['inputs'], r and (r[0] or 'holds')))
            if r and r[0]:
                bad = 1
        nat.close()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return bad


if __name__ == '__main__':
    sys.exit(main())
