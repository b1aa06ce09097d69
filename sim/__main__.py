import os
import sys

if os.environ.get('PYTHONHASHSEED') in (None, '', 'random'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'sim'] + sys.argv[1:])

from . import core, env  # noqa


def main(argv):
    cmd = argv[0]
    if cmd == '_worker':
        pid, tier, seed, w, nw, n, budget, outp = argv[1:]
        core.worker(pid, tier, int(seed), int(w), int(nw), int(n),
                    float(budget), outp)
        return 0
    if cmd == 'selftest':
        ns = env.load()
        print('simulator ready; package imported from', ns.bp.__file__)
        return 0
    if cmd == 'check':
        return core.batch(argv[1], argv[2])
    if cmd == 'replay':
        return core.replay(argv[1])
    if cmd == 'show':
        import json
        prop = core.load_prop(argv[1])
        prop.setup()
        plan = core.make_plan(prop, int(os.environ.get('VERIF_SEED', '1')),
                              int(argv[2]), 'quick')
        plan['_keeplog'] = True
        print(json.dumps(plan, indent=1))
        r = core.execute(prop, plan)
        print(r.pop('log'))
        print(json.dumps(r, indent=1)[:6000])
        return 0
    if cmd == 'determinism':
        pid, n = argv[1], int(argv[2])
        seed = int(os.environ.get('VERIF_SEED', '1'))
        a = core.digests(pid, 'quick', seed, n, 8)
        b = core.digests(pid, 'quick', seed, n, 4)
        bad = [i for i in sorted(set(a) | set(b)) if a.get(i) != b.get(i)]
        print('%s: %d runs twice (8 and 4 workers), %d differ %s' % (
            pid, len(a), len(bad), bad[:10]))
        return 1 if bad else 0
    print('usage: python -m sim check|replay|show|determinism ...')
    return 2


if __name__ == '__main__':
    rc = 2
    try:
        rc = main(sys.argv[1:])
    finally:
        env.cleanup()
    sys.stdout.flush()
    os._exit(rc)
