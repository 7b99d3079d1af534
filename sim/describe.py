"""Facts about one property for check.py, as JSON:  describe.py ID | ID case MODE TIER SEED INDEX"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import seams, simfs         # noqa: E402
seams.install()
simfs.install()
from sim import core, adapter        # noqa: E402
try:
    adapter.bind()
except Exception:
    traceback.print_exc()
    sys.exit(3)
from sim import props                # noqa: E402

DEADLINE = {'quick': 420, 'thorough': 800}


def main():
    a = sys.argv[1:]
    try:
        prop = props.get(a[0])
    except KeyError:
        sys.stderr.write('no such property: %s\n' % a[0])
        return 2
    if a[1:2] == ['case']:
        mode, tier, seed, i = a[2], a[3], int(a[4]), int(a[5])
        print(json.dumps(prop.generate(core.rng_for('case', seed, a[0], mode, i), i, tier)))
        return 0
    seed = int(a[1]) if len(a) > 1 else 1
    tier = a[2] if len(a) > 2 else 'quick'
    samples = []
    for i in (0, 1, 2):
        mode = sorted(prop.quick, reverse=True)[0]
        samples.append(json.dumps(prop.generate(core.rng_for('case', seed, a[0], mode, i), i, tier))[:600])
    quick = dict(prop.quick)
    factor = prop.thorough_factor
    runs = {'quick': quick, 'thorough': {m: n * factor for m, n in quick.items()}}
    if len(quick) == 2:
        workers = dict(prop.workers)
    else:
        workers = {m: 8 for m in quick}
    print(json.dumps({
        'runs': runs, 'deadline': DEADLINE, 'workers': workers, 'wall_limit': prop.wall_limit,
        'minimum': max(20, sum(quick.values()) // 20), 'rule': prop.rule, 'samples': samples,
        'states_rule': prop.states_rule, 'simulated_time': prop.simulated_time, 'real': prop.real, 'stub': prop.stub,
        'common': prop.common, 'level': prop.level, 'assumptions': prop.assumptions}))
    return 0


if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    os._exit(r)
