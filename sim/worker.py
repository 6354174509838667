"""One worker process: plays every k-th run of a batch and reports as JSON."""
import json
import resource
import sys
import time
import traceback

from . import case as C
from .profiles import P

MEMORY = 3 << 30


def main():
    prop, vseed, first, stride, total, cap, out = sys.argv[1:8]
    first, stride, total, cap = int(first), int(stride), int(total), float(cap)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    sys.setrecursionlimit(2000)
    stats = {}
    crcs = []
    trails, shapes = set(), set()
    samples = []
    res = {'runs': 0, 'violation': None, 'error': None, 'stopped': False}
    end = time.time() + cap
    steps = 0
    for i in range(first, total, stride):
        if time.time() > end:
            res['stopped'] = True
            break
        seed = '%s:%s:%d' % (vseed, prop, i)
        try:
            case, w, v = C.generate(prop, seed)
        except BaseException:
            res['error'] = 'run %s\n%s' % (seed, traceback.format_exc()[-3000:])
            break
        res['runs'] += 1
        steps += len(case['steps'])
        if w is not None:
            for k, n in w.stats.items():
                stats[k] = stats.get(k, 0) + n
            crcs.append(w.crc)
            trails |= w.trails
            shapes |= w.shapes
            if len(samples) < 2 and len(json.dumps(case)) < 6000:
                samples.append({'seed': seed, 'case': case})
        if v is not None:
            case['seed'] = seed
            case['violation'] = {'class': v.cls, 'message': v.msg}
            full = len(case['steps'])
            try:
                small = C.minimise(case, v.cls, 25)
                small = dict(small)
                _, v2 = C.judge(small)
                if v2 is not None:
                    small['violation'] = {'class': v2.cls, 'message': v2.msg}
                    small['original_steps'] = full
                    case = small
            except BaseException:
                pass
            res['violation'] = case
            break
    C.OTHER.close()
    res.update(stats=stats, crcs=crcs, trails=sorted(trails), shapes=sorted(shapes),
               samples=samples, steps=steps)
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    assert P
    main()
