"""Whole cases: generating one from a seed, judging one from its data,
second executions (other hash values, another process), minimisation."""
import base64
import copy
import json
import os
import random
import subprocess
import sys
import time
import zlib

from . import knots, preempt, release, restart  # noqa: F401  (register their steps)
from .exec import Sim
from .gen import SALTS, play
from .profiles import P
from .seam import SEAM
from .world import Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Other:
    """A second interpreter with a different hash seed, kept for many cases."""

    def __init__(self):
        self.proc = None

    def ask(self, msg):
        if self.proc is None:
            env = dict(os.environ, PYTHONHASHSEED='98765')
            self.proc = subprocess.Popen(
                [sys.executable, '-m', 'sim.other'], cwd=HERE, env=env, text=True,
                stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.proc.stdin.write(json.dumps(msg) + '\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError('second interpreter died')
        ans = json.loads(line)
        if 'error' in ans:
            raise RuntimeError('second interpreter: ' + ans['error'])
        return ans

    def close(self):
        if self.proc is not None:
            self.proc.stdin.close()
            self.proc.wait()
            self.proc = None


OTHER = Other()


def generate(prop, seed):
    """Play run ``seed``; (case, world or None, violation or None)."""
    prof = P[prop]
    rng = random.Random(seed)
    steps, holder = [], {}
    v = None
    try:
        play(rng, prof, steps, holder)
    except Violation as e:
        v = e
    case = {'prop': prop, 'cfg': holder['cfg'], 'steps': steps}
    w = holder.get('world')
    if v is None:
        try:
            after(case, w)
        except Violation as e:
            v = e
    SEAM.reset()
    return case, w, v


def judge(case, second=True):
    """Execute a case from its data; (world, violation or None)."""
    w = None
    v = None
    try:
        w = Sim(copy.deepcopy(case['cfg']))
        w.run(copy.deepcopy(case['steps']))
        w.finish()
        if second:
            after(case, w)
    except Violation as e:
        v = e
    SEAM.reset()
    return w, v


def after(case, w):
    """Second executions the property asks for."""
    prof = P[case['prop']]
    if prof.get('resalt'):
        resalt(case, w)
    if prof.get('snaps') and w.reboot is not None:
        reboot(case, w)


def compare_logs(a, b, what):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            raise Violation('hash', 'step log %d differs under %s: %s became %s' % (
                i, what, x[:400], y[:400]))
    if len(a) != len(b):
        raise Violation('hash', '%d log entries became %d under %s' % (
            len(a), len(b), what))


def resalt(case, w):
    log = w.log
    mine = list(case['cfg']['salt'])
    if case['cfg']['dom'] == 'str':
        ans = OTHER.ask({'mode': 'log', 'cfg': case['cfg'], 'steps': case['steps']})
        if ans['violation']:
            raise Violation('hash', 'under another hash seed: ' + ans['violation'])
        compare_logs(log, ans['log'], 'another hash seed')
        w.note('rehashed')
        return
    size = case['cfg']['size']
    small = max(len(s['v']) for s in case['cfg']['objects']) <= 260 and size <= 4000
    for salt in SALTS[1:]:
        if list(salt) == mine or (not small and 0 < salt[2] < 100):
            continue
        cfg = dict(copy.deepcopy(case['cfg']), salt=list(salt))
        what = 'hash assignment %r' % (salt,)
        try:
            x = Sim(cfg)
            x.run(copy.deepcopy(case['steps']))
            x.finish()
        except Violation as v:
            raise Violation('hash', '%s only: %s' % (what, v.msg))
        compare_logs(log, x.log, what)
        w.note('rehashed')


def reboot(case, w):
    data, models, at, salt = w.reboot
    cfg = dict(case['cfg'], objects=[], salt=salt)
    ans = OTHER.ask({'mode': 'boot', 'cfg': cfg, 'steps': case['steps'], 'at': at,
                     'data': base64.b64encode(data).decode(), 'models': models})
    if ans['violation']:
        raise Violation(ans['cls'], 'in a second process: ' + ans['violation'])
    w.note('second_process')


# -- minimisation -----------------------------------------------------------

def size_of(case):
    return len(json.dumps([case['cfg']['objects'], case['steps']]))


def minimise(case, cls, seconds):
    """Shrink objects, steps, faults and arguments while the same class of
    violation persists."""
    end = time.time() + seconds
    second = cls in ('hash',) or P[case['prop']].get('snaps', False)

    def bad(c):
        if time.time() > end:
            return False
        try:
            _, v = judge(c, second)
        except Exception:
            return False
        return v is not None and v.cls == cls

    best = copy.deepcopy(case)
    if not bad(best):
        return case
    # 1. drop the tail, then chunks of steps
    lo, hi = 0, len(best['steps'])
    while lo < hi:
        mid = (lo + hi) // 2
        c = dict(best, steps=best['steps'][:mid])
        if bad(c):
            hi = mid
        else:
            lo = mid + 1
    c = dict(best, steps=best['steps'][:hi])
    if bad(c):
        best = c
    best = shrink_list(best, lambda c: c['steps'], lambda c, x: dict(c, steps=x), bad)
    # 2. faults not needed
    for i, st in enumerate(best['steps']):
        if 'f' in st:
            c = copy.deepcopy(best)
            del c['steps'][i]['f']
            if bad(c):
                best = c
            elif st['f'].get('act') == 'sweep':
                best = narrow_sweep(best, i, bad)
        if 'sweep' in st:
            best = narrow_readers(best, i, bad)
    # 3. initial objects and their contents
    for i in range(len(best['cfg']['objects'])):
        def get(c, i=i):
            return c['cfg']['objects'][i]['v']

        def put(c, x, i=i):
            c = copy.deepcopy(c)
            c['cfg']['objects'][i]['v'] = x
            return c
        best = shrink_list(best, get, put, bad)
    while len(best['cfg']['objects']) > 1:
        c = copy.deepcopy(best)
        c['cfg']['objects'].pop()
        if not bad(c):
            break
        best = c
    # 4. lists inside arguments
    for path in arg_lists(best['steps']):
        def get(c, path=path):
            x = c['steps']
            for p in path:
                x = x[p]
            return x

        def put(c, val, path=path):
            c = copy.deepcopy(c)
            x = c['steps']
            for p in path[:-1]:
                x = x[p]
            x[path[-1]] = val
            return c
        try:
            best = shrink_list(best, get, put, bad)
        except (KeyError, IndexError, TypeError):
            continue
    best = shrink_list(best, lambda c: c['steps'], lambda c, x: dict(c, steps=x), bad)
    return best


def narrow_sweep(best, i, bad):
    f = best['steps'][i]['f']
    at = f.get('from', 1)
    for n, e in ((n, e) for n in range(f.get('max', 40)) for e in f.get('exc', 'E')):
        c = copy.deepcopy(best)
        g = {k: v for k, v in f.items() if k not in ('of', 'max', 'from', 'stride', 'quiet')}
        g.update(act=f['of'], at=at + n * f.get('stride', 1), exc=e)
        c['steps'][i]['f'] = g
        if bad(c):
            return c
    return best


def narrow_readers(best, i, bad):
    st = best['steps'][i]
    sw = st['sweep']
    for n in range(sw['max']):
        c = copy.deepcopy(best)
        new = c['steps'][i]
        del new['sweep']
        new['sched'] = [[0, sw['from'] + n * sw['stride']]] + [
            [t, 1 << 40] for t in range(1, len(st['threads']))]
        if bad(c):
            return c
    return best


def arg_lists(steps):
    out = []

    def walk(x, path):
        if isinstance(x, dict):
            for k, y in x.items():
                if k == 'v' and isinstance(y, list) and y and isinstance(y[0], list):
                    out.append(path + [k])
                elif k in ('threads', 'sched', 'reads', 'ats', 'ops') and isinstance(y, list):
                    out.append(path + [k])
                    walk(y, path + [k])
                else:
                    walk(y, path + [k])
        elif isinstance(x, list):
            for n, y in enumerate(x):
                walk(y, path + [n])
    walk(steps, [])
    return out


def shrink_list(best, get, put, bad):
    n = max(1, len(get(best)) // 2)
    while n >= 1:
        i = 0
        while i < len(get(best)):
            xs = get(best)
            c = put(best, xs[:i] + xs[i + n:])
            if bad(c):
                best = c
            else:
                i += n
        n = n // 2 if n > 1 else 0
    return best


def digest(w):
    return zlib.crc32(b'', w.crc)
