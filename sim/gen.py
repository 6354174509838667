"""Seeded generation of runs.  All choices come from one random.Random; the
generated steps are plain data and are what a replay file holds."""
from .exec import POISON_OPS, Sim, borrows
from .ops import OPS, g_iter
from .seam import INJECTIVE

KEYNAMES = ['neg', 'ident', 'half', 'mod5', 'mod13', 'const', 'negfour']


class Gen:
    def __init__(self, rng, w, prof):
        self.rng = rng
        self.w = w
        self.prof = prof
        self.uid = 100
        self.nval = 1000
        self.badrate = w.cfg.get('badrate', 0)
        self.wantbad = False
        self.next = None

    # -- values --------------------------------------------------------------
    def value(self, o, present=.6):
        r = self.rng
        dom = self.w.dom
        items = o.model.items
        if items and r.random() < present:
            x = r.random()
            v = items[0] if x < .06 else items[-1] if x < .12 else r.choice(items)
            if x > .93:
                p = self.seam(o)
                v = v if p is None else items[p]
            elif x > .87:       # one of several equal ones, if there are any
                for _ in range(4):
                    i = r.randrange(len(items))
                    if i and dom.spec(items[i])[0] == dom.spec(items[i - 1])[0]:
                        v = items[i]
                        break
            spec = dom.spec(v)
            if dom.uids > 1 and r.random() < .35 and not self.w.cfg.get('noties'):
                spec = [spec[0], self.fresh()]
            return spec
        k = r.randrange(dom.size)
        return [k, self.fresh()]

    def fresh(self):
        dom = self.w.dom
        if dom.name == 'V':
            if self.w.cfg.get('noties'):
                return 0
            self.uid += 1
            return self.uid
        return self.rng.randrange(dom.uids)

    def maybe_bad(self, spec):
        if self.badrate and self.rng.random() < self.badrate:
            self.uid += 1
            return ['bad', self.uid]
        return spec

    def newval(self):
        self.nval += 1
        return self.nval

    # -- positions -------------------------------------------------------------
    def seam(self, o):
        """A position where the library's partition of the elements has a seam."""
        r = self.rng
        n = len(o.model.items)
        inner = o.real if o.kind in 'LK' else getattr(o.real, '_list', None)
        try:
            lens = [len(x) for x in inner._lists]
        except (AttributeError, TypeError):
            return None
        if not n or not lens:
            return None
        j = r.choice([1, len(lens) - 1, r.randrange(len(lens)), r.randrange(len(lens))])
        return min(n - 1, max(0, sum(lens[:j]) + r.choice([-1, 0, 0, 1])))

    def position(self, o):
        r = self.rng
        n = len(o.model.items)
        x = r.random()
        if x > .94:
            p = self.seam(o)
            if p is not None:
                return p - r.choice([0, n])
        if n and x < .78:
            return r.randrange(n) if r.random() < .55 else r.randrange(-n, 0)
        if n and x < .90:
            return r.choice([0, -1, n - 1, -n, n // 2])
        return r.choice([n, -n - 1, n + 1, -n - 2, n + 1000, -n - 1000, 0, -1])

    def bound(self, o):
        r = self.rng
        n = len(o.model.items)
        x = r.random()
        if x < .2:
            return None
        if x > .9:
            p = self.seam(o)
            if p is not None:
                return p - r.choice([0, n])
        if x < .8:
            return r.randrange(-n - 1, n + 2)
        return r.choice([n + 50, -n - 50, 0, n, -n])

    def slice3(self, o):
        r = self.rng
        n = len(o.model.items)
        x = r.random()
        step = None if x < .5 else 1 if x < .72 else r.choice([-1, -1, 2, 3, 4, -2, -3, -4, 5])
        if x > .99:
            step = 0
        x = r.random()
        if x < .3 and n:          # narrow window
            a = r.randrange(n)
            if x < .05:
                a = self.seam(o) or a
            b = min(n, a + r.randrange(0, 4))
            return [a, b, step] if step is None or step > 0 else [b, a, step]
        if x < .38:
            return [None, None, step]
        if x < .5 and n > 3:      # wide window
            a, b = r.randrange(n // 3), n - r.randrange(n // 3)
            return [a, b, step] if step is None or step > 0 else [b, a, step]
        return [self.bound(o), self.bound(o), step]

    def thinning(self, o):
        """A slice to delete; sometimes every so many elements of all."""
        r = self.rng
        if r.random() < .8:
            return self.slice3(o)
        step = r.choice([2, 3, 3, 4, 4, 5, 7])
        if r.random() < .3:
            return [-1 - r.randrange(step), None, -step]
        return [r.randrange(step), None, step]

    # -- sources -------------------------------------------------------------
    def count(self, o):
        r = self.rng
        n = len(o.model.items)
        x = r.random()
        if x < .08:
            return 0
        if x < .45:
            return r.randrange(1, max(2, n // 4 + 1)) if n < 400 else r.randrange(1, 40)
        if x < .8:
            return r.randrange(1, 9)
        return r.randrange(n // 5, n // 2 + 8) if n < 300 else r.randrange(1, 60)

    def values(self, o, n=None):
        n = self.count(o) if n is None else n
        if n > 1 and self.rng.random() < .35:
            return self.cluster(o, n)
        p = self.rng.choice([0, .3, .8, 1])
        return [self.value(o, p) for _ in range(n)]

    def cluster(self, o, n):
        """A batch that falls together: at or past an end, or into one gap."""
        r = self.rng
        dom = self.w.dom
        items = o.model.items
        k = r.randrange(dom.size)
        width = r.choice([1, 2, n // 2 + 1, n, 2 * n])
        x = r.choice(['first', 'last', 'any', 'fresh'])
        if items and x != 'fresh':
            k = dom.spec(r.choice(items) if x == 'any' else items[-(x == 'last')])[0]
        low = max(0, k + r.choice([0, 1, -width, 1 - width]))
        out = [[low + r.randrange(width), self.fresh()] for _ in range(n)]
        x = r.random()
        if x < .7:
            out.sort(reverse=x < .3)
        return out

    def source(self, o, iterself=False):
        r = self.rng
        x = r.random()
        if self.wantbad:
            v = self.values(o)
            self.uid += 1
            v.insert(r.randrange(len(v) + 1), ['bad', self.uid])
            return {'t': r.choice(['list', 'tuple', 'gen', 'set', 'dictkeys']), 'v': v}
        if x < self.prof.get('selfsrc', .12):
            t = r.choice(['self', 'iterself', 'genself', 'revself', 'sliceself', 'obj'])
            if len(o.model.items) > 150 and not iterself:
                t = 'sliceself'
            if t == 'sliceself':
                n = len(o.model.items)
                a = r.randrange(n + 1)
                return {'t': t, 'a': [a, a + r.randrange(1 + min(20, n))]}
            if t == 'obj':
                return {'t': t, 'o': r.randrange(8)}
            return {'t': t}
        return {'t': r.choice(['list', 'list', 'tuple', 'gen', 'gen', 'set', 'frozenset',
                               'dictkeys']), 'v': self.values(o)}

    def mapping(self, o):
        r = self.rng
        pairs = [[k, self.newval()] for k in self.values(o)]
        if self.wantbad:
            self.uid += 1
            pairs.insert(r.randrange(len(pairs) + 1), [['bad', self.uid], self.newval()])
            return {'t': r.choice(['dict', 'pairs', 'genpairs']), 'v': pairs}
        opts = ['dict', 'dict', 'pairs', 'pairs', 'genpairs', 'genpairs', 'mapping',
                'self', 'itemsself', 'obj', 'none']
        if self.w.dom.name == 'str':
            opts += ['kwargs', 'kwargs', 'both', 'both', 'bothdict', 'bothdict']
        t = r.choice(opts)
        if t in ('self', 'itemsself', 'none'):
            return {'t': t}
        if t == 'obj':
            return {'t': t, 'o': r.randrange(8)}
        return {'t': t, 'v': pairs}

    # -- faults ----------------------------------------------------------------
    def fault(self, o, opname, spec):
        """Fault for this step, or None."""
        r = self.rng
        cfg = self.w.cfg
        rate = cfg.get('faultrate', 0)
        if not rate or r.random() >= rate:
            return None
        acts = [x for x in self.prof['faults'] if x != 'intr'
                or spec.cat in 'rc']
        if not acts:
            return None
        act = r.choice(acts)
        n = len(o.model.items)
        if act in ('raise', 'read'):
            kinds = ['lt', 'key', 'iter'] + (['eq'] if o.kind in 'LK' else [])
            if r.random() < .25:
                kinds = [r.choice(kinds)]
        if act == 'raise':
            x = r.random()
            exc = r.choice('EEEBMTRVKIA')
            if spec.cat in 'rc1' and n < 300 and x < self.prof.get('allexc', .02):
                # every class of exception at every one of the first callbacks
                return {'act': 'sweep', 'of': 'raise', 'kinds': kinds, 'exc': 'EBMTRVKIA',
                        'from': 1, 'stride': 1, 'max': 12, 'quiet': 1}
            if x < .22:
                return {'act': 'sweep', 'of': 'raise', 'kinds': kinds, 'exc': exc,
                        'from': 1, 'stride': 1 if n < 30 else r.randrange(1, 9),
                        'max': 30}
            return {'act': 'raise', 'at': self.fault_at(n), 'kinds': kinds, 'exc': exc}
        if act == 'read':
            if spec.cat in 'r1' and n < 300 and r.random() < (.4 if opname in HOT else .12):
                # one short read at the first, second, ... callback, each time with
                # the positional index not yet built
                names = [nm for nm in INDEXED if nm in READS[o.kind]]
                reads = [[nm, OPS[o.kind, nm].gen(self, o)]
                         for nm in [r.choice(names) for _ in range(r.choice([1, 1, 2]))]]
                return {'act': 'sweep', 'of': 'read', 'kinds': kinds, 'reads': reads,
                        'from': 1, 'stride': 1 if n < 30 else r.randrange(1, 4), 'max': 20,
                        'quiet': 1, 'drop': r.choice([4, 4, 4, 5, 8, 16])}
            ats = sorted({self.fault_at(n) for _ in range(r.randrange(1, 5))})
            if r.random() < .25:
                ats = list(range(1, 13))
            return {'act': 'read', 'ats': ats, 'kinds': kinds, 'reads': self.reads(o)}
        if act == 'other':
            only = opname if r.random() < .4 else None
            steps = [st for st in (self.apart_step(o, only) for _ in range(r.choice([1, 1, 2, 3])))
                     if st]
            ats = sorted({self.fault_at(n) for _ in range(r.randrange(1, 5))})
            if r.random() < .25:
                ats = list(range(1, 13))
            kinds = ['lt', 'key', 'iter', 'eq', 'hash']
            if r.random() < .3:
                kinds = [r.choice(kinds)]
            return {'act': 'other', 'ats': ats, 'kinds': kinds, 'steps': steps}
        if act == 'intr':
            x = r.random()
            exc = r.choice('BBM')
            if x < .3:
                return {'act': 'sweep', 'of': 'intr', 'exc': exc, 'from': r.randrange(1, 12),
                        'stride': r.choice([1, 2, 3, 5]), 'max': 40}
            return {'act': 'intr', 'exc': exc, 'at': r.randrange(1, r.choice([12, 60, 150, 400]))}
        raise KeyError(act)

    def fault_at(self, n):
        r = self.rng
        x = r.random()
        if x < .3:
            return r.randrange(1, 4)
        if x < .75:
            return r.randrange(1, 4 + 2 * (n + 2).bit_length())
        return r.randrange(1, 3 * n + 6)

    def reads(self, o):
        r = self.rng
        names = [nm for nm in READS[o.kind]]
        out = []
        for _ in range(r.randrange(0, 5)):
            nm = r.choice(names)
            out.append([nm, OPS[o.kind, nm].gen(self, o)])
        return out

    # -- concurrent readers ----------------------------------------------------
    def readers(self):
        r = self.rng
        w = self.w
        nt = r.choice([2, 2, 2, 3, 4])
        focus = r.randrange(len(w.slots)) if r.random() < .85 else None
        same = r.random() < .2
        only = None
        if r.random() < .4:     # all threads do one or two kinds of read
            k = w.slots[focus or 0].kind
            only = r.sample([n for n in self.prof['ops'][k] if OPS[k, n].cat == 'r'],
                            r.choice([1, 1, 2]))
        threads = []
        for t in range(nt):
            job = []
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                s = r.randrange(len(w.slots)) if focus is None else focus
                o = w.slots[s]
                names = self.prof['ops'][o.kind]
                names = [n for n in names if OPS[o.kind, n].cat == 'r']
                if r.random() < .12:
                    names = [n for n in self.prof['ops'][o.kind]
                             if OPS[o.kind, n].cat == 'c']
                hot = [n for n in HOT if n in names]
                nm = r.choice(hot) if hot and r.random() < .7 else r.choice(names)
                if only is not None and all((o.kind, n) in OPS for n in only):
                    nm = r.choice(only)
                job.append([s, nm, OPS[o.kind, nm].gen(self, o)])
            threads.append(job)
        if same:
            threads = [threads[0]] * nt
        x = r.random()
        if x < .06 and len(w.slots[0].model.items) <= 100:
            return {'op': 'readers', 'threads': [t[:2] for t in threads[:2]],
                    'sched': [], 'sweep': {
                        'from': r.randrange(1, 4), 'stride': r.choice([1, 1, 2, 3, 5]),
                        'max': 50, 'drop': r.choice([0, 4, 4, 5, 8])}}
        if x < .3:
            q = r.choice([1, 1, 2, 3, 7])
            sched = [[i % nt, q] for i in range(400)]
        else:
            gap = r.choice([8, 60, 60, 300])
            sched = [[r.randrange(nt), r.randrange(1, gap + 1)]
                     for _ in range(r.choice([2, 3, 4, 6, 12, 30]))]
        return {'op': 'readers', 'threads': threads, 'sched': sched}

    # -- clients that keep to containers of their own ---------------------------
    def apart_step(self, o, only=None):
        """An operation on any container but ``o``."""
        r = self.rng
        w = self.w
        others = [i for i, p in enumerate(w.slots) if p is not o]
        if not others:
            return None
        s = r.choice(others)
        op = self.apart_op(w.slots[s], only)
        return op and {'s': s, 'k': w.slots[s].kind, 'op': op[0], 'a': op[1]}

    def apart_op(self, o, only=None):
        r = self.rng
        for _ in range(8):
            if only is not None and (o.kind, only) in OPS:
                name = only
            else:
                name = r.choice(r.choice([READS, MUT1, MUT1, MUTN, MUTN, MAKE])[o.kind])
            if name in DULL and r.random() < .8:
                continue
            a = OPS[o.kind, name].gen(self, o)
            if not borrows(a):
                return [name, a]
        return None

    def parallel(self):
        st = self.parallel1()
        r = self.rng
        if st and 'sweep' not in st and r.random() < .35:
            st['faults'] = []
            for t, (s, kind, _) in enumerate(st['threads']):
                if r.random() < .6:
                    kinds = ['lt', 'key', 'iter'] + (['eq'] if kind in 'LK' else [])
                    st['faults'].append({
                        't': t, 'exc': r.choice('EEEBMTRVKIA'), 'kinds': kinds,
                        'at': self.fault_at(len(self.w.slots[s].model.items))})
        return st

    def parallel1(self):
        r = self.rng
        w = self.w
        if len(w.slots) < 2:
            return None
        nt = min(len(w.slots), r.choice([2, 2, 2, 3, 4]))
        only = None
        threads = []
        slots = r.sample(range(len(w.slots)), nt)
        if r.random() < .5:     # everybody does the same thing
            k = w.slots[slots[0]].kind
            only = r.choice(r.choice([READS, MUT1, MUTN, MUTN, MAKE, {k: HOT}, {k: HOT}])[k])
        if r.random() < .4:
            return self.dense(slots, only)
        hot = r.random() < .3     # everybody builds and uses lookup state
        for s in slots:
            o = w.slots[s]
            if hot:
                ops = [self.apart_op(o, r.choice(CLEARING[o.kind]))] if w.settled(o) else []
                ops += [self.apart_op(o, r.choice(HOT)) for _ in range(r.choice([1, 2, 3]))]
                threads.append([s, o.kind, [x for x in ops if x]])
                continue
            many = r.choice([1, 2, 2, 3, 4]) if w.settled(o) else 1
            ops = [self.apart_op(o, only) for _ in range(many)]
            threads.append([s, o.kind, [x for x in ops if x]])
        x = r.random()
        if x < .03 and max(len(o.model.items) for o in w.slots) <= 100:
            return {'op': 'parallel', 'threads': threads, 'sched': [], 'sweep': {
                'from': r.randrange(1, 4), 'stride': r.choice([1, 1, 2, 3, 5, 11]),
                'max': 40}}
        return {'op': 'parallel', 'threads': threads, 'sched': self.schedule(nt),
                'deep': r.random() < .3}

    def dense(self, slots, only):
        """Every few points of one operation another client does a whole one."""
        r = self.rng
        w = self.w
        a, b = slots[:2]
        one = self.apart_op(w.slots[a], only)
        k = w.slots[b].kind
        names = [one and one[0]] + HOT
        names = [n for n in names if n in READS[k] + MAKE[k]]
        op = self.apart_op(w.slots[b], names[0] if r.random() < .5 else r.choice(names))
        if op and one and op[0] == one[0] and w.slots[a].kind == k and r.random() < .5:
            op = one
        if not one or not op:
            return None
        many = r.choice([4, 12, 40])
        if OPS[k, op[0]].cat == 'c' or op[0] in ('deepcopy', 'pickle', 'repr', 'copy'):
            many = min(many, 1 + 400 // (1 + len(w.slots[b].model.items)))
        q = r.choice([1, 3, 5, 8, 13, 21])
        sched = [[0, r.randrange(1, r.choice([20, 100, 400]))]]
        for _ in range(many):
            sched += [[1, 0], [0, q]]
        return {'op': 'parallel', 'sched': sched, 'threads': [
            [a, w.slots[a].kind, [one]], [b, k, [op] * many]]}

    def schedule(self, nt):
        r = self.rng
        if r.random() < .4:
            q = r.choice([1, 1, 2, 3, 7, 15])
            return [[i % nt, q] for i in range(400)]
        gap = r.choice([8, 60, 60, 300])
        return [[r.randrange(nt), r.randrange(1, gap + 1)]
                for _ in range(r.choice([2, 3, 4, 6, 12, 30]))]

    # -- reads cut off while they build internal state ------------------------------
    def cut_read(self, c):
        r = self.rng
        w = self.w
        if self.next is not None:
            s, self.next = self.next, None
            o = w.slots[s % len(w.slots)]
            names = [n for n in HOT if (o.kind, n) in OPS]
            if r.random() < .1:
                names = READS[o.kind]
            nm = r.choice(names)
            st = {'c': c, 's': s, 'op': nm, 'a': OPS[o.kind, nm].gen(self, o),
                  'f': {'act': 'intr', 'exc': r.choice('BBM'),
                        'at': r.randrange(1, r.choice([20, 80, 200, 400, 700]))}}
            if r.random() < .15:
                st['f'] = {'act': 'sweep', 'of': 'intr', 'exc': r.choice('BBM'),
                           'from': r.randrange(1, 4), 'stride': r.choice([1, 2, 3, 3, 5]),
                           'max': 400, 'quiet': 1}
            return st
        s = self.next = r.randrange(len(w.slots))
        o = w.slots[s]
        names = CLEARING[o.kind]
        if len(o.model.items) < 20:
            names = GROW[o.kind] + ['update' if o.kind != 'D' else 'dupdate']
        nm = r.choice(names)
        return {'c': c, 's': s, 'op': nm, 'a': OPS[o.kind, nm].gen(self, o)}

    # -- snapshots, crashes, restarts ---------------------------------------------
    def snapshot(self):
        r = self.rng
        if not self.w.disk or r.random() < .55:
            return {'op': 'snap', 'proto': r.randrange(6)}
        torn = None
        if r.random() < .5:
            torn = [r.randrange(1 << 20), r.choice(['short', 'zeros', 'flip']),
                    r.randrange(8)]
        return {'op': 'restart', 'torn': torn, 'proto': r.randrange(6),
                'salt': list(r.choice(SALTS[:4] + SALTS[5:]))}

    # -- steps -----------------------------------------------------------------
    def release(self):
        """Removals from a container which holds the only references."""
        r = self.rng
        s = r.randrange(len(self.w.slots))
        o = self.w.slots[s]
        ops = []
        for _ in range(r.choice([1, 1, 2, 4, 8])):
            name = r.choice(r.choice([MUT1, MUTN, MUTN, {o.kind: FREEING[o.kind]}])[o.kind])
            f = [r.randrange(1, r.choice([4, 30, 120])), r.choice('EBTK')] if (
                r.random() < .15) else None
            ops.append([name, OPS[o.kind, name].gen(self, o), f])
        return {'op': 'release', 's': s, 'n': r.choice([2, 6, 12, 30, 60, 60]),
                'load': r.choice([0, 0, 4, 4, 5, 8, 16, 40, 1000]), 'ops': ops,
                'probes': sorted({1, 2, r.randrange(3, 12), r.randrange(3, 40)})}

    def next_step(self, clients):
        r = self.rng
        w = self.w
        c = r.randrange(len(clients))
        cl = clients[c]
        if self.prof.get('cut') and r.random() < .6:
            return self.cut_read(c)
        if self.prof.get('readers') and r.random() < .12:
            return self.readers()
        if self.prof.get('parallel') and r.random() < .2:
            return self.parallel()
        if w.lent and r.random() < self.prof.get('own', .01):
            return {'c': c, 'op': 'own', 'n': r.randrange(6), 'how': r.choice(
                ['add', 'add', 'clear']), 'v': self.value(w.slots[0])}
        if self.prof.get('snaps') and r.random() < .11:
            if r.random() < .3:
                return {'op': 'knot', 's': r.randrange(len(w.slots)),
                        'proto': r.randrange(-2, 6), 'n': r.choice([1, 3, 10, 40]),
                        'owners': [r.randrange(3) for _ in range(r.randrange(1, 4))],
                        'values': [r.randrange(5) for _ in range(r.randrange(1, 4))]}
            return self.snapshot()
        if self.prof.get('release') and r.random() < .4:
            return self.release()
        if cl['iters'] and r.random() < cl['iters']:
            return self.iter_step(c)
        s = r.randrange(len(w.slots))
        if not self.prof.get('spread') and r.random() < .6:
            s = 0
        o = w.slots[s]
        table = cl['ops'].get(o.kind)
        if not table:
            return None
        names, weights = table
        n = len(o.model.items)
        big = w.cfg['maxlen']
        name = None
        if n > big and r.random() < .7:
            name = r.choice([x for x in SHRINK if (o.kind, x) in OPS])
        elif n < cl['min'] and r.random() < .6:
            name = r.choice([x for x in GROW[o.kind]])
        if name is None or name not in self.prof['ops'].get(o.kind, ()):
            name = r.choices(names, weights)[0]
        spec = OPS[o.kind, name]
        self.wantbad = bool(self.badrate and n and (o.kind, name) in POISON_OPS
                            and spec.cat in 'nc' and r.random() < self.badrate * 2)
        a = spec.gen(self, o)
        self.wantbad = False
        st = {'c': c, 's': s, 'op': name, 'a': a}
        f = self.fault(o, name, spec)
        if f is not None:
            st['f'] = f
        return st

    def iter_step(self, c):
        r = self.rng
        w = self.w
        mine = [i for i in w.iters if i.startswith('%d.' % c)]
        x = r.random()
        if not mine or (x < .25 and len(mine) < 4):
            s = r.randrange(len(w.slots))
            o = w.slots[s]
            self.uid += 1
            return {'c': c, 's': s, 'op': 'it_open', 'i': '%d.%d' % (c, self.uid),
                    'a': g_iter(self, o)}
        i = r.choice(mine)
        if x > .92:
            return {'c': c, 'op': 'it_close', 'i': i}
        return {'c': c, 'op': 'it_next', 'i': i,
                'n': r.choice([1, 1, 2, 3, 5, 8, 20, 100])}


HOT = ['getitem', 'getslice', 'index', 'count', 'bisect_left', 'bisect_right', 'iterate',
       'peekitem', 'view', 'bisect_key_left', 'bisect_key_right']
DULL = ('clear', 'unhashable', 'badupdate', 'unsupported', 'wrongarg', 'len', 'list', 'reversed')
CLEARING = {'L': ['reset', 'reset', 'add', 'delitem', 'update', 'delslice'],
            'K': ['reset', 'reset', 'add', 'delitem', 'update', 'delslice'],
            'S': ['reset', 'reset', 'add', 'delitem', 'update', 'discard'],
            'D': ['reset', 'reset', 'setitem', 'delkey', 'dupdate', 'popitem']}
SHRINK = ['delslice', 'pop', 'delitem', 'remove', 'discard', 'popitem', 'delkey', 'popkey',
          'view_delslice', 'view_del', 'difference_update', 'intersection_update']
GROW = {'L': ['add', 'add', 'add', 'update'], 'K': ['add', 'add', 'add', 'update'],
        'S': ['add', 'add', 'add', 'update'],
        'D': ['setitem', 'setitem', 'setitem', 'dupdate']}
FREEING = {'L': ['delitem', 'delslice', 'delslice', 'pop', 'remove', 'clear', 'imul'],
           'K': ['delitem', 'delslice', 'delslice', 'pop', 'remove', 'clear', 'imul'],
           'S': ['delitem', 'delslice', 'discard', 'pop', 'difference_update', 'iand',
                 'intersection_update', 'ixor', 'symmetric_difference_update', 'clear'],
           'D': ['delkey', 'popitem', 'setitem', 'setitem', 'dupdate', 'dupdate', 'dior',
                 'view_del', 'view_delslice', 'view_delslice', 'clear']}
READS = {k: sorted(n for (kk, n), x in OPS.items() if kk == k and x.cat == 'r')
         for k in 'LKSD'}
INDEXED = ('getitem', 'index', 'bisect_right', 'bisect_left', 'getslice', 'count', 'islice',
           'peekitem', 'iloc')
MUT1 = {k: sorted(n for (kk, n), x in OPS.items() if kk == k and x.cat == '1')
        for k in 'LKSD'}
MUTN = {k: sorted(n for (kk, n), x in OPS.items() if kk == k and x.cat == 'n')
        for k in 'LKSD'}
MAKE = {k: sorted(n for (kk, n), x in OPS.items() if kk == k and x.cat == 'c')
        for k in 'LKSD'}

BASEWEIGHT = {'add': 5, 'update': 3, 'setitem': 5, 'dupdate': 3, 'clear': .25, 'reset': .7,
              'repr': .3, 'imul': .5, 'len': .5, 'badupdate': .4, 'unhashable': .3,
              'iloc': .3, 'view': 4, 'rplus': .5, 'rand': .5, 'ror': .5, 'rxor': .5,
              'rsub': .5, 'unsupported': .15, 'wrongarg': .25, 'bisect': .5, 'bisect_key': .5, 'fromkeys': .5}


def base_weight(name, cat):
    w = BASEWEIGHT.get(name, 1)
    return w * {'r': 1, '1': 1.6, 'n': 1, 'c': .5}[cat]


def make_clients(rng, prof, cfg):
    """Swarm: each client gets its own subset and weighting of operations."""
    clients = []
    for _ in range(cfg['clients']):
        ops = {}
        for kind, names in prof['ops'].items():
            drop = rng.choice([0, 0, .3, .5])
            ns, ws = [], []
            for nm in names:
                boost = prof.get('boost', {}).get(nm, 1)
                if rng.random() < drop and boost == 1:
                    continue
                ns.append(nm)
                ws.append(base_weight(nm, OPS[kind, nm].cat) * boost
                          * rng.choice([.3, 1, 1, 3]))
            if not ns:
                ns, ws = list(names), [1] * len(names)
            ops[kind] = (ns, ws)
        clients.append({'ops': ops, 'iters': rng.choice(prof.get('iters', [0])),
                        'min': rng.choice([0, 5, 20, 40])})
    return clients


KEYED = ('U', 'none')     # in order only by a key function


def make_cfg(rng, prof):
    """Swarm configuration of one run."""
    kinds = prof['kinds']
    dom = rng.choices(*zip(*prof.get('doms', [
        ('V', 5), ('int', 2), ('num', 1), ('str', 2), ('tuple', 1), ('U', 1),
        ('none', .5)])))[0]
    if dom in KEYED and set(kinds) == {'L'}:
        dom = 'V'
    size = rng.choice([2, 6, 20, 60, 200, 1000])
    scale = rng.choices(['small', 'medium', 'large'], prof.get('scale', [6, 3, .4]))[0]
    if scale == 'small':
        maxlen, nsteps = rng.choice([12, 30, 60]), rng.randrange(15, 90)
        load = rng.choice([4, 4, 4, 5, 6, 8, 1000])
    elif scale == 'medium':
        maxlen, nsteps = rng.choice([120, 250]), rng.randrange(20, 70)
        load = rng.choice([4, 4, 5, 7, 8, 16, 50])
        size = rng.choice([20, 200, 1000, 4000])
    else:
        maxlen, nsteps = rng.choice([1500, 4000]), rng.randrange(6, 24)
        load = rng.choice([1000, 100, 20, 4] if prof.get('bounds') or prof.get('wide')
                          else [1000, 1000, 100, 20, 4])
        size = rng.choice([500, 5000, 20000])
    if dom == 'num':
        size = min(size, 1000)
    noties = prof.get('noties', False)
    objects = []
    keys = [None]
    pool = KEYNAMES
    if prof.get('injective'):
        pool = list(INJECTIVE)
    for _ in range(2):
        keys.append([rng.choice(pool), rng.random() < (.6 if dom in ('V', 'U') else .75)])
    cfg = {'dom': dom, 'size': size, 'load': load, 'keys': keys, 'maxlen': maxlen,
           'clients': rng.randrange(1, 5), 'steps': nsteps,
           'valkind': rng.choice(['Val', 'Val', 'int', 'mix']),
           'faultrate': rng.choice(prof.get('faultrates', [0])),
           'badrate': rng.choice(prof.get('badrates', [0]))}
    if noties:
        cfg['noties'] = True
    nobj = rng.choice(prof.get('nobj', [1, 1, 2, 3]))
    uid = 10
    for _ in range(nobj):
        kind = rng.choice(kinds)
        if dom in KEYED and kind == 'L':
            kind = 'K' if 'K' in kinds else rng.choice([k for k in kinds if k != 'L'])
        ki = 0
        if kind == 'K':
            ki = rng.choice([1, 2])
        elif kind in 'SD':
            ki = rng.choice([0, 0, 1, 2]) if dom not in KEYED else rng.choice([1, 2])
        n = rng.choice([0, 0, 3, maxlen // 2, maxlen]) if scale != 'large' else (
            rng.choice([maxlen, maxlen // 2]))
        v = []
        for _ in range(n):
            uid += 1
            k = rng.randrange(size)
            v.append([k, uid if dom == 'V' and not noties else 0 if noties else rng.randrange(3)
                      if dom in ('U', 'num') else 0])
        objects.append({'kind': kind, 'key': ki, 'v': v, 'sub': rng.random() < .15,
                        'load': rng.choice([None, None, None, 4, 5, 8, 50])})
    cfg['objects'] = objects
    for flag in ('selfcheck', 'deepfaults', 'deepalways', 'bounds', 'toklog',
                 'held'):
        if prof.get(flag):
            cfg[flag] = True
    for flag, p in sorted(prof.get('sometimes', {}).items()):
        if rng.random() < p:
            cfg[flag] = True
    if cfg.get('noties') and not noties and dom == 'V':
        for spec in objects:
            spec['v'] = [[k, 0] for k, _ in spec['v']]
    return cfg


def play(rng, prof, steps_out, holder):
    """Generate and execute one run; steps are recorded as they are made."""
    cfg = make_cfg(rng, prof)
    cfg['salt'] = rng.choice(SALTS if cfg['maxlen'] <= 250 else SALTS[:1] + SALTS[4:])
    if prof.get('toklog'):
        cfg['keeplog'] = True
    holder['cfg'] = cfg
    holder['steps'] = steps_out
    w = Sim(cfg)
    holder['world'] = w
    g = Gen(rng, w, prof)
    clients = make_clients(rng, prof, cfg)
    for _ in range(cfg['steps']):
        st = g.next_step(clients)
        if st is None:
            continue
        steps_out.append(st)
        w.step(st)
    w.finish()
    return w


SALTS = [(1, 0, 0), (1, 0, 0), (1, 0, 8), (1, 0, 1), (-7, 3, 0), (2654435761, 11, 1 << 61)]
