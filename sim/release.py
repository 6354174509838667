"""Code that runs when the container lets go of an element (property C22).

``__del__`` methods and weak reference callbacks run at the moment the last
reference disappears, wherever that is in an operation.  The run's own elements
are kept alive by the simulator, so the operations here work on a container of
the same class, rule and contents whose elements and stored values nobody else
refers to; every one of them that goes reads the container.
"""
import gc
import weakref

from .exec import SPECIAL, borrows, has_bad
from .model import Expect
from .ops import OPS
from .seam import EXC, SEAM, SimHang, Val
from .world import CLASSES, NoOp, Obj, Violation


class Watch:
    """What a finalizer may see while one operation is under way."""

    def __init__(self, w, o, probes):
        self.w = w
        self.o = o              # the container; its model tells before and after
        self.probes = probes    # which finalizers look closely
        self.live = False
        self.seen = 0
        self.nested = False
        self.found = None
        self.where = ''

    def gone(self, name):
        if not self.live or self.nested:
            return
        self.nested = True
        self.seen += 1
        armed, SEAM.on = SEAM.on, False
        try:
            if self.found is None:
                self.look('%s (read while %s is freed)' % (self.where, name))
        except Violation as v:
            self.found = v
        except Exception as e:
            self.found = Violation('release:' + self.o.kind, '%s: reading raised %r' % (
                self.where, e))
        SEAM.on = armed
        self.nested = False

    def look(self, where):
        w, o = self.w, self.o
        m = o.model.clone()
        m.items = act = list(o.real)
        now = Obj(o.kind, o.real, m, o.sub)
        if len(o.real) != len(act):
            raise Violation('release:' + o.kind, '%s: len %d but %d elements' % (
                where, len(o.real), len(act)))
        w.verify_sorted(now, act, where)
        self.between(act, where)
        if o.kind in 'SD':
            w.verify_hashed(now, act, where)
        if o.kind == 'D':
            self.values(act, where)
        elif act and not (o.real[0] is act[0] and o.real[-1] is act[-1]):
            raise Violation('release:' + o.kind, '%s: wrong ends' % where)
        if self.seen in self.probes:
            w.note('deep')
            w.deep(now, where)

    def between(self, act, where):
        """Everything both before and after is there, and nothing else new."""
        toks = tally(self.token(v) for v in act)
        for t in self.pre.keys() | self.post.keys() | toks.keys():
            a, b, n = self.pre.get(t, 0), self.post.get(t, 0), toks.get(t, 0)
            if not min(a, b) <= n <= max(a, b):
                raise Violation('release:' + self.o.kind, '%s: %s is there %d times, '
                                'before %d and after %d' % (where, t, n, a, b))

    def values(self, act, where):
        real = self.o.real
        pairs = list(real.items())
        if len(pairs) != len(act) or any(k is not x for (k, _), x in zip(pairs, act)):
            raise Violation('release:D', '%s: items and keys differ' % where)
        if [id(v) for v in real.values()] != [id(v) for _, v in pairs]:
            raise Violation('release:D', '%s: items and values differ' % where)
        for k, v in pairs:
            t = self.token(k)
            if real[k] is not v:
                raise Violation('release:D', '%s: lookup and items differ' % where)
            if value(v) not in (self.premap.get(t, self), self.postmap.get(t, self)):
                raise Violation('release:D', '%s: %s has value %r, before %r and after %r' % (
                    where, t, v, self.premap.get(t), self.postmap.get(t)))

    def token(self, v):
        return (v.k, v.u) if self.o.kind in 'LK' else self.w.dom.tok(v)

    def begin(self, pre, post, where):
        self.pre = tally(map(self.token, pre.items))
        self.post = tally(map(self.token, post.items))
        if self.o.kind == 'D':
            self.premap = {t: value(v) for t, v in pre.map.items()}
            self.postmap = {t: value(v) for t, v in post.map.items()}
        self.where = where
        self.seen = 0
        self.live = True


def tally(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def value(v):
    return ('Val', v.n) if v.__class__ is Val else v


def release(w, st):
    src = w.target(st)
    if w.dom.name not in 'VU':
        raise NoOp
    kind, key = src.kind, src.model.key
    cls = CLASSES[kind, src.sub]
    m = src.model.clone()
    del m.items[st['n']:]
    if kind == 'D':
        left = set(map(w.dom.tok, m.items))
        m.map = {t: Val(v.n) if v.__class__ is Val else v
                 for t, v in m.map.items() if t in left}
    elems = [w.dom._make(*w.dom.spec(v)) for v in m.items]
    SEAM.on = False
    o = Obj(kind, None, m, src.sub)
    watch = Watch(w, o, st['probes'])
    refs = [weakref.ref(e, lambda _, n=w.show(e): watch.gone(n)) for e in elems]
    if kind == 'D':
        vals = [Val(v.n) if v.__class__ is Val else v for v in map(
            m.map.__getitem__, map(w.dom.tok, m.items))]
        refs += [weakref.ref(v, lambda _, n=w.show(v): watch.gone(n))
                 for v in vals if v.__class__ is Val]
        o.real = cls(key, zip(elems, vals))
        del vals[:]
    elif kind == 'L':
        o.real = cls(elems)
    else:
        o.real = cls(elems, key=key)
    if st['load']:
        o.real._reset(st['load'])
    del elems[:]
    if kind in 'SD':    # among equal keys, any order
        at = {w.dom.tok(v): v for v in m.items}
        m.items = [at[w.dom.tok(v)] for v in o.real]
    enabled = gc.isenabled()
    gc.disable()    # the collector would run finalizers at times of its own
    try:
        for n, (name, a, f) in enumerate(st['ops']):
            where = '%s.%d %s' % (w.cur, n + 1, name)
            try:
                apply(w, o, watch, name, a, f, where)
            except (Violation, NoOp):
                raise
            except Exception as e:
                raise Violation('release:' + kind, '%s: reading afterwards raised %r' % (
                    where, e)) from None
        watch.live = False
        o.real = None
    finally:
        watch.live = False
        if enabled:
            gc.enable()
    del refs


def apply(w, o, watch, name, a, f, where):
    spec = OPS.get((o.kind, name))
    if spec is None or has_bad(a) or borrows(a):
        return
    try:
        prep = spec.prep(w, o, a)
    except NoOp:
        return
    thunk, mfn, rk = prep[:3]
    if rk == 'partial':
        return
    post = o.model.clone()
    expect = None
    try:
        mfn(post)
    except Expect as e:
        expect = e.types
        post = o.model.clone()
    except NoOp:
        return
    del prep
    watch.begin(o.model, post, where)
    exc = None
    SEAM.fired = None
    if f is not None:
        def action(kind):
            SEAM.fired = EXC[f[1]]('injected in %s' % kind)
            raise SEAM.fired
        SEAM.arm(('lt', 'key', 'iter') + (('eq',) if o.kind in 'LK' else ()), (f[0],), action)
    try:
        thunk()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, SimHang)):
            raise
        e.__traceback__ = e.__context__ = None
        exc = e
    SEAM.disarm()
    watch.live = False
    w.note('op')
    if watch.seen:
        w.note('finalizers', watch.seen)
        w.note('releasing')
    if watch.found is not None:
        raise watch.found
    if SEAM.fired is not None:
        w.note('fired_raise')
        if exc is not SEAM.fired:
            raise Violation('replaced', '%s: injected %r became %r' % (where, SEAM.fired, exc))
        settle_aborted(w, o, watch, post, where)
        w.emit(where, watch.seen, 'aborted')
        return
    if exc is not None and (expect is None or not isinstance(exc, expect)):
        raise Violation('release:' + o.kind, '%s: raised %r' % (where, exc))
    if expect is not None and exc is None:
        raise Violation('noraise', '%s: did not raise' % where)
    settle(w, o, watch, post, where)
    w.emit(where, watch.seen, [watch.token(v) for v in o.model.items])


def settle_aborted(w, o, watch, post, where):
    """Where it was given up: between before and after, and whole."""
    pre = o.model
    act = list(o.real)
    watch.between(act, where + ' (aborted)')
    at = {watch.token(v): v for v in post.items}
    at.update((watch.token(v), v) for v in pre.items)
    now = pre.clone()
    now.items = [at[watch.token(v)] for v in act]
    if o.kind == 'D':
        watch.values(act, where + ' (aborted)')
        now.map = {watch.token(v): dict.__getitem__(o.real, v) for v in act}
        now.map = {t: Val(v.n) if v.__class__ is Val else v for t, v in now.map.items()}
    del act
    settle(w, o, watch, now, where)


def settle(w, o, watch, post, where):
    """Afterwards the container holds what the operation makes of it."""
    act = list(o.real)
    got = [watch.token(v) for v in act]
    want = [watch.token(v) for v in post.items]
    if o.kind in 'LK' and got != want or o.kind in 'SD' and (
            len(got) != len(want) or set(got) != set(want)):
        raise Violation('release:' + o.kind, '%s: left %s expected %s' % (where, got, want))
    o.model = post
    if o.kind in 'SD':
        at = dict(zip(want, post.items))
        post.items = [at[t] for t in got]
    # look at it once more, as the last finalizer might have
    watch.pre = watch.post = tally(want)
    if o.kind == 'D':
        watch.premap = watch.postmap = {t: value(v) for t, v in post.map.items()}
    watch.seen = 0
    watch.look(where + ' (afterwards)')


SPECIAL['release'] = release
