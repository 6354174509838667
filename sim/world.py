"""The simulated world: containers, clients' iterators and views, sources,
execution of one step against the real container and its model, oracles."""
import contextlib
import copy
import io
import math
import pickle
import sys
import zlib

from . import lib
from .model import Expect, Model
from .seam import (EXC, INJECTIVE, SEAM, Domain, KeyFn, KeyObj, PoisonError, SimHang,
                   SimMapping, Val, gen_items, rank)

SortedList = lib.SortedList
SortedKeyList = lib.SortedKeyList
SortedDict = lib.SortedDict
SortedSet = lib.SortedSet


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls, msg)
        self.cls = cls
        self.msg = msg


class Obj:
    __slots__ = ('kind', 'real', 'model', 'version', 'sub')

    def __init__(self, kind, real, model, sub=False):
        self.kind = kind
        self.real = real
        self.model = model
        self.version = 0
        self.sub = sub


class NoOp(Exception):
    """The step does not apply in this state (after minimisation)."""


CLASSES = {
    ('L', False): SortedList, ('L', True): lib.SubList,
    ('K', False): SortedKeyList, ('K', True): lib.SubKeyList,
    ('S', False): SortedSet, ('S', True): lib.SubSet,
    ('D', False): SortedDict, ('D', True): lib.SubDict,
}


class World:
    MAXSLOTS = 5

    def __init__(self, cfg):
        self.cfg = cfg
        SEAM.reset()
        SEAM.salt = tuple(cfg.get('salt', (1, 0, 0)))
        SortedList.DEFAULT_LOAD_FACTOR = cfg.get('load', 1000)
        self.dom = Domain(cfg['dom'], cfg['size'])
        self.keys = [None if k is None else KeyFn(*k) for k in cfg['keys']]
        self.slots = []
        self.iters = {}
        self.views = {}
        self.vals = {}
        self.crc = 0
        self.log = [] if cfg.get('keeplog') else None
        self.stats = {}
        self.trails = set()
        self.shapes = set()
        self.disk = []
        self.lent = []
        self.reboot = None
        self.cloned = False     # equal elements that are not identical may be about
        self.busy = None
        self.selfcheck = cfg.get('selfcheck', False)
        self.deepfaults = cfg.get('deepfaults', False)
        self.bounds = cfg.get('bounds', False)
        self.held = cfg.get('held', False)
        for spec in cfg['objects']:
            self.create(spec)

    # -- bookkeeping ---------------------------------------------------
    def note(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def emit(self, *what):
        text = repr(what)
        self.crc = zlib.crc32(text.encode(), self.crc)
        if self.log is not None:
            self.log.append(text)

    def show(self, x):
        """Deterministic, tick-free description of a result."""
        c = x.__class__
        if c is list or c is tuple:
            return [self.show(v) for v in x]
        if c.__name__ in ('V', 'U'):
            return '%d.%d' % (x.k, x.u)
        if isinstance(x, (int, float, str, type(None))):
            return x
        if c is Val:
            return 'v%d' % x.n
        return c.__name__

    def show_toks(self, x):
        c = x.__class__
        if c is list or c is tuple:
            return [self.show_toks(v) for v in x]
        if c.__name__ in ('V', 'U'):
            return x.k
        return self.show(x)

    def val(self, spec):
        return self.dom.make(spec)

    def settled(self, o):
        """Is which of several equal elements is kept, and where, no question?"""
        return o.kind in 'LK' or (
            (self.dom.name in ('int', 'str', 'tuple')
             or self.dom.name == 'V' and bool(self.cfg.get('noties')) and not self.cloned)
            and (o.model.key is None or o.model.key.name in INJECTIVE))

    def large(self, o, spec):
        """Enough growing where one operation is applied many times."""
        return spec.cat in 'nc' and len(o.model.items) > 2 * self.cfg['maxlen'] + 100

    def stored(self, n):
        """Dict value number n."""
        if n is None:
            return None
        kind = self.cfg.get('valkind', 'Val')
        if kind == 'int':
            return n + 100000
        if kind == 'mix' and n % 3 == 0:
            return None if n % 2 else 0
        return self.stored_val(n)

    def stored_val(self, n):
        v = self.vals.get(n)
        if v is None:
            v = self.vals[n] = Val(n)
        return v

    # -- creation ------------------------------------------------------
    def create(self, spec):
        """spec: {kind, key index, values, pairs, sub}"""
        kind = spec['kind']
        key = self.keys[spec.get('key', 0)] if kind != 'L' else None
        sub = spec.get('sub', False)
        cls = CLASSES[kind, sub]
        m = Model(kind, self.dom, key)
        vals = [self.val(s) for s in spec['v']]
        SEAM.on = False
        if kind == 'L':
            real = cls(vals)
            m.extend(vals)
        elif kind == 'K':
            real = cls(vals, key=key)
            m.extend(vals)
        elif kind == 'S':
            real = cls(vals, key=key)
            m.put_many(vals)
        else:
            pairs = [(v, self.stored(i + 1)) for i, v in enumerate(vals)]
            real = cls(key, pairs)
            m.put_many(vals)
            for k, v in pairs:
                m.map[self.dom.tok(k)] = v
        if spec.get('load'):
            real._reset(spec['load'])
        o = Obj(kind, real, m, sub)
        self.verify(o, 'create')
        self.slots.append(o)

    # -- verification --------------------------------------------------
    def verify(self, o, where):
        """Contents and order of the real container equal the model's."""
        real, m = o.real, o.model
        try:
            act = list(real)
            n = len(real)
        except Exception as e:
            raise Violation('unusable:' + o.kind,
                            '%s: reading contents raised %r' % (where, e))
        if n != len(act):
            raise Violation('torn:' + o.kind, '%s: len %d but %d elements'
                            % (where, n, len(act)))
        if o.kind in 'LK':
            exp = m.items
            if n != len(exp) or not all(
                    a is b for a, b in zip(act, exp)):
                raise Violation('contents:' + o.kind, '%s: got %s expected %s' % (
                    where, self.brief(act), self.brief(exp)))
            return
        self.verify_hashed(o, act, where)
        tok = self.dom.tok
        if {tok(v) for v in act} != {tok(v) for v in m.items}:
            raise Violation('contents:' + o.kind, '%s: got %s expected %s' % (
                where, self.brief(act), self.brief(m.items)))
        if o.kind == 'D':
            for k in act:
                if dict.__getitem__(real, k) is not m.map[tok(k)]:
                    raise Violation('value:D', '%s: key %s has value %s expected %s' % (
                        where, self.show(k), self.show(real[k]),
                        self.show(m.map[tok(k)])))
        m.items = act

    def verify_hashed(self, o, act, where):
        """Both halves agree and order is right (no model contents used)."""
        real, m = o.real, o.model
        tok = self.dom.tok
        toks = [tok(v) for v in act]
        if len(set(toks)) != len(toks):
            raise Violation('torn:' + o.kind, '%s: duplicates in %s'
                            % (where, self.brief(act)))
        for v in act:
            try:
                if v not in real:
                    raise Violation('torn:' + o.kind, '%s: %s iterated but not a member'
                                    % (where, self.show(v)))
            except Violation:
                raise
            except Exception as e:
                raise Violation('unusable:' + o.kind, '%s: membership raised %r'
                                % (where, e))
        if o.kind == 'D':
            if dict.__len__(real) != len(act):
                raise Violation('torn:D', '%s: dict holds %d keys, %d ordered'
                                % (where, dict.__len__(real), len(act)))
        self.verify_sorted(o, act, where)

    def verify_sorted(self, o, act, where):
        sks = [o.model.sk(v) for v in act]
        for a, b in zip(sks, sks[1:]):
            if a > b:
                raise Violation('order:' + o.kind, '%s: %s out of order'
                                % (where, self.brief(act)))

    def brief(self, xs):
        text = repr(self.show(list(xs)))
        return text if len(text) < 600 else text[:600] + '...'

    def verify_all(self, where, skip=None):
        for entry in self.lent:
            self.check_lent(entry, where)
        for o in self.slots:
            if o is not skip and o is not self.busy:
                self.verify(o, where)

    def self_check(self, o, where):
        if not self.selfcheck:
            return
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                o.real._check()
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, SimHang)):
                raise
            raise Violation('selfcheck:' + o.kind, '%s: self-check raised %r\n%s' % (
                where, e, out.getvalue()[-1500:]))

    def deep(self, o, where):
        """All positional answers agree with the current contents."""
        real, m = o.real, o.model
        items = m.items
        n = len(items)
        kind = o.kind
        at = real.__getitem__ if kind != 'D' else real.keys().__getitem__
        try:
            for i in self.probe_positions(n):
                if at(i) is not items[i]:
                    raise Violation('position:' + kind, '%s: [%d] is %s expected %s' % (
                        where, i, self.show(at(i)), self.show(items[i])))
            for i in (n, -n - 1):
                try:
                    at(i)
                except IndexError:
                    pass
                else:
                    raise Violation('position:' + kind, '%s: [%d] of %d did not raise'
                                    % (where, i, n))
            for i in self.probe_positions(n)[:24]:
                v = items[i]
                k = m.sk(v)
                for name, exp in (('bisect_left', m.left(k)),
                                  ('bisect_right', m.right(k)),
                                  ('index', m.find(v))):
                    got = getattr(real, name)(v)
                    if got != exp:
                        raise Violation('position:' + kind, '%s: %s(%s) is %r expected %r'
                                        % (where, name, self.show(v), got, exp))
                if v not in real:
                    raise Violation('membership:' + kind, '%s: %s not found'
                                    % (where, self.show(v)))
                if kind in 'LK' and real.count(v) != m.count(v):
                    raise Violation('position:' + kind, '%s: count(%s) is %r expected %r'
                                    % (where, self.show(v), real.count(v), m.count(v)))
            a, b = n // 3, n - n // 4
            for got, exp in ((list(real.islice(a, b)), items[a:b]),
                             (list(reversed(real)), items[::-1]),
                             (list(real.irange()), items),
                             (at(slice(a, b)), items[a:b])):
                if len(got) != len(exp) or any(
                        x is not y for x, y in zip(got, exp)):
                    raise Violation('window:' + kind, '%s: window is %s expected %s'
                                    % (where, self.brief(got), self.brief(exp)))
        except Violation:
            raise
        except Exception as e:
            raise Violation('unusable:' + kind, '%s: reading raised %r' % (where, e))

    @staticmethod
    def probe_positions(n):
        if n <= 70:
            return list(range(n)) + list(range(-n, 0))
        step = max(1, n // 47)
        return list(range(0, n, step)) + list(range(-n, 0, step)) + [n - 1]

    # -- sources -------------------------------------------------------
    def source(self, spec, o):
        """Return (argument, model values in order, check-unchanged)."""
        t = spec['t']
        raw = spec.get('v', ())
        vals = [self.poisoned(s) for s in raw]
        good = [v for s, v in zip(raw, vals) if s[0] != 'bad']
        if t == 'list':
            return vals, good, self.unchanged(vals)
        if t == 'tuple':
            return tuple(vals), good, None
        if t == 'gen':
            return gen_items(list(vals)), good, None
        if t in ('set', 'frozenset'):
            s = set(vals) if t == 'set' else frozenset(vals)
            first = [v for v in s if not getattr(v, 'bad', False)]
            return s, first, self.unchanged(s)
        if t == 'dictkeys':
            d = dict.fromkeys(vals)
            return d, [v for v in d if not getattr(v, 'bad', False)], self.unchanged(d)
        if t == 'self':
            return o.real, list(o.model.items), None
        if t == 'iterself':
            return iter(o.real), list(o.model.items), None
        if t == 'genself':
            items = list(o.model.items)
            return gen_items(o.real), items, None
        if t == 'revself':
            return reversed(o.real), o.model.items[::-1], None
        if t == 'sliceself':
            a, b = spec['a']
            return o.real.islice(a, b), o.model.items[a:b], None
        if t == 'obj':
            p = self.slots[spec['o'] % len(self.slots)]
            return p.real, list(p.model.items), None
        raise KeyError(t)

    def poisoned(self, s):
        if s[0] == 'bad':
            return self.dom.poison(s[1])
        return self.val(s)

    def unchanged(self, c):
        """Register a client's own collection that the container is given."""
        entry = [c, list(c.items() if isinstance(c, dict) else c)]
        self.lent.append(entry)
        if len(self.lent) > 6:
            self.lent.pop(0)

        def check(where):
            self.check_lent(entry, where)
        return check

    def check_lent(self, entry, where):
        c, before = entry
        after = list(c.items() if isinstance(c, dict) else c)
        if len(after) != len(before) or any(
                not self.esame(a, b) for a, b in zip(before, after)):
            raise Violation('argument', '%s: argument modified: %s became %s' % (
                where, self.brief(before), self.brief(after)))

    def mapping(self, spec, o):
        """Return (args, kwargs, ordered model pairs, check-unchanged)."""
        t = spec['t']
        raw = spec.get('v', ())
        pairs = [(self.poisoned(k), self.stored(v)) for k, v in raw]
        good = [kv for s, kv in zip(raw, pairs) if s[0][0] != 'bad']
        if t == 'none':
            return (), {}, [], None
        if t == 'dict':
            d = dict(pairs)
            return (d,), {}, good, self.unchanged(d)
        if t == 'pairs':
            return (pairs,), {}, good, self.unchanged(pairs)
        if t == 'genpairs':
            return (gen_items(list(pairs)),), {}, good, None
        if len(good) != len(pairs):
            raise NoOp
        if t == 'mapping':
            uniq = {}
            for k, v in pairs:
                uniq[self.dom.tok(k)] = (k, v)
            pairs = list(uniq.values())
            return (SimMapping(list(pairs)),), {}, pairs, None
        if t == 'kwargs':
            return (), dict(pairs), pairs, None
        if t == 'both':
            half = len(pairs) // 2
            rest = dict(pairs[half:])
            return (pairs[:half],), rest, pairs, None
        if t == 'bothdict':
            half = (len(pairs) + 1) // 2
            d = dict(pairs[:half])
            return (d,), dict(pairs[half:]), pairs, self.unchanged(d)
        if t == 'self':
            return (o.real,), {}, self.model_pairs(o), None
        if t == 'itemsself':
            return (o.real.items(),), {}, self.model_pairs(o), None
        if t == 'obj':
            p = self.slots[spec['o'] % len(self.slots)]
            if p.kind != 'D':
                raise NoOp
            return (p.real,), {}, self.model_pairs(p), None
        raise KeyError(t)

    def model_pairs(self, o):
        tok = self.dom.tok
        return [(k, o.model.map[tok(k)]) for k in o.model.items]

    # -- adding slots --------------------------------------------------
    def adopt(self, o, m, real, where, like=True):
        """A new container `real` was produced; check and register it."""
        cls = CLASSES[m.kind, o.sub if like else False]
        if type(real) is not cls:
            raise Violation('class', '%s: result is %s, expected %s' % (
                where, type(real).__name__, cls.__name__))
        if real is o.real:
            raise Violation('aliased', '%s: result is the container itself' % where)
        self.verify_key(real, m, where)
        n = Obj(m.kind, real, m, o.sub if like else False)
        self.verify(n, where)
        if len(self.slots) < self.cfg.get('maxslots', self.MAXSLOTS):
            self.slots.append(n)
        else:
            # replace the oldest derived slot, never the first
            self.slots.pop(1 if len(self.slots) > 1 else 0)
            self.slots.append(n)
            self.iters.clear()
            self.views.clear()
        return n

    def verify_key(self, real, m, where):
        """The ordering rule of a derived or restored container."""
        got, want = real.key, m.key
        if want is None:
            ok = got is None
        else:
            ok = (got.__class__ is want.__class__
                  and (got.name, got.boxed) == (want.name, want.boxed))
        if not ok:
            raise Violation('key', '%s: key function %r, expected %r' % (where, got, want))
