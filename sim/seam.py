"""The seam between containers and callers' code.

Every comparison, equality test, key call, hash and input item goes through
``tick``.  The simulator decides at which tick a fault is raised, a nested
reader runs, or (threads) another thread is scheduled.  No randomness and no
clock is read here.
"""


class SimError(Exception):
    pass


class SimInterrupt(BaseException):
    pass


class SimMemoryError(MemoryError):
    pass


class SimTypeError(TypeError):
    pass


class SimRecursionError(RecursionError):
    pass


class SimValueError(ValueError):
    pass


class SimKeyError(KeyError):
    pass


class SimIndexError(IndexError):
    pass


class SimAttributeError(AttributeError):
    pass


class SimHang(BaseException):
    """Raised when an operation exceeds its step budget."""


class PoisonError(TypeError):
    """Comparison or key call on an unorderable value."""


EXC = {
    'E': SimError,
    'B': SimInterrupt,
    'M': SimMemoryError,
    'T': SimTypeError,
    'R': SimRecursionError,
    'V': SimValueError,
    'K': SimKeyError,
    'I': SimIndexError,
    'A': SimAttributeError,
}

TICK_CAP = 3000000


class Seam:
    def __init__(self):
        self.reset()

    def reset(self):
        self.on = False
        self.n = 0
        self.k = 0
        self.counts = {}
        self.kinds = ()
        self.ats = ()
        self.action = None
        self.fired = None
        self.nfired = 0
        self.salt = (1, 0, 0)
        self.preempt = None
        self.hung = False

    def arm(self, kinds=(), ats=(), action=None):
        self.on = True
        self.n = 0
        self.k = 0
        self.counts = {'lt': 0, 'eq': 0, 'key': 0, 'iter': 0, 'hash': 0}
        self.kinds = kinds
        self.ats = ats
        self.action = action
        self.fired = None
        self.nfired = 0

    def disarm(self):
        self.on = False
        self.action = None
        self.kinds = ()
        self.ats = ()


SEAM = Seam()


def tick(kind):
    s = SEAM
    if s.preempt is not None:
        s.preempt(kind)
    if not s.on:
        return
    s.n += 1
    s.counts[kind] += 1
    if s.n > TICK_CAP:
        s.hung = True
        raise SimHang('more than %d callbacks in one operation' % TICK_CAP)
    if kind in s.kinds:
        s.k += 1
        if s.k in s.ats:
            s.nfired += 1
            s.action(kind)


def salted(x):
    mul, add, mod = SEAM.salt
    h = x * mul + add
    return h % mod if mod else h


class V:
    """Totally ordered, hashable value; equality by rank ``k``."""

    __slots__ = ('k', 'u', 'bad', '__weakref__')

    def __init__(self, k, u, bad=False):
        self.k = k
        self.u = u
        self.bad = bad

    def __getstate__(self):
        return (self.k, self.u, self.bad)

    def __setstate__(self, state):
        self.k, self.u, self.bad = state

    def __reduce__(self):
        return (V, (self.k, self.u, self.bad))

    def __lt__(self, other):
        tick('lt')
        if other.__class__ is not V:
            return NotImplemented
        if self.bad or other.bad:
            raise PoisonError('unorderable value')
        return self.k < other.k

    def __gt__(self, other):
        tick('lt')
        if other.__class__ is not V:
            return NotImplemented
        if self.bad or other.bad:
            raise PoisonError('unorderable value')
        return self.k > other.k

    def __le__(self, other):
        tick('lt')
        if other.__class__ is not V:
            return NotImplemented
        if self.bad or other.bad:
            raise PoisonError('unorderable value')
        return self.k <= other.k

    def __ge__(self, other):
        tick('lt')
        if other.__class__ is not V:
            return NotImplemented
        if self.bad or other.bad:
            raise PoisonError('unorderable value')
        return self.k >= other.k

    def __eq__(self, other):
        tick('eq')
        if other.__class__ is not V:
            return NotImplemented
        if self.bad or other.bad:
            return self is other
        return self.k == other.k

    def __ne__(self, other):
        tick('eq')
        if other.__class__ is not V:
            return NotImplemented
        if self.bad or other.bad:
            return self is not other
        return self.k != other.k

    def __hash__(self):
        tick('hash')
        return salted(self.k)

    def __repr__(self):
        return 'V(%r, %r)' % (self.k, self.u)


class U:
    """Hashable value without an order; equality by ``(k, u)``."""

    __slots__ = ('k', 'u', 'bad', '__weakref__')

    def __init__(self, k, u, bad=False):
        self.k = k
        self.u = u
        self.bad = bad

    def __reduce__(self):
        return (U, (self.k, self.u, self.bad))

    def __eq__(self, other):
        tick('eq')
        if other.__class__ is not U:
            return NotImplemented
        return self.k == other.k and self.u == other.u

    def __ne__(self, other):
        tick('eq')
        if other.__class__ is not U:
            return NotImplemented
        return self.k != other.k or self.u != other.u

    def __hash__(self):
        tick('hash')
        return salted(self.k * 31 + self.u)

    def __repr__(self):
        return 'U(%r, %r)' % (self.k, self.u)


class Tied:
    """Something with a reference to its owner."""

    def __init__(self, owner):
        self.owner = owner


class KnotU(Tied):
    """Element that may refer to the container it is in; no order."""

    def __init__(self, k, u, owner=None):
        self.k = k
        self.u = u
        self.owner = owner

    def __eq__(self, other):
        return self.k == other.k and self.u == other.u

    def __hash__(self):
        return salted(self.k * 31 + self.u)

    def __repr__(self):
        return '%s(%r, %r)' % (type(self).__name__, self.k, self.u)


class Knot(KnotU):
    """The same, ordered and equal by ``k``."""

    def __eq__(self, other):
        return self.k == other.k

    def __lt__(self, other):
        return self.k < other.k

    def __gt__(self, other):
        return self.k > other.k

    def __le__(self, other):
        return self.k <= other.k

    def __ge__(self, other):
        return self.k >= other.k

    def __hash__(self):
        return salted(self.k)


class KeyObj:
    """Comparison key with observable comparisons."""

    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r

    def __reduce__(self):
        return (KeyObj, (self.r,))

    def __lt__(self, other):
        tick('lt')
        if other.__class__ is not KeyObj:
            return NotImplemented
        return self.r < other.r

    def __gt__(self, other):
        tick('lt')
        if other.__class__ is not KeyObj:
            return NotImplemented
        return self.r > other.r

    def __le__(self, other):
        tick('lt')
        if other.__class__ is not KeyObj:
            return NotImplemented
        return self.r <= other.r

    def __ge__(self, other):
        tick('lt')
        if other.__class__ is not KeyObj:
            return NotImplemented
        return self.r >= other.r

    def __eq__(self, other):
        tick('eq')
        if other.__class__ is not KeyObj:
            return NotImplemented
        return self.r == other.r

    def __ne__(self, other):
        tick('eq')
        if other.__class__ is not KeyObj:
            return NotImplemented
        return self.r != other.r

    __hash__ = None

    def __repr__(self):
        return 'KeyObj(%r)' % (self.r,)


def rank(v):
    """Tick-free order-preserving number of any value used in simulations."""
    c = v.__class__
    if c is V or c is U or c is Knot or c is KnotU:
        return v.k
    if c is str:
        return int(v) if v else 0
    if c is tuple:
        return v[0] * 4 + v[1] if v else 0
    return NONE if v is None else v


NONE = -2   # where None belongs among integers


RAWKEYS = {
    'neg': lambda r: -r,
    'ident': lambda r: r,
    'half': lambda r: r // 2,
    'mod5': lambda r: r % 5,
    'mod13': lambda r: r % 13,
    'const': lambda r: 7,
    'negfour': lambda r: -(r // 4),
}
INJECTIVE = ('neg', 'ident')


class KeyFn:
    """Key function with observable calls; ``boxed`` keys compare observably."""

    def __init__(self, name, boxed):
        self.name = name
        self.boxed = boxed

    def __reduce__(self):
        return (KeyFn, (self.name, self.boxed))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __call__(self, v):
        tick('key')
        if getattr(v, 'bad', False):
            raise PoisonError('no key for this value')
        return self.wrap(rank(v))

    def raw(self, r):
        return RAWKEYS[self.name](r)

    def wrap(self, r):
        k = RAWKEYS[self.name](r)
        return KeyObj(k) if self.boxed else k

    def __repr__(self):
        return 'KeyFn(%r, %r)' % (self.name, self.boxed)


class Val:
    """Stored dict value: no order, no hash, identity of its own."""

    __slots__ = ('n', '__weakref__')

    def __init__(self, n):
        self.n = n

    def __reduce__(self):
        return (Val, (self.n,))

    def __eq__(self, other):
        return other.__class__ is Val and other.n == self.n

    __hash__ = None

    def __repr__(self):
        return 'Val(%r)' % self.n


def gen_items(items):
    """Input iterable that can fail before any item and at its end."""
    for item in items:
        tick('iter')
        yield item
    tick('iter')


class SimMapping:
    """Minimal mapping (keys + __getitem__) that can fail at any access."""

    def __init__(self, pairs):
        self.pairs = pairs

    def keys(self):
        tick('iter')
        return gen_items([k for k, _ in self.pairs])

    def __getitem__(self, key):
        tick('iter')
        for k, v in reversed(self.pairs):
            if k is key:
                return v
        raise KeyError(key)


class Domain:
    """Family of values used in one simulated world."""

    def __init__(self, name, size):
        self.name = name
        self.size = size
        self.cache = {}
        self.orderable = name not in ('U', 'none')
        self.uids = {'V': 1 << 30, 'U': 3, 'num': 3}.get(name, 1)

    def make(self, spec):
        k, u = spec[0], spec[1]
        got = self.cache.get((k, u))
        if got is None:
            got = self.cache[(k, u)] = self._make(k, u)
        return got

    def _make(self, k, u):
        n = self.name
        if n == 'V':
            return V(k, u)
        if n == 'U':
            return U(k, u)
        if n == 'int':
            return k - 3
        if n == 'none':
            return None if k - 3 == NONE else k - 3
        if n == 'num':
            from fractions import Fraction
            return (int, float, Fraction)[u](k - 3)
        if n == 'str':
            return '%06d' % k if k else ''
        if n == 'tuple':
            return (k // 4, k % 4) if k else ()
        raise KeyError(n)

    def poison(self, u):
        return (V if self.name == 'V' else U)(0, u, True)

    def spec(self, v):
        c = v.__class__
        if c is V or c is U:
            return [v.k, v.u]
        if c is str or c is tuple:
            return [rank(v), 0]
        if self.name == 'num':
            return [int(v) + 3, {int: 0, float: 1}.get(c, 2)]
        return [rank(v) + 3, 0]

    def tok(self, v):
        if v.__class__ is U:
            return (v.k, v.u)
        return rank(v)

    def eq(self, a, b):
        if a.__class__ is U:
            return a.k == b.k and a.u == b.u
        return rank(a) == rank(b)
