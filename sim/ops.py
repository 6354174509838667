"""Operations: how to generate arguments, run them on the real container and
on the model.

``prep(w, o, a)`` returns (real thunk, model function, result kind[, check]).
Categories: r read, 1 one element, n bulk, c creates a container.
"""
import collections
import copy
import operator
import pickle
from collections.abc import Set

from .lib import ABSENT, SubDict
from .model import Expect, Model
from .seam import SEAM, gen_items, rank
from .world import CLASSES, NoOp, SortedDict, SortedKeyList, SortedList, SortedSet

OPS = {}


class Op:
    __slots__ = ('name', 'kinds', 'cat', 'gen', 'prep')


def op(name, kinds, cat, gen):
    def deco(prep):
        x = Op()
        x.name, x.kinds, x.cat, x.gen, x.prep = name, kinds, cat, gen, prep
        for k in kinds:
            assert (k, name) not in OPS, (k, name)
            OPS[k, name] = x
        return prep
    return deco


# -- argument generators -------------------------------------------------
# g is a gen.Gen; o the target object

def g_none(g, o):
    return []


def g_val(g, o):
    return [g.value(o)]


def g_pos(g, o):
    return [g.position(o)]


def g_slice(g, o):
    return g.slice3(o)


def g_src(g, o):
    return [g.source(o)]


def g_window(g, o):
    return [g.bound(o), g.bound(o), g.rng.random() < .3]


def g_range(g, o):
    r = g.rng
    lo = None if r.random() < .2 else g.value(o)
    hi = None if r.random() < .2 else g.value(o)
    if lo and hi and r.random() < .8:
        m = o.model
        if m.sk(g.w.val(lo)) > m.sk(g.w.val(hi)):
            lo, hi = hi, lo
    return [lo, hi, [r.random() < .6, r.random() < .6], r.random() < .4]


# -- helpers --------------------------------------------------------------

def raises(*types):
    raise Expect(*types)


# ======================= lists (L, K) =====================================

@op('add', 'LK', '1', lambda g, o: [g.maybe_bad(g.value(o))])
def _(w, o, a):
    v = w.poisoned(a[0])
    return (lambda: o.real.add(v)), (lambda m: m.insert(v)), 'same'


@op('update', 'LK', 'n', g_src)
def _(w, o, a):
    arg, vals, chk = w.source(a[0], o)
    return (lambda: o.real.update(arg)), (lambda m: m.extend(vals)), 'same', chk


@op('iadd', 'LK', 'n', g_src)
def _(w, o, a):
    arg, vals, chk = w.source(a[0], o)

    def real():
        x = o.real
        x += arg
        return x
    return real, (lambda m: m.extend(vals)), 'self', chk


@op('imul', 'LK', 'n', lambda g, o: [g.rng.choice([0, 1, 2, 2, 3, -1] if
                                                len(o.model.items) < 60 else [0, 1, 1])])
def _(w, o, a):
    n = a[0]

    def real():
        x = o.real
        x *= n
        return x

    def model(m):
        m.items = sorted(m.items * n, key=m.sk)
    return real, model, 'self'


@op('contains', 'LKSD', 'r', g_val)
def _(w, o, a):
    v = w.poisoned(a[0])
    return (lambda: v in o.real), (lambda m: m.find(v) is not None), 'same'


@op('discard', 'LK', '1', lambda g, o: [g.maybe_bad(g.value(o))])
def _(w, o, a):
    v = w.poisoned(a[0])

    def model(m):
        i = m.find(v)
        if i is not None:
            del m.items[i]
    return (lambda: o.real.discard(v)), model, 'same'


@op('remove', 'LK', '1', lambda g, o: [g.maybe_bad(g.value(o))])
def _(w, o, a):
    v = w.poisoned(a[0])

    def model(m):
        i = m.find(v)
        if i is None:
            raises(ValueError)
        del m.items[i]
    return (lambda: o.real.remove(v)), model, 'same'


@op('pop', 'LKS', '1', lambda g, o: [] if g.rng.random() < .3 else g_pos(g, o))
def _(w, o, a):
    i = a[0] if a else -1
    return (lambda: o.real.pop(*a)), (lambda m: m.pop_at(i)), 'same'


@op('delitem', 'LKS', '1', g_pos)
def _(w, o, a):
    i = a[0]

    def real():
        del o.real[i]
    return real, (lambda m: (m.pop_at(i), None)[1]), 'same'


@op('delslice', 'LKS', 'n', lambda g, o: g.thinning(o))
def _(w, o, a):
    s = slice(*a)

    def real():
        del o.real[s]

    def model(m):
        try:
            del m.items[s]
        except ValueError:
            raises(ValueError)
    return real, model, 'same'


@op('clear', 'LKSD', 'n', g_none)
def _(w, o, a):
    def model(m):
        m.items = []
        if m.map is not None:
            m.map = {}
    return (lambda: o.real.clear()), model, 'same'


@op('reset', 'LKSD', 'n', lambda g, o: [g.rng.choice([4, 4, 5, 6, 7, 8, 10, 17, 50, 1000])])
def _(w, o, a):
    return (lambda: o.real._reset(a[0])), (lambda m: None), 'same'


@op('len', 'LKSD', 'r', g_none)
def _(w, o, a):
    return (lambda: len(o.real)), (lambda m: len(m.items)), 'same'


@op('list', 'LKSD', 'r', g_none)
def _(w, o, a):
    return (lambda: list(o.real)), (lambda m: m.items), 'list'


@op('reversed', 'LKSD', 'r', g_none)
def _(w, o, a):
    return (lambda: list(reversed(o.real))), (lambda m: m.items[::-1]), 'list'


@op('getitem', 'LKS', 'r', g_pos)
def _(w, o, a):
    i = a[0]

    def model(m):
        try:
            return m.items[i]
        except IndexError:
            raises(IndexError)
    return (lambda: o.real[i]), model, 'same'


@op('getslice', 'LKS', 'r', g_slice)
def _(w, o, a):
    s = slice(*a)

    def model(m):
        try:
            return m.items[s]
        except ValueError:
            raises(ValueError)
    return (lambda: o.real[s]), model, 'list'


@op('count', 'LKS', 'r', g_val)
def _(w, o, a):
    v = w.poisoned(a[0])
    return (lambda: o.real.count(v)), (lambda m: m.count(v)), 'same'


def g_index(g, o):
    r = g.rng
    a = [g.value(o, .85)]
    n = len(o.model.items)
    if n and r.random() < .3:
        # near an element among others like it
        j = r.randrange(n)
        spec = g.w.dom.spec(o.model.items[j])
        if spec[1] and g.w.dom.name != 'V' and r.random() < .3:
            spec = [spec[0], g.fresh()]
        start = j - r.choice([0, 0, 1, 2, 3, n // 4])
        a = [spec, start - r.choice([0, n])]
        if r.random() < .5:
            a.append(j + r.choice([0, 1, 1, 2, n // 4]) - r.choice([0, n]))
        return a
    if r.random() < .55:
        a.append(g.bound(o))
        if r.random() < .7:
            a.append(g.bound(o))
    return a


@op('index', 'LKSD', 'r', g_index)
def _(w, o, a):
    v = w.poisoned(a[0])
    rest = a[1:]
    start = rest[0] if rest else None
    stop = rest[1] if len(rest) > 1 else None
    return (lambda: o.real.index(v, *rest)), (lambda m: m.index(v, start, stop)), 'same'


@op('bisect_left', 'LKSD', 'r', g_val)
def _(w, o, a):
    v = w.poisoned(a[0])
    return (lambda: o.real.bisect_left(v)), (lambda m: m.left(m.sk(v))), 'same'


@op('bisect_right', 'LKSD', 'r', g_val)
def _(w, o, a):
    v = w.poisoned(a[0])
    return (lambda: o.real.bisect_right(v)), (lambda m: m.right(m.sk(v))), 'same'


@op('bisect', 'LKSD', 'r', g_val)
def _(w, o, a):
    v = w.poisoned(a[0])
    return (lambda: o.real.bisect(v)), (lambda m: m.right(m.sk(v))), 'same'


def g_key(g, o):
    return [g.value(o), g.rng.random() < .3]


def the_key(w, o, spec, half):
    """(boxed key, raw key) around the key of a value."""
    f = o.model.key
    if f is None:
        raise NoOp
    raw = f.raw(rank(w.val(spec)))
    if half:
        raw = raw + .5
    from .seam import KeyObj
    return (KeyObj(raw) if f.boxed else raw), raw


@op('bisect_key_left', 'KSD', 'r', g_key)
def _(w, o, a):
    k, raw = the_key(w, o, *a)
    return (lambda: o.real.bisect_key_left(k)), (lambda m: m.left(raw)), 'same'


@op('bisect_key_right', 'KSD', 'r', g_key)
def _(w, o, a):
    k, raw = the_key(w, o, *a)
    return (lambda: o.real.bisect_key_right(k)), (lambda m: m.right(raw)), 'same'


@op('bisect_key', 'KSD', 'r', g_key)
def _(w, o, a):
    k, raw = the_key(w, o, *a)
    return (lambda: o.real.bisect_key(k)), (lambda m: m.right(raw)), 'same'


def open_iter(w, o, a):
    """a = [iterator kind, args...]; returns (opener, model list)."""
    t = a[0]
    if t == 'iter':
        return (lambda: iter(o.real)), (lambda m: list(m.items))
    if t == 'reversed':
        return (lambda: reversed(o.real)), (lambda m: m.items[::-1])
    if t == 'islice':
        s, e, rev = a[1]

        def model(m):
            out = m.items[slice(s, e)]
            if rev:
                out.reverse()
            return out
        return (lambda: o.real.islice(s, e, reverse=rev)), model
    if t == 'irange':
        lo, hi, incl, rev = a[1]
        lov = None if lo is None else w.val(lo)
        hiv = None if hi is None else w.val(hi)
        if lo is not None and lov is None or hi is not None and hiv is None:
            raise NoOp      # None means no bound

        def model(m):
            return m.window(None if lov is None else m.sk(lov),
                            None if hiv is None else m.sk(hiv), incl, rev)
        return (lambda: o.real.irange(lov, hiv, tuple(incl), reverse=rev)), model
    if t == 'irange_key':
        lo, hi, incl, rev, h1, h2 = a[1]
        lok = (None, None) if lo is None else the_key(w, o, lo, h1)
        hik = (None, None) if hi is None else the_key(w, o, hi, h2)

        def model(m):
            return m.window(lok[1], hik[1], incl, rev)
        return (lambda: o.real.irange_key(lok[0], hik[0], tuple(incl), reverse=rev)), model
    if t in ('keys', 'items', 'values'):
        if o.kind != 'D':
            raise NoOp
        rev = a[1]

        def opener():
            view = getattr(o.real, t)()
            return reversed(view) if rev else iter(view)

        def model(m):
            out = view_list(w, m, t)
            return out[::-1] if rev else out
        return opener, model
    raise KeyError(t)


def g_iter(g, o):
    r = g.rng
    opts = ['iter', 'reversed', 'islice', 'islice', 'irange', 'irange', 'irange']
    if o.model.key is not None and o.kind != 'L':
        opts += ['irange_key', 'irange_key']
    if o.kind == 'D':
        opts += ['keys', 'items', 'values']
    t = r.choice(opts)
    if t == 'islice':
        return [t, g_window(g, o)]
    if t == 'irange':
        return [t, g_range(g, o)]
    if t == 'irange_key':
        a = g_range(g, o)
        return [t, a + [r.random() < .3, r.random() < .3]]
    if t in ('keys', 'items', 'values'):
        return [t, r.random() < .3]
    return [t]


@op('iterate', 'LKSD', 'r', g_iter)
def _(w, o, a):
    opener, model = open_iter(w, o, a)
    return (lambda: list(opener())), model, 'elist'


@op('unsupported', 'LK', '1', lambda g, o: [g.rng.choice(
    ['setitem', 'setslice', 'append', 'extend', 'insert', 'reverse']), g.value(o),
    g.position(o)])
def _(w, o, a):
    v = w.val(a[1])
    i = a[2]

    def real():
        if a[0] == 'setitem':
            o.real[i] = v
        elif a[0] == 'setslice':
            o.real[i:] = [v]
        elif a[0] == 'insert':
            o.real.insert(i, v)
        elif a[0] == 'reverse':
            o.real.reverse()
        else:
            getattr(o.real, a[0])([v] if a[0] == 'extend' else v)

    def model(m):
        raises(NotImplementedError)
    return real, model, 'same'


POSITIONAL = (TypeError, IndexError, KeyError)
WRONG = {
    'LK': [('c.pop', POSITIONAL, lambda c, x: c.pop(x)),
           ('del c[]', POSITIONAL, lambda c, x: operator.delitem(c, x)),
           ('c[]', POSITIONAL, lambda c, x: c[x]),
           ('c[:]', POSITIONAL, lambda c, x: c['x':]),
           ('c +', TypeError, lambda c, x: c + 5),
           ('+ c', TypeError, lambda c, x: 5 + c),
           ('c +=', TypeError, lambda c, x: operator.iadd(c, 5)),
           ('c *', TypeError, lambda c, x: c * x),
           ('* c', TypeError, lambda c, x: x * c),
           ('c *=', TypeError, lambda c, x: operator.imul(c, x)),
           ('c.update', TypeError, lambda c, x: c.update(5))],
    'S': [('c.pop', POSITIONAL, lambda c, x: c.pop(x)),
          ('del c[]', POSITIONAL, lambda c, x: operator.delitem(c, x)),
          ('c[]', POSITIONAL, lambda c, x: c[x]),
          ('c.update', TypeError, lambda c, x: c.update(5)),
          ('c.isdisjoint', TypeError, lambda c, x: c.isdisjoint(5)),
          ('c.issubset', TypeError, lambda c, x: c.issubset(5)),
          ('c.issuperset', TypeError, lambda c, x: c.issuperset(5))] + [
        (sym, TypeError, f) for sym, g in (
            ('or', operator.or_), ('and', operator.and_), ('sub', operator.sub),
            ('xor', operator.xor), ('ior', operator.ior), ('iand', operator.iand),
            ('isub', operator.isub), ('ixor', operator.ixor))
        for f in ((lambda c, x, g=g: g(c, 5)), (lambda c, x, g=g: g(5, c)))] + [
        (meth, TypeError, lambda c, x, meth=meth: getattr(c, meth)(5)) for meth in (
            'union', 'intersection', 'difference', 'symmetric_difference',
            'intersection_update', 'difference_update', 'symmetric_difference_update')],
    'D': [('c.popitem', POSITIONAL, lambda c, x: c.popitem(x)),
          ('c.peekitem', POSITIONAL, lambda c, x: c.peekitem(x)),
          ('c.update', TypeError, lambda c, x: c.update(5)),
          ('c.update', TypeError, lambda c, x: c.update({}, {})),
          ('c |', TypeError, lambda c, x: c | 5),
          ('| c', TypeError, lambda c, x: 5 | c),
          ('c |', TypeError, lambda c, x: c | []),
          ('| c', TypeError, lambda c, x: [] | c),
          ('c |=', TypeError, lambda c, x: operator.ior(c, 5)),
          ('c.keys()[]', POSITIONAL, lambda c, x: c.keys()[x]),
          ('c.values()[]', POSITIONAL, lambda c, x: c.values()[x]),
          ('c.items()[]', POSITIONAL, lambda c, x: c.items()[x]),
          ('del c.keys()[]', POSITIONAL, lambda c, x: operator.delitem(c.keys(), x))],
}
WRONG['L'] = WRONG['K'] = WRONG['LK']


@op('wrongarg', 'LKSD', 'n', lambda g, o: [g.rng.randrange(len(WRONG[o.kind])),
                                           g.rng.choice(['x', None])])
def _(w, o, a):
    _, types, f = WRONG[o.kind][a[0] % len(WRONG[o.kind])]
    return (lambda: f(o.real, a[1])), (lambda m: raises(*(
        types if isinstance(types, tuple) else (types,)))), 'same'


# creating containers from lists

def new_list(m, items):
    n = Model(m.kind, m.dom, m.key)
    n.items = sorted(items, key=m.sk)
    return n


@op('copy', 'LKSD', 'c', lambda g, o: [g.rng.choice(['copy', 'copycopy'])])
def _(w, o, a):
    if a[0] == 'copy':
        return (lambda: o.real.copy()), (lambda m: m.clone()), 'new'
    return (lambda: copy.copy(o.real)), (lambda m: m.clone()), 'new'


@op('deepcopy', 'LKSD', 'c', g_none)
def _(w, o, a):
    return (lambda: copy.deepcopy(o.real)), (lambda m: m.clone()), 'clone'


@op('pickle', 'LKSD', 'c', lambda g, o: [g.rng.randrange(6)])
def _(w, o, a):
    return ((lambda: pickle.loads(pickle.dumps(o.real, a[0]))),
            (lambda m: m.clone()), 'clone')


@op('plus', 'LK', 'c', g_src)
def _(w, o, a):
    arg, vals, chk = w.source(a[0], o)
    if o.kind == 'L' and isinstance(arg, SortedKeyList):
        raise NoOp  # Python gives the subclass on the right precedence
    return (lambda: o.real + arg), (lambda m: new_list(m, m.items + vals)), 'new', chk


@op('rplus', 'LK', 'c', g_src)
def _(w, o, a):
    arg, vals, chk = w.source(a[0], o)
    if isinstance(arg, (list, tuple)):
        return ((lambda: arg + o.real), (lambda m: new_list(m, m.items + vals)), 'new', chk)
    raise NoOp


@op('times', 'LK', 'c', lambda g, o: [g.rng.choice([0, 1, 2, 2, 3, -1] if
                                               len(o.model.items) < 60 else [0, 1]),
                                 g.rng.random() < .3])
def _(w, o, a):
    n, r = a
    return ((lambda: n * o.real if r else o.real * n),
            (lambda m: new_list(m, m.items * n)), 'new')


def g_build(g, o):
    x = g.rng.randrange(4)
    if x < 2:
        return [x]
    return [2, g.source(o) if o.kind != 'D' else g.mapping(o), g.rng.random() < .3]


@op('build', 'LKSD', 'c', g_build)
def _(w, o, a):
    """Construct the same class from the container itself, from an iterator
    over it, or from any source."""
    cls = CLASSES[o.kind, o.sub]
    key = o.model.key
    if a[0] == 2:
        return build_from(w, o, a, cls, key)
    if o.kind == 'L':
        return ((lambda: cls(o.real if a[0] else iter(o.real))),
                (lambda m: m.clone()), 'new')
    if o.kind in 'KS':
        return ((lambda: cls(o.real if a[0] else iter(o.real), key=key)),
                (lambda m: m.clone()), 'new')
    return ((lambda: cls(key, o.real if a[0] else iter(o.real.items()))),
            (lambda m: m.clone()), 'new')


def build_from(w, o, a, cls, key):
    if o.kind == 'D':
        args, kwargs, pairs, chk = w.mapping(a[1], o)
        short = key is None and a[2] and (not args or not callable(args[0]))

        def real():
            return cls(*args, **kwargs) if short else cls(key, *args, **kwargs)

        def model(m):
            n = Model('D', m.dom, key)
            apply_pairs(n, pairs)
            return n
        return real, model, 'newm', chk
    arg, vals, chk = w.source(a[1], o)
    if o.kind == 'L' and not w.dom.orderable:
        raise NoOp

    def model(m):
        n = Model(o.kind, m.dom, key)
        if o.kind == 'S':
            n.put_many(vals)
        else:
            n.extend(vals)
        return n
    if o.kind == 'L':
        return (lambda: cls(arg)), model, 'newm', chk
    return (lambda: cls(arg, key=key)), model, 'newm', chk


@op('repr', 'LKSD', 'r', g_none)
def _(w, o, a):
    def model(m):
        name = type(o.real).__name__
        if m.kind == 'L':
            return '%s(%r)' % (name, m.items)
        if m.kind == 'K':
            return '%s(%r, key=%r)' % (name, m.items, m.key)
        if m.kind == 'S':
            return '%s(%r%s)' % (name, m.items, '' if m.key is None
                                 else ', key=%r' % m.key)
        return '%s(%s{%s})' % (name, '' if m.key is None else '%r, ' % m.key, ', '.join(
            '%r: %r' % kv for kv in w.model_pairs(o)))
    return (lambda: repr(o.real)), model, 'same'


def g_cmp(g, o):
    r = g.rng
    other = r.choice(['obj', 'obj', 'obj-any', 'obj-keys', 'self', 'twin', 'twin', 'twin', 'prefix',
                      'same', 'changed', 'alien'])
    return [r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge'] if o.kind != 'D' or r.random() < .1
                     else ['eq', 'ne']), other, r.randrange(8), r.randrange(8)]


class Twin(collections.UserDict):
    """A mapping that is not a dict."""


def twin(w, o, items, n, form):
    """Equal contents with another history, perhaps another rule."""
    kind, key, tok = o.kind, o.model.key, w.dom.tok
    if form % 3 == 1 or kind == 'L' and form % 3 == 2:
        key = w.keys[1 + n % 2]
    elif form % 3 == 2 and w.dom.orderable:
        key = None
    if kind in 'LK':
        kind = 'L' if key is None else 'K'
    pair = dict(o.model.map) if o.kind == 'D' else None
    order = items[::-1] if n % 4 == 0 else items[n:] + items[:n]
    cls = CLASSES[kind, n > 5]
    if kind == 'D':
        t = cls(key, [(v, pair[tok(v)]) for v in order])
    elif kind == 'L':
        t = cls(order)
    elif n % 4 == 1:
        t = cls(order, key=key)
    else:
        t = cls(key=key)
        for v in order:
            t.add(v)
    t._reset(4 + form)
    items = sorted(order, key=Model(kind, w.dom, key).sk)
    if n == 3 and items:
        v = items[form % len(items)]
        if kind == 'D':
            t[v] = w.stored(77)
            pair[tok(v)] = t[v]
        elif kind in 'LK':
            del t[len(items) // 2]
            del items[len(items) // 2]
        else:
            t.discard(v)
            items = [x for x in items if x is not v]
    return t, items, pair, {'L': {'seq', 'list'}, 'K': {'seq', 'list'}, 'S': {'set', 'seq'},
                            'D': {'map'}}[kind]


def operand(w, o, a):
    """The other operand, its elements in order, and what it is compared as."""
    what, n, form = a[1], a[2], a[3] if len(a) > 3 else 0
    kind = o.kind
    if what in ('obj', 'obj-any', 'obj-keys', 'self'):
        p = o if what == 'self' else w.slots[n % len(w.slots)]
        items = list(p.model.items)
        if what == 'obj-keys' and p.kind == 'D':
            return p.real.keys(), items, None, {'set', 'seq'}
        pair = dict(p.model.map) if p.kind == 'D' else None
        return p.real, items, pair, {'L': {'seq', 'list'}, 'K': {'seq', 'list'},
                                     'S': {'set', 'seq'}, 'D': {'map'}}[p.kind]
    items = list(o.model.items)
    if what == 'twin' and len(items) < 300:
        return twin(w, o, items, n, form)
    if what == 'prefix':
        items = items[:max(0, len(items) - n)]
    elif what == 'changed' and items:
        items[n % len(items)] = items[-1 - n % len(items)]
    elif what == 'alien':
        kind = 'LSD'[form % 3]
        if form > 5:
            return [None, 7][form - 6], [], None, set()
    if kind in 'LK':
        made = (list, tuple, collections.deque, list)[form % 4](items)
        return made, items, None, {'seq'}
    if kind == 'S' or form == 5:
        uniq = {}
        for v in items:
            uniq.setdefault(w.dom.tok(v), v)
        items = list(uniq.values())
        made = (set, frozenset, dict.fromkeys)[form % 3](items)
        return (made.keys() if form % 3 == 2 else made), items, None, {'set'}
    tok = w.dom.tok
    other = {k: o.model.map[tok(k)] if o.kind == 'D' else None for k in items}
    if form in (1, 2):
        other = (collections.OrderedDict, Twin)[form - 1](reversed(list(other.items())))
    return other, items, {tok(k): v for k, v in other.items()}, {'map'}


@op('compare', 'LKSD', 'r', g_cmp)
def _(w, o, a):
    f = getattr(operator, a[0])
    kind = o.kind
    if a[1] == 'obj':
        p = w.slots[a[2] % len(w.slots)]
        if p.kind != kind and not (p.kind in 'LK' and kind in 'LK'):
            raise NoOp
    other, items, omap, cats = operand(w, o, a)
    tok = w.dom.tok
    theirs = [tok(v) for v in items]
    order = a[0] not in ('eq', 'ne')
    lists = kind in 'LK' and 'seq' in cats or kind == 'S' and 'list' in cats
    if not w.dom.orderable and order and lists:
        raise NoOp
    swapped = len(a) > 3 and a[3] % 2 == 1

    def model(m):
        mine = [tok(v) for v in m.items]
        if lists:
            x, y = mine, theirs
        elif kind == 'S' and 'set' in cats:
            x, y = set(mine), set(theirs)
        elif kind == 'D' and 'map' in cats and not order:
            x, y = m.map, omap
        elif order:
            raises(TypeError)
        else:
            return a[0] == 'ne'     # other operands are declined
        return f(y, x) if swapped else f(x, y)
    if swapped:
        return (lambda: f(other, o.real)), model, 'same'
    return (lambda: f(o.real, other)), model, 'same'


# ======================= sets ===============================================

@op('add', 'S', '1', lambda g, o: [g.maybe_bad(g.value(o))])
def _(w, o, a):
    v = w.poisoned(a[0])

    def model(m):
        m.put_new(v)
    return (lambda: o.real.add(v)), model, 'same'


@op('discard', 'S', '1', g_val)
def _(w, o, a):
    v = w.val(a[0])

    def model(m):
        i = m.find(v)
        if i is not None:
            del m.items[i]
    return (lambda: o.real.discard(v)), model, 'same'


@op('remove', 'S', '1', g_val)
def _(w, o, a):
    v = w.val(a[0])

    def model(m):
        i = m.find(v)
        if i is None:
            raises(KeyError)
        del m.items[i]
    return (lambda: o.real.remove(v)), model, 'same'


@op('unhashable', 'S', '1', lambda g, o: [g.rng.choice(['add', 'discard', 'remove'])])
def _(w, o, a):
    def real():
        return getattr(o.real, a[0])([])

    def model(m):
        raises(TypeError)
    return real, model, 'same'


@op('badupdate', 'S', 'n', lambda g, o: [g.rng.choice(
    ['update', 'difference_update', 'symmetric_difference_update']),
    [g.value(o) for _ in range(g.rng.randrange(4))],
    g.rng.choice(['unhashable', 'notiter'])])
def _(w, o, a):
    vals = [w.val(s) for s in a[1]]

    def real():
        f = getattr(o.real, a[0])
        return f(5) if a[2] == 'notiter' else f(vals + [[]])

    def model(m):
        if a[2] == 'unhashable':
            set_apply({'update': 'union', 'difference_update': 'difference',
                       'symmetric_difference_update': 'symmetric_difference',
                       }[a[0]], m, [vals])
        raises(TypeError)
    return real, model, 'partial'


def multi(g, o):
    r = g.rng
    n = r.choice([0, 1, 1, 1, 1, 2, 3])
    return [g.source(o, iterself=True) for _ in range(n)]


def set_apply(name, m, lists):
    tok = m.dom.tok
    if name == 'union':
        for vals in lists:
            m.put_many(vals)
    elif name == 'intersection':
        for vals in lists:
            t = {tok(v) for v in vals}
            m.keep(lambda v: tok(v) in t)
    elif name == 'difference':
        t = {tok(v) for vals in lists for v in vals}
        m.keep(lambda v: tok(v) not in t)
    else:
        (vals,) = lists
        mine = m.toks()
        theirs = {tok(v) for v in vals}
        m.keep(lambda v: tok(v) not in theirs)
        m.put_many([v for v in vals if tok(v) not in mine])


def all_checks(chks):
    chks = [c for c in chks if c]

    def check(where):
        for c in chks:
            c(where)
    return check if chks else None


def _make_set_ops():
    inplace = {'update': 'union', 'intersection_update': 'intersection',
               'difference_update': 'difference',
               'symmetric_difference_update': 'symmetric_difference'}
    for meth, alg in inplace.items():
        gen = multi if alg != 'symmetric_difference' else (
            lambda g, o: [g.source(o, iterself=True)])

        @op(meth, 'S', 'n', gen)
        def _(w, o, a, meth=meth, alg=alg):
            srcs = [w.source(s, o) for s in a]
            args = [s[0] for s in srcs]
            return ((lambda: getattr(o.real, meth)(*args)),
                    (lambda m: set_apply(alg, m, [s[1] for s in srcs])), 'self',
                    all_checks(s[2] for s in srcs))
    for alg in ('union', 'intersection', 'difference', 'symmetric_difference'):
        gen = multi if alg != 'symmetric_difference' else (
            lambda g, o: [g.source(o, iterself=True)])

        @op(alg, 'S', 'c', gen)
        def _(w, o, a, alg=alg):
            srcs = [w.source(s, o) for s in a]
            args = [s[0] for s in srcs]

            def model(m):
                set_apply(alg, m, [s[1] for s in srcs])
                return m
            return ((lambda: getattr(o.real, alg)(*args)), model, 'newm',
                    all_checks(s[2] for s in srcs))
    table = {'or': ('union', operator.or_, operator.ior),
             'and': ('intersection', operator.and_, operator.iand),
             'sub': ('difference', operator.sub, operator.isub),
             'xor': ('symmetric_difference', operator.xor, operator.ixor)}
    for sym, (alg, fn, ifn) in table.items():
        @op('i' + sym, 'S', 'n', g_src)
        def _(w, o, a, alg=alg, ifn=ifn):
            arg, vals, chk = w.source(a[0], o)
            return ((lambda: ifn(o.real, arg)),
                    (lambda m: set_apply(alg, m, [vals])), 'self', chk)

        @op(sym, 'S', 'c', g_src)
        def _(w, o, a, alg=alg, fn=fn):
            arg, vals, chk = w.source(a[0], o)

            def model(m):
                set_apply(alg, m, [vals])
                return m
            return (lambda: fn(o.real, arg)), model, 'newm', chk

        @op('r' + sym, 'S', 'c', g_src)
        def _(w, o, a, alg=alg, fn=fn, sym=sym):
            arg, vals, chk = w.source(a[0], o)
            if not isinstance(arg, (set, frozenset)):
                raise NoOp

            def model(m):
                if sym == 'sub':
                    mine = m.toks()
                    m.items = sorted((v for v in vals if m.dom.tok(v) not in mine),
                                     key=m.sk)
                else:
                    set_apply(alg, m, [vals])
                return m
            return (lambda: fn(arg, o.real)), model, 'newm', chk
    for meth in ('isdisjoint', 'issubset', 'issuperset'):
        @op(meth, 'S', 'r', g_src)
        def _(w, o, a, meth=meth):
            arg, vals, chk = w.source(a[0], o)

            def model(m):
                x = m.toks()
                y = {m.dom.tok(v) for v in vals}
                return getattr(x, meth)(y)
            return (lambda: getattr(o.real, meth)(arg)), model, 'same', chk


_make_set_ops()


# ======================= dicts ==============================================

def g_kv(g, o):
    return [g.maybe_bad(g.value(o)), g.newval()]


@op('setitem', 'D', '1', g_kv)
def _(w, o, a):
    k, v = w.poisoned(a[0]), w.stored(a[1])

    def real():
        o.real[k] = v

    def model(m):
        m.put_new(k)
        m.map[m.dom.tok(k)] = v
    return real, model, 'same'


@op('delkey', 'D', '1', g_val)
def _(w, o, a):
    k = w.val(a[0])

    def real():
        del o.real[k]

    def model(m):
        i = m.find(k)
        if i is None:
            raises(KeyError)
        del m.items[i]
        del m.map[m.dom.tok(k)]
    return real, model, 'same'


@op('getkey', 'D', 'r', g_val)
def _(w, o, a):
    k = w.val(a[0])

    def model(m):
        t = m.dom.tok(k)
        if t not in m.map:
            if isinstance(o.real, SubDict):
                return ABSENT
            raises(KeyError)
        return m.map[t]
    return (lambda: o.real[k]), model, 'same'


@op('get', 'D', 'r', lambda g, o: [g.value(o), g.newval()])
def _(w, o, a):
    k, d = w.val(a[0]), w.stored(a[1])
    return (lambda: o.real.get(k, d)), (lambda m: m.map.get(m.dom.tok(k), d)), 'same'


@op('popkey', 'D', '1', lambda g, o: [g.value(o)] + g.rng.choice(
    [[], [], [g.newval()], [None]]))
def _(w, o, a):
    k = w.val(a[0])
    rest = [w.stored(x) for x in a[1:]]

    def model(m):
        i = m.find(k)
        if i is None:
            if rest:
                return rest[0]
            raises(KeyError)
        del m.items[i]
        return m.map.pop(m.dom.tok(k))
    return (lambda: o.real.pop(k, *rest)), model, 'same'


@op('popitem', 'D', '1', lambda g, o: [] if g.rng.random() < .3 else g_pos(g, o))
def _(w, o, a):
    i = a[0] if a else -1

    def model(m):
        if not m.items:
            raises(KeyError)
        k = m.pop_at(i)
        return [k, m.map.pop(m.dom.tok(k))]
    return (lambda: o.real.popitem(*a)), model, 'tuple'


@op('peekitem', 'D', 'r', lambda g, o: [] if g.rng.random() < .3 else g_pos(g, o))
def _(w, o, a):
    i = a[0] if a else -1

    def model(m):
        try:
            k = m.items[i]
        except IndexError:
            raises(IndexError)
        return [k, m.map[m.dom.tok(k)]]
    return (lambda: o.real.peekitem(*a)), model, 'tuple'


@op('setdefault', 'D', '1', lambda g, o: g_kv(g, o)[:1 if g.rng.random() < .2 else 2])
def _(w, o, a):
    k = w.poisoned(a[0])
    rest = [w.stored(x) for x in a[1:]]
    v = rest[0] if rest else None

    def model(m):
        t = m.dom.tok(k)
        if m.put_new(k):
            m.map[t] = v
        return m.map[t]
    return (lambda: o.real.setdefault(k, *rest)), model, 'same'


def apply_pairs(m, pairs):
    tok = m.dom.tok
    m.put_many([k for k, _ in pairs])
    for k, v in pairs:
        m.map[tok(k)] = v


@op('dupdate', 'D', 'n', lambda g, o: [g.mapping(o)])
def _(w, o, a):
    args, kwargs, pairs, chk = w.mapping(a[0], o)
    return ((lambda: o.real.update(*args, **kwargs)),
            (lambda m: apply_pairs(m, pairs)), 'same', chk)


@op('dior', 'D', 'n', lambda g, o: [g.mapping(o)])
def _(w, o, a):
    args, kwargs, pairs, chk = w.mapping(a[0], o)
    if kwargs or len(args) != 1:
        raise NoOp

    def real():
        x = o.real
        x |= args[0]
        return x
    return real, (lambda m: apply_pairs(m, pairs)), 'self', chk


@op('dor', 'D', 'c', lambda g, o: [g.mapping(o), g.rng.random() < .4])
def _(w, o, a):
    args, kwargs, pairs, chk = w.mapping(a[0], o)
    if kwargs or len(args) != 1 or not isinstance(args[0], dict):
        raise NoOp
    other = args[0]
    rev = a[1] and type(other) is dict

    def model(m):
        if not rev:
            apply_pairs(m, pairs)
            return m
        mine = w.model_pairs(o)
        m.items = []
        m.map = {}
        apply_pairs(m, pairs + mine)
        return m
    return (lambda: other | o.real if rev else o.real | other), model, 'newm', chk


@op('fromkeys', 'D', 'c', lambda g, o: [g.source(o)] + g.rng.choice(
    [[], [g.newval()], [None]]))
def _(w, o, a):
    if not w.dom.orderable:
        raise NoOp
    arg, vals, chk = w.source(a[0], o)
    rest = [w.stored(x) for x in a[1:]]
    v = rest[0] if rest else None

    def model(m):
        n = Model('D', m.dom, None)
        apply_pairs(n, [(k, v) for k in vals])
        return n
    return (lambda: type(o.real).fromkeys(arg, *rest)), model, 'newm', chk


@op('badupdate', 'D', 'n', lambda g, o: [[[g.value(o), g.newval()] for _ in range(
    g.rng.randrange(5))], g.rng.choice(['short', 'long', 'unhashable', 'notpair', 'notiter'])])
def _(w, o, a):
    pairs = [(w.val(k), w.stored(v)) for k, v in a[0]]
    t = a[1]

    def real():
        if t == 'notiter':
            return o.real.update(5)
        bad = {'short': (w.val([1, 0]),), 'long': (1, 2, 3), 'unhashable': ([], 1),
               'notpair': 7}[t]
        return o.real.update(pairs + [bad] + pairs[:2])

    def model(m):
        if t != 'notiter':
            apply_pairs(m, pairs + pairs[:2])
        raises(TypeError, ValueError)
    return real, model, 'partial'


@op('unhashable', 'D', '1', lambda g, o: [g.rng.choice(
    ['set', 'setdefault', 'pop', 'del'])])
def _(w, o, a):
    def real():
        if a[0] == 'set':
            o.real[[]] = 1
        elif a[0] == 'del':
            del o.real[[]]
        else:
            return getattr(o.real, a[0])([], 1)

    def model(m):
        raises(TypeError)
    return real, model, 'same'


@op('iloc', 'D', 'r', g_pos)
def _(w, o, a):
    def real():
        return o.real.iloc[a[0]]

    def model(m):
        try:
            return m.items[a[0]]
        except IndexError:
            raises(IndexError)
    return real, model, 'same'


# views ---------------------------------------------------------------------

def view_list(w, m, t):
    tok = m.dom.tok
    if t == 'keys':
        return list(m.items)
    if t == 'values':
        return [m.map[tok(k)] for k in m.items]
    return [(k, m.map[tok(k)]) for k in m.items]


def get_view(w, o, vid, t):
    held = w.views.get((vid, t))
    if held is not None and held[0] is o.real:
        w.note('view_held')
        return held[1]
    view = getattr(o.real, t)()
    w.views[vid, t] = (o.real, view)
    return view


def g_view(g, o):
    r = g.rng
    t = r.choice(['keys', 'keys', 'items', 'items', 'values'])
    subs = ['len', 'iter', 'reversed', 'contains', 'getitem', 'getslice', 'index',
            'count', 'whole']
    if t != 'values':
        if t == 'keys' or g.w.cfg.get('valkind') == 'int':
            subs += SETOPS + CMPS
    sub = r.choice(subs)
    vid = r.randrange(3)
    if sub in ('contains', 'index', 'count'):
        return [vid, t, sub, g.value(o, .8), r.random() < .8]
    if sub == 'getitem':
        return [vid, t, sub, g.position(o)]
    if sub == 'getslice':
        return [vid, t, sub, g.slice3(o)]
    if sub in CMPS:
        vals = [g.w.dom.spec(v) for v in o.model.items]
        if vals and r.random() < .4:
            vals.pop(r.randrange(len(vals)))
        if r.random() < .4:
            vals.append(g.value(o))
        return [vid, t, sub, vals, r.choice(['set', 'set', 'frozenset', 'view', 'SortedSet'])]
    if sub in SETOPS:
        n = r.choice([0, 1, 2, 5, 5, 12])
        if r.random() < .15:
            n = min(len(o.model.items) * 2, 200)
        return [vid, t, sub, [g.value(o, .5) for _ in range(n)],
                r.choice(['set', 'list', 'gen', 'frozenset', 'tuple', 'view', 'view',
                          'SortedSet', 'self'])]
    return [vid, t, sub]


SETOPS = ['and', 'or', 'sub', 'xor', 'isdisjoint', 'rsub', 'rand', 'ror', 'rxor']
CMPS = ['eq', 'ne', 'le', 'ge', 'lt', 'gt']


def view_operand(w, o, view, how, items, whole):
    """The other side of a set operation on a view."""
    if how == 'self':
        return view
    if how == 'view':
        d = SortedDict(o.real.key, items if whole else [(k, 0) for k in items])
        return d.items() if whole else d.keys()
    if how == 'SortedSet':
        key = o.real.key
        if whole:
            f = (lambda p: (rank(p[0]), p[1])) if key is None else (lambda p: key(p[0]))
        else:
            f = key
        return SortedSet(items, key=f)
    return {'set': set, 'list': list, 'tuple': tuple, 'frozenset': frozenset,
            'gen': gen_items}[how](items)


@op('view', 'D', 'r', g_view)
def _(w, o, a):
    vid, t, sub = a[:3]
    view = get_view(w, o, vid, t)
    dom = w.dom
    tok = dom.tok

    def element(m, spec, present):
        """What to search for in the view, from a key."""
        k = w.val(spec)
        if t == 'keys':
            return k
        v = m.map.get(tok(k), w.stored(999999))
        if not present:
            v = w.stored(999998)
        return v if t == 'values' else (k, v)

    def same(x, y):
        if t == 'keys':
            return dom.eq(x, y)
        if t == 'values':
            return x is y or x == y
        return dom.eq(x[0], y[0]) and (x[1] is y[1] or x[1] == y[1])

    if sub == 'len':
        return (lambda: len(view)), (lambda m: len(m.items)), 'same'
    if sub == 'iter':
        return (lambda: list(view)), (lambda m: view_list(w, m, t)), 'elist'
    if sub == 'whole':
        return (lambda: view[:]), (lambda m: view_list(w, m, t)), 'elist'
    if sub == 'reversed':
        return (lambda: list(reversed(view))), (lambda m: view_list(w, m, t)[::-1]), 'elist'
    if sub in ('contains', 'index', 'count'):
        x = element(o.model, a[3], a[4])
        if sub == 'contains':
            return (lambda: x in view), (lambda m: any(
                same(y, x) for y in view_list(w, m, t))), 'same'
        if sub == 'count':
            return (lambda: view.count(x)), (lambda m: sum(
                same(y, x) for y in view_list(w, m, t))), 'same'

        def model(m):
            for i, y in enumerate(view_list(w, m, t)):
                if same(y, x):
                    return i
            raises(ValueError)
        return (lambda: view.index(x)), model, 'same'
    if sub == 'getitem':
        def model(m):
            try:
                return view_list(w, m, t)[a[3]]
            except IndexError:
                raises(IndexError)
        return (lambda: view[a[3]]), model, 'esame'
    if sub == 'getslice':
        def model(m):
            try:
                return view_list(w, m, t)[slice(*a[3])]
            except ValueError:
                raises(ValueError)
        return (lambda: view[slice(*a[3])]), model, 'elist'
    # set operations and comparisons
    keys = [w.val(x) for x in a[3]]
    how = a[4]
    if t == 'keys':
        items = keys
        etok = tok
    else:
        items = [element(o.model, x, sub in CMPS or i % 3 != 0) for i, x in enumerate(a[3])]
        if how == 'view':
            # one value per key
            items = list({tok(k): (k, v) for k, v in items}.values())

        def etok(p):
            return (tok(p[0]), p[1])

    def mine(m):
        return {etok(x) for x in view_list(w, m, t)}

    def theirs(m):
        return mine(m) if how == 'self' else {etok(x) for x in items}
    if t == 'items':
        try:
            sorted(mine(o.model) | theirs(o.model))
        except TypeError:
            raise NoOp      # pairs without an order cannot make a sorted set
    other = view_operand(w, o, view, how, items, t == 'items')

    def side():
        return gen_items(items) if how == 'gen' else other

    if sub == 'isdisjoint':
        return (lambda: view.isdisjoint(side())), (
            lambda m: not (mine(m) & theirs(m))), 'same'

    if sub in CMPS:
        f = getattr(operator, sub)
        return (lambda: f(view, other)), (lambda m: f(mine(m), theirs(m))), 'same'

    def model(m):
        x, y = mine(m), theirs(m)
        return sorted({'and': x & y, 'or': x | y, 'sub': x - y, 'xor': x ^ y, 'rsub': y - x}[
                           sub if sub in ('and', 'or', 'sub', 'xor', 'rsub') else sub[1:]])

    def real():
        f = {'and': operator.and_, 'or': operator.or_, 'sub': operator.sub,
             'xor': operator.xor}[sub if sub in ('and', 'or', 'sub', 'xor') else sub[1:]]
        try:
            if sub in ('and', 'or', 'sub', 'xor'):
                res = f(view, side())
            else:
                res = f(side(), view)
        except TypeError as e:
            m = o.model
            asset = 0 if isinstance(other, Set) else len(theirs(m))
            if dom.orderable or type(e) is not TypeError or max(
                    len(model(m)), asset if sub[-3:] in ('sub', 'xor') else 0,
                    len(mine(m) | theirs(m)) if sub[-3:] == 'xor' else 0) < 2:
                raise
            # the recorded finding: keys ordered by the key function only
            w.note('known_view_setop')
            return model(m)
        if type(res) is not SortedSet:
            return type(res).__name__
        out = [etok(x) for x in res]
        # which order the result has when the dict has a key function is not specified
        return out if o.model.key is None else sorted(out)
    return real, model, 'eq'


@op('view_del', 'D', '1', lambda g, o: [g.rng.randrange(3), g.rng.choice(
    ['keys', 'items', 'values']), g.position(o)])
def _(w, o, a):
    view = get_view(w, o, a[0], a[1])

    def real():
        del view[a[2]]

    def model(m):
        k = m.pop_at(a[2])
        del m.map[m.dom.tok(k)]
    return real, model, 'same'


@op('view_delslice', 'D', 'n', lambda g, o: [g.rng.randrange(3), g.rng.choice(
    ['keys', 'items', 'values']), g.thinning(o)])
def _(w, o, a):
    view = get_view(w, o, a[0], a[1])
    s = slice(*a[2])

    def real():
        del view[s]

    def model(m):
        try:
            gone = m.items[s]
            del m.items[s]
        except ValueError:
            raises(ValueError)
        for k in gone:
            del m.map[m.dom.tok(k)]
    return real, model, 'same'
