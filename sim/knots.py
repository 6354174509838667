"""Snapshots of containers whose elements refer back to them (property C14).

The parent pointer of a tree node, or a dict stored in itself.  The run's own
elements are shared between containers and steps, so the operation builds a
container of the same class, rule and contents from elements of its own.
"""
import copy
import pickle

from .exec import SPECIAL
from .seam import Knot, KnotU, Tied
from .world import CLASSES, Violation


def knot(w, st):
    o = w.target(st)
    kind, key = o.kind, o.model.key
    cls = CLASSES[kind, o.sub]
    made = KnotU if w.dom.name == 'U' else Knot
    elems = [made(*w.dom.spec(v)) for v in o.model.items[:st['n']]]
    if kind == 'D':
        c = cls(key, [(e, None) for e in elems])
    elif kind == 'L':
        c = cls(elems)
    else:
        c = cls(elems, key=key)
    box = [c]
    refs = [None, c, box]
    for i, e in enumerate(elems):
        e.owner = refs[st['owners'][i % len(st['owners'])]]
    if kind == 'D':
        for i, e in enumerate(elems):
            c[e] = [i, c, box, Tied(c), Tied(box)][st['values'][i % len(st['values'])]]
    before = list(c)
    how = 'deepcopy' if st['proto'] < 0 else 'pickle %d' % st['proto']
    where = '%s (elements referring to their %s, %s)' % (w.cur, cls.__name__, how)
    try:
        if st['proto'] < 0:
            r = copy.deepcopy(c)
        else:
            r = pickle.loads(pickle.dumps(c, st['proto']))
    except Exception as e:
        raise Violation('knot', '%s: raised %s: %s' % (where, type(e).__name__, e)) from None
    now = list(c)
    if len(now) != len(before) or any(x is not y for x, y in zip(now, before)):
        raise Violation('knot', '%s: changed the container' % where)
    check(c, r, st, kind, cls, key, where)
    fresh = made(-5, 0)
    if kind == 'D':
        r[fresh] = 1
        r.pop(fresh)
    else:
        r.add(fresh)
        r.remove(fresh)
    check(c, r, st, kind, cls, key, where + ' (later)')
    w.note('knots')
    c.clear()
    r.clear()


def check(c, r, st, kind, cls, key, where):
    def bad(what):
        raise Violation('knot', '%s: %s' % (where, what))

    if type(r) is not cls:
        bad('restored a %s' % type(r).__name__)
    old, new = list(c), list(r)
    if len(r) != len(old) or len(new) != len(old):
        bad('%d elements, restored %d (iterated %d)' % (len(old), len(r), len(new)))
    if kind in 'LK':
        if [(x.k, x.u) for x in old] != [(x.k, x.u) for x in new]:
            bad('other elements')
    else:
        raw = key.raw if key is not None else int
        if [raw(x.k) for x in old] != [raw(x.k) for x in new]:
            bad('other order')
        if sorted((x.k, x.u) for x in old) != sorted((x.k, x.u) for x in new):
            bad('other elements')
    at = {(x.k, x.u): x for x in old}
    for x in new:
        if x not in r:
            bad('%r is iterated but not contained' % x)
        if kind in 'LK':
            continue
        y = at[x.k, x.u]
        same(y.owner, x.owner, c, r, 'the owner of %r' % x, bad)
        if kind == 'D':
            same(c[y], r[x], c, r, 'the value of %r' % x, bad)
    if kind in 'LK':
        for y, x in zip(old, new):
            same(y.owner, x.owner, c, r, 'the owner of %r' % x, bad)


def same(y, x, c, r, what, bad):
    """Is ``x`` for the copy what ``y`` is for the original?"""
    if y is c:
        if x is not r:
            bad('%s is not the restored container' % what)
    elif isinstance(y, Tied):
        if not isinstance(x, Tied):
            bad('%s was lost' % what)
        same(y.owner, x.owner, c, r, what, bad)
    elif isinstance(y, list):
        if not isinstance(x, list) or len(x) != 1 or x[0] is not r:
            bad('%s does not lead to the restored container' % what)
    elif y != x:
        bad('%s was lost' % what)


SPECIAL['knot'] = knot
