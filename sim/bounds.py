"""Step bounds (property C15).  The constants are at least twice what the
algorithm needs, so only a change of growth rate or a stuck loop exceeds them.

Comparisons, key calls and executed lines do not show work done inside one C
call, such as copying the whole container to look at one element; so on large
containers reads are executed once more with the allocator traced."""
import builtins
import sys
import tracemalloc
from math import log2

from .seam import SEAM, SimHang, rank
from .world import Violation

CURRENT = [None]
# which argument they consume (zip: all)
CONSUMERS = {'sum': 0, 'min': 0, 'max': 0, 'any': 0, 'all': 0, 'enumerate': 0,
             'islice': 0, 'accumulate': 0, 'filter': 1, 'takewhile': 1, 'dropwhile': 1,
             'reduce': 1, 'zip': None}


def counted(it):
    w = CURRENT[0]
    for x in it:
        w.lines += 1
        yield x


def counting(name, real, which):
    def call(*args, **kw):
        if name in ('min', 'max') and len(args) > 1:
            return real(*args, **kw)
        args = [counted(x) if which in (i, None) and hasattr(x, '__iter__') else x
                for i, x in enumerate(args)]
        return real(*args, **kw)
    return call


def counting_len(x):
    CURRENT[0].lines += 1
    return len(x)


def install(w):
    """Loops inside C consumers are steps, too: the library's modules get counting
    stand-ins for them (in C15's own processes only)."""
    CURRENT[0] = w
    for name, mod in sorted(sys.modules.items()):
        if name.split('.')[0] != 'sortedcontainers' or mod is None:
            continue
        mod.len = counting_len
        for n, which in CONSUMERS.items():
            real = vars(mod).get(n, getattr(builtins, n, None))
            if real is not None:
                setattr(mod, n, counting(n, real, which))


LOCATE = {'contains', 'count', 'index', 'bisect_left', 'bisect_right', 'bisect',
          'bisect_key_left', 'bisect_key_right', 'bisect_key', 'add', 'discard', 'remove',
          'setitem', 'delkey', 'getkey', 'get', 'popkey', 'setdefault', 'unhashable'}
POSITION = {'pop', 'delitem', 'getitem', 'popitem', 'peekitem', 'iloc', 'len', 'view_del'}
NOCOMPARE = POSITION | {'getslice', 'list', 'reversed'}


def args_size(w, o, a):
    """How many input items the arguments bring in, generously."""
    if isinstance(a, dict):
        n = len(a.get('v', ()))
        t = a.get('t', '')
        if 'self' in t:
            n += len(o.model.items)
        if t == 'obj' and w.slots:
            n += len(w.slots[a['o'] % len(w.slots)].model.items)
        return n
    if isinstance(a, (list, tuple)):
        return len(a) + sum(args_size(w, o, x) for x in a)
    return 0


def ties(w, o, a, pre):
    if not a or not isinstance(a[0], (list, tuple)) or not a[0] or a[0][0] == 'bad':
        return 0
    try:
        v = w.val(a[0])
        if pre.key is not None:
            k = pre.key.raw(rank(v))
        else:
            k = rank(v)
        return pre.right(k) - pre.left(k)
    except (TypeError, IndexError, KeyError):
        return 0


def fail(w, where, what, got, limit, n):
    raise Violation('steps', '%s: %s %d times with %d elements, limit %d' % (
        where, what, got, n, limit))


def inner(o):
    return o.real if o.kind in 'LK' else getattr(o.real, '_list', None)


def indexed(o):
    """Is lookup state there already?"""
    return bool(getattr(inner(o), '_index', None))


def rebuild(o, n):
    """Steps that building lookup state over all sublists may take, once."""
    return 24 * (2 * n // getattr(inner(o), '_load', 4) + 4)


def steps(w, o, spec, thunk, where, n, lim):
    """Executed lines of the operation just done; a read may build lookup state
    the first time and must then be quick."""
    if w.lines <= lim:
        return
    first = lim
    if spec.cat == 'r' or spec.name in POSITION and not w.indexed:
        first += rebuild(o, n)
    if w.lines > first:
        fail(w, where, 'executed lines', w.lines, first, n)
    if spec.cat == 'r':
        def again():
            try:
                thunk()
            except SimHang:
                raise
            except Exception:
                pass
        got = w.count_lines(again)
        if got > lim:
            fail(w, where, 'executed lines', got, lim, n)


def memory(w, o, spec, thunk, where, n):
    if spec.cat != 'r' or spec.name in ('len', 'unhashable') or n < 600:
        return
    w.note('memory_bounded')
    try:
        thunk()     # what is built once is built now
    except Exception:
        pass
    tracemalloc.start()
    try:
        thunk()
    except Exception:
        pass
    finally:
        peak = tracemalloc.get_traced_memory()[1]
        tracemalloc.stop()
    # a copy of the elements, or of their keys, takes 8 bytes each; a copy of one
    # sublist (at most twice the load factor) is tolerable
    lim = 4000 + 24 * getattr(inner(o), '_load', 1000)
    if peak > lim:
        fail(w, where, 'allocated bytes at once', peak, lim, n)


REMOVE = {'pop', 'delitem', 'popitem', 'view_del', 'delkey', 'popkey', 'remove', 'discard'}


WARM = []


def warm(lib):
    """CPython allocates line tables for a function when it is first traced, which
    is not the operation's memory: run every way of removing once, traced, before
    anything is measured."""
    if WARM:
        return
    WARM.append(1)

    left = [10 ** 6]

    def tracer(*args):
        left[0] -= 1
        if left[0] < 0:
            raise SimHang('warming up')
        return tracer

    def removals(s):
        for _ in range(9):
            s[len(s) // 2]
            s.pop()
            s.pop(0)
            s.pop(len(s) // 2)
            v = s[len(s) // 3]
            s.remove(v)
            s.add(v)
            s.discard(v)
            s.discard(v)
            for i in (len(s) // 4, -len(s) // 4, 0, -1):
                s[-1]
                del s[i]
            for bad in (lambda: s.remove(v), lambda: s.pop(10 ** 9),
                        lambda: s.__delitem__(-10 ** 9)):
                try:
                    bad()
                except (ValueError, KeyError, IndexError):
                    pass

    def run():
        for s in (lib.SortedList(), lib.SortedList(key=lambda v: -v), lib.SortedSet(),
                  lib.SortedSet(key=lambda v: -v)):
            s._reset(4)
            s.update(range(100))
            removals(s)
        for d in (lib.SortedDict(), lib.SortedDict(lambda v: -v)):
            d._reset(4)
            d.update((i, i) for i in range(100))
            for _ in range(9):
                d.keys()[0], d.peekitem()
                d.popitem()
                d.popitem(0)
                d.pop(d.keys()[len(d) // 2])
                d.pop(-1, None)
                del d[d.keys()[len(d) // 3]]
                del d.keys()[len(d) // 2]
                del d.keys()[-1]
                try:
                    d.pop(-1)
                except KeyError:
                    pass
                try:
                    del d[-1]
                except KeyError:
                    pass

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        run()
    except (Exception, SimHang):    # other checks say so
        pass
    finally:
        sys.settrace(old)


def traced(o, spec):
    """Is this an operation on one element whose memory can be bounded while it
    runs?  (Additions may enlarge a hash table, which takes a copy of it.)"""
    return spec.cat == '1' and spec.name in REMOVE and len(o.model.items) >= 600


def check_removal(w, o, where, peak):
    n = len(o.model.items)
    load = getattr(inner(o), '_load', 1000)
    # sublists may be merged or split, and lookup state built
    lim = 4000 + 40 * load + (0 if w.indexed else 200 * (2 * n // load + 4))
    w.note('memory_bounded')
    if peak > lim:
        fail(w, where, 'allocated bytes at once', peak, lim, n)


def size(w, o, a, pre, post):
    return len(pre.items) + len(post.items) + args_size(w, o, a) + 2


def bulk(w, o, name, a, pre, post):
    """Lines an operation may execute if no tighter bound applies."""
    n = max(len(pre.items), len(post.items))
    lim = 100 * size(w, o, a, pre, post) * log2(n + 2) + 500
    if name in ('delslice', 'view_delslice'):
        # scattered positions go one at a time, and each may outdate lookup state
        lim += max(0, len(pre.items) - len(post.items)) * rebuild(o, n)
    return lim


def check(w, o, spec, a, pre, post, where, thunk):
    c = w.lastcounts
    name = spec.name
    n = max(len(pre.items), len(post.items))
    lg = log2(n + 2)
    comps = c['lt'] + (c['eq'] if o.kind in 'LK' else 0)
    w.note('bounded')
    if name in NOCOMPARE:
        if c['lt'] or c['key']:
            fail(w, where, 'compared or called the key', c['lt'] + c['key'], 0, n)
        if name in POSITION:
            steps(w, o, spec, thunk, where, n, 200 + 24 * lg)
            memory(w, o, spec, thunk, where, n)
        return
    if name in LOCATE:
        t = ties(w, o, a, pre)
        lim = 3 * lg + 16 + 4 * t
        if comps > lim:
            fail(w, where, 'compared', comps, lim, n)
        if c['key'] > 6:
            fail(w, where, 'called the key', c['key'], 6, n)
        steps(w, o, spec, thunk, where, n, 140 + 20 * lg + (16 + 6 * lg) * t)
        memory(w, o, spec, thunk, where, n)
        return
    if name == 'view' and a[2] in ('len', 'getitem', 'contains') and a[1] != 'values':
        steps(w, o, spec, thunk, where, n, 200 + 24 * lg)
        if c['lt'] or c['key']:
            fail(w, where, 'compared or called the key', c['lt'] + c['key'], 0, n)
        memory(w, o, spec, thunk, where, n)
    big = size(w, o, a, pre, post)
    lim = 8 * big * log2(big + 2) + 60
    if name == 'iterate' and a[0] in ('irange', 'irange_key'):
        if c['lt'] > 3 * lg + 16 or c['key'] > 6:
            fail(w, where, 'compared or called the key', c['lt'] + c['key'],
                 3 * lg + 16, n)
    elif name == 'iterate':
        if c['lt'] or c['key']:
            fail(w, where, 'compared or called the key', c['lt'] + c['key'], 0, n)
    if c['lt'] > lim:
        fail(w, where, 'compared', c['lt'], lim, n)
    if c['key'] > 12 * big + 60:
        fail(w, where, 'called the key', c['key'], 12 * big + 60, n)
    most = bulk(w, o, name, a, pre, post)
    if w.lines > most:
        fail(w, where, 'executed lines', w.lines, most, n)


def check_open(w, o, a, counts, lines):
    n = len(o.model.items)
    lg = log2(n + 2)
    limit = 3 * lg + 16 if a[0] in ('irange', 'irange_key') else 0
    if counts['lt'] > limit or counts['key'] > 6:
        fail(w, w.cur, 'opening compared or called the key',
             counts['lt'] + counts['key'], limit, n)
    limit = 200 + 24 * lg + rebuild(o, n)
    if lines > limit:
        fail(w, w.cur, 'opening executed lines', lines, limit, n)


def check_next(w, it, exp, rec):
    """Advance one element, without any comparison or key call."""
    o, pos = rec[0], rec[4]
    n = len(o.model.items)
    out = []

    def advance():
        try:
            out.append(next(it))
        except StopIteration:
            pass
    SEAM.arm()
    try:
        lines = w.count_lines(advance)
    except Violation:
        raise
    except Exception as e:
        raise Violation('raised', '%s: advancing raised %r' % (w.cur, e))
    finally:
        c = dict(SEAM.counts)
        SEAM.disarm()
    if c['lt'] or c['key']:
        fail(w, w.cur, 'advancing compared or called the key', c['lt'] + c['key'], 0,
             len(exp))
    limit = 200 + 24 * log2(n + 2) + rebuild(o, n)
    if lines > limit:
        fail(w, w.cur, 'advancing executed lines', lines, limit, n)
    if bool(out) != (pos < len(exp)) or (out and not w.esame(out[0], exp[pos])):
        raise Violation('iterator', '%s: element %d is wrong' % (w.cur, pos))
    w.note('it_next')
    rec[4] = pos + len(out)
