"""What a container, and the library as a whole, keeps alive."""
import gc
import types
import weakref
from fractions import Fraction

from . import lib
from .seam import KeyFn, KeyObj, U, V, Val
from .world import Violation

LEAF = {KeyObj, KeyFn, str, int, float, bool, bytes, Fraction, type(None)}
STOP = (types.ModuleType, types.FrameType, types.TracebackType, types.CodeType,
        types.GeneratorType, weakref.ref, property, types.GetSetDescriptorType,
        types.MemberDescriptorType, types.WrapperDescriptorType,
        types.MethodDescriptorType, types.MappingProxyType)
SIZED = (list, tuple, set, frozenset, dict)


def ours(x):
    """Does a class or function belong to the library?"""
    m = x.__module__
    return isinstance(m, str) and (m.startswith('sortedcontainers') or m == lib.__name__)


def walk(roots, wide):
    """(values, slots): the clients' values reachable from ``roots`` and the
    number of places in the collections passed on the way.  ``wide``: also
    through the library's classes and functions."""
    seen = set()
    values = {}
    slots = 0
    todo = list(roots)
    while todo:
        fresh = []
        for x in todo:
            if id(x) in seen:
                continue
            c = x.__class__
            if c in (V, U, Val):
                values[id(x)] = x
                continue
            if c in LEAF:
                continue
            seen.add(id(x))
            if isinstance(x, type) or isinstance(x, types.FunctionType):
                if not (wide and ours(x)):
                    continue
            elif isinstance(x, STOP):
                continue
            elif isinstance(x, types.BuiltinFunctionType) and isinstance(
                    x.__self__, types.ModuleType):
                continue
            if isinstance(x, SIZED):
                slots += len(x)
            fresh.append(x)
        todo = gc.get_referents(*fresh)
    return values, slots


def library():
    """Roots of everything the library keeps outside its containers."""
    out = list(lib.SUBCLASSES)
    for m in lib.MODULES:
        for x in vars(m).values():
            if isinstance(x, (type, types.FunctionType)):
                if ours(x):
                    out.append(x)
            elif not isinstance(x, types.ModuleType):
                out.append(x)
    return out


def check(w, o, where):
    values, slots = walk([o.real], False)
    m = o.model
    w.note('held')
    if o.kind in 'LK':
        have = {id(v) for v in m.items}
    else:
        tok = w.dom.tok
        have = m.toks()
    stored = {id(v) for v in m.map.values()} if m.map is not None else ()
    for i, v in values.items():
        if v.__class__ is Val:
            ok = i in stored
        elif o.kind in 'LK':
            ok = i in have
        else:
            ok = tok(v) in have
        if not ok:
            raise Violation('held:' + o.kind, '%s: still holds %s; contents %s' % (
                where, w.show(v), w.brief(m.items)))
    n = len(m.items)
    if slots > 9 * n + 250:
        raise Violation('size:' + o.kind, '%s: %d places in its collections for %d elements'
                        % (where, slots, n))


def check_library(w, where):
    values, slots = walk(library(), True)
    for v in values.values():
        raise Violation('held:library', '%s: the library outside its containers holds %s'
                        % (where, w.show(v)))
    w.note('held_library')
