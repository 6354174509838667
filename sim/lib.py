"""Import the library under test from the repository's working tree."""
import copy
import os
import sys
import types
import warnings
from collections import deque

sys.dont_write_bytecode = True
REPO = os.environ.get('SIM_REPO', '/repo')  # development override only
SRC = os.path.join(REPO, 'src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)
import sortedcontainers  # noqa: E402

if not os.path.realpath(sortedcontainers.__file__).startswith(
        os.path.realpath(SRC) + os.sep):
    raise SystemExit('wrong sortedcontainers: %s' % sortedcontainers.__file__)

LIBDIR = os.path.dirname(os.path.realpath(sortedcontainers.__file__)) + os.sep
LIBDIRS = (LIBDIR, os.path.join(SRC, 'sortedcontainers') + os.sep)

SortedList = sortedcontainers.SortedList
SortedKeyList = sortedcontainers.SortedKeyList
SortedDict = sortedcontainers.SortedDict
SortedSet = sortedcontainers.SortedSet

MODULES = [m for name, m in sorted(sys.modules.items())
           if name.split('.')[0] == 'sortedcontainers']


class Absent:
    def __repr__(self):
        return 'ABSENT'


ABSENT = Absent()


class SubList(SortedList):
    """Plain user subclass with its own load factor."""
    DEFAULT_LOAD_FACTOR = 5


class SubKeyList(SortedKeyList):
    DEFAULT_LOAD_FACTOR = 6


class SubDict(SortedDict):
    """User subclass with an answer for keys it does not have."""

    def __missing__(self, key):
        return ABSENT


class SubSet(SortedSet):
    pass


SUBCLASSES = (SubList, SubKeyList, SubDict, SubSet)

# SortedDict.iloc warns that it is deprecated
warnings.filterwarnings('ignore', category=DeprecationWarning)


class Baseline:
    """Whatever the library keeps outside its containers, as it was when it
    had just been imported, so that no run can see what another one did."""

    KEEP = {'__dict__', '__weakref__', '__doc__', '_abc_impl', '__abstractmethods__',
            '__builtins__', '__annotations__', '__slots__', '__module__', '__name__',
            '__parameters__', '__static_attributes__', '__firstlineno__'}

    def __init__(self):
        self.owners = []        # module or class, its attributes
        self.filled = []        # list, dict, set, ...: its contents
        self.clear = []
        self.seen = set()
        for m in MODULES:
            self.owner(m)
        for c in SUBCLASSES:
            self.owner(c)
        del self.seen

    def own(self, x):
        return str(getattr(x, '__module__', '')).split('.')[0] == 'sortedcontainers'

    def owner(self, x):
        if id(x) in self.seen:
            return
        self.seen.add(id(x))
        mine = {n: v for n, v in vars(x).items() if n not in self.KEEP}
        self.owners.append((x, mine))
        for v in mine.values():
            self.visit(v)

    def visit(self, x):
        if isinstance(x, type):
            if self.own(x):
                self.owner(x)
            return
        if id(x) in self.seen or isinstance(x, types.ModuleType):
            return
        self.seen.add(id(x))
        if hasattr(x, 'cache_clear'):
            self.clear.append(x.cache_clear)
        if isinstance(x, (list, dict, set, deque, bytearray)):
            self.filled.append((x, copy.copy(x)))
            for v in (list(x) + list(x.values()) if isinstance(x, dict) else x):
                self.visit(v)
        elif isinstance(x, (tuple, frozenset)):
            for v in x:
                self.visit(v)
        elif isinstance(x, (classmethod, staticmethod)):
            self.visit(x.__func__)
        elif isinstance(x, property):
            for v in (x.fget, x.fset, x.fdel):
                self.visit(v)
        elif isinstance(x, types.FunctionType):
            if x.__globals__.get('__name__', '').split('.')[0] != 'sortedcontainers':
                return
            self.visit(x.__defaults__)
            self.visit(x.__kwdefaults__)
            self.visit(x.__dict__)
            for cell in x.__closure__ or ():
                try:
                    self.visit(cell.cell_contents)
                except ValueError:
                    pass
        elif self.own(type(x)) and hasattr(x, '__dict__'):
            self.visit(x.__dict__)

    def restore(self):
        for x, mine in self.owners:
            now = vars(x)
            for n in [n for n in now if n not in mine and n not in self.KEEP]:
                delattr(x, n)
            for n, v in mine.items():
                if now.get(n, self) is not v:
                    setattr(x, n, v)
        for x, was in self.filled:
            if isinstance(x, (dict, set)):
                x.clear()
                x.update(was)
            elif isinstance(x, deque):
                x.clear()
                x.extend(was)
            else:
                x[:] = was
        for f in self.clear:
            f()


BASELINE = Baseline()
