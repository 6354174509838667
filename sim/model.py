"""Reference models: plain lists ordered by a tick-free sort key."""
from bisect import bisect_left, bisect_right


class Expect(Exception):
    """The model's verdict: the operation must raise one of ``types``."""

    def __init__(self, *types):
        self.types = types


class Model:
    """Ordered items (values, members or keys) plus, for dicts, a map."""

    def __init__(self, kind, dom, key=None):
        self.kind = kind          # L K S D
        self.dom = dom
        self.key = key            # KeyFn or None
        self.items = []
        self.map = {} if kind == 'D' else None

    def clone(self):
        m = Model.__new__(Model)
        m.kind = self.kind
        m.dom = self.dom
        m.key = self.key
        m.items = list(self.items)
        m.map = dict(self.map) if self.map is not None else None
        return m

    # -- order ---------------------------------------------------------
    def sk(self, v):
        from .seam import rank
        r = rank(v)
        return self.key.raw(r) if self.key is not None else r

    def left(self, sk):
        return bisect_left(self.items, sk, key=self.sk)

    def right(self, sk):
        return bisect_right(self.items, sk, key=self.sk)

    def has_ties(self):
        sk = self.sk
        ks = [sk(v) for v in self.items]
        return any(a == b for a, b in zip(ks, ks[1:]))

    # -- search --------------------------------------------------------
    def find(self, v):
        """Position of the first equal element or None."""
        k = self.sk(v)
        eq = self.dom.eq
        items = self.items
        for i in range(self.left(k), self.right(k)):
            if eq(items[i], v):
                return i
        return None

    def count(self, v):
        k = self.sk(v)
        eq = self.dom.eq
        items = self.items
        return sum(1 for i in range(self.left(k), self.right(k))
                   if eq(items[i], v))

    def index(self, v, start, stop):
        s, e, _ = slice(start, stop).indices(len(self.items))
        k = self.sk(v)
        eq = self.dom.eq
        for i in range(max(s, self.left(k)), min(e, self.right(k))):
            if eq(self.items[i], v):
                return i
        raise Expect(ValueError)

    def window(self, lo, hi, incl, rev):
        """Values between sort keys lo and hi (None: open end)."""
        n = len(self.items)
        a = 0 if lo is None else (self.left(lo) if incl[0] else self.right(lo))
        b = n if hi is None else (self.right(hi) if incl[1] else self.left(hi))
        out = self.items[a:b] if a < b else []
        if rev:
            out.reverse()
        return out

    # -- change --------------------------------------------------------
    def insert(self, v):
        self.items.insert(self.right(self.sk(v)), v)

    def extend(self, vals):
        self.items = sorted(self.items + list(vals), key=self.sk)

    def pop_at(self, i):
        try:
            return self.items.pop(i)
        except IndexError:
            raise Expect(IndexError)

    # set helpers
    def toks(self):
        return {self.dom.tok(v) for v in self.items}

    def put_new(self, v):
        """Set-like insertion: keep the element already present."""
        if self.find(v) is None:
            self.insert(v)
            return True
        return False

    def put_many(self, vals):
        have = self.toks()
        tok = self.dom.tok
        new = []
        for v in vals:
            t = tok(v)
            if t not in have:
                have.add(t)
                new.append(v)
        if new:
            self.extend(new)

    def keep(self, pred):
        self.items = [v for v in self.items if pred(v)]
