"""Execution of steps: one operation of one client against the real container
and its model, with the fault the schedule asks for, and all oracles."""
import signal
import sys
import tracemalloc

from . import bounds, holds, lib
from .model import Expect, Model
from .ops import OPS, open_iter
from .seam import EXC, SEAM, TICK_CAP, SimHang
from .world import NoOp, Obj, Violation, World

LIBDIRS = lib.LIBDIRS
STEP_CPU = 40


def on_alarm(signum, frame):
    raise SimHang('CPU budget')


signal.signal(signal.SIGVTALRM, on_alarm)


def prime_tracing():
    """CPython 3.12 turns opcode events on for the whole interpreter when some
    frame first asks for them, and only at the next settrace: do that now, so
    that the first traced operation of a process is like every other."""
    old = sys.gettrace()
    sys._getframe().f_trace_opcodes = True
    sys.settrace(lambda *a: None)
    sys.settrace(old)


prime_tracing()
MISSING = object()

# operations that take an unorderable ("bad") value and must be rejected
POISON_OPS = {
    ('L', 'add'), ('L', 'update'), ('L', 'iadd'), ('L', 'plus'), ('L', 'discard'),
    ('L', 'remove'), ('K', 'add'), ('K', 'update'), ('K', 'iadd'), ('K', 'plus'),
    ('K', 'discard'), ('K', 'remove'), ('S', 'add'), ('S', 'update'), ('S', 'ior'),
    ('S', 'union'), ('S', 'or'), ('S', 'symmetric_difference_update'),
    ('S', 'symmetric_difference'), ('S', 'xor'), ('S', 'ixor'),
    ('D', 'setitem'), ('D', 'setdefault'), ('D', 'dupdate'), ('D', 'dior'), ('D', 'dor'),
}


def has_bad(a):
    if isinstance(a, dict):
        return any(has_bad(x) for x in a.values())
    if isinstance(a, (list, tuple)):
        if a and a[0] == 'bad':
            return True
        return any(has_bad(x) for x in a)
    return False


def borrows(a):
    """Does an argument involve another container of the simulation?"""
    if isinstance(a, dict):
        return a.get('t') == 'obj' or any(borrows(x) for x in a.values())
    return isinstance(a, (list, tuple)) and ('obj' in a or 'obj-any' in a or 'obj-keys' in a
                                            or any(borrows(x) for x in a))


class Outcome:
    __slots__ = ('value', 'exc')

    def __init__(self, value=MISSING, exc=None):
        self.value = value
        self.exc = exc


class OpcodeTracer:
    """Calls ``at_opcode`` before every bytecode of library code."""

    def __init__(self, at_opcode):
        self.at_opcode = at_opcode

    def glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIBDIRS):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'opcode':
            self.at_opcode(frame)
        return self.local


class Sim(World):
    """A World that executes steps."""

    def __init__(self, cfg):
        self.lines = 0
        self.linecap = 2000000
        lib.BASELINE.restore()
        if cfg.get('bounds'):
            bounds.install(self)
            bounds.warm(lib)
        World.__init__(self, cfg)
        self.nsteps = 0
        self.pending = None
        self.busy = None       # its operation is under way
        self.cur = None

    # -- one step ----------------------------------------------------------
    def run(self, steps):
        for st in steps:
            self.step(st)

    def step(self, st):
        self.nsteps += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, STEP_CPU)
        try:
            self.step1(st)
        except SimHang:
            raise Violation('hang', '%s: not finished after %d s of CPU time or %d steps' % (
                self.cur, STEP_CPU, TICK_CAP)) from None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def step1(self, st):
        self.cur = '%s#%d %s' % (st.get('c', '-'), self.nsteps, st['op'])
        name = st['op']
        try:
            if name in SPECIAL:
                SPECIAL[name](self, st)
            else:
                f = st.get('f')
                if f is None:
                    self.do(st, None)
                elif f['act'] == 'sweep':
                    self.sweep(st, f)
                else:
                    self.do(st, f)
        except NoOp:
            self.note('noop')

    def sweep(self, st, f):
        """Retry the operation with the fault at its 1st, 2nd, ... chance
        until it completes."""
        inner = {k: v for k, v in f.items() if k != 'of' and k != 'max'}
        inner['act'] = f['of']
        at = f.get('from', 1)
        stride = f.get('stride', 1)
        for _ in range(f.get('max', 40)):
            inner['at'] = at
            inner['ats'] = (at,)
            if 'drop' in f:
                self.target(st).real._reset(f['drop'])
            fired = None
            for e in f.get('exc', 'E'):
                inner['exc'] = e
                fired = self.do(st, inner)
                if not fired:
                    break
            if not fired:
                self.note('sweep_complete')
                break
            at += stride
        else:
            self.note('sweep_cut')
        if f.get('quiet'):
            self.verify_all(self.cur)
            self.deep(self.target(st), self.cur + ' (afterwards)')
            self.note('deep')

    def finish(self):
        """Faults have stopped: every container is complete and usable."""
        self.cur = 'end'
        for o in self.slots:
            self.deep(o, 'end of run')
            self.self_check(o, 'end of run')
            if self.held:
                holds.check(self, o, 'end of run')
        if self.held:
            holds.check_library(self, 'end of run')

    def target(self, st):
        if not self.slots:
            raise NoOp
        return self.slots[st['s'] % len(self.slots)]

    def do(self, st, f):
        """Run one operation under at most one fault; True if it fired."""
        o = self.target(st)
        spec = OPS.get((o.kind, st['op']))
        if spec is None:
            raise NoOp
        a = st['a']
        where = self.cur
        bad = has_bad(a)
        if bad and (not o.model.items or (o.kind, st['op']) not in POISON_OPS):
            raise NoOp
        pre = o.model
        prep = spec.prep(self, o, a)
        thunk, mfn, rk = prep[:3]
        chk = prep[3] if len(prep) > 3 else None
        post = pre.clone()
        expect = None
        mres = None
        if bad and spec.cat == '1':
            expect = (TypeError,)
        else:
            try:
                mres = mfn(post)
            except Expect as e:
                expect = e.types
            if bad:
                if not (mres.items if isinstance(mres, Model) else post.items):
                    raise NoOp  # alone in the result: never compared
                expect = (TypeError,)
        if spec.cat in 'rc':
            final = pre
        else:
            final = post
            o.version += 1
        if self.bounds:
            self.indexed = bounds.indexed(o)
            self.linecap = max(2000000, 2 * bounds.bulk(self, o, spec.name, a, pre, final))
            if not f and bounds.traced(o, spec):
                inside = thunk

                def thunk():
                    tracemalloc.start()
                    try:
                        return inside()
                    finally:
                        self.peak = tracemalloc.get_traced_memory()[1]
                        tracemalloc.stop()
        self.peak = 0
        if f and f['act'] == 'other' and borrows(a):
            f = None
        out, fired = self.execute(thunk, f, o, pre, final, spec)
        if self.pending is not None:
            p, self.pending = self.pending, None
            raise p
        exc = out.exc
        if isinstance(exc, Violation):
            raise exc
        if isinstance(exc, SimHang):
            raise Violation('hang', '%s: did not finish within its step budget' % where)
        self.note('op')
        if self.bounds:
            if self.peak and not f:
                bounds.check_removal(self, o, where, self.peak)
            bounds.check(self, o, spec, a, pre, final, where, thunk)
        aborted = False
        if fired:
            self.note('fired_' + fired)
        if fired in ('raise', 'intr'):
            self.note('exc_' + type(SEAM.fired).__name__)
        if fired == 'raise':
            if exc is None:
                raise Violation('swallowed', '%s: injected %r was swallowed' % (
                    where, SEAM.fired))
            if exc is not SEAM.fired:
                raise Violation('replaced', '%s: injected %r became %r' % (
                    where, SEAM.fired, exc))
            aborted = True
        elif fired == 'intr' and exc is not None:
            aborted = exc is SEAM.fired
        if aborted and f.get('quiet'):
            # one of a dense series: the last attempt and the full comparison
            # after it judge what all of them left behind
            self.emit(self.cur, fired, type(exc).__name__)
            if self.held:
                o.model = pre
                self.after_abort(o, pre, final, spec, where)
                self.check_held(o, where)
            return fired
        if aborted:
            self.after_abort(o, pre, final, spec, where)
        elif exc is not None:
            self.judge_exception(exc, expect, where)
            self.note('rejected')
            if bad:
                self.note('poison')
            if bad or rk == 'partial':
                self.after_abort(o, pre, final, spec, where)
            # otherwise the model left its contents as they were
        elif expect is not None:
            raise Violation('noraise', '%s: returned %s, expected %s' % (
                where, self.show(out.value), '/'.join(t.__name__ for t in expect)))
        else:
            if final is not pre:
                o.model = final
            self.judge_result(o, rk, out.value, mres, pre, where)
        self.emit(self.cur, fired, type(exc).__name__ if exc is not None
                  else self.logged(out.value))
        self.shape(o)
        # oracles over the whole world
        self.verify_all(where)
        if chk is not None:
            chk(where)
        self.check_held(o, where)
        if self.deepfaults and (aborted or fired or bad or rk == 'partial'
                                or self.cfg.get('deepalways')):
            self.deep(o, where + ' (afterwards)')
            self.note('deep')
        if self.selfcheck and self.busy is None:
            for p in self.slots:
                self.self_check(p, where)
                self.note('self_check')
        return fired

    def check_held(self, o, where):
        if self.held and self.busy is None:
            for p in {id(p): p for p in (o, self.slots[-1])}.values():
                holds.check(self, p, where)
            holds.check_library(self, where)

    def shape(self, o):
        """Measure of reach only; nothing is judged by it."""
        try:
            x = o.real if o.kind in 'LK' else o.real._list
            self.shapes.add(hash((ord(o.kind), bool(x._index)) + tuple(
                map(len, x._lists))) & 0xffffffffff)
        except AttributeError:
            pass

    def logged(self, x):
        return self.show_toks(x) if self.cfg.get('toklog') else self.show(x)

    # -- running the real code ----------------------------------------------
    def execute(self, thunk, f, o, pre, post, spec):
        act = f['act'] if f else None
        fired = None
        out = Outcome()
        SEAM.fired = None
        if act in (None, 'raise', 'read', 'other'):
            self.lines = 0
            old = sys.gettrace()
            if self.bounds:
                self.budget = 0
                sys.settrace(self.line_glob)
            if act is None:
                SEAM.arm()
            elif act == 'raise':
                def action(kind, f=f):
                    SEAM.fired = EXC[f['exc']]('injected in %s' % kind)
                    raise SEAM.fired
                SEAM.arm(f['kinds'], (f['at'],), action)
            elif act == 'other':
                def action(kind):
                    self.elsewhere(f, o)
                SEAM.arm(f['kinds'], f['ats'], action)
            else:
                def action(kind):
                    self.nested(f, o, pre, post)
                SEAM.arm(f['kinds'], f['ats'], action)
            try:
                out.value = thunk()
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                out.exc = e
                e.__traceback__ = None
            if self.bounds:
                sys.settrace(old)
            if SEAM.nfired:
                fired = act
            self.note('ticks', SEAM.n)
            self.lastcounts = dict(SEAM.counts)
            SEAM.disarm()
            return out, fired
        if act == 'intr':
            left = [f['at']]

            def at_opcode(frame):
                left[0] -= 1
                if left[0] == 0:
                    SEAM.fired = EXC[f.get('exc', 'B')]('cut off here')
                    sys.settrace(None)
                    raise SEAM.fired
            tracer = OpcodeTracer(at_opcode)
            SEAM.arm()
            old = sys.gettrace()
            try:
                sys.settrace(tracer.glob)
                try:
                    out.value = thunk()
                finally:
                    sys.settrace(old)
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                out.exc = e
                e.__traceback__ = None
            SEAM.disarm()
            return out, ('intr' if SEAM.fired is not None else None)
        raise KeyError(act)

    def count_lines(self, thunk):
        saved, self.lines = self.lines, 0
        old = sys.gettrace()
        sys.settrace(self.line_glob)
        try:
            thunk()
        except SimHang:
            raise Violation('hang', '%s: did not finish within its step budget' % self.cur)
        finally:
            sys.settrace(old)
            got, self.lines = self.lines, saved
        return got

    def line_glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIBDIRS):
            return None
        return self.line_local

    def line_local(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.lines > self.linecap:
                raise SimHang('line budget')
        return self.line_local

    def nested(self, f, o, pre, post):
        """A read runs inside a callback (or on a thread let in there)."""
        if self.pending is not None:
            return
        saved = SEAM.__dict__.copy()
        SEAM.disarm()
        SEAM.n = 0
        try:
            self.whole(o, pre, post, f)
        except Violation as v:
            v.args = (v.cls, v.msg)
            self.pending = v
        finally:
            nf = SEAM.nfired
            SEAM.__dict__.update(saved)
            SEAM.nfired = max(nf, saved['nfired'])

    def elsewhere(self, f, o):
        """Inside a callback of an operation on one container, the caller's
        code works on other containers."""
        if self.pending is not None or self.busy is not None:
            return
        saved = SEAM.__dict__.copy()
        cur = self.cur
        SEAM.disarm()
        self.busy = o
        try:
            for n, st in enumerate(f['steps']):
                self.cur = '%s (inside callback %d: %d %s)' % (
                    cur, saved['k'], n, st['op'])
                p = self.target(st)
                spec = OPS.get((p.kind, st['op']))
                if p is o or p.kind != st['k'] or spec is None or self.large(p, spec):
                    continue
                try:
                    self.do(st, None)
                    self.note('elsewhere')
                except NoOp:
                    pass
        except SimHang:
            self.pending = Violation('hang', '%s: did not finish' % self.cur)
        except BaseException as e:
            self.pending = e
        finally:
            self.cur = cur
            self.busy = None
            SEAM.__dict__.update(saved)

    def whole(self, o, pre, post, f):
        where = self.cur + ' (inside callback %d)' % SEAM.k
        tmp = Obj(o.kind, o.real, pre.clone(), o.sub)
        try:
            act = list(o.real)
            n = len(o.real)
        except Exception as e:
            raise Violation('unusable:' + o.kind, '%s: reading raised %r' % (where, e))
        if n != len(act):
            raise Violation('torn:' + o.kind, '%s: len %d but %d elements' % (
                where, n, len(act)))
        self.adopt_between(tmp, act, pre, post, where)
        self.note('nested')
        here = [i for i, x in enumerate(self.slots) if x is o]
        for i in here:
            self.slots[i] = tmp
        try:
            self.nested_reads(o, tmp, f, where)
        finally:
            for i in here:
                self.slots[i] = o

    def nested_reads(self, o, tmp, f, where):
        for name, a in f['reads']:
            spec = OPS.get((o.kind, name))
            if spec is None or spec.cat not in 'rc':
                continue
            try:
                prep = spec.prep(self, tmp, a)
            except NoOp:
                continue
            expect = mres = None
            try:
                mres = prep[1](tmp.model.clone())
            except Expect as e:
                expect = e.types
            w = '%s: nested %s' % (where, name)
            try:
                got = prep[0]()
            except Exception as e:
                self.judge_exception(e, expect, w)
                continue
            if expect is not None:
                raise Violation('noraise', '%s: returned %s' % (w, self.show(got)))
            self.judge_result(tmp, prep[2], got, mres, tmp.model, w, keep=False)
            self.note('nested_read')

    # -- oracles -----------------------------------------------------------
    def judge_exception(self, exc, expect, where):
        if expect is None:
            raise Violation('raised', '%s: raised %s: %s' % (
                where, type(exc).__name__, self.text(exc)))
        if not isinstance(exc, expect):
            raise Violation('raised', '%s: raised %s: %s, expected %s' % (
                where, type(exc).__name__, self.text(exc),
                '/'.join(t.__name__ for t in expect)))

    @staticmethod
    def text(exc):
        try:
            return str(exc)[:300]
        except BaseException:
            return '?'

    def after_abort(self, o, pre, post, spec, where):
        """Contents after an operation that did not complete."""
        where += ' (aborted)'
        o.model = pre
        if spec.cat in 'rc1' or post is pre:
            self.verify(o, where)
            return
        try:
            act = list(o.real)
            n = len(o.real)
        except Exception as e:
            raise Violation('unusable:' + o.kind, '%s: reading raised %r' % (where, e))
        if n != len(act):
            raise Violation('torn:' + o.kind, '%s: len %d but %d elements' % (
                where, n, len(act)))
        o.model = pre.clone()
        self.adopt_between(o, act, pre, post, where)

    def adopt_between(self, o, act, pre, post, where):
        """Every element is as before or as the completed operation leaves
        it; then the model takes over the actual contents."""
        m = o.model
        self.verify_sorted(o, act, where)
        if o.kind in 'LK':
            a, b, c = count_ids(act), count_ids(pre.items), count_ids(post.items)
            for i in set(a) | set(b) | set(c):
                x, y, z = a.get(i, 0), b.get(i, 0), c.get(i, 0)
                if not min(y, z) <= x <= max(y, z):
                    v = next(v for v in act + pre.items + post.items if id(v) == i)
                    raise Violation('between:' + o.kind, (
                        '%s: %s present %d times, before %d, when complete %d;'
                        ' contents %s') % (where, self.show(v), x, y, z, self.brief(act)))
            keep = {i for i in a if a[i] == 1 and b.get(i) == 1 and c.get(i) == 1}
            if [id(v) for v in act if id(v) in keep] != [
                    id(v) for v in pre.items if id(v) in keep]:
                raise Violation('order:' + o.kind, '%s: surviving values reordered: %s' % (
                    where, self.brief(act)))
            m.items = act
            return
        self.verify_hashed(o, act, where)
        tok = self.dom.tok
        p = {tok(v) for v in pre.items}
        q = {tok(v) for v in post.items}
        x = {tok(v) for v in act}
        if not (p & q <= x <= p | q):
            raise Violation('between:' + o.kind, '%s: contents %s, before %s, when complete %s'
                            % (where, self.brief(act), self.brief(pre.items),
                               self.brief(post.items)))
        m.items = act
        if o.kind == 'D':
            new = {}
            for k in act:
                t = tok(k)
                v = dict.__getitem__(o.real, k)
                if not ((t in pre.map and v is pre.map[t])
                        or (t in post.map and v is post.map[t])):
                    raise Violation('value:D', '%s: key %s has value %s' % (
                        where, self.show(k), self.show(v)))
                new[t] = v
            m.map = new

    def same(self, x, y):
        if x is y:
            return True
        if isinstance(x, (bool, int, float, str, type(None))) or x.__class__ is tuple:
            return type(x) is type(y) and x == y
        return x.__class__.__name__ == 'Fraction' and type(x) is type(y) and x == y

    def esame(self, x, y):
        if x.__class__ is tuple and y.__class__ is tuple and len(x) == len(y) and len(x) == 2:
            return all(self.same(p, q) for p, q in zip(x, y))
        return self.same(x, y)

    def judge_result(self, o, rk, got, exp, pre, where, keep=True):
        if rk == 'partial':
            raise Violation('noraise', '%s: returned %s' % (where, self.show(got)))
        if rk == 'self':
            if got is not o.real:
                raise Violation('result', '%s: returned %s, expected the container itself'
                                % (where, self.show(got)))
            return
        if rk == 'same':
            if type(exp) is bool and got.__class__ is not bool:
                ok = False
            else:
                ok = self.same(got, exp)
        elif rk == 'list':
            ok = type(got) is list and len(got) == len(exp) and all(
                self.same(x, y) for x, y in zip(got, exp))
        elif rk == 'elist':
            ok = type(got) is list and len(got) == len(exp) and all(
                self.esame(x, y) for x, y in zip(got, exp))
        elif rk == 'tuple':
            ok = type(got) is tuple and len(got) == len(exp) and all(
                self.same(x, y) for x, y in zip(got, exp))
        elif rk == 'esame':
            ok = self.esame(got, exp)
        elif rk == 'eq':
            ok = got == exp
        elif rk in ('new', 'newm'):
            m = exp
            if keep:
                self.adopt(o, m, got, where)
            else:
                n = Obj(m.kind, got, m, o.sub)
                self.verify(n, where)
            return
        elif rk == 'clone':
            n = self.rebind(o, got, exp, where)
            if keep:
                self.cloned = True
                self.adopt(o, n.model, got, where)
            return
        else:
            raise KeyError(rk)
        if not ok:
            raise Violation('result', '%s: returned %s, expected %s' % (
                where, self.shorten(got), self.shorten(exp)))
        if keep and rk in ('list', 'elist') and got:
            # the list belongs to the client now; what it does with it is
            # its own business and must not show in any container
            got.reverse()
            got.pop()

    def shorten(self, x):
        t = repr(self.show(x)) if not isinstance(x, str) else x
        return t if len(t) < 500 else t[:500] + '...'

    def rebind(self, o, real, m, where):
        """Model of a restored container, sharing the restored objects."""
        if type(real) is not type(o.real):
            raise Violation('class', '%s: restored a %s from a %s' % (
                where, type(real).__name__, type(o.real).__name__))
        try:
            act = list(real)
        except Exception as e:
            raise Violation('unusable:' + o.kind, '%s: reading raised %r' % (where, e))
        specs = [self.dom.spec(v) for v in act]
        want = [self.dom.spec(v) for v in m.items]
        sks = o.kind in 'SD' and m.has_ties()
        if (sorted(specs) != sorted(want)) if sks else specs != want:
            raise Violation('contents:' + o.kind, '%s: restored %s from %s' % (
                where, self.brief(act), self.brief(m.items)))
        n = m.clone()
        n.items = act
        self.verify_key(real, m, where)
        n.key = real.key
        if o.kind == 'D':
            tok = self.dom.tok
            n.map = {}
            for v in act:
                got = dict.__getitem__(real, v)
                if self.show(got) != self.show(m.map[tok(v)]):
                    raise Violation('value:D', '%s: key %s restored with %s, was %s' % (
                        where, self.show(v), self.show(got), self.show(m.map[tok(v)])))
                n.map[tok(v)] = got
        return Obj(o.kind, real, n, o.sub)

    # -- held iterators ------------------------------------------------------
    def it_open(self, st):
        o = self.target(st)
        opener, model = open_iter(self, o, st['a'])
        exp = model(o.model)
        got = []
        lines = 0
        SEAM.arm()
        try:
            if self.bounds:
                lines = self.count_lines(lambda: got.append(opener()))
            else:
                got.append(opener())
        except Violation:
            raise
        except Exception as e:
            raise Violation('raised', '%s: raised %r' % (self.cur, e))
        finally:
            counts = dict(SEAM.counts)
            SEAM.disarm()
        it = got[0]
        if self.bounds:
            bounds.check_open(self, o, st['a'], counts, lines)
        self.iters[st['i']] = [o, o.version, it, exp, 0]
        self.note('it_open')
        self.verify_all(self.cur)

    def it_next(self, st):
        rec = self.iters.get(st['i'])
        if rec is None:
            raise NoOp
        o, version, it, exp, pos = rec
        stale = version != o.version
        if self.bounds and not stale:
            bounds.check_next(self, it, exp, rec)
            return
        for _ in range(st['n']):
            try:
                x = next(it)
                end = False
            except StopIteration:
                end = True
            except Exception as e:
                if stale:
                    self.note('it_stale_raised')
                    break
                raise Violation('raised', '%s: advancing raised %r' % (self.cur, e))
            if stale:
                self.note('it_stale')
                if end:
                    break
                continue
            self.note('it_next')
            if end:
                if pos != len(exp):
                    raise Violation('iterator', '%s: ended after %d of %d elements' % (
                        self.cur, pos, len(exp)))
                self.note('it_end')
                break
            if pos >= len(exp) or not self.esame(x, exp[pos]):
                raise Violation('iterator', '%s: element %d is %s, expected %s' % (
                    self.cur, pos, self.shorten(x),
                    self.shorten(exp[pos]) if pos < len(exp) else 'the end'))
            pos += 1
        rec[4] = pos
        self.emit(self.cur, pos)
        self.verify_all(self.cur)

    def it_close(self, st):
        if self.iters.pop(st['i'], None) is None:
            raise NoOp
        self.note('it_close')
        self.verify_all(self.cur)


    def own(self, st):
        """A client changes a collection of its own that it lent earlier."""
        if not self.lent:
            raise NoOp
        entry = self.lent[st['n'] % len(self.lent)]
        c = entry[0]
        x = self.val(st['v'])
        if isinstance(c, tuple) or isinstance(c, frozenset):
            raise NoOp
        if st['how'] == 'clear':
            c.clear()
        elif isinstance(c, list):
            c.reverse()
            pair = bool(c) and type(entry[1][0]) is tuple and self.dom.name != 'tuple'
            c.append((x, None) if pair else x)
        elif isinstance(c, set):
            c.add(x)
        else:
            c[x] = None
        entry[1] = list(c.items() if isinstance(c, dict) else c)
        self.note('own_changes')
        self.verify_all(self.cur)


SPECIAL = {'own': Sim.own, 'it_open': Sim.it_open, 'it_next': Sim.it_next, 'it_close': Sim.it_close}


def count_ids(xs):
    d = {}
    for x in xs:
        d[id(x)] = d.get(id(x), 0) + 1
    return d
