"""Concurrent clients: real threads, released one at a time.

Every bytecode of library code and every callback is a point where the
scheduler may hand over to another thread.  Who runs is decided only by the
step's schedule, a list of [thread, number of points] (0: until the thread's
current operation ends); afterwards the threads run to completion in order.
"""
import sys
import threading

from .exec import LIBDIRS, SPECIAL, Outcome, borrows, has_bad
from .model import Expect
from .ops import OPS
from .seam import EXC, SEAM, SimHang
from .world import NoOp, Violation

POINT_CAP = 2000000    # points of one phase, and more for every element


class Scheduler:
    def __init__(self, jobs, sched, cap=POINT_CAP, faults=()):
        self.cap = cap
        self.faults = {f['t']: dict(f) for f in faults}
        self.fired = {}
        self.n = len(jobs)
        self.jobs = jobs
        self.sched = list(sched)
        self.i = 0
        self.gates = [threading.Lock() for _ in jobs]
        for g in self.gates:
            g.acquire()
        self.main = threading.Lock()
        self.main.acquire()
        self.alive = [True] * self.n
        self.results = [[] for _ in jobs]
        self.me = None
        self.left = 0
        self.points = 0
        self.switches = 0
        self.hung = False
        self.whole = False
        self.trail = 0
        self.firstleft = -1     # >= 0: thread 0 ended before its first hand-over

    def pick(self):
        """Next thread and its quantum."""
        while self.i < len(self.sched):
            t, q = self.sched[self.i]
            self.i += 1
            t %= self.n
            if self.alive[t]:
                self.whole = q == 0
                return t, q if q > 0 else 1 << 60
        self.whole = False
        for t in range(self.n):
            if self.alive[t]:
                return t, 1 << 60
        return None, 0

    def point(self, kind=None):
        if self.me is None:
            return
        self.points += 1
        if self.points > self.cap:
            self.hung = True
            raise SimHang('too many steps')
        self.left -= 1
        if self.left > 0:
            return
        me = self.me
        nxt, q = self.pick()
        self.left = q
        if nxt == me:
            return
        self.switches += 1
        self.trail = (self.trail * 31 + self.points * 7 + nxt) & 0xffffffff
        self.me = nxt
        self.gates[nxt].release()
        self.gates[me].acquire()

    def callback(self, kind):
        me = self.me
        self.point(kind)
        f = self.faults.get(me)
        if f and kind in f['kinds']:
            f['at'] -= 1
            if f['at'] == 0:
                self.fired[me] = EXC[f['exc']]('injected in %s' % kind)
                raise self.fired[me]

    def glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIBDIRS):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'opcode':
            self.point()
        return self.local

    def body(self, t):
        self.gates[t].acquire()
        sys.settrace(self.glob)
        try:
            for thunk in self.jobs[t]:
                out = Outcome()
                try:
                    out.value = thunk()
                except BaseException as e:
                    out.exc = e
                    e.__traceback__ = None
                self.results[t].append(out)
                if self.hung or t in self.fired:
                    break
                if self.whole and len(self.results[t]) < len(self.jobs[t]):
                    self.left = 1
                    self.point()
        finally:
            sys.settrace(None)
            self.alive[t] = False
            if t == 0 and self.switches == 0:
                self.firstleft = self.left
            nxt, self.left = self.pick()
            self.me = nxt
            if nxt is None:
                self.main.release()
            else:
                self.gates[nxt].release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(t,), daemon=True)
                   for t in range(self.n)]
        for t in threads:
            t.start()
        SEAM.preempt = self.callback
        try:
            self.me, self.left = self.pick()
            self.gates[self.me].release()
            self.main.acquire()
        finally:
            SEAM.preempt = None
            self.me = None
        for t in threads:
            t.join()


def readers(w, st):
    """Special step: several threads read while nobody modifies.

    With 'sweep', the same jobs run again and again, the first thread handed
    over one point (or a stride) later every time, and optionally the lazily
    built state is dropped in between by setting the load factor once more.
    """
    sw = st.get('sweep')
    if sw is None:
        phase(w, st, st['sched'], True)
        return
    k = sw['from']
    for n in range(sw['max']):
        if sw.get('drop'):
            for o in w.slots:
                o.real._reset(sw['drop'])
        sch = phase(w, st, [[0, k]] + [[t, 1 << 40] for t in range(1, len(st['threads']))],
                    False)
        if sch.switches == 0 or sch.firstleft >= 0:
            w.note('reader_sweep_complete')
            break
        k += sw['stride']
    for o in w.slots:
        w.deep(o, w.cur + ' (afterwards)')


def phase(w, st, sched, deep):
    where = w.cur
    jobs = []
    plan = []
    for ops in st['threads']:
        job, exp = [], []
        for s, name, a in ops:
            o = w.slots[s % len(w.slots)]
            spec = OPS.get((o.kind, name))
            if spec is None or spec.cat not in 'rc':
                continue
            try:
                prep = spec.prep(w, o, a)
            except NoOp:
                continue
            expect = mres = None
            try:
                mres = prep[1](o.model.clone())
            except Expect as e:
                expect = e.types
            job.append(prep[0])
            exp.append((o, name, prep, expect, mres))
        if job:
            jobs.append(job)
            plan.append(exp)
    if not jobs:
        raise NoOp
    sch = Scheduler(jobs, sched, POINT_CAP + 5000 * sum(
        len(o.model.items) for o in w.slots))
    sch.run()
    w.note('threads', len(jobs))
    w.note('preemptions', sch.switches)
    w.note('points', sch.points)
    w.note('phases')
    w.trails.add(sch.trail)
    if sch.hung:
        raise Violation('hang', '%s: readers did not finish' % where)
    for t, (outs, exp) in enumerate(zip(sch.results, plan)):
        for out, (o, name, prep, expect, mres) in zip(outs, exp):
            ww = '%s thread %d %s' % (where, t, name)
            w.note('thread_read')
            if out.exc is not None:
                w.judge_exception(out.exc, expect, ww)
            elif expect is not None:
                raise Violation('noraise', '%s: returned %s' % (ww, w.show(out.value)))
            else:
                w.judge_result(o, prep[2], out.value, mres, o.model, ww, keep=False)
            w.emit(ww, type(out.exc).__name__ if out.exc is not None
                   else w.logged(out.value))
            if len(prep) > 3 and prep[3]:
                prep[3](ww)
    w.emit(where, sch.points, sch.switches, sch.trail)
    w.verify_all(where)
    if deep:
        for o in w.slots:
            w.deep(o, where + ' (afterwards)')
    return sch


def refers(a):
    """... or an iterator over the container itself, which goes stale?"""
    if isinstance(a, dict):
        return a.get('t', '').endswith('self') or any(refers(x) for x in a.values())
    return isinstance(a, (list, tuple)) and any(refers(x) for x in a)


def parallel(w, st):
    """Special step: several threads, each working on a container of its own.

    With 'sweep' the first thread is handed over one point (or a stride) later
    every time, while the containers go on from where they were.
    """
    sw = st.get('sweep')
    if sw is None:
        apart(w, st, st['sched'])
        return
    k = sw['from']
    for _ in range(sw['max']):
        sch = apart(w, st, [[0, k]] + [[t, 1 << 40] for t in range(1, len(st['threads']))])
        if sch.switches == 0 or sch.firstleft >= 0:
            w.note('parallel_sweep_complete')
            break
        k += sw['stride']


def apart(w, st, sched):
    where = w.cur
    jobs, plan, used, faults = [], [], [], []
    for n, (s, kind, ops) in enumerate(st['threads']):
        o = w.slots[s % len(w.slots)]
        if o.kind != kind or any(o is p for p in used):
            continue
        job, exp = [], []
        start = o.model
        for name, a in ops:
            spec = OPS.get((o.kind, name))
            if spec is None or borrows(a) or has_bad(a) or w.large(o, spec) or (
                    o.model is not start and (refers(a) or not w.settled(o))):
                continue
            try:
                prep = spec.prep(w, o, a)
            except NoOp:
                continue
            if prep[2] == 'partial':
                continue
            post = o.model.clone()
            expect = mres = None
            try:
                mres = prep[1](post)
            except Expect as e:
                expect = e.types
            job.append(prep[0])
            exp.append((name, prep, expect, mres, o.model, post, spec))
            if expect is None and spec.cat not in 'rc':
                o.model = post
            if spec.cat not in 'rc':
                o.version += 1
        if job:
            used.append(o)
            faults += [dict(f, t=len(jobs)) for f in st.get('faults', ()) if f['t'] == n]
            jobs.append(job)
            plan.append((o, exp, o.model))
        o.model = start
    if len(jobs) < 2:
        raise NoOp
    sch = Scheduler(jobs, sched, POINT_CAP + 5000 * sum(
        len(o.model.items) for o in w.slots), faults)
    sch.run()
    w.note('threads', len(jobs))
    w.note('preemptions', sch.switches)
    w.note('points', sch.points)
    w.note('parallel')
    w.trails.add(sch.trail)
    if sch.hung:
        raise Violation('hang', '%s: clients did not finish' % where)
    for t, (outs, (o, exp, final)) in enumerate(zip(sch.results, plan)):
        for out, (name, prep, expect, mres, pre, post, spec) in zip(outs, exp):
            ww = '%s thread %d %s' % (where, t, name)
            w.note('parallel_op')
            if t in sch.fired and out is outs[-1]:
                if out.exc is not sch.fired[t]:
                    raise Violation('swallowed', '%s: injected %r became %r' % (
                        ww, sch.fired[t], out.exc))
                w.note('fired_raise')
                w.note('parallel_raise')
                w.after_abort(o, pre, post if spec.cat not in 'rc' else pre, spec, ww)
                final = o.model
            elif out.exc is not None:
                w.judge_exception(out.exc, expect, ww)
            elif expect is not None:
                raise Violation('noraise', '%s: returned %s' % (ww, w.show(out.value)))
            else:
                w.judge_result(o, prep[2], out.value, mres, pre, ww, keep=False)
            w.emit(ww, type(out.exc).__name__ if out.exc is not None
                   else w.logged(out.value))
        o.model = final
    w.emit(where, sch.points, sch.switches, sch.trail)
    w.verify_all(where)
    if st.get('deep'):
        for o in w.slots:
            w.deep(o, where + ' (afterwards)')
    for _, exp, _ in plan:
        for name, prep, *_ in exp:
            if len(prep) > 3 and prep[3]:
                prep[3](where + ' ' + name)
    return sch


SPECIAL['readers'] = readers
SPECIAL['parallel'] = parallel
