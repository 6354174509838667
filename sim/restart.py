"""Snapshots on a simulated disk, crashes and restarts (property C14)."""
import pickle
import struct
import zlib

from .exec import SPECIAL
from .model import Model
from .seam import SEAM
from .world import NoOp, Obj, Violation


def frame(data):
    return struct.pack('<II', len(data), zlib.crc32(data)) + data


def unframe(blob):
    """The snapshot in a file, or None when it is not complete."""
    if len(blob) < 8:
        return None
    n, crc = struct.unpack('<II', blob[:8])
    data = blob[8:]
    if len(data) != n or zlib.crc32(data) != crc:
        return None
    return data


def model_spec(w, m):
    spec = {'kind': m.kind, 'key': [m.key.name, m.key.boxed] if m.key else None,
            'v': [w.dom.spec(v) for v in m.items]}
    if m.map is not None:
        tok = w.dom.tok
        spec['n'] = [w.show(m.map[tok(v)]) for v in m.items]
    return spec


def snap(w, st):
    data = pickle.dumps([o.real for o in w.slots], st['proto'])
    w.disk.append((frame(data), [(o.kind, o.sub, o.model.clone()) for o in w.slots]))
    w.note('snapshots')
    w.verify_all(w.cur)
    for o in w.slots:
        w.deep(o, w.cur + ' (afterwards)')


def restart(w, st):
    """Crash now; restart from the last complete snapshot."""
    if not w.disk:
        raise NoOp
    torn = st.get('torn')
    if torn is not None:
        # the crash hits while one more snapshot is being written
        data = frame(pickle.dumps([o.real for o in w.slots], st['proto']))
        cut = torn[0] % len(data)
        if torn[1] == 'short':
            data = data[:cut]
        elif torn[1] == 'zeros':
            tail = data[cut:]
            data = data[:cut] + bytes(len(tail))
            if not any(tail):
                data = data[:cut]
        else:
            data = data[:cut] + bytes([data[cut] ^ (1 << torn[2] % 8)]) + data[cut + 1:]
        w.disk.append((data, None))
        w.note('torn_writes')
    while w.disk:
        blob, models = w.disk[-1]
        data = unframe(blob)
        if data is not None and models is not None:
            break
        if data is not None:
            raise RuntimeError('harness: torn snapshot accepted')
        w.disk.pop()
        w.note('torn_skipped')
    if not w.disk:
        raise NoOp
    w.slots = []
    w.iters.clear()
    w.views.clear()
    SEAM.salt = tuple(st['salt'])
    w.dom.cache.clear()
    w.vals.clear()
    revive(w, data, models)
    w.note('restarts')
    w.reboot = (data, [(k, s, model_spec(w, m)) for k, s, m in models],
                w.nsteps, list(st['salt']))


def revive(w, data, models):
    where = w.cur
    try:
        reals = pickle.loads(data)
        w.cloned = True
    except Exception as e:
        raise Violation('restore', '%s: restoring raised %r' % (where, e))
    for real, (kind, sub, m) in zip(reals, models):
        from .world import CLASSES
        if type(real) is not CLASSES[kind, sub]:
            raise Violation('class', '%s: restored a %s' % (where, type(real).__name__))
        old = Obj(kind, real, m, sub)
        o = w.rebind(old, real, m, where)
        w.slots.append(o)
        w.verify(o, where)
        w.deep(o, where + ' (restored)')
        w.self_check(o, where)


def models_from(w, specs):
    """Rebuild reference models in another process."""
    from .seam import KeyFn
    out = []
    for kind, sub, spec in specs:
        m = Model(kind, w.dom, KeyFn(*spec['key']) if spec['key'] else None)
        m.items = [w.val(s) for s in spec['v']]
        if kind == 'D':
            tok = w.dom.tok
            for v, x in zip(m.items, spec['n']):
                if isinstance(x, str) and x.startswith('v'):
                    x = w.stored_val(int(x[1:]))
                m.map[tok(v)] = x
        out.append((kind, sub, m))
    return out


SPECIAL['snap'] = snap
SPECIAL['restart'] = restart
