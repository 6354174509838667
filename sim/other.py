"""Second interpreter: executes cases handed over by sim.case.Other."""
import base64
import json
import sys

from . import case as _case  # noqa: F401
from . import restart
from .exec import Sim
from .seam import SEAM
from .world import Violation


def serve(msg):
    try:
        w = Sim(msg['cfg'])
        if msg['mode'] == 'boot':
            w.nsteps = msg['at']
            w.cur = 'restart in a second process'
            restart.revive(w, base64.b64decode(msg['data']),
                           restart.models_from(w, msg['models']))
            steps = msg['steps'][msg['at']:]
        else:
            steps = msg['steps']
        w.run(steps)
        w.finish()
        return {'violation': None, 'log': w.log if msg['mode'] == 'log' else None}
    except Violation as v:
        return {'violation': v.msg, 'cls': v.cls}
    finally:
        SEAM.reset()


def main():
    out = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        try:
            ans = serve(json.loads(line))
        except Exception as e:
            ans = {'error': '%s: %s' % (type(e).__name__, e)}
        out.write(json.dumps(ans) + '\n')
        out.flush()


main()
