"""Execute one recorded case: exit 1 when it violates, 0 when it does not."""
import json
import resource
import sys

from . import case as C
from .worker import MEMORY


def main():
    with open(sys.argv[1]) as f:
        case = json.load(f)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    sys.setrecursionlimit(2000)
    _, v = C.judge(case)
    C.OTHER.close()
    if v is None:
        print('replay: no violation')
        sys.exit(0)
    print('replay: %s: %s' % (v.cls, v.msg[:3000]))
    sys.exit(1)


main()
