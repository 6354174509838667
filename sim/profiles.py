"""What each property's simulations are made of."""
from .gen import MAKE, MUT1, MUTN, READS


def pick(kinds, *tables, add=()):
    out = {}
    for k in kinds:
        names = []
        for t in tables:
            names += t[k]
        names += [n for n in add if n not in names and any(
            n in t[k] for t in (READS, MUT1, MUTN, MAKE))]
        out[k] = names
    return out


def everything(kinds):
    return pick(kinds, READS, MUT1, MUTN, MAKE)


INDEXED = {'getitem': 3, 'getslice': 3, 'index': 3, 'bisect_left': 2, 'bisect_right': 2,
           'count': 2, 'iterate': 2, 'pop': 2, 'delitem': 2, 'delslice': 2, 'peekitem': 3,
           'popitem': 3, 'view': 2, 'view_del': 2, 'bisect_key_left': 2,
           'bisect_key_right': 2}
DERIVE = {n: 4 for n in ('copy', 'build', 'plus', 'rplus', 'times', 'dor', 'fromkeys',
                         'union', 'or', 'intersection', 'and', 'difference', 'sub',
                         'symmetric_difference', 'xor', 'rand', 'ror', 'rsub', 'rxor',
                         'getslice', 'iadd', 'update', 'dupdate', 'dior', 'ior', 'iand',
                         'isub', 'ixor', 'difference_update', 'intersection_update',
                         'symmetric_difference_update')}

# reads that call back
CALLING = {n: 3 for n in ('contains', 'count', 'index', 'bisect_left', 'bisect_right',
                          'iterate', 'bisect_key_left', 'bisect_key_right')}

# runs: number of simulated runs in the quick tier (thorough: factor below)
P = {
    'C01': dict(kinds='L', ops=everything('L'), iters=[0, .1], faults=['raise'],
                faultrates=[0, 0, .05, .25], badrates=[0, .1], runs=19800),
    'C02': dict(kinds='K', ops=everything('K'), iters=[0, .1], faults=['raise'],
                faultrates=[0, 0, .05, .25], badrates=[0, .1],
                doms=[('V', 5), ('U', 4), ('int', 2), ('num', 1), ('str', 1), ('tuple', 1),
                      ('none', 1)],
                runs=17600),
    'C03': dict(kinds='LKSD', ops=everything('LKSD'), boost=INDEXED, iters=[0, .1],
                faults=['raise'], faultrates=[0, 0, .1], badrates=[0, .08],
                deepfaults=True, sometimes={'deepalways': .3}, runs=9400,
                wide=True, scale=[6, 3, 1]),
    'C04': dict(kinds='LKSD', ops=everything('LKSD'), boost={'iterate': 8},
                iters=[.3, .5, .7], faults=['raise'], faultrates=[0, 0, 0, .05],
                badrates=[0], deepfaults=True, runs=17600, wide=True, scale=[6, 3, .8]),
    'C05': dict(kinds='D', ops=everything('D'), iters=[0, .1], faults=['raise'],
                faultrates=[0, 0, .05, .25], badrates=[0, .1], runs=11000),
    'C06': dict(kinds='S', ops=everything('S'), iters=[0, .1], faults=['raise'],
                faultrates=[0, 0, .05, .25], badrates=[0, .1], runs=12100),
    'C07': dict(kinds='D', ops=everything('D'),
                boost={'view': 8, 'view_del': 5, 'view_delslice': 5}, iters=[0, .1],
                faults=['raise'], faultrates=[0, 0, .1], badrates=[0, .05], runs=12700),
    'C08': dict(kinds='LK', ops=everything('LK'),
                boost=dict({n: 2 for n in MUT1['L'] + MUTN['L']}, **CALLING), iters=[0],
                faults=['raise'], faultrates=[.3, .6], badrates=[0, .15], allexc=.2,
                deepfaults=True, runs=5200),
    'C09': dict(kinds='SD', ops=everything('SD'),
                boost=dict({n: 2 for k in 'SD' for n in MUT1[k] + MUTN[k]},
                           badupdate=8, unhashable=4), iters=[0],
                faults=['raise'], faultrates=[.3, .6], badrates=[.1, .25], allexc=.15,
                deepfaults=True, runs=7700),
    'C10': dict(kinds='LKSD', ops=everything('LKSD'), readers=True,
                boost=INDEXED, iters=[0], faults=[], badrates=[0], scale=[6, 4, .03],
                nobj=[1, 1, 2], runs=2600),
    'C11': dict(kinds='LKSD', ops=everything('LKSD'),
                boost=dict(INDEXED, delslice=4, update=3, reset=3, clear=2),
                iters=[0], faults=['intr'], cut=True,
                faultrates=[.4, .8], badrates=[0], deepfaults=True, runs=2200),
    'C12': dict(kinds='LKSD', ops=everything('LKSD'),
                boost=dict({n: 2 for k in 'LKSD' for n in MUT1[k] + MUTN[k]},
                           count=4, index=3, bisect_left=2, bisect_right=2), iters=[0],
                faults=['read'], faultrates=[.4, .8], badrates=[0], deepfaults=True,
                runs=13000),
    'C13': dict(kinds='LKSD', ops=everything('LKSD'), boost=DERIVE, iters=[0],
                faults=['raise'], faultrates=[0, 0, .1], badrates=[0, .1],
                nobj=[1, 2, 3], selfsrc=.35, own=.08, spread=True, deepfaults=True, runs=11000),
    'C14': dict(kinds='LKSD', ops=everything('LKSD'),
                boost={'pickle': 4, 'deepcopy': 4, 'copy': 4, 'reset': 2}, iters=[0, .1],
                faults=['raise'], faultrates=[0, 0, .05], badrates=[0, .05], nobj=[1, 2, 3],
                snaps=True, deepfaults=True, sometimes={'deepalways': .2}, spread=True,
                runs=4600),
    'C15': dict(kinds='LKSD', ops=everything('LKSD'), iters=[0, .1, .3],
                faults=['raise'], faultrates=[0, 0, .1], badrates=[0], bounds=True,
                scale=[2, 4, 1.5], runs=3600),
    'C16': dict(kinds='LKSD', ops=everything('LKSD'),
                boost={'reset': 6, 'delitem': 2, 'pop': 2, 'delslice': 2, 'update': 2,
                       'add': 2, 'setitem': 2},
                iters=[0], faults=['raise', 'raise', 'intr'], faultrates=[0, .1, .3],
                badrates=[0, .1], selfcheck=True, deepfaults=True, runs=7000),
    'C17': dict(kinds='SD', ops=everything('SD'), iters=[0, .1], faults=[],
                badrates=[0, .15], noties=True, injective=True, toklog=True, resalt=True,
                doms=[('V', 6), ('str', 2)], scale=[6, 2, .02], runs=3300),
    'C18': dict(kinds='LKSD', ops=everything('LKSD'), boost={'compare': 25},
                iters=[0, .1], faults=['raise'], faultrates=[0, .1, .4],
                badrates=[0, .05], nobj=[1, 2, 3], spread=True, deepfaults=True,
                runs=8000),
    'C20': dict(kinds='LKSD', ops=everything('LKSD'), iters=[0, .1, .3],
                faults=['other', 'other', 'other', 'raise'], faultrates=[.2, .5],
                badrates=[0], parallel=True, nobj=[2, 2, 3, 4], spread=True,
                scale=[6, 4, .03], sometimes={'noties': .5}, runs=3000),
    'C21': dict(kinds='LKSD', ops=everything('LKSD'), iters=[0, .1],
                faults=['raise', 'raise', 'raise', 'intr'], faultrates=[.1, .3, .6],
                badrates=[0, .15], held=True, nobj=[1, 2, 3], scale=[6, 3, .03],
                doms=[('V', 6), ('U', 3), ('int', 1)], runs=3000),
    'C22': dict(kinds='LKSD', ops=everything('LKSD'), iters=[0], faults=['raise'],
                faultrates=[0, 0, .1], badrates=[0], release=True, nobj=[1, 2],
                scale=[6, 3, .03], doms=[('V', 6), ('U', 3)], runs=12000),
}
for name, prof in P.items():
    prof['name'] = name
THOROUGH = 20
