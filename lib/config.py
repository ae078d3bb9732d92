"""What each check builds and runs."""
import os
REPO = os.environ.get('VERIF_REPO', '/repo')
GEO = ['src/lib/Geometry.cpp', 'src/lib/Triangulator.cpp', 'src/lib/Partitioner.cpp', 'src/utils/Logger.cpp', 'src/utils/ccolor.cpp',
       'src/utils/StringUtils.cxx', 'src/utils/Timings.cpp', 'src/utils/System.cpp', 'src/utils/System.c', 'src/utils/Predicates.cpp', 'version']
SETS = {
    'geo': GEO,
    'dc': ['src/lib/CGALTriangulator.cpp', 'src/lib/DCTriangulator.cpp'] + GEO,
    'sys': ['src/utils/System.cpp', 'src/utils/System.c'],
    'log': ['src/utils/Logger.cpp', 'src/utils/ccolor.cpp'],
    'meas': ['src/utils/Timings.cpp', 'src/utils/System.cpp', 'src/utils/System.c', 'version'],
}
GMP = ['-lgmp', '-lmpfr']
CUT = ['-DPARDETRIA_VERIF=((1u<<D)+2)']

BINS = {
    'dc': dict(src=['dc.cpp'], sets=['dc'], flags=CUT, ldflags=GMP),
}

SCHED = dict(cflags=['-fsanitize=thread', '-fno-pie'],
             ldflags=['-no-pie'] + ['-Wl,--wrap=' + f for f in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'sched_yield', 'pthread_self')],
             extra=[('lib/tsanrt.cpp', ['-fno-pie', '-pthread'])])
BINS['conc_tables'] = dict(src=['conc_tables.cpp'], verif=True, sets=['sys'], **SCHED)
BINS['conc_growing'] = dict(src=['conc_growing.cpp'], verif=True, sets=['sys'], **SCHED)

CHECKS = {}


def check(prop, runs, **kw):
    CHECKS[prop] = dict(runs=runs, **kw)


BINS['dc_large'] = dict(src=['dc_large.cpp'], sets=['dc'], ldflags=GMP)
check('G01', [dict(bin='dc', hang=30), dict(bin='dc_large', hang=30)])
check('G02', [dict(bin='dc', hang=30), dict(bin='dc_large', hang=30)])

check('H02', [dict(bin='conc_tables')])
check('H03', [dict(bin='conc_growing')])

BINS['meas'] = dict(src=['meas.cpp'], sets=['meas'])
BINS['conc_meas'] = dict(src=['conc_meas.cpp'], sets=['meas'], **SCHED)
BINS['numbers'] = dict(src=['numbers.cpp'])
BINS['progress'] = dict(src=['progress.cpp'], **SCHED)
check('U01', [dict(bin='meas')])
check('U02', [dict(bin='numbers')])
check('U03', [dict(bin='conc_meas')])
check('U05', [dict(bin='progress')])
BINS['log'] = dict(src=['log.cpp'], sets=['log'], **SCHED)
check('U04', [dict(bin='log')])
ASAN = dict(cflags=['-fsanitize=address', '-fno-omit-frame-pointer'], ldflags=['-fsanitize=address'])
BINS['tables'] = dict(src=['tables.cpp'], verif=True, sets=['sys'], **ASAN)
check('H01', [dict(bin='tables', hang=10)])
BINS['bitset'] = dict(src=['bitset.cpp'], verif=True, sets=['sys'], **ASAN)
BINS['conc_bitset'] = dict(src=['conc_bitset.cpp'], verif=True, sets=['sys'], **SCHED)
check('H04', [dict(bin='bitset', hang=10), dict(bin='conc_bitset')])
BINS['ids'] = dict(src=['ids.cpp'], **SCHED)
check('H07', [dict(bin='ids')])
BINS['sort'] = dict(src=['sort.cpp'], **ASAN)
check('S01', [dict(bin='sort', hang=10)])
BINS['misc'] = dict(src=['misc.cpp'], **ASAN)
check('U10', [dict(bin='misc', hang=10)])
BINS['multisort'] = dict(src=['multisort.cpp'], **ASAN)
BINS['spatial'] = dict(src=['spatial.cpp'], verif=True, sets=['geo'], repo=['src/lib/SpatialSort.cpp'], **dict(ASAN, ldflags=ASAN['ldflags'] + GMP))
check('S02', [dict(bin='multisort', hang=10), dict(bin='spatial')])
BINS['blocks'] = dict(src=['blocks.cpp'], verif=True, sets=['geo'], flags=['-D_GLIBCXX_SANITIZE_VECTOR=1'], **dict(ASAN, ldflags=ASAN['ldflags'] + GMP))
check('H05', [dict(bin='blocks', hang=10)])
# as the project compiles it (-march=native permits fused operations) and without
BINS['predicates'] = dict(src=['predicates.cpp'], opt='-O2', ldflags=['-lgmpxx', '-lgmp'], flags=['-I' + REPO])
BINS['predicates_native'] = dict(src=['predicates.cpp'], opt='-O3', cflags=['-march=native'], ldflags=['-lgmpxx', '-lgmp'], flags=['-I' + REPO])
check('G05', [dict(bin='predicates', hang=30), dict(bin='predicates_native', hang=30)])
BINS['text'] = dict(src=['text.cpp'], sets=['geo'], ldflags=GMP)
check('U06', [dict(bin='text', hang=10)])
BINS['helpers'] = dict(src=['helpers.cpp'], sets=['sys', 'log'], ldflags=['-rdynamic'])
check('U11', [dict(bin='helpers', hang=10)])
BINS['boxes'] = dict(src=['boxes.cpp'], sets=['sys', 'log'], opt='-O2')
check('G07', [dict(bin='boxes', hang=20)])
BINS['simplices'] = dict(src=['simplices.cpp'], verif=True, sets=['geo'], opt='-O2', ldflags=GMP)
check('G06', [dict(bin='simplices', hang=20)])
BINS['splitters'] = dict(src=['splitters.cpp'], verif=True, sets=['geo'], ldflags=GMP)
check('G08', [dict(bin='splitters', hang=20)])
BINS['stats'] = dict(src=['stats.cpp'], verif=True, sets=['geo'], ldflags=GMP)
check('G11', [dict(bin='stats', hang=20)])

# without assertions: they abort the verification of a triangulation with duplicates
BINS['verify'] = dict(src=['verify.cpp'], verif=True, sets=['dc'], ldflags=GMP, flags=['-DNDEBUG'])
check('G04', [dict(bin='verify', hang=20)])
BINS['grid'] = dict(src=['grid.cpp'], sets=['sys', 'log'])
check('U09', [dict(bin='grid', hang=20)])
BINS['checkers'] = dict(src=['checkers.cpp'], verif=True, sets=['geo'], ldflags=GMP)
BINS['conc_checkers'] = dict(src=['conc_checkers.cpp'], verif=True, sets=['geo'], **dict(SCHED, ldflags=SCHED['ldflags'] + GMP))
check('G09', [dict(bin='checkers', hang=20), dict(bin='conc_checkers')])
EIGEN = ['-I/usr/include/eigen3']
BINS['lbdc'] = dict(src=['lbdc.cpp'], sets=['dc'], flags=CUT, ldflags=GMP)
BINS['lbreal'] = dict(src=['lbreal.cpp'], sets=['dc'], flags=CUT + EIGEN, ldflags=GMP)
BINS['lb_large'] = dict(src=['lb_large.cpp'], sets=['dc'], flags=EIGEN, ldflags=GMP)
check('G03', [dict(bin='lbdc', hang=30), dict(bin='lbreal', hang=30), dict(bin='lb_large', hang=30)])
BINS['ranges'] = dict(src=['ranges.cpp'], verif=True, sets=['geo'], ldflags=GMP)
check('H06', [dict(bin='ranges', hang=20)])
BINS['store'] = dict(src=['store.cpp'], verif=True, sets=['geo'], **dict(ASAN, ldflags=ASAN['ldflags'] + GMP + ['-lboost_serialization']))
BINS['textpoints'] = dict(src=['textpoints.cpp'], sets=['geo'], flags=['-DNDEBUG'], **dict(ASAN, ldflags=ASAN['ldflags'] + GMP))
check('U07', [dict(bin='store', hang=20), dict(bin='textpoints', hang=20)])
BINS['generators'] = dict(src=['generators.cpp'], sets=['geo'], repo=['src/lib/SpatialSort.cpp'], ldflags=GMP)
check('U08', [dict(bin='generators', hang=20)])

BINS['partitioners'] = dict(src=['partitioners.cpp'], verif=True, sets=['dc'], flags=['-DPART_G10'] + EIGEN, ldflags=GMP)
BINS['sampling'] = dict(src=['partitioners.cpp'], verif=True, sets=['dc'], flags=['-DPART_G12'] + EIGEN, ldflags=GMP)
check('G10', [dict(bin='partitioners', hang=20)])
BINS['conc_sampling'] = dict(src=['conc_sampling.cpp'], verif=True, sets=['dc'], **dict(SCHED, flags=EIGEN, ldflags=SCHED['ldflags'] + GMP))
check('G12', [dict(bin='sampling', hang=20), dict(bin='conc_sampling')])

BINS['conc_dc'] = dict(src=['conc_dc.cpp'], verif=True, sets=['dc'], **dict(SCHED, ldflags=SCHED['ldflags'] + GMP))
check('G13', [dict(bin='conc_dc', hang=60)])

BINS['experiment'] = dict(src=['experiment.cpp'], verif=True, sets=['dc'], flags=EIGEN, ldflags=GMP)
BINS['conc_monitor'] = dict(src=['conc_monitor.cpp'], verif=True, sets=['dc'], **dict(SCHED, flags=EIGEN, ldflags=SCHED['ldflags'] + GMP))
check('E01', [dict(bin='experiment', hang=30), dict(bin='conc_monitor')])

BINS['cli'] = dict(src=['cli.cpp'], verif=True, sets=['dc'], flags=EIGEN, repo=['src/lib/SpatialSort.cpp'], ldflags=GMP + ['-lboost_program_options'])
check('E02', [dict(bin='cli', hang=30)])
for p in 'lbx', 'dump':
    BINS['exe_' + p] = dict(BINS['cli'], src=['exe_%s.cpp' % p], flags=EIGEN + ['-I' + REPO])
check('E03', [dict(bin='exe_lbx', hang=30), dict(bin='exe_dump', hang=10)])
BINS['exe_bench'] = dict(BINS['exe_lbx'], src=['exe_bench.cpp'])
check('E04', [dict(bin='exe_bench', hang=10)])

# the containers of the standard library check their preconditions, except where the scheduler counts every access
for b in BINS.values():
    if '-fsanitize=thread' not in b.get('cflags', []):
        b['flags'] = b.get('flags', []) + ['-D_GLIBCXX_ASSERTIONS']
# compiled with the hook: small ranges are split and the divide-and-conquer recursion does not stop early
for b in BINS.values():
    if b.pop('verif', False):
        b['flags'] = b.get('flags', []) + CUT
