"""Which harnesses decide which property, and within which bounds (see DESIGN.md)."""
COMMON_ASSUMPTIONS = [
  'the harness and the headers are compiled by clang-18 -O1; the bitcode is what is executed symbolically (compiler assumed correct; explored paths are replayed on a g++ ASan/UBSan build and must agree)',
  'malloc/new never fail; libc and non-inline libstdc++ routines are the models in /verif/sx/models (they are themselves executed symbolically)',
  'Z3 4.8.12 decides the queries; a sample is re-decided by cvc5 1.1.2',
  'inputs beyond the stated bounds are not covered',
]
def unit(name, src, what, q, t=None, reach=(), qt=None, **kw):
    d = dict(name=name, src=src, what=what, quick=dict(params=q), thorough=dict(params=dict(q, **(t or {}))), reach=list(reach), **kw)
    if qt: d['thorough'].update(qt)
    return d
PROPERTIES = {}
def prop(pid, *units, assumptions=(), level='model_checking'): PROPERTIES[pid] = dict(units=list(units), assumptions=list(assumptions), level=level)
DBG = ['-UNDEBUG']  # assertions of the library are obligations as well

F = 'fsm_sum.cpp'
prop('C01',
  unit('general', F, 'terms with arbitrary support, operators and coefficients', dict(MODE=1, N=3, K=3, OPS=2, COEFS=2), dict(N=4, K=3), ['uncompressed'], defs=DBG),
  unit('four_terms', F, 'more terms on fewer sites', dict(MODE=1, N=2, K=4, OPS=2, COEFS=2), dict(N=3, K=4, OPS=1, COEFS=1), ['uncompressed']),
  unit('site_ids', F, 'every site has its own identity label', dict(MODE=1, N=3, K=2, OPS=2, COEFS=2, IDS=1), dict(K=3), ['uncompressed']),
  unit('long', F, 'longer chains', dict(MODE=1, N=6, K=2, OPS=1, COEFS=1), dict(N=8), ['uncompressed']))
prop('C02',
  unit('general', F, 'terms with arbitrary support, operators and coefficients', dict(MODE=2, N=3, K=2, OPS=2, COEFS=2), dict(K=3, OPS=1), ['compressed', 'a bond dimension shrank'], defs=DBG),
  unit('three_terms', F, 'three terms', dict(MODE=2, N=3, K=3, OPS=1, COEFS=2), dict(N=4, K=3, OPS=1, COEFS=1), ['compressed', 'a bond dimension shrank']),
  unit('four_terms', F, 'four terms on two sites', dict(MODE=2, N=2, K=4, OPS=1, COEFS=2), dict(N=2, K=5, OPS=1, COEFS=2), ['compressed', 'a bond dimension shrank']),
  unit('four_sites', F, 'two terms on four sites, labels up to renaming', dict(MODE=2, N=4, K=2, OPS=3, COEFS=2, RG=1), dict(N=5), ['compressed', 'a bond dimension shrank']),
  unit('site_ids', F, 'every site has its own identity label', dict(MODE=2, N=3, K=2, OPS=1, COEFS=1, IDS=1), dict(OPS=2), ['compressed', 'a bond dimension shrank']))
A = 'coefop_algebra.cpp'
prop('C04',
  unit('coef', A, 'coefficients', dict(MODE=0), dict(NA=3, NB=3, NC=2), ['equal multi-term coefficients', 'unequal coefficients of equal length']),
  unit('op', A, 'operators', dict(MODE=1), dict(M=3, M2=2, O=2, L=1), ['equal operators', 'duplicate labels merged']),
  unit('opcoefs', A, 'operators with two-term coefficients', dict(MODE=1, M=2, M2=1, CL=2, O=1, L=1), dict(M2=2), ['equal operators', 'duplicate labels merged']),
  unit('ctors', A, 'shorthand constructors', dict(MODE=2), None, ['constructors']))
OPSREACH = ['set', 'remove row', 'remove column', 'swap rows', 'swap columns', 'permute rows', 'permute columns', 'copy']
prop('C05',
  unit('sparse', 'sparmat.cpp', 'few elements, any shape', dict(MAXR=3, MAXC=3, F=2, K=2), dict(F=3), OPSREACH),
  unit('full', 'sparmat.cpp', 'every element present or absent', dict(MAXR=2, MAXC=3, FIX=1, FULL=1, K=2, V=2), dict(MAXR=3, K=1), OPSREACH),
  unit('long', 'sparmat.cpp', 'longer histories', dict(MAXR=2, MAXC=2, F=1, K=3, V=2), dict(K=4), OPSREACH),
  unit('pair', 'sparmat.cpp', 'two matrices with different histories', dict(MODE=1, MAXR=2, MAXC=2, F=2, K=1, V=2), dict(MAXC=3), ['equal', 'different']))
M = 'matcompress.cpp'
prop('C06',
  unit('separate', M, 'coefficient of one operator', dict(MODE=0, S=3, O=3, L=3), dict(O=4, L=4, S=4), ['a coefficient came out', 'multi-term operator'], defs=DBG),
  unit('wide', M, 'coefficient of one operator with many summands', dict(MODE=0, S=5, O=6, L=3, MULTI=0), dict(S=7, O=8), ['a coefficient came out', 'multi-term operator']),
  unit('row', M, 'common coefficient of a row', dict(MODE=1, R=2, C=4, S=1), dict(S=2), ['common coefficient', 'empty line'], defs=DBG),
  unit('col', M, 'common coefficient of a column', dict(MODE=2, R=2, C=4, S=1), dict(S=2), ['common coefficient', 'empty line'], defs=DBG))
LINES = ['two lines removed', 'a line removed', 'nothing removed']
prop('C07',
  unit('rows', M, 'row compression', dict(MODE=3, R=3, C=2, S=1), dict(C=3), LINES, defs=DBG),
  unit('cols', M, 'column compression', dict(MODE=4, R=3, C=2, S=1), dict(C=3), LINES, defs=DBG),
  unit('rows_sums', M, 'row compression, elements that are sums', dict(MODE=3, R=2, C=2, S=2), dict(R=3), ['a line removed', 'nothing removed']),
  unit('cols_sums', M, 'column compression, elements that are sums', dict(MODE=4, R=2, C=2, S=2), dict(R=3), ['a line removed', 'nothing removed']),
  unit('rows_holes', M, 'row compression, neighbour with empty elements', dict(MODE=3, R=3, C=1, P=2, S=1, HOLES=1), dict(C=2, L=1), LINES),
  unit('cols_holes', M, 'column compression, neighbour with empty elements', dict(MODE=4, R=3, C=1, P=2, S=1, HOLES=1), dict(C=2, L=1), LINES),
  unit('rows_four', M, 'row compression, four lines', dict(MODE=3, R=4, C=1, S=1), dict(C=2, O=1), LINES[:2]),
  unit('cols_four', M, 'column compression, four lines', dict(MODE=4, R=4, C=1, S=1), dict(C=2, O=1), LINES[:2]),
  unit('rows_combos', M, 'row compression, sums of up to three other rows', dict(MODE=3, R=4, C=3, S=1, O=1, L=1, COEFLINES=0), dict(COEFLINES=1), LINES[:2]),
  unit('cols_combos', M, 'column compression, sums of up to three other columns', dict(MODE=4, R=4, C=3, S=1, O=1, L=1, COEFLINES=0), dict(COEFLINES=1), LINES[:2]),
  unit('rowdelin', M, 'removing linearly dependent rows', dict(MODE=5, R=3, C=2, S=1), dict(C=3), LINES, defs=DBG),
  unit('coldelin', M, 'removing linearly dependent columns', dict(MODE=6, R=3, C=2, S=1), dict(C=3), LINES, defs=DBG),
  unit('sortrows', M, 'sorting rows', dict(MODE=7, R=3, C=2), dict(R=4), ['sorted']),
  unit('sortcols', M, 'sorting columns', dict(MODE=8, R=3, C=2), dict(R=4), ['sorted']),
  assumptions=['for every shared index one of the two neighbouring lines carries no coefficients (the documented restriction of the routines; C02 covers the pipeline that establishes it)'])
prop('C08', unit('labels', 'labelconv.cpp', 'any history of conversions', dict(K=4), dict(K=6)))
prop('C09',
  unit('history', 'duovec.cpp', 'any history of operations', dict(V=2, S=2, K=4), dict(K=5)),
  unit('wide', 'duovec.cpp', 'three elements', dict(V=2, S=3, K=3), dict(K=4)))
PP = 'params.cpp'
prop('C10',
  unit('scalar', PP, 'scalar parameters', dict(MODE=0, ELEMS=0), dict(DIGITS=3, STR=3), ['exit: wrong type', 'exit: missing', 'value', 'no value']),
  unit('array', PP, 'array parameters', dict(MODE=1, ELEMS=2), dict(ELEMS=3, DIGITS=1, BIG=1, STR=1), ['exit: wrong type', 'value', 'no value']),
  unit('open', PP, 'opening the file', dict(MODE=2), None, ['exit: missing', 'constructed']))
prop('C11',
  unit('coef', 'print.cpp', 'coefficients', dict(MODE=0, NC=3), dict(NC=5), ['sum', 'zero']),
  unit('op', 'print.cpp', 'operators', dict(MODE=1, M=2), dict(M=3), ['operator', 'zero']),
  unit('number', 'print.cpp', 'realised coefficients', dict(MODE=2), None, ['numbers']))
prop('C12',
  unit('path', 'fsmpath.cpp', 'paths of the state machine', dict(MODE=0, N=4, K=3), dict(N=5), ['intermediate state'], defs=DBG),
  unit('repeat', 'fsmpath.cpp', 'generation and later additions', dict(MODE=1, N=3, K=2, OPS=1, COEFS=1), dict(OPS=2, COEFS=2), ['generated', 'added after generation']))
G = 'mpogen.cpp'; ST = dict(inc=['checks/stub'])
prop('C13',
  unit('generic', G, 'any terms, any site order', dict(API=0, N=3, K=2, OPS=2), dict(OPS=3), ['compressed', 'uncompressed', 'matrix representation'], **ST),
  unit('signs', G, 'operators that are negatives of each other', dict(API=0, N=2, K=2, OPS=3), dict(K=3), ['compressed', 'uncompressed', 'matrix representation'], defs=DBG, **ST),
  unit('double', G, 'double coefficients, tiny ones included', dict(API=0, N=2, K=2, OPS=2, COEFS=5), dict(K=3), ['compressed', 'uncompressed', 'matrix representation'], defs=['-DNDEBUG', '-DDENSE_DOUBLE'], **ST),
  unit('strings', G, 'uniform insertion strings and tail strings', dict(API=1, N=3, K=2, OPS=2), dict(N=4), ['compressed', 'tail string'], **ST),
  unit('strings_long', G, 'three operators with strings', dict(API=1, N=5, K=1, OPS=2, BODIES=3), dict(N=6), ['compressed', 'tail string'], **ST),
  unit('explicit', G, 'explicit insertion sites', dict(API=2, N=4, K=1, OPS=2, BODIES=3), dict(N=3, K=2), ['compressed'], **ST),
  unit('shorthand', G, 'one- and two-body shorthand', dict(API=3, N=3, K=2, OPS=1), dict(OPS=2), ['compressed', 'string', 'explicit string'], **ST),
  unit('sectors', G, 'many terms: several bond states per charge sector', dict(API=4, N=3, SUBSETS=1, ROT=2, WHAT=3), dict(ROT=9), ['compressed', 'uncompressed'], **ST),
  unit('sectors_long', G, 'all pairs on a longer chain, any starting term', dict(API=4, N=4, WHAT=3), dict(N=5), ['compressed', 'uncompressed'], steps=2000000000, **ST),
  unit('mixed', G, 'sites of different dimension', dict(API=0, N=3, K=2, D0=2, D1=3, OPS=2, W=2), dict(W=3), ['compressed'], **ST))
O = 'models.cpp'
prop('C14',
  unit('spin', O, 'spin-1/2 operator tables', dict(MODEL=0, TASK=0), None, ['operator'], **ST),
  unit('tj', O, 't-J operator tables', dict(MODEL=1, TASK=0), None, ['operator'], **ST),
  unit('hubbard', O, 'Hubbard operator tables', dict(MODEL=2, TASK=0), None, ['operator'], **ST),
  unit('tj_hop', O, 't-J hopping between any two sites', dict(MODEL=1, TASK=1, N=3), dict(N=4), ['hopping'], **ST),
  unit('hubbard_hop', O, 'Hubbard hopping between any two sites', dict(MODEL=2, TASK=1, N=3), dict(N=4), ['hopping'], **ST),
  unit('spin_heis', O, 'Heisenberg coupling between any two sites', dict(MODEL=0, TASK=2, N=4), dict(N=5), ['Heisenberg'], **ST),
  unit('tj_heis', O, 'Heisenberg coupling, t-J sites', dict(MODEL=1, TASK=2, N=3), dict(N=4), ['Heisenberg'], **ST),
  unit('hubbard_heis', O, 'Heisenberg coupling, Hubbard sites', dict(MODEL=2, TASK=2, N=3), dict(N=4), ['Heisenberg'], **ST))
M = 'mps.cpp'; DG = dict(inc=['checks/diag'])
prop('C15',
  unit('history', M, 'histories of canonicalisation', dict(MODE=0, N=4, NSYM=1, L=2), dict(N=5, L=3), ['left canonical', 'right canonical', 'centralised', 'reversed'], **DG),
  unit('truncate', M, 'truncation', dict(MODE=1, N=5, NSYM=1), dict(N=7), ['exact', 'truncated'], **DG),
  unit('entropy', M, 'entanglement entropy', dict(MODE=2, N=5, NSYM=1), dict(N=6), ['entropy'], **DG),
  unit('product', M, 'initial states', dict(MODE=3, N=4, NSYM=1), dict(N=5), ['product', 'random'], **DG),
  unit('algebra', M, 'inner product and sum', dict(MODE=4, N=5, NSYM=1), dict(N=7), ['inner product', 'sum'], **DG),
  unit('disk', M, 'writing and reading', dict(MODE=5, N=3, NSYM=1), None, ['loaded'], **DG))
M = 'measure.cpp'
prop('C16',
  unit('one-site', M, 'one-site operators, in memory', dict(MODE=0, N=4, UNI=1, NSYM=1), dict(N=6), ['value', 'file'], **DG),
  unit('two-site', M, 'two-site operators, in memory', dict(MODE=1, N=4, EV=2), dict(N=5), ['value', 'file'], **DG),
  unit('multi-site', M, 'multi-site operators, in memory', dict(MODE=2, N=4, EV=1), dict(N=5), ['value', 'file', 'tail'], **DG),
  unit('one-site-disk', M, 'one-site operators, from disk', dict(MODE=3, N=6, UNI=1, NSYM=1), dict(N=7), ['value', 'file'], **DG),
  unit('two-site-disk', M, 'groups of two-site operators, from disk', dict(MODE=4, N=4, UNI=1, NSYM=1), dict(N=5), ['value', 'file'], **DG),
  unit('two-site-disk-mixed', M, 'groups of two-site operators, from disk, sites with different local spaces', dict(MODE=4, N=5, UNI=0), None, ['value'], **DG),
  unit('four-site-disk', M, 'groups of four-site operators, from disk', dict(MODE=5, N=6, EV=2, UNI=1), dict(N=7), ['value'], **DG))
M = 'vmps.cpp'; SW = dict(DG, steps=2000000000)
prop('C17',
  unit('two-site', M, 'two-site sweeps', dict(MODE=0, N=5, NSYM=1, SWEEPS=2), dict(N=6), ['optimised', 'swept', 'restarted'], **SW),
  unit('noise-none', M, 'noisy sweeps called without noises', dict(MODE=0, N=4, NSYM=1, SWEEPS=2, DIRECT=1), dict(N=6), ['optimised', 'swept', 'restarted'], **SW),
  unit('two-site-truncated', M, 'two-site sweeps with truncation', dict(MODE=0, N=5, NSYM=1, SWEEPS=2, TRUNC=1), dict(N=6), ['optimised', 'swept', 'restarted'], **SW),
  unit('noise', M, 'two-site sweeps with noise', dict(MODE=1, N=5, NSYM=1, SWEEPS=1), dict(N=6), ['optimised', 'enlarged', 'amplitude', 'swept', 'restarted'], **SW),
  unit('noise-schedule', M, 'amplitude of the noise over several sweeps', dict(MODE=1, N=4, SWEEPS=3), dict(N=5), ['optimised', 'enlarged', 'amplitude', 'grows', 'shrinks', 'kept', 'swept', 'restarted'], **SW),
  unit('noise-truncated', M, 'two-site sweeps with noise and truncation', dict(MODE=1, N=6, NSYM=1, SWEEPS=2, TRUNC=1), dict(N=7), ['optimised', 'enlarged', 'amplitude', 'swept', 'restarted', 'boundary'], **SW),
  unit('single-site', M, 'single-site sweeps', dict(MODE=2, N=3, NSYM=1, SWEEPS=2), dict(N=4), ['optimised', 'enlarged', 'amplitude', 'swept', 'restarted'], **SW),
  unit('single-site-truncated', M, 'single-site sweeps with truncation', dict(MODE=2, N=4, NSYM=1, SWEEPS=2, TRUNC=1), dict(N=5), ['optimised', 'enlarged', 'amplitude', 'swept', 'restarted'], **SW),
  unit('covered', M, 'comparison of charges', dict(MODE=3, K=3), dict(K=4), ['covered', 'not covered'], **DG))
D = 'tdvp.cpp'
prop('C18',
  unit('evolution', D, 'time evolution and correlations', dict(N=4, NSYM=1, STEPS=2), dict(N=5), ['forward', 'backward', 'correlation', 'evolved', 'copied initial', 'reused initial'], **SW),
  unit('evolution-truncated', D, 'time evolution with truncation', dict(N=4, NSYM=1, STEPS=2, TRUNC=1), dict(N=5), ['forward', 'backward', 'correlation', 'evolved', 'copied initial', 'reused initial'], **SW))
R = 'dmrg.cpp'
prop('C19',
  unit('sweeps', R, 'DMRG sweeps', dict(N=5, NSYM=1, SWEEPS=2), dict(N=6), ['optimised', 'state kept', 'restarted'], **SW),
  unit('truncated', R, 'DMRG sweeps with truncation', dict(N=5, NSYM=1, SWEEPS=2, TRUNC=1), dict(N=6), ['optimised', 'state kept', 'restarted'], **SW),
  unit('signals', R, 'early termination', dict(N=5, NSYM=1, SWEEPS=3, STOP=1), dict(N=6), ['graceful exit', 'emergency exit', 'resumed'], **SW),
  unit('asserts', R, 'the library\'s own assertions during DMRG sweeps', dict(N=4, SWEEPS=2), dict(N=5), ['optimised', 'state kept', 'restarted'], **dict(SW, defs=DBG)))
Z = 'lanczos.cpp'
prop('C20',
  unit('ground-state', Z, 'Krylov ground-state solver of the variational sweeps', dict(MODE=0, K=7), dict(K=10), ['exhausted', 'accurate', 'iteration limit', 'full space'], **SW),
  unit('ground-state-dmrg', Z, 'Krylov ground-state solver of DMRG', dict(MODE=1, K=7), dict(K=10), ['exhausted', 'accurate', 'iteration limit', 'full space'], **SW),
  unit('exponential', Z, 'Krylov exponential', dict(MODE=2, K=7), dict(K=10), ['exhausted', 'accurate', 'iteration limit', 'full space'], **SW),
  unit('ground-state-mpi', Z, 'distributed Krylov ground-state solver', dict(MODE=3, K=7), dict(K=10), ['exhausted', 'accurate', 'iteration limit', 'full space'], **SW),
  unit('exponential-mpi', Z, 'distributed Krylov exponential', dict(MODE=4, K=7), dict(K=10), ['exhausted', 'accurate', 'iteration limit', 'full space'], **SW),
  unit('ground-state-dmrg-mpi', Z, 'distributed Krylov ground-state solver of DMRG', dict(MODE=5, K=7), dict(K=10), ['exhausted', 'accurate', 'iteration limit', 'full space'], **SW))
O = 'mpo.cpp'
prop('C21',
  unit('history', O, 'histories of operations on matrix product operators', dict(MODE=0, N=3, L=3), dict(N=4), ['left canonical', 'right canonical', 'centralised', 'scaled', 'sum', 'product', 'loaded', 'trace'], **SW),
  unit('truncate', O, 'truncation', dict(MODE=1, N=5), dict(N=7), ['exact', 'truncated'], **SW),
  unit('product', O, 'variational product', dict(MODE=2, N=4), dict(N=5), ['product', 'square'], **SW),
  unit('product-truncated', O, 'variational product with truncation', dict(MODE=2, N=4, TRUNC=1), dict(N=5), ['product', 'square', 'truncated'], **SW),
  unit('exponential', O, 'Taylor series of the exponential', dict(MODE=3, N=4, ORDER=5), dict(N=5), ['series', 'short series'], **SW))
PA = 'par.cpp'; PD = dict(DG, defs=DBG + ['-DWITH_MPI'])
prop('C22',
  unit('matvec', PA, 'distributed product of effective Hamiltonian and state', dict(MODE=0, PROCS=3, SECT=5, DEG=2), dict(PROCS=4, SECT=5), ['gathered', 'finished'], **SW),
  unit('matvec-many', PA, 'distributed product with many workers', dict(MODE=0, PROCS=5, SECT=4, DEG=1, ROUNDS=2), dict(PROCS=5, SECT=5), ['gathered', 'finished'], **SW),
  unit('left-env', PA, 'distributed left environment', dict(MODE=1, PROCS=3, SECT=5, DEG=2), dict(PROCS=4, SECT=5), ['gathered', 'finished'], **SW),
  unit('right-env', PA, 'distributed right environment', dict(MODE=2, PROCS=3, SECT=5, DEG=2), dict(PROCS=4, SECT=5), ['gathered', 'finished'], **SW),
  unit('sweeps', 'vmps.cpp', 'distributed two-site sweeps', dict(MODE=0, N=4, SWEEPS=1, PROCS=3), dict(N=5), ['optimised', 'swept', 'restarted'], steps=2000000000, **PD),
  unit('sweeps-noise-none', 'vmps.cpp', 'distributed noisy sweeps called without noises', dict(MODE=0, N=4, SWEEPS=1, PROCS=3, DIRECT=1), dict(N=5), ['optimised', 'swept', 'restarted'], steps=2000000000, **PD),
  unit('sweeps-noise', 'vmps.cpp', 'distributed two-site sweeps with noise', dict(MODE=1, N=5, SWEEPS=1, PROCS=3), dict(N=6), ['optimised', 'enlarged', 'amplitude', 'swept', 'restarted'], steps=2000000000, **PD),
  unit('sweeps-noise-truncated', 'vmps.cpp', 'distributed two-site sweeps with noise and truncation', dict(MODE=1, N=6, SWEEPS=1, PROCS=2, TRUNC=1), dict(PROCS=3), ['optimised', 'enlarged', 'amplitude', 'swept', 'restarted', 'boundary'], steps=2000000000, **PD))
prop('C23',
  unit('dmrg', 'dmrg.cpp', 'distributed optimisation with the matrix representation', dict(N=4, SWEEPS=1, PROCS=3), dict(N=5, SWEEPS=2), ['optimised', 'later action', 'state kept', 'restarted', 'finished'], steps=2000000000, **PD),
  unit('evolution', 'tdvp.cpp', 'distributed time evolution', dict(N=4, STEPS=2, PROCS=3), dict(N=5, STEPS=2), ['forward', 'backward', 'correlation', 'evolved', 'reused initial', 'copied initial'], steps=2000000000, **PD))
prop('C24',
  unit('terms', 'ifsm.cpp', 'terms on an infinite chain', dict(MODE=0, U=2, K=2, LEN=3, CELLS=2), dict(COEFS=2, CELLS=3), ['shared beginning', 'longer than the unit cell', 'one site', 'begins in a later cell'], defs=DBG),
  unit('three-terms', 'ifsm.cpp', 'three terms with any identities', dict(MODE=0, U=2, K=3, LEN=2, CELLS=2, COEFS=0), dict(IDS=1, COEFS=1), ['shared beginning'], defs=DBG),
  unit('long-cell', 'ifsm.cpp', 'unit cell of three sites', dict(MODE=0, U=3, K=2, LEN=4, CELLS=2, COEFS=0), dict(COEFS=1, LEN=5), ['longer than the unit cell', 'shared beginning'], defs=DBG),
  unit('one-site-cell', 'ifsm.cpp', 'unit cell of one site', dict(MODE=0, U=1, K=3, LEN=2, CELLS=3), dict(LEN=3), ['longer than the unit cell'], defs=DBG),
  unit('identities', 'ifsm.cpp', 'any identities', dict(MODE=0, U=2, K=2, LEN=3, CELLS=2, IDS=1), dict(OPS=2), ['longer than the unit cell', 'shared beginning'], defs=DBG),
  unit('nodes', 'ifsm.cpp', 'nodes of an automaton', dict(MODE=1), None, ['compared'], defs=DBG))
# not a property: the engine against the native build on library features a refactoring might start to use
SELF = dict(units=[unit('containers', 'selftest.cpp', '', dict(MODE=0), None, ['done']), unit('algorithms', 'selftest.cpp', '', dict(MODE=1), None, ['done']), unit('objects', 'selftest.cpp', '', dict(MODE=2), None, ['done']), unit('text', 'selftest.cpp', '', dict(MODE=3), None, ['done']), unit('files', 'selftest.cpp', '', dict(MODE=4), None, ['done'])], assumptions=[])
