"""Which harness runs decide which property."""
import os
import vbuild
V, R = vbuild.VERIF, vbuild.REPO
D = R + '/src/DNDS/'
H = V + '/harness/'
SIM = V + '/sim/simmpi.cpp'
DNDS_SRC = [D + 'MPI.cpp', D + 'Defines.cpp', D + 'Profiling.cpp', D + 'SerializerJSON.cpp']
MINSRC = [SIM] + DNDS_SRC + [D + 'HardEigen.cpp']
G = R + '/src/Geom/'
MESHSRC = [G + 'Mesh.cpp', G + 'Mesh_Serial_BuildCell2Cell.cpp', G + 'Mesh_Serial_Partition.cpp', G + 'Mesh_Elevation.cpp', G + 'Elements.cpp', H + 'meshstubs.cpp'] + MINSRC
CV = R + '/src/CFV/'
LIBS = ['-lfmt', '-lz', '-ldl']

HARNESSES = {
    'exch': dict(srcs=[H + 'exch.cpp', SIM] + DNDS_SRC, libs=LIBS),
    'cont': dict(srcs=[H + 'cont.cpp', SIM] + DNDS_SRC, libs=LIBS),
    'derived': dict(srcs=[H + 'derived.cpp', SIM] + DNDS_SRC, libs=LIBS),
    'idxmap': dict(srcs=[H + 'idxmap.cpp', SIM] + DNDS_SRC, libs=LIBS),
    'elem': dict(srcs=[H + 'elem.cpp', R + '/src/Geom/Elements.cpp'] + MINSRC, libs=LIBS),
    'quad': dict(srcs=[H + 'quad.cpp', R + '/src/Geom/Elements.cpp'] + MINSRC, libs=LIBS),
    'lu': dict(srcs=[H + 'lu.cpp'] + MINSRC, libs=LIBS),
    'order': dict(srcs=[H + 'order.cpp'] + MINSRC, libs=LIBS + ['-lmetis']),
    'krylov': dict(srcs=[H + 'krylov.cpp'] + MINSRC, libs=LIBS),
    'ode': dict(srcs=[H + 'ode.cpp'] + MINSRC, libs=LIBS),
    'limiter': dict(srcs=[H + 'limiter.cpp'] + MINSRC, libs=LIBS),
    'mesh': dict(srcs=[H + 'mesh.cpp'] + MESHSRC, libs=LIBS + ['-lmetis']),
    'mesh2': dict(srcs=[H + 'mesh2.cpp', V + '/sim/fakeh5.cpp', D + 'SerializerH5.cpp'] + MESHSRC, libs=LIBS + ['-lmetis']),
    'ser': dict(srcs=[H + 'ser.cpp', V + '/sim/fakeh5.cpp', D + 'SerializerH5.cpp'] + MINSRC, libs=LIBS),
    'ser_real': dict(srcs=[(H + 'ser.cpp', '-O0', ['-DSER_REAL']), D + 'SerializerH5.cpp'] + DNDS_SRC + [D + 'HardEigen.cpp'],
                     libs=LIBS + ['/usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so', '-lmpi']),
    'vr': dict(srcs=[H + 'vr.cpp', CV + 'VariationalReconstruction.cpp', CV + '_explicit_instantiation/VariationalReconstruction_Reconstruction_2_4.cpp', CV + '_explicit_instantiation/VariationalReconstruction_Reconstruction_3_5.cpp',
                     CV + '_explicit_instantiation/VariationalReconstruction_LimiterProcedure_2_4.cpp', CV + '_explicit_instantiation/VariationalReconstruction_LimiterProcedure_3_5.cpp'] + MESHSRC, libs=LIBS + ['-lmetis']),
    **{'euler_' + m.lower(): dict(srcs=[(H + 'euler.cpp', '-O1', ['-DEMODEL=' + m])] + [R + '/src/Euler/_explicit_instantiation/EulerEvaluator_%s%s.cpp' % (k, m) for k in ('', 'EvaluateDt_', 'EvaluateRHS_')] +
                  [CV + 'VariationalReconstruction.cpp', CV + '_explicit_instantiation/VariationalReconstruction_Reconstruction_%s.cpp' % v, CV + '_explicit_instantiation/VariationalReconstruction_LimiterProcedure_%s.cpp' % v, H + 'eulerstubs.cpp'] + MESHSRC, libs=LIBS + ['-lmetis'])
       for m, v in (('NS_2D', '2_4'), ('NS_3D', '3_5'), ('NS_SA', '2_6'), ('NS_2EQ', '2_7'))},
    'gas': dict(srcs=[H + 'gas.cpp', H + 'gas3.cpp'] + MINSRC, libs=LIBS),
}
def exch(mode):
    r = [dict(harness='exch', args=['--opt', 'mode=' + mode])]
    for e in ('DNDS_USE_LAZY_WAIT', 'DNDS_USE_STRONG_SYNC_WAIT', 'DNDS_USE_ASYNC_ONE_BY_ONE'):
        r.append(dict(harness='exch', args=['--opt', 'mode=' + mode, '--opt', 'light=1'], env={e: '1'}))
    return r

SIMNOTE = 'MPI is replaced by a simulated world (sim/simmpi.cpp) that implements the MPI calls DNDSR uses; ranks are fibers of one process'
CHECKS = {
    'C04': dict(runs=exch('pull'), technique='explicit enumeration of exchange programs on the real ArrayTransformer in a simulated MPI world',
                meaning='one case = one (layout, element type, world size, ownership, ghost request lists, operation word) executed by the real code under the listed MPI delivery configurations; state = hash of all father/son contents after every step; transition = MPI call executed',
                bounds='<=3 ranks, <=2 rows per rank, request lists of up to 3 entries incl. duplicates, 5 layouts, both strategies, operation words up to length 6',
                assumptions=[SIMNOTE]),
    'C05': dict(runs=exch('push'), technique='explicit enumeration of exchange programs on the real ArrayTransformer in a simulated MPI world',
                meaning='as C04, with push operations', bounds='as C04', assumptions=[SIMNOTE]),
    'C06': dict(runs=exch('sched'), technique='stateless model checking: all interleavings within a deviation bound of the real exchange code on a simulated MPI world',
                meaning='one case = program x delivery configuration; state = execution (schedule) explored, hashed with its final contents; transition = MPI call executed',
                bounds='2-3 ranks, all configurations of buffering / completion / collective synchronisation, scheduling deviation bound stated in the harness', assumptions=[SIMNOTE]),
}
CHECKS['C01'] = dict(runs=[dict(harness='cont', args=['--opt', 'mode=arr'])],
    technique='explicit-state enumeration of all operation histories of the real container against a list-of-rows model',
    meaning='one case = all histories with a given two-operation prefix; transition = operation executed on the real container; trace = history replayed on the real container and compared with the model',
    bounds='five layouts x four element types, two arrays, histories up to length 6 (real) / 5 (others); thorough 7 / 6')
CHECKS['C09'] = dict(runs=[dict(harness='cont', args=['--opt', 'mode=pool'])],
    technique='explicit-state enumeration of all operation histories of the real object pool against a set model',
    meaning='as C01', bounds='one pool, three handle slots, histories up to length 6 (thorough 8)')
CHECKS['C02'] = dict(runs=[dict(harness='derived')],
    technique='explicit enumeration of shapes, sizing orders and write orders on the real derived arrays, ghosts in a simulated MPI world',
    meaning='one case = one derived type with given row shapes (all sizing/writing orders, accessors and copy interactions inside) or one ghost pattern; transition = row operation or MPI call; trace = history executed and compared',
    bounds='27 derived types, up to 3 rows (thorough 4), row shapes from a small alphabet incl. empty ones; ghosts: 2 ranks, up to 3 rows, all request sets',
    assumptions=[SIMNOTE])
CHECKS['C03'] = dict(runs=[dict(harness='idxmap')],
    technique='explicit enumeration of all ownership vectors and request sets, executed by the real mapping code in a simulated MPI world',
    meaning='one case = one ownership vector with one request set per rank; both constructors, all lookup forms and the transformer route are compared with the set model; transition = MPI call',
    bounds='1-4 ranks with up to 4-5 rows and all request subsets (plus repeated/unordered forms), 5-7 ranks with every pattern of empty ranks, offsets beyond 2^32',
    assumptions=[SIMNOTE])
CHECKS['C17'] = dict(runs=[dict(harness='elem')],
    technique='exhaustive enumeration of all element types, all table entries and all points of a lattice of each reference element, executed by the real tables and shape functions against an independent construction',
    meaning='one case = one table of one element type or one lattice point of one element type; transition = call of the code under test; trace = case fully compared; state = distinct vector of shape function values and derivatives',
    bounds='14 element types; lattice of 5 (thorough 11) points per direction incl. the boundary and all nodes; derivatives up to order 3; pyramid derivatives below 80 percent of the height',
    assumptions=['shape functions between lattice points are determined by their polynomial (rational for pyramids) form'])
CHECKS['C18'] = dict(runs=[dict(harness='quad')],
    technique='exhaustive enumeration of all parameter spaces, orders, points and monomials, executed by the real rules against exact integrals',
    meaning='one case = one monomial under one rule, or one element type and order (all integration forms); transition = quadrature point visited; trace = case fully compared',
    bounds='complete: all 7 parameter spaces x orders 0..6 x all monomials of the degree (and product degree for tensor rules); all 14 element types x orders',
    assumptions=['tolerance 2e-12: the tables are given with 15 digits'])
CHECKS['C19'] = dict(runs=[dict(harness='lu')],
    technique='exhaustive enumeration of all symmetric patterns and all elimination orderings, executed by the real factorization against dense algebra',
    meaning='one case = one symmetric pattern (all its orderings, fill levels -1..3, LU in both variants and LDLT, block sizes 1, 2, dynamic 3); transition = factorization, solve or product executed; trace = factorization compared with dense algebra; state = distinct solution vectors',
    bounds='all 1+1+2+8+64+1024 patterns of 0..5 unknowns with all orderings; 6 unknowns: 4 orderings of every 8th pattern (thorough: all 32768 patterns, 12 orderings each); structured patterns of 8, 9, 12',
    assumptions=['diagonally dominant blocks with deterministic pseudo-random entries', SIMNOTE])
CHECKS['C20'] = dict(runs=[dict(harness='order')],
    technique='exhaustive enumeration of all graphs up to a size, executed by the real reordering code against the definition of permutation, inverse, bandwidth and breadth-first layers',
    meaning='one case = one graph (or a block of 256 graphs) with all start vertices; transition = reordering / search / validation call; trace = graph fully compared; state = distinct permutation returned',
    bounds='all graphs of 0..6 (thorough 7) vertices, three row orders up to 5; structured graphs of 9, 12, 30; all adjacency lists of up to 3 entries on 3 vertices for the validation')
CHECKS['C21'] = dict(runs=[dict(harness='krylov')],
    technique='exhaustive enumeration of all small matrices over a finite alphabet with right-hand sides, guesses, subspace sizes and restart counts, executed by the real solvers against dense algebra',
    meaning='one case = one matrix (all right-hand sides, guesses, preconditioners, subspace sizes, restart budgets / call splits); transition = matrix product requested by the solver; trace = solve compared with dense algebra; state = distinct residual history',
    bounds='GMRES: all nonsingular 1x1 and 2x2 matrices over 5 values, all nonsingular 3x3 over {0,1,-1}, 4x4 signed permutations with variants; PCG: all B^T B + I/2 up to 3x3 over {0,1,-1}')
CHECKS['C22'] = dict(runs=[dict(harness='ode')],
    technique='exhaustive enumeration of step-size and restart histories of the real integrators on the systems of all rooted trees up to order 4, against the exact solution / textbook multistep formula',
    meaning='one case = one scheme, start time and history length (all step-size words and restart patterns inside); transition = right-hand side evaluation; trace = history compared after every step; state = distinct solution vector',
    bounds='all schemes and parameter variants; histories up to 4 (thorough 5) steps over 3 step sizes (5 sizes up to length 3), all restart positions; equal-step BDF up to 7 (8) steps; all rooted trees up to order 4 with every leaf as variable or explicit time',
    assumptions=['the implicit stage equations are solved exactly by the harness (Newton with exact Jacobian)'])
CHECKS['C24'] = dict(runs=[dict(harness='limiter')],
    technique='exhaustive enumeration of all argument tuples over a grid of magnitudes and signs, executed by the real limiters against their definition',
    meaning='one case = one limiter, array shape and weight (all argument tuples inside); transition = limiter call; trace = component (or column) compared; state = distinct argument/result tuple',
    bounds='all pairs of 14 values at every position of 12 array shapes for the two-argument limiters, all tuples of up to 5 (thorough 6) of 6 values, all tuples of up to 3 of rows+6 vectors for the norm limiters, three centre weights',
    assumptions=['argument ratios up to 1e18; beyond about 1e75 the fourth powers overflow'])
CHECKS['C23'] = dict(runs=[dict(harness='gas')],
    technique='exhaustive enumeration of all pairs of states of a grid x flux types x face directions x grid velocities x dimensions, executed by the real gas functions against the exact relations',
    meaning='one case = one flux type, direction, grid velocity and left state (all right states inside), one group of single-state relations, or one start state of increment limiting (all increments inside); transition = call of the code under test; trace = pair fully compared; state = distinct flux vector',
    bounds='2D and 3D; 126 states, all pairs, 4 face directions, 3 grid velocities, 9 flux types, single and batch; 2 gammas for relations; 5x7x7x7 increments per start state, 4 bounds, 2 schemes',
    assumptions=['increment limiting is called as the solver calls it: only when the increment violates the bound'])
MB = 'meshes of 1-9 cells of all first-order and most second-order element types in 2D and 3D, plain, periodic in 1-3 directions, rotationally periodic; 1-4 ranks; every assignment of cells to ranks (up to %s per mesh and rank count), plus all delivery configurations of the simulated MPI on selected cases'
MM = 'one case = one mesh, number of ranks, assignment of cells to ranks and route; state = distinct distributed mesh after a stage; transition = MPI call executed; trace = case compared with the serial model on all ranks after every stage'
def mesh(mode, cap, extra='', harness='mesh'):
    return dict(runs=[dict(harness=harness, args=['--opt', 'mode=' + mode])],
                technique='exhaustive enumeration of all partitions of a catalogue of small meshes, executed by the real mesh code in a simulated MPI world against a serial model of the mesh',
                meaning=MM, bounds=MB % cap + extra, assumptions=[SIMNOTE])
CHECKS['C10'] = mesh('part', '1100, thorough 20000', '; reading rank first or last; METIS k-way / recursive with and without edge weights')
CHECKS['C11'] = mesh('halo', '1100, thorough 20000', '; relations recovered before or after the halo is built')
CHECKS['C12'] = mesh('face', '1100, thorough 20000')
CHECKS['C13'] = mesh('peri', '1100, thorough 20000', '; transforms: 10 rotations x 3 translations x 3 centres x 27 points x all identifiers and tag combinations')
CHECKS['C14'] = mesh('reorder', '300, thorough 5000', '; 8 routes (with/without faces, node relations, recovered adjacency), renumbered twice')
NOT_APPLICABLE = {}
CHECKS['C15'] = mesh('elev', '1100, thorough 20000', '; elevation with and without recovered relations, bisection once (up to 300 assignments) and twice (up to 64); periodic directions with at least three layers', 'mesh2')
CHECKS['C16'] = mesh('save', '130, thorough 5000', '; per-rank JSON files with and without codec, one shared HDF5 file (stand-in library) with and without chunks, compression and collective transfers, with and without recovered relations, before and after renumbering', 'mesh2')
FAKE = 'parallel HDF5 is replaced by an in-memory stand-in (sim/fakeh5.cpp) that treats every call documented as collective as a collective with equal arguments; selected programs run on the real HDF5 and MPI libraries as well (run ser_real; skipped, and counted as such, where mpirun cannot start)'
CHECKS['C07'] = dict(runs=[dict(harness='ser', args=['--opt', 'mode=h5']), dict(harness='ser_real', args=['--opt', 'mode=h5'])],
    technique='exhaustive enumeration of write/read programs, executed by the real serializer and array code in a simulated MPI world on a stand-in HDF5 library, with conformance runs of the same programs on the real libraries',
    meaning='one case = one program (what is written by how many ranks under which settings) written, closed, reopened, read and compared on every rank; state = distinct program outcome; transition = MPI call; trace = program compared (ser_real: one case = block of 40 programs on the real libraries)',
    bounds='1-3 ranks, vectors of 0/1/3 entries per rank x 6 kinds x 3 placements x 96 settings; all path words up to length 4 over 9 moves; all sharing patterns of up to 5 entries (1 rank), 4 (2 ranks), 3 (3 ranks) x 4 ways of reading x 1-2 files; 25 raw and 27 derived array types x rows 0/1/2 per rank x shapes x with/without ghosts',
    assumptions=[SIMNOTE, FAKE])
CHECKS['C08'] = dict(runs=[dict(harness='ser', args=['--opt', 'mode=json'])],
    technique='exhaustive enumeration of write/read programs, executed by the real JSON serializer and array code, ghosts in a simulated MPI world',
    meaning='as C07', bounds='as C07 with 1-2 ranks and 5 codec settings', assumptions=[SIMNOTE, 'base64 codec supplied by the harness (cppcodec is not installed)'])
CHECKS['C16']['assumptions'].append(FAKE)
CHECKS['C25'] = dict(runs=[dict(harness='vr', args=[])],
    technique='exhaustive enumeration of assignments of cells to ranks, orders and settings; the real mesh, metric, reconstruction and limiter code runs in a simulated MPI world and is compared with independent geometry, with polynomials and with its serial run',
    meaning='one case = mesh, assignment, order and settings through metrics, base functions, reconstruction, derivative, second-order gradients, indicators and limiters; state = distinct reconstruction of non-polynomial data; transition = MPI call or sweep; trace = case compared with the serial run and the model',
    bounds='24 meshes of 1-8 cells (all element types, curved, periodic, rotational); orders 1-3 x 16 settings with one assignment each (3D order 3: default settings in quick); all assignments of up to 300 (2D) / 90 (3D) on 1-4 ranks, thorough 5000 x orders x 4 settings; all delivery configurations of 3 ranks on 4 meshes',
    assumptions=[SIMNOTE, 'pyramids whose map is not affine: loose geometric tolerance, partition independence only', 'attraction: distance halves within 1500 sweeps'])
EM = ('euler_ns_2d', 'euler_ns_3d', 'euler_ns_2eq', 'euler_ns_sa')
CHECKS['C26'] = dict(runs=[dict(harness=m, args=[]) for m in EM],
    technique='exhaustive enumeration of assignments of cells to ranks, boundary conditions, fluxes and frames; the real evaluator runs in a simulated MPI world and is compared with an independent cell-wise residual, with conservation and with free-stream preservation',
    meaning='one case = mesh, assignment, boundary conditions and settings, one residual and time-step evaluation compared on every cell of every rank; state = distinct residual; transition = MPI call or evaluation; trace = case compared with the independent residual',
    bounds='laminar 2D and 3D, one-equation and two-equation models; meshes of 1-8 cells, plain, periodic and rotational; all assignments of up to 700 (2D) / 70 cap per mesh and rank count on 1-4 ranks (thorough x20), 11 offsets of boundary conditions, all Riemann solvers, rotating frame, body forces, direct second order; all delivery configurations on selected cases',
    assumptions=[SIMNOTE, 'turbulence source terms and turbulent viscosity formulas are taken from the code (its public functions), their assembly is checked', 'user expressions (exprtk is not installed) are not evaluated'])
CHECKS['C27'] = dict(runs=[dict(harness=m, args=['--opt', 'mode=impl']) for m in EM[:3]],
    technique='exhaustive enumeration of assignments of cells to ranks, settings and unit increments; the real evaluator builds and applies its implicit operator in a simulated MPI world and is compared with the linearised flux and with dense linear algebra',
    meaning='one case = mesh, assignment and settings: the operator is probed with every unit increment and its sweeps and factorisations are compared with the dense reference; state = distinct operator; transition = MPI call or application; trace = case compared',
    bounds='meshes of 1-8 cells, plain, periodic and rotational; all assignments up to a cap on 1-4 ranks; scalar and Roe dissipation; Gauss-Seidel and Jacobi sweeps in both directions, lower-upper sweeps, complete LU with five orderings',
    assumptions=[SIMNOTE, 'the linearisation is that of the first-order flux with the documented scalar or Roe dissipation'])
