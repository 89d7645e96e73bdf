prop("C01", "Row container: every operation history behaves like a list of rows",
  "For each of the five storage layouts of the 2-D array (static/dynamic fixed width, static/dynamic maximum width, compressed or uncompressed variable width), any legal sequence of resize, row-resize, compress, decompress, element write, swap, copy and copy-back leaves sizes, row sizes and every element that survives the operation exactly as the same sequence on a plain list of rows would. Switching between compressed and uncompressed storage is invisible to readers, and a copy of an array never changes when the original is changed, nor the reverse.",
  ["histories", "configurations"], "all operation sequences up to a depth bound, on all five layouts, with up to a few rows and row widths, over one array and a copy of it",
  "Existing tests run one fixed sequence per layout and print it; aliasing, empty arrays, zero-width rows and interleavings of compress/resize/copy are never compared with anything.",
  ["src/DNDS/Array.hpp"],
  [("compressed/uncompressed dual storage and row-start table", "Array::CSRCompress, CSRDecompress, Resize, ResizeRow"), ("copy-on-write of shared row sizes", "Array::ResizeRow, Array::Resize"), ("data swap and copy", "Array::SwapData, CopyData")],
  ["Size()", "RowSize(i)", "operator()(i,j)", "operator[](i)"])

prop("C02", "Derived arrays (adjacency, vectors, matrices, batches) store what was written",
  "A value written through a row, vector, matrix or matrix-batch view of a distributed array is what every later read of that entry returns, with the dimensions it was given, and no other entry changes. This holds for every supported combination of static, dynamic and per-row dimensions, for any order of sizing and writing rows, for copies of the array, and for ghost copies where the matrix dimensions are common to all rows or carried by the row.",
  ["histories", "configurations"], "all small shape combinations and write orders for each derived array type",
  "The test for derived arrays is not part of the passing suite and only prints; shapes, per-row matrix sizes, batches of different sizes and empty batches are never checked.",
  ["src/DNDS/ArrayDerived/ArrayAdjacency.hpp", "src/DNDS/ArrayDerived/ArrayEigenVector.hpp", "src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp", "src/DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp", "src/DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"],
  [("matrix views over rows", "ArrayEigenMatrix::operator[], ResizeMat, ResizeRow"), ("header-packed matrix batches", "ArrayEigenMatrixBatch::InitializeWriteRow, operator()"), ("uniform matrix batches", "ArrayEigenUniMatrixBatch::ResizeBatch, operator()")],
  ["operator[](i)", "operator()(i,j)"])

prop("C03", "Global numbering and ghost index maps are exact inverse bijections",
  "Given the local sizes of all ranks, the global numbering assigns every owned entry exactly one global index, contiguous by rank, and looking up any global index returns exactly the owning rank and its local position, and failure for anything outside. Given any per-rank set of requested indices (repeated, unordered or already owned ones included), the ghost map lists each requested index exactly once, sorted and grouped by owner, every lookup form agrees with it, and the owners' send lists are exactly the transposed request lists, whether the map was built from requests or from the equivalent send lists.",
  ["inputs", "configurations"], "all size vectors (empty ranks included) and all request subsets for small numbers of ranks and entries",
  "Tests use one hand-written pattern per rank count; empty ranks, empty requests, self requests and duplicates are outside it.",
  ["src/DNDS/IndexMapping.hpp"],
  [("offset table and search", "GlobalOffsetsMapping::search, operator()"), ("ghost map construction", "OffsetAscendIndexMapping constructors"), ("ghost lookups", "search, search_indexAppend, search_indexRank, operator()")],
  ["pLGlobalMapping", "pLGhostMapping"])

prop("C04", "Ghost pull delivers the owners' current rows to every ghost",
  "After a completed pull, every ghost row on every rank equals, in width and in every element, the owner's row as it was when the pull was started, and owned rows are untouched. This holds for every layout and element type, every ghost pattern, every combination of communication settings and every history of earlier pulls, pushes and data changes, whether one-shot or persistent.",
  ["inputs", "histories", "configurations"], "all ghost request patterns on small distributed arrays, all layouts, both packing strategies and all wait settings, all operation sequences up to a depth bound",
  "Tests pull one pattern at 1, 2 and 4 ranks with default settings; rows of zero width, ranks without data, the packing strategy and repeated persistent pulls are not checked.",
  ["src/DNDS/ArrayTransformer.hpp", "src/DNDS/ArrayPair.hpp"],
  [("derived datatypes / in-situ packing", "ArrayTransformer::createMPITypes, __InSituPackStartPull"), ("persistent requests", "initPersistentPull, startPersistentPull, waitPersistentPull")],
  ["son rows after waitPersistentPull / pullOnce"])

prop("C05", "Ghost push returns ghost rows to their owners and changes nothing else",
  "After a completed push, every owned row that has a ghost copy somewhere equals the value held by a rank that had it as a ghost when the push started, every owned row without a ghost copy keeps its value, and ghost rows are untouched. This holds for every layout, ghost pattern, communication setting and history.",
  ["inputs", "histories", "configurations"], "all ghost request patterns on small distributed arrays, all layouts, both packing strategies and all wait settings, all operation sequences up to a depth bound",
  "No passing test pushes anything back to owners on more than one pattern; unused trailing ranks and variable-width rows are never pushed.",
  ["src/DNDS/ArrayTransformer.hpp"],
  [("reverse use of the pull types", "initPersistentPush, startPersistentPush, waitPersistentPush"), ("in-situ unpacking", "__InSituPackStartPush, waitPersistentPush")],
  ["father rows after waitPersistentPush / pushOnce"])

prop("C06", "Ghost exchange completes and gives one result under every schedule",
  "Every collective use of ghost exchange terminates, and all ranks obtain the same data for every relative speed of the ranks, every choice of the MPI library to buffer or to synchronise sends, and every setting of the waiting and packing options. No request, datatype or message is left behind, no message is matched to the wrong exchange, and no buffer is touched while a transfer using it is in flight.",
  ["schedules", "configurations"], "all rank interleavings up to a deviation bound around several base schedules, for both send-buffering extremes, early and late data movement, over all settings",
  "A test run sees a single schedule and a library that buffers small messages, which hides missing receives, order dependence and premature reuse of buffers.",
  ["src/DNDS/ArrayTransformer.hpp", "src/DNDS/MPI.cpp", "src/DNDS/MPI.hpp", "src/DNDS/ArrayPair.hpp"],
  [("receive-before-send posting order and tags", "ArrayTransformer::start*/wait*"), ("polling wrappers around blocking MPI calls", "MPI::WaitallLazy, BarrierLazy, Bcast, Alltoallv, ..."), ("request/datatype holders", "MPIReqHolder, MPITypePairHolder")],
  ["completion of all ranks", "son/father rows", "live MPI handles"])

prop("C07", "Saved arrays are read back identically from the shared HDF5 file",
  "Whatever scalars, strings, vectors, shared vectors and distributed arrays are written collectively to an HDF5 file are read back with identical values, sizes and per-rank distribution, for every layout, for empty contributions of any rank, and for every setting of chunking, compression and collective I/O. Nested paths keep their contents apart, and vectors shared between several arrays are shared again after reading.",
  ["inputs", "configurations", "histories"], "all layouts x element types x small per-rank size distributions x storage settings x numbers of ranks",
  "The existing test writes one fixed set of arrays at three rank counts and does not vary settings or leave ranks empty.",
  ["src/DNDS/SerializerH5.cpp", "src/DNDS/SerializerBase.hpp", "src/DNDS/Array.hpp", "src/DNDS/ArrayPair.hpp"],
  [("per-rank offsets and hyperslab selection", "SerializerH5 vector read/write"), ("shared pointer de-duplication", "SerializerBase dedup tables"), ("array signature and row tables", "Array::WriteSerializer, ReadSerializer")],
  ["Read* results after re-opening the file"])

prop("C08", "Saved arrays are read back identically from the per-rank JSON file",
  "Whatever scalars, strings, vectors, shared vectors and arrays are written to a JSON file are read back with identical values and sizes, with or without compression of binary data, including empty vectors, empty arrays, all byte values and non-finite or denormal reals stored in arrays. Relative and absolute paths address the same entries on write and on read.",
  ["inputs", "configurations"], "all layouts x small sizes x codec settings x path navigation sequences",
  "The JSON serializer has no passing test here.",
  ["src/DNDS/SerializerJSON.cpp", "src/DNDS/SerializerBase.hpp", "src/DNDS/Array.hpp"],
  [("path handling", "processPath, CreatePath, GoToPath"), ("binary encoding", "WriteUint8Array, ReadUint8Array")],
  ["Read* results after re-opening the file"])

prop("C09", "Object pool never lends one object twice and gets every loan back",
  "At any time every pooled object is either free in the pool or held by exactly one live handle, and the number of free objects plus handles always equals the number of objects created by allocations. This holds for every sequence of allocate, get, get-or-allocate, move, move-assignment, handle destruction, resize and pool recreation in any order, and each object is destroyed exactly once.",
  ["histories"], "all operation sequences up to a depth bound over a pool and a few handle slots",
  "The test performs one fixed sequence.",
  ["src/DNDS/ObjectPool.hpp"],
  [("unique handle returning its object on destruction", "ObjectPool::Reference"), ("pool stack", "ObjectPool::get, getAllocInit, resize, resizeInit, recycle")],
  ["size()", "identity of lent objects", "constructor/destructor counts"])

prop("C10", "Distributing a mesh over any partition preserves the mesh",
  "For every assignment of cells to ranks, redistributing a serial mesh gives each cell to exactly the assigned rank and every cell, boundary face and node to exactly one rank, and cell types, zones, node lists, boundary-to-cell links, periodic tags and coordinates equal those of the serial mesh up to renumbering. A boundary face lives on the rank of its cell, ranks without cells are allowed, and gathering the mesh again restores the serial mesh.",
  ["inputs", "configurations", "schedules"], "all partitions of small meshes of several element types over small numbers of ranks",
  "No test builds or distributes a mesh (no mesh file is available); one partition produced by a partitioner would be one point of the space anyway.",
  ["src/Geom/Mesh_Serial_Partition.cpp", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp", "src/Geom/Mesh.cpp"],
  [("partition to index conversion and transfer", "UnstructuredMeshSerialRW::PartitionReorderToMeshCell2Cell"), ("dual graph of the serial mesh", "BuildCell2Cell")],
  ["cell2node, bnd2node, bnd2cell, cell2cell, coords, cellElemInfo, bndElemInfo on all ranks", "serial arrays after BuildSerialOut"])

prop("C11", "Parallel adjacency and halo are complete and inverse to each other",
  "For every mesh and partition, the node-to-cell and node-to-boundary relations built in parallel are the exact inverses of the cell-to-node and boundary-to-node relations, and the cell-to-cell relation links exactly the cells that share a node. Each rank's halo contains exactly the cells adjacent to its own cells and all nodes of its own and halo cells, each once and with the owner's data, and converting adjacency between global and local numbering and back restores it exactly.",
  ["inputs", "configurations", "schedules"], "all partitions of small meshes of several element types over small numbers of ranks",
  "No test builds a distributed mesh.",
  ["src/Geom/Mesh.cpp", "src/Geom/Mesh.hpp"],
  [("relation inversion over ranks", "RecoverNode2CellAndNode2Bnd, RecoverCell2CellAndBnd2Cell"), ("ghost construction", "BuildGhostPrimary, BuildGhostN2CB"), ("index conversion", "AdjGlobal2LocalPrimary, AdjLocal2GlobalPrimary and variants")],
  ["cell2node, cell2cell, node2cell, node2bnd, bnd2cell, coords"])

prop("C12", "Interpolated faces match the cells they separate exactly once",
  "For every mesh and partition, each pair of cells sharing a full face is linked by exactly one global face, each unshared face is one boundary face carrying the zone of the boundary element on it, and each cell lists one face per face of its element type, in that order. Face node lists equal the owning cell's local face, the second cell (if any) contains the same nodes, and owners and ghosts agree about every face.",
  ["inputs", "configurations", "schedules"], "all partitions of small meshes of several element types over small numbers of ranks",
  "No test builds faces of a distributed mesh.",
  ["src/Geom/Mesh.cpp"],
  [("face matching and ownership", "InterpolateFace"), ("face numbering conversion", "AdjLocal2GlobalFacial, AdjGlobal2LocalFacial"), ("boundary to face links", "bnd2face, face2bnd")],
  ["cell2face, face2cell, face2node, faceElemInfo, bnd2face, face2bnd"])

prop("C13", "Periodic images are identified consistently across the whole mesh",
  "For every periodic mesh (boxes and rotated sectors) and partition, merging periodic nodes makes opposite boundary nodes one node, every cell still sees its own geometry through the recorded shifts, and the two cells on either side of a periodic boundary become neighbours through one face. Coordinates seen from both sides of a periodic face differ by exactly the periodic shift, shifting forth and back is the identity, and expanding the periodic nodes again, for output of the mesh and of its boundary, restores the original cells.",
  ["inputs", "configurations"], "small periodic boxes in one, two and three directions, translational and rotational, over all partitions",
  "No test uses periodicity.",
  ["src/Geom/PeriodicInfo.hpp", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp", "src/Geom/Mesh.cpp"],
  [("periodic transforms", "Periodicity::TransCoord, TransCoordBack, GetCoordByBits"), ("1-to-1 deduplication", "Deduplicate1to1Periodic"), ("periodic bits on cell and face nodes", "cell2nodePbi, face2nodePbi, RecreatePeriodicNodes")],
  ["cell coordinates through periodic bits", "face2cell", "recreated periodic coordinates"])

prop("C14", "Local cell renumbering permutes the mesh and changes nothing else",
  "Renumbering the cells of each rank applies one permutation of its owned cells consistently to all relations, cell data and ghosts on all ranks: after it, the mesh is the same mesh up to that permutation, and nodes, boundary elements and faces keep their numbers. The orderings offered for factorization are permutations of the rank's cells, and the neighbour graph they are computed from links exactly the rank's cells that share a face.",
  ["inputs", "configurations", "schedules"], "all partitions of small meshes x with and without faces, node relations and recovered adjacency x repeated renumbering",
  "No test reorders a mesh.",
  ["src/Geom/Mesh.cpp", "src/Geom/SerialAdjReordering.hpp", "src/Geom/CorrectRCM.hpp"],
  [("permutation transfer through a ghost exchange", "UnstructuredMesh::ReorderLocalCells"), ("bandwidth-reducing order", "ReorderSerialAdj_CorrectRCM, ObtainLocalFactFillOrdering, GetCell2CellFaceVLocal")],
  ["all mesh relations on all ranks, local face graph, factorization orderings"])

prop("C15", "Order elevation and refinement keep the geometry of the mesh",
  "Raising a first-order mesh to second order keeps every original node, adds exactly one node per distinct edge, face or cell centre, places it at the centre of its parent nodes and shares it between all elements that contain them, on every rank. Bisecting the raised mesh produces, for each cell, the sub-cells of its element type, which tile the cell exactly and match across neighbours.",
  ["inputs", "configurations"], "all partitions of small meshes of all element types",
  "No test elevates or refines a mesh.",
  ["src/Geom/Mesh_Elevation.cpp", "src/Geom/Elements.hpp"],
  [("new node creation and de-duplication", "BuildO2FromO1Elevation"), ("element bisection", "BuildBisectO1FormO2, GetO2Bisect tables")],
  ["coords, cell2node, elemInfo of the new mesh"])

prop("C16", "A saved distributed mesh is restored exactly",
  "Writing a distributed mesh and reading it back on the same number of ranks restores every relation, coordinate, element type, zone and periodic tag on every rank, including ranks without cells, so that all derived data built afterwards are the same as before saving.",
  ["inputs", "configurations"], "all partitions of small meshes, plain and periodic",
  "No test saves a mesh.",
  ["src/Geom/Mesh.cpp", "src/DNDS/ArrayPair.hpp"],
  [("mesh serialization", "UnstructuredMesh::WriteSerialize, ReadSerialize")],
  ["mesh after ReadSerialize"])

prop("C17", "Element tables, shape functions and face numbering are consistent",
  "For every element type, the nodes of each listed face are nodes of the element forming that face's type, every inner edge and face is shared consistently with outward orientation, and shape functions equal one at their own node, zero at the others, sum to one everywhere and reproduce every polynomial of the element's space. Their listed derivatives, up to the supported order, are the derivatives of the same functions, and the elevated, bisected and exported node orders describe the same element.",
  ["inputs", "configurations"], "all element types x all faces x all nodes x all monomials of the element space x all derivative orders",
  "Tests check the nodal delta property at the nodes and print the faces; derivatives, completeness, orientation and refinement tables are not checked.",
  ["src/Geom/Elements.hpp", "src/Geom/Elements.cpp"],
  [("element traits and tables", "Element::GetNumFaces, ObtainFace, ExtractFaceNodes"), ("shape functions", "ShapeFunc_DiNj, GetNj, GetD1Nj, GetDiNj"), ("elevation/bisection tables", "ObtainElevNodeSpan, ExtractElevNodeSpanNodes, ExtractBisectElemNodes")],
  ["returned shape values and node lists"])

prop("C18", "Quadrature rules integrate polynomials of their stated degree exactly",
  "For every element shape and every supported integration order, the quadrature points lie inside the reference element, the weights are positive where stated by the rule and sum to its volume, and every monomial up to the requested degree is integrated exactly. Integrating any function over an element visits each point exactly once with its own weight.",
  ["inputs", "configurations"], "all element shapes x all integration orders x all monomials up to the order",
  "No passing test evaluates a quadrature rule.",
  ["src/Geom/Quadrature.hpp"],
  [("point tables", "Quadrature::GetQuadraturePoint, GetQuadratureScheme"), ("integration loop", "Quadrature::Integration, IntegrationSimple")],
  ["integration results"])

prop("C19", "Sparse direct factorization solves every small pattern exactly",
  "For every symmetric sparsity pattern and nonsingular diagonally dominant block matrix on it, the complete local factorization followed by the solve returns the solution of the assembled matrix, the matrix-vector product equals the assembled one, and the incomplete factorization reproduces the matrix on its own pattern. Symbolic factorization lists exactly the fill-in of the elimination.",
  ["inputs", "configurations"], "all symmetric graphs up to a size bound x fill levels x block types, factorized and solved",
  "No test runs the direct solvers.",
  ["src/Solver/Direct.hpp"],
  [("symbolic analysis", "SerialSymLUStructure::ObtainSymmetricSymbolicFactorization"), ("numeric factorization and solve", "LocalLUBase::InPlaceDecompose, Solve, MatMul, LocalLDLTBase")],
  ["Solve, MatMul results"])

prop("C20", "Graph reordering returns valid permutations with the bandwidth it reports",
  "Every reordering routine returns a permutation of the vertices together with its exact inverse, and reports the bandwidths that the original and the permuted graph actually have. The built-in Cuthill-McKee order handles disconnected graphs, isolated vertices, the empty graph and any start vertex, numbers each connected piece contiguously in breadth-first layers, and rejects asymmetric, repeated or out-of-range adjacency. Minimum degree ordering produces no fill on forests.",
  ["inputs", "configurations"], "all graphs up to a size bound x all start vertices x all reordering routines",
  "No test runs the reordering routines.",
  ["src/Geom/SerialAdjReordering.hpp", "src/Geom/CorrectRCM.hpp", "src/Geom/Mesh_Serial_Partition.cpp"],
  [("Cuthill-McKee with component restarts", "ReorderSerialAdj_CorrectRCM, CorrectRCM"), ("graph partition wrapper", "PartitionSerialAdj_Metis, ReorderSerialAdj_PartitionMetisC")],
  ["returned permutations and bandwidths"])

prop("C21", "Krylov solvers converge to the solution of the linear system",
  "For every nonsingular system, preconditioner, right-hand side (zero or in an invariant subspace included) and initial guess, each restart of GMRES returns the vector of smallest preconditioned residual in its Krylov subspace, so a full subspace gives the solution, and the stop test is handed the true residual norms. Preconditioned conjugate gradient follows its recurrence, across calls and resets, and solves every symmetric positive definite system within its dimension. Convergence is never reported without the stop test having been met, and right-hand side and operators are not altered.",
  ["inputs", "histories"], "all matrices and right-hand sides from a finite alphabet up to a size bound x subspace sizes x restarts",
  "Tests run one matrix each.",
  ["src/Solver/Linear.hpp"],
  [("Arnoldi with least squares", "GMRES_LeftPreconditioned::solve"), ("conjugate gradient recurrence", "PCG_PreconditionedRes::solve")],
  ["returned x, convergence flag"])

prop("C22", "Time integrators keep their order for every sequence of time steps",
  "Every time integrator integrates, up to the tolerance of the inner solve, exactly what a scheme of its order must integrate exactly (the systems of all rooted trees up to that order, with explicit time dependence), for every history of consecutive step sizes it supports and for every restart in between. The right-hand side is evaluated at the abscissae of the scheme, multistep schemes use the coefficients of the actual step sizes and only completed steps of the current history, a limited step without active limiter equals the plain step, and the latest right-hand side reported is that of the last evaluation.",
  ["histories", "configurations"], "all step-size histories over a finite alphabet up to a depth bound x all schemes x all start-up variants",
  "No passing test runs an ODE integrator.",
  ["src/Solver/ODE.hpp"],
  [("explicit and implicit Runge-Kutta stages", "ExplicitSSPRK3TimeStepAsImplicitDualTimeStep, ImplicitSDIRK4DualTimeStep"), ("multistep coefficients and history rotation", "ImplicitBDFDualTimeStep, ImplicitVBDFDualTimeStep"), ("Hermite schemes", "ImplicitHermite3SimpleJacobianDualStep")],
  ["x after Step", "arguments of the user callbacks"])

prop("C23", "Gas relations and Riemann fluxes are consistent, symmetric and bounded",
  "Conversion between conservative and primitive variables is an exact inverse pair, left and right eigenvectors diagonalise the flux Jacobian, increments and gradients follow the chain rule, and the Roe average satisfies the jump relation. Every numerical flux equals the exact flux for equal states, changes sign when the face is flipped and the states exchanged, is unchanged by rotating the frame and transforms correctly to a moving frame and moving face; it is the upwind flux when all waves travel one way, contacts are carried exactly by the contact resolving fluxes, and Roe type fluxes dissipate along the eigenvectors with the speeds they report. Batched evaluation equals single evaluation, and an increment shortened by the pressure limiter never takes internal energy below the bound and is not shortened needlessly.",
  ["inputs", "configurations"], "all pairs of states from a finite grid of densities, velocities and pressures x all flux types x face directions and dimensions",
  "The test of this file prints values for a few states.",
  ["src/Euler/Gas.hpp"],
  [("thermodynamics", "IdealGasThermalConservative2Primitive, IdealGasThermalPrimitive2Conservative"), ("Riemann solvers", "InviscidFlux_IdealGas_Dispatcher, RoeFlux_IdealGas_HartenYee, HLLEPFlux_IdealGas, HLLCFlux_IdealGas_HartenYee"), ("positivity limiting", "IdealGasGetCompressionRatioPressure")],
  ["returned fluxes and states"])

prop("C24", "Limiters are symmetric, exact on agreement and never overshoot",
  "Every slope limiter used for reconstruction returns the common value when its arguments agree, returns a value between the smallest and largest argument (zero where the two-sided limiters see a sign change or an argument is zero), and scales with its arguments. The weighted limiters are the average with weights of the inverse fourth power of the argument (or of its norm), the central one counted n-fold; minmod and van Leer are their textbook formulas; the minimum-norm limiter picks the argument of smallest norm. Components, neighbours and the orientation of the frame are treated alike: the result does not depend on their order or on a rotation for the norm based limiters.",
  ["inputs", "configurations"], "all argument tuples from a finite grid of magnitudes and signs x all limiters x component counts",
  "No test calls a limiter.",
  ["src/CFV/Limiters.hpp"],
  [("biway and multiway limiters", "FWBAP_L2_Biway, FWBAP_L2_Multiway, FMINMOD_Biway, FVanLeer_Biway, FMEMM_Biway_PolynomialNorm")],
  ["limiter results"])

prop("C25", "Reconstruction is polynomial-exact and independent of the partition",
  "For every mesh of the supported element types and every assignment of cells to ranks, cell volumes, face areas, normals and barycentres are those of the geometry, faces of each cell close, and iterated variational reconstruction of cell averages of a polynomial of the scheme's degree converges to that polynomial and keeps it, in place, into a second array and as increment, with boundary values evaluated from the whole current reconstruction and a unit outward normal. The derivative of the increment is its derivative. Explicit second-order gradients are exact on linear data where the method allows, and limiting leaves the reconstruction of a polynomial and of cells marked smooth unchanged. The reconstructed coefficients of each cell are the same, up to rounding, for every partition and on owners and ghosts alike.",
  ["inputs", "configurations", "schedules"], "all partitions of small meshes (2D, 3D, periodic, rotational, curved) x orders 1-3 x 16 settings of base, weights, quadrature, caches and sweeps",
  "No test runs the reconstruction (no mesh file is available).",
  ["src/CFV/VariationalReconstruction.cpp", "src/CFV/VariationalReconstruction.hpp", "src/CFV/VariationalReconstruction_Reconstruction.hxx", "src/CFV/VariationalReconstruction_LimiterProcedure.hxx", "src/Geom/BaseFunction.hpp"],
  [("metrics", "VariationalReconstruction::ConstructMetrics"), ("base functions and weights", "ConstructBaseAndWeight"), ("coefficients and iteration", "ConstructRecCoeff, DoReconstructionIter, DoReconstruction2nd")],
  ["volumes, face normals, reconstruction coefficients"])

prop("C26", "The discrete residual is conservative, consistent and partition independent",
  "For every mesh, every assignment of cells to ranks and every supported combination of boundary conditions, Riemann solvers, frames and body forces, the right-hand side of a cell is the sum of the numerical fluxes of its own faces plus its source, divided by its volume: the face flux is the chosen Riemann flux of the two reconstructed states minus the viscous flux of the face gradients, boundary states are those the boundary condition defines, and periodic faces see the turned neighbour. What leaves one cell enters the other, so on a periodic mesh the total is zero (sources apart), a uniform stream keeps a zero residual, the local time step is that of the face wave speeds, and the integrated boundary fluxes and forces reported are the sums over the boundary faces of all ranks. All of these are the same for every partition and every message order.",
  ["inputs", "configurations", "schedules"], "all partitions of small meshes (2D, 3D, periodic, rotational) x boundary condition assignments x Riemann solvers x frames and forces x flow models",
  "No test runs the flow solver.",
  ["src/Euler/EulerEvaluator_EvaluateRHS.hxx", "src/Euler/EulerEvaluator_EvaluateDt.hxx", "src/Euler/EulerEvaluator.hpp", "src/Euler/EulerEvaluator.hxx", "src/Euler/RANS_ke.hpp", "src/Euler/Gas.hpp"],
  [("residual", "EulerEvaluator::EvaluateRHS"), ("fluxes and boundary states", "fluxFace, generateBoundaryValue, source"), ("time step", "EvaluateDt")],
  ["residuals, time steps, boundary integrals"])

prop("C27", "The implicit operator and its sweeps solve the system they are built from",
  "The diagonal and neighbour blocks the implicit solver builds are the derivative of the first-order flux with the documented dissipation, so that the matrix-free product, the stored blocks and the complete factorisation are one and the same operator, and this operator is the same for every partition, turned correctly across rotational periodicity. Gauss-Seidel, Jacobi and lower-upper sweeps perform exactly the elimination they are named after on the cells of a rank with the received values of the others, report the change they made, and the complete direct preconditioner solves the rank-local system exactly for every ordering.",
  ["inputs", "configurations", "schedules"], "all partitions of small meshes x settings; operator probed with every unit vector",
  "No test runs the implicit solver.",
  ["src/Euler/EulerEvaluator.hxx", "src/Euler/EulerEvaluator.hpp", "src/Euler/EulerJacobian.hpp", "src/Solver/Direct.hpp"],
  [("operator", "LUSGSMatrixInit, LUSGSMatrixVec, LUSGSMatrixToJacobianLU"), ("sweeps", "UpdateSGS, UpdateSGSWithRec, UpdateLUSGSForward, UpdateLUSGSBackward"), ("direct solve", "LUSGSMatrixSolveJacobianLU")],
  ["operator products, sweep results, reported sums"])
