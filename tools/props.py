"""The table of properties: the source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
NOTES = ("All checks run the real code, compiled from /repo's working tree (g++, ASan+UBSan where stated), as MPI programs on "
         "this machine; the compiler cache in /verif/.cache only saves time. VERIF_SEED drives every random choice.")
ASAN = "Runtime monitoring: sampled executions, not a proof. Trusts Open MPI, Eigen, HDF5, the compiler and the monitor itself. "
PROPS = []


def P(id, title, statement, over, forall, why, files, mech, technique, note, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files,
                      mech=mech, technique=technique, note=note, na=na))


P("C01", "Ghost exchange delivers exactly the owner's rows",
  "After a pull completes, every ghost row equals, bit for bit, the row its owning rank held when the pull was made, and after a "
  "push every owned row that was pushed equals the pushed ghost row; no other row changes and no row outside the arrays is read or written. "
  "This holds for every row layout, exchange strategy, repetition, re-initialisation and message timing, and the exchange always completes.",
  ["schedules", "histories", "inputs", "configurations"],
  "every array layout and element type, every global-to-ghost index set (duplicates, empty ranks, own rows), every sequence of "
  "pull/push start, wait, clear and re-initialise calls, every rank count and message timing",
  "The repository's tests exchange a few regular arrays once with the default strategy on up to 4 ranks.",
  ["src/DNDS/ArrayTransformer.hpp", "src/DNDS/IndexMapping.hpp", "src/DNDS/ArrayPair.hpp", "src/DNDS/MPI.cpp"],
  [("persistent pull/push", "src/DNDS/ArrayTransformer.hpp: initPersistentPull/Push, startPersistent*, waitPersistent*"),
   ("in-situ pack strategy", "src/DNDS/ArrayTransformer.hpp: InSituPack branches"),
   ("MPI datatypes of rows", "src/DNDS/ArrayTransformer.hpp: createMPITypes")],
  "online reference-model monitor over random exchange histories with injected message delays, under ASan/UBSan",
  ASAN + "Exchange histories on 1-8 ranks, all strategies, both MPI completion modes, with PMPI-injected delays and synchronous sends.")
P("C02", "Global/local/ghost index mappings are exact inverses",
  "For every distribution of rows over ranks, looking up a global row gives the one rank and local position that owns it, and converting "
  "back gives the same global row; ghost lookups find every requested ghost row at a position that maps back to it, report rows that are "
  "neither owned nor ghost as absent, and send lists of owners match the receive lists of requesters one to one.",
  ["inputs", "configurations"],
  "every partition (including empty ranks), every set of requested global rows (unsorted, repeated, own), every rank count",
  "The tests only build a few hand-made mappings and print them.",
  ["src/DNDS/IndexMapping.hpp", "src/DNDS/ArrayTransformer.hpp"],
  [("global mapping", "src/DNDS/IndexMapping.hpp: GlobalOffsetsMapping"), ("ghost mapping", "src/DNDS/IndexMapping.hpp: OffsetAscendIndexMapping")],
  "runtime oracle over random partitions and ghost sets, exhaustive lookup of every index, under ASan/UBSan",
  ASAN + "All lookups on random distributions of up to some hundred rows on 1-8 ranks are compared with a brute-force global model.")
P("C03", "Array containers behave as a vector of rows",
  "Whatever sequence of resizing, row-resizing, compressing, decompressing, copying, swapping, cloning, assigning and writing is applied, "
  "an array of any layout reads back exactly as a simple list of rows of the same history does, and copies stay independent of their originals. "
  "No valid operation reads or writes outside the array's storage.",
  ["histories", "inputs", "programs"],
  "every history of container operations, for every fixed/variable/padded/CSR layout, element type, matrix and batch array",
  "Tests touch one layout each with one short straight-line history.",
  ["src/DNDS/Array.hpp", "src/DNDS/ArrayDerived/ArrayAdjacency.hpp", "src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp",
   "src/DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp", "src/DNDS/ArrayDerived/ArrayEigenVector.hpp", "src/DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"],
  [("layouts and compression", "src/DNDS/Array.hpp: Resize, ResizeRow, Compress, Decompress"),
   ("derived matrix arrays", "src/DNDS/ArrayDerived/*.hpp")],
  "model-based trace monitor (list-of-rows reference) over random operation histories, under ASan/UBSan",
  ASAN + "Random histories on every layout; the reference model is compared after every operation.")
P("C04", "What is written through a serializer reads back identically",
  "Any document of nested groups, scalars, strings, vectors, distributed arrays of every layout and owned/ghost array pairs written by a set "
  "of ranks reads back value for value identical on the same ranks, through the text and the binary (compressed or not, collective or not) "
  "back ends, in any read order; vectors shared at writing are shared again after reading. It holds with ranks that own nothing and never "
  "touches memory that has been released.",
  ["inputs", "histories", "configurations"],
  "every document, rank count, distribution (including empty ranks) and back-end setting; finite floating-point values",
  "The existing test writes one fixed document with one setting.",
  ["src/DNDS/SerializerH5.cpp", "src/DNDS/SerializerJSON.cpp", "src/DNDS/SerializerBase.hpp", "src/DNDS/Array.hpp", "src/DNDS/ArrayPair.hpp"],
  [("HDF5 back end", "src/DNDS/SerializerH5.cpp"), ("JSON back end", "src/DNDS/SerializerJSON.cpp"),
   ("array documents", "src/DNDS/Array.hpp: WriteSerializer/ReadSerializer")],
  "write/read-back oracle over random documents and back-end settings, under ASan/UBSan",
  ASAN + "Random documents on 1-8 ranks. Base64/zlib text encoding goes through a base64 shim because the original header is not installed.")
P("C05", "Pooled objects are exclusive, reusable and never lost",
  "An object taken from a pool belongs to one holder until that holder drops it, then returns to the pool ready for reuse unless the pool is gone, "
  "in which case it is destroyed exactly once; however takes, drops, moves and pool resets interleave, no object is handed out twice, leaked or used after destruction.",
  ["histories", "inputs"],
  "every interleaving of take, allocate-if-empty, move, drop, resize and pool destruction",
  "The existing test runs one fixed sequence.",
  ["src/DNDS/ObjectPool.hpp"],
  [("pool and handle", "src/DNDS/ObjectPool.hpp: ObjectPool, ObjectPoolAllocated")],
  "trace monitor counting constructions, holders and destructions over random histories, under ASan/UBSan",
  ASAN + "Single-threaded histories, as the library uses the pool.")

P("C06", "Every element type is a consistent, conforming finite element",
  "For each supported cell and face shape, linear and quadratic: shape functions are one at their node and zero at the others, sum to one and "
  "reproduce coordinates (and all quadratics where the element is second order) at every point; all their derivatives up to third order are "
  "the true derivatives; faces are listed with outward orientation, close the element and carry the face element's own shape functions; "
  "quadrature rules integrate every polynomial up to their degree exactly with points inside; second-order elevation, the split of a second-order "
  "element and the VTK node order describe the same shape, without gaps or overlaps.",
  ["inputs"],
  "every element type, every point of the reference element, every quadrature order, every pair of cells sharing nodes",
  "Tests check partition of unity at a few points of some elements.",
  ["src/Geom/Elements.hpp", "src/Geom/Elements.cpp", "src/Geom/Quadrature.hpp"],
  [("shape functions and derivatives", "src/Geom/Elements.hpp: Element::GetNj, GetD1Nj, GetDiNj"), ("faces", "src/Geom/Elements.hpp: ObtainFace, ExtractFaceNodes"),
   ("quadrature tables", "src/Geom/Quadrature.hpp"), ("elevation and bisection patterns", "src/Geom/Elements.hpp: ObtainElevNodeSpan, ObtainO2BisectElement"), ("VTK order", "src/Geom/Elements.hpp: ToVTKVertsAndData")],
  "runtime oracles (closed-form integrals, difference quotients, conformity) over all element types and random points, under ASan/UBSan",
  ASAN + "All 14 element types and all quadrature orders are enumerated; points are sampled. The 14-node pyramid's rational shape functions are a known finding.")
P("C07", "Derivative conversion between coordinate systems is exact",
  "Derivatives up to third order of any function given in reference coordinates convert to physical coordinates exactly (chain rule), for every "
  "invertible nonlinear or linear map, as do the derivatives of the inverse map; the polynomial basis tables hold the true scaled derivatives of the "
  "monomials, and inner products of symmetric derivative tensors equal the full tensor contraction, in 2 and 3 dimensions.",
  ["inputs"], "every map, function, polynomial order and table size in both dimensions",
  "Tests compare a few linear-map cases.",
  ["src/Geom/DiffTensors.hpp", "src/Geom/BaseFunction.hpp"],
  [("inverse-map derivatives", "src/Geom/DiffTensors.hpp: DxDxi2DxiDx"), ("chain rule", "src/Geom/DiffTensors.hpp: ConvertDiffsFullMap, ConvertDiffsLinMap"),
   ("polynomial tables", "src/Geom/BaseFunction.hpp: FPolynomialFill2D/3D")],
  "runtime oracle: truncated power-series calculus over random maps and functions, under ASan/UBSan",
  ASAN + "Random maps with moderate nonlinearity; relative tolerance 1e-9.")

MF = ["src/Geom/Mesh.cpp", "src/Geom/Mesh.hpp"]
P("C08", "A distributed mesh is exactly the mesh in the input file",
  "After reading (CGNS with any sections, zones, interfaces and boundary-condition styles, or OpenFOAM), partitioning and distributing, each cell, node and "
  "boundary element of the file is owned by exactly one rank with its type, nodes, coordinates and boundary zone unchanged; nodes repeated across zones are one node; "
  "each boundary element is owned where its cell is; each rank's ghost cells are exactly the cells sharing a vertex with one it owns, with the same data as their owner; "
  "neighbour lists are complete; local/global index conversion is lossless. For any number of ranks and partitioner setting.",
  ["inputs", "configurations", "environments"],
  "every mesh of supported elements (mixed, holed, linear or quadratic), every file layout, every rank count and partition",
  "No test reads a mesh file in parallel.",
  MF + ["src/Geom/Mesh_Serial_ReadFromCGNS.cpp", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp", "src/Geom/Mesh_Serial_Partition.cpp", "src/Geom/CGNS.hpp", "src/Geom/OpenFOAMMesh.hpp"],
  [("readers", "src/Geom/Mesh_Serial_ReadFromCGNS.cpp, src/Geom/OpenFOAMMesh.hpp"), ("partition and distribution", "src/Geom/Mesh_Serial_Partition.cpp"),
   ("ghosts", "src/Geom/Mesh.cpp: BuildGhostPrimary, AdjGlobal2LocalPrimary")],
  "offline comparison of every rank's mesh with an independent mesh generator and file writer, under ASan/UBSan",
  ASAN + "Small generated meshes (up to a few hundred cells) on 1-8 ranks; CGNS 3.4 library installed here; polyhedral OpenFOAM cells limited to hexahedra.")
P("C09", "Faces and derived adjacency describe the mesh completely and once",
  "After face construction every pair of cells with a common side shares exactly one face, every other side is one boundary face carrying its zone; faces are unique across "
  "ranks, list the right cells and nodes, point out of their first cell, and are mutually consistent with cell-to-face, boundary-to-face, node-to-cell and node-to-boundary "
  "relations and with the extracted boundary mesh on every rank and for ghosts.",
  ["inputs", "configurations"],
  "every mesh of supported elements, rank count and partition",
  "Only Python binding smoke tests touch mesh objects.",
  MF,
  [("faces", "src/Geom/Mesh.cpp: InterpolateFace"), ("node adjacency", "src/Geom/Mesh.cpp: RecoverNode2CellAndNode2Bnd, BuildGhostN2CB"),
   ("boundary mesh", "src/Geom/Mesh.cpp: ConstructBndMesh")],
  "offline comparison of all derived relations with an independent generator, under ASan/UBSan",
  ASAN + "Small generated meshes on 1-8 ranks.")
P("C10", "Periodic sides behave as interior sides",
  "With translational or rotational periodicity in any set of directions, matching boundary nodes become one node, matching sides become one face between the two cells, "
  "each cell still sees its own nodes at its own place, and looking across any face (coordinates, vectors, tensors) gives the neighbour exactly as it lies against that face; "
  "transformations and their inverses agree. For linear and quadratic meshes, any ranks and partition.",
  ["inputs", "configurations"],
  "every periodic mesh at least three cells wide in each periodic direction, every rank count and partition",
  "No test has a periodic mesh.",
  MF + ["src/Geom/PeriodicInfo.hpp", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp"],
  [("node merging", "src/Geom/Mesh_Serial_BuildCell2Cell.cpp: Deduplicate1to1Periodic"), ("transformations", "src/Geom/PeriodicInfo.hpp"),
   ("across a face", "src/Geom/Mesh.hpp: CellOtherCellPeriodicHandle, GetCoordsOnFace")],
  "offline comparison with an independent periodic mesh generator, under ASan/UBSan",
  ASAN + "Periodic directions have at least three cells: fewer is outside what the code supports (it matches images by vertices).")
P("C11", "Order elevation and subdivision preserve the domain and its boundary",
  "Raising a linear mesh to second order gives each edge, quadrilateral side and hexahedron exactly one new node at its middle, shared by all cells and ranks touching it, and "
  "keeps cells, boundary zones, ghosts and periodicity; subdividing gives parts of positive volume that fill each original cell exactly, meet each other side to side without gaps, "
  "and cover each boundary element with its zone; the result is a valid mesh that can be elevated and subdivided again.",
  ["inputs", "configurations"],
  "every linear mesh of supported elements (periodic or not), rank count and partition, one or two levels",
  "No test elevates or subdivides a mesh.",
  MF + ["src/Geom/Mesh_Elevation.cpp", "src/Geom/Elements.hpp"],
  [("elevation", "src/Geom/Mesh_Elevation.cpp: BuildO2FromO1Elevation"), ("subdivision", "src/Geom/Mesh_Elevation.cpp: BuildBisectO1FormO2"),
   ("recovered relations", "src/Geom/Mesh.cpp: RecoverCell2CellAndBnd2Cell")],
  "comparison with an independent elevation and global fill/conformity monitor of the subdivision, under ASan/UBSan",
  ASAN + "Small generated meshes on 1-8 ranks. Boundary smoothing of elevated nodes is not covered.")
P("C12", "Saving, loading and local renumbering leave the mesh intact",
  "A partitioned mesh written through either back end and read on the same number of ranks is identical word for word, periodicity included, and as usable as the original: ghost "
  "exchange, faces and node relations come out the same. Renumbering local cells, before or after faces and node relations exist, changes nothing but the numbers: all "
  "relations, ghosts and periodic images still describe the same mesh on every rank.",
  ["inputs", "histories", "configurations"],
  "every mesh, rank count, partition, back-end setting, and state of the mesh when saved or renumbered",
  "No test saves or renumbers a mesh.",
  MF + ["src/DNDS/ArrayPair.hpp", "src/Geom/SerialAdjReordering.hpp", "src/Geom/CorrectRCM.hpp"],
  [("saving", "src/Geom/Mesh.cpp: WriteSerialize, ReadSerialize"), ("renumbering", "src/Geom/Mesh.cpp: ReorderLocalCells"), ("RCM", "src/Geom/CorrectRCM.hpp")],
  "write/read-back and before/after comparison with the generator, under ASan/UBSan",
  ASAN + "Small generated meshes on 1-8 ranks; random serializer settings.")
SV = ["src/Solver/Direct.hpp", "src/Solver/Linear.hpp", "src/Solver/ODE.hpp", "src/Solver/Scalar.hpp"]
P("C13", "Block factorizations solve the system they were given",
  "Every offered fill-reducing ordering is a permutation; a complete block LU or LDLT factorization of a block matrix with symmetric pattern solves exactly the system that was put in, for any right-hand "
  "side and as often as asked, also after values are replaced and factored again; an incomplete factorization reproduces the matrix exactly on its stored pattern, keeps every fill entry of the requested level, and grows with the level up to the complete factorization. Matrix products use the stored blocks. On a distributed mesh each rank factors exactly the block of its own cells and faces.",
  ["inputs", "histories", "configurations"],
  "every adjacency graph and mesh part (isolated rows, disconnected, empty ranks), ordering, fill level, block size and well-conditioned values",
  "No test runs the direct solvers.",
  ["src/Solver/Direct.hpp", "src/Geom/SerialAdjReordering.hpp", "src/Geom/CorrectRCM.hpp", "src/Geom/Mesh.cpp", "src/Euler/EulerJacobian.hpp"],
  [("structure and fill", "src/Solver/Direct.hpp: SerialSymLUStructure"), ("factor and solve", "src/Solver/Direct.hpp: LocalLUBase, LocalLDLTBase"),
   ("blocks", "src/Euler/EulerJacobian.hpp: JacobianLocalLU, JacobianLocalLDLT, JacobianDiagBlock"), ("orderings", "src/Geom/SerialAdjReordering.hpp"),
   ("mesh entry points", "src/Geom/Mesh.cpp: ObtainLocalFactFillOrdering, ObtainSymmetricSymbolicFactorization")],
  "runtime oracle (dense factorization and residuals) over random patterns, orderings and refactorization histories, under ASan/UBSan",
  ASAN + "Graphs of up to some dozens of rows, blocks 1-7, diagonally dominant or SPD values.")
P("C14", "Krylov solvers deliver the residual they promise",
  "GMRES applied to any linear operator and right-hand side never increases the preconditioned residual over restarts, reaches the minimum over each Krylov space (in particular the exact solution once the space "
  "is large enough or closes early), reports the true residual to its callback and stops as its return value says. PCG has the least error in the operator's norm over its Krylov space at each step, finishes within "
  "as many steps as there are unknowns, and starts afresh after a reset. Results do not depend on how rows are spread over ranks. Bisection brackets the sought value to its tolerance.",
  ["inputs", "histories", "configurations"],
  "every operator (nonsymmetric, SPD, with few distinct eigenvalues), preconditioner, subspace size, restart count, start value and distribution",
  "No test runs the Krylov solvers.",
  ["src/Solver/Linear.hpp", "src/Solver/Scalar.hpp"],
  [("GMRES", "src/Solver/Linear.hpp: GMRES_LeftPreconditioned"), ("PCG", "src/Solver/Linear.hpp: PCG_PreconditionedRes"), ("bisection", "src/Solver/Scalar.hpp")],
  "runtime oracle recomputing residuals and exact minimisers densely, callbacks monitored, under ASan/UBSan",
  ASAN + "Systems of up to some dozens of unknowns on 1-8 ranks.")
P("C15", "Time integrators advance the solution by their scheme",
  "Each integrator (implicit Euler, BDF1-4, variable-step BDF, ESDIRK/SDIRK, Hermite HM3 variants, SSPRK3) given exact inner solves advances exactly as its published scheme does, including start-up steps, "
  "changing step sizes, stage times and the order of callbacks; the most recent right-hand side it reports is the one at the newest state; observed orders of accuracy match the scheme; a limiter given to a limited step acts on the whole increment, so the step solved is the limited equation; constant states stay constant.",
  ["inputs", "histories", "schedules"],
  "every smooth right-hand side, state, sequence of step sizes and inner solver that solves the stage equation",
  "No test runs the time integrators.",
  ["src/Solver/ODE.hpp"],
  [("SDIRK family", "src/Solver/ODE.hpp: ImplicitSDIRK4DualTimeStep"), ("BDF", "src/Solver/ODE.hpp: ImplicitBDFDualTimeStep, ImplicitVBDFDualTimeStep"),
   ("Hermite", "src/Solver/ODE.hpp: ImplicitHermite3SimpleJacobianDualStep"), ("explicit", "src/Solver/ODE.hpp: ExplicitSSPRK3TimeStepAsImplicitDualTimeStep")],
  "online monitor of every callback against an independent implementation of each scheme plus observed-order measurement, under ASan/UBSan",
  ASAN + "Small systems with exactly solved stages; 13 scheme variants.")
P("C16", "Distributed unknown vectors obey vector algebra",
  "Every operation on distributed cell-mean, reconstruction and gradient vectors (assignment, scaling by numbers, rows or fields, additions, products, clamps, dot products, norms, minima, component norms) gives on every owned and "
  "ghost row it covers exactly the value ordinary algebra gives, reductions run over owned rows of all ranks once and agree on all ranks, and operands are left unchanged; also with empty ranks and with different component counts.",
  ["inputs", "histories", "configurations"],
  "every array kind, component count, distribution and history of operations",
  "The tests only use two of these operations on one distribution.",
  ["src/Euler/Euler.hpp", "src/CFV/VRDefines.hpp", "src/DNDS/ArrayPair.hpp"],
  [("mean vectors", "src/Euler/Euler.hpp: ArrayDOFV"), ("reconstruction vectors", "src/Euler/Euler.hpp: ArrayRECV"), ("gradients", "src/Euler/Euler.hpp: ArrayGRADV")],
  "model-based trace monitor (plain mirror) over random operation histories, under ASan/UBSan",
  ASAN + "Vectors of some dozens of rows on 1-8 ranks.")
VF = ["src/CFV/VariationalReconstruction.hpp", "src/CFV/VariationalReconstruction.cpp", "src/CFV/VRDefines.hpp", "src/CFV/VRSettings.hpp"]
P("C17", "Cell and face metrics satisfy the integral identities of geometry",
  "The volumes, areas, quadrature weights, barycentres, unit normals, first and second moments and base functions built for a distributed mesh are those of its geometry: volumes and quadrature weights add up to the exact "
  "volume of each cell and of the mesh; the faces of every cell close (normals point out of the first cell, the divergence theorem holds cell by cell); a ghost cell or face has its "
  "owner's metrics; reconstruction base functions have zero mean, are independent, and their cached or computed derivatives are those of the polynomials they stand for, also across "
  "periodic faces; nothing depends on the partition.",
  ["inputs", "configurations"],
  "every mesh (mixed, curved, periodic incl. rotation), order, integration order, base setting and rank count",
  "No test constructs metrics on a mesh.",
  VF + ["src/Geom/Quadrature.hpp", "src/Geom/Elements.hpp", "src/Geom/BaseFunction.hpp", "src/Geom/PeriodicInfo.hpp"],
  [("metrics", "src/CFV/VariationalReconstruction.cpp: ConstructMetrics"), ("base functions", "src/CFV/VariationalReconstruction.cpp: ConstructBaseAndWeight"),
   ("evaluation", "src/CFV/VariationalReconstruction.hpp: FDiffBaseValue, GetIntPointDiffBaseValue")],
  "integral-identity monitors and owner/ghost/partition comparison over generated meshes, under ASan/UBSan",
  ASAN + "Small generated meshes (2-D and 3-D, order 1 and 2) on 1-8 ranks.")
P("C18", "Variational reconstruction is exact for polynomials and well posed",
  "For every mesh and setting, the reconstruction leaves a polynomial of its order, given by its cell means and boundary data, unchanged, for Jacobi and Gauss-Seidel sweeps alike; a sweep moves every cell by the relaxed "
  "residual the same object records; the linearised residual is the difference of residuals and its sweeps are stationary at its solution; the underlying operator is symmetric and "
  "positive; boundary callbacks get the state, point, unit outward normal and zone of the point asked about; second-order gradient methods reproduce linear data and constants; the result is independent of the partition.",
  ["inputs", "configurations", "histories"],
  "every mesh (mixed, curved, periodic incl. rotation), order 1-3, functional and weights, relaxation, sweep kind, boundary condition and rank count",
  "No test reconstructs anything on a mesh.",
  VF + ["src/CFV/VariationalReconstruction_Reconstruction.hxx"],
  [("coefficients", "src/CFV/VariationalReconstruction.cpp: ConstructRecCoeff"), ("functional", "src/CFV/VariationalReconstruction.hpp: FFaceFunctional"),
   ("sweeps", "src/CFV/VariationalReconstruction_Reconstruction.hxx: DoReconstructionIter, DoReconstructionIterDiff, DoReconstructionIterSOR"),
   ("second order", "src/CFV/VariationalReconstruction_Reconstruction.hxx: DoReconstruction2nd"), ("boundary", "src/CFV/VariationalReconstruction_Reconstruction.hxx: GetBoundaryRHS")],
  "exactness, step and symmetry oracles plus a monitor on every boundary callback, over generated meshes and settings, under ASan/UBSan",
  ASAN + "Small generated meshes on 1-8 ranks; 4 (2-D) and 5 (3-D) unknowns.")
P("C19", "Limiters leave smooth data alone and never overshoot",
  "Smoothness indicators look at the variables they are told to, vanish on data a polynomial represents exactly and are the same on all ranks and partitions; the limiters return such data unchanged whatever the characteristic transforms, leave cells below the threshold bit for bit "
  "alone, leave ghosts current also when working in place, scale with the data, and their kernels commute with rotations, are consistent, odd, and stay within the range of their arguments, cancelling opposed slopes where they promise to.",
  ["inputs", "configurations"],
  "every mesh, order, coefficient field, threshold, limiter choice, invertible characteristic map and rank count",
  "No test runs a limiter.",
  VF + ["src/CFV/Limiters.hpp", "src/CFV/VariationalReconstruction_LimiterProcedure.hxx"],
  [("kernels", "src/CFV/Limiters.hpp"), ("indicators", "src/CFV/VariationalReconstruction_LimiterProcedure.hxx: DoCalculateSmoothIndicator"),
   ("limiters", "src/CFV/VariationalReconstruction_LimiterProcedure.hxx: DoLimiterWBAP_C, DoLimiterWBAP_3")],
  "invariance, range and bitwise-untouched monitors over generated meshes and coefficient fields, under ASan/UBSan",
  ASAN + "Small generated meshes on 1-8 ranks; rotated periodicity excluded (the limiters do not support it).")
P("C20", "Gas kernels are consistent, conservative and positivity preserving",
  "For every pair of admissible states, face direction and face velocity, in 2-D and 3-D: the conversions between conservative and primitive variables are inverse to each other; eigenvectors diagonalise the exact flux Jacobian; "
  "every Riemann flux equals the physical flux (relative to the moving face) for equal states, reverses when the face is seen from the other side, turns with the coordinates, upwinds supersonic flow, "
  "and keeps a contact at rest where the scheme promises to; batch versions give what single-face versions give; the viscous flux is that of a Newtonian gas with Fourier heat conduction; "
  "compressing an increment leaves positive density and pressure and changes nothing that was admissible.",
  ["inputs", "configurations"],
  "every admissible state, jump, direction, frame, ratio of specific heats, Riemann solver and entropy fix",
  "The tests check none of the flux functions.",
  ["src/Euler/Gas.hpp"],
  [("conversions", "src/Euler/Gas.hpp: IdealGasThermalConservative2Primitive, IdealGasThermalPrimitive2Conservative"), ("Riemann solvers", "src/Euler/Gas.hpp: RoeFlux_IdealGas_HartenYee, HLLCFlux_IdealGas_HartenYee, HLLEPFlux_IdealGas"),
   ("viscous flux", "src/Euler/Gas.hpp: ViscousFlux_IdealGas"), ("positivity", "src/Euler/Gas.hpp: IdealGasGetCompressionRatioPressure")],
  "algebraic oracles (consistency, reversal, rotation, exact Jacobian) on millions of randomized kernel calls, under ASan/UBSan",
  ASAN + "Pressure and density jumps up to several decades, Mach numbers up to about 10.")
P("C21", "Turbulence closures follow their published models",
  "For every flow state, gradient and wall distance, in 2-D and 3-D, eddy viscosities and sources of the Spalart-Allmaras (with negative branch and rotation correction), Wilcox k-omega, SST k-omega and realizable k-epsilon models are those of the "
  "published models, stay finite, keep eddy viscosity non-negative, do not depend on the coordinate frame, and the implicit source coefficients never destabilise.",
  ["inputs", "configurations"],
  "every admissible mean state, turbulence state, velocity gradient (also none), wall distance and model",
  "The tests check none of the turbulence models.",
  ["src/Euler/RANS_ke.hpp"],
  [("k-omega SST", "src/Euler/RANS_ke.hpp: GetMut_SST, GetSource_SST"), ("k-omega Wilcox", "src/Euler/RANS_ke.hpp: GetMut_KOWilcox, GetSource_KOWilcox"),
   ("realizable k-epsilon", "src/Euler/RANS_ke.hpp: GetMut_RealizableKe, GetSource_RealizableKe"), ("Spalart-Allmaras", "src/Euler/RANS_ke.hpp: GetSource_SA")],
  "comparison of every call with an independent implementation of the models, plus frame rotation, under ASan/UBSan",
  ASAN + "Randomized states over several decades.")
P("C22", "Configuration survives writing, reading, patching and logging",
  "Every configuration value a user may set (solver, evaluator, reconstruction, boundary conditions with all their options, initializers, drivers) takes effect as given: reading it, then patch file and command-line overrides in that order, and writing it "
  "gives back the same values; the logged configuration reproduces the run's configuration; boundary names, identifiers, types, values and flags stay associated; defaults fill only what was left out; the same on all ranks.",
  ["inputs", "configurations", "histories"],
  "every legal configuration, patch and sequence of overrides, model and rank count",
  "The tests read no configuration.",
  ["src/Euler/EulerBC.hpp", "src/Euler/EulerEvaluatorSettings.hpp", "src/Euler/EulerSolver.hpp", "src/Euler/CLDriver.hpp", "src/CFV/VRSettings.hpp", "src/DNDS/JsonUtil.hpp"],
  [("boundary conditions", "src/Euler/EulerBC.hpp: BoundaryHandler"), ("evaluator", "src/Euler/EulerEvaluatorSettings.hpp: ReadWriteJSON"),
   ("solver", "src/Euler/EulerSolver.hpp: Configuration, ConfigureFromJson, PrintConfig"), ("reconstruction", "src/CFV/VRSettings.hpp")],
  "write/read-back monitor over randomized configurations in which every leaf is changed, under ASan/UBSan",
  ASAN + "Legal values only; the JSON parser itself is not under test.")
P("C23", "Boundary recorders, profiles and the lift driver account exactly",
  "Boundary integrals, anchor points and one-dimensional profiles gathered over all ranks equal the contributions added since the last reset, each counted once (an interval's weight split over the profile cells it overlaps), and agree on all ranks, also where "
  "a rank has none; a profile read anywhere is the continuous interpolation of its means. The lift driver moves the angle of attack only after lift has settled, towards the target by a bounded amount, "
  "reaches the target of any affine lift response, reports convergence exactly when lift has stayed within tolerance, and never leaves the finite range.",
  ["inputs", "histories", "schedules"],
  "every sequence of additions, resets and reductions, distribution over ranks, driver setting and affine lift history",
  "No test runs them.",
  ["src/Euler/EulerBC.hpp", "src/Euler/CLDriver.hpp", "src/Geom/Grid.hpp"],
  [("recorders", "src/Euler/EulerBC.hpp: IntegrationRecorder, AnchorPointRecorder"), ("profiles", "src/Euler/EulerBC.hpp: OneDimProfile"), ("driver", "src/Euler/CLDriver.hpp: CLDriver")],
  "trace monitor with an independent ledger over random histories of additions, reductions and driver updates, under ASan/UBSan",
  ASAN + "1-3 ranks; affine lift responses with a transient.")
EF = ["src/Euler/EulerEvaluator.hpp", "src/Euler/EulerEvaluator.hxx"]
P("C24", "The flow residual is the flux balance of the discretisation",
  "For every mesh, gas, boundary set-up and setting, the residual of a cell is the sum of the fluxes through its faces plus its sources, where each face's flux is that of the chosen Riemann solver, viscous and turbulence model applied to the reconstructed states "
  "on both sides (through translated or rotated periodicity too) and enters both cells with opposite sign: nothing is created or lost in the interior, and boundary integrals account for all that enters. A uniform flow allowed by its "
  "boundaries stays uniform, also in a rotating frame; evaluation options change only what they name; the result does not depend on the partition, and repeating an evaluation repeats its result.",
  ["inputs", "configurations", "partitions"],
  "every mesh, order, periodicity, model, Riemann solver, option, field and rank count",
  "No test evaluates a residual.",
  EF + ["src/Euler/EulerEvaluator_EvaluateRHS.hxx", "src/Euler/Gas.hpp", "src/Euler/RANS_ke.hpp"],
  [("residual", "src/Euler/EulerEvaluator_EvaluateRHS.hxx: EvaluateRHS"), ("face flux", "src/Euler/EulerEvaluator.hxx: fluxFace"), ("sources", "src/Euler/EulerEvaluator.hxx: source")],
  "conservation and face-by-face balance monitor on real residual evaluations over generated meshes, flows and settings, plus comparison across rank counts",
  "Small generated meshes on 1-8 ranks; models NS (2-D, 3-D), SA and two-equation; assertions on.")
P("C25", "Boundary conditions impose what they name",
  "For every boundary face, interior state and option: a no-slip or slip wall lets no mass through and moves with the frame, isothermal walls have their temperature, symmetry mirrors, far fields and inflows impose exactly the incoming information for sub- and supersonic flow in "
  "either direction, total-condition inflows have their totals and direction, pressure outflows their pressure, special boundaries their exact solution; turbulence variables get their published wall values; "
  "imposed states are physical and depend on the frame only as vectors do.",
  ["inputs", "configurations"],
  "every boundary kind, option, model, frame, admissible interior state and face",
  "No test generates a boundary state.",
  EF + ["src/Euler/EulerBC.hpp", "src/Euler/SpecialFields.hpp"],
  [("boundary states", "src/Euler/EulerEvaluator.hxx: generateBoundaryValue"), ("options", "src/Euler/EulerBC.hpp: BoundaryHandler")],
  "per-boundary-kind oracles on every boundary-state call over generated faces and states, the 2-D model under ASan/UBSan",
  "States from subsonic to Mach 3 on both sides; models NS (2-D, 3-D), SA and two-equation.")
P("C26", "Time steps respect the wave speeds and wall distance is the distance to the wall",
  "For every mesh, field and frame the stored face wave speeds are the largest convective and viscous speeds of both sides; a local time step is the CFL number times the cell's volume over the sum of its faces' speeds, capped by the given maximum, the "
  "reported minimum is the global one, and global stepping gives every cell that minimum. Each scheme's wall distance is the distance from the point to the nearest wall of the whole mesh (never from other boundaries), the "
  "same on any partition, never below the configured minimum, refined only near walls.",
  ["inputs", "configurations", "partitions"],
  "every mesh, field, frame, CFL number, limit, wall-distance scheme and rank count",
  "No test computes a time step or a wall distance.",
  EF + ["src/Euler/EulerEvaluator_EvaluateDt.hxx"],
  [("time step", "src/Euler/EulerEvaluator_EvaluateDt.hxx: EvaluateDt"), ("wall distance", "src/Euler/EulerEvaluator_EvaluateDt.hxx: GetWallDist")],
  "independent wave-speed and brute-force distance oracles on real evaluations over generated meshes, the 2-D model under ASan/UBSan",
  "Small generated meshes on 1-6 ranks; schemes 0, 1, 2, 20 (the Poisson scheme is approximate).")
P("C27", "Implicit operators invert the system they describe",
  "For every mesh, field and time step, the diagonal blocks, matrix product, Jacobi, Gauss-Seidel and LU-SGS sweeps and the complete local factorisation all describe one linear system: time term plus the Jacobian of the linearised face fluxes, with neighbours turned "
  "through periodicity. A sweep is the exact forward or backward solve in its cell order with ghosts as last exchanged; solving with the complete local factorisation undoes the rank's own block; reported changes are global and ghosts stay current.",
  ["inputs", "configurations", "partitions"],
  "every mesh, field, time step, Jacobian option, increment, sweep direction and rank count",
  "No test applies an implicit operator.",
  EF + ["src/Solver/Direct.hpp", "src/Euler/EulerJacobian.hpp"],
  [("diagonal", "src/Euler/EulerEvaluator.hxx: LUSGSMatrixInit"), ("product", "src/Euler/EulerEvaluator.hxx: LUSGSMatrixVec"), ("sweeps", "src/Euler/EulerEvaluator.hxx: UpdateLUSGSForward, UpdateLUSGSBackward, UpdateSGS"),
   ("local factorisation", "src/Euler/EulerEvaluator.hxx: LUSGSMatrixToJacobianLU, LUSGSMatrixSolveJacobianLU")],
  "independent block matrix rebuilt from the face wave speeds, against every operator application, over generated meshes, the 2-D model under ASan/UBSan",
  "Small generated meshes on 1-6 ranks; meshes with planar faces for the exact matrix.")
P("C28", "Limiting keeps states positive and leaves admissible ones alone",
  "For every admissible mean field and any reconstruction, increment or residual: after positivity limiting, density and internal energy are positive at every quadrature point, and k and omega non-negative; cells already positive are untouched bit for bit; "
  "limiting to the mean only scales. A fixed increment never makes density, internal energy or turbulence variables negative, shortens the flow part without turning it, and is unchanged when admissible; residual factors lie in [0,1], keep the promised fraction of density and pressure, "
  "are one exactly where nothing needs limiting; reported counts and minima are global. Limited gradients keep face energies positive.",
  ["inputs", "configurations"],
  "every mesh, order, admissible mean field, reconstruction, increment, residual, limiting option and rank count",
  "No test limits a flow field.",
  EF + ["src/Euler/Gas.hpp"],
  [("reconstruction", "src/Euler/EulerEvaluator.hxx: EvaluateURecBeta"), ("increments", "src/Euler/EulerEvaluator.hpp: CompressInc, AddFixedIncrement"), ("residual", "src/Euler/EulerEvaluator.hxx: EvaluateCellRHSAlpha"),
   ("gradients", "src/Euler/EulerEvaluator.hxx: LimiterUGrad"), ("point states", "src/Euler/EulerEvaluator.hpp: CompressRecPart")],
  "positivity and bitwise-untouched monitors after every limiting call over hostile generated fields, the 2-D model under ASan/UBSan",
  "Means down to 1e-8 of the reference; small generated meshes on 1-6 ranks.")
P("C29", "Initial fields, norms, averages and outputs are what they name",
  "For every mesh, model and configuration, the initial mean of a cell is the far field, the built-in exact field's cell average, or the value of the last box or half-space containing its centre; norms are the stated global p-norm or maximum of the "
  "cell means or of the reconstructed (compared, weighted) field; time averages are the time-weighted mean of what was added; conversion of means to primitive variables and back returns them; smoothed time steps never exceed the given ones; every "
  "selected output field holds the quantity it names, in the order asked, on any number of ranks.",
  ["inputs", "configurations", "partitions"],
  "every mesh, model, initializer list, field, norm, weighting, averaging history, output selection and rank count",
  "No test runs them.",
  EF + ["src/Euler/EulerEvaluator_EvaluateDt.hxx", "src/Euler/SpecialFields.hpp"],
  [("initial field", "src/Euler/EulerEvaluator.hxx: InitializeUDOF"), ("norms", "src/Euler/EulerEvaluator.hxx: EvaluateNorm, EvaluateRecNorm"), ("averages", "src/Euler/EulerEvaluator.hxx: TimeAverageAddition"),
   ("outputs", "src/Euler/EulerEvaluator_EvaluateDt.hxx: InitializeOutputPicker")],
  "independent evaluation of every initial cell, norm, average and output value over generated meshes, the 2-D model under ASan/UBSan",
  "Expression initializers are not covered (the expression library is not installed).")
