HOW = {
'C01': 'Contract of `selectCollision<D>` (hence of `collideAll`, `relax`, the equilibria, `calculateDensity/Velocity`, the MRT matrices): for every node k the sums over i of f_i and e_i f_i after the call equal those before; with the initialization flag only the mass. One harness per dispatched (stencil, scheme, equilibrium), every MRT basis and relaxation choice; unbounded node loop by the loop rule.',
'C02': 'Same calls as C01: density output = sum f_i(old), velocity output * density = sum e_i f_i(old) (e_i from the public stencil interface), velocity untouched during initialization.',
'C04': 'Post-collision second moments P1 against pre-collision P0: tau (P1 - Peq) = (tau - 1)(P0 - Peq) for off-diagonals and normal differences, tau = nu/(dt cs^2) + 1/2 computed in the contract from the stencil\'s public speed of sound.',
'C05': 'Fixpoint contract: one node filled by the real equilibrium function of an arbitrary density and velocity is unchanged by the real collision; for large stencils the equilibrium function inside the collision is replaced by its contract.',
'C08': 'Contract with an arbitrary constant force: momentum after = before + dt F, mass unchanged, velocity output = (p + dt F/2)/rho; force types the code does not implement must throw.',
'C09': '(a) dispatch_*: all 13x5 scheme/equilibrium pairs per stencil with collideAll replaced by a recorder: supported ones accepted, all others refused or exactly the named templates; (b) once_*: the real dispatcher result equals one application of the named scheme class with the named equilibrium class.',
'C10': 'From the same harnesses as C01: on return every density was above the limit, an exception implies some density below it, and length 0 returns normally.',
'C11': 'Locality contract: the node k of the n-node call equals the result of a fresh one-node call with the same values (distribution values, density, velocity), n and k arbitrary, carried state havocked by the loop rule.',
'C30': 'Relational contract: collide(S f) = S collide(f) for every axis mirror, axis swap and axis cycle under which the stencil is invariant.',
'C03': 'Contract of the two-population `selectCollision<D>`: mass, momentum, energy per node before = after, node loop unbounded; modular: `calc` of the equilibrium by its contract (moments 0, 1, energy; proved by eqmom_* of the same check), heat-flux sums by an arbitrary symmetric tensor / vector.',
'C06': 'Contract of every stencil constructor for a symbolic scaling: moments, opposite table, weights, speeds; the tables are evaluated with exact rationals and 256-bit square roots.',
'C07': 'Contract of `calc` of BGK, quartic and steady-state equilibrium for symbolic rho, u, T: polynomial identities of the moments, both constructors.',
'C20': 'Same calls as C03: outputs against the moments of the old values; exceptions against the density.',
'C31': 'crelax_*: each f_i, g_i after the call equals f - (f-feq)/tau + (1/tau-1/tau_q) f* with feq, f*, g* the results of the real functions at the reported moments; cstar_*: f*, g* have zero mass, momentum, stress and carry the heat flux of any (f,g) at any u; crate_*: end-to-end stress relaxation in 2D.',
'C12': 'Contract of `collideAll` of every model class over an unbounded set of owned indices (deal.II index-set iteration and element references by contract): sums of f_i and e_i f_i before and after, outputs, exceptions; relax_*: each value against the result of the model\'s own `getEquilibriumDistributions`.',
'C13': 'Contracts of `make_M/make_T/make_diag`, `getMomentBasis/getInverseMomentBasis` (symbolic f: T M f = f), and of `DistributionFunctions::transferFromOtherScaling/scaleF` with a cut loop over the nodes (any number of nodes): the first three moments of the arbitrary node agree before and after.',
'C22': 'Contracts of `assembleAndDistributeInternalFace` (any number of face points by a cut loop, arbitrary weights, normals and inverse masses; global matrix writes go through an override of `SparseMatrix::add` that fails when the wrong block, cell or point is written), of `assembleLocalMassMatrix`, `assembleLocalDerivativeMatrices`, `calculateAndDistributeLocalStiffnessMatrix` and `VelocityNeqBounceBack::assembleBoundary`. The latter four are proved for all values but for stated element sizes only (2 or 3 points per direction in 2D, 2 in 3D; 2 or 3 face points at walls): bounded in the polynomial order, not counted as unbounded. Assumed: deal.II delivers quadrature weights, normals and shape gradients of the cell, and the node-to-point maps are bijections.',
'C14': 'Contracts of `RungeKutta5LowStorage::step` (all operations commute with A, so a scalar eigenvalue decides the matrix identity: the result is compared with the Taylor polynomial of exp(hA) f + phi(hA) h b through order four; the fifth-order coefficient is read off a unit run of the same code), `ThetaMethod::step` (the system handed to the linear solver; plain and block instantiation), `ExponentialTimeIntegrator::step/phiFunction/padeApproximation` and `SemiParallelMatrix` (upper Hessenberg A without loss of generality, breakdown after every k, stationary states), `DealIIWrapper::step`. Assumed: the linear solver solves its system exactly; deal.II vector/matrix kernels are stand-ins. Bounded: two unknowns (theta), eight (exponential); the Pade identity is checked on diagonal arguments; phi functions need an invertible Hessenberg matrix (as the code does). Stated as an algebraic identity over reals.',
'C17': 'Contracts of the `calculateBoundaryValues` overrides of every semi-Lagrangian boundary (arrays of any length, arbitrary destination, arbitrary other entry for the frame; the prescribed velocity is an arbitrary function linear in time, so a wrong evaluation time or point fails) and of `GradsFunction`. In the thermal wall the quartic equilibrium is replaced by its contract (C07).',
'C32': 'Contract of `getEquilibriumDistributions` for symbolic rho, u, scaling: zeroth, first and second moments.',
'C15': 'Contracts of `SemiLagrangian::faceCrossedFirst` (arbitrary arrival and departure point of an arbitrary axis-parallel cell), `fillSparseObject` (every characteristic of a numbered mesh is started, followed across cells, periodic faces and walls and ended exactly as a scripted path prescribes; `faceCrossedFirst` by its contract; the assembled entries are the shape values at the departure point), `stream`, `BoundaryHit/HitList/SemiLagrangianBoundaryHandler`, `shapeFunctionValue`, `coordinatesAcrossPeriodicBoundary` and `getOppositeCellAtPeriodicBoundary`. Values are unbounded; the mesh has five degrees of freedom, a path crosses at most two faces (one in 3D), at most three hits are stored: bounded in these sizes.',
'C18': 'Contracts of the constructors (`makeProjectionMatrices`, `makeDegreeVectors`, `evaluateLegendreND`) and of `applyFilter` of both filters: for arbitrary nodal values, strength and exponent the coefficient of each Legendre mode after the call is its own factor times the one before, computed in the contract from one-dimensional moments only. Bounded in the polynomial degree (1 and 2; dimensions 1 to 3) and in the mesh (three numbered cells, one of another process); Legendre basis up to arbitrary normalization, an exact quadrature and the nodal basis are assumed contracts.',
'C21': 'Contracts of `calculateTimestep`, `getMinimumVertexDistance`, `getMinimumDoFDistance(GLL)`, `maxVelocityNorm`, `velocity2Norm` (arbitrary sizes, values and contributions of other processes; meshes of four cells, three owned nodes), `get_integrator_by_id`/`get_integrator_name` and `make_stencil` (every number; any scaling).',
'C27': 'Contracts of `run` of both solvers with a loop invariant (arbitrary iteration K: the state at the loop head is collided and all processors were applied; one pass from there re-establishes it), its callees by contract; `stopConditionMet` (representative iterations, arbitrary times and changes), `calculateResiduals` (arbitrary fields), `stream`, `gStream`, `filter`, `compressibleFilter`, `collide` of both solvers. Matrix-vector product, boundary conditions, time integrator, filter and collision are replaced by contracts that check how they are called and return arbitrary values. The stream harnesses use four directions.',
'C16': 'Contracts of the node function and of the loop over the owned nodes (loop rule, no bound on the nodes); the stabilizer matrices are read from the code.',
'C19': 'Contracts of the integrating functions with a contract of FEValues (arbitrary shape values that sum to one, gradients that sum to zero, positive weights; only requested data may be read) and of the MPI reductions (the function runs on both of two processes, the k-th collective call adds up the k-th values of both, and both make the same number of calls). The statistics are checked against stubs of these functions; the errors against a contract of integrate_difference (arbitrary cell errors of the field and function it is given; the other processes hold R times the squares of this one, which holds the maxima).',
'C28': 'Contracts of the initialization functions of both solvers and of the restart constructor of the compressible solver (base constructor replaced by a contract that provides arbitrary loaded distributions), on raw objects with table-driven virtual functions. Iterative initialization is bounded in the number of iterations (two).',
}
