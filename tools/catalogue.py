NOTE = 'Proved for all inputs over real arithmetic, every harness path explored completely; floating-point rounding is not modelled, and deal.II/Trilinos containers follow the assumed contracts in drivers/models.h and drivers/fakes.h.'
ADV = ['collision_advanced/CollisionOperator.h', 'collision_advanced/CollisionSchemes.h', 'collision_advanced/Equilibria.h', 'collision_advanced/CollisionSelection.h', 'collision_advanced/AuxiliaryCollisionFunctions.h', 'collision_advanced/AuxiliaryMRTFunctions.cpp']
P('C01', 'Collision conserves mass and momentum at every node',
  'A collision step without external force leaves the total mass of the distribution functions and every component of their total momentum unchanged at every grid node. In the initialization procedure (where the velocity stays prescribed) it still leaves the mass unchanged. This holds for every selectable combination of stencil, collision scheme and equilibrium of the weakly compressible solver, for all distribution values with non-vanishing density, all viscosities, time steps and velocity scalings.',
  ['inputs', 'configurations'], 'every node, every distribution vector with non-vanishing density, every scaling, viscosity and time step, every dispatched (stencil, scheme, equilibrium) combination',
  'The unit tests collide a few constant states on D2Q9/D3Q15/D3Q19; conservation must hold for every state and every combination in the dispatch table.',
  ADV, [('collideAll', 'collision_advanced/CollisionOperator.h'), ('relax of BGK, regularized, MRT', 'collision_advanced/CollisionSchemes.h'), ('equilibrium polynomials', 'collision_advanced/Equilibria.h')], NOTE)
P('C02', 'Collision reports density and velocity as moments of the distributions',
  'After a collision step the density field holds at every node the sum of the distribution values found before the step, and (outside the initialization procedure, without external force) the velocity field holds their first moment (sum of f_i times the scaled discrete velocity e_i) divided by that density. In the initialization procedure the velocity field is left as prescribed.',
  ['inputs', 'configurations'], 'every node, every distribution vector with non-vanishing density, every dispatched combination, with and without initialization procedure',
  'Tests compare a handful of nodes of constant flows; a wrong direction or scaling of one stencil only shows for asymmetric states.',
  ['collision_advanced/CollisionOperator.h', 'collision_advanced/AuxiliaryCollisionFunctions.h', 'stencils/Stencil.h'],
  [('calculateDensity, calculateVelocity', 'collision_advanced/AuxiliaryCollisionFunctions.h'), ('collideAll', 'collision_advanced/CollisionOperator.h')], NOTE)
P('C03', 'Compressible collision conserves mass, momentum and total energy',
  'A collision step of the compressible solver (two sets of distribution functions f and g) without external force leaves the mass sum(f_i), the momentum sum(e_i f_i) and, with the quartic equilibrium, the total energy sum(|e_i|^2/cs^2 f_i + g_i) of every node unchanged, whether or not a Prandtl number and the Sutherland law are configured. In the initialization procedure the mass is unchanged.',
  ['inputs', 'configurations'], 'every node, every pair of distribution vectors, every scaling, viscosity, time step, heat capacity ratio, Prandtl number and compressible (stencil, equilibrium) combination D2Q19H, D2Q19V, D2Q25H, D3Q45, D3Q77',
  'Tests run a few coarse compressible flows and compare with loose tolerances; energy is not compared node by node at all.',
  ADV, [('two-population collideAll', 'collision_advanced/CollisionOperator.h'), ('relaxWithG', 'collision_advanced/CollisionSchemes.h'), ('calculateGeqFromFeq, calculateFStar, calculateGStar', 'collision_advanced/AuxiliaryCollisionFunctions.h')], NOTE + ' Inside the collision the equilibrium function and the two heat-flux sums are replaced by contracts that the eqmom_* harnesses (of C07) prove for the real functions.')
P('C04', 'Collision relaxes the viscous stress at the rate set by the viscosity',
  'For every incompressible combination of stencil, scheme and equilibrium, one collision step multiplies the deviation of the shear stresses (off-diagonal second moments) and of the normal stress differences from their equilibrium by exactly 1 - 1/tau, with tau = nu/(dt*cs^2) + 1/2. The equilibrium stress is rho*u*u; where a stencil of at most 27 speeds is combined with the quartic equilibrium, it is the second moment of that equilibrium function. This is what makes the simulated fluid have the configured kinematic viscosity.',
  ['inputs', 'configurations'], 'every node, every distribution vector with non-vanishing density, every viscosity, time step and scaling, every dispatched combination, every MRT basis and relaxation choice',
  'Tests only see the viscosity through the decay rate of one Taylor-Green vortex with loose tolerance on few stencils.',
  ADV, [('relaxation parameter and relax', 'collision_advanced/CollisionSchemes.h'), ('calculateTauFromNu', 'collision_advanced/AuxiliaryCollisionFunctions.h')], NOTE)
P('C05', 'A node in local equilibrium is left unchanged by collision',
  'If the distribution functions of a node equal the configured equilibrium function of their density and velocity, a collision step without external force leaves every distribution value unchanged and reports exactly that density and velocity. It holds for every selectable incompressible combination of stencil, scheme and equilibrium, every viscosity, time step and scaling.',
  ['inputs', 'configurations'], 'every density, velocity, scaling, viscosity, time step and dispatched combination',
  'A relaxation to a slightly different equilibrium is invisible in tests that use fluid at rest or tolerances of per cents.',
  ADV, [('calc of the equilibria', 'collision_advanced/Equilibria.h'), ('relax', 'collision_advanced/CollisionSchemes.h')], NOTE + ' For D2Q19H/V, D2Q25H, D3V27, D3Q45 and D3Q77 with BGK the equilibrium function is replaced by its contract (called with the moments of the node it returns its values).')
P('C06', 'Every stencil is a symmetric quadrature of the stated accuracy',
  'For every stencil and scaling: there are Q distinct directions in D dimensions, the first one at rest; the weights are positive and sum to one; the direction reported as opposite is the negative one, has the same weight and reports back; directions, speed of sound and maximum particle speed grow linearly with the scaling; odd moments vanish, the second moments are cs^2 times the identity, and the fourth (D2Q19, D2Q25, D2Q777, D3V27, D3Q45, D3Q77: also the sixth) moments are those of the Gaussian. The maximum particle speed is the length of the longest direction.',
  ['configurations', 'inputs'], 'every stencil class and every scaling',
  'Tests check a few sums on some stencils at scaling one; a single wrong digit, sign or opposite index in the larger tables stays unseen.',
  ['stencils/Stencil.h', 'stencils/D2Q9.cpp', 'stencils/D2Q19H.cpp', 'stencils/D2Q19V.cpp', 'stencils/D2Q25H.cpp', 'stencils/D2Q777.cpp', 'stencils/D3Q13.cpp', 'stencils/D3Q15.cpp', 'stencils/D3Q19.cpp', 'stencils/D3Q21.cpp', 'stencils/D3Q27.cpp', 'stencils/RD3Q27.cpp', 'stencils/D3V27.cpp', 'stencils/D3Q45.cpp', 'stencils/D3Q77.cpp'],
  [('makeDirections, makeWeights', 'stencils/D3Q77.cpp'), ('getIndexOfOppositeDirection, getMaxParticleVelocityMagnitude', 'stencils/D3Q77.h')], NOTE + ' Moments are compared with tolerance 1e-8 (D2Q777: 1e-5), since the tables are truncated decimals. Ten stencils report a wrong maximum speed: known findings.')
P('C07', 'Equilibrium functions carry the moments of the local flow state',
  'For every density, velocity and temperature the equilibrium function sums up to the density, its first moment is density times velocity, its second moment is rho*(u*u/gamma + cs^2*T) with gamma = 1 except for the steady-state equilibrium, and the quartic equilibrium on D2Q19H/V, D2Q25H, D3V27, D3Q45, D3Q77 also has the third moments of the Maxwellian (D2Q25H, D3Q77: the contracted fourth ones too). On low-order stencils the quartic equilibrium keeps density and momentum. Both constructors give the same function.',
  ['inputs', 'configurations'], 'every density, velocity, temperature (quartic), scaling and (stencil, equilibrium) pair of BGK, quartic and steady-state equilibrium',
  'Tests compare densities and momenta for a few states at rest or on D2Q9.',
  ['collision_advanced/Equilibria.h', 'collision_advanced/AuxiliaryCollisionFunctions.h'], [('calc', 'collision_advanced/Equilibria.h'), ('calculateH3, calculateH4', 'collision_advanced/AuxiliaryCollisionFunctions.h')], NOTE)
P('C08', 'A body force changes the momentum by exactly dt times the force',
  'With a constant external force and a forcing scheme that the collision supports (shifting velocity or exact difference), a collision step leaves the mass of every node unchanged, adds exactly dt*F to its momentum, and reports the velocity (momentum + dt*F/2)/density. In the initialization procedure the prescribed velocity field is not shifted by the force. A configuration with a force but with a forcing scheme the collision does not implement is refused instead of running without the force.',
  ['inputs', 'configurations'], 'every node, every distribution vector with non-vanishing density, every force vector, viscosity, time step, scaling and dispatched combination',
  'Tests check one Poiseuille flow with D2Q9; wrong force terms of other stencils, schemes or relaxation rates are never executed.',
  ADV, [('applyForces', 'collision_advanced/AuxiliaryCollisionFunctions.h'), ('collideAll', 'collision_advanced/CollisionOperator.h')], NOTE)
P('C09', 'The configured collision is carried out exactly once or refused',
  'For every stencil, collision scheme and equilibrium a user can select, the incompressible dispatcher either applies exactly that scheme with exactly that equilibrium exactly once to every node, or refuses with an exception without touching the distributions. The combinations in the dispatch table (BGK standard, quartic, regularized and MRT for the stencils that list them) are never refused.',
  ['configurations', 'inputs'], 'every (stencil, scheme, equilibrium) triple and every distribution vector of a node',
  'Tests select two or three combinations; a fallthrough, a duplicated branch or a wrong template argument in one of the others stays unseen.',
  ['collision_advanced/CollisionSelection.h', 'collision_advanced/CollisionOperator.h'], [('selectCollision', 'collision_advanced/CollisionSelection.h')], NOTE)
P('C10', 'Vanishing densities are rejected and empty subdomains accepted',
  'A collision step refuses (throws) when the density of a node falls below 1e-10 and never when every density is above it; it never returns normally after meeting such a node. A process that owns no grid nodes passes the step without error.',
  ['inputs', 'configurations'], 'every distribution vector including degenerate ones, every number of nodes including zero, every dispatched combination',
  'Tests never produce vanishing densities node by node nor partitions without nodes.',
  ['collision_advanced/CollisionOperator.h', 'collision_advanced/AuxiliaryCollisionFunctions.h'], [('collideAll', 'collision_advanced/CollisionOperator.h')], NOTE)
P('C11', 'The result of a collision at a node depends on that node only',
  'The distribution values, density and velocity that a collision step leaves at a node are a function of the values at that node, the viscosity, time step and scaling alone. They do not depend on how many nodes the process owns, on the position of the node in the list, or on the values at the other nodes; no node is skipped and none is collided twice. Hence distributing the nodes differently over processes cannot change a collision.',
  ['inputs', 'configurations'], 'every number of nodes, every node, every distribution vector, every dispatched combination',
  'Tests use equal values at all nodes, so values carried over from the previous node cannot be seen.',
  ['collision_advanced/CollisionOperator.h', 'collision_advanced/AuxiliaryCollisionFunctions.h', 'collision_advanced/CollisionSchemes.h'], [('node loop of collideAll', 'collision_advanced/CollisionOperator.h')], NOTE)
P('C20', 'Compressible collision reports density, velocity and temperature',
  'After a compressible collision step the density field holds sum(f_i) and the velocity field the first moment of f divided by it (values before the step; in the initialization procedure the velocity field is left as prescribed), and the temperature field T satisfies rho*T*2/(gamma-1) = sum(|e_i|^2/cs^2 f_i + g_i) - rho*u^2/cs^2. Densities that have vanished are rejected, densities above the limit never, and a process without nodes passes.',
  ['inputs', 'configurations'], 'every node, every pair of distribution vectors, every heat capacity ratio, scaling and compressible (stencil, equilibrium) combination, with and without initialization',
  'Tests look at temperatures of one or two benchmark flows only.',
  ADV, [('calculateTemperature, calculateVelocity', 'collision_advanced/AuxiliaryCollisionFunctions.h'), ('two-population collideAll', 'collision_advanced/CollisionOperator.h')], NOTE)
P('C30', 'Collision treats equivalent lattice directions alike',
  'Mirroring a node at a coordinate axis, swapping two axes or cycling the axes (each applied to the discrete velocities) and then colliding gives the same distribution values as colliding first and transforming afterwards, whenever the stencil is invariant under that transformation. No direction of space is preferred by any dispatched incompressible combination.',
  ['inputs', 'configurations'], 'every distribution vector, viscosity, time step, scaling, symmetry operation and dispatched combination',
  'Tests use shear flows aligned with one axis; an error that only affects one diagonal of one stencil does not show.',
  ADV + ['stencils/Stencil.h'], [('relax', 'collision_advanced/CollisionSchemes.h'), ('calc', 'collision_advanced/Equilibria.h')], NOTE)
P('C31', 'Compressible collision follows the viscosity and the Prandtl number',
  'One compressible collision step multiplies the deviation of the stress sum(e e f) from equilibrium by 1 - 1/tau with tau = 1/2 + nu*s(T)/(dt*cs^2*rho*T), s(T) = (T/0.85)^0.7 with the Sutherland law and 1 otherwise, and (quartic equilibrium) the heat flux sum((e-u)(|e-u|^2/cs^2 f + g)) by 1 - 1/tau_q with tau_q = 1/2 + (tau-1/2)/Pr; without a configured Prandtl number tau_q = tau.',
  ['inputs', 'configurations'], 'every node, every pair of distribution vectors, every viscosity, time step, scaling, heat capacity ratio, Prandtl number and compressible (stencil, equilibrium) combination',
  'No test measures a heat flux, and the viscosity only shows in decay rates with loose tolerances.',
  ADV, [('relaxWithG', 'collision_advanced/CollisionSchemes.h'), ('calculateCenteredHeatFluxTensor, calculateFStar, calculateGStar', 'collision_advanced/AuxiliaryCollisionFunctions.h')], NOTE + ' The heat-flux statement is the composition of three proved contracts: the relaxation of every distribution value (crelax_*), the moments of f*, g* (cstar_*) and of the equilibrium (C07).')
P('C12', 'Collision models of the iterative initialization conserve and relax',
  'One step of collideAll of a collision model (BGK standard, transformed, steady state, regularized, incompressible, MRT standard and entropic) conserves mass at every node, conserves momentum (outside the initialization), reports the density and velocity of the distributions, leaves the prescribed velocities untouched during initialization, throws only when a density has vanished, and plain BGK models move every distribution value towards the equilibrium that the model itself reports at rate 1/(tau+1/2). With a shifted-velocity body force the momentum changes by dt times the force (D2Q9, D3Q19).',
  ['inputs', 'configurations'], 'every node, every number of nodes, every distribution vector, relaxation parameter, time step, scaling and listed (model, stencil) pair',
  'The existing tests collide one or two fixed states per model and compare with loose tolerances.',
  ['collision'], [('collideAll', 'collision/BGKStandard.cpp'), ('collideAll', 'collision/BGK.cpp'), ('collideAll', 'collision/MRTStandard.cpp')], NOTE)
P('C32', 'Initial distributions carry the prescribed density, velocity and stress',
  'getEquilibriumDistributions of every covered collision model (used to set up the initial condition) returns distributions whose density and momentum are exactly the prescribed rho and rho*u and whose stress is rho*(cs^2 delta + u u) (u u divided by gamma for the steady-state model, offset density added for the transformed one), for every stencil that supports it.',
  ['inputs', 'configurations'], 'every density, velocity, stencil scaling and listed (model, stencil) pair',
  'Tests check one or two states with the D2Q9 stencil.',
  ['collision'], [('getEquilibriumDistributions, getEquilibriumDistribution', 'collision/BGKStandard.cpp'), ('getEquilibriumDistributions', 'collision/BGK.cpp')], NOTE)
P('C13', 'Moment transformations are invertible and keep mass, momentum and stress',
  'The moment matrix and inverse moment matrix of every moment basis are inverse to each other, so transforming a distribution to moments and back returns it; the multiple-relaxation-time rates lie strictly between 0 and 2 for every relaxation time above one half; and transferring distributions between two stencil scalings (restart with another time step) leaves density, momentum and stress of every node unchanged.',
  ['inputs', 'configurations'], 'every distribution, pair of scalings, relaxation time, and number of nodes; every stencil and moment basis',
  'Tests multiply a few matrices numerically and transfer one distribution.',
  ['stencils', 'collision_advanced', 'solver'], [('make_M, make_T, make_diag, matrix_vector_product', 'collision_advanced/AuxiliaryMRTFunctions.h'), ('getMomentBasis, getInverseMomentBasis', 'stencils/D2Q9.h'), ('transferFromOtherScaling, scaleF', 'solver/DistributionFunctions.cpp')], NOTE)
P('C14', 'Time integrators advance df/dt = A f + b to their order and keep steady states',
  'One step of every time integrator returns the new time, uses and remembers the given step size, and leaves the operator A and the source b untouched. The low-storage Runge-Kutta step equals the exact solution through fourth order in the step size for every A and b. The theta method solves (I - theta h A) f1 = (I + (1-theta) h A) f0 + h b. The exponential step adds h V phi1(h H) V^T (A f0 + b) on its Krylov space (plus the correction term), with phi functions that satisfy h H phi1 = exp(h H) - I and h H phi2 = phi1 - I and a matrix exponential by Pade approximation with scaling and squaring; when the Krylov space is invariant the step stays inside it; a state with A f + b = 0 does not change. An earlier step leaves no trace in a later one.',
  ['inputs', 'configurations', 'histories'], 'every operator, source, state, time and step size (theta: two unknowns; exponential: eight unknowns, any A in the Hessenberg basis of its Krylov space)',
  'Tests integrate one scalar and one 2x2 problem; a wrong coefficient in the source term, a stale matrix or a steady start state is not sampled.',
  ['timeintegration', 'utilities'], [('RungeKutta5LowStorage::step', 'timeintegration/RungeKutta5LowStorage.cpp'), ('ThetaMethod::step', 'timeintegration/ThetaMethod.cpp'), ('ExponentialTimeIntegrator::step, phiFunction, padeApproximation', 'timeintegration/ExponentialTimeIntegrator.cpp'), ('SemiParallelMatrix::vmult', 'utilities/SemiParallelMatrix.cpp'), ('DealIIWrapper::step', 'timeintegration/DealIIWrapper.cpp')], NOTE)
P('C17', 'Boundary conditions impose exactly what they prescribe',
  'At a boundary hit, the wall boundary adds 2 w_i (e_i . u)/cs^2 with u the prescribed velocity at the hit point and hit time; the equilibrium boundary yields density one, the prescribed velocity and (for stencils that represent it) the prescribed temperature; the thermal wall keeps mass and momentum and reaches the wall temperature; first-order bounce-back copies the opposite distribution; a do-nothing boundary changes nothing. No other entry of any distribution changes. Grad\'s function reproduces the given density, momentum and stress.',
  ['inputs', 'configurations'], 'every distribution, direction, node, prescribed (time-dependent) velocity, temperature, scaling and hit time',
  'Tests exercise a few flows; a wrong single-direction update shows only as a slow drift.',
  ['boundaries'], [('calculateBoundaryValues', 'boundaries/VelocityNeqBounceBack.cpp'), ('calculateBoundaryValues', 'boundaries/SLEquilibriumBoundary.h'), ('calculateBoundaryValues', 'boundaries/ThermalBounceBack.cpp'), ('calculateBoundaryValues', 'boundaries/SLFirstOrderBounceBack.h'), ('GradsFunction', 'boundaries/GradsFunction.h')], NOTE)
P('C22', 'The assembled discontinuous Galerkin operator is the advection operator',
  'The Eulerian (SEDG) advection system assembled for direction e_i is -e_i . grad in every cell plus, at every face point, a consistent numerical flux: central flux averages both sides, upwind flux acts only on inflow, and a constant field gets no contribution; each point couples only to the matching point of the neighbor cell and each direction only to its own block. At a velocity wall the outside value is the opposite distribution plus 2 w_i rho (e_i . u)/cs^2.',
  ['inputs', 'configurations'], 'every geometry (quadrature weights, normals, gradients, mass matrix), direction, stencil scaling, wall velocity and both fluxes; any number of points on interior faces, stated element sizes for cells and walls',
  'Tests assemble a few regular grids with the upwind flux; the central flux is untested.',
  ['advection', 'boundaries'], [('assembleAndDistributeInternalFace, assembleLocalMassMatrix, assembleLocalDerivativeMatrices, calculateAndDistributeLocalStiffnessMatrix', 'advection/SEDGMinLee.cpp'), ('assembleBoundary', 'boundaries/VelocityNeqBounceBack.cpp')], NOTE)
P('C15', 'Semi-Lagrangian streaming follows every characteristic to its departure point',
  'The streaming matrix takes the value of direction a at a grid point x from the shape functions of the cell that contains x - e_a dt, evaluated there: a characteristic that leaves its cell is continued in the neighbour across the face it crosses first (the exit point lies on that face and on the path), across a periodic boundary at the opposite point in the opposite cell, and only for directions and points that this process owns; each of them is assembled exactly once and the rest direction is never moved. A characteristic that meets a wall is recorded once, with its wall, cell, exit point, remaining time and target entry, and in each step every recorded hit, also several at one point, is handled exactly once by its wall with the boundary values of its own point and time. A step multiplies the old distributions by that matrix, applies the boundaries and changes nothing else.',
  ['inputs', 'configurations', 'histories'], 'every cell size and position, point, direction, time step; small numbered meshes with paths of at most two crossings and at most three wall hits (D2Q9, D3Q15); axis-parallel cells and faces in standard orientation or flipped; the fallback for cells without a mapping is not covered',
  'Tests stream smooth fields over a few regular meshes with loose tolerance; a lost or mixed up characteristic at a corner or boundary is within that tolerance.',
  ['advection', 'boundaries'], [('faceCrossedFirst, fillSparseObject, stream', 'advection/SemiLagrangian.cpp'), ('shapeFunctionValue', 'advection/SemiLagrangianTools.cpp'), ('BoundaryHit, HitList', 'boundaries/BoundaryHit.h'), ('coordinatesAcrossPeriodicBoundary', 'boundaries/PeriodicBoundary.cpp'), ('PointComp, HitListAtPoint', 'boundaries/BoundaryHit.h'), ('apply', 'boundaries/SemiLagrangianBoundaryHandler.h')], NOTE)
P('C18', 'Filters damp every polynomial mode by its own factor and keep the cell mean',
  'Applying a filter replaces the coefficient of every Legendre mode of every owned cell by sigma(d) times itself, where d is the sum or maximum of the degrees of that mode in the coordinate directions: the exponential filter leaves modes below the cutoff degree unchanged and scales the others by exp(-alpha ((d+1-Nc)/(dmax+1-Nc))^s), the other filter scales by exp(-alpha (d/dmax)^s). Hence no mode grows, constants (cell means) stay exactly unchanged (cutoff above zero), and cells of other processes are not touched; alpha and s can be changed later.',
  ['inputs', 'configurations'], 'every nodal value, strength and exponent, every cutoff, both degree definitions, dimension 1 to 3; polynomial degree 1 and 2',
  'Tests filter one function in 1D and 2D and look at its norm; a mode with a wrong degree is damped a bit too much or too little and never seen.',
  ['smoothing'], [('makeProjectionMatrices, makeDegreeVectors, applyFilter', 'smoothing/ExponentialFilter.cpp'), ('makeDegreeVectors, applyFilter', 'smoothing/NewFilter.cpp')], NOTE)
P('C21', 'The time step follows the CFL number and the smallest cell of all processes',
  'calculateTimestep returns CFL * dx / (c p^2) with dx the smallest vertex distance of any owned cell of any process, c the maximum particle speed the stencil reports and p the order of the finite elements; the distances of nodes are the smallest distance of two (distinct) support points times dx; the velocity norms are the largest and the root of the summed squared speeds of the owned nodes of all processes. Selecting an integrator by number and back to its name is consistent, and make_stencil returns a stencil of the requested dimension, size and exact scaling.',
  ['inputs', 'configurations'], 'every cell size, ownership, CFL number, order, scaling, velocity; meshes of four cells and two or three owned nodes',
  'Tests run on regular meshes, where every cell has the same size, with integer scalings and one process.',
  ['utilities'], [('calculateTimestep, getMinimumVertexDistance, getMinimumDoFDistance, get_integrator_by_id, make_stencil', 'utilities/CFDSolverUtilities.cpp'), ('maxVelocityNorm', 'utilities/Math.h'), ('velocity2Norm', 'utilities/Math.cpp')], NOTE)
P('C27', 'A run performs the configured steps in order and stops when configured',
  'A run starts at the configured iteration and repeats: check the stop conditions, write output, stream (and stream the energy populations), filter, collide, apply every data processor once in order; each pass counts one iteration, and after the stop condition is met the final output is written and nothing else happens. It stops at the configured number of steps, at the configured end time, or, checked every hundred iterations, when the largest velocity change since the last check is below the threshold; never earlier. A streaming step advances every population (f, g, former populations of multistep schemes) exactly once from its old state with boundary conditions at the old time, and the time by one step; filters act once per direction at every configured interval; a collision step collides once with the configured viscosity and time step and stores the resulting fields.',
  ['histories', 'configurations', 'inputs'], 'every number of iterations, start iteration, time, field, threshold and data processor count up to two; both advection schemes, collision multistep modes and solvers, 2D and 3D',
  'Tests run a few short simulations with one configuration each.',
  ['solver'], [('run, stopConditionMet, stream, filter, collide', 'solver/CFDSolver.cpp'), ('run, stream, gStream, compressibleFilter, collide', 'solver/CompressibleCFDSolver.h'), ('calculateResiduals', 'solver/SolverStats.h')], NOTE)
P('C28', 'Initial and restarted fields are the prescribed ones',
  'The initial density, velocity and temperature of every owned node are the prescribed functions at its support point, other nodes are untouched; adding a function to the velocity adds it once to every node, scaling scales every component, and both reinitialize the distributions. Initial distributions are the equilibrium of these fields (compressible: exact density, momentum, stress and heat flux of the Maxwellian and g = f T (2 C_v - D)); iterative initialization keeps the velocity, streams and collides the configured number of times at most (one more for the incompressible solver) or until the density settles, and restores the time. After a restart the density, velocity, temperature and internal energy are the moments of the loaded distributions.',
  ['inputs', 'configurations'], 'every function value, field, distribution, scaling, heat capacity ratio and time; mesh of three cells with a shared and a foreign node, two local nodes; D2Q9, D3Q15, D2Q25H, D3Q45; up to two (incompressible) or exactly zero to two (compressible) iterations',
  'Tests initialize a few flows and check single values.',
  ['solver'], [('applyInitialDensities, applyInitialVelocities, addToVelocity, scaleVelocity, initializeDistributions, calculateDensitiesAndVelocities', 'solver/CFDSolver.cpp'), ('CompressibleCFDSolver, applyCheckpointToG, applyInitialTemperatures, initializeDistributions, calcQuarticEquilibrium', 'solver/CompressibleCFDSolver.h')], NOTE)
P('C19', 'Reported physical quantities are the integrals of the current fields',
  'Mass, kinetic energy, enstrophy and squared enstrophy, entropy and mean x velocity are the quadrature integrals of the finite-element fields over the owned cells of all processes (the mean velocity divided by the volume); the pressures are c_s^2 (rho - 1) of the largest and smallest density. The statistics of the solver contain exactly these values of the current density, velocity and distributions (and the largest velocity component), and are computed once per iteration. The turbulence statistics are the integrals of density, velocity and their gradients, of their third and fourth powers, of all pairwise products, of the energy and the enstrophy and of their squares. The error statistics of benchmark flows are the largest and the integrated (L2) differences of density and velocity to the analytic solution at the current time, computed once per iteration without touching the fields. Plane statistics are the averages and root mean squares of the velocity over exactly the owned nodes of all processes within the tolerance of the plane, and the running average is the mean of all samples. Every process makes the same collective calls.',
  ['inputs', 'schedules'], 'every field value, positive density and distribution, shape function value, gradient, quadrature weight and contribution of a second process; mesh of three cells with a shared node and a foreign cell, two quadrature points (planes: three nodes, any number of samples, up to two more processes); two and three dimensions, standard and semi-Lagrangian storage of the distributions',
  'Tests integrate a few analytic fields on one process.',
  ['solver', 'dataprocessors'], [('mass, kineticEnergy, enstrophy, entropy, meanVelocityX, maximalPressure', 'solver/PhysicalProperties.cpp'), ('SolverStats::update', 'solver/SolverStats.h'), ('GlobalTurbulenceStats::calculate', 'dataprocessors/GlobalTurbulenceStats.cpp'), ('ErrorStats::update', 'solver/ErrorStats.cpp'), ('CompressibleErrorStats::update', 'solver/CompressibleErrorStats.cpp'), ('StatsInPlane::calculate, updatePlaneIndices, addToReynoldsStatistics', 'solver/TurbulenceStats.cpp'), ('getAllAnalyticDensities, getAllAnalyticVelocities', 'solver/BenchmarkCFDSolver.cpp'), ('getAllAnalyticDensities, getAllAnalyticVelocities', 'solver/BenchmarkCompressibleCFDSolver.cpp'), ('maxVelocityNorm, velocity2Norm', 'utilities/Math.h')], NOTE)
P('C16', 'The stabilizer keeps mass, momentum and stress at every node',
  'Applying the pseudo-entropic stabilizer keeps, at every owned node, the density, the momentum and the second moments of the distributions (with the energy mode relaxed on D2Q9: all but the trace), works on the distributions of that node only, is a projection (applying it twice is applying it once), and leaves the ghost values refreshed.',
  ['inputs'], 'every distribution value, every scaling, any number of owned nodes; D2Q9 with and without the energy mode, D3Q19; the local and the whole-domain form',
  'Tests call the stabilizer on single flows.',
  ['dataprocessors'], [('PseudoEntropicStabilizer::apply, applyStabilizer', 'dataprocessors/PseudoEntropicStabilizer.cpp')], NOTE)
P('C90', 'Results do not depend on the number of MPI processes',
  'Running the same simulation on any number of processes produces the same fields up to rounding.',
  ['schedules', 'configurations'], 'every process count and message schedule', 'Tests run on one and two processes only.',
  ['solver/CFDSolver.cpp', 'advection/SemiLagrangian.cpp'], [('ghost exchange and reductions', 'solver/CFDSolver.cpp')],
  na='Depends on deal.II/Trilinos ghost exchange, p4est partitioning and MPI reductions outside the repository; no contract within reach of a sequential deductive verifier expresses the distributed history. The node-local part (a collision result depends on that node only) is claimed separately.')
P('C91', 'Discretization errors decrease with the documented order',
  'For smooth flows the error against the analytic benchmark solution decreases with grid and polynomial refinement at the order of the scheme.',
  ['configurations', 'inputs'], 'every smooth benchmark, grid, order and time step', 'Tests sample a few resolutions.',
  ['advection/SEDGMinLee.cpp', 'advection/SemiLagrangian.cpp'], [('finite element spaces', 'advection/AdvectionOperator.h')],
  na='A statement about a limit of a family of discretized partial differential equations; not a pre/postcondition of any function, and analysis of finite-element convergence is outside every available deductive verifier.')
P('C92', 'A crash while writing a checkpoint never loses the last good one',
  'If the process dies at any point while a checkpoint is written, a restart still finds a complete earlier checkpoint.',
  ['crash_points'], 'every crash point within a checkpoint', 'Tests never interrupt a write.',
  ['solver/Checkpoint.cpp'], [('write', 'solver/Checkpoint.cpp')],
  na='Crash points are intermediate states of external I/O (p4est, Trilinos and libc file writes) that pre/postcondition contracts do not describe; the code promises no atomic replacement either.')
