"""The properties, how each is checked, and what goes into MANIFEST.json / properties.jsonl.

`python3 lib/gen_manifest.py` regenerates both files from here.
"""
CHECKS = {}
SAN = "AddressSanitizer + UBSan build of the whole library, project asserts and libstdc++ assertions on; "
LIB = "src/library/natrium/"


def C(pid, title, statement, over, quant, why, files, mech, runs, rule, technique, note, min_evals,
      observe=(), assumptions=(), state=(), hook=None, **more):
    CHECKS[pid] = dict(
        runs=runs, rule=rule, min_evals=min_evals, assumptions=list(assumptions), technique=technique, note=note,
        prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                  why_tests_cant=why,
                  anchors=dict(files=[LIB + f for f in files],
                               mechanism=[dict(name=n, where=LIB + w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=LIB + w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)), **more)


C("C01", "Velocity sets are exact quadratures at every scaling",
  "Every discrete velocity set reproduces the moments of the Maxwell-Gauss weight function up to its order of accuracy, is symmetric under reversal with a consistent opposite-direction map, and scales exactly with the stencil scaling: directions, speed of sound and largest particle speed are proportional to the scaling while weights do not change. The moment basis of a set and its inverse are inverse to each other.",
  ["inputs", "configurations"],
  "all velocity sets of the library, all positive scalings (log-uniform 1e-3..1e3, plus 1)",
  "The tests look at a few sets at one or two scalings and at low moments only; the guarantee is for every set and every real scaling.",
  ["stencils/Stencil.h", "stencils/D2Q9.cpp", "stencils/D3Q45.cpp"],
  [("weights and directions", "stencils/"), ("opposite map", "stencils/Stencil.h"), ("moment basis", "stencils/")],
  [dict(harness="h_stencil", shards=4)],
  "A case is a velocity set; an evaluation is one compared quantity (moment, direction, weight, opposite, matrix entry) at a random scaling; distinct ones are counted per (set, scaling) and all differ from scaling 1.",
  "runtime monitor: moment and symmetry oracle over all velocity sets at random scalings, under ASan/UBSan",
  SAN + "all sets, random scalings; moments compared with exact Gaussian moments up to the order of each set.", 20000,
  ["Stencil public interface"],
  ["weights of D2Q777 are printed with 6-7 digits in the source, so its moments are compared at 1e-6",
   "moment basis inverse is compared for scalings 0.2..5 relative to the size of the summed terms"])

C("C02", "Collisions conserve mass and momentum at every node",
  "For every collision model, velocity set and equilibrium that is accepted, a collision step keeps the density and (without a force) the momentum of every node, reports exactly that density and velocity, and depends on no other node. Combinations that are not implemented, and nodes without a positive density, are refused with an error instead of being left alone silently.",
  ["inputs", "configurations"],
  "all collision scheme x velocity set x equilibrium combinations, random positive populations near and far from equilibrium, random relaxation times, time steps, scalings and node orders",
  "The tests collide two or three hand-made states with one or two models; the guarantee is for any populations with positive density and every combination.",
  ["collision_advanced/CollisionSelection.h", "collision_advanced/CollisionOperator.h", "collision/BGKStandard.cpp", "collision/KBCStandard.cpp", "collision/MRTEntropic.cpp"],
  [("node loop", "collision_advanced/CollisionOperator.h"), ("dispatch", "collision_advanced/CollisionSelection.h"), ("schemes", "collision_advanced/CollisionSchemes.h")],
  [dict(harness="h_collision", filter="conservation")],
  "A case is a (scheme, velocity set, equilibrium) combination; an evaluation is one node collided from random populations (or one refusal); distinct when the populations, density and relaxation time differ.",
  "runtime monitor: conservation checker on every collided node over the full combination matrix, under ASan/UBSan",
  SAN + "conservation to round-off on random nodes for the complete matrix of models; two models have recorded defects (known findings).", 8000,
  ["populations before and after the collision, reported density and velocity"])

C("C03", "Collision equilibria are the stated ones and are fixed points",
  "Populations at equilibrium are left unchanged by every collision model, and a relaxation over the full distance arrives at the Hermite-expanded Maxwell equilibrium of the configured order (second or fourth) for the density and velocity of the node. Its second moment is density times (cs^2 I + u u) wherever the velocity set is accurate enough.",
  ["inputs", "configurations"],
  "all accepted (scheme, velocity set, equilibrium) combinations, random densities and velocities up to Mach 0.4, random scalings",
  "The tests compare one velocity for D2Q9/D3Q19; a wrong higher-order term for one velocity set or one quadrant goes unnoticed.",
  ["collision_advanced/Equilibria.h", "collision/BGK.h", "collision_advanced/CollisionSchemes.h"],
  [("equilibria", "collision_advanced/Equilibria.h"), ("scheme use of equilibria", "collision_advanced/CollisionSchemes.h")],
  [dict(harness="h_collision", filter="equilibrium")],
  "A case is a (scheme, velocity set, equilibrium) combination; an evaluation is one node at a random density and velocity, all non-zero and off-axis; distinct by state.",
  "runtime monitor: independent Hermite-expansion oracle on collided nodes, under ASan/UBSan",
  SAN + "every population of random nodes compared with an independently coded Hermite expansion.", 5000,
  ["populations after the collision"],
  ["the entropic equilibrium of the KBC model is its own and only required to be a fixed point"])

C("C04", "Shear stress relaxes at the rate the viscosity demands",
  "In every collision model the deviatoric non-equilibrium stress of a node is multiplied by 1-dt/(tau dt + dt/2)-type relaxation belonging to the configured viscosity, independent of the direction of the stress, the time step and the stencil scaling; the BGK models relax every population by this rate.",
  ["inputs", "configurations"],
  "all schemes whose shear relaxation is set by the viscosity, random non-equilibrium states, relaxation times, time steps, scalings",
  "Tests measure viscosity of a few flows on one velocity set within per cent; a wrong rate in one component or scaling stays inside that.",
  ["collision_advanced/CollisionSchemes.h", "collision/BGKStandard.cpp", "collision_advanced/AuxiliaryCollisionFunctions.h"],
  [("relaxation", "collision_advanced/CollisionSchemes.h"), ("omega", "collision_advanced/AuxiliaryCollisionFunctions.h")],
  [dict(harness="h_collision", filter="viscosity")],
  "A case is a (scheme, velocity set) combination; an evaluation is a node with random non-equilibrium stress; distinct by state and relaxation time.",
  "runtime monitor: stress-relaxation oracle on random non-equilibrium nodes, under ASan/UBSan",
  SAN + "all stress components compared to round-off with the closed-form rate.", 3000,
  ["populations before and after the collision"])

C("C05", "Compressible collisions conserve mass, momentum and total energy",
  "The two-population collision keeps the density, momentum and total energy of every node, reports the temperature that follows from them, relaxes shear stress at the rate of the (temperature dependent) viscosity and the heat flux of both populations at the rate of the thermal diffusivity (viscosity over Prandtl number), and leaves equilibria unchanged, for every heat capacity ratio, Prandtl number and temperature in its range.",
  ["inputs", "configurations"],
  "all velocity sets of the compressible solver, random densities, velocities, temperatures, heat capacity ratios, Prandtl numbers, with and without Sutherland's law",
  "The tests run one node at gamma 1.4 on D2Q25/D3Q45; coupling errors that vanish there (gamma, Prandtl number, direction) remain.",
  ["collision_advanced/CollisionOperator.h", "collision_advanced/Equilibria.h", "collision_advanced/CollisionSchemes.h"],
  [("two-population node loop", "collision_advanced/CollisionOperator.h"), ("quartic equilibrium", "collision_advanced/Equilibria.h")],
  [dict(harness="h_collision", filter="thermal")],
  "A case is a (velocity set, gamma, options) combination; an evaluation is one node; distinct by state.",
  "runtime monitor: energy/momentum conservation checker on random compressible nodes, under ASan/UBSan",
  SAN + "random nodes, conservation within the accuracy of each velocity set.", 1500,
  ["both populations before and after the collision, reported temperature"],
  ["the isothermal BGK equilibrium is not an energy-conserving model and not claimed", "the option called Sutherland's law is the power law (T / 0.85)^0.7 that is implemented under this name"])

C("C06", "Body forces add exactly force times time step to the momentum",
  "Each forcing scheme changes the momentum of a node by exactly force times time step, does not change its density, and reports the velocity with half of the force impulse added, for every collision scheme that accepts it.",
  ["inputs", "configurations"],
  "all forcing schemes x collision schemes x velocity sets, random forces, states, relaxation times, time steps and scalings",
  "The tests check one force direction with one model in a channel flow to within per cent.",
  ["collision_advanced/CollisionOperator.h", "collision/ExternalForceFunctions.h"],
  [("forcing", "collision_advanced/"), ("legacy forcing", "collision/ExternalForceFunctions.h")],
  [dict(harness="h_collision", filter="force")],
  "A case is a (forcing, scheme, velocity set) combination; an evaluation is one node; distinct by state and force.",
  "runtime monitor: momentum-budget checker on random forced nodes, under ASan/UBSan",
  SAN + "momentum budget to round-off for the full matrix; velocity shifting with two schemes has recorded defects (known findings).", 4000,
  ["populations before and after the collision, reported velocity"])

C("C07", "Semi-Lagrangian streaming follows characteristics exactly",
  "One semi-Lagrangian streaming step sets every population at every support point to the finite element function evaluated at the departure point x - e dt, across cell boundaries, refined neighbours and periodic boundaries, for any time step. Rest populations do not move and constants are reproduced exactly.",
  ["inputs", "configurations"],
  "random boxes (sheared, stretched, randomly distorted, locally refined), all periodic/walled combinations, orders 1-5, 2D and 3D, several velocity sets, random time steps up to several cells, random fields",
  "The tests stream on unit meshes with one or two CFL numbers; which cells and faces a path crosses depends on mesh, order and step.",
  ["advection/SemiLagrangian.cpp", "advection/SemiLagrangian.h", "advection/SemiLagrangianTools.h"],
  [("path tracing and sparse assembly", "advection/SemiLagrangian.cpp")],
  [dict(harness="h_advect", filter="advection sl")],
  "A case is one random mesh/order/velocity set/time step; an evaluation is one streamed population value compared with brute-force evaluation of the finite element function at the departure point; distinct per (mesh, field).",
  "runtime monitor: brute-force departure-point oracle over random meshes, under ASan/UBSan",
  SAN + "every dof and direction of random problems compared with an independent evaluation.", 80000,
  ["population vectors before and after stream/apply of the assembled matrix"],
  ["3D cells are parallelepipeds (the code's search on non-planar 3D faces is documented as not well tested)",
   "periodic directions have at least two cells, periodic faces are orthogonally opposite"])

C("C08", "Discontinuous Galerkin advection is the stated operator",
  "The spectral-element discontinuous Galerkin operator applied to any field is the upwind (or central) flux discretisation of -e.grad f: it conserves the total of every population in periodic domains, never lets the energy grow, annihilates constants, and refuses quadratures that do not fit its support points.",
  ["inputs", "configurations"],
  "random boxes with all periodic/walled combinations, orders, 2D/3D, velocity sets, both fluxes, random fields",
  "The tests check a single wave or a single mesh; sign or index errors in one face orientation, dimension or flux stay hidden.",
  ["advection/SEDGMinLee.cpp", "advection/SEDGMinLee.h"],
  [("assembly of local and face terms", "advection/SEDGMinLee.cpp")],
  [dict(harness="h_advect", filter="advection sedg")],
  "A case is one random mesh/order/flux; an evaluation is one residual value compared with an independently assembled weak form; distinct per (mesh, field).",
  "runtime monitor: independent weak-form oracle plus conservation/energy monitors, under ASan/UBSan",
  SAN + "every dof and direction of random problems.", 100000,
  ["operator application to random vectors"])

C("C09", "Wall boundaries reflect populations with the prescribed wall velocity",
  "A population that hits a wall along its path returns along the opposite direction from the reflection point with the momentum of the wall added, evaluated at the hit point and time of the hit, for walls whose velocity varies in space and time; with zero wall velocity nothing is lost. Populations that do not meet a wall are not touched.",
  ["inputs", "configurations"],
  "random boxes, walls on any faces, wall velocities varying in space and time, random time steps, orders, velocity sets and simulation times; linear bounce-back wall for both advection schemes and first-order bounce-back",
  "The tests use resting or constantly moving walls on one mesh; position and time arguments are then irrelevant.",
  ["boundaries/VelocityNeqBounceBack.cpp", "boundaries/SemiLagrangianBoundaryHandler.cpp", "boundaries/SLFirstOrderBounceBack.h", "boundaries/BoundaryFlags.h"],
  [("hit bookkeeping", "boundaries/SemiLagrangianBoundaryHandler.cpp"), ("bounce back", "boundaries/VelocityNeqBounceBack.cpp")],
  [dict(harness="h_advect", filter="wall ")],
  "A case is one random walled problem; an evaluation is one population value compared with the reflected-path oracle (or one wall flux term); distinct per (mesh, wall velocity, time).",
  "runtime monitor: reflected-path oracle with space/time dependent walls, under ASan/UBSan",
  SAN + "every dof and direction, paths with any number of reflections.", 100000,
  ["population vectors before and after streaming with boundaries"],
  ["paths that meet several walls within one step are judged between walls with linear bounce back; for other kinds of walls they are skipped"])

C("C10", "Periodic boundaries pair faces one to one",
  "For every conforming mesh the two faces of a periodic boundary are matched one to one: crossing twice leads back to the same cell and point, positions are shifted by the period, and faces of other boundaries are not involved. Boundaries that cannot be matched, are registered twice or are used before being set up are refused.",
  ["inputs", "configurations"],
  "random boxes in 2D and 3D, distorted and refined, any set of periodic directions, malformed identifier and direction choices",
  "The tests pair one unit cube; pairing on distorted or sheared meshes and refusals of malformed definitions are not covered.",
  ["boundaries/PeriodicBoundary.cpp", "problemdescription/BoundaryCollection.h"],
  [("cell map", "boundaries/PeriodicBoundary.cpp"), ("registry", "problemdescription/BoundaryCollection.h")],
  [dict(harness="h_advect", filter="pairing")],
  "A case is one random mesh; an evaluation is one boundary face checked (or one refusal); distinct per mesh.",
  "runtime monitor: involution/translation checker over all boundary faces of random meshes, under ASan/UBSan",
  SAN + "all faces of random meshes.", 600, ["PeriodicBoundary and BoundaryCollection public interface"])

C("C11", "Open boundaries impose their values and leave the rest alone",
  "An equilibrium inflow boundary gives exactly the equilibrium of the prescribed velocity, density and temperature at the hit point and time to populations whose path leaves the domain there (the internal energy distribution of a compressible flow included), and a do-nothing outflow boundary gives them the value at the point of exit. All other populations are streamed as if the boundary were not there.",
  ["inputs", "configurations"],
  "random boxes with inflow and outflow on random faces, prescribed values from wall to wall, random steps, orders and velocity sets, with and without a second population",
  "The tests cover constant values in one channel; position, time and temperature arguments and corner paths are not sampled.",
  ["boundaries/SLEquilibriumBoundary.h", "boundaries/DoNothingBoundary.h", "boundaries/SemiLagrangianBoundaryHandler.cpp"],
  [("equilibrium inflow", "boundaries/SLEquilibriumBoundary.h"), ("do-nothing outflow", "boundaries/DoNothingBoundary.h")],
  [dict(harness="h_advect", filter="open ")],
  "A case is one random open problem; an evaluation is one population value compared with the oracle; distinct per (mesh, boundary values, time).",
  "runtime monitor: departure-point oracle with boundary values, under ASan/UBSan",
  SAN + "every dof and direction.", 40000, ["population vectors before and after streaming with boundaries"])

C("C14", "Settings are kept exactly, independently, and survive files",
  "After any sequence of assignments every setting has the value last assigned to it, an assignment changes nothing else, and an illegal one is refused and changes nothing. A configuration written to an XML or text parameter file and read back (by any of the offered ways) is the same configuration, and damaged, missing or inconsistent ones are refused.",
  ["inputs", "histories", "configurations"],
  "random sequences of legal and illegal assignments over all settings, all enumeration values, random numbers; files written from the reached configurations, read over default and other values, truncated and missing files",
  "The tests set a few values once and read one file; independence and the round trip concern all settings, values and sequences.",
  ["solver/SolverConfiguration.h", "solver/SolverConfiguration.cpp"],
  [("setters and getters", "solver/SolverConfiguration.h"), ("declaration and files", "solver/SolverConfiguration.cpp")],
  [dict(harness="h_config", filter="config")],
  "A case is a batch of random assignment histories; an evaluation is one setting compared with the model after one step; distinct ones are counted per history.",
  "runtime monitor: model-based trace checker over random setter histories and file round trips, under ASan/UBSan",
  SAN + "all settings compared after every step of random histories.", 30000, ["SolverConfiguration public interface"])

C("C15", "Command line options change exactly the settings they name",
  "Every documented command line option with a legal value sets exactly the setting(s) it is documented for, in any combination and order; illegal values, unknown or conflicting options are refused. Options a program defines itself yield the given value or their default.",
  ["inputs", "configurations"],
  "all options with all documented values in random combinations, spellings and orders over random configurations; illegal values of every option; conflicting pairs; user-defined options",
  "The tests pass a handful of command lines; the mapping has to be right for all options, values and combinations.",
  ["utilities/CommandLineParser.cpp", "utilities/CommandLineParser.h", "utilities/CFDSolverUtilities.cpp"],
  [("option table and application", "utilities/CommandLineParser.cpp")],
  [dict(harness="h_config", filter="cmdline")],
  "A case is a batch of random command lines; an evaluation is one setting compared with the model (or one refusal); distinct per command line.",
  "runtime monitor: documented option table as oracle over random command lines, under ASan/UBSan",
  SAN + "all settings compared after every command line.", 15000, ["CommandLineParser and SolverConfiguration public interface"])

C("C12", "Time integrators take the step they promise",
  "Every selectable time integrator advances df/dt = A f + b by the requested (or, for the embedded schemes, the reported) step with its stated order of accuracy, equals the closed formula of its scheme where there is one (low-storage Runge-Kutta, classical Runge-Kutta, theta method, Crank-Nicolson, ...), leaves stationary states and its inputs A and b alone, reports the new time, and depends only on the state it is given, not on earlier steps. Serial, block and distributed linear algebra give the same answer.",
  ["inputs", "configurations", "histories"],
  "all 15 integrators x 4 kinds of vectors/matrices, random dense, cyclic, diagonal and singular matrices with random right-hand sides and block structures, random step sizes, changed step sizes, several steps with changes of the state in between",
  "The tests integrate one scalar equation and two fixed matrices to 1 % accuracy; a wrong coefficient, a lost right-hand side or a stale stage shows up for other systems or histories only.",
  ["timeintegration/RungeKutta5LowStorage.cpp", "timeintegration/ThetaMethod.cpp", "timeintegration/ExponentialTimeIntegrator.cpp", "timeintegration/DealIIWrapper.cpp", "utilities/SemiParallelMatrix.cpp"],
  [("low storage Runge-Kutta", "timeintegration/RungeKutta5LowStorage.cpp"), ("theta method", "timeintegration/ThetaMethod.cpp"), ("Krylov exponential integrator", "timeintegration/ExponentialTimeIntegrator.cpp"), ("deal.II schemes", "timeintegration/DealIIWrapper.cpp")],
  [dict(harness="h_integrate")],
  "A case is a batch of random linear systems for one integrator and kind of linear algebra; an evaluation is one component of the state after one step compared with formula and exact solution; distinct per system and step size.",
  "runtime monitor: closed-formula and matrix-exponential oracles on random linear systems and step histories, under ASan/UBSan",
  SAN + "all integrators and linear algebra kinds.", 10000, ["TimeIntegrator::step: state, time"],
  ["implicit schemes are compared at the tolerance of their linear/Newton solver (1e-6)"])

C("C16", "A simulation is exactly the iteration of collision and streaming",
  "From the equilibrium of the initial fields, every time step of the solver streams the populations by one time step with the configured scheme, applies the boundaries at the time of that step and collides with the configured model, relaxation time and force; nothing else happens to the populations. Density, velocity, time, iteration number and step size the solver reports belong to that state; the step size follows from mesh, order, CFL number and velocity set, and the relaxation time from the viscosity of the problem.",
  ["inputs", "configurations", "histories"],
  "random complete simulations: 2D and 3D boxes (refined, distorted, sheared), orders, velocity sets, collision models, scalings, CFL numbers, relaxation times, forces, resting and moving walls, both advection schemes, explicit, implicit and exponential integrators, initial fields; every step of every run",
  "The tests run one benchmark for some steps and look at the error of the velocity; the sequence of operations has to be right at every step of any configuration.",
  ["solver/CFDSolver.cpp", "solver/CFDSolver.h", "solver/DistributionFunctions.cpp"],
  [("time loop", "solver/CFDSolver.cpp"), ("streaming per scheme", "solver/CFDSolver.cpp"), ("initial populations", "solver/CFDSolver.cpp")],
  [dict(harness="h_solver", filter="trajectory")],
  "A case is a batch of random simulations; an evaluation is one population compared with the reference iteration after one step; distinct per configuration. Runs that become unstable are cut off and counted.",
  "runtime monitor: lock-step reference of the collide/stream loop observed after every time step of random simulations, under ASan/UBSan",
  SAN + "every population, density and velocity after every step; the reference takes matrices and boundaries from the library (they are decided by C07-C11) and has its own loop, start, collision and Runge-Kutta scheme.", 500000,
  ["data processor called at every step: populations, density, velocity, time, iteration"],
  ["forced and non-BGK collisions of the reference use the library's collision (decided by C02-C06)"])

C("C17", "Runs stop, write and log when they should",
  "A run ends at the first iteration at which the number of steps, the end time or the convergence criterion (largest velocity change over the last hundred iterations below the threshold) is reached. Solution files, checkpoints and table lines are written at exactly the configured intervals (and solution and checkpoint at the end), and a line of the table states the iteration, its time and the extreme values of the state after that iteration.",
  ["configurations", "histories"],
  "random simulations with random numbers of steps, end times, thresholds and output intervals",
  "The tests check one stop condition; which files exist and what the lines contain for other intervals and ends is not looked at.",
  ["solver/CFDSolver.cpp", "solver/SolverStats.h"],
  [("stop condition", "solver/CFDSolver.cpp"), ("output schedule", "solver/CFDSolver.cpp"), ("table", "solver/SolverStats.h")],
  [dict(harness="h_solver", filter="schedule"), dict(harness="h_solver", filter="convergence")],
  "A case is a batch of random runs; an evaluation is one expected file, one value of one table line or one observed step; distinct per configuration.",
  "runtime monitor: offline checker over the files and tables of random runs against the recorded history, under ASan/UBSan",
  SAN + "all files and all table lines of random runs.", 2000, ["output directory", "results_table.txt", "iteration at the end of run()"])

D = "debug"
C("C21", "No bad access, undefined operation or broken library contract in any run",
  "In every configuration that is accepted (velocity set, collision, scheme, integrator, boundary conditions, mesh, filter, statistics, output, restart, number of processes) no access leaves its object or touches a freed one, no undefined operation is executed, no assertion of the project fails, and every call of the finite element library meets that library's own preconditions: index ranges, sizes, states of vectors, meshes and finite elements, and requested data.",
  ["inputs", "configurations", "histories"],
  "random simulations, operators, collisions, filters, integrators, statistics, error tables, restarts, configurations and command lines, in one and several processes, with other random numbers than the checks of their own properties",
  "The tests run the release library without instrumentation; an access beyond an array or an unmet precondition that happens to give a plausible number passes.",
  ["solver/CFDSolver.cpp", "solver/CompressibleCFDSolver.h", "advection/SEDGMinLee.cpp", "advection/SemiLagrangian.cpp", "solver/Checkpoint.cpp", "smoothing/ExponentialFilter.cpp", "solver/TurbulenceStats.cpp"],
  [("time loop", "solver/CFDSolver.cpp"), ("operators", "advection/"), ("collision", "collision_advanced/"), ("statistics and output", "solver/")],
  [dict(harness="h_solver", filter="2D 0", variant=D), dict(harness="h_solver", filter="3D 0", variant=D),
   dict(harness="h_advect", filter="2D 1", variant=D), dict(harness="h_advect", filter="3D 1", variant=D),
   dict(harness="h_restart", filter="2D 1", variant=D, shards=4), dict(harness="h_restart", filter="3D 0", variant=D, shards=4),
   dict(harness="h_restart", filter="restart crash 2D 0", np=3, shards=1, variant=D),
   dict(harness="h_stats", filter="2D 0", variant=D, shards=2), dict(harness="h_stats", filter="3D 0", variant=D, shards=2),
   dict(harness="h_stats", filter="errors 2D energy 1", variant=D, shards=1),
   dict(harness="h_thermal", filter="loop", variant=D), dict(harness="h_thermal", filter="restarted", variant=D, shards=2),
   dict(harness="h_mpi", filter="partition 2D np3 0", variant=D, shards=1, timeout=400),
   dict(harness="h_filter", filter="D 0", variant=D, shards=4),
   dict(harness="h_collision", variant=D), dict(harness="h_integrate", filter="block 0", variant=D),
   dict(harness="h_config", filter="0", variant=D), dict(harness="h_refuse", filter="D 0", variant=D, shards=2), dict(harness="h_physics", filter="flows", variant=D)],
  "A case is one of the workloads of the other checks, drawn anew and run in the build with all monitors on; an evaluation is one quantity that the workload looked at while they watched; distinct per configuration.",
  "sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ and project assertions and deal.II's debug library over the workloads of all other checks",
  "own build of library and workloads against deal.II's debug library (its checks of every call), with ASan, UBSan, container assertions, unset local variables set to NaN patterns and fresh memory filled; only reports of these monitors count here, other deviations belong to the checks of their properties.", 100000,
  ["sanitizer reports, failed assertions, deal.II's messages, deaths"],
  ["not instrumented are deal.II, Trilinos, p4est and MPI themselves", "3D meshes whose periodic faces are rotated against each other are left out: the debug library refuses them", "no leak detection (MPI keeps its memory)"],
  only=("ubsan", "asan", "assert", "dealii", "died", "terminate", "hang"), seed_offset=1000)

C("C22", "Uniform flow and fluid at rest are preserved",
  "On any periodic mesh, however distorted, and with any velocity set, order, scheme, integrator, CFL number and collision model, a uniform density and velocity stays uniform and constant at every node; filters and the limiter do not change it either. Fluid at rest between resting walls, corners included, stays at rest.",
  ["inputs", "configurations"],
  "random periodic meshes and boxes with walls, uniform states, configurations of the solver with and without filter and limiter; every node and step",
  "The tests have no uniform-flow run; metric errors on distorted meshes show up only there.",
  ["solver/CFDSolver.cpp", "advection/SEDGMinLee.cpp", "advection/SemiLagrangian.cpp", "smoothing/ExponentialFilter.cpp"],
  [("streaming and collision per step", "solver/CFDSolver.cpp")],
  [dict(harness="h_solver", filter="freestream")],
  "A case is a batch of random runs; an evaluation is density and velocity at one node after one step; distinct per configuration.",
  "runtime monitor: invariant (constant state) checked at every node and step of random periodic simulations, under ASan/UBSan",
  SAN + "every node and step.", 50000, ["data processor called at every step: density and velocity"])

C("C23", "Mass and momentum of closed systems are conserved over the run",
  "In periodic domains and between resting walls the discontinuous Galerkin solver keeps the total mass at every step; in periodic domains the total momentum changes by exactly force times volume times time step per step and stays constant without a force.",
  ["inputs", "configurations", "histories"],
  "random simulations on boxes in 2D and 3D with any order, velocity set, collision model, flux, integrator and force; every step",
  "The tests check conservation of one node's collision; global conservation needs collision, fluxes, hanging indices and integrators to fit together on any mesh.",
  ["solver/CFDSolver.cpp", "advection/SEDGMinLee.cpp", "collision_advanced/CollisionOperator.h"],
  [("streaming and collision per step", "solver/CFDSolver.cpp"), ("fluxes", "advection/SEDGMinLee.cpp")],
  [dict(harness="h_solver", filter="conservation")],
  "A case is a batch of random runs; an evaluation is the total mass or one component of the total momentum after one step; distinct per configuration.",
  "runtime monitor: conservation checker over every step of random simulations, under ASan/UBSan",
  SAN + "totals integrated by the monitor after every step.", 1200, ["data processor called at every step: populations"],
  ["cells are parallelepipeds (the collocated quadrature is exact there); semi-Lagrangian streaming is not conservative by design and not claimed"])

C("C28", "Contradictory problems are refused before the first step",
  "A problem whose boundary conditions do not fit its mesh (a side without a condition, a condition without a side, two conditions for one side, a periodic boundary whose sides are equal, missing or not opposite in its direction), whose mesh is refined before its periodic boundaries are set or before the solver is made, or whose configuration asks for a velocity set of the wrong dimension, for points, quadrature or boundary conditions that the discontinuous Galerkin scheme cannot do, or for an output directory that cannot be made, is refused with an error before the first step. The same problem without the flaw is accepted, whatever its sides are called and in whatever order its conditions are given. The set of boundary conditions answers every question as what was entered into it.",
  ["inputs", "configurations", "histories"],
  "random sound problems with random names of sides and order of conditions, each with every flaw in turn at a random place; random histories of entering conditions",
  "The tests have one mesh and one set of names; a flaw that is let through gives a plausible wrong flow or a crash much later.",
  ["problemdescription/ProblemDescription.h", "problemdescription/BoundaryCollection.h", "boundaries/PeriodicBoundary.cpp", "solver/CFDSolver.cpp", "solver/SolverConfiguration.h"],
  [("conditions against mesh", "problemdescription/ProblemDescription.h"), ("unique conditions", "problemdescription/BoundaryCollection.h"), ("periodic boundaries", "boundaries/PeriodicBoundary.cpp"), ("constructor", "solver/CFDSolver.cpp")],
  [dict(harness="h_refuse")],
  "A case is a batch of random problems; an evaluation is one problem, sound or with one flaw, and whether and when it was refused (or one history of a set of conditions); distinct per problem and flaw.",
  "runtime monitor with fault injection: flaws put into random sound problems, outcome observed; set of conditions against a reference map over random histories, under ASan/UBSan",
  SAN + "sound problems have to run to their last step, flawed ones must not get as far as a solver.", 300, ["constructors of problem and solver, run()"],
  ["an unsupported boundary under the semi-Lagrangian scheme is stopped by an assertion and left out", "other combinations of models are the business of C02, restarts of C13, values of single settings of the configuration check"])

C("C30", "Runs are reproducible and not influenced by observing them",
  "The same configuration and problem give bitwise the same populations at every step when run again, and switching on solution output, tables, statistics or checkpoints at any interval does not change a single bit of the trajectory.",
  ["configurations", "histories"],
  "random simulations, each run four times: twice without output, with files of all kinds at random intervals, and with tables and statistics; every step",
  "The tests never compare two runs bit by bit; an output routine that alters the state or an uninitialised value is invisible to them.",
  ["solver/CFDSolver.cpp", "solver/SolverStats.h", "solver/PhysicalProperties.cpp"],
  [("output", "solver/CFDSolver.cpp")],
  [dict(harness="h_solver", filter="determinism")],
  "A case is a batch of random configurations run four times; an evaluation is one step of one variant compared by hash; distinct per configuration and variant.",
  "runtime monitor: differential trace checker (hash of all populations after every step), under ASan/UBSan",
  SAN + "hashes of all populations after every step.", 300, ["data processor called at every step: populations"])

C("C13", "Restarted runs continue as if never interrupted",
  "A simulation that ends or dies at any iteration and is restarted from its newest or any earlier checkpoint, any number of times, goes through the same populations, densities, velocities and times at every later iteration as an uninterrupted run, and its checkpoints, files and table go on where they were. On a globally refined mesh a restart starts from the interpolated populations. Writing a checkpoint never touches the others; restarts from missing or damaged checkpoints, with another order or on a coarser mesh are refused and leave the files alone.",
  ["histories", "crash points", "configurations", "schedules"],
  "random simulations (both schemes, random meshes, walls, forces, collision models, velocity sets) x checkpoint intervals x chains of crashes at random iterations and restarts from random checkpoints, on one and on three processes; random sets of checkpoint files with foreign files between them; torn data files; refined and coarser meshes",
  "The tests save and load once at iteration 1; what an interruption at any iteration does to the rest of the run is not sampled.",
  ["solver/Checkpoint.cpp", "solver/Checkpoint.h", "solver/CFDSolver.cpp", "solver/SolverStats.h"],
  [("checkpoint files", "solver/Checkpoint.cpp"), ("restart in the constructor and run()", "solver/CFDSolver.cpp"), ("table continuation", "solver/SolverStats.h")],
  [dict(harness="h_restart"), dict(harness="h_restart", filter="restart", np=3, shards=2), dict(harness="h_thermal", filter="restarted", shards=1)],
  "A case is a batch of random simulations with crashes; an evaluation is one step of a restarted run compared with the uninterrupted one (or one file, status or refusal); distinct per configuration and crash history.",
  "runtime monitor with fault injection: crash/restart histories against the recorded uninterrupted run, checksums over checkpoint files, under ASan/UBSan, 1 and 3 MPI processes",
  SAN + "populations after every step of every restarted run; crashes are exceptions out of the time loop, torn files are truncated at random lengths.", 6000,
  ["data processor called at every step", "output directory"],
  ["restart with another scaling of the velocity set is a recorded defect (known finding)", "with a force the velocity reported right after the restart is not compared (it includes half a force step)"])

C("C18", "Tables, statistics and solution files report the state of their iteration",
  "Mass, kinetic energy, enstrophy, entropy, mean and extreme velocity and pressure and the residuals in the results table, the plane averages and fluctuations and the domain integrals of the turbulence tables, and density and velocity in the solution files are those of the fields at the stated iteration and time, on any mesh, order and scaling; the columns are where the legends put them.",
  ["inputs", "configurations", "histories"],
  "random simulations in 2D and 3D (boxes, distorted, sheared, refined; both schemes; all orders and velocity sets) with random table, statistics and file intervals and planes; every line and value written, and every quantity function at every step",
  "The tests evaluate mass and energy of one uniform or sinusoidal field on one mesh; wrong weights, components or columns cancel or vanish there.",
  ["solver/PhysicalProperties.cpp", "solver/SolverStats.h", "solver/TurbulenceStats.cpp", "solver/CFDSolver.cpp"],
  [("quantities", "solver/PhysicalProperties.cpp"), ("table", "solver/SolverStats.h"), ("statistics", "solver/TurbulenceStats.cpp"), ("solution files", "solver/CFDSolver.cpp")],
  [dict(harness="h_stats", filter="tables")],
  "A case is a batch of random runs; an evaluation is one number written to a table or file (or returned by a quantity function) compared with the same quantity integrated by the monitor from the recorded fields; distinct per configuration.",
  "runtime monitor: offline checker of tables and solution files against quantities recomputed from the recorded state of every step, under ASan/UBSan",
  SAN + "every line of the tables, every point of the last solution file.", 5000,
  ["data processor called at every step: populations, density, velocity", "results_table.txt, turbulence_table.txt, global_turbulence_table.txt and its legend, t_0.*.vtu"],
  ["quantities are integrals with the quadrature of the scheme", "line 0 of the table is compared for time and mass only (velocity and populations are those around the first collision)",
   "the average over the domain of the global statistics is the integral over the domain, as the code defines it"])

C("C24", "Benchmarks measure the error against their analytic solution",
  "A benchmark run starts from its analytic solution at time zero, and its error table holds, for every interval, iteration, time, and the maximum and L2 errors of density and velocity against the analytic solution at the time of that iteration. Its solution files carry the analytic fields of that time, and solution files and checkpoints are written exactly as in any other run, the final ones included.",
  ["inputs", "configurations", "histories"],
  "random simulations with analytic solutions varying in space and time, random intervals",
  "The tests bound the error of one benchmark; an error taken at the wrong time, in the wrong component or norm only makes the bound looser.",
  ["solver/BenchmarkCFDSolver.cpp", "solver/ErrorStats.cpp"],
  [("error norms", "solver/ErrorStats.cpp"), ("analytic fields and output", "solver/BenchmarkCFDSolver.cpp")],
  [dict(harness="h_stats", filter="errors")],
  "A case is a batch of random benchmark runs; an evaluation is one number of the error table, one point of a file or one expected file; distinct per configuration.",
  "runtime monitor: offline checker of error tables and files against norms recomputed from the recorded state of every step, under ASan/UBSan",
  SAN + "every line of the tables.", 2500, ["data processor called at every step", "errors_table.txt, t_0.*.vtu, checkpoint directory"])

C("C20", "Filters and stabilizers damp what they say and nothing else",
  "A filter multiplies the coefficient of every product of Legendre polynomials in every cell by the documented factor (exponential in the largest or the summed degree from the degree Nc on, or the 'new' filter), leaves the mean of a cell alone, and is applied to all populations after streaming at every multiple of the filter interval; the pseudo-entropic stabilizer keeps exactly the moments up to second order (or without the trace) of every node, after every collision.",
  ["inputs", "configurations", "histories"],
  "random piecewise polynomials on random meshes in 2D and 3D, orders 1-7, all kinds of nodes and quadratures, random parameters of the filters; random populations; random simulations with filters and stabilizers, every step",
  "The tests check that a filter does not throw and print the result; a wrong factor for some mixed mode in 3D or a filter applied at the wrong step is invisible.",
  ["smoothing/ExponentialFilter.cpp", "smoothing/NewFilter.cpp", "dataprocessors/PseudoEntropicStabilizer.cpp", "solver/CFDSolver.cpp"],
  [("exponential filter", "smoothing/ExponentialFilter.cpp"), ("new filter", "smoothing/NewFilter.cpp"), ("stabilizer", "dataprocessors/PseudoEntropicStabilizer.cpp"), ("application in the time loop", "solver/CFDSolver.cpp")],
  [dict(harness="h_filter"), dict(harness="h_solver", filter="smoothing")],
  "A case is a batch of random filters or runs; an evaluation is one filtered nodal value (or population after a step) compared with the oracle; distinct per parameters and configuration.",
  "runtime monitor: modal oracle for filtered fields, lock-step reference for filtered and stabilized simulations, under ASan/UBSan",
  SAN + "all nodal values.", 100000, ["Filter::applyFilter, applyStabilizer, data processor called at every step"],
  ["discontinuous elements", "the stabilizer exists for D2Q9 and D3Q19; for other velocity sets it does nothing (recorded in DESIGN.md)"])

C("C19", "Results do not depend on the number of processes",
  "A simulation, with internal energy or without, on two, three or four processes goes through the same populations, densities, velocities, temperatures and times, writes the same tables and statistics and continues from its checkpoints exactly as on one process, for any mesh, scheme, collision model, boundary, force, filter, stabilizer and integrator, and never hangs or dies where one process succeeds.",
  ["configurations", "schedules"],
  "random simulations in 2D and 3D (as in C16 and C27, with filters, stabilizers, implicit integrators, benchmarks, tables and statistics, restarts) on one process and on 2, 3 and 4; meshes smaller than the number of processes included; every step",
  "The tests run on one process (or look at each partition alone); whether ghost values, reductions and ownership agree is only visible by comparing whole runs.",
  ["solver/CFDSolver.cpp", "solver/DistributionFunctions.cpp", "advection/SemiLagrangian.cpp", "advection/SEDGMinLee.cpp", "boundaries/SemiLagrangianBoundaryHandler.cpp", "boundaries/PeriodicBoundary.cpp", "solver/TurbulenceStats.cpp", "solver/PhysicalProperties.cpp", "solver/CompressibleCFDSolver.h"],
  [("ghost updates", "solver/DistributionFunctions.cpp"), ("parallel streaming", "advection/SemiLagrangian.cpp"), ("reductions", "solver/PhysicalProperties.cpp")],
  [dict(harness="h_mpi", shards=4, timeout=400)],
  "A case is a batch of random simulations run on one and on several processes; an evaluation is one value of a cell after one step (or one table entry) compared between both; distinct per configuration and number of processes.",
  "runtime monitor: differential comparison of every step of serial and parallel runs, under ASan/UBSan",
  SAN + "all values of all cells after every step.", 100000, ["data processor called at every step on every process", "tables of both runs"],
  ["CFL number up to 0.3, so that departure points of semi-Lagrangian streaming stay within the layer of ghost cells", "sums are associated differently: agreement to round-off (implicit integrators: to the tolerance of their solvers)"])

C("C25", "Supplied benchmark flows are what they say",
  "The flow problems of the library describe the flow they are named after, for every choice of their parameters: analytic solutions satisfy the incompressible Navier-Stokes equations with the stated viscosity, force, wall velocities and periods and are the initial state at time zero; initial states have the stated structure (shear layers, droplet, Riemann problem, consistent pressure); meshes have the stated extent, wall shape, cells and boundaries. The advection benchmark reports the error of the transported wave at the end of the run.",
  ["inputs"],
  "random viscosities, velocities, lengths, speeds of sound, refinements and grid stretchings of every benchmark; random points and times",
  "The tests use the benchmarks with their default length and one viscosity, where wrong powers of the wave number or the plate distance are equal to one.",
  ["benchmarks/TaylorGreenVortex2D.cpp", "benchmarks/TaylorGreenVortex3D.cpp", "benchmarks/CouetteFlow2D.cpp", "benchmarks/CouetteFlow3D.cpp", "benchmarks/PoiseuilleFlow2D.cpp", "benchmarks/ShearLayer2D.cpp", "benchmarks/LubricationSine.h", "benchmarks/AdvectionBenchmark.cpp", "problemdescription/Benchmark.h"],
  [("analytic solutions", "benchmarks/"), ("meshes", "benchmarks/"), ("initial from analytic", "problemdescription/Benchmark.h")],
  [dict(harness="h_physics", filter="flows", shards=4)],
  "A case is a batch of random instances of one benchmark; an evaluation is the residual of one equation (or a condition at a wall, a face of the mesh) at one point and time; distinct by parameters, point and time.",
  "runtime monitor: residuals of the flow equations, wall and period conditions of the supplied problems at random points, under ASan/UBSan",
  SAN + "residuals by finite differences of the supplied functions to 1e-5 of their terms.", 4000,
  ["analytic and initial functions, mesh and boundaries of every benchmark class, AdvectionBenchmark::oneTest"],
  ["BackwardFacingStep2D is unfinished (no outlet, walls from uninitialised members) and not claimed", "Couette series: times at which it converges"])

C("C26", "Simulations obey the equations of fluid dynamics with the stated parameters",
  "A resolved simulation at low Mach number, whatever the velocity set, scaling, collision model, relaxation time, streaming scheme, order, mesh size and (where it applies) forcing scheme, is a solution of the Navier-Stokes equations with the viscosity of the problem and the speed of sound of the velocity set: shear waves decay at the stated rate and travel with the mean flow, sound waves oscillate with the speed of sound and are damped, flows between plates follow the moving plate or the force from rest on, and the Taylor-Green vortex decays.",
  ["inputs", "configurations", "histories"],
  "random combinations of velocity set, scaling, collision, relaxation time, streaming scheme, order, box and wave vector (directions across and along every axis), in 2D and 3D",
  "The tests simulate a handful of fixed configurations and bound errors loosely; a wrong relation between time step, scaling and viscosity in one branch stays within the bounds or is not run.",
  ["solver/CFDSolver.cpp", "collision/BGK.h", "collision_advanced/CollisionSchemes.h", "advection/SemiLagrangian.cpp", "advection/SEDGMinLee.cpp", "utilities/CFDSolverUtilities.cpp", "boundaries/VelocityNeqBounceBack.cpp"],
  [("time step and relaxation time", "solver/CFDSolver.cpp"), ("collision", "collision_advanced/"), ("streaming", "advection/"), ("walls", "boundaries/")],
  [dict(harness="h_physics", filter="physics", shards=7, timeout=400)],
  "A case is a batch of random simulations; an evaluation is one moment of one simulation compared with the analytic solution evaluated by the monitor; distinct per configuration and time.",
  "runtime monitor: analytic solutions of the flow equations against whole simulations, under ASan/UBSan",
  SAN + "deviations below 1-3 % of the amplitude.", 40,
  ["density and velocity at all points, data processor at the compared steps"],
  ["resolved waves (14 points per period in 2D, 9 in 3D), Mach number 0.03, so that errors of the method stay below the tolerances", "walls: the linear bounce-back wall"])

C("C27", "Simulations with internal energy obey the compressible equations",
  "The compressible solver starts both distributions from the stated density, velocity and temperature, streams and filters both alike and collides them once per step at every node, keeps mass, momentum and total energy of periodic domains, and leaves a uniform state alone. Resolved waves travel with the flow or the speed of sound of the gas (heat capacity ratio and temperature included), and decay with the stated dynamic viscosity and Prandtl number.",
  ["inputs", "configurations", "histories"],
  "random simulations with all velocity sets that carry energy, heat capacity ratios, Prandtl numbers, temperature law, scalings, schemes, orders, filters, random periodic meshes and temperature fields; every step",
  "The tests construct the compressible solver at most; its loop has copies of the code of the basic solver, and an error in one of them shows only in a whole simulation.",
  ["solver/CompressibleCFDSolver.h", "collision_advanced/CollisionSchemes.h", "collision_advanced/Equilibria.h", "collision_advanced/CollisionSelection.h", "solver/CFDSolver.cpp"],
  [("loop, initial distributions, streaming and filtering of both distributions", "solver/CompressibleCFDSolver.h"), ("collision with energy", "collision_advanced/CollisionSchemes.h")],
  [dict(harness="h_thermal", filter="loop", shards=4), dict(harness="h_thermal", filter="waves", shards=4, timeout=400)],
  "A case is a batch of random simulations; an evaluation is one step compared with the lock-step reference (or one conserved total, one node of a uniform state, one moment of a wave); distinct per configuration.",
  "runtime monitor: lock-step reference, conservation checker and analytic waves against whole compressible simulations, under ASan/UBSan",
  SAN + "both distributions, density, velocity and temperature after every step.", 50000,
  ["data processor called at every step: f, g, density, velocity, temperature"],
  ["periodic domains (the thermal wall is written for one velocity set and one gas, see DESIGN.md)", "steps with a Prandtl number collide with the library's own node-wise collision, which C05 judges; the waves judge its outcome"])
