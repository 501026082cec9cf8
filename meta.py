#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json."""
import json, os

P = []
SINT = "applications/sintering/include/pf-applications/sintering/"
BASE = "include/pf-applications/"


def prop(id, title, statement, over, text, why, files, mech, level_note, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, level_note=level_note,
                  technique=technique or "property-based testing (generated inputs against an independent oracle, shrinking, replay)"))


prop("V01", "Block vectors behave like the concatenation of their blocks under any history",
     "After any sequence of resizing, reordering, moving, sharing, view creation, zeroing, scaling, adding, ghost updates, compression and copying, a dynamically sized block vector has the entries, the sizes, the index set and the norms of the concatenation of its current blocks, on one and on several processes. Views share the entries of the original, copies do not.",
     ["histories", "configurations"], "all operation histories over several vectors, all numbers of blocks (zero included) and processes",
     "tests execute one fixed sequence of operations on one process",
     [BASE + "lac/dynamic_block_vector.h"],
     [("DynamicBlockVector", BASE + "lac/dynamic_block_vector.h")],
     "Stateful model-based exploration: every history is mirrored on dense global arrays, serial and with 3 ranks.")
prop("T01", "Time integration is consistent for every step-size history",
     "For every sequence of accepted, rejected and resized time steps the weights of the implicit multistep schemes (first to third order) differentiate polynomials of the attained order exactly, with the attained order limited by the number of completed steps; saved and restored step sizes give identical weights. The stored solution history keeps the solutions of exactly the last accepted steps, most recent first, and the explicit schemes perform the textbook forward Euler and fourth order Runge-Kutta steps, with stationary equations solved consistently.",
     ["histories", "inputs"], "all step-size histories, scheme orders, systems of differential and stationary equations",
     "tests integrate one equation with constant or one prescribed step-size sequence",
     [BASE + "time_integration/time_integrators.h", BASE + "time_integration/solution_history.h",
      BASE + "time_integration/time_marching.h", BASE + "time_integration/time_schemes.h"],
     [("TimeIntegratorData", BASE + "time_integration/time_integrators.h"), ("SolutionHistory", BASE + "time_integration/solution_history.h"),
      ("TimeMarchingExplicit", BASE + "time_integration/time_marching.h")],
     "Random histories against Lagrange interpolation, a list model and textbook Runge-Kutta steps.")
prop("G01", "Ellipsoids reproduce measure, inertia and distances of their bodies",
     "An ellipsoid constructed from a measure and an inertia tensor, from radii and axes, or from its quadratic form has the measure, principal radii, orthonormal axes and inertia of that body, survives archiving, and tells inside from outside points accordingly. Distances of two ellipsoids are the Euclidean distance of the two closed bodies up to the tolerance of the iteration, zero when they intersect; rotations built from axes map the one frame to the other.",
     ["inputs"], "all radii, orientations and positions in two and three dimensions",
     "tests compute the distance for two pairs of ellipses and one inertia tensor",
     [BASE + "grain_tracker/ellipsoid.h", BASE + "grain_tracker/motion.h", BASE + "base/tensor.h"],
     [("Ellipsoid, distance", BASE + "grain_tracker/ellipsoid.h"), ("rotation tensors", BASE + "grain_tracker/motion.h")],
     "Distances are bracketed by certified lower and upper bounds (separating planes, alternating projections).")
prop("G02", "Grain distances, overlap decisions and archives follow the segments",
     "The radius, measure, maximum value and nearest-neighbour buffer of a grain and the distance of two grains are the extremes or sums over their segments for spherical, elliptical and wavefront descriptions, and two grains are reported as overlapping exactly if their distance does not exceed the relative plus absolute buffer. Archiving and restoring a grain changes none of these answers.",
     ["inputs"], "all sets of grains with several segments of each representation",
     "tests save and load two grains and evaluate a handful of distances",
     [BASE + "grain_tracker/grain.h", BASE + "grain_tracker/segment.h", BASE + "grain_tracker/representation.h"],
     [("Grain::distance/overlaps", BASE + "grain_tracker/grain.h"), ("Representation", BASE + "grain_tracker/representation.h")],
     "Random grains against min/max/sum over segment pairs.")
prop("G03", "Grain identities are inherited uniquely by the nearest matching grain",
     "When grains are detected anew, a new grain inherits the identity of the old grain on the same order parameter whose segment centre is nearest among those with intersecting extents, every old identity is inherited at most once, and of several claimants the one with the nearest centre wins. The result does not depend on the order of enumeration unless distances tie.",
     ["inputs", "histories"], "all old and new grain sets, any number of segments and order parameters",
     "tests contain a few hand-made configurations with one segment per grain",
     [BASE + "grain_tracker/tracking.h"],
     [("transfer_grain_ids", BASE + "grain_tracker/tracking.h")],
     "Random grain sets against a direct evaluation of the rule; ties only get the uniqueness checks.")
prop("G04", "Remapping sequences never overwrite a grain and lose no grain",
     "For every set of requested moves of grains between order parameters the computed sequence, together with the temporary storage chosen for cyclic dependencies, executes every requested move exactly once and lets a grain arrive only after the grain occupying its destination has left. Particles connected through periodic boundaries form exactly the connected groups.",
     ["inputs", "schedules"], "all sets of moves including chains, cycles and nested cycles, all overlap relations and input orders",
     "tests contain a handful of remapping lists",
     [BASE + "grain_tracker/remap_graph.h", BASE + "grain_tracker/periodicity_graph.h"],
     [("RemapGraph", BASE + "grain_tracker/remap_graph.h"), ("PeriodicityGraph", BASE + "grain_tracker/periodicity_graph.h")],
     "Sequences are executed symbolically on an occupancy table.")


prop("G05", "Particles split across processes are stitched to the connected groups",
     "For every distribution of local particle pieces over any number of processes and every set of contacts between pieces of different processes, both stitching algorithms number the global particles contiguously, give two pieces the same number exactly if a chain of contacts connects them, and report the right number of particles.",
     ["inputs", "configurations"], "all contact graphs between pieces on any number of processes",
     "tests contain two hand-made configurations on four processes",
     [BASE + "grain_tracker/distributed_stitching.h", "src/grain_tracker/distributed_stitching.cc"],
     [("perform_distributed_stitching", "src/grain_tracker/distributed_stitching.cc")],
     "Random contact graphs on 1, 3 and 5 ranks against a union-find.")
prop("G06", "Detected grains are exactly the connected regions above the threshold",
     "On every mesh, uniform or locally refined, periodic or not, on any number of processes, grain detection marks exactly the cells with an order parameter value above the threshold, gives two marked cells the same particle exactly if they are connected through faces (regions beside a common coarser cell may count as connected), and joins the particles connected through periodic faces to one grain with one segment each. Measure, centre, maximum value and radius of each segment are those of its cells, an elliptical description covers all cell centres, and the distance-map description reports the shortest gap to other particles of the field and zero distance to touching particles of other fields.",
     ["inputs", "configurations"], "all nodal fields, meshes, periodicity and partitions; elliptical descriptions need particles whose cell centres do not lie on a line or plane",
     "the stable tests contain no detection on a distributed mesh at all",
     [BASE + "grain_tracker/distributed_stitching.h", BASE + "grain_tracker/tracker.h", BASE + "grain_tracker/elliptical_helpers.h"],
     [("Tracker::detect_grains", BASE + "grain_tracker/tracker.h"), ("detect_local_particle_groups", BASE + "grain_tracker/distributed_stitching.h")],
     "Random fields and meshes on 1, 3 and 4 ranks against geometric flooding of the gathered cells.")
prop("G07", "Tracked grains keep their identity and never share a field with a neighbour",
     "At every tracking step each detected grain receives the identity it inherits, a fresh larger one if new grains are allowed, is ignored if its maximum does not exceed the threshold for new grains, or tracking stops with an error. If reassignment is requested, grains which overlap afterwards never share a field, the used fields are numbered contiguously and stay within the allowed maximum whenever grains were recoloured, nothing moves without a collision except to close gaps, and the reported collisions and changes are true on every process. Cloned and restored trackers continue identically.",
     ["histories", "configurations"], "all histories of moving, growing, vanishing and appearing grains, reassignment strategies and representations; overlap is measured without periodic images",
     "the stable tests exercise only the identity transfer function",
     [BASE + "grain_tracker/tracker.h", BASE + "grain_tracker/tracking.h"],
     [("Tracker::track", BASE + "grain_tracker/tracker.h"), ("Tracker::reassign_grains", BASE + "grain_tracker/tracker.h")],
     "Random histories, 1 and 3 ranks, against a fresh detection and a direct evaluation of overlaps.")
prop("G08", "Remapping moves whole grains between fields without losing any value",
     "When grains are assigned to other fields, remapping transfers every nodal value of a moved grain above the detection threshold unchanged to the new field in all given vectors, clears it on the old field unless another grain arrives there, and keeps the values of grains which are not moved, also for chains and cyclic exchanges of overlapping grains on any number of processes. Blocks which hold no order parameter and nodes away from moved grains are not changed.",
     ["histories", "configurations"], "all sets of grains and reassignments, meshes, and numbers of processes and vectors",
     "no stable test remaps a solution vector",
     [BASE + "grain_tracker/tracker.h", BASE + "grain_tracker/remap_graph.h"],
     [("Tracker::remap", BASE + "grain_tracker/tracker.h")],
     "Random histories, 1 and 3 ranks, compared node by node with the state before.")

prop("N01", "Newton's method returns only converged solutions and reports truthfully",
     "The nonlinear solver returns only if the residual norm of the returned solution meets the absolute tolerance or the tolerance relative to the initial guess and the user's criterion agrees, and stops with an error otherwise. Damping accepts the first step of the sequence full, half, quarter and so on with a sufficient decrease of the residual, so every accepted step of the damped method lowers it. The preconditioner is refreshed according to the configured intervals and the reported statistics are the accepted iterations, residual evaluations and linear iterations which really happened.",
     ["inputs", "histories"], "all residual functions, initial guesses, tolerances, damping and refresh settings, failing linear solves and user criteria",
     "tests solve one scalar equation",
     [BASE + "lac/solvers_nonlinear.h", BASE + "lac/solvers_nonlinear_parameters.h"],
     [("DampedNewtonSolver / NewtonSolver", BASE + "lac/solvers_nonlinear.h")],
     "Random smooth systems and scripted residuals; every call of the solver is recorded and replayed by an independent Newton iteration.")
prop("N02", "Linear solvers return only with the tolerance met and count all iterations",
     "A linear solver which returns normally has reduced the residual below the larger of the absolute tolerance and the tolerance relative to the residual of the caller's initial guess, up to the rounding of the method, and otherwise raises an error. If BiCGStab fails, GMRES continues within the limits, the iterations of both are reported and the iteration limit is unchanged afterwards; direct solves and relaxation yield the exact solution and the relaxed update, and unknown solver names are refused.",
     ["inputs"], "all regular matrices, right-hand sides, initial guesses, preconditioners and control settings",
     "tests do not examine linear solvers separately",
     [BASE + "lac/solvers_linear.h", BASE + "lac/solvers_linear_parameters.h"],
     [("SolverGMRESWrapper, SolverBicgstabWrapper, SolverDirectWrapper, SolverRelaxation", BASE + "lac/solvers_linear.h")],
     "Random matrices with prescribed spectra; the residual is recomputed from scratch.")
prop("N03", "Jacobian-free products approximate the derivative and disturb nothing",
     "The finite-difference product of the Jacobian with a direction approximates the directional derivative of the residual at the linearization point with first-order accuracy, vanishes for a vanishing direction, refers to the latest linearization point, and leaves the linearization point and the direction unchanged.",
     ["inputs", "histories"], "all differentiable residuals, points, directions and sequences of re-linearizations",
     "tests do not use the Jacobian-free operator on its own",
     [BASE + "lac/jacobian_operator.h", BASE + "lac/residual_wrapper.h"],
     [("JacobianFree", BASE + "lac/jacobian_operator.h"), ("ResidualWrapper", BASE + "lac/residual_wrapper.h")],
     "Random smooth systems with analytical Jacobians.")

prop("F01", "The free energy and all its derivatives are those of the published potential",
     "For every state the bulk free energy equals A c^2 (1-c)^2 + B (c^2 + 6 (1-c) S2 - 4 (2-c) S3 + 3 S2^2), where S2 and S3 are the sums of the squares and cubes of the order parameters, and the first, second and mixed derivatives offered to the solver are the derivatives of this function. The result does not depend on how the state is passed, on the number of order parameters being known at compile time, on the derivatives requested or on the other lanes of a vectorised evaluation.",
     ["inputs", "configurations"], "all concentrations, order parameters, coefficients and numbers of grains",
     "the test evaluates the energy at one state for two grains",
     [SINT + "free_energy.h", BASE + "numerics/power_helper.h", BASE + "base/mask.h"],
     [("FreeEnergy", SINT + "free_energy.h"), ("PowerHelper", BASE + "numerics/power_helper.h")],
     "Random states; the derivatives of the polynomial are obtained exactly by extrapolated differences in extended precision.")
prop("F02", "Diffusive fluxes, their tangents and temperature laws are consistent",
     "For every state the diffusive flux is the product of the chemical potential gradient with the sum of the bulk, vapour, surface and grain boundary mobilities, either scalar or with surface and grain boundary parts projected to the interface, and never points up the gradient for admissible states. For concentrations between zero and one the tangent and the partial derivatives of the mobility are the derivatives of this flux with the normals of grain boundaries kept fixed. The coefficients follow the Arrhenius law at the temperature of the current time, which is interpolated piecewise linearly between the given values and continued beyond them constantly or linearly as requested.",
     ["inputs", "configurations"], "all states, coefficients, dimensions, numbers of grains, temperature tables and times",
     "tests accept a tangent which is off by several percent, and do not exercise temperature laws",
     [SINT + "mobility.h", BASE + "numerics/functions.h", BASE + "base/tensor.h"],
     [("MobilityScalar, MobilityTensorial", SINT + "mobility.h"), ("ProviderRealistic", SINT + "mobility.h"), ("Function1DPiecewise", BASE + "numerics/functions.h")],
     "Random states against formulas evaluated and differentiated in extended precision; states within the numerical filters of vanishing gradients are excluded.")

prop("O01", "The discrete residual is the weak form of the governing equations",
     "For every mesh (locally refined or periodic), number of grains, material parameters, time step history and nodal state the assembled residual equals the quadrature of the coupled Cahn-Hilliard and Allen-Cahn weak form, including the time derivative of the chosen scheme and rigid body advection, with constraints resolved and constrained entries zero, independently of the number of processes. Diffusion and advection neither create nor destroy matter.",
     ["inputs", "configurations"], "all meshes, states, parameters, step histories and process counts",
     "tests do not evaluate the residual",
     [SINT + "operator_sintering_generic.h", SINT + "operator_sintering_base.h", SINT + "operator_sintering_data.h", BASE + "matrix_free/tools.h"],
     [("SinteringOperatorGeneric residual", SINT + "operator_sintering_generic.h"), ("TimeCellIntegrator", BASE + "time_integration/time_integrators.h")],
     "Cell-wise quadrature with an independently written weak form on generated meshes and states, serial and with 3 ranks.")
prop("O02", "The tangent is the derivative of the residual in every storage variant",
     "The linearized operator applied to a direction is the directional derivative of the residual at the linearization state, whether it is evaluated matrix-free, on the fly, from stored quadrature data with or without all gradients, or as assembled matrix; a constrained unknown is mapped to itself by the matrix-free variant and the direction is left unchanged. The inverse diagonal and the assembled diagonal blocks are those of the same tangent, and earlier linearization states leave no trace.",
     ["inputs", "configurations", "histories"], "all states, directions, meshes, storage variants and process counts",
     "tests do not evaluate the tangent",
     [SINT + "operator_sintering_generic.h", SINT + "operator_base.h", SINT + "operator_sintering_data.h", BASE + "matrix_free/tools.h"],
     [("SinteringOperatorGeneric tangent", SINT + "operator_sintering_generic.h"), ("OperatorBase matrices", SINT + "operator_base.h"), ("compute_matrix", BASE + "matrix_free/tools.h")],
     "Forward-mode differentiation of the independent weak form, all variants of the same random case.")
prop("O03", "Skipping absent order parameters changes nothing",
     "With the cut-off enabled a cell batch considers exactly the order parameters with a nodal value beyond the tolerance, and a mask of an earlier state is replaced. If the order parameters vanish where they are skipped, residuals, tangent products and diagonal blocks equal those without cut-off, with and without advection.",
     ["inputs", "configurations"], "all supports of the order parameters, including empty ones and cells with no grain",
     "tests never enable the cut-off",
     [SINT + "operator_sintering_data.h", SINT + "advection.h", SINT + "operator_sintering_generic.h"],
     [("set_component_mask", SINT + "operator_sintering_data.h"), ("relevant grains", SINT + "operator_sintering_generic.h")],
     "Differential against the weak form over all order parameters.")
prop("O04", "Rigid body forces, torques and velocities are those of the detected grains",
     "For each segment of a detected grain the volume, force and torque about its centre are the integrals over exactly the cells labelled with it (the weighted variant: the pairwise forces divided by the boundary area, without torque), forces of earlier states leave no trace, and the velocity at a point of such a cell is the translation plus rotation about the centre while all other cells are at rest. The Courant check accepts a step exactly if nothing moves further than the diameter of its cell, and residuals with advection use the forces of the state they are evaluated at.",
     ["inputs", "histories", "configurations"], "all grain configurations, force laws and process counts",
     "tests do not execute advection",
     [SINT + "operator_advection.h", SINT + "advection.h", SINT + "cfl_checker.h", SINT + "residual_wrapper.h", BASE + "base/tensor.h"],
     [("AdvectionOperatorGeneric/Weighted", SINT + "operator_advection.h"), ("AdvectionVelocityData", SINT + "advection.h"), ("CFLChecker", SINT + "cfl_checker.h")],
     "Direct quadrature over labelled cells on generated grain configurations; the Courant check is probed on both sides of the critical step.")
prop("O05", "Operators of the block preconditioner are diagonal blocks of the tangent",
     "Products and assembled matrices of the operators the block preconditioner is built from equal the corresponding diagonal blocks of the tangent (concentration and potential; all order parameters; each order parameter alone), with and without advection, with and without cut-off and on any number of processes. The approximations with one common matrix use the average, the entry of largest magnitude, or none of the second derivatives of the free energy, as their names say.",
     ["inputs", "configurations"], "all states, meshes, grain counts and process counts including processes without cells",
     "tests never build the block preconditioner",
     [SINT + "preconditioners.h", SINT + "operator_sintering_generic.h", SINT + "operator_base.h"],
     [("OperatorCahnHilliard, OperatorAllenCahn, OperatorAllenCahnBlocked", SINT + "preconditioners.h")],
     "Differential against the differentiated independent weak form restricted to the block.")
prop("O06", "Grain growth: residual and tangent follow the free energy",
     "The residual of the grain growth model is the weak form of the Allen-Cahn equations for the documented free energy with the time derivative of the given history, and its linearization, matrix-free or assembled, is the directional derivative of the residual.",
     ["inputs", "configurations"], "all states, directions, histories, meshes and process counts",
     "tests do not execute the grain growth operator",
     [SINT + "operator_grain_growth.h", SINT + "operator_base.h"],
     [("GrainGrowthOperator", SINT + "operator_grain_growth.h"), ("GrainGrowthFreeEnergy", SINT + "operator_grain_growth.h")],
     "Cell-wise quadrature of an independently written weak form, differentiated in forward mode.")
prop("O07", "Grand potential model: residual, tangent and derivatives are consistent",
     "The residual of the grand potential model is the weak form of its phase, potential and order parameter equations with the time derivative of the given history, and its linearization, matrix-free or assembled, is the directional derivative of the residual. The derivatives of the potentials and of the multi-well are those of the functions themselves.",
     ["inputs", "configurations"], "all states, directions, histories, meshes and process counts",
     "tests compare one tangent with a loose tolerance",
     [SINT + "operator_grand_potential_greenquist.h", SINT + "operator_base.h"],
     [("GreenquistGrandPotentialOperator", SINT + "operator_grand_potential_greenquist.h"), ("GreenquistFreeEnergy", SINT + "operator_grand_potential_greenquist.h")],
     "Cell-wise quadrature of an independently written weak form, differentiated in forward mode; exact stencils for the polynomial potentials.")
prop("I01", "Initial packings are the requested particles with smooth interfaces",
     "Circular, regular and arbitrary packings contain exactly the requested particles, in two and three dimensions and wherever they lie: each particle belongs to one order parameter which is one inside, zero outside and a cosine profile of the given width in between, overlapping particles share a straight diffuse boundary in the plane of their intersection, and particles with a common order parameter keep the required distance. The concentration is the maximum or the capped sum of the order parameters (or its complement), the bounds enclose all particles, and particle files are read value by value.",
     ["inputs", "configurations"], "all particle centres, radii, overlaps, widths, directions, component layouts and files",
     "tests use a few fixed packings and do not examine values",
     [SINT + "initial_values_cloud.h", SINT + "initial_values_spherical.h", SINT + "initial_values_array.h", SINT + "initial_values_circle.h", SINT + "initial_values_hypercube.h", SINT + "initial_values_ch_ac.h", SINT + "particle.h", "applications/sintering/src/csv_reader.cc"],
     [("InitialValuesCloud, InitialValuesCircle, InitialValuesHypercube", SINT + "initial_values_cloud.h"), ("read_particles", SINT + "particle.h")],
     "Random packings sampled at interfaces, contacts and centres against closed-form profiles; files are generated.")
prop("I02", "Imported microstructures are the polygons of the file",
     "For microstructures given as contour lines or as Voronoi tables the order parameter of a grain is the linear profile of the signed distance to its polygons, with the interface inside, outside or in the middle of the contour, for convex and non-convex polygons of either orientation and points on edges and vertices. All pieces of a grain have one order parameter, touching grains have different ones, and bounds and radius follow from the polygons.",
     ["inputs", "configurations"], "all tilings, widths, directions, file layouts and points",
     "two fixed files are compared with stored output",
     [SINT + "initial_values_microstructure.h", SINT + "initial_values_microstructure_imaging.h", SINT + "initial_values_microstructure_voronoi.h", "applications/sintering/src/csv_reader.cc"],
     [("MicroSegment, MicroGrain", SINT + "initial_values_microstructure.h")],
     "Random tilings are written in both formats, read back and sampled; winding number and distance are computed independently in extended precision.")
APP = [SINT + "driver.h", "applications/sintering/sintering_generic.cc", BASE + "grain_tracker/tracker.h"]
prop("S01", "Simulations obey the laws of the model from the first to the last step",
     "A simulation of a packing runs to exactly the final time with the prescribed time steps (growth, upper limit, halving after a failed step), reports every step once and totals which are the sums over its steps. Matter is conserved while the mesh is unchanged, the free energy is the sum of its parts and never rises with first order integration, and every grain of the packing is found at every step, with any combination of tracking, mesh adaptivity, integration order, control boxes and number of processes.",
     ["histories", "inputs", "configurations"], "all packings, material and numerical parameters, schedules of tracking and adaptivity, process counts",
     "tests run few fixed configurations and compare text output",
     APP, [("driver", SINT + "driver.h"), ("sintering_generic", "applications/sintering/sintering_generic.cc")],
     "The real application is run as a subprocess on generated packings and parameters; its step log, result table and final statistics are checked against the conservation, energy and time-stepping laws.")
prop("S02", "A restarted simulation continues as the uninterrupted one would",
     "Restart points are written when due, numbered in turn, and each can be read. A simulation continued from any of them with the full history saved takes the same steps with the same sizes, mesh adaptions, number of grains and results as the run which was never interrupted, and its table continues the old one; with flexible data also on another number of processes. Without the full history it still reaches the final time and conserves matter.",
     ["crash points", "histories", "configurations"], "all packings, parameters, restart points and schedules, flexible and fixed data, process counts before and after",
     "tests do not restart any simulation at a random point and compare the continuation",
     APP, [("driver restart", SINT + "driver.h"), ("tracker", BASE + "grain_tracker/tracker.h"), ("sintering_generic", "applications/sintering/sintering_generic.cc")],
     "Each generated run is repeated from one of its restart points; steps, sizes, adaptions and the result table are compared with those of the uninterrupted run.")
prop("S03", "The result does not depend on how the same problem is described or solved",
     "Simulations of the same packing give the same table of results, step by step, on any number of processes, for particles listed in any order, for a mirrored, rotated or shifted packing, with any preconditioner, linear or nonlinear solver, matrix-free or matrix-based, with or without grain tracking, for any start time, in other units of length, time and energy, and whatever else is written. This includes surface, grain boundary and control volume integrals, contour lengths, coordination numbers, shrinkage and mesh quality.",
     ["inputs", "configurations", "histories"], "all packings, parameters and pairs of equivalent descriptions (metamorphic)",
     "no stable test runs a simulation twice in equivalent ways",
     [*APP, SINT + "postprocessors.h", SINT + "operator_sintering_base.h"], [("driver", SINT + "driver.h"), ("output", SINT + "output.h"), ("postprocessors", SINT + "postprocessors.h"), ("sintering_generic", "applications/sintering/sintering_generic.cc")],
     "Pairs of simulations which describe the same physics in different ways are run as subprocesses and their tables are compared after the known scaling.")
prop("M01", "Initial meshes cover the domain with the requested resolution",
     "For every box, interface width or particle radius or explicit number of divisions, largest admissible prime factor, periodicity and refinement mode the created mesh covers exactly the requested box, joins exactly the opposite periodic boundaries, and has, once the initial and the reported additional refinements are done, cells at least as fine as requested. The refinement mode only decides how much of that refinement is done at once, and reducing the numbers of divisions to the admissible primes keeps the resolution.",
     ["inputs", "configurations"], "all boxes, resolutions, periodicities, refinement modes and process counts",
     "tests create no mesh through the program",
     [BASE + "grid/grid_tools.h", "src/grid/grid_tools.cc"],
     [("create_mesh_from_interface/radius/divisions", "src/grid/grid_tools.cc"), ("mesh interface", BASE + "grid/grid_tools.h")],
     "Random boxes and parameters; the mesh is measured and compared with the requested resolution.")
prop("M02", "Mesh adaption resolves every interface and preserves the fields",
     "Adapting the mesh keeps all levels within the given bounds, refines every cell in the range of the interface to the finest admissible level as requested, and transfers each field unchanged where the mesh was not coarsened and as the interpolant elsewhere. Coarsened copies of a mesh used for output keep the nodal values.",
     ["inputs", "configurations", "histories"], "all meshes, fields, criteria, level bounds and process counts",
     "tests do not adapt meshes",
     [BASE + "grid/grid_tools.h", "src/grid/grid_tools.cc", BASE + "numerics/vector_tools.h"],
     [("coarsen_and_refine_mesh, coarsen_triangulation", BASE + "grid/grid_tools.h")],
     "Random meshes and fields; levels, flags and nodal values are compared before and after.")
prop("P01", "Written integrals and fields are those of the current solution",
     "For every mesh, number of grains, state and number of processes each domain integral (solid volume, surface, grain boundary and grain measures, energies, order parameters, control volume) equals the quadrature of its definition over the domain or over the points strictly inside a control box. Each written field is, at every node, the projection of its definition on one of the adjacent cells, the divergences of the fluxes are the weak divergences of the fluxes of the four mechanisms, and none of this alters the solution.",
     ["inputs", "configurations"], "all states, meshes, boxes, selections of quantities and process counts",
     "tests evaluate few quantities of fixed simulations",
     [SINT + "operator_sintering_base.h", SINT + "operator_postproc.h", BASE + "grid/bounding_box_filter.h"],
     [("build_domain_quantities_evaluators", SINT + "operator_sintering_base.h"), ("calc_domain_quantities", SINT + "operator_base.h"), ("PostprocOperator", SINT + "operator_postproc.h"), ("BoundingBoxFilter", BASE + "grid/bounding_box_filter.h")],
     "Cell-wise quadrature of independently written definitions on generated meshes and states; fields are read back from the output patches.")
prop("P02", "Areas, extents, pores and mesh quality describe the solution",
     "The surface area is that of the level set and the grain boundary area that of the common parts of the level sets, within a control box up to the facets it cuts; the extents of the body lie between its outermost nodes and its outermost points; the mesh quality is one minus the largest change of a field within a cell. The pores are the connected regions of cells without material (regions beside a common coarser cell may count as one), whatever their size, with their volume, centre and radius, and a point belongs to a control box according to its coordinates.",
     ["inputs", "configurations"], "all meshes, level sets, boxes, void regions of any size and process counts",
     "tests compute these quantities for fixed small cases only, if at all",
     [SINT + "postprocessors.h", SINT + "postprocessors_stats.h", BASE + "grid/bounding_box_filter.h", BASE + "grain_tracker/distributed_stitching.h"],
     [("compute_surface_area, estimate_shrinkage, detect_pores", SINT + "postprocessors.h"), ("output_porosity_stats", SINT + "postprocessors_stats.h")],
     "Linear level sets with exactly known sections, union-find over the cells for the pores, and direct evaluation for the rest, serial and with 3 ranks.")
NOT_APPLICABLE = {}

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run_check.py --setup",
         "checks": [{"property": p["id"],
                     "quick_cmd": f"python3 run_check.py {p['id']}",
                     "thorough_cmd": f"python3 run_check.py {p['id']} --tier thorough",
                     "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]}
                    for p in P if p["id"] not in NOT_APPLICABLE],
         "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
