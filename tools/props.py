#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, obs, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": obs, "hook_needed": hook}})
S="source/"; W=S+"problem/SWE/"; G=S+"problem/Green-Naghdi/"
SER=S+"simulation/serial/simulation.hpp"; OMP=S+"simulation/ompi/simulation_ompi.hpp"

prop("C01","Water volume is conserved in closed basins",
 "In a domain whose only boundaries are land walls, without open boundaries, the total volume of water after every time step equals the volume at the start up to round-off (up to the nonlinear solver tolerance for the implicit scheme). This holds for every discretization (RKDG, EHDG, IHDG, Green-Naghdi), polynomial order, mesh, bathymetry and initial state the program accepts, also when cells wet and dry, when the slope limiter acts and when bottom friction is on.",
 ["inputs","configurations"],"all closed meshes, orders, time-step sizes, bathymetries, initial states, and switches of limiter, wetting/drying, friction",
 "No test runs a simulation in time; the fixed-size kernel tests look at one element or one flux evaluation.",
 [W+"discretization_RKDG/kernels_processor",W+"discretization_EHDG/kernels_processor",W+"discretization_IHDG/kernels_processor",G+"discretization_EHDG/kernels_processor",S+"geometry",W+"problem_slope_limiter"],
 [("q","modal water elevation and momenta per element",W+"problem_data_structure/swe_data_state.hpp"),("bath","bathymetry per element",W+"problem_data_structure/swe_data_state.hpp")],
 [("volume/interface/boundary kernels",W+"discretization_RKDG/kernels_processor"),("wetting and drying kernel",W+"discretization_RKDG/kernels_processor/rkdg_swe_proc_wet_dry.hpp")],
 ["state of every element at every output point of a real run"])
prop("C02","Still water stays still (well-balanced)",
 "Water at rest with a flat free surface over any bathymetry stays at rest: in a closed basin elevation stays constant and momentum stays zero up to round-off at every step, for every discretization, order from one up and mesh, with friction on or off. This includes non-zero surface levels and partially dry domains whose dry elements lie above the water surface.",
 ["inputs","configurations"],"all meshes, bathymetries, constant surface levels, orders, discretizations",
 "Tests contain no time-dependent run; the balance is a cancellation between volume, surface and source terms living in different files.",
 [W+"problem_source/swe_source.hpp",W+"problem_flux/swe_flux.hpp",W+"discretization_RKDG",W+"discretization_EHDG",W+"discretization_IHDG",G+"discretization_EHDG"],
 [("q","modal state",W+"problem_data_structure/swe_data_state.hpp")],
 [("pressure term and bathymetry gradient source",W+"problem_source/swe_source.hpp")],
 ["state of every element at every output point of a real run"])
prop("C03","A distributed run computes what the serial run computes",
 "For the same input, a run over any number of MPI ranks, submeshes and threads, with any assignment of elements to submeshes, yields at every step the same solution in every element as the serial run, up to round-off amplification. This holds for each discretization, with boundary forcing, wetting/drying, slope limiting and levees inside or across submeshes.",
 ["schedules","configurations","inputs"],"all partitions, numbers of ranks/submeshes/threads, inputs and message orderings",
 "No unit test runs in parallel; CI compares one two-way METIS partition of one mesh and only a global error norm.",
 ["partitioner",S+"communication",S+"simulation/ompi",W+"discretization_RKDG/dist_boundary_conditions",W+"discretization_EHDG/dist_boundary_conditions",W+"discretization_IHDG/dist_boundary_conditions",W+"problem_preprocessor/swe_pre_create_dbound.hpp",W+"problem_slope_limiter/swe_CS_sl_ompi.hpp"],
 [("q","modal state per element",W+"problem_data_structure/swe_data_state.hpp")],
 [("distributed boundary",S+"geometry/boundary.hpp"),("exchange order",S+"communication/db_data_exchanger.hpp")],
 ["per-element state of serial and distributed runs at every output point"])
prop("C04","Results do not depend on numbering, orientation or placement of the mesh",
 "Re-running an input reproduces every output bit for bit. Renumbering nodes or elements, cyclically rotating the vertex order of elements, or translating, rotating by right angles or (without slope limiting, which pairs neighbours in counter-clockwise order) mirroring the domain together with its data gives the correspondingly transformed solution up to round-off, for each discretization.",
 ["inputs","programs"],"all meshes, permutations, rotations/reflections and translations",
 "Tests use one fixed numbering per mesh; edge-local orientation, neighbour lookup and point reversal have 9 edge pairings per interface.",
 [S+"preprocessor/initialize_mesh.hpp",S+"geometry",S+"shape",S+"basis",W+"problem_flux/swe_flux.hpp"],
 [("ids and neighbours","element and neighbour ids",S+"geometry/element.hpp")],
 [("quadrature-point reversal across interfaces",S+"geometry/interface.hpp")],
 ["per-element states of paired real runs; raw bytes of output of repeated runs"])
prop("C05","Time stepping follows its Runge-Kutta/implicit/splitting scheme exactly",
 "The explicit stepper advances any ODE y'=f(t,y) by a consistent strong-stability-preserving Runge-Kutta scheme of the order selected, evaluating f at the scheme's stage times, and integrates over exactly the requested number of steps; the implicit stepper has its nominal order too, and operator splitting visits its sub-steps symmetrically. Simulated time, step count, the stage index and the ramp factor are those of the time reached, for every step size, order and stage count; the ramp is tanh(2 t/ramp duration) (duration in days), starts at 0, never leaves [0,1], never decreases from step to step, and is 1 throughout when no ramp is asked for.",
 ["inputs","histories"],"all orders/stages offered, step sizes, ramp durations, run lengths",
 "The unit test integrates one autonomous ODE at a few step sizes, so wrong stage times or a wrong ramp are invisible.",
 [S+"simulation/stepper"],
 [("stage coefficients","ark, brk, crk, drk",S+"simulation/stepper/explicit_ssp_rk_stepper.hpp"),("t, step, stage, ramp","clock",S+"simulation/stepper/explicit_ssp_rk_stepper.hpp")],
 [("stage update",S+"simulation/stepper/explicit_ssp_rk_stepper.hpp"),("split stepping",S+"simulation/stepper/second_strang_stepper.hpp")],
 ["stage values, times and ramp seen while integrating generated ODEs"])
prop("C06","Quadrature rules are exact to their stated degree",
 "For every degree the quadrature rules offer, on the reference triangle and on the reference segment, the rule integrates all polynomials up to at least that degree exactly up to round-off, its weights sum to the domain's measure, all its points lie in the closed reference domain (except in the triangle rules of degree 11, 15, 16, 18 and 20, which by construction have points slightly outside), and the number of points it announces is the number it returns. A degree the rules do not support is refused rather than answered wrongly.",
 ["inputs"],"all supported degrees and all polynomials of at most that degree",
 "The tests check one or two monomials per degree, and weights that only matter for other monomials go unseen.",
 [S+"integration"],[("points and weights","rule tables",S+"integration/integrations_2D.hpp")],
 [("Dunavant rules",S+"integration/integration_2D/integration_dunavant_2D.cpp"),("Gauss-Legendre rules",S+"integration/integration_1D/integration_gausslegendre_1D.cpp")],
 ["points and weights returned for each degree"])
prop("C07","The polynomial bases are orthogonal, complete and differentiated right",
 "For every order, the triangle basis and the segment basis are mutually orthogonal, span all polynomials up to that order, have the declared gradients, and the inverse mass matrix they hand out really is the inverse of the mass matrix. Conversions between linear nodal values and basis coefficients are mutually inverse and reproduce linear functions exactly, and projections between orders keep the represented polynomial where it fits.",
 ["inputs"],"all orders the program offers, all points and polynomials",
 "Tests compare a few integrals at one order; other orders and points are unseen.",
 [S+"basis"],[("phi, dphi","basis values and gradients",S+"basis/bases_2D.hpp")],
 [("Dubiner",S+"basis/basis/basis_dubiner_2D.cpp"),("Legendre",S+"basis/basis/basis_legendre_1D.cpp")],
 ["basis values at generated points"])
prop("C08","Element and edge geometry agrees with the mesh for every triangle",
 "For every non-degenerate triangle the element's area, barycentre, Jacobian, edge lengths, outward unit normals, global coordinates of quadrature points, integrals, gradients and edge traces are those of plane geometry, and Green's theorem holds: the integral of a gradient over the element equals the boundary integral with the outward normal. The two sides of an interior edge see the same points in matching order with opposite normals, and projections reproduce polynomials of the element's order.",
 ["inputs"],"all triangles in any position, size, aspect ratio, and all edge pairings",
 "Unit tests evaluate one right-angle or one fixed triangle and a few functions.",
 [S+"shape",S+"geometry/element.hpp",S+"geometry/boundary.hpp",S+"geometry/interface.hpp",S+"geometry/edge_interface.hpp",S+"geometry/edge_boundary.hpp"],
 [("gp positions, normals, Jacobians","precomputed geometry",S+"geometry/element.hpp")],
 [("straight triangle map",S+"shape/shapes_2D/shape_straighttriangle.cpp")],
 ["values returned by the element, boundary, interface and edge interfaces"])
prop("C09","Every mesh edge gets exactly one treatment, of the prescribed kind",
 "When a mesh is loaded, every element of it is present exactly once, every interior edge becomes exactly one interface joining its two elements, and every exterior edge becomes exactly one boundary of the type its segment prescribes (with HDG: exactly one skeleton edge each). Nothing is dropped, duplicated or attached to the wrong side, and a mesh that cannot be assembled is refused.",
 ["inputs"],"all valid conforming meshes, with any boundary segmentation, numbering and levee pairs",
 "Tests build one two-element mesh; the matching of raw boundaries by key pairs and segment lookup is untested on general meshes.",
 [S+"preprocessor/initialize_mesh.hpp",S+"preprocessor/initialize_mesh_skeleton.hpp",S+"preprocessor/mesh_metadata.cpp",W+"problem_preprocessor"],
 [("mesh containers","elements, interfaces, boundaries, edges",S+"geometry/mesh_definitions.hpp")],
 [("raw boundary matching",W+"problem_preprocessor/swe_pre_create_intface.hpp")],
 ["inventory of the assembled mesh compared with the mesh file"])
prop("C10","Numerical fluxes are consistent, conservative and upwind-stable",
 "For any pair of wet states and any unit normal, the local Lax-Friedrichs flux equals the physical normal flux when the states agree, what leaves one side enters the other when sides are exchanged and the normal reversed, it rotates with the frame, and its dissipation uses the largest wave speed of the two states. At a land wall no water crosses, and the flux at an open boundary with the prescribed state equal to the interior one is the physical flux, in all discretizations.",
 ["inputs"],"all states, depths, normals, spherical factors and polynomial traces",
 "One test evaluates the flux for a handful of states and only the RKDG variant.",
 [W+"discretization_RKDG/numerical_fluxes",W+"problem_flux/swe_flux.hpp",W+"problem_stabilization_parameters",W+"discretization_RKDG/boundary_conditions",W+"discretization_RKDG/interface_specializations",W+"discretization_EHDG/interface_specializations"],
 [("F_hat_at_gp","normal flux at edge points",W+"problem_data_structure/swe_data_boundary.hpp")],
 [("LLF_flux",W+"discretization_RKDG/numerical_fluxes/rkdg_swe_numerical_fluxes.hpp"),("LF parameter",W+"problem_stabilization_parameters/swe_stab_param_LF.hpp")],
 ["fluxes computed by the real kernels for generated states"])
prop("C11","Analytic Jacobians and eigen-decompositions match the flux",
 "For any wet state and unit normal, the flux Jacobians, their eigenvector matrices and inverses, the split (positive/negative/absolute) matrices, the stabilization matrices and all derivatives used by the hybridized implicit solver equal the derivatives of the functions they linearize. The global linear system assembled by the implicit scheme is the derivative of its residual with respect to element and edge unknowns.",
 ["inputs"],"all wet states, normals, boundary types, source settings",
 "Two tests compare one or a few fixed states on one two-element mesh and some boundary types.",
 [W+"problem_jacobian/swe_jacobian.hpp",W+"problem_flux/swe_flux.hpp",W+"problem_stabilization_parameters",W+"discretization_IHDG"],
 [("Jacobian blocks","d residual / d unknown",W+"problem_data_structure/swe_data_internal.hpp")],
 [("linearization kernels",W+"discretization_IHDG/kernels_processor")],
 ["matrices returned for generated states; local blocks during real implicit runs"])
prop("C12","Wetting and drying never creates negative depth, water or momentum",
 "After every stage of a wetting/drying run, every element is finite and has non-negative mean depth, an element marked wet has strictly positive depth at its vertices (where slope limiting does not intervene), an element marked dry carries no momentum, and the treatment itself never changes an element's water volume unless its mean depth had already fallen to nothing. Water never leaves a dry element, an element deeper than the threshold everywhere is left untouched, and the result of the treatment is independent of vertex order (exact ties in depth aside).",
 ["inputs","histories"],"all element states near and across the wet/dry threshold, all run histories with moving shorelines",
 "One test applies the kernel to a few hand-made states on one element.",
 [W+"discretization_RKDG/kernels_processor/rkdg_swe_proc_wet_dry.hpp",W+"problem_postprocessor/swe_post_wet_dry.hpp",W+"discretization_RKDG/interface_specializations",W+"problem_preprocessor/swe_pre_init_data.hpp"],
 [("wet flag and vertex depths","wet/dry state",W+"problem_data_structure/swe_data_wet_dry.hpp")],
 [("wetting_drying kernel",W+"discretization_RKDG/kernels_processor")],
 ["element state before and after the real kernel; states after every stage of real runs"])
prop("C13","Slope limiting preserves means and smooth data and removes overshoots",
 "Slope limiting never changes an element's mean water elevation or momentum, and leaves data that are linear in space untouched in elements away from the boundary with wet neighbours. The deviations at edge midpoints that it hands on, in characteristic variables, are the modified minmod of the element's own deviation and the neighbouring means' differences, reduced only as needed to keep the mean; elements next to dry elements are left alone, and serial and distributed limiters give the same result.",
 ["inputs","histories"],"all meshes, states and neighbour configurations",
 "No test exercises the limiter at all.",
 [W+"problem_slope_limiter",W+"problem_data_structure/swe_data_slope_limit.hpp"],
 [("limiter state","alpha, midpoints, barycentre states",W+"problem_data_structure/swe_data_slope_limit.hpp")],
 [("Cockburn-Shu limiter",W+"problem_slope_limiter/swe_CS_slope_limiter.hpp")],
 ["state before and after the real limiter on generated meshes and states"])
prop("C14","ADCIRC grid files are read, classified and rewritten faithfully",
 "Reading an ADCIRC grid file gives exactly the nodes, depths, elements, open and land segments and generic/levee data in it, and writing it back and re-reading reproduces all of them to the written precision. Every boundary edge is classified by the segment it belongs to, in either direction, and malformed or unknown boundary codes are rejected with an error, not misread.",
 ["inputs"],"all grid files of the documented format: numbering, counts, boundary types and orders",
 "One test round-trips one sample file.",
 [S+"preprocessor/ADCIRC_reader"],
 [("nodes, elements, segments","parsed file",S+"preprocessor/ADCIRC_reader/adcirc_format.hpp")],
 [("parser, writer, classification",S+"preprocessor/ADCIRC_reader/adcirc_format.cpp")],
 ["parsed structure compared with an independent parse; emitted files"])
prop("C15","Internal mesh files carry the mesh unchanged",
 "The internal mesh representation built from a grid file lists, for every element and edge, the right neighbour and boundary type, symmetric between neighbours, and coordinates and depths equal to the grid's. Writing it to a file and reading that file back reproduces it, including negative and extreme coordinates and distributed boundaries.",
 ["inputs"],"all meshes and partitions",
 "One test round-trips one mesh and checks a few lookups.",
 [S+"preprocessor/mesh_metadata.cpp",S+"preprocessor/mesh_metadata.hpp"],
 [("elements and nodes","mesh metadata",S+"preprocessor/mesh_metadata.hpp")],
 [("write/read",S+"preprocessor/mesh_metadata.cpp")],
 ["metadata structures and files for generated meshes"])
prop("C16","Input files mean what they say, or are refused",
 "Every documented option of the input file (time stepping, order, mesh, output, physics, boundary data) reaches the simulation with the value written there, and defaults apply when it is absent. Rewriting the input and reading it again gives the same configuration. Missing or malformed required fields, missing files and unknown formats are rejected with an error before time stepping; a malformed optional section is announced and leaves the default in force, never a partial setting.",
 ["inputs","configurations"],"all combinations of documented options and all single-field omissions/corruptions",
 "Tests cover one complete sample input and a few missing-node cases.",
 [S+"preprocessor/input_parameters.hpp",W+"problem_input/swe_inputs.cpp"],
 [("parsed input","InputParameters and SWE inputs",S+"preprocessor/input_parameters.hpp")],
 [("YAML reader/writer",W+"problem_input/swe_inputs.cpp")],
 ["parsed values; re-emitted file; exit status and messages of the program"])
prop("C17","Output files show the computed solution at the requested times",
 "Modal, VTK and VTU outputs are written at the initial time and then at exactly the requested step interval, in the requested place, and hold the elements, coordinates and values the solver holds at that time, with their wet/dry status, to the printed precision. Every element and variable appears, files are well formed, output settings never alter the computed solution, and the reported error norm equals the L2 distance from the stated true solution.",
 ["inputs","configurations"],"all meshes, output frequencies, orders, and combinations of output options",
 "No test writes or reads an output file.",
 [S+"simulation/writer.hpp",W+"problem_postprocessor",S+"geometry/element.hpp",S+"shape/shapes_2D/shape_straighttriangle.cpp"],
 [("output files","modal, vtk, vtu files",S+"simulation/writer.hpp")],
 [("write kernels",W+"problem_postprocessor")],
 ["files written by real runs compared with the in-process state"])
prop("C18","Partitioning loses nothing and describes both sides alike",
 "For any mesh, number of parts and assignment of elements, the partition files together contain every element exactly once with its data, every submesh is non-empty and readable, and every cut edge appears as a distributed boundary on both sides with matching descriptions in the same order, addressed to each other's rank and submesh. Parts written for a rank match the file names and counts the distributed run reads, and all other boundaries keep their type.",
 ["inputs","configurations"],"all meshes, part counts, ranks per node, METIS answers",
 "The partition test does not even build here and covers one mesh; no test looks at the emitted files' cross-consistency.",
 ["partitioner",S+"preprocessor/mesh_metadata.cpp"],
 [(".meta/.dbmd files","submeshes and cut-edge lists","partitioner")],
 [("partition and write-out","partitioner")],
 ["files written by the real partitioner driven by generated partitions"])
prop("C19","Halo exchange delivers each neighbour's current data exactly once",
 "In every stage of a distributed run each distributed edge reads exactly the values its partner sent in that same stage and channel, in the partner's matching point order, never stale, partial, duplicated or crossed values, whatever the order and delay of message completion. Every send is matched by a receive of the same size, buffers are not touched while a transfer is in flight, and all requests complete.",
 ["schedules","histories"],"all message delivery orders and delays, all submesh topologies",
 "No unit test uses the communicator.",
 [S+"communication",S+"simulation/ompi",W+"discretization_RKDG/kernels_processor",W+"discretization_EHDG/kernels_processor"],
 [("send/receive buffers","per neighbour and channel",S+"communication/ompi_communicator.hpp")],
 [("persistent requests",S+"communication/ompi_communicator.cpp")],
 ["MPI calls and buffer contents in an instrumented MPI layer"])
prop("C20","The schemes converge to the exact solution at the designed rate",
 "With a smooth exact solution and its source, errors of every discretization fall at about rate p+1 (at least p+1/2) under mesh refinement with matched time steps, polynomial solutions within the space are reproduced to round-off in space, and uniform flow over a flat bed is preserved. Different discretizations agree with each other within the discretization error on any smooth problem.",
 ["inputs","configurations"],"all smooth solutions, orders and meshes",
 "The manufactured-solution comparison is outside the unit tests and compares only serial against parallel.",
 [W+"discretization_RKDG",W+"discretization_EHDG",W+"discretization_IHDG",W+"problem_source",W+"problem_preprocessor/swe_pre_init_data.hpp",W+"problem_postprocessor/swe_post_comp_res_l2.hpp"],
 [("q","modal state",W+"problem_data_structure/swe_data_state.hpp")],
 [("semi-discrete operator",W)],
 ["errors of real runs with generated exact solutions against the exact solution"])
prop("C21","Open boundaries apply the prescribed forcing",
 "At tide and flow boundaries the state imposed at each boundary point is the ramped sum over all constituents of amplitude, nodal factor, frequency, equilibrium argument and phase given for that node, interpolated between the edge's two nodes at the current stage time; at flow boundaries it is that sum as discharge per width along the outward normal (negative is inflow). Values go to the right node whichever way the segment is traversed, and function boundaries impose the prescribed state.",
 ["inputs","histories"],"all constituents, amplitudes, phases, times, ramps, segment orders",
 "Tests construct boundaries with zero or fixed forcing and do not look at time variation.",
 [W+"discretization_RKDG/boundary_conditions",W+"discretization_EHDG/boundary_conditions",W+"discretization_IHDG/boundary_conditions",W+"problem_preprocessor/swe_pre_create_bound.hpp"],
 [("forcing inputs","per node constituents",W+"problem_input/swe_inputs.hpp")],
 [("ComputeFlux of tide/flow/function boundaries",W+"discretization_RKDG/boundary_conditions")],
 ["state and flux at boundary points of real kernels and runs"])
prop("C22","Momentum sources are the documented forces",
 "The momentum tendency from sources equals bathymetry slope plus bottom friction (Chezy or Manning with its minimum) plus any enabled further forcing, evaluated at the element's state, and nothing is added to the mass equation. Friction always opposes the flow, vanishes at rest, is frame-independent and never reverses the flow within its stability range; a user-defined source is added as given.",
 ["inputs","configurations"],"all states, depths, friction settings and enabled forcings",
 "Tests evaluate a source only inside one Jacobian comparison.",
 [W+"problem_source/swe_source.hpp",W+"problem_function_files/swe_source_functions.hpp",W+"problem_data_structure/swe_data_source.hpp",W+"discretization_IHDG/kernels_processor"],
 [("source_at_gp","source terms at points",W+"problem_data_structure/swe_data_internal.hpp")],
 [("get_source",W+"problem_source/swe_source.hpp")],
 ["source arrays of the real kernels for generated states; decay of real runs"])
prop("C23","Levees block, overflow by the weir law, and exchange water both ways alike",
 "Levees exist in the RKDG discretization (the others refuse a mesh with levees). Across a levee pair no water passes while both sides are below the crest, and above it the discharge per width is the sub- or supercritical weir formula with the given coefficient, directed from the higher to the lower side. One and the same discharge is imposed (through the numerical flux of each side) on both sides, leaving one and entering the other, whichever side the file lists as front, and levee data (height, coefficients) reach the right edge, node and side.",
 ["inputs"],"all water levels, crest heights, coefficients, segment orders",
 "One regression example exists outside the unit tests; no test checks overflow rates.",
 [W+"discretization_RKDG/interface_specializations",W+"discretization_EHDG/interface_specializations",W+"problem_preprocessor/swe_pre_create_intface.hpp",W+"problem_preprocessor/swe_pre_preprocess_mesh.hpp"],
 [("levee inputs","crest height and weir coefficients",W+"problem_input/swe_inputs.hpp")],
 [("ISP::Levee",W+"discretization_RKDG/interface_specializations/rkdg_swe_intspc_levee.hpp")],
 ["edge fluxes of the real levee interface; volume on either side in real runs"])
prop("C24","Failures are reported, never passed off as results",
 "If the solution becomes non-finite, or input, mesh or boundary files are missing or unusable, the program stops with a message and a non-zero exit status, serial or distributed; it does not hang, corrupt memory or go on writing output as if nothing had happened. A run that ends with exit status zero has advanced to the requested end time with finite values everywhere.",
 ["inputs","fault_sequences","configurations"],"all invalid inputs, unstable configurations and missing or truncated files",
 "Unit tests only look at a few thrown errors of the input reader, not at the programs.",
 [SER,OMP,W+"problem_postprocessor/swe_post_scrutinize.hpp",S+"dgswemv2-serial.cpp",S+"dgswemv2-ompi.cpp"],
 [("exit status","process result",S+"dgswemv2-serial.cpp")],
 [("scrutinize_solution",W+"problem_postprocessor/swe_post_scrutinize.hpp")],
 ["exit status, signal, stderr and outputs of the real programs under injected faults"])
prop("C25","Generated meshes are valid and as requested",
 "For every extent, resolution, diagonal pattern and boundary specification, the mesh generator emits a conforming triangulation that tiles exactly the requested rectangle, counter-clockwise, with the requested number of cells and all four sides assigned the requested boundary types in connected order. The emitted files can be read back and simulated without change (outflow sides, which no solver implements, are refused there).",
 ["inputs"],"all extents, resolutions, patterns and boundary type combinations",
 "No test runs the generators.",
 ["mesh_generators"],[("grid file","generated mesh","mesh_generators")],
 [("generator","mesh_generators")],
 ["files written by the real generator"])
prop("C26","The Green-Naghdi correction is dispersive, neutral and consistent",
 "The dispersive correction never changes water volume, vanishes for still water and for uniform flow over a flat bed, and leaves dry or troubled elements untouched. The momentum it adds is that of the solution of the model's elliptic equation over any bed and flow, up to the discretization error. For small long waves over a flat bed the computed phase speed follows the linear dispersion relation of the model rather than the non-dispersive speed, and the computed derivatives it uses are those of the solution.",
 ["inputs","configurations"],"all waves, depths, meshes, orders",
 "No unit test touches the Green-Naghdi code.",
 [G],[("dispersive term","w1 and derivatives",G+"problem_data_structure")],
 [("dispersive correction solve",G+"discretization_EHDG/kernels_processor")],
 ["states around every correction in real runs; measured phase speeds"])
prop("C27","No undefined behaviour on any accepted input",
 "Reading any input the program accepts and running it in any discretization performs no out-of-bounds or use-after-free access, no read of uninitialized values that affects results, no misaligned access and no undefined arithmetic. Malformed files lead to a clean error rather than memory corruption.",
 ["inputs","configurations"],"all accepted inputs and options, plus malformed mesh and configuration files",
 "Tests are built without sanitizers and on a few fixed inputs.",
 [S],[("memory","heap, stack and globals of the run",S)],
 [("all kernels and readers",S)],
 ["sanitizer reports over generated inputs in all drivers"])
prop("C28","Threaded distributed runs are free of data races",
 "When one process advances several submeshes on several threads, no memory is accessed concurrently by two threads without ordering, from initialisation to the end of output. The results are independent of the number of threads and of how they interleave.",
 ["schedules"],"all thread interleavings and thread counts",
 "No test runs the threaded code.",
 [S+"simulation/ompi",S+"communication"],[("shared state","stepper, requests, submesh data, global data",S+"simulation/ompi/simulation_ompi.hpp")],
 [("parallel region and barriers",OMP)],
 ["race detector reports and states of real threaded runs under perturbed scheduling"])
prop("C29","Hybridized solvers satisfy their discrete trace and global equations",
 "In hybridized runs the edge trace obeys the flux balance: at every interior edge the numerical fluxes from both sides cancel, and at every boundary edge the trace equation of its boundary type holds. An accepted implicit step satisfies the fully discrete equations to the solver tolerance, and with decreasing time step the implicit, explicit hybridized and standard discontinuous Galerkin solutions approach each other.",
 ["inputs","configurations"],"all meshes, states, boundary types, time-step sizes",
 "Tests compare Jacobians at one state and never solve a step.",
 [W+"discretization_EHDG",W+"discretization_IHDG"],
 [("q_hat","edge trace unknowns",W+"problem_data_structure/swe_edge_data_state.hpp")],
 [("edge kernels and global solve",W+"discretization_IHDG/kernels_processor")],
 ["edge fluxes and residuals of real hybridized runs"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
