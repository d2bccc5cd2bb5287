M = "runtime monitoring of real executions"
TECH = {
"C01": M + ": full state recorded at every output of real runs; volume integrated by the monitor's own quadrature",
"C02": M + ": recorded states of still-water runs against the initial state",
"C03": M + ": state recorders in the serial and in real MPI/thread runs, compared element by element",
"C04": M + ": metamorphic monitor comparing recorded states of transformed copies of one run",
"C05": M + ": the real steppers driven on equations with known answers; clock and stage records of real runs",
"C06": M + ": every rule the code returns evaluated against exact rational moments",
"C07": M + ": recorded basis values judged by independent fits and exact moments",
"C08": M + ": recorded geometry of real elements, edges and skeleton judged by plane geometry and independent quadrature",
"C09": M + ": edge inventory of the mesh assembled by the real program compared with the grid",
"C10": M + ": fluxes recorded at every edge point for prescribed states, against the formulas",
"C11": M + ": recorded flux matrices and assembled Newton blocks against complex-step derivatives and residual differences",
"C12": M + ": pre/post monitor around the real wetting/drying treatment and at every stage of runs",
"C13": M + ": pre/post monitor around the real limiter with a reference limiter",
"C14": "AddressSanitizer/UBSan builds of the real reader and writer over generated and damaged grids, with an independent parser as oracle",
"C15": "AddressSanitizer/UBSan builds of the real meta-file code over generated and damaged files, with an independent reader as oracle",
"C16": M + ": every value parsed by the real input reader against what was written; real programs on unusable input",
"C17": M + ": output files of real programs parsed independently and compared with recorded states",
"C18": "AddressSanitizer/UBSan build of the real partitioner with chosen METIS answers; its files compared with grid and assignment",
"C19": M + ": instrumented MPI layer (delays, reordering, poisoned buffers) recording what every exchange sent and delivered",
"C20": M + ": recorded states of real runs against exact solutions under refinement",
"C21": M + ": boundary states and fluxes recorded in the real kernels against the forcing files",
"C22": M + ": source terms recorded in the real kernels against the documented forces",
"C23": M + ": levee fluxes recorded for prescribed levels, and recorded runs below and above the crest",
"C24": "fault injection into the real programs with a monitor of exit status, messages, output files and final states",
"C25": "AddressSanitizer/UBSan build of the real mesh generator; emitted files judged by geometry and simulated",
"C26": M + ": dispersive corrections recorded for prescribed states and in real runs, against independent solutions of the model",
"C27": "AddressSanitizer + UndefinedBehaviorSanitizer + library assertions and memcheck over accepted and malformed inputs",
"C28": "ThreadSanitizer on the real threaded driver with perturbed schedules; outputs compared across thread counts",
"C29": M + ": recorded traces and accepted steps put back into independently evaluated discrete equations",
}
NOTE = {i: "bounded exploration: every observed execution is judged, with counts in the evidence; other inputs are not" for i in TECH}
NOTE.update({
"C06": "exhaustive over the rules the code accepts (degrees 0-65 on segments, 0-20 on triangles) and all monomials of each degree",
"C19": "delays and orders are sampled; the monitored traffic is the point-to-point traffic of real runs",
"C28": "schedules are sampled by injected delays; the race detector generalises over orderings consistent with the observed synchronisation",
"C27": "reports are sound per execution; PETSc/MPI internals are not instrumented",
})
NA = {}
