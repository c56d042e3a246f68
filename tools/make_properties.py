#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Magnetization stays a unit vector; non-magnetic nodes are undefined",
 """In every configuration the solver saves, and at the start of every time step, the reduced magnetization of
 each node of a magnetic region (saturation magnetization > 0) has norm 1, whatever the length of the initial
 vector, the damping, the field and the number of steps taken, and the reported rate of change of the magnetization has no component
 along the magnetization. Every node that belongs to no magnetic region is
 saved as nan, in every configuration, and a non-magnetic neighbour never turns a magnetic node into nan. An initial magnetization that has no direction
 (zero or undefined vector) on a magnetic node is refused with a message and non-zero status.""",
 ["inputs", "configurations", "histories"],
 "every mesh, material set, initial magnetization, field and number of accepted or rejected steps",
 "unit tests call the node update on a handful of vectors; no test runs a time integration",
 ["src/node.h", "src/mesh.h", "src/solver.cpp", "src/save.cpp", "src/settings.h"],
 [("normalisation after the Euler-like update", "src/node.h make_evol"), ("orthonormal tangent basis", "src/node.h setBasis"),
  ("normalisation of the initial expression", "src/settings.h getMagnetization"), ("nan on non-magnetic nodes", "src/mesh.h init_distrib")],
 ["*.sol files", "<dM/dt> columns of the .evol file", "node state before and after each linear solve"],
 [("u", "reduced magnetization", "src/node.h dataNode")])

prop("C02", "Time-step control: bounds, acceptance, retry and abort",
 """No integration attempt uses a step larger than max(dt) or than the distance to the next output time; a step is accepted
 only if the linear solver converged and no node's magnetization changed by more than max(du), and the simulated
 time then advances by exactly that step. A rejected attempt leaves the starting state
 and the time unchanged and is retried with a smaller step. When the step would have to go below
 min(dt), the run stops with an explicit message and a non-zero exit status, and never reports a
 state past the last accepted one.""",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every sequence of accepted and rejected attempts: any stiffness, output period, dt bounds, max(du), solver failure at any attempt",
 "the stepping logic is never executed by a test; rejections depend on the whole history",
 ["src/time_integration.cpp", "src/time_integration.h", "src/solver.cpp"],
 [("TimeStepper", "src/time_integration.cpp"), ("CURRENT/NEXT double buffering", "src/node.h"), ("is_dt_TooSmall", "src/time_integration.h")],
 ["trace of every attempt (t, dt, outcome, state hash)", "times at which the applied field is evaluated", "verbose log", ".evol file", "exit status"],
 [("t, dt", "simulated time and step", "src/time_integration.h timing")])

prop("C03", "Output schedule, file format and metadata",
 """A run that completes writes one evolution row at each time t0 + k*evol_time_step, for k from 0 to the rounded number of periods
 up to final_time, on time to rounding accuracy, with the requested columns in the requested order
 and no other rows. A configuration file is written exactly for the rows whose number is a multiple of
 mag_config_every (none if false), named after the base name and the row number, in the output directory, with the time
 of that row and one line per mesh node in mesh-file order. Every output file starts with version, host, date,
 settings file, the user's metadata with continuation lines kept as comments, and the column titles.""",
 ["inputs", "configurations", "histories"],
 "every combination of initial time, period, final time, columns (global and per region), save period, metadata, base name and directory",
 "no test runs the executable",
 ["src/time_integration.cpp", "src/save.cpp", "src/settings.cpp", "src/main.cpp", "src/tags.cpp"],
 [("visible-step loop with target snapping", "src/time_integration.cpp"), ("saver", "src/save.cpp"), ("metadata", "src/settings.cpp")],
 [".evol and .sol files", "output directory listing"])

prop("C04", "Dynamics obey the Landau-Lifshitz-Gilbert equation",
 """For a uniformly magnetized sample, the computed magnetization follows dm/dt = -gamma0 m x H + alpha m x dm/dt with the documented gyromagnetic ratio,
 damping, applied field (constant, time-dependent, or space times time) and anisotropy, for every direction and strength of field, damping and material.
 The error vanishes when the maximum time step is reduced, at second order when the applied field is constant, there is no cubic anisotropy and the steps are small compared with the
 damping, at first order otherwise. A state in equilibrium with its effective field stays where it is.""",
 ["inputs", "configurations"],
 "every initial direction, field vector and time law, damping, anisotropy and material constant",
 "unit tests check isolated element integrals; no test integrates in time",
 ["src/tetra.cpp", "src/linear_algebra.cpp", "src/solver.cpp", "src/time_integration.cpp", "src/config.h.in"],
 [("theta scheme with effective damping", "src/tetra.cpp integrales, calc_alpha_eff"), ("tangent-plane projection", "src/element.h buildMatP")],
 ["<M>, <dM/dt> columns", ".sol files"])

prop("C05", "Element matrices implement the weak form of the effective field",
 """For every element geometry, orientation and node state, the element matrix and vector given to the linear solver are the projections on the nodes' tangent
 planes of the weak form of exchange, uniaxial and cubic anisotropy, applied, demagnetizing and spin-torque
 fields, with their second-order corrections in time and the stabilised damping. They are consistent with the energy of the same
 configuration: the field part of the right-hand side is minus the tangential
 gradient of the energy divided by mu0 Ms. On surfaces where the saturation magnetization jumps, surface anisotropy acts with the strength and sign of its energy,
 whichever way the surface triangle is oriented.""",
 ["inputs", "configurations"],
 "every non-degenerate tetrahedron or triangle, node state and material",
 "unit tests compare a few random elements with copies of the same formulas, term by term, and never the whole element",
 ["src/tetra.cpp", "src/triangle.cpp", "src/tetra.h", "src/triangle.h", "src/element.h", "src/node.h"],
 [("Tet::integrales", "src/tetra.cpp"), ("Tri::integrales", "src/triangle.cpp"), ("buildMatP", "src/element.h")],
 ["element matrices and vectors of the real classes, fed with generated elements"])

prop("C06", "Reported observables equal their definitions on the saved state",
 """Every quantity of an evolution row is the value of its documented definition on the configuration of that row: volume averages of the magnetization over all magnetic regions
 or over the named region, exchange, anisotropy (volume and surface), demagnetizing and Zeeman energies and
 their sum, maximum angle between neighbouring magnetic nodes, Thiele length, applied field, time, row number, time step and maximum change. Time-dependent
 quantities (applied field, Zeeman energy) are those of the row's own time. Non-magnetic regions contribute nothing and do
 not turn an observable into nan.""",
 ["inputs", "configurations", "histories"],
 "every mesh with one or several regions, material, state and time law",
 "tests check single-element energies; the reductions over regions and the bookkeeping over time are untested",
 ["src/save.cpp", "src/energy.cpp", "src/mesh.cpp", "src/mesh.h", "src/tetra.cpp", "src/triangle.cpp", "src/fem.h"],
 [("Fem::saver", "src/save.cpp"), ("Fem::energy", "src/energy.cpp"), ("mesh::avg, thiele, max_angle", "src/mesh.cpp, src/mesh.h")],
 [".evol rows against the .sol file of the same row and the mesh"])

prop("C07", "Damped motion releases energy at the rate of the damping, down to equilibrium",
 """With positive damping, a constant applied field, no spin torque and one saturation magnetization in all magnetic regions, the energy released between two output times (exchange, anisotropy, Zeeman, and work of
 the dipolar field) equals the heat alpha mu0 Ms/gamma0 integral |dm/dt|^2 in the limit of small steps, so that the total energy never increases beyond the accuracy of the time integration
 and of the dipolar field on the mesh. The state relaxes to a stationary one where the torque vanishes at every node. In a strong field, that equilibrium does not depend on
 damping, time step or initial state.""",
 ["inputs", "configurations", "histories"],
 "every sample, material set, constant field and initial state",
 "no test runs the integration",
 ["src/time_integration.cpp", "src/tetra.cpp", "src/triangle.cpp", "src/fmm_demag.h", "src/energy.cpp"],
 [("consistency of field, energy and stepping", "src/tetra.cpp, src/triangle.cpp, src/fmm_demag.h")],
 ["E_tot column", "<dM/dt> columns at late times"])

prop("C08", "Results depend on the physics, not on how the problem is written down",
 """Renumbering nodes, reordering or re-orienting elements, reordering, renaming or splitting regions, changing mesh format, or length unit with rescaled coordinates,
 translating the sample, reordering the settings, and choosing another random seed leave every reported result unchanged up to solver tolerance. Rotating
 sample, magnetization, field and anisotropy axes together rotates vector results and leaves
 scalars unchanged (the Thiele length, defined along z, excepted), and so does a mirror image, with axial vectors transformed as such.""",
 ["inputs", "configurations"],
 "every mesh description and every rigid motion",
 "tests use one mesh in one position",
 ["src/mesh.h", "src/mesh.cpp", "src/read.cpp", "src/tetra.cpp", "src/triangle.h", "src/fmm_demag.h", "src/linear_algebra.cpp", "src/settings.cpp"],
 [("node sorting and its inverse", "src/mesh.cpp sortNodes"), ("orientation of elements", "src/tetra.cpp orientate"), ("centre and size of the sample", "src/mesh.h")],
 [".evol and .sol files of equivalent descriptions"])

prop("C09", "Mesh reading and validation",
 """The solver works on exactly the nodes and tetrahedra of the mesh file's regions named in the settings; a mesh is refused with an error message and non-zero
 status when a named region is missing, when it has no tetrahedron, other element types or degenerate
 tetrahedra, when a face belongs to more than two tetrahedra, or when a surface triangle is duplicated, lies inside a region or belongs
 to no tetrahedron. Every boundary or interface face missing from the surface regions is added once, in a surface region of its own, so that results do not depend on which
 surfaces the file lists. Each surface element carries the
 jump of saturation magnetization across it, with the sign of its orientation.""",
 ["inputs", "configurations"],
 "every mesh: number of regions, listed surfaces, orientation, defects",
 "tests read three sound meshes",
 ["src/read.cpp", "src/mesh.cpp", "src/mesh.h", "src/meshUtils.h", "src/tetra.cpp", "src/triangle.h"],
 [("controlTriangles", "src/mesh.cpp"), ("checkMeshFile, readTetraedrons, readTriangles", "src/read.cpp"), ("orientate", "src/tetra.cpp")],
 ["exit status and messages", "verbose log", ".evol/.sol of equivalent meshes", "charges given to the magnetostatic solver"])

prop("C10", "Magnetostatics: charges, potential and suppression",
 """The magnetic charges handed to the fast multipole solver sum to zero for any magnetization unless a surface suppresses them, and their dipole moment is the
 magnetic moment of the sample; surfaces with
 suppressed charges contribute none and interfaces contribute the difference of the two saturation magnetizations. The potential saved at each node is the one of
 those charges over 4 pi, including the near-field correction of the surface triangles, and the demagnetizing energy is that of the potential. All sources and targets lie inside the
 solver's box for any mesh position.""",
 ["inputs", "configurations", "histories"],
 "every mesh, position, region layout, magnetization field and time step",
 "tests check the charges of single elements; nothing checks the assembled sources or the potential",
 ["src/fmm_demag.h", "src/tetra.cpp", "src/triangle.cpp", "src/mesh.cpp", "src/mesh.h"],
 [("insertCharges, calc_charges, demag", "src/fmm_demag.h"), ("charges, correctionCharges, potential", "src/tetra.cpp, src/triangle.cpp"), ("dMs", "src/mesh.cpp controlTriangles")],
 ["every call of the multipole solver (sources, targets, potentials)", "phi column of .sol files", "E_demag column"])

prop("C11", "Linear solvers: converged means solved, everything else is reported",
 """When a conjugate-gradient or biconjugate-gradient solve reports convergence, the returned vector satisfies the linear system to the requested relative tolerance, with prescribed values exact on
 the constrained unknowns, from any initial guess (zero on the constrained unknowns) and for any matrix scale whose squares can be represented. When it cannot (iteration limit, breakdown, singular or nan input), it reports so, in finite time and within the iteration limit, and
 never reports convergence. The sparse matrix returns exactly the sum of what was added to each entry, whatever the order, and its product with a vector is that of
 the equivalent dense matrix.""",
 ["inputs", "histories"],
 "every sparse matrix, right-hand side, initial guess, mask, tolerance and iteration limit",
 "tests solve a few well-conditioned fixed systems",
 ["src/algebra/bicg.h", "src/algebra/cg.h", "src/algebra/iter.h", "src/algebra/sparseMat.h", "src/algebra/algebra.h"],
 [("iteration monitor", "src/algebra/iter.h"), ("masking", "src/algebra/bicg.h, src/algebra/cg.h"), ("SparseMatrix", "src/algebra/sparseMat.h")],
 ["results and status of the real templates on generated systems, against dense algebra"])

prop("C12", "Parallel execution: no data race, same results as sequential",
 """Concurrent assembly, projection and reductions never race: no update of a matrix entry is lost and no shared datum is read while another thread writes it. The results are
 those of the sequential build up to rounding and solver tolerance, for every number of threads and every schedule. With a fixed --seed, repeating a run on
 one thread reproduces its output files bit for bit, apart from date and host.""",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the parallel loops and every number of worker threads",
 "tests are single runs whose schedules are not controlled; none runs under a race detector",
 ["src/solver.cpp", "src/solver.h", "src/linear_algebra.cpp", "src/mesh.h", "src/mesh.cpp", "src/algebra/sparseMat.h", "src/main.cpp"],
 [("atomic addition to matrix entries", "src/algebra/sparseMat.h"), ("EXEC_POL parallel algorithms", "src/linear_algebra.cpp, src/mesh.h")],
 ["race detector reports", "element-wise comparison with a sequential build"])

prop("C13", "No memory error or undefined behaviour; bad input fails cleanly",
 """No settings file, mesh file, restart file or command line makes the solver's own code read or write outside its objects, use uninitialised or
 freed memory, overflow, hang (user scripts that loop for ever excepted) or die by a signal it raised itself. Invalid input ends with a message on the error
 stream and a non-zero exit status, before any result is written as if valid. Valid
 input of unusual shape (several regions, non-magnetic regions, empty optional sections, no surface region) runs to completion.""",
 ["inputs", "configurations"],
 "every byte string given as settings, mesh, restart file or arguments, and every valid configuration",
 "tests never feed malformed input and are not built with sanitizers",
 ["src/settings.cpp", "src/read.cpp", "src/main.cpp", "src/mesh.cpp", "src/expression_parser.cpp", "src/save.cpp", "src/spinAccumulationSolver.cpp"],
 [("validation and error()", "src/settings.cpp"), ("checks while reading", "src/read.cpp"), ("SYSTEM_ERROR", "src/config.h.in")],
 ["sanitizer reports", "exit status, error stream, output files"])

prop("C14", "Saved state is complete: restart and interruption lose nothing",
 """A configuration file can be given back as initial magnetization, whatever regions the mesh has and with or without spin accumulation: the run starts from the saved time (or from initial_time if given) and from the saved magnetization of each node, and
 continues to the same results within the precision of the file and the accuracy of the time integration; a restart file that does not fit the mesh, is truncated or has no time is refused with an error.
 On SIGINT or SIGTERM at any moment of the integration before the last step, the run stops
 at the end of the current step and dies by that same signal. It then leaves, unless saving is disabled, a file with the last accepted state and its time, from which the run can be continued.""",
 ["crash_points", "inputs", "histories"],
 "every saved state, every interruption point, every restart file",
 "no test restarts or interrupts a run",
 ["src/read.cpp", "src/save.cpp", "src/time_integration.cpp", "src/main.cpp", "src/fem.h", "src/settings.cpp"],
 [("readSol / savesol with node_index", "src/read.cpp, src/save.cpp"), ("exit_if_signal_received", "src/time_integration.cpp")],
 ["*.sol, *_at_exit.sol", ".evol of the restarted run", "termination status"])

prop("C15", "Settings: precedence, defaults, validation and round trip",
 """The value of every setting is the one of the settings file, else of the user's default file, else of the built-in defaults; region parameters not given are those of the default region, and a setting
 given later replaces an earlier one completely, whatever form either is written in; vectors documented as unit vectors are normalised, and Ms and Js are alternative forms of the same quantity. What --verify prints, read back as a settings file, defines the same settings to
 the printed precision, and the template and defaults it prints are valid settings files equal to the built-in defaults.
 Inconsistent settings, and sections of the wrong kind, are refused with a message and non-zero status.""",
 ["inputs", "configurations"],
 "every settings document, in every accepted form of each key",
 "only the settings used by mesh-reading tests are exercised",
 ["src/settings.cpp", "src/settings.h", "src/default-settings.yml", "src/main.cpp"],
 [("Settings::read, toYaml, dumpTemplate", "src/settings.cpp"), ("get_user_defaults_filename", "src/main.cpp")],
 ["--verify, --print-defaults, --print-template output", "exit status", "results of runs with equivalent settings"])

prop("C16", "Electrostatic potential solves its boundary-value problem",
 """With one surface at fixed potential and one with fixed normal current density, the electric potential used and saved satisfies charge
 conservation at every free node for the conductivities of the regions, equals the prescribed value on the
 Dirichlet surface, and carries through it the total current imposed on the other one. It is independent of mesh numbering and
 linear in the imposed current. Missing or multiple boundary conditions are refused.""",
 ["inputs", "configurations"],
 "every mesh, conductivity layout and boundary condition",
 "one test solves the potential on one mesh with one analytic solution",
 ["src/electrostatSolver.cpp", "src/electrostatSolver.h", "src/solver.h", "src/algebra/cg.h"],
 [("integrales, solve, save", "src/electrostatSolver.cpp"), ("checkBoundaryConditions", "src/electrostatSolver.cpp")],
 ["_V.sol file against an independent finite-element residual"])

prop("C17", "Spin accumulation solves the diffusion equation of the current state",
 """With spin accumulation enabled, the spin vector saved with each configuration solves the discretised spin diffusion equation for
 that configuration's magnetization, the electric potential and the boundary values, which it takes exactly on the prescribed surfaces. It
 depends on that state only, not on how many steps, retries or restarts led to it. Its torque on the magnetization is the s-d
 exchange field of the documented prefactor, and it is absent when disabled.""",
 ["inputs", "histories", "configurations"],
 "every mesh with magnetic and non-magnetic metals, parameters, state and number of previous solves",
 "no test runs the spin accumulation solver in a time integration",
 ["src/spinAccumulationSolver.cpp", "src/spinAccumulationSolver.h", "src/solver.h", "src/tetra.cpp", "src/fem.h"],
 [("solve, integrales, boundaryConditions", "src/spinAccumulationSolver.cpp"), ("calc_Hst, extraField", "src/tetra.cpp")],
 ["sx sy sz columns of .sol files against an independent finite-element residual", "torque on the magnetization"])

prop("C18", "User expressions are evaluated faithfully, at the documented points",
 """Initial magnetization and field expressions, given as three expressions or as a function, are evaluated as JavaScript in double precision, with the documented extra
 functions accurate to at least seven digits over their whole domain, at node positions in metres (and the list of the node's regions when asked for), at the simulated time, and, for space-dependent fields, at the
 elements' integration points. Each evaluation depends on its arguments only. A script that fails to compile, throws, or does
 not return three numbers stops the run with a message and non-zero status.""",
 ["inputs", "histories"],
 "every expression and every argument, in any sequence of evaluations",
 "tests evaluate a few expressions at a few points",
 ["src/expression_parser.cpp", "src/expression_parser.h", "src/settings.h", "src/settings.cpp", "src/mesh.h", "src/mesh.cpp"],
 [("js_library, set_function, compute_vector", "src/expression_parser.cpp"), ("init_distrib, setExtSpaceField", "src/mesh.h, src/mesh.cpp")],
 ["iter0 .sol file", "H columns", "SCRIPT: lines", "results of the real parser class"])

prop("C19", "Recentering keeps a domain wall centred along the chosen axis",
 """With recentering enabled along X, Y or Z, whenever the average magnetization along that axis reaches the threshold after a step, the magnetization pattern is
 shifted along that axis, and only along it, by the distance that brings a wall between two oppositely magnetized ends back to the centre, new material entering with the
 magnetization of the nearest end and staying of unit norm; otherwise nothing is changed. A moving wall therefore stays inside the sample on every one of the three axes, in samples at any position, and a run where recentering never
 triggers gives the same results as one with recentering disabled. Absence of a wall when one is needed is reported with a message and non-zero status.""",
 ["inputs", "configurations", "histories"],
 "every axis, threshold, sample position and wall motion",
 "recentering is never executed by a test",
 ["src/recentering.cpp", "src/fem.h", "src/linear_algebra.h", "src/tetra.cpp", "src/settings.cpp"],
 [("Fem::recenter, direction", "src/recentering.cpp"), ("drift term", "src/tetra.cpp add_drift_BE")],
 ["<M> columns", ".sol files", "exit status"])

prop("C20", "Python modules and tools produce and transform files faithfully",
 """Meshes and settings produced by the Python modules are accepted by the solver and describe the requested shape: volume, outer surface, named regions and sub-surfaces, every boundary face once. The command-line
 tools keep the data they convert (to and from hdf5, to vtk, merged): a generated or merged configuration has one line per mesh node with the
 right index, and is accepted by the solver as initial magnetization; converted files hold
 the same numbers. The user's defaults file written by the configurator is accepted by the solver, whose outputs then carry the user's answers.""",
 ["inputs"],
 "every size, subdivision, transformation and region name",
 "no test covers the Python code",
 ["python-modules/meshMaker.py", "python-modules/settingsMaker.py", "python-modules/core.py", "tools/fg-gensol", "tools/fg-merge-sol", "tools/fg-configurator", "tools/fg-sol2hdf5", "tools/fg-h5extract", "tools/fg-sol2vtk"],
 [("Cuboid, Ico, Ellipsoid, Cylinder...", "python-modules/meshMaker.py"), ("Settings", "python-modules/settingsMaker.py")],
 ["generated files, read back independently and by the solver"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = len(__import__("re").findall(r"\.(?: |$)", p["statement"]))
    if n > 3: print(p["id"], n, "sentences")
