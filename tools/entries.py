"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""

TECH = (
    "contract-based deductive verification: the real functions of /repo are executed symbolically path by path on "
    "unconstrained inputs, every contract becomes a verification condition discharged by exact ring normal forms, z3 or cvc5"
)

P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique=TECH):
    P.append(
        {
            "p": {
                "id": id,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
            },
            "note": note,
            "technique": technique,
        }
    )


prop(
    "C01",
    "Tile neighbours follow the geometry of the cubed sphere",
    "For every number of processes that tiles the six panels, each process is told its own panel and tile position, and its "
    "four neighbours are exactly the tiles that share an edge with it on the sphere. Neighbourhood is mutual, and an edge is "
    "flagged as reversed exactly when the two tiles number its points in opposite directions. A process count that cannot "
    "tile the panels is refused.",
    ["configurations", "inputs"],
    "all process counts 6*k*k (k unbounded, symbolic), all panels, all tile positions; all other process counts for refusal",
    "tests run a handful of process counts (6, 24, 54); a wrong case on one panel edge only shows for particular tiles and counts",
    ["wx_factory/process_topology.py"],
    [("ProcessTopology.__init__", "wx_factory/process_topology.py"), ("rank_from_location", "wx_factory/process_topology.py")],
    "symbolic tile count and tile position (unbounded integers); oracle is an independent cube-face geometry",
)
prop(
    "C02",
    "Scalar halo exchange delivers the neighbour's values at the same points",
    "After a halo exchange of scalar fields, the value a tile receives along each of its four edges at each point is the value "
    "its neighbour holds at the same physical point, for every number of points, extra dimensions, boundary shape and "
    "number of fields. Every message is received exactly once by the tile it was meant for, whatever the order in which "
    "messages arrive, and the exchanged fields themselves are left unchanged.",
    ["inputs", "configurations", "schedules"],
    "all field values, all boundary lengths and leading dimensions, all tiles, 1..3 fields, all arrival orders",
    "tests sample shapes and one scheduler order; reversal, ordering or reshaping mistakes can hide behind symmetric data",
    ["wx_factory/process_topology.py"],
    [("start_exchange_scalars", "wx_factory/process_topology.py"), ("ExchangeRequest.wait", "wx_factory/process_topology.py")],
    "symbolic array shapes and element indices; MPI neighbourhood collectives replaced by their contract; bounded runs on threads",
)
prop(
    "C03",
    "Vector halo exchange preserves the physical vector across panel edges",
    "After a halo exchange of vector components, the components a tile receives describe, in its own panel's basis, the same "
    "physical vector (or covector) that the neighbour holds at the same physical point of the edge. This holds on all four "
    "edges of all six panels, for contravariant and covariant components, for every grid size, and a value carried to the "
    "neighbour and back is the value it started from.",
    ["inputs", "configurations"],
    "all component values, all edge points (coordinate and length symbolic), 6 panels x 4 edges, both variances, all tiles",
    "tests exercise smooth fields with tolerances or only one variance; a wrong conversion on one edge of one panel stays unnoticed",
    ["wx_factory/process_topology.py"],
    [("convert_contras/convert_covs", "wx_factory/process_topology.py"), ("start_exchange_vectors", "wx_factory/process_topology.py")],
    "conversion functions under contract against the Jacobians of the gnomonic panels, exact rational arithmetic",
)
prop(
    "C04",
    "Gathering a panel or the cube and distributing it again loses nothing",
    "Gathering the tiles of a panel, or of all six panels, on one process puts every tile's block at that tile's place in the "
    "panel and every panel at its index, and no other value appears. Distributing gives each process exactly the block at its "
    "own place, so gathering and then distributing returns every process's data unchanged, for any tile count, field shape and "
    "number of leading dimensions.",
    ["inputs", "configurations"],
    "all tile counts (symbolic), tile sizes, field contents, with 1..3 leading/trailing dimensions",
    "tests use one or two tile counts and shapes; row/column transposition is invisible on symmetric layouts",
    ["wx_factory/process_topology.py"],
    [("gather_tiles_to_panel/gather_cube", "wx_factory/process_topology.py"), ("distribute_cube", "wx_factory/process_topology.py")],
    "symbolic shapes; gather/scatter replaced by their MPI contracts; bounded runs with real numpy on threads",
)
prop(
    "C05",
    "Work done on one process gives every process the same value or the same failure",
    "When a piece of work is run on a single chosen process, it runs exactly once, on that process, and afterwards every process "
    "sees the value it produced. If it raises anything at all, every process fails and none is left waiting, and each process "
    "takes part in exactly one collective operation whatever the outcome.",
    ["inputs", "configurations", "fault_sequences", "schedules"],
    "all ranks, sizes and chosen processes (symbolic), all outcomes of the work, value or exception",
    "a failure on one process only shows as a deadlock of the others, which tests cannot enumerate",
    ["wx_factory/wx_mpi.py", "wx_factory/output/solver_stats.py"],
    [("SolverStatsOutput", "wx_factory/output/solver_stats.py"), ("SingleProcess", "wx_factory/wx_mpi.py"), ("Conditional", "wx_factory/wx_mpi.py"), ("do_once", "wx_factory/wx_mpi.py"), ("MultipleProcesses", "wx_factory/wx_mpi.py")],
    "rank, size, chosen process symbolic; outcomes by class; bcast/allreduce by contract; bounded runs on threads",
)
prop(
    "C06",
    "24-bit angles round-trip within half a step, modulo whole turns",
    "Encoding an angle and decoding it gives back the same angle up to whole turns and within half a step of the 24-bit code. "
    "Every code stays within 24 bits, every code decodes to an angle in [-pi, pi), and encoding a decoded code gives that code "
    "back.",
    ["inputs"],
    "all real angles and all 2^24 codes (symbolic)",
    "tests try a few angles; wrap-around and rounding at the ends of the range need particular values",
    ["wx_factory/common/angle24.py"],
    [("angle24", "wx_factory/common/angle24.py")],
    "real arithmetic for the encode/decode algebra, bounded double-precision runs for rounding",
)
prop(
    "C07",
    "A configuration is rejected or every applicable option holds a valid value",
    "Reading a configuration either fails with an error or yields, for every option that applies, the value written in the file "
    "(or the default when it is missing), converted to the declared type and inside the declared range or list of choices. "
    "Missing mandatory options, malformed text and out-of-range values are rejected, options whose dependency is not met are not "
    "set, and arithmetic expressions evaluate to their usual value and nothing but arithmetic is evaluated.",
    ["inputs", "configurations"],
    "all values and bounds (symbolic), all presence/absence combinations, all expression trees by induction; random whole files",
    "tests read a few configuration files; range ends, missing sections, list values and nested dependencies multiply",
    ["wx_factory/common/configuration_schema.py", "wx_factory/common/configuration.py", "wx_factory/common/eval_expr.py"],
    [("ConfigFieldRange.make_validate", "wx_factory/common/configuration_schema.py"), ("ConfigurationField.read", "wx_factory/common/configuration_schema.py"), ("Configuration", "wx_factory/common/configuration.py"), ("eval_expr", "wx_factory/common/eval_expr.py")],
    "range and field contracts on symbolic values (mathematical and IEEE double); whole-file behaviour bounded",
)
prop(
    "C08",
    "Saved states restart the run they came from, and output is written when asked",
    "A saved state file read back gives the saved state bit for bit together with its configuration, and a file cut short at any "
    "byte gives the whole state or an error, never a partial state. A run restarted at step n begins on every process with the "
    "state saved at step n and with time n*dt, whatever the allowed number of processes; without a saved state every process "
    "starts from the initial state at step 0. Results, states and statistics are written exactly at the steps that are multiples of "
    "their frequency.",
    ["inputs", "configurations", "crash_points", "histories"],
    "all steps and frequencies (symbolic), all saved states, every truncation point, restarts on 6 and 24 processes",
    "tests restart one configuration at one step; truncated files, uneven frequencies and other process counts are not sampled",
    ["wx_factory/output/output_manager.py", "wx_factory/output/state.py", "wx_factory/simulation/simulation.py"],
    [("OutputManager.step", "wx_factory/output/output_manager.py"), ("save_state/load_state", "wx_factory/output/state.py"), ("Simulation._determine_starting_state", "wx_factory/simulation/simulation.py")],
    "frequency decisions and shapes symbolic; files and restarts of the real simulation bounded",
)
prop(
    "C09",
    "A run advances exactly to its end time and stops cleanly on failure",
    "Each step of a run takes one integrator step from the current state, then one output with the new state and step number; the "
    "time advances by the step that was used, never passes the end time, and the last step is shortened to land on it. After the "
    "end nothing changes. A NaN on any process stops every process before anything is written, an integrator failure ends the run, "
    "and the run is finalised exactly once.",
    ["inputs", "configurations", "fault_sequences"],
    "all times, steps and step counts (symbolic reals and IEEE doubles), NaN at any entry on any process",
    "tests run a few whole multiples of dt; uneven end times, failures and NaN on one process are not exercised",
    ["wx_factory/simulation/simulation.py", "wx_factory/integrators/integrator.py"],
    [("Simulation.step", "wx_factory/simulation/simulation.py"), ("Simulation.run", "wx_factory/simulation/simulation.py"), ("Integrator.step", "wx_factory/integrators/integrator.py")],
    "step() under contract with symbolic time; run loop bounded; NaN detection bounded on threads",
)
prop(
    "C10",
    "Every time integrator advances the state by the scheme its name promises",
    "One step of each integrator (euler1, tvdrk3, backward_euler, crank_nicolson, bdf2, imex2, ros2, rosexp2, partrosexp2, strang, "
    "epi, epi_stiff, srerk, Runge-Kutta tableaux) gives the new state of the scheme of that name and order for any right-hand side, "
    "state and step, whatever steps came before, leaves the state it was given unchanged, keeps steady states, and stays accurate "
    "after a change of step. The integrator, exponential solver, tolerance and Jacobian method named in the configuration are the ones used.",
    ["inputs", "configurations", "histories"],
    "all right-hand sides (uninterpreted functions), all states and steps (symbolic reals); every tableau; convergence orders bounded",
    "tests only look for NaN after a few steps; a wrong coefficient keeps a run stable and merely lowers the order of accuracy",
    ["wx_factory/integrators", "wx_factory/simulation/simulation.py"],
    [("Integrator subclasses __step__", "wx_factory/integrators"), ("alpha_coeff, Epi, EpiStiff", "wx_factory/integrators/epi.py"), ("butcher tableaux", "wx_factory/integrators/butcher.py"), ("Simulation._create_time_integrator", "wx_factory/simulation/simulation.py")],
    "step formulas proved with uninterpreted right-hand sides and solvers by contract; tableau order conditions evaluated; orders on a test system bounded",
)
prop(
    "C11",
    "Linear and nonlinear solvers return a solution with the residual they report",
    "fgmres and gcrot report convergence only when the residual of the returned solution, measured over all processes, is below the "
    "tolerance; the residual norm and history fgmres reports are those of b - A x, it never makes the residual larger, and inputs "
    "are left unchanged. newton_krylov returns a point whose residual meets its tolerance or says that it gave up. "
    "Jacobian-vector products are dt times the derivative of the right-hand side (and v minus half of it for the Rosenbrock "
    "operator), and global norms and dot products are those of the whole distributed vector.",
    ["inputs", "configurations", "histories"],
    "all operators (uninterpreted), right-hand sides, guesses and tolerances; all affine/quadratic functions; systems on 1-6 processes bounded",
    "tests solve a few well-behaved systems; stagnation, exact guesses, NaN, recycled spaces and uneven processes are not sampled",
    ["wx_factory/solvers/fgmres.py", "wx_factory/solvers/gcrot.py", "wx_factory/solvers/nonlin.py", "wx_factory/solvers/global_operations.py", "wx_factory/solvers/matvec.py"],
    [("fgmres", "wx_factory/solvers/fgmres.py"), ("newton_krylov", "wx_factory/solvers/nonlin.py"), ("matvec_fun, matvec_rat", "wx_factory/solvers/matvec.py"), ("global_norm/dotprod/inf_norm", "wx_factory/solvers/global_operations.py")],
    "one outer iteration from an arbitrary guess is the induction step; the orthogonalisation is havoc in the proof and bounded separately; gcrot bounded",
)
prop(
    "C12",
    "Exponential solvers return the phi-function combination they are asked for",
    "Every exponential solver, for any operator A, vectors u_0..u_p and increasing positive output times, returns at each time t the "
    "sum of t^j phi_j(t A) u_j to its tolerance, however many substeps, restarts, breakdowns of the Krylov space or processes are "
    "involved, and leaves its inputs unchanged. The adaptive Runge-Kutta integrator behind exode takes exactly the steps of its "
    "tableau, accepts a step only below its tolerance and never passes the end.",
    ["inputs", "configurations"],
    "Runge-Kutta stepping and exode: all operators, tableaux, times and tolerances (symbolic); Krylov solvers: bounded problems on 1-4 processes",
    "tests use one solver on smooth problems where one substep suffices; substeps, output times and breakdowns are not reached",
    ["wx_factory/solvers", "wx_factory/integrators/explicit_runge_kutta.py"],
    [("kiops, pmex and variants", "wx_factory/solvers"), ("exode", "wx_factory/solvers/exode.py"), ("RungeKutta._step_impl", "wx_factory/integrators/explicit_runge_kutta.py")],
    "exode and its Runge-Kutta integrator proved; Krylov solvers compared with dense phi functions (bounded, labelled)",
)
prop(
    "C13",
    "Right-hand sides are the flux-form equations, with one flux per element face",
    "For any state, metric, topography and discretisation matrices, the right-hand sides of the shallow-water equations, of the "
    "Euler equations on the sphere and of the Euler equations on the plane equal the divergence of the physical fluxes with one "
    "common numerical flux (AUSM or Rusanov) per element face, plus Coriolis, metric, gravity and topography terms. "
    "Nothing but pressure crosses the ground, the top or a wall, so mass and heat are conserved over the whole domain, and a "
    "uniform or balanced flow stays as it is. The state passed in and results of earlier calls are left unchanged, and the values "
    "sent to the neighbouring tiles are those on the tile's edges.",
    ["inputs", "configurations"],
    "all field values, metric terms, Christoffel symbols, topography and operator matrices (symbolic); element counts and orders unrolled",
    "tests only look for NaN after a few steps; a wrong flux component, metric index or face keeps a run stable and merely wrong",
    ["wx_factory/rhs/rhs_sw.py", "wx_factory/rhs/rhs_dfr.py", "wx_factory/rhs/rhs.py", "wx_factory/pde"],
    [("RhsShallowWater", "wx_factory/rhs/rhs_sw.py"), ("RHSDirecFluxReconstruction_mpi", "wx_factory/rhs/rhs_dfr.py"), ("PDEEulerCubesphere", "wx_factory/pde/pde_euler_cubesphere.py"), ("rusanov_3d_*_new", "wx_factory/pde/fluxes.py"), ("C++ kernels", "wx_factory/pde/interface.cpp")],
    "field values, metric and operators symbolic (C++ kernels compiled unchanged with a recording number type); real runs on 6 and 24 processes bounded",
)
prop(
    "C14",
    "Complex-step Jacobian products are the derivative of the right-hand side",
    "For any state and direction, evaluating a right-hand side on a state with a small imaginary part gives the right-hand side in "
    "the real part and its directional derivative in the imaginary part, through every flux function, forcing, exchange and kernel. "
    "The Jacobian-vector products built on it are dt times that derivative, the difference versions approximate it to first order "
    "in their step, and neither changes the state or later real evaluations.",
    ["inputs", "configurations"],
    "all states and directions away from the kinks of the flux functions (symbolic dual numbers); all quadratic maps for the products",
    "no test compares a product with a derivative; an operation that is not analytic only degrades the order of exponential and Rosenbrock methods",
    ["wx_factory/solvers/matvec.py", "wx_factory/pde", "wx_factory/rhs"],
    [("matvec_fun, matvec_rat", "wx_factory/solvers/matvec.py"), ("rusanov_3d_*_new", "wx_factory/pde/fluxes.py"), ("RhsShallowWater", "wx_factory/rhs/rhs_sw.py"), ("riemann_flux.hpp", "wx_factory/pde/kernels/riemann_flux.hpp")],
    "the real right-hand sides run on symbolic dual numbers and are compared with the differentiated equations; real complex runs against differences bounded",
)
prop(
    "C15",
    "Grid, metric terms and wind conversions are those of the rotated cubed sphere",
    "For any grid rotation, tile, radius, rotation speed, model top and terrain, every solution and interface point of the "
    "shallow-water and Euler grids lies where the equiangular cubed sphere turned by (lambda0, phi0, alpha0) puts it, at the height "
    "of the terrain-following levels, and its stored Cartesian, gnomonic and longitude-latitude coordinates agree. "
    "Metric tensors, area and volume elements, Coriolis parameter and Christoffel symbols (of the grid and of the planet's rotation) "
    "are those of that map in the reference element, on both sides of a face. Converting contravariant components to zonal, "
    "meridional and vertical winds gives the components of the same vector, and converting back gives the original; on the plane, "
    "points fill the configured rectangle in order.",
    ["inputs", "configurations"],
    "all rotations, gnomonic coordinates, radii, heights, slopes and wind components (symbolic) on every panel; element counts and orders unrolled",
    "tests use one rotation and flat terrain and look only at coarse error norms; a wrong metric term degrades accuracy without failing",
    ["wx_factory/geometry/cubed_sphere_2d.py", "wx_factory/geometry/cubed_sphere_3d.py", "wx_factory/geometry/metric2d.py", "wx_factory/geometry/metric3d.py", "wx_factory/geometry/sphere.py", "wx_factory/geometry/cartesian_2d_mesh.py"],
    [("CubedSphere2D", "wx_factory/geometry/cubed_sphere_2d.py"), ("CubedSphere3D", "wx_factory/geometry/cubed_sphere_3d.py"), ("Metric2D", "wx_factory/geometry/metric2d.py"), ("Metric3DTopo.build_metric", "wx_factory/geometry/metric3d.py")],
    "real constructors run on symbolic coordinates and are compared with the map and its derivatives; real grids on 6 and 24 processes bounded",
)
prop(
    "C16",
    "Changing the layout of a field keeps every value at its own point",
    "For any number of elements, levels, solution points and variables, converting a field between the block layout and the "
    "element layout, or an interface field between its layouts, moves every value to the place of its own grid point: nothing is "
    "lost, mixed or transposed, converting back gives the original field, and the parts of an interface field beyond the halo are "
    "zero. Leading axes (variables) are kept, also when a tile has a single element or a single point.",
    ["inputs", "configurations"],
    "all element, level and point counts and any leading axis (symbolic sizes and indices); real grids up to 4 elements for replay",
    "tests use a square few-element grid, where transposed axes have equal lengths and a dropped axis of length 1 never occurs",
    ["wx_factory/geometry/cubed_sphere_2d.py", "wx_factory/geometry/cubed_sphere_3d.py", "wx_factory/geometry/cartesian_2d_mesh.py"],
    [("CubedSphere2D._to_new, to_single_block", "wx_factory/geometry/cubed_sphere_2d.py"), ("CubedSphere3D._to_new, to_single_block, to_itf", "wx_factory/geometry/cubed_sphere_3d.py"), ("Cartesian2D._to_new", "wx_factory/geometry/cartesian_2d_mesh.py")],
    "sizes, indices and values symbolic and unbounded (index arithmetic decided by z3); real grids bounded",
)
prop(
    "C17",
    "Element operators are exact on polynomials and act along their own direction",
    "The derivative, extrapolation, correction, filter and quadrature operators of an element are exact for every polynomial their "
    "order of accuracy promises, at the Gauss-Legendre points and along the direction and at the point they are meant for, in the line "
    "form and in the combined three-dimensional form alike. Extrapolated values are those of the polynomial at the faces; the "
    "exponential filters (of fields and of derivatives) scale every mode by its own factor and keep the element total, and the sponge "
    "only relaxes vertical momentum in its layer.",
    ["inputs", "configurations"],
    "all symmetric point sets and field values (symbolic rational functions); orders 1-5 (2D) and 1-4 (3D) unrolled",
    "tests compare a few operators with stored values of one order; a wrong entry in another order or direction only lowers accuracy",
    ["wx_factory/geometry/operators.py", "wx_factory/geometry/quadrature.py"],
    [("DFROperators", "wx_factory/geometry/operators.py"), ("gauss_legendre", "wx_factory/geometry/quadrature.py")],
    "point positions and field values symbolic, one proof per order; real operators and real sponge layers bounded",
)
prop(
    "C18",
    "Output describes the model state and leaves it unchanged",
    "Whatever the grid, number of processes, topography and test case, the result files hold at every grid point of every panel the "
    "fields of the model state at the recorded time (heights with topography, zonal and meridional winds, vorticity, pressure, "
    "temperature), with their own coordinates. Printed and stored statistics (error norms, mass, energy, enstrophy, extrema) are those "
    "of the state over the whole sphere, and the solver counters and timings stored for a step are that step's own. Writing output never changes the state that the run continues with.",
    ["inputs", "configurations"],
    "all states, metric terms, topographies and counters for what is handed to the file or database (symbolic); real files on 6, 24, 54 processes",
    "tests only check that a file appears; a field of another tile, a missing metric term or a changed state is not noticed",
    ["wx_factory/output", "wx_factory/geometry/cubed_sphere_2d.py"],
    [("OutputManager", "wx_factory/output/output_manager.py"), ("SolverStatsOutput", "wx_factory/output/solver_stats.py"), ("OutputCubesphereNetcdf", "wx_factory/output/output_cubesphere_netcdf.py"), ("relative_vorticity, total_energy, ...", "wx_factory/output/diagnostic.py")],
    "diagnostics and stored fields proved on symbolic states; files, printed tables and pictures of real runs bounded",
)
prop(
    "C19",
    "Every test case starts from its published state",
    "For any grid, rotation, radius and planet rotation speed, the initial state of every supported test case is the published one "
    "at every point: depth, density, potential temperature and winds (converted to the grid's components), topography on points and "
    "interfaces with its slopes, and heights, metric and winds consistent with that topography. This covers the shallow-water cases "
    "1, 2, 5, 6 (and the depths and winds of 0, 8, 9, 10), the Euler cases 20, 21, 22, 31, 77 and the bubbles on the plane. The damping layer of the mountain-wave "
    "cases draws the flow to that state above 20 km and does nothing below.",
    ["inputs", "configurations"],
    "all coordinates, heights, radii and rotation speeds (symbolic) for the closed-form cases; cases 0, 8, 9 and 10 at sampled points only",
    "tests start a few cases and look at coarse results; a wrong constant or branch changes the solution but not whether it runs",
    ["wx_factory/init"],
    [("initialize_sw, initialize_euler, initialize_cartesian2d", "wx_factory/init/initialize.py"), ("shallow-water cases", "wx_factory/init/shallow_water_test.py"), ("DCMIP cases", "wx_factory/init/dcmip.py"), ("Matsuno waves", "wx_factory/init/matsuno.py")],
    "the real functions run on symbolic coordinates against the published formulas; real grids with three rotations bounded",
)
prop(
    "C20",
    "Distributed operators of the stiff test problems",
    "Shared among any square number of processes, the difference operators of the stiff test problems (Laplacian and advection, linear "
    "and of u squared, with Dirichlet, Neumann and periodic boundaries) give at every point what they give on the whole domain, for "
    "every field, without deadlock whether sends wait or not. The right-hand sides (Allen-Cahn, advection-diffusion-reaction, porous "
    "medium, Burgers) are those of the equations, and every Jacobian product is dt times the derivative of its right-hand side in the given direction. "
    "The gathered solution is in the order of the whole domain.",
    ["inputs", "configurations", "schedules"],
    "operators: all field values, spacings, coefficients, numbers of points and processes, given the line exchange; exchange and Jacobian products: all values, up to 16 processes and 4x4 points each",
    "no test runs these operators; a wrong neighbour, boundary row or sign only shows on some process counts",
    ["wx_factory/stiff_pdes"],
    [("operators and exchange", "wx_factory/stiff_pdes/JTV.py"), ("InitWorld", "wx_factory/stiff_pdes/initWorld.py"), ("right-hand sides and Jacobian products", "wx_factory/stiff_pdes/rhs_jac_pdefuncs.py"), ("print_sol", "wx_factory/stiff_pdes/print_stuff.py")],
    "one symbolic point of a symbolic process against the contract of the exchange; whole distributed runs on symbolic fields; real arrays on 1-25 processes bounded",
)
