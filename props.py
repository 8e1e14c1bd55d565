"""What each property's check runs: harness, the sources it encodes, entries, and bounds."""
TREE_SRCS = ["Tree"]
SOLVER = "Accessible_mesh Basis Boundary_condition Boundary_func Deformed_element Domain_func Element Element_func Equidistant Hanging_vertex_matcher Iteration_status Layer_sequence Linear_equation Linearized Lock Output_data Physical_basis Qpoint_func Simplex_geom Solver Solver_snap_faces Spacetime_func Stopwatch Stopwatch_tree Storage_params Surface_func Surface_geom Tree Vertex Vis_data connection criteria filter_limit global_hacks iterative kernels_convective kernels_diffusive kernels_max_dt math stabilizing_art_visc thermo gen:basis/Gauss_legendre.cpp gen:basis/Gauss_lobatto.cpp gen:config.cpp".split()
KERN = "Basis Deformed_element Element Hanging_vertex_matcher Lock Stopwatch Stopwatch_tree Storage_params Vertex connection kernels_convective math gen:basis/Gauss_legendre.cpp gen:basis/Gauss_lobatto.cpp gen:config.cpp".split()
PROPS = {
"C01": dict(harness="tree.cpp", srcs=["Tree", "math", "Element", "Deformed_element", "Vertex", "Storage_params", "Hanging_vertex_matcher"],
    entries=["structure1", "structure2", "structure2h", "structure3h", "real1", "real2", "real3", "find_int1", "find_int2", "find_int3", "find_int_sub", "find_pos1", "find_pos2", "find_pos3"],
    thorough=dict(defs=["DEEP=1"]), bounds="trees: all shapes to depth 3 (1D) and 2 (2D), all histories of 3 refine/unrefine (2D), 2 (3D); query level <= 4, coordinates one cell beyond the root on each side; origin and size arbitrary reals in [-4,4], [0.01,10]; query point arbitrary real in [-6,6]^n"),
"C02": dict(harness="tree.cpp", srcs=["Tree", "math", "Element", "Deformed_element", "Vertex", "Storage_params", "Hanging_vertex_matcher"],
    entries=["neighb1", "neighb2", "neighb2h", "neighb3"], thorough=dict(defs=["DEEP=1"]), bounds="all tree shapes to depth 4 (1D) and 2 (2D), all histories of 3 refinements (2D; 4 thorough), 2 (3D; 3 thorough); every leaf and every direction in {-1,0,1}^n"),
"C03": dict(harness="tree.cpp", srcs=["Tree", "math", "Element", "Deformed_element", "Vertex", "Storage_params", "Hanging_vertex_matcher"],
    entries=["flood1", "flood2", "flood3", "flood_jump1", "flood_jump2", "flood_bad"], thorough=dict(defs=["DEEP=1"]), bounds="1D: all shapes to depth 2 (3 thorough), first 4 leaves' marks free; 2D: root refined plus one child refined, all marks of 7 leaves; 3D: one level, all marks of 8 leaves; chains of nested refinements to level 4 (1D) and 3 (2D, first 2 leaves' marks free); every starting cell; wall and fill status arbitrary integers in [-4,9]"),
"C06": dict(harness="math.cpp", srcs=["math"], entries=["hypercube", "dimension", "outer", "ints", "logs", "realpow", "dirs", "interp"], bounds="n_dim 1-3 with rows/columns 1-3 as listed in the harness; matrix and vector entries arbitrary reals in [-2,2]; integer pow |base|<=9, exp<=9; log base -2..10, arg -5..3000; real pow |exp|<=5"),
"C07": dict(harness="math.cpp", srcs=["math"], entries=["project2", "project3", "ball", "isect", "ortho1", "ortho2", "ortho3", "bisect", "bisect_bad", "broyd", "erase"], bounds="segment displacements and spanning directions from concrete lists (4 each), everything else arbitrary reals in the stated boxes; bisection on linear functions on [0,1], tolerance 0.1; Broyden on linear functions; erase_if on 5 entries"),
"C04": dict(harness="links.cpp", srcs=["math", "Lock", "Vertex"], entries=["mutual"], bounds="two pointers of each type, all sequences of 3 operations (thorough: 4) out of 8", thorough=dict(defs=["STEPS=4"])),
"C05": dict(harness="links.cpp", srcs=["math", "Lock", "Vertex"], entries=["vertex2", "vertex3", "vertex_groups"], bounds="two and three vertices (or two with up to three owners each, and one operation), arbitrary real positions/values in [-5,5], all edge sets and mobilities, all sequences of 2 operations"),
"C12": dict(harness="connect.cpp", srcs=["math", "Lock", "Vertex", "Element", "Deformed_element", "Storage_params", "Hanging_vertex_matcher", "connection", "Basis"], entries=["dir2", "dir3", "cart_dir", "perm2", "perm3", "perm3b", "join2", "join3", "join_cart", "bound_cart", "bound_def"], bounds="all (dimension, sign) pairs for n=2,3 (Cartesian 1-3); row sizes 2 and 3 for the face reordering; vertex positions and face data arbitrary reals"),
"C13": dict(harness="connect.cpp", srcs=["math", "Lock", "Vertex", "Element", "Deformed_element", "Storage_params", "Hanging_vertex_matcher", "connection", "Basis"], entries=["hang2", "hang3", "hang_cart", "hang_bad"], bounds="all orientations, orders and stretch patterns for n=2,3; vertex values arbitrary reals in [-3,3]; fine-element counts 1-5"),
"X00": dict(harness="solver.cpp", srcs=SOLVER, entries=["smoke"], bounds="x", basis=True, row_max=3, constants=True),
"C14": dict(harness="mortar.cpp", srcs=KERN, entries=["prolong1","prolong2","prolong3","restrict1","restrict2","restrict3"], bounds="n=1-3, row sizes 2 and 3, every stretch pattern, scaling and storage offset; face data arbitrary reals in [-1,1]; Gauss-Legendre basis", basis=True, row_max=3, constants=True),
"C15": dict(harness="conv.cpp", srcs=KERN, entries=["local_car1","local_car2","local_car3","local_def1","local_def2","local_def3","local_car2r3","local_def2r3"], bounds="one element, n=1-3, row size 2 (3 in 1D, and in 2D for the plain update), Euler equations; state near (rho=1, E=2.5), face fluxes, time step, metric terms and determinants arbitrary reals in boxes; both stages, residual-only mode, filter", basis=True, row_max=3, constants=True),
"C16": dict(harness="conv.cpp", srcs=KERN, entries=["neighbor_car","neighbor_def1","neighbor_def2","neighbor_def3"], bounds="one connection, every orientation, n=1-3, row size 2 (3 in 1D/2D), one arbitrary face point per path with arbitrary states on both sides near (rho=1, E=2.5) and an arbitrary normal, other points concrete", basis=True, row_max=3, constants=True),
"C08": dict(harness="diff.cpp", srcs=KERN + ["kernels_diffusive"], entries=["smooth_car1","smooth_car2","smooth_def2","fix_car1","fix_car2","fix_car3","fix_def1","fix_def2","viscous_car1","viscous_car2","viscous_car3","viscous_def2","advect_car1","advect_car2","advect_def2","interface_car","interface_def2","interface_def3","upwind_car","upwind_def2","transport"], bounds="one element or one connection, one step; n=1-2 (3 for the thermodynamic fix and the viscous equations on Cartesian elements), row size 2 (3 in 1D); fields arbitrary reals in [-1,1] (Navier-Stokes: momentum, energy and artificial viscosities at any one point, densities concrete, constant viscosity and conductivity arbitrary); shared face values, face fluxes, flux corrections, size and time step arbitrary; metric terms arbitrary at any one point; every orientation in 2D and 3D (2D for advection)", basis=True, row_max=3, constants=True),
"C17": dict(harness="mortar.cpp", srcs=KERN, entries=["hanging_car1","hanging_car2","hanging_car3","hanging_def2","hanging_def3"], bounds="one coarse element and all its finer neighbours across one face, one Euler step; n=1-3, row size 2 (3 for Cartesian 1D/2D); every orientation in 2D, six of 24 in 3D, both orders, every stretch pattern; outer face fluxes arbitrary, the state arbitrary at one quadrature point of the coarse element and of one fine element", basis=True, row_max=3, constants=True),
"C18": dict(harness="bc.cpp", srcs=["Boundary_condition", "math", "Lock", "Vertex", "Element", "Deformed_element", "Storage_params", "Hanging_vertex_matcher", "connection", "Basis", "Surface_geom", "Surface_func", "Output_data"], entries=["wall_slip","wall_noslip","prescribed","pressure_out","riemann","riemann_admissible","advection","diffusion","nominal"], bounds="one boundary face, n=1-3, every face, row sizes 1-2 (advection: up to 8); inside states, fluxes, normals and prescribed values arbitrary reals in boxes (characteristic conditions: four reference states, concrete normals; admissibility: freestream mass in [0.01,9] or energy in [0.01,30])"),
"C10": dict(harness="geom.cpp", srcs=KERN, entries=["geom1","geom2","geom2r3","free1","free2","cartesian"], bounds="1D row size 3, 2D row sizes 2 and 3 (free stream: 2): arbitrary displacement (+-0.01 of the size) of any one vertex, or adjustments of any one face, about a sheared element; one concrete uniform state; Cartesian elements 1-3D with arbitrary size and origin, levels 0-3", basis=True, row_max=3, constants=True),
"C19": dict(harness="maxdt.cpp", srcs=KERN + ["kernels_max_dt"], entries=["dt_euler1","dt_euler2","dt_advect","dt_smooth","dt_fix","dt_viscous"], bounds="one Cartesian and one deformed element; at any one quadrature point arbitrary mass [0.5,2], energy [2,9], one momentum component [-1,1], artificial viscosities [-0.2,0.2], viscosity, conductivity and safety factors; vertex spacings [0.5,2] (all symbolic for local steps and for the inviscid equation, one symbolic for global steps of the others); local and global; 1-2D (smoothing equation 3D), row sizes 2-3", basis=True, row_max=3, constants=True),
"C20": dict(harness="hil.cpp", srcs=["Interpreter","math","Lock","gen:config.cpp"], entries=["binary","pairs_a","pairs_b","pairs_c","unary","assignment","strings","strings_ops","literals","macros","errors","arbitrary1","arbitrary2","sub","extremes"], bounds="integer operands in [-9,9] for single operators (powers [-3,4]), [-3,3] for pairs, [-2,3] for unary forms; floats in [-4,4]; strings to 3 arbitrary bytes; programs of 1-2 arbitrary bytes (3 thorough); loops to 4 iterations; quotients and remainders of the extreme integers; sums, products and powers that overflow an int excluded"),
"C21": dict(harness="small.cpp", srcs=["math","Lock"], entries=["name_space","heisenberg"], bounds="four name spaces, every inheritance pattern (0-2 parents, 0-1 grandparent) and type assignment; integers from ranges of 2 values, floats arbitrary in [-9,9]; 0-3 readings of a computed variable"),
"C22": dict(harness="small.cpp", srcs=["History_monitor","math","Lock"], entries=["monitor_small","monitor_sparse","monitor_coarse"], bounds="five samples with arbitrary real values in [-5,5] at dense, sparse and irregular iterations; windows 0.25-0.8; capacities 1-4"),
"C23": dict(harness="small.cpp", srcs=["Layer_sequence","math","Lock"], entries=["layers"], bounds="wall spacing arbitrary real in six intervals (one per number of growth layers), 0-4 wall layers that fit"),
"C24": dict(harness="small.cpp", srcs=["filter_limit","thermo","criteria","math","Lock","Vertex","Element","Deformed_element","Storage_params","Hanging_vertex_matcher","Basis","gen:basis/Gauss_legendre.cpp","gen:basis/Gauss_lobatto.cpp"], entries=["limit1","limit_s1","limit_s2","limit_s3","admissible","criterion"], bounds="limiter: 1D, row size 2, both values arbitrary reals in [-2,2], decay rates 0.25 and 0.5; three concrete fields of arbitrary amplitude [0.5,2] for 1-2D row sizes 2-3 and 3D row size 2; admissibility: 1-3D, 1-2 points, arbitrary reals in [-1,2]; criteria: 1-3D, levels 0-3, arbitrary positions in [-2,2], size, uncertainty and threshold", basis=True, row_max=3),
"C25": dict(harness="surf.cpp", srcs=["Surface_geom","Simplex_geom","Tree","math","Lock","Vertex","Element","Deformed_element","Storage_params","Hanging_vertex_matcher"], entries=["near_a","near_b","near_c","inter2","near3","near3m","inter3","sphere","sphere_line","compound","nearest"], bounds="2D: three polylines of 1-2 segments at two scales, query points with one coordinate an arbitrary real in [-1.5,1.5] times the scale, or on a grid with arbitrary limit or guess; lines in five directions through arbitrary points; 3D: three triangles, points and lines with one arbitrary coordinate, arbitrary limit; spheres 1-3D with arbitrary radius or distance; compounds of up to 3 spheres with arbitrary limit; up to 3 candidates at arbitrary positions; lines closer than 1e-3 to an end point or tangency excluded; roundoff excluded"),
"C26": dict(harness="basis.cpp", srcs=["Basis","Equidistant","Physical_basis","math","Lock","gen:basis/Gauss_legendre.cpp","gen:basis/Gauss_lobatto.cpp"], entries=["basis_legendre","basis_lobatto","basis_equidistant","physical"], bounds="row sizes 2-6 (thorough: 8); polynomial coefficients and data arbitrary reals in [-1,1], sample points in [-0.5,1.5]; physical-space projection: row sizes 2-3 (2 in 3D), straight and warped concrete point sets", basis=True, row_max=6, irflags=["-DEIGEN_NO_CPUID"], thorough=dict(defs=["ROWS=8"], row_max=8)),
"C30": dict(harness="mesh.cpp", srcs=[x for x in SOLVER if not x.startswith(("kernels_", "Solver", "Iteration", "stabil", "Vis_", "Qpoint"))], entries=["mesh1","mesh2","mesh3","body2","body3"], bounds="1D, 2D: uniform level 1, then any subset refined, then one (2D) or two (1D) updates with a request for any element in four modes; 3D: 8 elements, two refined, then one update (quick: first, middle or last element); origin and size arbitrary reals; bodies: three radii, level 3 (2D) or 2 (3D), one update of any element, optional relaxation", basis=True, row_max=3, constants=True),
}
