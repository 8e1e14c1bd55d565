"""Texts of the properties (source of properties.jsonl and MANIFEST.json, written by tools/mk.py)."""
def P(id, title, statement, over, qtext, why, files, mech, note=""):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note)
T = []
def add(*a, **k): T.append(P(*a, **k))

add("C01", "The refinement tree partitions the domain and finds the leaf at a point",
    "After any history of refining and unrefining cells, each parent cell is tiled exactly by its 2^n children in row-major order, parent/child/root/leaf relations and cell counts are consistent, and every cell's level, size, lower corner and centre follow from the root's origin and size. Looking up the leaf at integer or physical coordinates returns a leaf whose closed extent contains the point (for integer look-up with a bias, the unique leaf on the biased side), and nothing exactly when the point is outside.",
    ["inputs", "histories"], "every tree shape and refinement history within the depth bounds, every integer query level/coordinate/bias, every real origin, size and query point",
    "the unit tests build one or two fixed trees and query a handful of points; off-by-one errors on particular levels, biases or cell boundaries of other shapes are not sampled",
    ["src/Tree.cpp", "include/Tree.hpp"], [("Tree::refine/unrefine/children", "src/Tree.cpp"), ("Tree::find_leaf", "src/Tree.cpp"), ("Tree::nominal_position/center/count", "src/Tree.cpp")])
add("C02", "Neighbour look-up in the tree returns exactly the adjacent leaves",
    "For every leaf and every face direction, and for every diagonal direction, asking for all neighbours returns every leaf that touches that face, edge or corner from outside, each once and in depth-first order, and nothing at the domain boundary. Asking for one neighbour returns a member of that list (the first one across a face), and adjacency across faces is symmetric whatever the level difference.",
    ["inputs", "histories"], "every tree shape and refinement history within the depth bounds, every leaf, every direction in {-1,0,1}^n",
    "tests look at a few leaves of one tree; wrong neighbours appear only for particular combinations of level difference, child index and direction",
    ["src/Tree.cpp"], [("Tree::find_neighbor", "src/Tree.cpp"), ("Tree::find_neighbors", "src/Tree.cpp"), ("Tree::add_extremal_leves", "src/Tree.cpp")])
add("C03", "Flood fill marks exactly the connected unmarked region",
    "Flood filling from any cell of the tree gives the requested status to exactly the unprocessed leaves that are face-connected, through unprocessed leaves, to the first leaf of the starting cell, and leaves every other cell's status alone. Filling with the 'unprocessed' status is rejected, and clearing resets the status of every cell.",
    ["inputs", "histories"], "trees within the depth bounds, every pattern of pre-marked leaves, every starting cell (leaf or not)",
    "the tests fill one or two wall patterns from the root; leaks or unreached pockets depend on the pattern of marked cells and on level jumps",
    ["src/Tree.cpp"], [("Tree::flood_fill", "src/Tree.cpp"), ("Tree::get_status/set_status/clear_status", "src/Tree.cpp")])
add("C04", "Paired pointers stay mutually consistent through any history of operations",
    "Two-way pointers are always paired symmetrically: after any sequence of pairing, unpairing, destruction, move construction and move assignment, each pointer is either unpaired, or its partner's partner is itself and it sees the datum its partner carries. Reading the value of an unpaired pointer and constructing one with null data are rejected.",
    ["histories"], "all sequences of three operations (four in the thorough tier) on two pointers of each type, including re-pairing of already paired pointers",
    "use-after-free and dangling partners need a particular order of moves, re-pairings and destructions that unit tests do not enumerate",
    ["include/Mutual_ptr.hpp"], [("Mutual_ptr::pair/unpair", "include/Mutual_ptr.hpp"), ("Mutual_ptr move operations", "include/Mutual_ptr.hpp")])
add("C05", "Merging mesh vertices conserves ownership, position, values and edges",
    "When vertices are merged, released or reassigned in any order, the surviving vertex sits at the owner-weighted average position, its number of owners is exact, it is mobile only if all owners are and needs smoothing if any owner does, its shared value is the requested reduction (maximum by default, or minimum) over the current owners, and its edges are the union of the merged vertices' edges without self-loops. Pointers that do not own a vertex become null exactly when the vertex they refer to disappears.",
    ["inputs", "histories"], "two or three vertices with arbitrary real positions and values, arbitrary edges and mobility, all sequences of two operations (merge, release, reassign, freeze)",
    "tests merge two or three fixed vertices once; mass and edge bookkeeping errors appear only after particular multi-step histories",
    ["src/Vertex.cpp", "include/Vertex.hpp"], [("Vertex::eat", "src/Vertex.cpp"), ("Transferable_ptr", "src/Vertex.cpp"), ("Non_transferable_ptr", "src/Vertex.cpp"), ("Vertex::shared_value", "src/Vertex.cpp")])
add("C06", "Tensor-product operators and elementary numeric helpers equal their definitions",
    "Applying a matrix along all dimensions or one dimension of a hypercube array, the outer power of a vector, and multilinear interpolation give exactly the tensor-product sums that define them. The integer power, ceiling logarithm, sign, axis-direction and sub-face numbering helpers equal their closed forms for every argument, including the documented fall-backs for bad arguments.",
    ["inputs"], "arbitrary real matrices, vectors and coordinates for the listed shapes (1-3 dimensions, up to 3 rows), every integer argument in range",
    "these operators underlie every interpolation and flux reconstruction; tests check a few constant matrices, so index mistakes in unsampled shapes or dimensions go unnoticed",
    ["include/math.hpp", "src/math.cpp"], [("math::hypercube_matvec", "src/math.cpp"), ("math::dimension_matvec", "src/math.cpp"), ("math::pow/log/sign", "include/math.hpp"), ("math::interp", "include/math.hpp"), ("math::stretched_ind", "src/math.cpp")])
add("C07", "Geometric helpers and root finders satisfy their variational definitions",
    "Projection onto a segment returns the nearest point of the segment, the bounding ball of a simplex is the smallest one about its centroid, the ball-line test is true exactly when the line comes within the radius, and orthonormalisation returns a unitary matrix whose chosen column is orthogonal to, and stays on its side of, the span of the others, which are treated symmetrically. Bisection converges to a bracketed root and rejects an unbracketed one, Broyden's method solves linear equations, and conditional erasure keeps exactly the remaining entries in order.",
    ["inputs"], "arbitrary real targets, centres, radii and vectors; segments and spanning directions from a list of concrete ones; every erasure pattern of five entries; every bracketed linear root",
    "the helpers are used inside geometry snapping where only special configurations (end points, parallel lines, sign flips) expose an error",
    ["include/math.hpp", "include/erase_if.hpp"], [("math::proj_to_segment", "include/math.hpp"), ("math::orthonormal", "include/math.hpp"), ("math::bounding_ball/intersects", "include/math.hpp"), ("math::bisection/broyden", "include/math.hpp")])
add("C12", "Connected faces identify the same physical points in every relative orientation",
    "For two elements joined across any pair of faces in any admissible relative orientation, the vertex correspondence, the face-vertex permutation, the reordering of face quadrature points (and its inverse), and the normal-flip convention all describe the one rotation that maps one face onto the other. Creating a connection merges exactly the coincident vertices, hands each element non-overlapping face storage, and destroying it releases the faces; boundary connections do the same for one face.",
    ["inputs", "configurations"], "every pair of dimensions and signs in 2 and 3 dimensions (Cartesian: 1-3), arbitrary vertex positions and face data, row sizes 2 and 3",
    "there are dozens of orientations and a mistake in one of them only corrupts meshes that contain it; the tests exercise a few",
    ["include/connection.hpp", "src/connection.cpp", "include/Face_permutation.hpp", "include/Spatial.hpp"], [("vertex_inds / face_vertex_inds", "src/connection.cpp"), ("Con_dir", "include/connection.hpp"), ("Element_face_connection", "include/connection.hpp"), ("Typed_bound_connection", "include/connection.hpp"), ("Spatial::Face_permutation", "include/Spatial.hpp")])
add("C13", "Hanging-node connections pair each sub-face with the fine element that covers it",
    "When one element is joined to several finer ones, in any orientation, order and combination of unrefined directions, each corner of the coarse face is merged with the coincident corner of the right fine element and each sub-face's storage belongs to the connection with the fine element covering it. Vertex values at hanging vertices become the multilinear interpolant of the values at the coarse corners while vertices off the face keep theirs, and a wrong number of fine elements is rejected.",
    ["inputs", "configurations"], "every orientation in 2 and 3 dimensions, both orders, all stretch patterns, arbitrary real vertex values",
    "the permutation of sub-faces is a product of orientation, order and stretch; tests cover a handful of the combinations",
    ["include/connection.hpp", "src/Hanging_vertex_matcher.cpp", "include/Refined_face.hpp"], [("Refined_connection", "include/connection.hpp"), ("Hanging_vertex_matcher::match", "src/Hanging_vertex_matcher.cpp"), ("math::stretched_ind", "src/math.cpp")])
add("C14", "Data transfer across hanging faces is exact downward and conservative upward",
    "Prolonging a coarse face to its finer sub-faces gives each of them exactly the coarse polynomial restricted to the part of the face it covers, and restricting fine data gives the coarse polynomial with the same moments against every polynomial of the space, so that the integral is preserved and restriction undoes prolongation. This holds for every combination of unrefined directions (with the area scaling when requested) and for both the state and the derivative storage, and nothing else is changed.",
    ["inputs", "configurations"], "every stretch pattern, scaling and storage offset in 1-3 dimensions, arbitrary real face data, row sizes 2 and 3",
    "the tests use one smooth function in one configuration; a mistake in one stride or one half shows only in other configurations, and a loss of conservation is invisible pointwise",
    ["include/Spatial.hpp", "src/kernels_convective.cpp", "script/Basis.py"], [("Spatial::Prolong_refined", "include/Spatial.hpp"), ("Spatial::Restrict_refined", "include/Spatial.hpp"), ("compute_prolong/compute_restrict", "src/kernels_convective.cpp")])
add("C15", "One stage of an element's update is the discontinuous Galerkin weak form",
    "Given any admissible interior state, face fluxes, metric terms and local time step, one stage of the Euler update changes the state by exactly the time step over the Jacobian times the weak-form DG derivative of the physical flux through the reference normals plus the face terms. The second stage applies the scaled difference from the stored first-stage residual, residual mode leaves the state alone, the optional filter is applied to the rate, faces end up holding the extrapolated new state, and no other storage changes.",
    ["inputs", "configurations"], "every admissible state, flux, metric term, determinant, time step in the boxes; Cartesian and deformed elements in 1-3 dimensions",
    "tests compare a few smooth fields against tolerance-limited derivatives; wrong indices, missing metric factors or stage bookkeeping can cancel for those fields",
    ["include/Spatial.hpp", "include/pde.hpp", "include/Derivative.hpp", "include/Row_rw.hpp"], [("Spatial::Local", "include/Spatial.hpp"), ("pde::Navier_stokes", "include/pde.hpp"), ("Derivative", "include/Derivative.hpp"), ("compute_euler", "src/kernels_convective.cpp")])
add("C16", "Interface fluxes are conservative, consistent and upwinded by the fastest wave",
    "At every point of a connection, in every orientation, the flux given to one element is the opposite of the flux given to the other, and equals the mean of the two physical Euler fluxes through the shared normal plus half the largest wave speed of the two states times their jump. In particular it reduces to the physical flux when both states are equal.",
    ["inputs", "configurations"], "every pair of admissible states and every normal in the boxes, every orientation in 1-3 dimensions, every face point",
    "tests check the sum over a few constant states; orientation-dependent sign or permutation errors and one-sided wave speeds need particular states and orientations",
    ["include/Spatial.hpp", "include/pde.hpp"], [("Spatial::Neighbor", "include/Spatial.hpp"), ("pde::Navier_stokes flux and characteristic speed", "include/pde.hpp")])
add("C17", "A time step conserves mass, momentum and energy across hanging connections",
    "When a coarse element and its finer neighbours across a face take one Euler step, the total mass, momentum and energy they gain (over physical volume) is exactly what their outer face fluxes bring in, for every orientation, order and combination of unrefined directions.",
    ["inputs", "configurations"], "arbitrary outer fluxes and one arbitrary state per side, every orientation in 2D and six in 3D, both orders, every stretch pattern",
    "conservation over a hanging interface is the product of face ordering, scaling and projection; tests run one configuration to a tolerance that hides small leaks",
    ["include/Spatial.hpp", "include/connection.hpp", "src/kernels_convective.cpp"], [("compute_euler", "src/kernels_convective.cpp"), ("Refined_connection", "include/connection.hpp"), ("Restrict_refined/Prolong_refined", "include/Spatial.hpp")])
add("C08", "Diffusion and advection steps are the DG discretization of their equations",
    "One step of the Navier-Stokes, artificial-viscosity smoothing, thermodynamic-fix and smoothness-advection equations changes each element by exactly the time step times the discontinuous Galerkin discretization: gradients from the shared interface states, the Newtonian, heat-conducting and artificial (or plain) diffusive flux through the reference normals, lifted flux corrections, sources and implicit damping. Interfaces use the mean state and correct both sides to one mean flux, or an upwinded one for advection, in every orientation, transport coefficients follow their law, and nothing else is changed.",
    ["inputs"], "arbitrary fields, shared face values, fluxes, metric terms, time steps, transport coefficients and artificial viscosities on one element; arbitrary data on both sides of one connection in every relative orientation",
    "tests compare a few smooth solutions to loose tolerances; wrong cross terms, signs in particular orientations or coefficients stay within them",
    ["src/kernels_diffusive.cpp", "src/kernels_convective.cpp", "include/Spatial.hpp", "include/pde.hpp", "include/Transport_model.hpp"], [("Spatial::Local/Reconcile_ldg_flux", "include/Spatial.hpp"), ("Spatial::Neighbor/Neighbor_reconcile", "include/Spatial.hpp"), ("pde::Navier_stokes/Advection/Smooth_art_visc/Fix_therm_admis", "include/pde.hpp"), ("Transport_model", "include/Transport_model.hpp")])
add("C18", "Boundary conditions set the ghost data that the condition requires",
    "At every point of a boundary face, slip walls reflect the normal momentum only, no-slip walls reverse the momentum and impose the requested temperature, heat flux or equilibrium, freestream and pressure-outflow conditions impose exactly the prescribed values, and Riemann invariants take incoming characteristic variables from the freestream and outgoing ones from inside, limited so that the ghost state stays admissible. Fluxes follow suit (reversed or copied as the condition demands), advected scalars and diffusion likewise, the inside state is never modified, and nominal-plane snapping moves exactly the vertices of the face to that plane.",
    ["inputs", "configurations"], "arbitrary inside states, fluxes, normals and prescribed values in boxes, every face in 1-3 dimensions, sub- and supersonic flow both ways",
    "tests use a couple of states on one face; sign conventions of inward and outward faces, rarely used conditions and extreme freestreams are not sampled",
    ["src/Boundary_condition.cpp", "include/Boundary_condition.hpp", "include/characteristics.hpp"], [("Riemann_invariants/Pressure_outflow/Nonpenetration/No_slip/Copy/Outflow", "src/Boundary_condition.cpp"), ("Nominal_pos::snap_vertices", "src/Boundary_condition.cpp")])
add("C10", "Element geometry is the exact trilinear map of its vertices with matching faces",
    "For any vertex positions and face adjustments of a deformed element, quadrature point positions are the multilinear map of the vertices plus the blended face warping, the stored Jacobian and reference normals are the exact derivatives and cofactors of that map, and every face normal is the one seen from the element on both sides of the face. A free stream is therefore preserved exactly: one Euler step of a constant state on a warped element changes nothing.",
    ["inputs"], "arbitrary displacements of one vertex or one face's adjustments at a time, about a skewed concrete element in one and two dimensions, row sizes 2 and 3, a uniform state; Cartesian elements of arbitrary size and origin in 1-3 dimensions",
    "the tests set the metric on a few shapes and compare with tolerances; a missing metric identity or a wrong cofactor is second order in the deformation and easily hidden",
    ["src/Deformed_element.cpp", "src/Element.cpp", "include/Spatial.hpp"], [("Deformed_element::position/set_jacobian", "src/Deformed_element.cpp"), ("Element::position/set_jacobian", "src/Element.cpp"), ("Spatial::Local", "include/Spatial.hpp")])
add("C19", "Time steps never exceed the stability limit at any point and attain it somewhere",
    "The stable time step of the mesh, for each of the five equations solved, is the smallest over all quadrature points of all elements of the documented limit built from the wave speed, the diffusivity, the interpolated mesh spacing and the safety factors: it exceeds the limit nowhere and equals it somewhere. With local time stepping each point gets precisely its own limit, and with a global step the scale of every point is exactly one.",
    ["inputs", "configurations"], "arbitrary admissible state, artificial viscosity and vertex spacings at any one point of a Cartesian or a deformed element, arbitrary safety factors and transport coefficients, local and global stepping, 1-3 dimensions",
    "a time step that is too large at one kind of point shows up as a divergence only in particular flows; tests compare one constant state",
    ["include/Spatial.hpp", "include/pde.hpp", "src/kernels_max_dt.cpp"], [("Spatial::Max_dt", "include/Spatial.hpp"), ("max_dt_*", "src/kernels_max_dt.cpp"), ("pde::*::Computation::char_speed/diffusivity", "include/pde.hpp")])
add("C20", "The interface language evaluates programs as documented and survives any input",
    "Expressions of the Hexed interface language have the documented meaning for every operand value: operator levels, left-to-right order, unary operators, parentheses, integer and float arithmetic, comparison, strings with escapes, indexing and concatenation. Variables keep their type, text substitution gives conditionals and loops, undefined operations raise an error that a handler can catch once and after which the interpreter is usable, and no input text corrupts memory.",
    ["inputs"], "all pairs of operators with all small integer operands, arbitrary float operands, all string literals of up to three arbitrary bytes, all programs of one or two arbitrary bytes (three in the thorough tier)",
    "tests evaluate some fifty fixed programs; wrong precedence, missing operands, division by zero and malformed text are combinations that they do not enumerate",
    ["src/Interpreter.cpp", "include/Interpreter.hpp"], [("Interpreter::_eval/_bin_op/_parse_expr", "src/Interpreter.cpp"), ("Interpreter::exec", "src/Interpreter.cpp"), ("Interpreter::_substitute", "src/Interpreter.cpp")])
add("C21", "Variable name spaces resolve, convert and protect values consistently",
    "Looking a name up finds the variable of the space itself, else of its parents in order (each with its own parents), with its own type or as a float if it is an integer, and existence queries agree with look-up. Assignment goes to the space itself and never to an ancestor, keeps the type of an existing variable (integers convert to floats), a default applies only if nothing is visible, a variable cannot be created twice, and computed variables are evaluated once for each reading and cannot be written.",
    ["inputs", "configurations"], "a graph of four spaces with every inheritance pattern, every combination of types in each, every operation, arbitrary values",
    "name resolution depends on which of several spaces hold which type; tests set up one parent",
    ["include/Namespace.hpp"], [("Namespace::lookup/exists/exists_recursive", "include/Namespace.hpp"), ("Namespace::assign/assign_default/create", "include/Namespace.hpp"), ("Namespace::Heisenberg", "include/Namespace.hpp")])
add("C22", "Convergence monitoring bounds exactly the recorded samples of its window",
    "For any sequence of values at increasing iterations, the reported minimum and maximum are those of the recorded samples that lie within the trailing window of the iteration count, a sample far enough from the previous one is always recorded, no more than the buffer's capacity of samples is used, and the bounds are unlimited before the first sample.",
    ["inputs", "histories"], "sequences of up to five arbitrary real values at dense, sparse and irregular iterations, windows from 0.25 to 0.8, capacities 1 to 4",
    "a stale or dropped extremum only shows for particular orders of values around the buffer's wrap",
    ["src/History_monitor.cpp", "include/History_monitor.hpp"], [("History_monitor::add_sample", "src/History_monitor.cpp")])
add("C23", "Wall layers have the requested thickness, grow geometrically and fill the height",
    "For any wall spacing and number of wall layers that fit, the sequence of anisotropic layers starts with exactly that many layers of exactly that thickness, continues with layers that double, all of positive thickness, cumulative heights are the running sums, and the total height is one.",
    ["inputs"], "arbitrary real wall spacing in each of six ranges of growth layers, zero to four wall layers",
    "tests check one or two sequences to a tolerance; the number of growth layers and the rescaling depend on the spacing",
    ["src/Layer_sequence.cpp", "include/Layer_sequence.hpp"], [("Layer_sequence::Layer_sequence/spacing/cumulative_height", "src/Layer_sequence.cpp")])
add("C24", "The modal limiter, the admissibility test and refinement criteria decide exactly",
    "Limiting a field leaves every Legendre mode whose amplitude is within the limit for its order unchanged and reduces every other to exactly that limit with its sign, a state is reported admissible exactly when density and energy are positive at every point, and refinement criteria see each element's level, size, centre, uncertainty and extruded flag and combine by negation as logic says.",
    ["inputs"], "arbitrary real values at both points of one element; arbitrary states in 1-3 dimensions; arbitrary vertex positions, size, uncertainty and threshold",
    "limiters act only on extreme modes and a wrong sign or order is smoothed out by the solver; tests check one case each",
    ["src/filter_limit.cpp", "src/thermo.cpp", "src/criteria.cpp"], [("filter_limit", "src/filter_limit.cpp"), ("thermo::admissible", "src/thermo.cpp"), ("criteria::criterion/logical_not/if_extruded", "src/criteria.cpp")])
add("C25", "Surface queries return the true nearest point and every line intersection",
    "For any query point the nearest point found on a set of segments or triangles, a sphere or a compound of surfaces is on the surface, is as close as the closest of all its parts, respects the maximum distance (nothing is returned exactly when nothing is that close) and does not depend on the initial guess. Intersecting any line with the surface returns every crossing once and nothing else, and the running search state keeps the nearest candidate seen within its limit.",
    ["inputs", "configurations"], "arbitrary real query points, lines in several directions through arbitrary points, several polygonal shapes and triangles of three sizes, every starting segment, arbitrary sphere radii and centres",
    "the search tree prunes candidates by bounding balls, so an error loses the nearest part only for particular positions and sizes relative to the tree",
    ["src/Simplex_geom.cpp", "include/Simplex_geom.hpp", "src/Surface_geom.cpp", "include/Surface_geom.hpp"], [("Simplex_geom::nearest_point/intersections", "src/Simplex_geom.cpp"), ("Hypersphere/Compound_geom", "src/Surface_geom.cpp"), ("Nearest_point", "include/Surface_geom.hpp")])
add("C26", "Polynomial bases represent, integrate and transfer every polynomial exactly",
    "For every polynomial of degree below the row size, the nodal bases reproduce its values at any point and on the boundary, its derivatives at the nodes, its values on either half after prolongation, and restriction undoes prolongation and preserves moments of any data; quadrature is exact to the full degree of the rule with increasing symmetric nodes and positive weights. Orthogonal modes are the normalized Legendre polynomials, the filter scales mode k by 2^-k, and projection onto polynomials in physical space leaves polynomials of total degree below the row size unchanged and is orthogonal in the given weights.",
    ["inputs", "configurations"], "arbitrary coefficients and data, row sizes 2 to 6 (8 in the thorough tier), Legendre, Lobatto and equidistant bases, arbitrary sample points; straight and warped point sets in 1-3 dimensions",
    "tests use one linear and one quadratic function; the tables are generated and have hundreds of entries each",
    ["src/Basis.cpp", "src/Equidistant.cpp", "src/Physical_basis.cpp", "script/Basis.py", "script/auto_generate.py"], [("Basis::interpolate", "src/Basis.cpp"), ("Equidistant", "src/Equidistant.cpp"), ("Physical_basis::projection/evaluate", "src/Physical_basis.cpp"), ("Basis.derivative/prolong/restrict/filter/legendre", "script/Basis.py"), ("Gauss_legendre/Gauss_lobatto", "script/auto_generate.py")])
add("C30", "Every refinement history leaves a conforming, complete mesh",
    "Whatever elements are asked to refine, unrefine or stay locked, in any sequence of updates, the mesh has exactly one element per leaf of the tree, they tile the domain, face neighbours differ by at most one level, every face has exactly one connection and it joins exactly the elements that share the face, adjacent elements share exactly the vertices that coincide, and outer faces carry their own boundary condition (in 2D, wall vertices away from the outer boundary lie on the body). Requests are honoured: elements refine when asked, unrefine exactly when all siblings ask, none is locked and no finer neighbour forbids it, and an update without requests changes nothing and says so.",
    ["inputs", "histories", "configurations"], "all single or double refinements (3D), all sets of refinements (1D, 2D) of a uniform mesh followed by updates with arbitrary element requests, unrefinement, conflicts and locks; arbitrary origin and size; circles and spheres of several sizes inside the domain with refinement, unrefinement and relaxation",
    "update() rewires the mesh by cases of neighbour levels and sibling states; tests run a handful of histories and count elements",
    ["src/Accessible_mesh.cpp", "include/Mesh_by_type.hpp", "include/Accessible_mesh.hpp"], [("Accessible_mesh::update/needs_refine", "src/Accessible_mesh.cpp"), ("Accessible_mesh::connect_new/refine_by_record/purge", "src/Accessible_mesh.cpp"), ("Accessible_mesh::extrude/deform/snap_vertices", "src/Accessible_mesh.cpp"), ("Mesh_by_type", "include/Mesh_by_type.hpp")])
NOT_APPLICABLE = []
