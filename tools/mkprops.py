"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

M = "rainbow/math/"; G = "rainbow/geometry/"; S = "rainbow/simulators/"
R = S + "prox_rigid_bodies/"; C = R + "constraints/"; SB = S + "prox_soft_bodies/"; PC = S + "proximal_contact/"

prop("C01", "Quaternion algebra represents rotations exactly",
 "The quaternion product is associative and bilinear, has a unit, multiplies norms, and conjugation reverses products and inverts unit quaternions. "
 "Rotating a vector by a unit quaternion equals multiplying it with the rotation matrix of that quaternion, preserves lengths, angles and handedness, and rotating by a product equals rotating in sequence. "
 "The array forms give, element for element, exactly what the scalar forms give.",
 ["inputs"], "every quaternion / unit quaternion and every vector; arrays of any length",
 "The tests compare a handful of fixed quaternions against stored numbers; the algebraic laws quantify over all of them.",
 [M+"quaternion.py"], [("quaternion product, conjugate, rotate, matrix conversion and their array forms", M+"quaternion.py")],
 ["return values of prod, conjugate, rotate, to_matrix, prod_array, rotate_array"])

prop("C02", "Rotation builders and converters agree and round-trip",
 "Quaternions, matrices and Euler angles made from the same axis and angle describe the same proper rotation, which fixes its axis and turns right-handedly. "
 "Converting a rotation from one representation (matrix, quaternion, angle and axis, Euler angles) to another and back yields the same rotation, for every rotation including half turns and gimbal lock. "
 "Interpolating two unit quaternions yields a unit quaternion that describes the first rotation at 0 and the second at 1 and turns at constant rate along the shorter arc.",
 ["inputs"], "every axis, every angle, every proper rotation, every interpolation parameter in [0,1]",
 "Tests sample a few angles away from branch boundaries; the converters branch on trace, gimbal lock and near-parallel inputs.",
 [M+"quaternion.py", M+"matrix3.py", M+"euler.py", M+"angle.py"],
 [("axis-angle and coordinate-axis rotation builders", M+"quaternion.py, "+M+"matrix3.py"),
  ("branching matrix-to-quaternion conversion", M+"quaternion.py"),
  ("Euler angle extraction with gimbal-lock branch", M+"euler.py, "+M+"matrix3.py")],
 ["returned rotation compared through its matrix"])

prop("C03", "Coordinate frames compose and invert consistently",
 "The inverse of a rigid frame undoes the mapping of every point and vector, and concatenating two frames maps every point exactly as applying the two frames in turn. "
 "The frame computed between two frames maps coordinates of the first to coordinates of the second. "
 "Frame rotation stays a unit quaternion.",
 ["inputs"], "every pair/triple of frames, every point, arrays of any length",
 "Tests check single hand-computed frames.",
 [M+"coordsys.py"], [("frame inverse, concatenation, relative frame and transforms", M+"coordsys.py")],
 ["points and vectors mapped by the frames"])

prop("C04", "Vector and matrix primitives obey their geometric laws",
 "For every non-zero direction the generated tangent/normal triple is right-handed and orthonormal with its last member along the input, normalising gives the unit vector of the same direction, and the cross product, skew matrix, outer product and diagonal helpers agree with their definitions. "
 "The lexicographic less/greater tests on vectors form a strict total order. "
 "Orthonormalising a matrix yields a proper rotation that keeps the direction of its first row.",
 ["inputs"], "every vector and matrix, including ties between components and negative components",
 "Tests try a few vectors; the selection of the smallest/largest component has ties and sign cases tests do not enumerate.",
 [M+"vector3.py", M+"matrix3.py", M+"functions.py"],
 [("choice of the helper axis and two cross products", M+"vector3.py make_orthonormal_vectors"),
  ("componentwise comparison", M+"vector3.py less/greater"), ("Gram-Schmidt", M+"matrix3.py ortonormalize")],
 ["returned vectors and matrices"])

prop("C05", "Exponential map and its derivatives are consistent",
 "The exponential map sends every rotation vector to the unit quaternion of the rotation about that vector by its length, and the logarithm is its inverse up to full turns, including at the identity and at half turns. "
 "Re-parameterising a rotation vector keeps the rotation it describes and bounds its length. "
 "The reported derivatives of the quaternion, of the rotation matrix and of a rotated vector are the true partial derivatives.",
 ["inputs"], "every rotation vector, including zero and lengths beyond a half turn",
 "Tests compare derivatives with finite differences at a few vectors and miss the removable singularity at zero.",
 [M+"expmap.py"], [("series switch near zero, derivative formulas, reparametrisation", M+"expmap.py")],
 ["returned quaternion/vectors/derivatives"])

prop("C06", "Regular grids index, locate and interpolate correctly",
 "Every node index triple maps to its own storage slot, node positions are the regular subdivision of the box with both corners included, and the cell reported for a point is a valid cell that contains the point (clamped to the nearest cell outside the box). "
 "The interpolated value equals the stored value at every node, reproduces every trilinear field exactly everywhere in the box and is continuous across cells; the interpolated gradient is exact for linear fields. "
 "The inside test accepts exactly the points of the box shrunk by the requested boundary, and sampling a function on the grid stores its value at each node's slot. The curvature field of a grid has the central-difference curvature of the stored values, limited by the spacing, at every interior node's slot and zero at the others.",
 ["inputs"], "every grid size, box, node, point (inside, outside, on cell faces) and field",
 "Tests use one small axis-aligned grid whose box starts at special values; scale and offset errors cancel there.",
 [G+"grid3.py", G+"mean_curvature.py"], [("linear index, clamped cell lookup, trilinear weights", G+"grid3.py")],
 ["get_value, get_gradient, is_inside, node coordinates, stored value arrays"])

prop("C07", "Barycentric coordinates and tetrahedron measures are exact",
 "Barycentric coordinates of a point with respect to an edge, triangle or tetrahedron sum to one, reproduce the point (or its orthogonal projection) from the corner positions, and inside tests accept exactly the non-negative ones; the reported gradients are the true derivatives of those coordinates. "
 "Signed tetrahedron volume equals one sixth of the triple product, and circumscribed and inscribed spheres touch all corners and all faces respectively. "
 "Sample points generated inside a tetrahedron have non-negative weights that sum to one, and the strictly interior ones have strictly positive weights.",
 ["inputs"], "every non-degenerate simplex and every point",
 "Tests use unit simplices with axis-aligned corners, where many mixed-up indices or signs agree.",
 [G+"barycentric.py", G+"tetrahedron.py"], [("barycentric ratios of signed volumes/areas", G+"barycentric.py"), ("sphere and sampling formulas", G+"tetrahedron.py")],
 ["returned coordinates, volumes, centres, radii, sample points"])

prop("C08", "Bounding volumes and hierarchies never miss an overlap",
 "A bounding volume made from vertices contains all of them enlarged by the requested envelope, the union of two volumes contains both, and the overlap test is symmetric and true whenever the interiors share a point. "
 "A bounding hierarchy stores every element in exactly one leaf for any number of elements and chunk size, and after any refit every node contains the vertices of all elements below it. "
 "Traversing two hierarchies reports every pair of elements whose volumes overlap, each pair exactly once.",
 ["inputs","histories"], "every vertex set, element list, chunk capacity, number of volume axes, and sequence of vertex updates with refits",
 "Boxes have a few tests; hierarchies have none. A missed pair shows only for particular counts and placements.",
 [G+"aabb.py", G+"kdop.py", G+"kdop_bvh.py"], [("min/max over projections", G+"kdop.py, "+G+"aabb.py"), ("recursive median split, chunking, bottom-up refit, tandem traversal", G+"kdop_bvh.py")],
 ["volumes stored in nodes, leaf ranges, traversal results"])

prop("C09", "Spatial hashing reports all and only current cell neighbours",
 "Inserting an element's bounding box at a time step reports every element that was inserted earlier in the same time step into a cell that the box touches. "
 "Elements inserted in earlier time steps are never reported. "
 "No two elements with overlapping boxes in the same time step go unreported, whatever the cell size, positions and hash collisions.",
 ["inputs","histories"], "every insertion history over several time steps, cell sizes, positive and negative coordinates",
 "Tests insert a few objects in a single fresh table; staleness needs a multi-step history.",
 [G+"spatial_hashing.py"], [("timestamped lazy clearing of hash buckets", G+"spatial_hashing.py")],
 ["returned overlap lists"], [("bucket time stamp and list", "elements of the current step", G+"spatial_hashing.py")])

prop("C10", "Surface meshes are closed, outward and rigidly transformable",
 "Every generated solid surface (box, cuboid, sphere, capsule, cone, conical, cylinder, ellipsoid, torus, convex hull, profile sweep of a closed profile) has valid vertex indices, is closed with each edge shared by exactly two oppositely directed triangles, has outward triangles and encloses the volume of the described shape (of the inscribed polyhedron, with vertices on the shape, for curved shapes). "
 "Translating, rotating and scaling a mesh moves each vertex by exactly that map and keeps the triangles. "
 "Sorting a mesh along an axis only renumbers its vertices and triangles, and fitting it to a unit box scales it uniformly about its centre.",
 ["inputs"], "every dimension, number of slices/segments and transformation",
 "Tests compare vertex counts of default shapes; orientation and seams for other slice counts are not seen.",
 [G+"surface_mesh.py"], [("profile sweep connectivity and vertex formulas", G+"surface_mesh.py")],
 ["returned vertex and triangle arrays"])

prop("C11", "Tetrahedral meshes are conforming, positively oriented and volume-preserving",
 "The box/beam generator fills exactly the requested box with positively oriented tetrahedra that meet face to face without gaps or overlaps. "
 "Neighbour tables are symmetric, the extracted surface consists of exactly the faces owned by one tetrahedron, oriented outward, and the vertex circulator lists exactly the tetrahedra of a vertex. "
 "Reported volumes equal the geometric definition, and subdividing or converting a mesh keeps orientation, total volume and conformity.",
 ["inputs"], "every grid resolution, box size, and tetrahedral mesh",
 "There is no volume mesh test in the suite.",
 [G+"volume_mesh.py"], [("five-tetrahedra split with alternating parity, face matching", G+"volume_mesh.py")],
 ["vertex, tetrahedron, neighbour and surface arrays"])

prop("C12", "Mass properties are exact and change frames correctly",
 "Mass, centre of mass and inertia computed from a closed triangle mesh equal the volume integrals of the enclosed solid with uniform density, and meshes without volume are rejected. "
 "Moving, rotating and diagonalising mass properties keep the mass and describe the same physical inertia (parallel-axis and rotation laws), with principal frame and moments consistent. "
 "Combining or shifting frames never produces a different inertia than integrating in the target frame.",
 ["inputs"], "every closed mesh, density, translation and rotation",
 "Tests compare a few axis-aligned shapes, whose products of inertia vanish.",
 [R+"mass.py"], [("face/projection integrals and frame changes", R+"mass.py")],
 ["returned mass, centre, inertia, rotation"])

prop("C13", "Rigid model construction is consistent and rejects bad input atomically",
 "Each create call adds one uniquely named entry and rejects duplicate or unknown names and illegal values with an error and no change to the model. "
 "Setting position, orientation, velocity, shape, material and mass stores exactly what was asked in the frame that was asked (world or model frame), keeps unit orientations, and keeps body frame = model frame composed with the stored offset. "
 "Surface interaction properties are found whichever order the two materials are named, with the defaults for unlisted pairs.",
 ["inputs","histories"], "every sequence of model-building calls and every argument value",
 "Rigid simulator has no test of this interface at all.",
 [R+"api.py", R+"types.py"], [("registry checks before mutation, frame arithmetic in setters", R+"api.py")],
 ["engine dictionaries, getters"], [("body-to-model offset", "body frame relative to model frame", R+"types.py RigidBody")])

prop("C14", "Hinge constraints express and stabilise a revolute joint",
 "Placing a hinge makes its two sockets coincide at the given world point and axis at creation time. "
 "The constraint Jacobian times the body velocities equals the relative anchor velocity and the two off-axis relative angular velocities, and it is zero exactly for rigid motion or rotation about the axis. "
 "The stabilisation term always drives anchor separation and axis misalignment toward zero.",
 ["inputs"], "every pose, velocity, socket frame and stabilisation rate",
 "No test exercises hinges; sign errors show only as slow drift.",
 [C+"hinges.py", R+"api.py", R+"types.py"], [("joint frame update, Jacobian assembly, error vector", C+"hinges.py")],
 ["Jacobian and error arrays"])

prop("C15", "Contact constraints measure relative motion and conserve momentum",
 "The contact Jacobian applied to body velocities gives the relative contact-point velocity of the second body seen from the first, along normal, two tangents and spin, in a right-handed frame, and contact impulses act on the two bodies equally and oppositely, so total linear and angular momentum are unchanged. "
 "Bounce, friction and stabilisation terms of each contact use that contact's material pair and gap only, never attract, and vanish where they are not needed. "
 "Every contact fills its own rows, independent of the order and number of contacts.",
 ["inputs"], "every set of contacts, poses, velocities, materials and any number of contacts and bodies",
 "No stepper test exists; the tests only cover the friction projection.",
 [C+"contacts.py", C+"problem.py", C+"post_stabilization.py"], [("block-sparse Jacobian assembly", C+"contacts.py"), ("restitution/pre/post-stabilisation vectors", C+"contacts.py, "+C+"post_stabilization.py")],
 ["Jacobian, right-hand-side, friction vectors"])

prop("C16", "Contact impulses are projected exactly onto the friction cone",
 "The friction projection returns the closest point of the friction disc whose radius is the friction coefficient times the normal impulse, leaves points inside unchanged and returns zero for non-positive normal impulse; the normal projection returns the non-negative part. "
 "After any solver sweep every contact has a non-negative normal impulse and a friction impulse inside its disc (the plain Jacobi sweep, by its definition, takes the disc of the previous normal impulse). "
 "A sweep changes only the impulses and updates the velocity change by exactly the effect of the impulse changes.",
 ["inputs","histories"], "every impulse, friction coefficient, step factor, number of contacts and previous iterate",
 "Tests check few hand-picked vectors of the projection; sweeps are not tested.",
 [R+"prox_operators.py", R+"gauss_seidel_solver.py", PC+"proximal_operators.py", PC+"gauss_seidel_solver.py", PC+"jacobi_solver.py", C+"contacts.py"],
 [("projection and Gauss-Seidel sweep", R+"prox_operators.py, "+C+"contacts.py"), ("general proximal sweeps", PC)],
 ["impulse and velocity arrays after a sweep"])

prop("C17", "Contact solvers return their best iterate and respect their limits",
 "The solvers return the last accepted iterate, never one with a worse merit than an accepted one before it, and roll back impulses and velocity change together when an iterate is rejected. "
 "Step factors stay positive and are only reduced on rejection and raised on slow progress, and iterations never exceed the configured maximum. "
 "The result stops at the first iterate that meets an absolute or relative tolerance, and recorded statistics match what happened.",
 ["inputs","histories"], "every sequence of merit values (accept/reject histories), parameter setting and iteration count",
 "Accept/reject histories are not controllable from the tests; only convergence of nice cases would be.",
 [R+"gauss_seidel_solver.py", PC+"solver_interface.py", PC+"gauss_seidel_solver.py", PC+"jacobi_solver.py"],
 [("adaptive step-factor loop with roll-back", R+"gauss_seidel_solver.py, "+PC+"solver_interface.py")],
 ["returned impulses, statistics dictionary"])

prop("C18", "Rigid state gathering, forces and integration are faithful",
 "Reading the engine into state vectors and writing it back changes nothing but what the integrator changed, and fixed bodies never change position, orientation or velocity during a step. "
 "The inverse-mass operator is symmetric and block-diagonal with zero blocks for fixed bodies, orientations stay unit after every update, position advances by time step times velocity and orientation by the quaternion derivative. "
 "External forces are exactly the sum of the body's force fields plus the gyroscopic torque, and reported energies are the physical kinetic and gravitational energies.",
 ["inputs","histories"], "every set of bodies (fixed and free in any order), poses, velocities, inertia, force fields and time step",
 "No test reaches the state code.",
 [R+"state_storage.py", R+"types.py", R+"steppers.py"], [("gather/scatter by body index", R+"state_storage.py"), ("force, inertia and position updates", R+"state_storage.py")],
 ["state vectors, body state after a step, energies"])

prop("C19", "Simulated time is covered exactly by bounded steps",
 "Running a simulation for a duration executes time steps that are each positive, no longer than the configured step, and add up to exactly the requested duration. "
 "Non-positive durations, and rigid engines without a stepper, are rejected before anything changes; a soft engine without a stepper gets its own. "
 "This holds for both the rigid and the soft body engine.",
 ["inputs","configurations"], "every duration and configured time step",
 "No test runs a simulation.",
 [R+"api.py", SB+"api.py"], [("remaining-time loop", R+"api.py simulate, "+SB+"api.py simulate")],
 ["time steps passed to the stepper"])

prop("C20", "Inverse kinematics derivatives and kinematics are exact",
 "Forward kinematics gives every bone the composition of its parent's world frame with its own offset and joint rotation, for every tree of bones. "
 "Collected chains run from the end effector to the root, setting joint angles and reading them back is the identity, and updating a skeleton changes no other state. "
 "The Jacobian, gradient and Hessian reported are the true derivatives of the end-effector positions and of the objective with respect to the joint angles.",
 ["inputs"], "every skeleton, joint angles, chains and goals",
 "Tests use one small arm and compare with stored numbers.",
 [S+"inverse_kinematics/api.py", S+"inverse_kinematics/types.py"], [("recursive pose update and cross-product Jacobian", S+"inverse_kinematics/api.py")],
 ["bone world poses, Jacobian/gradient/Hessian arrays"])

prop("C21", "Soft body elasticity derives from its energy and conserves momentum",
 "For each constitutive model the stress is the derivative of the stored energy with respect to the deformation gradient, is zero for rigid rotations and rotates with the body. "
 "The deformation gradient reproduces any affine motion exactly. "
 "Elastic forces assembled from the elements sum to zero, exert no net torque and are minus the gradient of the total elastic energy.",
 ["inputs"], "every deformation gradient (non-inverted where the model needs it), mesh and material",
 "The soft-body test file has no collected test.",
 [SB+"mechanics.py", SB+"solver.py"], [("energy density and first Piola-Kirchhoff stress", SB+"mechanics.py"), ("face area vectors and nodal force accumulation", SB+"solver.py")],
 ["stress, energy, force arrays"])

prop("C22", "Soft body mass, damping and loads add up physically",
 "Element mass matrices are symmetric with total equal to density times volume, damping matrices follow the configured damping, and gravity adds exactly mass times gravity in total. "
 "A surface traction adds in total exactly the load times the loaded area. "
 "Assembled operators equal the sum of the element contributions and agree with the matrix-free products.",
 ["inputs"], "every mesh, density, damping coefficient, traction and gravity",
 "The soft-body test file has no collected test.",
 [SB+"solver.py"], [("element array computation and assembly", SB+"solver.py")],
 ["mass/damping arrays, force arrays"])

prop("C23", "Soft body state and constraints survive stepping",
 "Gathering body data into global vectors and scattering it back is the identity with bodies kept apart in their own ranges. "
 "Prescribed boundary displacements hold after every step and fixed nodes do not move, while point and contact Jacobians map nodal velocities to the interpolated point velocity with weights summing to one. "
 "Model-building calls store what was asked and reject duplicate or unknown names without change.",
 ["inputs","histories"], "every body set, boundary condition, mesh and sequence of model-building calls",
 "The soft-body test file has no collected test.",
 [SB+"api.py", SB+"solver.py", SB+"types.py"], [("offset bookkeeping, boundary condition projection", SB+"solver.py"), ("registries", SB+"api.py")],
 ["global vectors, body arrays, engine dictionaries"])

prop("C24", "Generated contacts are well-formed and duplicates are merged safely",
 "Every contact point produced lies on a triangle of its second body and within the contact envelope of the distance field of its first body: its gap is the value of that field there, its normal is the unit vector along the field's gradient (away from the first body), and the two bodies are different (except in a soft body's self-collision). "
 "The weights of a soft contact sum to one and give the point in a tetrahedron of each of the two bodies. "
 "Wherever the search for the deepest point of an overlapping triangle ends within the envelope, a contact is produced; detection works on the current positions of the bodies, tests every pair of bodies and both directions of each pair, and skips only triangles that cannot touch. "
 "Merging duplicates removes a contact only when another with the same bodies and position is kept, so no contact location disappears, and no duplicate is kept.",
 ["inputs"], "every geometry pair, pose, envelope and set of contacts",
 "No test reaches collision detection.",
 [R+"collision_detection.py", SB+"collision_detection.py"], [("contact optimisation and generation", R+"collision_detection.py, "+SB+"collision_detection.py"), ("contact reduction", R+"collision_detection.py, "+SB+"collision_detection.py")],
 ["engine contact lists"])

prop("C25", "Contact colouring never groups conflicting contacts",
 "Grouping contacts into blocks places every contact in exactly one block. "
 "Two contacts that share a movable body are never in the same block. "
 "The number of blocks never exceeds what a greedy colouring needs.",
 ["inputs"], "every set of contacts over any bodies",
 "No test covers the parallel solver.",
 [PC+"blocking.py"], [("graph construction and colouring", PC+"blocking.py")],
 ["returned blocks"])

prop("C26", "Polynomial evaluation, derivatives and fitting agree",
 "Evaluating a multivariate polynomial equals the sum of its coefficients times monomials in the documented order. "
 "Derivatives of any order and direction are the exact partial derivatives of the evaluated polynomial. "
 "Interpolation through points recovers the polynomial at those points, and the monomial list contains every power up to the degree exactly once. The text form denotes the same polynomial.",
 ["inputs"], "every order, coefficient set and point",
 "Tests compare fixed low orders with sympy at a few points.",
 [M+"polynomial.py"], [("monomial enumeration and derivative factors", M+"polynomial.py")],
 ["returned values and tables"])

prop("C27", "Priority queue and timers keep their promises",
 "The priority queue always yields the live entry with the smallest current value, each entry at most once, after any mix of pushes and value updates. "
 "A stopped timer reports the sum of all its start-stop intervals and never loses a measurement. "
 "Vectors and quaternions written as text in the accepted formats, including angles in degrees, are parsed to the rotation or number written.",
 ["inputs","histories"], "every sequence of operations and every accepted text",
 "There are no tests of these utilities for long histories.",
 ["rainbow/util/heap.py", "rainbow/util/timer.py", "rainbow/util/parse_string.py", M+"vector3.py", M+"quaternion.py"],
 [("lazy deletion heap", "rainbow/util/heap.py"), ("string grammar", "rainbow/util/parse_string.py")],
 ["popped entries, total times, parsed values"])

prop("C28", "Mathematical functions never modify their arguments",
 "No function of the vector, matrix, quaternion, frame, exponential-map, polynomial, barycentric, tetrahedron or grid libraries changes the arrays, frames or grids given to it (only eval_on_grid sets the values of its grid). "
 "Returned arrays share no storage with the arguments or with the results of other calls, so changing one later does not change the other (except that the frame constructor keeps the arrays it is given and the re-parameterisation of a short rotation vector may return that vector itself).",
 ["inputs","histories"], "every library function and every argument",
 "Tests look at return values; they never compare arguments before and after or mutate results.",
 [M, G+"barycentric.py", G+"tetrahedron.py", G+"grid3.py"], [("construction of fresh arrays", M)],
 ["arguments after the call"])

prop("C30", "An imported robot stands as its URDF file describes it",
 "After reading a URDF robot, the body of every link with geometry stands in the world at the product of the joint frames from the root link (whose reference frame is the world) down to the link, followed by the inertial frame of the link, with roll, pitch and yaw turning about fixed axes in that order. "
 "Its collision geometry, scaled as the file says, lies where its collision frame puts it in the link, and its mass and moments of inertia are those of the file. "
 "Every revolute joint becomes one hinge between parent and child whose point is the origin of the joint frame and whose axis is the axis written in the joint frame; links without mesh geometry and unsupported joints are left out.",
 ["inputs"], "every robot with one root whose revolute joints connect links with mesh geometry, every frame, scale and axis, any order of the entries",
 "There is no test of the importer; wrong frames only show on robots with several rotated links.",
 [R+"scenes/read_urdf.py"], [("conversion of frames and numbers", R+"scenes/read_urdf.py URDF"), ("traversal of the mechanism from the root", R+"scenes/read_urdf.py read_urdf")],
 ["poses and meshes of the bodies, anchors and axes of the hinges"])

prop("C29", "Scene recordings reproduce the recorded motion",
 "After any sequence of recordings, in any order of times, a scene recording holds for every body and every recorded time exactly the position and orientation recorded last for that time (the body turned first, then moved), and for every mesh the recorded vertex positions; recording one time or object leaves all others as they were. "
 "The vertices and triangles of every object are those it was added with, the saved file covers the whole duration set, and a second body of the same name, unknown names and poses of plain meshes are rejected.",
 ["inputs","histories"], "every mesh, every history of recorded poses and deformations, every order of times",
 "The unit tests record one deformation of one mesh; no test records a pose or opens a saved file.",
 ["rainbow/util/USD.py"], [("recording of time samples per object", "rainbow/util/USD.py")],
 ["the saved file, opened by the USD library"])

prop("C31", "Scene builders place every stone, ring, link and gear where the scene needs it",
 "Every scene builder returns the names of exactly the bodies it made, and each body has a shape, a pose, the requested material and the mass of the requested density, and is free unless it is ground, container, obstacle, first cube of a chain or pinned corner. "
 "Builders given a placement (ground, arch, pillar, dome, tower, pantheon, colosseum, lattice) make, with the same other arguments, the scene they make at the origin, carried rigidly by that placement. "
 "The stones of box stacks, tower columns, arch piers and pillars rest on each other and fill the height asked for; neighbouring stones of arches and domes share a face, and tower bricks lie between the two radii, within their sector, staggered by half a brick. "
 "Lattice bodies sit at the cell centres with the orientation given; cubes of the hinge chain hang on one hinge per pair along z half way between them; chain mail rings sit on the nodes of a square net, linking rings on its edges, and exactly the four corners are pinned if asked. "
 "Gears are closed outward meshes with teeth as wide as the gaps; neighbours touch on their pitch circles with teeth meeting gaps, and every gear turns about its own axis.",
 ["inputs"], "every real size, density and placement, small numbers of stones, layers, segments, rows, columns and cells",
 "There are no tests of the scene builders; a stone at the wrong place only shows in a rendered scene that is not at the origin.",
 [R+"scenes/create_*.py"], [("placement of the bodies", R+"scenes/create_*.py"), ("gear geometry and assembly", R+"scenes/create_gear_train.py GearFactory")],
 ["poses, shapes, types, materials and masses of the bodies", "hinges", "names returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
