"""Writes /verif/known_findings.json: repaired defects (status fixed, they suppress nothing) and recorded ones (status known)."""
import json, os
OUT = []
def fixed(prop, commit, what):
    OUT.append(dict(property=prop, status='fixed', commit=commit, what=what, line='fixed: property=%s %s %s' % (prop, commit, what)))
def known(id, prop, contract, clauses, what):
    OUT.append(dict(id=id, property=prop, status='known', contract=contract, clauses=clauses, what=what))

fixed('C02', '7ee1f68', 'quaternion.slerp(a, b, t) with b close to -a interpolated through zero (nan / wrong rotation at t=1/2)')
fixed('C02', '13018e0', 'euler.make_euler_xyz_from_matrix missed gimbal lock when R[2,0] is -1 up to rounding and returned a different rotation')
fixed('C04', '039e41b', 'matrix3.ortonormalize overwrote the first two rows of its argument')
fixed('C04', 'a10d272', 'functions.direction_of_most_variance returned a row of the eigenvector matrix instead of the eigenvector (a column)')
fixed('C05', 'b7148e8', 'expmap.dRdv_i had the wrong sign for rotation vectors longer than pi (q re-parameterised, dq not)')
fixed('C05', '0206954', 'expmap.log of the identity quaternion raised ZeroDivisionError (and ValueError for a scalar part rounded above 1)')

fixed('C06', '22f3625', 'grid gradient scaled local coordinates by the grid corner instead of the grid spacing')
fixed('C07', '86f83f0', 'tetrahedron.grid_sampling labelled interior samples with a zero weight as interior')

fixed('C09', 'a2ee6d0', 'HashGird.insert returned the objects of an earlier time step (and later additions through the live list)')
fixed('C11', '6387fe3', 'create_loop_subdivision made the first corner tetrahedron of every element with negative orientation')

fixed('C12','3e06068','np.linalg.eig on an inertia tensor with equal moments gave non-orthogonal (or complex) axes, so the body frame and moments did not describe the tensor')
fixed('C14','4d0102e','the hinge stabilisation term had the opposite sign, so anchor separation and axis misalignment grew instead of shrinking')
fixed('C16','e942f94','the parallel Gauss-Seidel solver ignored updated contacts of earlier colors whose index is larger than the first contact of the color group')
fixed('C18', '35029b4', 'compute_total_energy returned nan for the potential energy when the gravity fields of the engine add up to zero (division by the norm of the sum)')
fixed('C27', 'f2a67b3', 'numbers such as 0.05 or 1.00 (zero as the first of several decimals) were rejected by the text parsers')
fixed('C26', '9df0e10', 'the text of a polynomial dropped the sign of a negative first coefficient')
fixed('C20', 'd2b7731', 'entries of the inverse kinematics Hessian between different joints (and the lower half of the block of a joint) were not the second derivatives of the objective')
fixed('C21','7e2e648','the corotational model called the polar decomposition (written for a batch) on a single deformation gradient and raised an exception')
fixed('C21','c5535c8','the stable Neo-Hookean energy used log10 although its stress is the derivative of the natural logarithm form')
fixed('C22','3cca4b8','nodal traction forces added up to half of the applied load (A/24 instead of A/12)')
fixed('C23','064ffc0','fixed soft bodies moved: stepping applied forces and velocities to them')
fixed('C23','9594efa','apply_post_stabilization of the soft body stepper failed (three rows per contact instead of four, wrong shapes) and moved constrained nodes')
fixed('C24','0e5c565','the normal of a soft body contact was not the gradient in the deformed configuration (wrong as soon as the body is rotated or deformed)')
fixed('C24','425bbe6','_is_share_vertex compared single coordinates, so triangles agreeing in one coordinate were taken for neighbours')
fixed('C24','8de948a','_triangle_intersection missed intersecting triangles and reported disjoint ones')
fixed('C23','28b6e8c','get_interaction raised KeyError for soft bodies whose materials have no common surface interaction')
fixed('C24','518d791','contacts were not generated within half a unit of the boundary of the signed distance field of the other body')
fixed('C30','7555fe8','links of a URDF robot were placed relative to the body frame of the root link instead of its reference frame')
fixed('C30','a0611cf','the scale of the meshes of a URDF file was ignored')
fixed('C31','1bb0930','the gears of a gear train were hinged about an axis perpendicular to their own')
fixed('C31','3f6e71e','the rock slide scene returned a list of names inside the list of names')
known('F1', 'C05', 'log_half_turn', ['logarithm of a half turn'],
      'expmap.log(q) returns the zero vector for every half turn (scalar part exactly 0) instead of pi times the axis; unit test '
      'test_log_exp_3 pins the zero result for (0,1,2,3), so the repair is not possible without editing the suite')

json.dump(OUT, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
