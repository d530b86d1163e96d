"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (one source for both; run by hand when they change)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/factorama/'
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=(), level='proof', note='', na=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=[S + f for f in files],
                  mech=[{'name': a, 'where': S + b} for a, b in mech], observe=list(observe), state=list(state),
                  level=level, note=note, na=na, tech=tech))


F3 = ['bearing_observation_factor.cpp', 'bearing_projection_factor_2d.cpp', 'inverse_range_bearing_factor.cpp']
LIN = ['generic_prior_factor.hpp', 'generic_between_factor.cpp', 'linear_velocity_factor.cpp', 'pose_prior_factors.cpp', 'pose_between_factors.hpp', 'pose_between_factors.cpp']
ORI = ['pose_prior_factors.cpp', 'pose_between_factors.hpp', 'rotation_prior_factor.hpp']
PLN = ['plane_factor.cpp', 'plane_prior_factor.cpp']
TWO = ['bearing_observation_factor_2d.cpp', 'range_bearing_factor_2d.cpp', 'pose_2d_prior_factor.cpp', 'pose_2d_between_factor.cpp']
FR = ['coordinate_transform_factor.hpp']
ALLF = F3 + LIN + ['rotation_prior_factor.hpp'] + PLN + TWO + FR
VARS = ['pose_variable.cpp', 'rotation_variable.hpp', 'generic_variable.hpp', 'landmark_variable.hpp', 'inverse_range_variable.cpp', 'plane_variable.hpp', 'pose_2d_variable.cpp']
REAL = 'Over the reals: rounding of machine doubles is not covered. Trusted: clang 18 front end, the symbolic executor and identity decision in /verif/engine, z3. '
FN = REAL + 'ExpMapSO3, LogMapSO3 and the inverse SO(3) Jacobian enter by their contracts (C01).'
TF = 'deductive verification of the compiled code (path-complete symbolic execution of LLVM IR against contracts; algebraic identity decision plus SMT)'

prop('C01', 'SO(3) maps satisfy their mathematical definitions on their whole domain',
     'For every rotation vector the exponential map is the rotation by its length about its direction. For every rotation matrix, including those by angles at and near 0 and pi, the logarithm returns a rotation vector of length at most pi whose exponential is that matrix, and the inverse SO(3) Jacobian is the inverse of the left Jacobian of the exponential for every vector shorter than pi. Where the code approximates near zero the error is at most 1e-12 (rounding of doubles aside).',
     ['inputs'], 'all rotation vectors (Jacobian: norm below pi), all rotation matrices, including the small-angle and near-pi branches',
     'tests evaluate a handful of angles; branch thresholds near 0 and pi and sign conventions must hold on the whole continuum',
     ['random_utils.cpp'], [('ExpMapSO3', 'random_utils.cpp'), ('LogMapSO3', 'random_utils.cpp'), ('compute_inverse_right_jacobian_so3', 'random_utils.cpp')],
     ['ExpMapSO3', 'LogMapSO3', 'compute_inverse_right_jacobian_so3'])
prop('C02', 'Pose and rotation variables update on the manifold and stay coherent',
     'After an increment the rotation of a pose or rotation variable is Exp(increment) times its previous rotation and the position is the previous position plus the increment. After construction and after every setter or increment, the value vector and the cached rotation matrix describe the same rotation, and the part of the state an operation does not name is unchanged.',
     ['inputs', 'histories'], 'every reachable state (rotation vector and position), every increment, every setter, in any order (inductive invariant)',
     'tests apply a few increments to a few poses; left/right multiplication, stale caches and drift depend on the whole state space and on histories',
     ['pose_variable.cpp', 'pose_variable.hpp', 'rotation_variable.hpp'],
     [('apply_increment', 'pose_variable.cpp'), ('recompute_dcm_CW', 'pose_variable.cpp'), ('apply_increment', 'rotation_variable.hpp')],
     ['value()', 'dcm_CW()', 'pos_W()', 'rotation()'], [{'name': 'dcm_CW_', 'meaning': 'cached rotation matrix of the rotation vector', 'where': S + 'pose_variable.hpp'}])
prop('C03', 'Other variables apply updates exactly and keep their state invariants',
     'Generic and landmark variables store exactly what is set and add exactly the increment; an inverse range always lies between its configured bounds and is otherwise exactly the value set or summed; a plane variable always has a unit normal proportional to the set or incremented normal, and a 2D pose adds its increment with the angle wrapped to (-pi, pi]. A clone equals its original and neither changes when the other is modified; reading never modifies.',
     ['inputs', 'histories'], 'every state, every set value and increment, both sides of every clamp and wrap, every variable type',
     'tests use a few values, mostly away from clamps and wraps', VARS[2:] + ['inverse_range_variable.hpp', 'pose_2d_variable.hpp'],
     [('clip_inverse_range', 'inverse_range_variable.cpp'), ('wrap_angle', 'pose_2d_variable.cpp'), ('apply_increment', 'plane_variable.hpp')], ['value()', 'pos_W()', 'unit_vector()', 'clone()'])
prop('C04', 'Variables reject vectors of the wrong size and keep their state',
     'Setting a variable from a vector, or applying an increment vector, whose length differs from the size of the variable throws and leaves the variable exactly as it was. A vector of the right length never throws.',
     ['inputs'], 'every variable type, every vector length (explored: 0 to 8), every state',
     'tests try at most one wrong size for some types', VARS, [('set_value_from_vector', 'generic_variable.hpp'), ('apply_increment', 'generic_variable.hpp')], ['set_value_from_vector', 'apply_increment'])
prop('C05', '3D bearing factors compute the documented residual',
     'For every pose, landmark or inverse range, bearing and sigma, a bearing observation or inverse-range bearing residual is 1/sigma times (unit vector from camera to point in the camera frame minus unit observed bearing). The tangent-plane projection residual has length 1/sigma times the sine of the angle between both directions when the point is in front (cosine above 1e-6), and every entry is 1/sigma otherwise.',
     ['inputs'], 'all poses, points (at least 1e-6 from the sensor), bearings, sigma > 0',
     'tests check a few geometries', F3, [('compute_residual', f) for f in F3], ['compute_residual()'])
prop('C06', '3D bearing factor Jacobians are the derivatives of their residuals',
     'For every admissible state and every combination of constant variables, each Jacobian of the bearing observation, inverse-range bearing and bearing projection factors equals the derivative of that factor\'s residual along the documented update of the variable (additive position, Exp(increment) times rotation).',
     ['inputs', 'configurations'], 'all states, all constant/free combinations, any initial content of the output buffer',
     'tests compare against numerical differences at a few states with a loose tolerance', F3, [('compute_jacobians', f) for f in F3], ['compute_jacobians()'])
prop('C07', 'Linear factors compute the documented residual',
     'Generic prior and between, linear velocity, pose position prior and pose position between (world or local frame) factors return 1/sigma times the documented difference of their variables and measurements (state minus prior, b minus a minus measured, b minus a minus dt times velocity on the chosen slice, difference rotated into the first pose\'s frame when local).',
     ['inputs', 'configurations'], 'all values and sigma > 0; variable sizes 1,2,3,4,6, six velocity slices; world and local frame',
     'tests check single values', LIN, [('compute_residual', f) for f in LIN[:5]], ['compute_residual()'])
prop('C08', 'Linear factor Jacobians are the derivatives of their residuals',
     'For every state and every combination of constant variables, each Jacobian of the generic prior and between, linear velocity, pose position prior and pose position between factors equals the derivative of the residual along the documented update of that variable.',
     ['inputs', 'configurations'], 'as C07, all constant/free combinations, any initial content of the output buffer',
     'tests sample few combinations', LIN, [('compute_jacobians', f) for f in LIN[:5]], ['compute_jacobians()'])
prop('C09', 'Orientation factors compute the documented residual',
     'Pose orientation prior and rotation prior residuals are 1/sigma times Log(R * prior^T); the pose orientation between residual is 1/sigma times Log(R_b * R_a^T * C) with C the calibration rotation.',
     ['inputs'], 'all rotations, all priors, sigma > 0', 'tests check a few rotations', ORI, [('compute_residual', f) for f in ORI], ['compute_residual()'])
prop('C10', 'Orientation factor Jacobians are the derivatives of their residuals',
     'For every state (relative rotation below pi) and every combination of constant variables, each Jacobian of the pose orientation prior, rotation prior and pose orientation between factors equals the derivative of the residual along the update Exp(increment) times rotation.',
     ['inputs', 'configurations'], 'all rotations, priors, constant/free combinations, any initial content of the output buffer',
     'numerical-difference tests run near small angles where wrong Jacobians look right', ORI, [('compute_jacobians', f) for f in ORI], ['compute_jacobians()'])
prop('C11', 'Plane factors compute the documented residual',
     'The point-plane residual is 1/sigma times (normal . point + d), divided by (1 + distance from the scaling origin / reference distance) when distance scaling is on. The plane prior residual is the tangential part of (normal - prior normal) over its sigma followed by (d - prior d) over its sigma.',
     ['inputs', 'configurations'], 'all planes, points, priors, scaling on and off', 'tests check few planes', PLN, [('compute_residual', f) for f in PLN], ['compute_residual()'])
prop('C12', 'Plane factor Jacobians are the derivatives of their residuals',
     'For every state and every combination of constant variables, each Jacobian of the point-plane factor (with and without distance scaling) and of the plane prior equals the derivative of the residual along the documented update of the variable (normal incremented, then renormalised).',
     ['inputs', 'configurations'], 'as C11, all constant/free combinations', 'tests compare at few states', PLN, [('compute_jacobians', f) for f in PLN], ['compute_jacobians()'])
prop('C13', '2D factors compute the documented residual with wrapped angles',
     '2D bearing, range-bearing, pose prior and pose between factors return the weighted difference of predicted and measured quantities in the documented frame, range residuals first. Every angular residual is the difference wrapped to (-pi, pi] before weighting.',
     ['inputs', 'configurations'], 'all 2D poses, landmarks (at least 1e-6 from the sensor), measurements, sigmas', 'tests check few angles', TWO, [('compute_residual', f) for f in TWO], ['compute_residual()'])
prop('C14', '2D factor Jacobians are the derivatives of their residuals',
     'For every state and every combination of constant variables, each Jacobian of the 2D bearing, range-bearing, pose prior and pose between (global and local frame) factors equals the derivative of that factor\'s residual along the additive update.',
     ['inputs', 'configurations'], 'as C13, all constant/free combinations', 'tests compare at few states', TWO, [('compute_jacobians', f) for f in TWO], ['compute_jacobians()'])
prop('C15', 'Coordinate transform factor: documented residual and exact Jacobians',
     'The coordinate transform residual is 1/sigma times (landmark_A - (scale * R * landmark_B - origin_B_in_A)) for every rotation, origin, scale and pair of landmarks. Each of its five Jacobians equals the derivative of that residual along the update of its variable, for every combination of constant variables.',
     ['inputs', 'configurations'], 'all states, all 32 constant/free combinations', 'tests check a few', FR, [('CoordinateTransformFactor', FR[0])], ['compute_residual()', 'compute_jacobians()'])
prop('C16', 'Both residual entry points of every factor agree',
     'For every factor and every state, writing the residual into a caller-supplied segment gives exactly the vector the by-value form returns, and writes nothing outside that segment.',
     ['inputs'], 'all factor types, all admissible states', 'tests call mostly one form', ALLF, [('compute_residual', f) for f in ALLF[:4]], ['compute_residual()', 'compute_residual(Ref)'])
prop('C17', 'Jacobian lists have the right count, shapes and no stale content',
     'Whatever the output list held before, after the call it has exactly one matrix per variable: empty for a constant variable, otherwise residual-size by variable-size. No entry depends on what the list held before, no memory outside is touched, and the factor lists its variables in order with consistent sizes.',
     ['inputs', 'configurations', 'histories'], 'all factors, all constant/free combinations, six kinds of previous list content',
     'the graph reuses these lists between iterations; tests mostly pass fresh lists with free variables', ALLF, [('compute_jacobians', f) for f in ALLF[:4]], ['compute_jacobians()'])
prop('C18', 'Evaluating a factor never modifies variables',
     'Computing residuals or Jacobians of any factor leaves every variable (value, cached rotation, constancy) exactly as it was.',
     ['inputs', 'configurations'], 'all factors, states and constant/free combinations', 'tests rarely compare state afterwards', ALLF, [('compute_residual', f) for f in ALLF[:4]], ['value()'])
prop('C19', 'Factors are defined on every admissible state',
     'For every admissible state no factor evaluation throws, and no division by zero or root of a negative number occurs, so residuals and Jacobians are finite. Admissible means positive sigmas, unit normals, targets at least 1e-6 from the sensor and relative rotations below pi.',
     ['inputs'], 'all factors, all admissible states', 'singular sets are thin; samples miss them', ALLF, [('compute_residual', f) for f in ALLF[:4]], ['compute_residual()', 'compute_jacobians()'])
prop('C20', 'Huber kernel scales residuals and Jacobians consistently',
     'A residual of norm at most delta is returned unchanged; a longer one is scaled by sqrt(delta / norm). The Jacobian transformation is the derivative of that residual transformation (identity inside delta) for every Jacobian in the list, including empty ones.',
     ['inputs'], 'all residuals of sizes 1 to 4 and Jacobians of 1 to 3 columns, all delta > 0, both branches', 'no derivative test exists', ['kernels.hpp'], [('HuberKernel', 'kernels.hpp')], ['apply_to_residual', 'apply_to_jacobians'])
prop('C21', 'Numerical Jacobians are central differences and restore the state',
     'The numerical Jacobian of a factor has, for each free variable and coordinate, exactly (residual after +epsilon minus residual after -epsilon) / (2 epsilon) and an empty matrix for a constant variable. Every variable is left exactly as it was.',
     ['inputs', 'configurations'], 'all states, any factor over variables with additive updates, every constant/free combination',
     'used as the oracle in the tests themselves', ['numerical_jacobian.hpp'], [('ComputeNumericalJacobians', 'numerical_jacobian.hpp')], ['ComputeNumericalJacobians'])

prop('C37', 'The factor test of a graph passes exactly on correct Jacobians',
     'detailed_factor_test returns true exactly when every factor hands out one Jacobian per variable, an empty one for every constant variable and a finite one of the right shape for every free variable whose largest error against the central difference is below max(0.01, tolerance times the largest entry of the central difference). It refuses to run before finalize_structure and leaves every variable as it was.',
     ['inputs', 'configurations'], 'all values, all tolerances, correct Jacobians and every kind of wrong one (count, shape, value, not a number, of a constant variable) in any factor',
     'the tests and users rely on it as the judge of Jacobians, and only ever show it correct ones', ['factor_graph.cpp', 'numerical_jacobian.hpp'],
     [('detailed_factor_test', 'factor_graph.cpp')], ['detailed_factor_test'])

exec(open(os.path.join(ROOT, 'tools', 'props_graph.py')).read())


import sys
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import props as _props
for p in P:
    if p['id'] in _props.BOUNDED_SHAPE and not p['na']:
        p['level'] = 'other'
        p['note'] = _props.BOUNDED_SHAPE[p['id']][0].upper() + _props.BOUNDED_SHAPE[p['id']][1:] + '. ' + (
            REAL if _props.ASSERT[p['id']][0] != 'h_opt' else REAL + 'The linear solver enters by an assumed contract; loops over iterations and trials by an invariant at the start of every trial.')
DONE = set(x.strip() for x in open(os.path.join(ROOT, 'tools', 'claimed.txt')).read().split())
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': None}
        if p['state']:
            a['state'] = p['state']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    elif p['id'] not in DONE:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'],
                       'thorough_cmd': 'python3-vt check.py ' + p['id'] + ' --tier thorough',
                       'technique': p['tech'] or TF, 'level': p['level'], 'level_note': p['note'] or FN})
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: /repo carries only fix: commits. See DESIGN.md.'}, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
