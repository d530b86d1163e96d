"""The properties and how each is decided."""
import os
import report, build, runner

HDIR = os.path.join(os.path.dirname(build.HERE), 'harness')

FACTOR = {
    # id: (classes, families or None)
    'C05': ({'residual'}, {'bearing3d'}),
    'C06': ({'jacobian'}, {'bearing3d'}),
    'C07': ({'residual'}, {'linear'}),
    'C08': ({'jacobian'}, {'linear'}),
    'C09': ({'residual'}, {'orient'}),
    'C10': ({'jacobian'}, {'orient'}),
    'C11': ({'residual'}, {'plane'}),
    'C12': ({'jacobian'}, {'plane'}),
    'C13': ({'residual'}, {'2d'}),
    'C14': ({'jacobian'}, {'2d'}),
    'C15': ({'residual', 'jacobian'}, {'frames'}),
    'C16': ({'overload'}, None),
    'C17': ({'container'}, None),
    'C18': ({'purity'}, None),
    'C19': ({'defined'}, None),
}
HIST = ['g_history_%d' % i for i in range(8)]
SHAPES = ['histories: every sequence of four operations out of eight (three evaluations, both at once, set, increment, toggle and finalise, add factor and finalise) on one small graph',
          'bounded in the shape of the graph: up to 4 variables of 1..3 dimensions and 3 to 4 factors of 1..6 rows, every constancy, every variable subset and order listed in harness/h_graph.cpp; and 8 irregular graphs (thorough: 64) of up to 12 variables of 1..9 dimensions with ids of any sign and up to 13 factors',
          'variables and factors are abstract: residuals, Jacobian blocks and increments are uninterpreted functions of the current values, so the result holds for every implementation that honours the interface (C02-C19)',
          'the variables of one factor are distinct; constancy is not changed between finalize_structure and evaluation']
OGN = ['o_gn_two', 'o_gn_one', 'o_gn_vec', 'o_gn_many']
BIG = ['o_gn_big', 'o_lm_big']
OLM = ['o_lm_two', 'o_lm_one', 'o_lm_vec', 'o_lm_many']
OTHER = ['o_gn_zero', 'o_lm_zero', 'o_gn_verbose', 'o_gn_nan', 'o_lm_nan', 'o_gn_throw', 'o_lm_throw', 'o_no_free',
         'o_twice_gn', 'o_twice_lm', 'o_again_gn', 'o_again_lm']
OPT = ['every trial is verified from an arbitrary state satisfying the loop invariant (harness/h_opt.cpp, solver_compute): any variable values, any damping within bounds, an initial residual at least the current one; the numbers of iterations are concrete (Gauss-Newton up to 12, Levenberg-Marquardt up to 6, with every attempt of each; thorough: 40 and 12)',
       'the linear solver is assumed to satisfy its contract: factorising may fail, pivots are any positive numbers, a solve may fail or returns Hinv*b with Hinv a symmetric function of the factorised matrix (discharged on Eigen SimplicialLDLT itself for matrices up to 4x4 of every sparsity pattern by C32, harness/h_ldlt.cpp; assumed beyond that size)',
       'problems of harness/h_opt.cpp: up to three variables of one or two dimensions and up to two factors of one or two rows, with constant variables, and one of five variables of one to three dimensions and four factors (bound)',
       'variables and factors are abstract: residuals, Jacobian blocks and increments are uninterpreted functions of the current values',
       'settings: tolerances and learning rate > 0, 1e-12 <= initial damping <= maximum, up factor >= 1, 0 < down factor <= 1',
       'clocks and output streams are not modelled']
# id: (harness file, entries, callees by contract?, bounds and preconditions to state)
ASSERT = {
    'C01': ('h_so3', ['s_exp', 's_log', 's_jinv', 's_skew'], False,
            ['rotation matrices are the images of the unit quaternions (all of SO(3))', 'left Jacobian: vectors of length below pi',
             'Eigen AngleAxis (from a matrix) is executed, not assumed']),
    'C02': ('h_vars', ['v_pose', 'v_pose_ctor', 'v_pose_dcm', 'v_rotation', 'v_rotation_ctor'], True,
            ['every operation is verified from an arbitrary state satisfying the class invariant, so it holds after every history',
             'the mutable reference RotationVariable::dcm_AB() is not used to break the invariant']),
    'C03': ('h_vars', ['v_generic_1', 'v_generic_2', 'v_generic_3', 'v_generic_4', 'v_generic_6', 'v_generic_9', 'v_landmark', 'v_inverse_range', 'v_plane', 'v_pose2d'], True,
            ['generic variables: sizes 1,2,3,4,6,9 (bound)', 'plane normals and bearings with squared norm above 1e-12, initial range > 0, lower bound < upper bound']),
    'C04': ('h_vars', ['v_size_pose', 'v_size_rotation', 'v_size_generic', 'v_size_landmark', 'v_size_inverse_range', 'v_size_plane', 'v_size_pose2d'], True,
            ['vector lengths 0..8, generic variables of size 1..6 (bound)']),
    'C20': ('h_misc', ['m_huber_1', 'm_huber_2', 'm_huber_3', 'm_huber_4', 'm_huber_zero'], False,
            ['residual sizes 1 to 4, Jacobians of 1 to 3 columns and empty ones (bound)', 'delta at least 1e-12 (below it the code does not weight the Jacobian of residuals shorter than 1e-12)']),
    'C21': ('h_misc', ['m_numjac', 'm_numjac_rotation', 'm_numjac_generic', 'm_numjac_landmark', 'm_numjac_pose2d'], True,
            ['variables and residuals are abstract (uninterpreted increment and residual), any step > 0; up to 3 variables of 1 to 3 dimensions, 1 or 2 rows (bound)',
             'the step of the entries over real variable types is 1e-6; a pose is restored by set_value_from_vector, whose contract C02 discharges']),
    'C37': ('h_misc', ['m_test_one', 'm_test_rows', 'm_test_two', 'm_test_const', 'm_test_before'], False,
            ['variables, residuals and Jacobians are abstract; one or two factors of one or two rows (bound)', 'output streams are not modelled']),
    'C22': ('h_graph', ['g_layout', 'g_again', 'g_big'] + HIST, False, SHAPES),
    'C23': ('h_graph', ['g_eval', 'g_eval_order', 'g_eval_small', 'g_big'] + HIST, False, SHAPES),
    'C24': ('h_graph', ['g_eval', 'g_eval_order', 'g_eval_small', 'g_big'] + HIST, False, SHAPES),
    'C25': ('h_graph', ['g_eval', 'g_eval_order', 'g_eval_small', 'g_big'] + HIST, False, SHAPES),
    'C26': ('h_graph', ['g_vectors', 'g_big'] + HIST, False, SHAPES),
    'C27': ('h_graph', ['g_misuse_ids', 'g_misuse_before', 'g_misuse_finalize', 'g_misuse_size'], False, SHAPES),
    'C28': ('h_graph', ['g_again', 'g_big'] + HIST, False, SHAPES),
    'C29': ('h_opt', OGN + OLM + OTHER + BIG + ['o_lm_verbose'], False, OPT),
    'C30': ('h_opt', OLM + ['o_lm_big', 'o_lm_throw', 'o_twice_lm', 'o_again_lm', 'o_lm_nan'], False, OPT),
    'C31': ('h_opt', OGN + OLM + OTHER + BIG, False, OPT),
    'C32': ('h_opt', OGN + OLM + OTHER + BIG, False, OPT),
    'C33': ('h_opt', OLM + ['o_lm_big', 'o_lm_throw', 'o_twice_lm', 'o_again_lm', 'o_lm_nan', 'o_lm_verbose', 'o_lm_zero'], False, OPT),
    'C34': ('h_opt', OGN + OLM + OTHER + ['o_lm_verbose', 'o_no_graph'], False, OPT),
    'C35': ('h_opt', ['o_cov_two', 'o_cov_vec', 'o_cov_gn', 'o_cov_lm', 'o_cov_reuse', 'o_cov_many', 'o_cov_big', 'o_no_graph'], False, OPT[1:]),
}
# further harnesses
EXTRA = {'C32': [('h_ldlt', ['l_one', 'l_two', 'l_three', 'l_four', 'l_many', 'l_gram'])]}
# properties whose contracts are discharged for all values but for a bounded set of shapes: (explanation)
BOUNDED_SHAPE = {}
LONG = ['o_lm_long', 'o_gn_long', 'g_big_more', 'o_lm_big', 'g_big', 'o_lm_one', 'o_lm_verbose', 'o_lm_nan', 'o_lm_two', 'o_lm_vec', 'o_lm_many', 'o_gn_many', 'o_twice_lm', 'o_again_lm']
for _p in ASSERT:
    if ASSERT[_p][0] in ('h_graph', 'h_opt') or _p in ('C21', 'C37'):
        BOUNDED_SHAPE[_p] = ('contracts of the real functions discharged for all values of variables, residuals and Jacobian blocks (uninterpreted functions), '
                             'for every graph shape in the stated bound only')
BOUNDED_SHAPE['C20'] = 'contracts of the real functions discharged for all values, for residual sizes 1 to 4 and Jacobians of 0 to 3 columns only'
BOUNDED_SHAPE['C04'] = 'contracts discharged for all values, for vector lengths 0 to 8 only'
TRUSTED = ['clang 18 front end and -O1 canonicalisation (code executed as LLVM IR)',
           'engine/symex.py (LLVM IR semantics), engine/terms.py (field/SO(3) identity decision), z3',
           'libstdc++/Eigen are executed, not modelled (except Eigen stableNorm, by contract, where listed); std::string contents and stream output are not modelled']
ASSUME = ['machine doubles are read as real numbers and decimal literals as the reals they denote (rounding not covered)',
          'identity decision: equality at 8-10 random points of F_(2^127-1) (Schwartz-Zippel error < 2^-100 per point; a wrong sign of a square root survives one point with probability 1/2, so < 2^-8)',
          'std::sin/cos/tan/acos/atan2/sqrt are the mathematical functions']


def program(rep, files, **kw):
    try:
        return build.program(files, **kw)
    except build.BuildError as e:
        print('the current tree does not compile under clang: undecided\n' + str(e)[-1500:])
        rep.undecided.append('build')
        return None


def new(pid, tier, seed):
    r = report.Report(pid, tier, seed)
    r.trusted, r.assumptions = TRUSTED, list(ASSUME)
    return r


def run_factor(pid, tier, seed):
    import factors, specs
    classes, fams = FACTOR[pid]
    r = new(pid, tier, seed)
    r.assumptions += ['calls of ExpMapSO3, LogMapSO3 and compute_inverse_right_jacobian_so3 are replaced by their contracts, which C01 discharges',
                      'preconditions: target at least 1e-6 from the sensor (1e-6 from the scaling origin), sigma > 0, nonzero observation vectors, distinct variables within one factor',
                      'generic factors: dimension instances 1,2,3,4,6 (velocity: 6 instances), stated as a bound']
    prog = program(r, factors.files())
    names = [H.name for H in specs.HARNESSES if not fams or H.fam in fams]
    nb = 60 if tier == 'quick' else 400
    if prog is None:
        runner.only_bounded(r, names, lambda n, k: factors.bounded(specs.BYNAME[n], classes, seed, k), nb)
        return r.finish()

    def one(n):
        H = specs.BYNAME[n]
        run = factors.Run()
        factors.run_harness(prog, H, classes, run)
        return runner.summarize(n, run, lambda o: factors.confirm(o, classes), lambda k: factors.bounded(H, classes, seed, k), nb, tier == 'thorough')
    runner.collect(r, names, one, lambda n, k: factors.bounded(specs.BYNAME[n], classes, seed, k), 300, 500, nb)
    r.functions = demangled(r.functions)
    return r.finish()


def run_assert(pid, tier, seed):
    import asserts, factors
    hf, entries, hooks, notes = ASSERT[pid]
    r = new(pid, tier, seed)
    r.assumptions += notes
    if pid in BOUNDED_SHAPE:
        r.level, r.explanation = 'other', BOUNDED_SHAPE[pid]
    if hooks:
        r.assumptions.append('calls of ExpMapSO3, LogMapSO3 and compute_inverse_right_jacobian_so3 are replaced by their contracts, which C01 discharges')
    nb = 300 if tier == 'quick' else 3000
    cl = {pid}
    parts = [(hf, entries)] + EXTRA.get(pid, [])
    files = {e: [os.path.join(HDIR, f + '.cpp')] for f, es in parts for e in es}
    progs = {f: program(r, [os.path.join(HDIR, f + '.cpp')]) for f, es in parts}
    prog = {e: progs[f] for f, es in parts for e in es}
    if tier == 'thorough':
        if 'g_big' in files:
            files['g_big_more'], prog['g_big_more'] = files['g_big'], prog['g_big']
        files.update({e: files['o_lm_one'] for e in ('o_gn_long', 'o_lm_long') if 'o_lm_one' in files})
        prog.update({e: prog['o_lm_one'] for e in files if e not in prog})
    # the longest first
    entries = sorted(files, key=lambda e: LONG.index(e) if e in LONG else len(LONG))

    def bounded(n, k):
        return asserts.bounded(files[n], asserts.Spec(n, cl, hooks), cl, seed, k)
    if None in progs.values():
        runner.only_bounded(r, entries, bounded, nb)
        return r.finish()

    def one(n):
        S = asserts.Spec(n, cl, hooks)
        run = factors.Run()
        asserts.run_spec(prog[n], S, cl, run)
        return runner.summarize(n, run, lambda o: asserts.confirm(files[n], o, cl), lambda k: bounded(n, k), nb, tier == 'thorough')
    runner.collect(r, entries, one, bounded, 560, 700, nb)
    r.functions = demangled(r.functions)
    return r.finish()


def demangled(names):
    import subprocess
    names = [n for n in names if 'factorama' in n]
    if not names:
        return set()
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return set(x.strip() for x in p.stdout.splitlines())


def run(pid, tier, seed):
    if pid in FACTOR:
        return run_factor(pid, tier, seed)
    if pid in ASSERT:
        return run_assert(pid, tier, seed)
    raise SystemExit('unknown property ' + pid)
